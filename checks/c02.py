"""C02: parameters are created once by init and injected unchanged by apply.

A program is a sequence of parameter requests; which module path, name and shape
each one uses is chosen by the solver (every program within the bound is
explored); initial values, supplied parameters and keys are symbolic.
"""
from checks.common import *
from vlib.core import plain


class A(hk.Module):
  """Requests run in the call method, another method, the constructor, a submodule or a transparent method."""

  def __init__(self, ctor=None, name=None):
    super().__init__(name=name)
    self.ctor_out = ctor() if ctor is not None else None

  def __call__(self, g):
    return g()

  def other(self, g):
    return g()

  def sub(self, g):
    return A(name="sub")(g)

  @property
  def prop(self):
    return self._g()

  @hk.transparent
  def clear(self, g):
    return g()


# target -> (module path, how to run a request there)
TARGETS = {
    "top": ("~", lambda a, b, g: g()),
    "a": ("a", lambda a, b, g: a(g)),
    "a.other": ("a", lambda a, b, g: a.other(g)),
    "a/sub": ("a/sub", lambda a, b, g: a(lambda: A(name="sub")(g))),
    "a.sub": ("a/~sub/sub", lambda a, b, g: a.sub(g)),
    "a.clear": ("~", lambda a, b, g: a.clear(g)),
    "b": ("a_1", lambda a, b, g: b(g)),
    "ba": ("a", lambda a, b, g: b(lambda: a(g))),
    "ab.clear": ("a", lambda a, b, g: a(lambda: b.clear(g))),
}
TNAMES = list(TARGETS)


def program(reqs, call, order=None):
  """The user function: module a, module b (auto numbered), then the requests."""
  def f(vals):
    a, b = A(name="a"), A(name="a")
    outs = []
    for i, (t, name, shape) in enumerate(reqs):
      outs.append(TARGETS[t][1](a, b, lambda: call(i, name, shape, vals)))
    return outs
  return f


def path(r):
  return TARGETS[r[0]][0], r[1]


@harness("C02", configs=product(first=tuple(TNAMES)), thorough=product(first=tuple(TNAMES), n=(4,)), budget=400,
         bounds="3 requests (thorough 4) over 9 ways of reaching 5 module paths and 3 names (one containing a slash that makes full names coincide); all initial and supplied values; every single missing entry; one extra entry")
def requests(ctx, first, n=3):
  pool = {"a": ["w", "v", "sub/w"]}
  reqs = []
  for i in range(n):
    t = first if i == 0 else ctx.choice(f"t{i}", TNAMES if n < 4 else TNAMES[:7])
    name = ctx.choice(f"n{i}", ["w", "v"] if TARGETS[t][0] != "a" else ["w", "sub/w"])
    reqs.append((t, name, ()))
  vals = [ctx.real(f"x{i}") for i in range(n)]
  calls = []
  def call(i, name, shape, vals):
    def init(s, d):
      calls.append((i, tuple(s), jnp.dtype(d)))
      return vals[i]
    return hk.get_parameter(name, shape, jnp.float32, init=init)
  f = hk.transform(program(reqs, call))
  box = {}
  def run_init(vals):
    outs = []
    def g(vals):
      outs.extend(program(reqs, call)(vals))
    return hk.transform(g).init(None, vals), outs
  params, outs = ctx.run(run_init, vals)
  want, first_at = {}, {}
  for i, r in enumerate(reqs):
    first_at.setdefault(path(r), i)
  for (m, k), i in first_at.items():
    want.setdefault(m, {})[k] = vals[i]
  ctx.eq("init returns exactly the requested parameters, first initializer wins", params, want)
  ctx.eq("init: every request returns the created value", outs, [vals[first_at[path(r)]] for r in reqs])
  ctx.check("initializer runs exactly once per parameter, with shape and dtype",
            calls == [(i, (), jnp.dtype(jnp.float32)) for i in sorted(first_at.values())])
  # ---- apply: supplied values come back unchanged
  given = ctx.like("p", plain(params))
  given["~"] = dict(given.get("~", {}))
  given["~"]["unused"] = ctx.real("extra")
  given["zz/a"] = {"w": ctx.real("extra2")}
  calls.clear()
  outs = ctx.run(lambda p, v: f.apply(p, None, v), given, vals)
  ctx.eq("apply returns the supplied values", outs, [given[path(r)[0]][path(r)[1]] for r in reqs])
  ctx.check("initializer never runs in apply", not calls)
  # ---- a missing entry is an error
  paths = sorted(first_at)
  m, k = paths[ctx.choice("missing", range(len(paths)))]
  less = {mm: {kk: v for kk, v in b.items() if (mm, kk) != (m, k)} for mm, b in given.items()}
  if not less[m] and ctx.flag("drop module"):
    less = {mm: b for mm, b in less.items() if b}
  ctx.raises("missing parameter", lambda: ctx.run(lambda p, v: f.apply(p, None, v), less, vals), ValueError)
  ctx.check("initializer never runs in apply", not calls)


@harness("C02", bounds="two requests of one parameter, shapes (), (1,), (2,), (2, 1), (1, 2), (3,) and a supplied value of any of these shapes; lists, tuples")
def shapes(ctx):
  S = [(), (1,), (2,), (2, 1), (1, 2), (3,)]
  s1, s2, s3 = (ctx.choice(f"s{i}", S) for i in range(3))
  as_list = ctx.flag("list")
  v = [ctx.real(f"v{i}", s) for i, s in enumerate((s1, s2, s3))]
  def net(v):
    sh = (lambda s: list(s)) if as_list else (lambda s: s)
    def ini(i):
      def init(shape, dtype):
        assert tuple(shape) == (s1, s2)[i] and dtype == jnp.float32
        return v[i]
      return init
    mod = A(name="m")
    one = mod(lambda: hk.get_parameter("w", sh(s1), init=ini(0)))
    two = mod(lambda: hk.get_parameter("w", sh(s2), init=ini(1)))
    return one, two
  f = hk.transform(net)
  init = lambda: ctx.run(lambda v: f.init(None, v), v)
  if s1 == s2:
    ctx.eq("init", init(), {"m": {"w": v[0]}})
  else:
    ctx.raises("init: conflicting shapes", init)
  app = lambda: ctx.run(lambda p, v: f.apply({"m": {"w": p}}, None, v), v[2], v)
  if s1 == s2 == s3:
    ctx.eq("apply", app(), (v[2], v[2]))
  else:
    ctx.raises("apply: supplied shape differs", app)


@harness("C02", bounds="dtypes float32/float16/int32/bool requested and supplied; value supplied is returned with its own dtype")
def dtypes(ctx):
  D = [jnp.float32, jnp.float16, jnp.int32, jnp.bool_]
  d = ctx.choice("d", D)
  seen = []
  def net():
    def init(s, dt):
      seen.append((s, jnp.dtype(dt)))
      return jnp.ones(s, dt)
    kw = {} if (d is jnp.float32 and ctx.flag("default")) else dict(dtype=d)
    return hk.get_parameter("w", (2,), init=init, **kw)
  f = hk.transform(net)
  p = f.init(None)
  ctx.check("init called with the requested dtype", seen == [((2,), jnp.dtype(d))])
  ctx.check("dtype of the parameter", p["~"]["w"].dtype == jnp.dtype(d) and p["~"]["w"].shape == (2,))
  d2 = ctx.choice("given", D)
  x = ctx.like("x", jax.ShapeDtypeStruct((2,), jnp.dtype(d2)))
  out = ctx.run(lambda x: f.apply({"~": {"w": x}}, None), x)
  ctx.eq("supplied value unchanged", out, x)


@harness("C02", configs=product(where=("ctor", "prop", "setup_in_call", "loop", "shared", "nested", "function")),
         bounds="parameters requested in constructors, properties, at most 3 repeated calls, shared submodules and plain functions; all values")
def reuse(ctx, where):
  x = ctx.real("x", (2,))
  n = ctx.choice("n", [1, 2, 3])
  count = []
  def get(i=0):
    def init(s, d):
      count.append(1)
      return x[i]
    return hk.get_parameter("w", (), init=init)
  class P(hk.Module):
    @property
    def w(self):
      return get()
  class Holder(hk.Module):
    def __init__(self, inner, name=None):
      super().__init__(name=name)
      self.inner = inner
    def __call__(self):
      return self.inner(lambda: get())
  def net(x_):
    nonlocal x
    x = x_
    if where == "ctor":
      a = A(lambda: get(), name="a")
      return [a.ctor_out] + [a(lambda: get(1)) for _ in range(n)]
    if where == "prop":
      p = P(name="a")
      return [p.w for _ in range(n + 1)]
    if where == "setup_in_call":
      a = A(name="a")
      return [a(lambda: A(name="s")(lambda: get())) for _ in range(n + 1)]
    if where == "loop":
      ms = [A(name="a") for _ in range(n)]
      return [m(lambda: get()) for m in ms for _ in range(2)]
    if where == "shared":
      a = A(name="a")
      return [a(lambda: get())] + [Holder(a, name=f"h{i}")() for i in range(n)]
    if where == "nested":
      a = A(name="a")
      return [a(lambda: a(lambda: get())) for _ in range(n)] + [a(lambda: get())]
    return [get() for _ in range(n)]
  path = {"setup_in_call": "a/s", "function": "~"}.get(where, "a")
  want_paths = [path] if where != "loop" else ["a"] + [f"a_{i}" for i in range(1, n)]
  f = hk.transform(net)
  def initf(x):
    outs = []
    p = hk.transform(lambda x: outs.extend(net(x))).init(None, x)
    return p, outs
  x0 = x
  p, outs = ctx.run(initf, x0)
  ctx.check("created once each", len(count) == len(want_paths))
  ctx.eq("params", p, {m: {"w": x0[0]} for m in want_paths})
  ctx.eq("init values", outs, [x0[0]] * len(outs))
  given = {m: {"w": ctx.real(f"g{i}")} for i, m in enumerate(want_paths)}
  count.clear()
  outs = ctx.run(lambda g, x: f.apply(g, None, x), given, x0)
  if where == "loop":
    want = [given[m]["w"] for m in want_paths for _ in range(2)]
  else:
    want = [given[path]["w"]] * len(outs)
  ctx.eq("apply values", outs, want)
  ctx.check("no initializer in apply", not count)


@harness("C02", bounds="initializers drawing keys; all keys")
def random_init(ctx):
  k = ctx.key("k")
  n = ctx.choice("n", [1, 2, 3])
  again = ctx.flag("again")
  key_init = lambda s, d: hk.next_rng_key()
  def net():
    outs = [hk.get_parameter(f"w{i}", (2,), jnp.uint32, init=key_init) for i in range(n)]
    if again:
      outs += [hk.get_parameter(f"w{i}", (2,), jnp.uint32, init=key_init) for i in range(n)]
    return outs
  f = hk.transform(net)
  def initf(k):
    outs = []
    p = hk.transform(lambda: outs.extend(net())).init(k)
    return p["~"], outs
  p, outs = ctx.run(initf, k)
  ctx.eq("requests return the created values", outs, [p[f"w{i % n}"] for i in range(len(outs))])
  ctx.distinct("each parameter gets its own key", [p[f"w{i}"] for i in range(n)])
  out = ctx.run(lambda p: f.apply({"~": p}, None), p)
  ctx.eq("apply needs no key and returns the same values", out, outs)


@harness("C02", bounds="no initializer given, None params, non-mapping params")
def errors(ctx):
  which = ctx.choice("which", ["noinit", "none", "list", "array", "outside"])
  f = hk.transform(lambda: hk.get_parameter("w", (), init=jnp.ones))
  if which == "noinit":
    g = hk.transform(lambda: hk.get_parameter("w", ()))
    ctx.raises("no initializer", lambda: g.init(None))
  elif which == "none":
    ctx.raises("no parameters supplied", lambda: f.apply(None, None), ValueError)
  elif which == "list":
    ctx.raises("params must be a mapping", lambda: f.apply([("w", 1)], None), TypeError)
  elif which == "array":
    ctx.raises("params must be a mapping", lambda: f.apply(jnp.ones(()), None), TypeError)
  else:
    ctx.raises("outside of transform", lambda: hk.get_parameter("w", (), init=jnp.ones), ValueError)
