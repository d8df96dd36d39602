"""C29: the helpers agree with what they stand for."""
import inspect

from checks.common import *
from vlib.core import plain


# ---------------------------------------------------------------- descriptions


class Tok:
  """A constructor argument: a symbolic integer that prints as a reference to itself."""

  def __init__(self, i, v):
    self.i, self.v = i, v

  def __eq__(self, o):
    return bool(self.v == (o.v if isinstance(o, Tok) else o))

  __hash__ = None

  def __repr__(self):
    return f"TOK[{self.i}]"


class R1(hk.Module):
  def __init__(self, x=None, y=42, name=None):
    super().__init__(name=name)


class R2(hk.Module):
  def __init__(self, a, b=1, c=2, name=None):
    super().__init__(name=name)


class R3(hk.Module):
  def __init__(self, a, b=(), *, k=1, j, name=None):
    super().__init__(name=name)


class R4(hk.Module):
  def __init__(self, size, another_argument=0, yet_another_argument=(1, 2), name=None, **others):
    super().__init__(name=name)


class R5(R2):
  pass


class R6(R2):
  def __init__(self, c=5, **kw):
    super().__init__(c=c, **kw)


CLASSES = {c.__name__: c for c in (R1, R2, R3, R4, R5, R6)}


@harness("C29", configs=product(cls=tuple(CLASSES), full=(False, True)), bounds="six constructor signatures (positional, defaulted, keyword-only and collected arguments, inherited), up to four arguments passed by position or name, integer values in -1..50 (all values, equal to the default or not) alone or inside containers, short and multi-line results", validate=False)
def description(ctx, cls, full):
  C = CLASSES[cls]
  sig = inspect.signature(C.__init__)
  params = [p for n, p in sig.parameters.items() if n not in ("self", "name") and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
  toks = []
  box = ctx.choice("box", ["plain", "list", "dict", "long"])
  def value(i):
    t = Tok(len(toks), ctx.int(f"v{i}", -1, 50))
    toks.append(t)
    return {"plain": t, "list": [t, "a b"], "dict": {"k": t, "x\ny": None}, "long": [t] + ["some text, 'quoted'" * 2] * 3}[box]
  args, kw = [], {}
  extra = ["free"] if any(p.kind == p.VAR_KEYWORD for p in sig.parameters.values()) and (full or cls == "R4") else []
  if cls == "R6" and full:
    extra = ["a"]
  elif cls == "R6":
    kw["a"] = 3
    extra = []
  for i, p in enumerate(params):
    how = ["position"] if p.kind == p.POSITIONAL_OR_KEYWORD and len(args) == i and not kw else []
    how += ["name"] + ([] if p.default is p.empty else ["left out"])
    how = ctx.choice(f"how{i}", how)
    if how == "position":
      args.append(value(i))
    elif how == "name":
      kw[p.name] = value(i)
  for e in extra:
    kw[e] = value(e)
  if full:
    kw["name"] = "some_name"
  got = []
  ref = {}
  def f():
    ref["m"] = C(*args, **kw)
    got.append(repr(ref["m"]))
  hk.transform(f).init(None)
  text = got[0]
  want = sig.bind(None, *args, **kw)
  shown = []
  def rebuilt(*a, **k):
    shown.append(set(k))
    b = sig.bind(None, *a, **k)
    b.apply_defaults()
    return b.arguments
  back = eval(text, {"TOK": toks, cls: rebuilt})  # pylint: disable=eval-used
  given = set(want.arguments) - {"self"} | set(want.arguments.get("kw", {})) | set(want.arguments.get("others", {}))
  want.apply_defaults()
  ctx.check("same arguments", set(back) == set(want.arguments))
  for n, w in want.arguments.items():
    same(ctx, f"{n} reconstructed from {text}"[:200], back[n], w)
  ctx.check(f"only arguments that were given: {text}"[:200], shown[0] <= given)
  for n in shown[0]:
    p = sig.parameters.get(n)
    if p is not None and p.default is not p.empty and p.kind == p.POSITIONAL_OR_KEYWORD:
      w = want.arguments[n]
      ctx.check(f"{n} is not its default", not bool(w == p.default))


def same(ctx, label, a, b):
  if isinstance(a, Tok) or isinstance(b, Tok):
    a, b = (x.v if isinstance(x, Tok) else x for x in (a, b))
    ctx.check(label, isinstance(a, int) and isinstance(b, int) and bool(a == b))
  elif isinstance(a, dict):
    ctx.check(label, isinstance(b, dict) and set(a) == set(b))
    for k in a:
      same(ctx, label, a[k], b.get(k))
  elif isinstance(a, (list, tuple)):
    ctx.check(label, type(a) is type(b) and len(a) == len(b))
    for x, y in zip(a, b):
      same(ctx, label, x, y)
  else:
    ctx.check(label, type(a) is type(b) and a == b)


# ---------------------------------------------------------------- to_module


@harness("C29", configs=product(nested=(False, True), inside=("plain", "jit")), bounds="functions with parameters, state, keys and submodules as modules: named or not, several instances, called once or twice, arguments by position or name; all values")
def to_module(ctx, nested, inside):
  name = ctx.choice("name", [None, "given"])
  second = ctx.choice("second", ["same instance", "new instance", "other name", "none"])
  how = ctx.choice("how", ["position", "name", "mixed"])
  x, y = ctx.real("x", (2,)), ctx.real("y", ())
  key = ctx.key("k")
  def body(x, y, scale=2.):
    w = hk.get_parameter("w", x.shape, init=lambda s, d: jnp.full(s, 3., d))
    n = hk.get_state("n", (), init=jnp.zeros)
    hk.set_state("n", n + y)
    k = hk.next_rng_key()
    z = x * w * scale + n
    if nested:
      z = hk.Linear(2, name="sub", w_init=hk.initializers.Constant(.5))(z)
    return z, k
  class Plain(hk.Module):
    def __init__(self, name):
      super().__init__(name=name)
    def __call__(self, *a, **k):
      return body(*a, **k)
  def call(m, x, y):
    c = {"position": lambda x, y: m(x, y, 4.), "name": lambda x, y: m(x=x, y=y), "mixed": lambda x, y: m(x, scale=5., y=y)}[how]
    return (hk.jit(c) if inside == "jit" else c)(x, y)
  def program(mk):
    def f(x, y):
      a = mk(name)
      out = [call(a, x, y)]
      if second == "same instance":
        out.append(call(a, x + 1, y))
      elif second == "new instance":
        out.append(call(mk(name), x + 1, y))
      elif second == "other name":
        out.append(call(mk("other"), x + 1, y))
      return out, hk.next_rng_key()
    return hk.transform_with_state(f)
  C = hk.to_module(body)
  got, want = program(lambda n: C(n) if n else C()), program(lambda n: Plain(n or "body"))
  pi, si = ctx.run(lambda k, x, y: plain(got.init(k, x, y)), key, x, y)
  ctx.eq("init as with the equivalent class", (pi, si), ctx.run(lambda k, x, y: plain(want.init(k, x, y)), key, x, y))
  p, s = ctx.like("p", init_shapes(want, x, y)[0]), ctx.like("s", init_shapes(want, x, y)[1])
  ctx.eq("apply as with the equivalent class", ctx.run(lambda p, s, k, x, y: plain(got.apply(p, s, k, x, y)), p, s, key, x, y),
         ctx.run(lambda p, s, k, x, y: plain(want.apply(p, s, k, x, y)), p, s, key, x, y))
  names = sorted(m for m in pi if "sub" not in m)
  base = name or "body"
  ctx.check(f"names {names}", names == sorted({base} | ({base + "_1"} if second == "new instance" else {"other"} if second == "other name" else set())))


@harness("C29", bounds="misuse of to_module", validate=False)
def to_module_errors(ctx):
  C = hk.to_module(lambda x: x)
  def body(x):
    return x
  D = hk.to_module(body)
  bad = ctx.choice("bad", [1., (1,), object(), jnp.ones(())])
  ctx.raises("a value where the name goes", lambda: hk.transform(lambda: D(bad)).init(None), TypeError)
  ctx.raises("needs a transform", lambda: D(), ValueError)
  ctx.raises("a lambda has no name that is a module name", lambda: hk.transform(lambda: C()).init(None), ValueError)


# ---------------------------------------------------------------- transform_and_run


@harness("C29", configs=product(seed=(42, 0, 7, None), run_apply=(True, False)), bounds="a function with parameters, state, keys; arguments by position and name; as decorator with and without options; all argument values")
def transform_and_run(ctx, seed, run_apply):
  x, y = ctx.real("x", (2,)), ctx.real("y", ())
  log = []
  def f(x, *, y):
    log.append(hk.running_init())
    w = hk.get_parameter("w", x.shape, init=lambda s, d: jnp.full(s, 3., d))
    n = hk.get_state("n", (), init=lambda s, d: x.sum())
    hk.set_state("n", n * y)
    ks = [hk.next_rng_key(), hk.next_rng_key()] if seed is not None else hk.maybe_next_rng_key()
    return x * w + n, ks
  form = ctx.choice("form", ["call", "decorator with options"] + (["plain"] if seed == 42 and run_apply else []))
  if form == "call":
    g = hk.testing.transform_and_run(f, seed=seed, run_apply=run_apply)
  elif form == "plain":
    g = hk.testing.transform_and_run(f)
  else:
    g = hk.testing.transform_and_run(seed=seed, run_apply=run_apply)(f)
  times = ctx.choice("times", [1, 2])
  for _ in range(times):
    got = ctx.run(lambda x, y: g(x, y=y), x, y)
  ran, expected = list(log), ([True, False] if run_apply else [True]) * times
  # The shape pass of the engine runs the function as well.
  ctx.check(f"init{' then apply' if run_apply else ''} only: {ran}", ran[:len(expected)] == expected and set(ran) == set(expected) and len(ran) % len(expected) == 0)
  t = hk.transform_with_state(f)
  def want(x, y):
    k = jax.random.PRNGKey(seed) if seed is not None else None
    p, s = t.init(k, x, y=y)
    return t.apply(p, s, k, x, y=y)[0]
  if run_apply:
    ctx.eq("value of apply", got, ctx.run(want, x, y))
  else:
    ctx.check("returns nothing", got is None)
  ctx.check("wraps", g.__name__ == "f")


# ---------------------------------------------------------------- running_init and profiler scopes


@harness("C29", configs=product(outer=("init", "apply"), how=("plain", "module", "jit", "remat", "scan", "cond", "vmap", "grad", "named_call")), bounds="running_init in nine positions of init and apply, before, inside and after nested transforms' init and apply", validate=False)
def running(ctx, outer, how):
  nested = ctx.choice("nested", ["none", "init", "apply", "raises"])
  seen = []
  def look(x=0.):
    seen.append((outer == "init", hk.running_init()))
    if nested != "none":
      t = hk.transform(lambda: seen.append((nested == "init", hk.running_init())) or boom())
      try:
        (t.init(None) if nested != "apply" else t.apply({}, None)) if nested != "raises" else t.apply({}, None)
      except ZeroDivisionError:
        pass
      seen.append((outer == "init", hk.running_init()))
    return x
  def boom():
    if nested == "raises":
      raise ZeroDivisionError
    return 0.
  class M(hk.Module):
    def __call__(self, x):
      return look(x)
  def f(x):
    look()
    if how == "module":
      M()(x)
    elif how in ("jit", "remat"):
      getattr(hk, how)(look)(x)
    elif how == "scan":
      hk.scan(lambda c, x: (look(c), x), x, jnp.zeros(3))
    elif how == "cond":
      hk.cond(x > 0, look, look, x)
    elif how == "vmap":
      hk.vmap(look)(jnp.zeros(2))
    elif how == "grad":
      hk.grad(look)(x)
    elif how == "named_call":
      hk.experimental.named_call(look, name="n")(x)
    look()
    return x
  t = hk.transform(f)
  if nested == "raises":
    ctx.check("outer still consistent", True)
  x = jnp.ones(())
  if outer == "init":
    t.init(None, x)
  else:
    t.apply({}, None, x)
  ctx.check(f"running_init {seen}"[:250], bool(seen) and all(a == b for a, b in seen))
  ctx.raises("outside", hk.running_init, ValueError)


@harness("C29", configs=product(prog=("mlp", "state", "nested", "method")), bounds="four programs with named scopes for profilers on, off and switched between init and apply; all params, states and inputs")
def profiler_scopes(ctx, prog):
  at_init, at_apply = ctx.flag("init"), ctx.flag("apply")
  class S(hk.Module):
    def __call__(self, x):
      n = hk.get_state("n", (), init=jnp.zeros)
      hk.set_state("n", n + x.sum())
      return x * n, hk.next_rng_key()
    def meth(self, x):
      return hk.Linear(1, name="in_meth")(x), self.flag()
    def flag(self):
      return 3
  class N(hk.Module):
    def __call__(self, x, *, flag=True):
      y, k = S()(x)
      return (hk.Linear(1)(y), k, S()(y)[1]) if flag else x
  f = {"mlp": lambda x: hk.nets.MLP([2, 1], activation=lambda v: v * v)(x), "state": lambda x: (S()(x), S()(x)),
       "nested": lambda x: (N()(x), N(name="m")(x, flag=True)), "method": lambda x: (lambda s: (s.meth(x)[0], s(x)))(S())}[prog]
  t = hk.transform_with_state(f)
  x = ctx.real("x", (1, 2))
  k = ctx.key("k")
  shapes = init_shapes(t, x)
  def under(flag, g, *a):
    old = hk.experimental.profiler_name_scopes(flag)
    try:
      ctx.check("reports the previous setting", hk.experimental.profiler_name_scopes(flag) == flag)
      return ctx.run(g, *a)
    finally:
      ctx.check("setting is kept", hk.experimental.profiler_name_scopes(old) == flag)
  on = under(at_init, lambda k, x: plain(t.init(k, x)), k, x)
  off = under(not at_init, lambda k, x: plain(t.init(k, x)), k, x)
  ctx.eq("init", on, off)
  p, s = ctx.like("p", shapes[0]), ctx.like("s", shapes[1])
  g = lambda p, s, k, x: plain(t.apply(p, s, k, x))
  ctx.eq("apply", under(at_apply, g, p, s, k, x), under(not at_apply, g, p, s, k, x))
