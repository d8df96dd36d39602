"""C09: jit, remat, grad, value_and_grad, vmap, named_call and eval_shape keep semantics.

Each wrapped call is compared with calling the function directly (for gradients:
with jax.value_and_grad of the pure apply function), for all values, parameters,
states and keys.
"""
from checks.common import *
from checks.c08 import execute


class Sub(hk.Module):
  def __call__(self, x):
    w = hk.get_parameter("w", (), init=hk.initializers.Constant(3.))
    n = hk.get_state("n", (), init=jnp.ones)
    hk.set_state("n", n * w + x)
    return w * x + n


class M(hk.Module):
  """A function made of the given actions; returns a tree."""

  def __init__(self, acts, name="m"):
    super().__init__(name=name)
    self.acts = acts

  def __call__(self, x, y=2.):
    ks = []
    for a in self.acts:
      if a == "param":
        x = x * hk.get_parameter("p", (), init=hk.initializers.Constant(5.)) + y
      elif a == "random param":
        x = x + jnp.sum(hk.get_parameter("r", (2,), jnp.uint32, init=lambda s, d: hk.next_rng_key()) < 2 ** 31)
      elif a == "read":
        x = x + hk.get_state("s", (), init=jnp.ones)
      elif a == "write":
        hk.set_state("s", hk.get_state("s", (), init=jnp.ones) * y + x)
      elif a == "set new":
        hk.set_state("t", x - y)
      elif a == "restore":
        hk.set_state("s", hk.get_state("s", (), init=jnp.ones))
      elif a == "swap":
        s, u = hk.get_state("s", (), init=jnp.ones), hk.get_state("u", (), init=jnp.zeros)
        hk.set_state("s", u), hk.set_state("u", s)
      elif a == "sub":
        x = Sub(name="sub")(x)
      elif a == "key":
        ks.append(hk.next_rng_key())
      elif a == "keys":
        ks.extend(hk.next_rng_keys(2))
      elif a == "reserve":
        hk.reserve_rng_keys(2)
      elif a == "scope":
        with hk.with_rng(hk.next_rng_key()):
          ks.append(hk.next_rng_key())
    return {"x": x, "ks": ks}

  def peek(self):
    return {n: hk.get_state(n) for n, a in (("s", ("read", "write", "swap", "restore")), ("t", ("set new",)), ("u", ("swap",))) if any(b in self.acts for b in a)}


ACTS = [(), ("param",), ("param", "read", "write"), ("set new", "param"), ("swap",), ("write", "write", "sub"), ("restore", "param"), ("key", "write"), ("keys", "param"), ("reserve", "key"), ("scope", "sub", "key"), ("read", "key", "param", "key", "write")]
DRAWS = ("key", "keys", "reserve", "scope")

WRAP = {
    "jit": hk.jit, "remat": hk.remat, "named_call": lambda f: hk.experimental.named_call(f, name="call"),
    "jit remat": lambda f: hk.jit(hk.remat(f)), "jit jit": lambda f: hk.jit(hk.jit(f)), "remat named": lambda f: hk.remat(hk.experimental.named_call(f)),
}


def prelude(pre):
  if pre == "key":
    return [hk.next_rng_key()]
  if pre == "reserve":
    hk.reserve_rng_keys(2)
    return [hk.next_rng_key()]
  return []


@harness("C09", configs=product(wrap=tuple(WRAP), acts=tuple(ACTS)), thorough=product(wrap=tuple(WRAP), acts=tuple(ACTS), calls=((3,),)), budget=300,
         bounds="each wrapper (and nested wrappers) around functions of up to 5 actions on parameters, state and keys, called 1..3 times, with direct calls in between, by position or keyword, in init and apply; all values and keys")
def same_as_direct(ctx, wrap, acts, calls=(1, 2)):
  mode = ctx.choice("mode", ["init", "apply"])
  n = ctx.choice("n", list(calls))
  reuse = ctx.flag("reuse") if n > 1 else True
  mixed = ctx.flag("mixed")
  draws = any(a in DRAWS for a in acts)
  pre = ctx.choice("pre", ["nothing", "key", "reserve"]) if draws and n == 1 else "nothing"
  kw = ctx.flag("kw") if n == 1 else False
  k, x, y = ctx.key("k"), ctx.real("x"), ctx.real("y")
  def prog(w):
    def f(x, y):
      m = M(acts, name="m")
      outs = [prelude(pre)]
      g = w(m)
      if mixed:
        outs.append(m(x, y))
      for i in range(n):
        h = g if reuse else w(m)
        outs.append(h(x + i, y=y) if kw else h(x + i, y))
        outs.append(m.peek())
      if mixed:
        outs.append(m(y, x))
      if draws:
        outs.append([hk.next_rng_key()])
      outs.append(m.peek())
      return outs
    return f
  direct, wrapped = prog(lambda f: f), prog(WRAP[wrap])
  sh = jax.eval_shape(lambda k, *a: execute("init", None, None, k, direct, *a)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds((x, y)))
  p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
  run = lambda f: ctx.run(lambda p, s, k, *a: execute(mode, p, s, k if draws else None, f, *a), p, s, k, x, y)
  got, want = run(wrapped), run(direct)
  ctx.eq("results, state seen, keys", got[0], want[0])
  ctx.eq("parameters and state returned", got[1], want[1])


@harness("C09", configs=product(acts=(("param",), ("param", "read", "write"), ("sub", "key"), ("set new", "param", "swap"), ("key", "param", "key", "write")), argnums=("default", 0, 1, (0, 1), (1,)), aux=(False, True)), budget=300,
         bounds="value_and_grad and grad with respect to either or both of two arguments (scalars, vectors, trees), with or without auxiliary output, inside jit or remat or not, in init and apply; all values and keys")
def gradients(ctx, acts, argnums, aux):
  mode = ctx.choice("mode", ["init", "apply"])
  form = ctx.choice("form", ["scalar", "vector", "tree"])
  api = ctx.choice("api", ["value_and_grad", "grad"])
  inner = ctx.choice("inner", ["plain", "jit", "remat"]) if form == "scalar" else "plain"
  draws = any(a in DRAWS for a in acts)
  mk = {"scalar": lambda n: ctx.real(n), "vector": lambda n: ctx.real(n, (2,)), "tree": lambda n: {"a": ctx.real(n + "a"), "b": [ctx.real(n + "b", (2,))]}}[form]
  k, x, y = ctx.key("k"), mk("x"), mk("y")
  tot = lambda t: sum(jnp.sum(l * l * (i + 1.)) for i, l in enumerate(jax.tree_util.tree_leaves(t)))
  kw = dict(has_aux=True) if aux else {}
  if argnums != "default":
    kw["argnums"] = argnums
  def loss(m):
    def f(x, y):
      o = m(tot(x), tot(y))
      v = o["x"] * o["x"]
      return (v, {"x": o["x"] + tot(y), "ks": o["ks"]}) if aux else v
    return f
  def prog(x, y):
    m = M(acts, name="m")
    first = m(tot(x)) if ctx_first else None
    f = loss(m)
    f = {"plain": f, "jit": hk.jit(f), "remat": hk.remat(f)}[inner]
    out = hk.value_and_grad(f, **kw)(x, y) if api == "value_and_grad" else hk.grad(f, **kw)(x, y)
    return first, out, m.peek(), ([hk.next_rng_key()] if draws else [])
  def direct(x, y):
    m = M(acts, name="m")
    first = m(tot(x)) if ctx_first else None
    out = loss(m)(x, y)
    return first, out, m.peek(), ([hk.next_rng_key()] if draws else [])
  ctx_first = ctx.flag("first") if form == "scalar" and inner == "plain" else True
  sh = jax.eval_shape(lambda k, *a: execute("init", None, None, k, direct, *a)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds((x, y)))
  p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
  key = lambda k: k if draws else None
  got = ctx.run(lambda p, s, k, *a: execute(mode, p, s, key(k), prog, *a), p, s, k, x, y)
  def ref(p, s, k, x, y):
    # gradient of the pure function: only what flows through the differentiated call counts
    def pure(xg, yg):
      def f(xg, yg):
        m = M(acts, name="m")
        first = m(tot(x)) if ctx_first else None
        out = loss(m)(xg, yg)
        v, a = out if aux else (out, None)
        return v, (first, a, m.peek(), ([hk.next_rng_key()] if draws else []))
      (v, rest), ps = execute(mode, p, s, key(k), f, xg, yg)
      return v, (rest, ps)
    (v, ((first, a, peek, ks), ps)), g = jax.value_and_grad(pure, argnums=0 if argnums == "default" else argnums, has_aux=True)(x, y)
    if api == "value_and_grad":
      out = ((v, a), g) if aux else (v, g)
    else:
      out = (g, a) if aux else g
    return (first, out, peek, ks), ps
  want = ctx.run(ref, p, s, k, x, y)
  ctx.eq("value, gradients, auxiliary output, state, keys", got[0], want[0])
  ctx.eq("parameters and state returned", got[1], want[1])


AXES = {
    "default": ({}, (0, 0), 0), "zero": (dict(in_axes=0, out_axes=0), (0, 0), 0), "second": (dict(in_axes=1), (1, 1), 0), "mixed": (dict(in_axes=(0, 1), out_axes=1), (0, 1), 1),
    "first only": (dict(in_axes=(0, None)), (0, None), 0), "second only": (dict(in_axes=(None, 0), out_axes=1), (None, 0), 1), "last": (dict(in_axes=-1, out_axes=-1), (-1, -1), -1),
}


@harness("C09", configs=product(axes=tuple(AXES), acts=(("param",), ("param", "shared write"), ("key", "param"), ("sub shared", "key"))), budget=300,
         bounds="vmap over batches of 1..3, mapped axes first, second, last or unmapped per argument, output axis first, second or last, trees of arguments; parameters, state and keys shared; all values and keys")
def vmap(ctx, axes, acts):
  mode = ctx.choice("mode", ["init", "apply"])
  B = ctx.choice("B", [1, 2, 3])
  kw, (ax, ay), oax = AXES[axes]
  draws = "key" in acts
  D = 2
  def shape(a):
    if a is None:
      return (D, D)
    s = [D, D]
    s.insert(a % 3, B)
    return tuple(s)
  k, x, y = ctx.key("k"), ctx.real("x", shape(ax)), {"a": ctx.real("y", shape(ay))}
  class V(hk.Module):
    def __call__(self, x, y):
      y = y["a"]
      out = x * 1.
      ks = []
      for a in acts:
        if a == "param":
          w = hk.get_parameter("w", x.shape[-1:], init=lambda s, d: jnp.arange(1., s[0] + 1))
          out = out * w + y
        elif a == "shared write":
          c = hk.get_state("c", (), init=jnp.ones)
          hk.set_state("c", c * 3. + hk.get_parameter("g", (), init=hk.initializers.Constant(4.)))
          out = out + c
        elif a == "sub shared":
          hk.set_state("c", hk.get_state("c", (), init=jnp.ones) + 1.)
          out = out * hk.get_state("c") + y
        elif a == "key":
          ks.append(hk.next_rng_key())
      return out, ks
    def peek(self):
      return [hk.get_state("c")] if any("shared" in a for a in acts) else []
  key = lambda k: k if draws else None
  def prog(x, y):
    m = V(name="v")
    out, ks = hk.vmap(m, **kw)(x, y)
    # keys are shared: every example sees the same ones
    ks = [q if oax == 0 else jnp.moveaxis(q, oax, 0) for q in ks]
    return out, [[q[b] for b in range(B)] for q in ks], m.peek(), ([hk.next_rng_key()] if draws else [])
  pick = lambda v, a, b: v if a is None else jax.lax.index_in_dim(v, b, a, keepdims=False)
  def one(b):
    def f(x, y):
      m = V(name="v")
      out, ks = m(pick(x, ax, b), {"a": pick(y["a"], ay, b)})
      return out, ks, m.peek(), ([hk.next_rng_key()] if draws else [])
    return f
  sh = jax.eval_shape(lambda k, *a: execute("init", None, None, k, one(0), *a)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds((x, y)))
  p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
  got = ctx.run(lambda p, s, k, x, y: execute(mode, p, s, key(k), prog, x, y), p, s, k, x, y)
  def ref(p, s, k, x, y):
    rs = [execute(mode, p, s, key(k), one(b), x, y) for b in range(B)]
    out = jnp.stack([r[0][0] for r in rs], axis=oax)
    ks = [[r[0][1][j] for r in rs] for j in range(len(rs[0][0][1]))]
    return (out, ks, rs[-1][0][2], rs[-1][0][3]), rs[-1][1]
  want = ctx.run(ref, p, s, k, x, y)
  ctx.eq("mapped result, shared keys, state, next key", got[0], want[0])
  ctx.eq("parameters and state returned", got[1], want[1])


@harness("C09", configs=product(acts=tuple(ACTS)), bounds="eval_shape before, between and after real calls, in init and apply, on functions that create parameters, write state and draw keys; all values and keys")
def eval_shape(ctx, acts):
  mode = ctx.choice("mode", ["init", "apply"])
  when = ctx.choice("when", ["first", "between", "last", "inside jit"])
  draws = any(a in DRAWS for a in acts)
  k, x, y = ctx.key("k"), ctx.real("x"), ctx.real("y", (3,))
  seen = []
  def prog(probe):
    def f(x, y):
      m = M(acts, name="m")
      def look():
        if probe:
          seen.append(hk.eval_shape(lambda a, b: (m(a.sum(), b=None) if False else m(a.sum()), b.T), jnp.ones((2, 3), jnp.float16), y))
          seen.append(hk.eval_shape(m, jax.ShapeDtypeStruct((4,), jnp.float32)) if not set(acts) & {"write", "set new", "sub"} else None)
      outs = []
      if when == "first":
        look()
      outs.append(m(x))
      if when == "between":
        look()
      if when == "inside jit":
        def inner(x):
          look()
          return m(x)
        outs.append(hk.jit(inner)(x) if probe else m(x))
      else:
        outs.append(m(x + 1.))
      if when == "last":
        look()
      outs.append(m.peek())
      if draws:
        outs.append([hk.next_rng_key()])
      return outs
    return f
  sh = jax.eval_shape(lambda k, *a: execute("init", None, None, k, prog(False), *a)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds((x, y)))
  p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
  run = lambda f: ctx.run(lambda p, s, k, *a: execute(mode, p, s, k if draws else None, f, *a), p, s, k, x, y)
  got, want = run(prog(True)), run(prog(False))
  ctx.eq("everything as without eval_shape", got, want)
  ctx.check("eval_shape ran", len(seen) >= 2)
  nk = sum({"key": 1, "keys": 2, "scope": 1}.get(a, 0) for a in acts)
  for r in seen[::2]:
    ctx.check("shapes and dtypes", r[0]["x"].shape == () and r[1].shape == (3,) and r[1].dtype == jnp.float32
              and len(r[0]["ks"]) == nk and all(q.shape == (2,) and q.dtype == jnp.uint32 for q in r[0]["ks"]))
  for r in seen[1::2]:
    ctx.check("shapes and dtypes", r is None or (r["x"].shape == (4,) and r["x"].dtype == jnp.float32))


@harness("C09", configs=product(outer=("jit", "remat", "named_call", "grad", "vmap"), inner=("scan", "cond", "while", "jit", "grad", "switch")), budget=200,
         bounds="each wrapper around a loop, branch or another wrapper that writes state and draws keys, in init and apply; all values and keys")
def combined(ctx, outer, inner):
  mode = ctx.choice("mode", ["init", "apply"] if inner != "while" else ["apply"])
  k, x = ctx.key("k"), ctx.real("x")
  class Q(hk.Module):
    def __call__(self, x):
      w = hk.get_parameter("w", (), init=hk.initializers.Constant(2.))
      s = hk.get_state("s", (), init=jnp.ones)
      hk.set_state("s", s * w + 1.)
      return w * x * s, hk.next_rng_key()
  def body(m, kind, x):
    if kind == "python":
      if inner in ("scan", "while"):
        ks = []
        for _ in range(2):
          x, kk = m(x)
          ks.append(kk)
        return x, ks
      x, kk = m(x)
      return x, [kk]
    if kind == "scan":
      x, ks = hk.scan(lambda c, _: m(c), x, None, length=2)
      return x, [ks[0], ks[1]]
    if kind == "while":
      def step(v):
        c, kk = m(v[1])
        return v[0] + 1, c, v[2].at[v[0]].set(kk)
      _, x, ks = hk.while_loop(lambda v: v[0] < 2, step, (0, x, jnp.zeros((2, 2), jnp.uint32)))
      return x, [ks[0], ks[1]]
    if kind in ("cond", "switch"):
      x, kk = hk.cond(jnp.asarray(1) > 0, m, m, x) if kind == "cond" else hk.switch(jnp.asarray(1), [m, m], x)
      return x, [kk]
    if kind == "jit":
      x, kk = hk.jit(m)(x)
      return x, [kk]
    (v, kk), g = hk.value_and_grad(m, has_aux=True)(x)
    return v + g * x - v, [kk]   # m is linear in x, so g * x == v
  def prog(o, i):
    def f(x):
      m = Q(name="q")
      g = lambda x: body(m, i, x)
      k0 = hk.next_rng_key()
      if o == "python" or o in ("jit", "remat", "named_call"):
        r, ks = {"python": lambda f: f, **WRAP}[o](g)(x)
      elif o == "grad":
        (r, ks), _ = hk.value_and_grad(g, has_aux=True)(x)
      else:
        r, ks = hk.vmap(g)(jnp.stack([x, x + 1.]))
        r, ks = r[0], [q[0] for q in ks]
      return r, ks, hk.get_state("t", (), init=jnp.zeros), m(x), [k0, hk.next_rng_key()]
    return f
  if outer == "grad" and inner == "while":
    outer = "jit"   # while loops have no reverse mode
  p, s = {}, {}
  if mode == "apply":
    p, s = {"q": {"w": ctx.real("w")}}, {"q": {"s": ctx.real("s")}, "~": {"t": ctx.real("t")}}
  run = lambda o, i: ctx.run(lambda p, s, k, x: execute(mode, p, s, k, prog(o, i), x), p, s, k, x)
  got, want = run(outer, inner), run("python", "python")
  ctx.eq("result, keys, state", got, want)
  ctx.distinct("keys differ", [k] + got[0][1] + got[0][4])


@harness("C09", validate=False, bounds="every wrapper outside of a transform")
def rejected(ctx):
  what = ctx.choice("what", ["jit", "remat", "grad", "value_and_grad", "vmap", "named_call", "eval_shape"])
  f = lambda x: x * 2.
  if what == "named_call":
    ctx.check("named_call also works outside", float(hk.experimental.named_call(f, name="g")(3.)) == 6.)
    return
  use = {"vmap": lambda: hk.vmap(f)(jnp.ones((2,))), "eval_shape": lambda: hk.eval_shape(f, jnp.ones(()))}.get(what, lambda: getattr(hk, what)(f)(1.))
  ctx.raises("outside of a transform", use, Exception)


@harness("C09", configs=product(wrap=("jit", "remat", "named_call", "vmap", "eval_shape")), bounds="modules created for the first time inside the wrapped function, followed by another module of the same class")
def names_outside(ctx, wrap):
  class A(hk.Module):
    def __call__(self, x):
      return hk.get_parameter("w", (), init=jnp.ones) * x
  inside = lambda x: A()(x)
  def f(x):
    if wrap == "vmap":
      y = hk.vmap(inside)(x[None])[0]
    elif wrap == "eval_shape":
      hk.eval_shape(inside, x)
      return A()(x)
    else:
      y = WRAP[wrap](inside)(x)
    return A()(y)
  got = hk.transform(f).init(None, jnp.ones(()))
  want = ["a"] if wrap == "eval_shape" else ["a", "a_1"]
  ctx.check(f"modules made inside {wrap} keep their names to themselves", sorted(got) == want)
