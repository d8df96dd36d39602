"""C07: stateful scan, fori_loop and while_loop equal the plain Python loop.

The same body runs once under the Haiku loop and once under an ordinary Python
loop (or, for data-dependent trip counts, a step-by-step merge of a pure
function); the solver compares carry, outputs, parameters, state and keys.
"""
from checks.common import *


class Sub(hk.Module):
  def __call__(self, x):
    w = hk.get_parameter("w", (), init=hk.initializers.Constant(3.))
    n = hk.get_state("n", (), init=jnp.ones)
    hk.set_state("n", n * w + x)
    return w * x + n


class Body(hk.Module):
  """One loop step made of the given actions; returns the new carry and outputs."""

  def __init__(self, acts, name="body"):
    super().__init__(name=name)
    self.acts = acts

  def __call__(self, c, x):
    ys = {}
    for a in self.acts:
      if a == "param":
        c = c * hk.get_parameter("p", (), init=hk.initializers.Constant(2.)) + x
      elif a == "state":
        s = hk.get_state("s", (), init=hk.initializers.Constant(1.))
        hk.set_state("s", s * x + c)
        ys["s"] = s
      elif a == "set only":
        hk.set_state("t", c + 1.)
      elif a == "sub":
        c = Sub(name="sub")(c) + x
      elif a == "key":
        ys.setdefault("keys", []).append(hk.next_rng_key())
      elif a == "keys2":
        ys.setdefault("keys", []).extend(hk.next_rng_keys(2))
      elif a == "scope":
        with hk.with_rng(hk.next_rng_key()):
          ys.setdefault("keys", []).append(hk.next_rng_key())
    ys["x"] = c - x
    return c, ys

  def read(self):
    """The state as it is now."""
    r = {}
    if any("state" in a for a in self.acts):
      r["s"] = hk.get_state("s")
    if "set only" in self.acts:
      r["t"] = hk.get_state("t")
    return r


ACTS = [("param",), ("state", "param"), ("sub", "set only", "state"), ("key", "state"), ("key", "sub", "key"), ("keys2", "param"), ("scope", "key")]
DRAWS = ("key", "keys2", "scope")
PRE = ["nothing", "key", "reserve", "loop"]


def before(what):
  if what == "key":
    return [hk.next_rng_key()]
  if what == "reserve":
    hk.reserve_rng_keys(3)
    return [hk.next_rng_key()]
  if what == "loop":
    _, ks = hk.scan(lambda c, _: (c, hk.next_rng_key()), 0., None, length=2)
    return [ks[0], ks[1]]
  return []


def split_keys(ys):
  """(other outputs per step, keys in the order they are listed)."""
  return [{k: v for k, v in y.items() if k != "keys"} for y in ys], [k for y in ys for k in y.get("keys", [])]


def execute(mode, p, s, key, f, *args):
  """(what f returned, the parameters and state produced)."""
  box = []
  t = hk.transform_with_state(lambda *a: box.append(f(*a)) or box[-1])
  if mode == "init":
    ps = t.init(key, *args)
    return box[0], ps
  return t.apply(p, s, key, *args)


def both(ctx, mode, acts, loop, ref, args, k, pre, assume=lambda out: None):
  """Runs the program around the Haiku loop and around the reference loop."""
  draws = any(a in DRAWS for a in acts)
  def f(which):
    def g(*args):
      m = Body(acts, name="body")
      ks = before(pre)
      c, ys = which(m, *args)
      ys, inner = split_keys(ys)
      return c, ys, m.read(), ks, inner, ([hk.next_rng_key(), hk.next_rng_key()] if draws else [])
    return g
  shapes = jax.eval_shape(lambda k, *a: execute("init", None, None, k, f(ref), *a)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds(args))
  p, s = (ctx.like("p", shapes[0]), ctx.like("s", shapes[1])) if mode == "apply" else ({}, {})
  go = lambda w: ctx.run(lambda p, s, k, *a: execute(mode, p, s, k if draws else None, f(w), *a), p, s, k, *args)
  want = go(ref)
  assume(want)
  return go(loop), want


def compare(ctx, got, want, k, same_keys):
  (c1, y1, r1, b1, i1, a1), ps1 = got
  (c2, y2, r2, b2, i2, a2), ps2 = want
  ctx.eq("carry", c1, c2)
  ctx.eq("outputs of each step", y1, y2)
  ctx.eq("state seen after the loop", r1, r2)
  ctx.eq("parameters and state returned", ps1, ps2)
  ctx.distinct("keys used before, in and after the loop differ", [k] + b1 + i1 + a1)
  if same_keys:
    ctx.eq("keys of the iterations", b1 + i1, b2 + i2)
    ctx.eq("keys afterwards", a1, a2)


@harness("C07", configs=product(acts=tuple(ACTS), mode=("init", "apply"), reverse=(False, True)),
         thorough=product(acts=tuple(ACTS), mode=("init", "apply"), reverse=(False, True), longest=(7,)), budget=300,
         bounds="scan, trip counts 0..4 (thorough 7), unroll 1, 2 or the length, xs an array, a tree or None, keys drawn or reserved or another loop before; all values and keys")
def scan(ctx, acts, mode, reverse, longest=4):
  length = ctx.choice("length", range(longest + 1))
  form = ctx.choice("xs", ["array", "tree", "none"] if length in (2, 3) else ["array"])
  unroll = ctx.choice("unroll", sorted({1, 2, max(length, 1)})) if length in (3, 4) else 1
  draws = any(a in DRAWS for a in acts)
  pre = ctx.choice("pre", PRE) if draws and form == "array" and length <= 3 else "nothing"
  explicit = ctx.flag("explicit") if form == "array" and length else False
  k, c0 = ctx.key("k"), ctx.real("c")
  if form == "array":
    xs = ctx.real("x", (length,))
  elif form == "tree":
    xs = {"a": ctx.real("x", (length,)), "b": (ctx.real("z", (length, 2)),)}
  else:
    xs = None
  def step(m, c, x):
    return m(c, x if form == "array" else (x["a"] + x["b"][0].sum() if form == "tree" else 2.))
  at = lambda t, xs: jax.tree_util.tree_map(lambda x: x[t], xs)
  def loop(m, c0, xs):
    kw = dict(length=length) if xs is None or explicit else {}
    if reverse:
      kw["reverse"] = True
    if unroll != 1:
      kw["unroll"] = unroll
    c, ys = hk.scan(lambda c, x: step(m, c, x), c0, xs, **kw)
    assert all(l.shape[0] == length for l in jax.tree_util.tree_leaves(ys))
    return c, [at(t, ys) for t in range(length)]
  def ref(m, c0, xs):
    if not length and hk.running_init():   # still creates the body's parameters
      step(m, c0, jax.tree_util.tree_map(lambda x: jnp.zeros(x.shape[1:]), xs))
    c, ys = jnp.asarray(c0), [None] * length
    for t in (reversed(range(length)) if reverse else range(length)):
      c, ys[t] = step(m, c, at(t, xs))
    return c, ys
  got, want = both(ctx, mode, acts, loop, ref, (c0, xs), k, pre)
  compare(ctx, got, want, k, pre in ("nothing", "key") and "keys2" not in acts)


@harness("C07", configs=product(acts=tuple(ACTS), mode=("init", "apply")), budget=300,
         bounds="fori_loop from -1..1 over -1..4 trips (constants at init; at apply also as traced values, all of them at once), keys drawn or reserved or another loop before; all values and keys")
def fori(ctx, acts, mode):
  lower = ctx.choice("lower", [-1, 0, 1])
  trips = ctx.choice("trips", [-1, 0, 1, 2, 3, 4])
  traced = ctx.flag("traced") if mode == "apply" else False
  draws = any(a in DRAWS for a in acts)
  pre = ctx.choice("pre", PRE) if draws and lower == 0 and trips in (2, 3) else "nothing"
  k, c0 = ctx.key("k"), ctx.real("c")
  n = max(trips, 0)
  def loop(m, c0, lo, up):
    def body(i, v):
      c, ks, xs = v
      c, y = m(c, 1. * i)
      return c, jax.tree_util.tree_map(lambda l, e: l.at[i - lower].set(e), ks, y.get("keys", [])), xs.at[i - lower].set(y["x"])
    nk = sum({"key": 1, "keys2": 2, "scope": 1}.get(a, 0) for a in acts)
    c, ks, xs = hk.fori_loop(lo, up, body, (c0, [jnp.zeros((max(n, 1), 2), jnp.uint32)] * nk, jnp.zeros((max(n, 1),))))
    return c, [dict(x=xs[t], keys=[q[t] for q in ks]) for t in range(n)]
  def ref(m, c0, lo, up):
    if not n and hk.running_init():
      m(c0, 1. * lower)
    c, ys = jnp.asarray(c0), []
    for i in range(lower, lower + trips):
      c, y = m(c, 1. * i)
      ys.append(dict(x=y["x"], keys=y.get("keys", [])))
    return c, ys
  if traced:
    lo, up = ctx.integer("lo", (), -2, 2), ctx.integer("up", (), -4, 8)
    for v, b in ((lo, lower), (up, lower + trips)):
      ctx.assume(ctx.le(v, b)), ctx.assume(ctx.ge(v, b))
    args = (c0, lo, up)
    got, want = both(ctx, mode, acts, loop, ref, args, k, pre)
  else:
    got, want = both(ctx, mode, acts, lambda m, c0: loop(m, c0, lower, lower + trips), lambda m, c0: ref(m, c0, lower, lower + trips), (c0,), k, pre)
  compare(ctx, got, want, k, pre in ("nothing", "key") and "keys2" not in acts)


@harness("C07", configs=[c for c in product(acts=tuple(ACTS), pred=("count", "value", "reads state", "reads param")) if c["pred"] != "reads state" or "state" in c["acts"]], budget=300,
         bounds="while_loop at apply, condition on a counter, on the data (any number of steps up to 3 chosen by the data), on a parameter or on state written by the body; keys drawn, reserved or another loop before; all values and keys")
def while_loop(ctx, acts, pred):
  draws = any(a in DRAWS for a in acts)
  pre = ctx.choice("pre", PRE) if draws else "nothing"
  k, c0, lim = ctx.key("k"), ctx.real("c"), ctx.real("lim")
  B = 3
  trips = ctx.choice("trips", range(B + 1))
  nk = sum({"key": 1, "keys2": 2, "scope": 1}.get(a, 0) for a in acts)
  class P(hk.Module):
    def __call__(self):
      return hk.get_parameter("q", (), init=jnp.ones)
  def cond(m, q, i, c, lim):
    if pred == "count":
      return i < trips
    if pred == "value":
      return jnp.logical_and(c < lim, i < B)
    if pred == "reads param":
      return jnp.logical_and(c < q(), i < B)
    return jnp.logical_and(m.read()["s"] < lim, i < B)
  def setup(m, c0):
    q = P(name="q")
    if hk.running_init():
      q(), m(c0, 1.)
    return q
  def loop(m, c0, lim_):
    q = setup(m, c0)
    if hk.running_init():
      return c0, []
    def body(v):
      i, c, ks, xs = v
      c, y = m(c, i + 1.)
      return i + 1, c, jax.tree_util.tree_map(lambda l, e: l.at[i].set(e), ks, y.get("keys", [])), xs.at[i].set(y["x"])
    i, c, ks, xs = hk.while_loop(lambda v: cond(m, q, v[0], v[1], lim_), body, (0, c0, [jnp.zeros((B, 2), jnp.uint32)] * nk, jnp.zeros((B,))))
    return (i, c), [dict(x=xs[t], keys=[u[t] for u in ks]) for t in range(trips)]
  def ref(m, c0, lim_):
    """The path on which exactly `trips` steps are taken; says when that is the one."""
    q = setup(m, c0)
    if hk.running_init():
      return c0, []
    c, ys, ok = jnp.asarray(c0), [], True
    for i in range(trips):
      ok = jnp.logical_and(ok, cond(m, q, jnp.asarray(i), c, lim_))
      c, y = m(c, i + 1.)
      ys.append(dict(x=y["x"], keys=y.get("keys", [])))
    ok = jnp.logical_and(ok, jnp.logical_not(cond(m, q, jnp.asarray(trips), c, lim_)))
    return (jnp.asarray(trips), c, ok), ys
  got, want = both(ctx, "apply", acts, loop, ref, (c0, lim), k, pre, lambda out: ctx.assume(out[0][0][2]))
  (n, c, _), *rest = want[0]
  want = ((n, c), *rest), want[1]
  compare(ctx, got, want, k, pre in ("nothing", "key") and "keys2" not in acts)


@harness("C07", validate=False, bounds="every loop: a parameter or state created only after the first step, a condition that writes state or draws keys, while_loop in init, use outside of a transform")
def rejected(ctx):
  loop = ctx.choice("loop", ["scan", "fori", "while"])
  what = ctx.choice("what", ["outside", "late parameter", "condition writes", "condition writes twice", "condition swaps", "condition draws", "condition draws a reserved key", "condition creates"])
  seen = []
  def late(c):
    seen.append(1)
    hk.get_parameter("first" if len(seen) == 1 else "second", (), init=jnp.ones)
    return c
  def go(body, cond=lambda v: v < 3.):
    if loop == "scan":
      return hk.scan(lambda c, _: (body(c), None), 0., None, length=3)
    if loop == "fori":
      return hk.fori_loop(0, 3, lambda i, c: body(c), 0.)
    return hk.while_loop(cond, lambda c: body(c) + 1., 0.)
  if what == "outside":
    ctx.raises("outside of a transform", lambda: go(lambda c: c), ValueError)
    return
  if what == "late parameter":
    if loop == "while":
      ctx.raises("while_loop in init", lambda: hk.transform(lambda: go(lambda c: c)).init(None), ValueError)
      ctx.raises("unknown parameter", lambda: hk.transform(lambda: go(late)).apply({}, None), ValueError)
    else:
      ctx.raises("parameter of a later step", lambda: hk.transform(lambda: go(late)).init(None), Exception)
    return
  if loop != "while":
    return
  def cond(v):
    if what == "condition writes":
      hk.set_state("s", v)
    elif what == "condition writes twice":
      for _ in range(n):
        hk.set_state("s", v)
    elif what == "condition swaps":
      a, b = hk.get_state("s"), hk.get_state("t")
      hk.set_state("s", b), hk.set_state("t", a)
    elif what == "condition creates":
      hk.get_state("new", (), init=jnp.zeros)
    else:
      hk.next_rng_key()
    return v < 3.
  n = ctx.choice("n", [2, 3, 4]) if what == "condition writes twice" else 0
  def f():
    if what == "condition draws a reserved key":
      hk.reserve_rng_keys(2)
    return go(lambda c: c, cond)
  one = jnp.ones(())
  ctx.raises("condition with an effect", lambda: hk.transform_with_state(f).apply({}, {"~": {"s": one, "t": one * 2}}, KEY0), ValueError)


@harness("C07", configs=product(outer=("scan", "fori", "while"), inner=("scan", "fori", "while", "cond")), bounds="loops nested in loops, 2 by 2 steps, state written and keys drawn at both levels; all values and keys")
def nested(ctx, outer, inner):
  mode = ctx.choice("mode", ["apply", "init"] if "while" not in (outer, inner) else ["apply"])
  k, c0 = ctx.key("k"), ctx.real("c")
  haiku = True
  def many(kind, f, c, n=2):
    """f : carry -> (carry, key); n times."""
    def slot(i, old, e):
      return old.at[i].set(e)
    z = jnp.zeros((n, 2), jnp.uint32)
    if kind == "python":
      ks = []
      for _ in range(n):
        c, e = f(c)
        ks.append(e)
      return c, jax.tree_util.tree_map(lambda *a: jnp.stack(a), *ks)
    if kind == "scan":
      return hk.scan(lambda c, _: f(c), c, None, length=n)
    if kind == "cond":
      return many("python", lambda c: hk.cond(c > 1e9, f, f, c), c, n)
    shape = jax.eval_shape(lambda c: hk.eval_shape(f, c)[1], c)
    z = jax.tree_util.tree_map(lambda s: jnp.zeros((n,) + s.shape, s.dtype), shape)
    def step(i, v):
      c, e = f(v[0])
      return c, jax.tree_util.tree_map(lambda o, x: o.at[i].set(x), v[1], e)
    if kind == "fori":
      return hk.fori_loop(0, n, step, (c, z))
    _, v = hk.while_loop(lambda v: v[0] < n, lambda v: (v[0] + 1, step(v[0], v[1])), (0, (c, z)))
    return v
  def prog(o, i):
    def leaf(c):
      a = hk.get_state("s", (), init=jnp.ones)
      w = hk.get_parameter("w", (), init=jnp.ones)
      hk.set_state("s", a * w + c)
      return c * a + w, hk.next_rng_key()
    def row(c):
      c, ks = many(i, leaf, c)
      hk.set_state("r", hk.get_state("r", (), init=jnp.zeros) + c)
      return c, (ks, hk.next_rng_key())
    def f(c):
      k0 = hk.next_rng_key()
      c, (inner_ks, outer_ks) = many(o, row, c)
      return c, hk.get_state("s"), hk.get_state("r"), [inner_ks[a, b] for a in range(2) for b in range(2)], [outer_ks[0], outer_ks[1]], [k0, hk.next_rng_key()]
    return f
  sh = jax.eval_shape(lambda k, c: execute("init", None, None, k, prog("python", "python"), c)[1], jax.ShapeDtypeStruct((2,), np.uint32), sds(c0))
  p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
  run = lambda o, i: ctx.run(lambda p, s, k, c: execute(mode, p, s, k, prog(o, i), c), p, s, k, c0)
  got, want = run(outer, inner), run("python", "python")
  ctx.eq("result, state and keys", got, want)
  ctx.distinct("keys differ", [k] + got[0][3] + got[0][4] + got[0][5])
