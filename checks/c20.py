"""C20: exponential moving averages."""
from checks.common import *

NAME = "exponential_moving_average"
SHAPES = ((), (2,), (2, 2))


def ema(decay, zd, warm=0):
  kw = {} if warm == 0 else dict(warmup_length=warm)
  return hk.ExponentialMovingAverage(decay, zero_debias=zd, **kw)


@harness("C20", configs=product(zd=(True, False), decay=(0.5, 0.75, 0.0), n=(1, 2, 3, 4)), thorough=product(zd=(True, False), decay=(0.5, 0.25, 0.75), n=(5, 6, 7)),
         bounds="histories of 1..4 (thorough 7) updates from init, each optionally followed by a read or a non-updating call; decays 0, 1/2, 3/4; shapes (), (2,), (2,2)")
def history(ctx, zd, decay, n):
  shape = ctx.choice("shape", SHAPES)
  f = hk.transform_with_state(lambda v, upd: ema(decay, zd)(v, update_stats=upd))
  def read(_):
    return ema(decay, zd).average
  g = hk.transform_with_state(read)
  xs = [ctx.real(f"x{i}", shape) for i in range(n)]
  p, s = ctx.run(lambda x: f.init(None, x, True), xs[0])
  ctx.check("no parameters", not dict(p))
  ctx.eq("initial hidden value", s[NAME]["hidden"], np.zeros(shape, np.float32))
  ctx.eq("initial counter", s[NAME]["counter"], np.zeros((), np.int32))
  d = T.Fraction(decay)
  ref_h, prod = None, 1.
  for i in range(n):
    if i and ctx.flag(f"probe{i}"):
      y = ctx.real(f"y{i}", shape)
      o, s2 = ctx.run(lambda s, x: f.apply({}, s, None, x, False), s, y)
      ctx.eq("call without updating changes nothing", s2, s)
      k = 1 - decay ** (i + 1) if zd else 1.
      ctx.eq("call without updating still returns the average", o,
             ctx.run(lambda h, y: (h * decay + y * (1 - decay)) / k, ref_h, y))
    o, s = ctx.run(lambda s, x: f.apply({}, s, None, x, True), s, xs[i])
    ref_h = ctx.run(lambda h, x: h * decay + x * (1 - decay), ref_h if i else np.zeros(shape, np.float32), xs[i])
    k = 1 - decay ** (i + 1) if zd else 1.
    avg = ctx.run(lambda h: h / k, ref_h)
    ctx.eq("returned average", o, avg)
    ctx.eq("stored hidden value", s[NAME]["hidden"], ref_h)
    ctx.eq("stored average", s[NAME]["average"], avg)
    ctx.eq("counter", s[NAME]["counter"], np.asarray(i + 1, np.int32))
    a, s3 = ctx.run(lambda s: g.apply({}, s, None, 0.), s)
    ctx.eq("average property", a, avg)
    ctx.eq("reading changes nothing", s3, s)


@harness("C20", configs=product(zd=(True, False), warm=(0, 1, 3)),
         bounds="one step from any state: any hidden value, any counter in [-warmup, 3], any input; decay 3/4 as float or array, or any decay in [1/8, 7/8]")
def step(ctx, zd, warm):
  if zd and warm:
    ctx.raises("warmup together with zero debiasing", lambda: init_shapes(hk.transform_with_state(lambda x: ema(.5, True, warm)(x)), ctx.real("x", ())), ValueError)
    return
  shape = ctx.choice("shape", SHAPES)
  decay = 0.75
  arr = ctx.choice("decay_kind", ["float", "array", "any"])
  dv = ctx.real("decay", (), 0.125, 0.875)
  upd = ctx.flag("update")
  x, h, a = ctx.real("x", shape), ctx.real("h", shape), ctx.real("a", shape)
  c = ctx.integer("c", (), -warm, 3)
  st = {NAME: {"hidden": h, "average": a, "counter": c}}
  f = hk.transform_with_state(lambda v, d: ema({"float": decay, "array": jnp.float32(decay), "any": d}[arr], zd, warm)(v, upd))
  o, s = ctx.run(lambda s, x, d: f.apply({}, s, None, x, d), st, x, dv)
  def ref(h, x, c, d):
    d = d if arr == "any" else jnp.float32(decay)
    d = jnp.where(c + 1 <= 0, 0., d) if warm else d
    n = h * d + x * (1. - d)
    av = n / (1 - jnp.power(d, c + 1)) if zd else n
    return av, n, c + 1
  av, n, c2 = ctx.run(ref, h, x, c, dv)
  ctx.eq("returned average", o, av)
  ctx.eq("new state", s, {NAME: {"hidden": n, "average": av, "counter": c2}} if upd else st)


@harness("C20", configs=product(warm=(1, 2, 3)), bounds="warmup lengths 1..3, warmup+2 updates from init; decay 1/2")
def warmup(ctx, warm):
  n = warm + 2
  shape = ctx.choice("shape", SHAPES[:2])
  f = hk.transform_with_state(lambda v: ema(.5, False, warm)(v))
  xs = [ctx.real(f"x{i}", shape) for i in range(n)]
  p, s = ctx.run(lambda x: f.init(None, x), xs[0])
  ctx.eq("counter starts at -warmup_length", s[NAME]["counter"], np.asarray(-warm, np.int32))
  for i in range(n):
    o, s = ctx.run(lambda s, x: f.apply({}, s, None, x), s, xs[i])
    if i < warm:
      h = xs[i]
    else:
      h = ctx.run(lambda h, x: h * .5 + x * .5, h, xs[i])
    ctx.eq("average is the latest input during warmup, the recurrence from it afterwards", o, h)


@harness("C20", configs=product(n=(1, 2, 3, 4)), bounds="1..4 updates with the same value; decay 3/4 and 1/2")
def constant_input(ctx, n):
  decay = ctx.choice("decay", [0.75, 0.5, 0.25])
  x = ctx.real("x", (2,))
  f = hk.transform_with_state(lambda v: ema(decay, True)(v))
  _, s = ctx.run(lambda x: f.init(None, x), x)
  for _ in range(n):
    o, s = ctx.run(lambda s, x: f.apply({}, s, None, x), s, x)
    ctx.eq("constant input gives the constant", o, x)


@harness("C20", bounds="initialize(): zero state, by shape/dtype; errors of the constructor; scalar (python) inputs")
def misc(ctx):
  def g(x):
    m = ema(.5, True)
    m.initialize((2,), jnp.float32)
    return m.average
  f = hk.transform_with_state(g)
  x = ctx.real("x", (2,))
  o, s = ctx.run(lambda x: f.init(None, x), x)
  ctx.eq("initialised state", s, {NAME: {"hidden": np.zeros(2, np.float32), "average": np.zeros(2, np.float32)}})
  h, a = ctx.real("h", (2,)), ctx.real("a", (2,))
  st = {NAME: {"hidden": h, "average": a}}
  o, s = ctx.run(lambda s, x: f.apply({}, s, None, x), st, x)
  ctx.eq("initialize keeps existing averages", (o, s), (a, st))
  ctx.raises("negative warmup", lambda: init_shapes(hk.transform_with_state(lambda x: ema(.5, False, -1)(x)), x), ValueError)


TREES = {
    "flat": {"lin": {"w": (2,), "b": ()}},
    "deep": {"net/~/lin": {"w": (2,)}, "net/lin": {"w": (2,), "b": (1,)}, "net": {"lin": (1,)}},
    "clash": {"a/b": {"c": ()}, "a__b": {"c": ()}, "a": {"b__c": (), "b": ()}},
}


@harness("C20", configs=product(tree=tuple(TREES), rx=("", ".*w", "lin", "w", "net/lin/.*", "a/b", ".*c$"), zd=(True, False)),
         bounds="parameter trees with up to 4 entries (incl. ~ scopes and names whose flattened forms clash), ignore patterns, 2 updating calls and 1 non-updating; decay 1/2")
def params_tree(ctx, tree, rx, zd):
  import re
  spec = TREES[tree]
  mk = lambda t: {m: {k: ctx.real(f"{t}.{m}.{k}", sh) for k, sh in d.items()} for m, d in spec.items()}
  f = hk.transform_with_state(lambda t, upd: hk.EMAParamsTree(.5, zd, ignore_regex=rx)(t, update_stats=upd))
  t1, t2, t3 = mk("a"), mk("b"), mk("c")
  _, s = ctx.run(lambda t: f.init(None, t, True), t1)
  o1, s1 = ctx.run(lambda s, t: f.apply({}, s, None, t, True), s, t1)
  o2, s2 = ctx.run(lambda s, t: f.apply({}, s, None, t, True), s1, t2)
  o3, s3 = ctx.run(lambda s, t: f.apply({}, s, None, t, False), s2, t3)
  ctx.eq("not updating changes nothing", s3, s2)
  def ref(*ts):
    out = {}
    for m, d in spec.items():
      out[m] = {}
      for k in d:
        if rx and re.match(rx, f"{m}/{k}"):
          out[m][k] = ts[-1][m][k]
          continue
        h = 0.
        for t in ts:
          h = h * .5 + t[m][k] * .5
        out[m][k] = h / (1 - .5 ** len(ts) if zd else 1.)
    return out
  ctx.eq("after one update", o1, ctx.run(ref, t1))
  ctx.eq("after two updates", o2, ctx.run(ref, t1, t2))
  ctx.eq("without updating", o3, ctx.run(ref, t1, t2, t3))
