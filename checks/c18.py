"""C18: BatchNorm."""
from checks.common import *

LAY = {"channels_last": -1, "channels_first": 1, "N...C": -1, "NC...": 1, "NHWC": -1, "NCHW": 1}
PRE = "batch_norm"


def stats_axes(shape, fmt, axis):
  c = LAY[fmt] % len(shape)
  return tuple(i for i in range(len(shape)) if i != c) if axis is None else tuple(a % len(shape) for a in axis)


def wshape(shape, axes):
  return tuple(1 if i in axes else shape[i] for i in range(len(shape)))


def norm(x, mean, var, eps, scale, offset):
  y = (x - mean) / jnp.sqrt(var + eps)
  if scale is not None:
    y = y * scale
  if offset is not None:
    y = y + offset
  return y


def batch_stats(x, axes):
  n = int(np.prod([x.shape[a] for a in axes]))
  mean = jnp.sum(x, axes, keepdims=True) / n
  var = jnp.sum((x - mean) ** 2, axes, keepdims=True) / n
  return mean, var


def setup(ctx, shape, fmt, axis, cs, co, decay, eps):
  axes = stats_axes(shape, fmt, axis)
  ws = wshape(shape, axes)
  kw = dict(create_scale=cs, create_offset=co, decay_rate=decay, data_format=fmt, axis=axis)
  if eps is not None:
    kw["eps"] = eps
  params = {}
  if cs or co:
    params[PRE] = {**({"scale": ctx.real("scale", ws)} if cs else {}), **({"offset": ctx.real("offset", ws)} if co else {})}
  state = {f"{PRE}/~/{n}": {"average": ctx.real(n + "a", ws, lo=0 if n == "var_ema" else None), "hidden": ctx.real(n + "h", ws),
                            "counter": ctx.integer(n + "c", (), 0, 3)} for n in ("mean_ema", "var_ema")}
  return axes, ws, kw, params, state


CFG = product(shape_axis=(((2, 2), None), ((2, 2, 2), None), ((2, 1, 2, 2), None), ((2, 2, 2), (0,)), ((2, 2, 2), (0, 1, 2)), ((2, 2, 2), (0, 2))),
              fmt=("channels_last", "channels_first"), train=(True, False), local=(True, False))


@harness("C18", configs=CFG + product(shape_axis=(((2, 2, 2), None),), fmt=("N...C", "NC...", "NHWC", "NCHW"), train=(True, False), local=(False,))
         + product(shape_axis=(((2, 2, 2), (0, -2)), ((2, 2, 2), (-3,)), ((2, 2, 2), (-1,)), ((1, 2, 1, 1, 2), None)), fmt=("channels_last", "channels_first"), train=(True,), local=(False,)),
         bounds="batches of 2, up to 2 spatial axes, up to 8 elements, 2 channels; decay 0.75; all values, params and states (counters 0..3)")
def step(ctx, shape_axis, fmt, train, local):
  shape, axis = shape_axis
  if fmt == "channels_first" and axis == (0, 2):
    axis = (0, 1)
  if fmt == "channels_first" and axis == (0, -2):
    axis = (0, -1)
  cs, co = ctx.flag("create_scale"), ctx.flag("create_offset")
  eps = ctx.choice("eps", [None, 0.5])
  decay = 0.75
  axes, ws, kw, params, state = setup(ctx, shape, fmt, axis, cs, co, decay, eps)
  x = ctx.real("x", shape)
  ext = ctx.choice("external", [False, True]) if not (cs and co) else False
  es = ctx.real("es", ws) if ext and not cs else None
  eo = ctx.real("eo", ws) if ext and not co else None
  if ctx.sym and not (train or local):
    pass
  f = hk.transform_with_state(lambda x, *a: hk.BatchNorm(**kw)(x, train, local, **dict(zip(
      [k for k, v in (("scale", es), ("offset", eo)) if v is not None], a))))
  extra = [v for v in (es, eo) if v is not None]
  out, new = ctx.run(lambda p, s, x, *e: f.apply(p, s, None, x, *e), params, state, x, *extra)
  e = 1e-5 if eps is None else eps
  def ref(p, s, x, *ex):
    ex = list(ex)
    mean, var = batch_stats(x, axes) if (train or local) else (s[PRE + "/~/mean_ema"]["average"], s[PRE + "/~/var_ema"]["average"])
    sc = p[PRE]["scale"] if cs else (ex.pop(0) if es is not None else None)
    of = p[PRE]["offset"] if co else (ex.pop(0) if eo is not None else None)
    y = norm(x, mean, var, e, sc, of)
    ns = {k: dict(v) for k, v in s.items()}
    if train:
      for n, v in (("mean_ema", mean), ("var_ema", var)):
        o = s[f"{PRE}/~/{n}"]
        c = o["counter"] + 1
        h = o["hidden"] * decay + v * (1 - decay)
        ns[f"{PRE}/~/{n}"] = dict(counter=c, hidden=h, average=h / (1 - jnp.power(jnp.float32(decay), c)))
    return y, ns
  rout, rnew = ctx.run(ref, params, state, x, *extra)
  ctx.eq("normalised output", out, rout)
  ctx.eq("moving averages", new, rnew)


@harness("C18", configs=product(fmt=("channels_last", "channels_first")), bounds="evaluation: output of one example ignores the other")
def eval_independent(ctx, fmt):
  shape = (2, 2, 2)
  axes, ws, kw, params, state = setup(ctx, shape, fmt, None, True, True, 0.75, None)
  x, y = ctx.real("x", shape), ctx.real("y", shape)
  f = hk.transform_with_state(lambda x: hk.BatchNorm(**kw)(x, False))
  app = lambda v: ctx.run(lambda p, s, x: f.apply(p, s, None, x)[0], params, state, v)
  mix = ctx.run(lambda x, y: jnp.stack([x[0], y[1]]), x, y)
  ctx.eq("example 0 does not see example 1", app(mix)[0], app(x)[0])


@harness("C18", configs=product(n=(1, 2, 3)), bounds="histories of 1..3 training steps from init, then evaluation; decay 0.5")
def history(ctx, n):
  f = hk.transform_with_state(lambda x, t: hk.BatchNorm(True, True, 0.5)(x, is_training=t))
  xs = [ctx.real(f"x{i}", (2, 2)) for i in range(n + 1)]
  p, s = ctx.run(lambda x: f.init(None, x, True), xs[0])
  ctx.eq("initial params", p, {PRE: {"scale": np.ones((1, 2), np.float32), "offset": np.zeros((1, 2), np.float32)}})
  for k in ("mean_ema", "var_ema"):
    ctx.eq("initial hidden", s[f"{PRE}/~/{k}"]["hidden"], np.zeros((1, 2), np.float32))
    ctx.eq("initial counter", s[f"{PRE}/~/{k}"]["counter"], np.zeros((), np.int32))
  for i in range(n):
    _, s = ctx.run(lambda p, s, x: f.apply(p, s, None, x, True), p, s, xs[i])
  out, s2 = ctx.run(lambda p, s, x: f.apply(p, s, None, x, False), p, s, xs[n])
  ctx.eq("evaluation leaves the state", s2, s)
  def ref(*xs):
    hm = hv = 0.
    for x in xs[:-1]:
      m, v = batch_stats(x, (0,))
      hm, hv = hm * .5 + m * .5, hv * .5 + v * .5
    d = 1 - .5 ** n
    return (xs[-1] - hm / d) / jnp.sqrt(hv / d + 1e-5)
  ctx.eq("debiased averages", out, ctx.run(ref, *xs))


@harness("C18", configs=product(train=(True, False)), bounds="2 replicas with 2 examples each, 1..2 channels; train and local statistics")
def cross_replica(ctx, train):
  c = ctx.choice("c", [1, 2])
  f = hk.transform_with_state(lambda x: hk.BatchNorm(False, False, 0.5, cross_replica_axis="i")(x, train, not train))
  x = ctx.real("x", (2, 2, c))
  st = {f"{PRE}/~/{n}": {"average": np.zeros((1, c), np.float32), "hidden": np.zeros((1, c), np.float32), "counter": np.zeros((), np.int32)} for n in ("mean_ema", "var_ema")}
  out, new = ctx.run(lambda s, x: jax.vmap(lambda x: f.apply({}, s, None, x), axis_name="i")(x), st, x)
  def ref(x):
    m, v = batch_stats(x, (0, 1))
    return (x - m) / jnp.sqrt(v + 1e-5), m, v
  y, m, v = ctx.run(ref, x)
  ctx.eq("normalised across replicas", out, y)
  if train:
    for n, t in (("mean_ema", m), ("var_ema", v)):
      for r in range(2):
        ctx.eq(f"{n} averaged across replicas", ctx.run(lambda a: a[r], new[f"{PRE}/~/{n}"]["average"]), ctx.run(lambda a: a[0], t))


class grouped_collectives:
  """Environment model: `jax.lax.pmean`/`psum` over replica groups (which `jax.vmap` does not offer), by gathering."""

  def __enter__(self):
    self.saved = {n: getattr(jax.lax, n) for n in ("pmean", "psum")}
    for n, real in self.saved.items():
      setattr(jax.lax, n, functools.partial(self.run, real, n == "pmean"))

  def __exit__(self, *exc):
    for n, real in self.saved.items():
      setattr(jax.lax, n, real)

  @staticmethod
  def run(real, mean, x, axis_name, *, axis_index_groups=None):
    if axis_index_groups is None:
      return real(x, axis_name)
    n = sum(map(len, axis_index_groups))
    m = np.zeros((n, n), np.float32)
    for g in axis_index_groups:
      for i in g:
        m[i, list(g)] = 1 / len(g) if mean else 1
    row = jnp.asarray(m)[jax.lax.axis_index(axis_name)]
    return jax.tree_util.tree_map(lambda x: jnp.tensordot(row.astype(x.dtype), jax.lax.all_gather(x, axis_name), 1), x)


@harness("C18", configs=product(groups=([[0, 1], [2, 3]], [[0, 3], [2, 1]], [[0, 1, 2, 3]], [[0], [1], [2], [3]]), train=(True, False)),
         bounds="4 replicas with 1 example of 2 features each, in groups; train and local statistics")
def replica_groups(ctx, groups, train):
  f = hk.transform_with_state(lambda x: hk.BatchNorm(False, False, 0.5, cross_replica_axis="i", cross_replica_axis_index_groups=groups)(x, train, not train))
  x = ctx.real("x", (4, 1, 2))
  st = {f"{PRE}/~/{n}": {"average": np.zeros((1, 2), np.float32), "hidden": np.zeros((1, 2), np.float32), "counter": np.zeros((), np.int32)} for n in ("mean_ema", "var_ema")}
  with grouped_collectives():
    out, new = ctx.run(lambda s, x: jax.vmap(lambda x: f.apply({}, s, None, x), axis_name="i")(x), st, x)
  for g in groups:
    def ref(x):
      z = x[jnp.array(g)]
      m, v = batch_stats(z, (0, 1))
      return (z - m) / jnp.sqrt(v + 1e-5), m, v
    y, m, v = ctx.run(ref, x)
    ctx.eq(f"normalised across replicas {g}", ctx.run(lambda o: o[jnp.array(g)], out), y)
    if train:
      for n, t in (("mean_ema", m), ("var_ema", v)):
        for r in g:
          ctx.eq(f"{n} of replica {r} averaged across {g}", ctx.run(lambda a: a[r], new[f"{PRE}/~/{n}"]["average"]), ctx.run(lambda a: a[0], t))


@harness("C18", bounds="scale/offset argument errors, custom initializers")
def errors(ctx):
  x = ctx.real("x", (2, 2))
  s = ctx.real("s", (1, 2))
  mk = lambda call, **kw: hk.transform_with_state(lambda x, s: hk.BatchNorm(**{**dict(create_scale=True, create_offset=True, decay_rate=.5), **kw})(x, True, **call(s)))
  ctx.raises("scale both created and passed", lambda: init_shapes(mk(lambda s: dict(scale=s)), x, s), ValueError)
  ctx.raises("offset both created and passed", lambda: init_shapes(mk(lambda s: dict(offset=s)), x, s), ValueError)
  ctx.raises("scale_init without scale", lambda: init_shapes(mk(lambda s: {}, create_scale=False, scale_init=jnp.ones), x, s), ValueError)
  ctx.raises("offset_init without offset", lambda: init_shapes(mk(lambda s: {}, create_offset=False, offset_init=jnp.ones), x, s), ValueError)
  ctx.raises("index groups without axis", lambda: init_shapes(mk(lambda s: {}, cross_replica_axis_index_groups=[[0]]), x, s), ValueError)
  g = mk(lambda s: {}, scale_init=lambda s, d: jnp.full(s, 7., d), offset_init=lambda s, d: jnp.full(s, 3., d))
  p, _ = ctx.run(lambda x, s: g.init(None, x, s), x, s)
  ctx.eq("custom initializers", p, {PRE: {"scale": np.full((1, 2), 7, np.float32), "offset": np.full((1, 2), 3, np.float32)}})
