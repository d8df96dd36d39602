"""C19: LayerNorm, InstanceNorm, GroupNorm."""
from checks.common import *
from checks.c18 import batch_stats, norm


def so(ctx, shape, psh, cs, co, prefix):
  """params, extra call args, and a function giving (scale, offset)."""
  params = {}
  if cs or co:
    params[prefix] = {**({"scale": ctx.real("scale", psh)} if cs else {}), **({"offset": ctx.real("offset", psh)} if co else {})}
  ext = ctx.flag("external") if not (cs and co) else False
  kw = {}
  if ext and not cs:
    kw["scale"] = ctx.real("es", psh)
  if ext and not co:
    kw["offset"] = ctx.real("eo", psh)
  return params, kw


def run_case(ctx, mk, shape, psh, cs, co, eps, axes_fn, prefix, grouped=None):
  x = ctx.real("x", shape)
  params, kw = so(ctx, shape, psh, cs, co, prefix)
  f = hk.transform(lambda x, **k: mk()(x, **k))
  check_shapes(ctx, "norm params", jax.eval_shape(lambda *a: f.init(None, a[0], **dict(zip(kw, a[1:]))), *sds([x] + list(kw.values()))),
               {prefix: {n: psh for n in (["offset"] if co else []) + (["scale"] if cs else [])}} if params else {})
  out = ctx.run(lambda p, x, k: f.apply(p, None, x, **k), params, x, kw)
  def ref(p, x, k):
    mean, var = grouped(x) if grouped else batch_stats(x, axes_fn)
    q = p.get(prefix, {})
    return norm(x, mean, var, eps, q.get("scale", k.get("scale")), q.get("offset", k.get("offset")))
  ctx.eq("normalised", out, ctx.run(ref, params, x, kw))


@harness("C19", configs=product(shape=((2, 2), (2, 2, 2), (1, 2, 2, 2)), axis=(-1, 1, (1,), (-1, -2), (1, 2), (0, 1), slice(1, None), slice(-1, None), slice(None), slice(0, 2), 0, [1, -1])),
         bounds="rank 2..4, up to 8 elements, axes as int, tuple, list, slice (positive and negative)")
def layer_norm(ctx, shape, axis):
  n = len(shape)
  axes = tuple(range(n)[axis]) if isinstance(axis, slice) else tuple(a % n if -n <= a < n else a for a in (axis if isinstance(axis, (tuple, list)) else (axis,)))
  if any(a >= n for a in axes) or len(set(axes)) < len(axes):
    ctx.check("n/a", True)
    return
  cs, co = ctx.flag("cs"), ctx.flag("co")
  eps = ctx.choice("eps", [None, 0.25])
  mk = lambda: hk.LayerNorm(axis, cs, co, **({} if eps is None else {"eps": eps}))
  run_case(ctx, mk, shape, shape[-1:], cs, co, 1e-5 if eps is None else eps, axes, "layer_norm")


@harness("C19", configs=product(fmt=("channels_last", "channels_first", "NHWC", "NCHW", None), spatial=((2,), (2, 2), (1, 4))), bounds="1..2 spatial axes, 2-3 channels")
def instance_norm(ctx, fmt, spatial):
  c = ctx.choice("c", [2, 3])
  last = fmt in ("channels_last", "NHWC", None)
  shape = (1,) + (spatial + (c,) if last else (c,) + spatial)
  axes = tuple(range(1, len(shape) - 1)) if last else tuple(range(2, len(shape)))
  cs, co = ctx.flag("cs"), ctx.flag("co")
  eps = ctx.choice("eps", [None, 0.25])
  mk = lambda: hk.InstanceNorm(cs, co, **({} if eps is None else {"eps": eps}), **({} if fmt is None else {"data_format": fmt}))
  run_case(ctx, mk, shape, (c,) if last else (c,) + (1,) * len(spatial), cs, co, 1e-5 if eps is None else eps, axes, "instance_norm")


def group_stats(x, groups, last, axes):
  """axes: normalised axes of x; the channel axis means the channels of the group."""
  n = x.ndim
  ch = n - 1 if last else 1
  c = x.shape[ch]
  cg = c // groups
  means, vs = [], []
  parts = [jax.lax.slice_in_dim(x, g * cg, (g + 1) * cg, axis=ch) for g in range(groups)]
  for p in parts:
    m, v = batch_stats(p, axes)
    means.append(jnp.broadcast_to(m, p.shape))
    vs.append(jnp.broadcast_to(v, p.shape))
  return jnp.concatenate(means, ch), jnp.concatenate(vs, ch)


@harness("C19", configs=product(groups=(1, 2, 4), last=(True, False), axis=(None, "spatial", "channel", "neg1", "neg2", "list", "slice2", "all")),
         bounds="rank 2..4, 4 channels, 1..4 groups, default and explicit axes")
def group_norm(ctx, groups, last, axis):
  spatial = ctx.choice("spatial", [(2,), (1, 2)]) if axis in ("spatial", "neg2", "list", "slice2") else ctx.choice("spatial0", [(), (2,), (1, 2)])
  shape = (2 if axis is None and len(spatial) < 2 else 1,) + (spatial + (4,) if last else (4,) + spatial)
  n = len(shape)
  ch = n - 1 if last else 1
  ax = {None: None, "spatial": 1 if last else 2, "channel": ch, "neg1": -1, "neg2": -2, "list": [1, 2], "slice2": slice(2, None), "all": slice(None)}[axis]
  axes = tuple(range(1, n)) if ax is None else tuple(range(n)[ax]) if isinstance(ax, slice) else tuple(a % n for a in (ax if isinstance(ax, list) else [ax]))
  cs, co = ctx.flag("cs"), ctx.flag("co")
  eps = ctx.choice("eps", [None, 0.25])
  kw = dict(create_scale=cs, create_offset=co, data_format="channels_last" if last else "NCHW", **({} if eps is None else {"eps": eps}), **({} if ax is None else {"axis": ax}))
  mk = lambda: hk.GroupNorm(groups, **kw)
  psh = (4,) if last else (4,) + (1,) * (n - 2)
  run_case(ctx, mk, shape, psh, cs, co, 1e-5 if eps is None else eps, None, "group_norm", grouped=lambda x: group_stats(x, groups, last, axes))


@harness("C19", configs=product(kind=("layer", "instance", "group", "instance_first", "group_first")), bounds="two examples: the second never influences the first")
def independent(ctx, kind):
  mk = {"layer": lambda: hk.LayerNorm(-1, True, True), "instance": lambda: hk.InstanceNorm(True, True), "group": lambda: hk.GroupNorm(2),
        "instance_first": lambda: hk.InstanceNorm(False, False, data_format="channels_first"), "group_first": lambda: hk.GroupNorm(2, data_format="channels_first")}[kind]
  shape = (2, 2, 2)
  x, y = ctx.real("x", shape), ctx.real("y", shape)
  f = hk.transform(lambda x: mk()(x))
  params = ctx.like("p", init_shapes(f, x))
  app = lambda v: ctx.run(lambda p, v: f.apply(p, None, v), params, v)
  mix = ctx.run(lambda x, y: jnp.stack([x[0], y[1]]), x, y)
  ctx.eq("example 0 does not see example 1", app(mix)[0], app(x)[0])


@harness("C19", configs=product(last=(True, False)), bounds="one GroupNorm instance called on inputs of different batch and spatial sizes")
def group_norm_reuse(ctx, last):
  s2 = ctx.choice("second", [(1, 4), (2, 2), (1, 2), (3, 2)])
  sh = lambda b, w: (b, w, 2) if last else (b, 2, w)
  x, y = ctx.real("x", sh(1, 2)), ctx.real("y", sh(*s2))
  def net(x, y):
    m = hk.GroupNorm(2, create_scale=False, create_offset=False, data_format="channels_last" if last else "channels_first")
    return m(x), m(y)
  f = hk.transform(net)
  a, b = ctx.run(lambda x, y: f.apply({}, None, x, y), x, y)
  axes = (1, 2)
  ref = lambda x: norm(x, *group_stats(x, 2, last, axes), 1e-5, None, None)
  ctx.eq("first call", a, ctx.run(ref, x))
  ctx.eq("second call", b, ctx.run(ref, y))


@harness("C19", bounds="rejected arguments, initial values")
def errors(ctx):
  x, s = ctx.real("x", (2, 2, 4)), ctx.real("s", (4,))
  mods = {"layer": lambda **k: hk.LayerNorm(-1, **{**dict(create_scale=True, create_offset=True), **k}),
          "instance": lambda **k: hk.InstanceNorm(**{**dict(create_scale=True, create_offset=True), **k}),
          "group": lambda **k: hk.GroupNorm(2, **k)}
  for n, mk in mods.items():
    t = lambda call=lambda s: {}, **k: hk.transform(lambda x, s: mk(**k)(x, **call(s)))
    ctx.raises(f"{n}: scale created and passed", lambda: init_shapes(t(lambda s: dict(scale=s)), x, s), ValueError)
    ctx.raises(f"{n}: offset created and passed", lambda: init_shapes(t(lambda s: dict(offset=s)), x, s), ValueError)
    ctx.raises(f"{n}: scale_init without scale", lambda: init_shapes(t(create_scale=False, scale_init=jnp.ones), x, s), ValueError)
    ctx.raises(f"{n}: offset_init without offset", lambda: init_shapes(t(create_offset=False, offset_init=jnp.ones), x, s), ValueError)
    p = ctx.run(lambda x, s: t().init(None, x, s), x, s)
    (v,) = p.values()
    ctx.eq(f"{n}: initial values", v, {"scale": np.ones(4, np.float32), "offset": np.zeros(4, np.float32)})
    g = t(scale_init=lambda s, d: jnp.full(s, 7., d), offset_init=lambda s, d: jnp.full(s, 3., d))
    (v,) = ctx.run(lambda x, s: g.init(None, x, s), x, s).values()
    ctx.eq(f"{n}: custom initial values", v, {"scale": np.full(4, 7, np.float32), "offset": np.full(4, 3, np.float32)})
  for bad in (3, 5, 8):
    ctx.raises("indivisible groups", lambda: init_shapes(hk.transform(lambda x: hk.GroupNorm(bad)(x)), x), ValueError)
  for bad in ("x", [1, "y"], 1.5):
    ctx.raises("bad axis", lambda: init_shapes(hk.transform(lambda x: hk.LayerNorm(bad, True, True)(x)), x), ValueError)
    ctx.raises("bad axis", lambda: init_shapes(hk.transform(lambda x: hk.GroupNorm(2, axis=bad)(x)), x), ValueError)
  def two(x):
    m = hk.GroupNorm(2)
    return m(m(x)[0])
  ctx.raises("rank change", lambda: init_shapes(hk.transform(two), x), ValueError)
