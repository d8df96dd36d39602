"""C16: Reshape, Flatten, BatchApply, expand_apply."""
from checks.common import *


def elems(x):
  """Row-major list of elements as 1-element arrays, built by indexing only."""
  return [x[i] for i in np.ndindex(*x.shape)]


@harness("C16", configs=product(shape=((2, 3), (2, 3, 2), (1, 2, 3, 2), (3,), (2, 0, 3))),
         bounds="inputs of rank 1..4, preserve_dims 1..3, all factorisations given as explicit shapes and with one -1")
def reshape(ctx, shape):
  x = ctx.real("x", shape)
  pd = ctx.choice("pd", [1, 2, 3])
  rest = shape[pd:]
  n = int(np.prod(rest)) if rest else 1
  cands = [(-1,), (n,), (-1, 1), (1, -1), (2, -1), (-1, 2), (3, -1), (-1, 3), (2, 3), (3, 2), (n, 1), (1, n, 1), (2, -1, 1), (4, -1), (5,), (-1, 4), (7, 2)]
  out_shape = ctx.choice("out", cands)
  if 0 in shape[:pd]:
    ctx.check("empty leading axes: every shape is possible", True)
    return
  f = hk.transform(lambda x: hk.Reshape(out_shape, preserve_dims=pd)(x))
  app = lambda: ctx.run(lambda x: f.apply({}, None, x), x)
  if len(shape) <= pd:
    ctx.eq("too few dimensions: returned unchanged", app(), x)
    return
  known = int(np.prod([d for d in out_shape if d != -1]))
  if -1 in out_shape:
    if n % known != 0:
      ctx.raises("impossible shape rejected", app)
      return
    want = tuple(n // known if d == -1 else d for d in out_shape)
  else:
    if known != n:
      ctx.raises("impossible shape rejected", app)
      return
    want = out_shape
  out = app()
  ctx.check(f"shape {out.shape}", tuple(out.shape) == shape[:pd] + want)
  for lead in np.ndindex(*shape[:pd]):
    a, b = out[lead], x[lead]
    ctx.eq("row-major order kept", elems(a), elems(b))


@harness("C16", configs=product(shape=((2, 3), (2, 3, 2), (1, 2, 3, 2), (3,), ())), bounds="rank 0..4, preserve_dims 1..3")
def flatten(ctx, shape):
  x = ctx.real("x", shape)
  pd = ctx.choice("pd", [None, 1, 2, 3])
  f = hk.transform(lambda x: (hk.Flatten() if pd is None else hk.Flatten(preserve_dims=pd))(x))
  out = ctx.run(lambda x: f.apply({}, None, x), x)
  p = pd or 1
  if len(shape) <= p:
    ctx.eq("unchanged", out, x)
    return
  ctx.check("shape", tuple(out.shape) == shape[:p] + (int(np.prod(shape[p:])),))
  ctx.eq("row-major order kept", elems(out), elems(x))


@harness("C16", bounds="argument errors")
def reshape_errors(ctx):
  x = ctx.real("x", (2, 4))
  for bad in (0, -1):
    ctx.raises("preserve_dims >= 1", lambda: init_shapes(hk.transform(lambda x: hk.Reshape((4,), preserve_dims=bad)(x)), x), ValueError)
    ctx.raises("preserve_dims >= 1", lambda: init_shapes(hk.transform(lambda x: hk.Flatten(preserve_dims=bad)(x)), x), ValueError)
  ctx.raises("two wildcards", lambda: init_shapes(hk.transform(lambda x: hk.Reshape((-1, -1))(x)), x), ValueError)


@harness("C16", configs=product(nd=(1, 2, 3), kind=("args", "kwargs", "tree")),
         bounds="2-3 leading axes of size 1..3, per-element functions with several inputs and outputs, small inputs passed through")
def batch_apply(ctx, nd, kind):
  lead = ctx.choice("lead", [(2, 3, 1), (1, 2, 2), (3, 1, 2)])[:nd]
  x = ctx.real("x", lead + (2,))
  y = ctx.real("y", lead)
  c = ctx.real("c")
  order = ctx.choice("order", ["big first", "small first"])
  def f(x, y, c):
    assert x.ndim == 2 and y.ndim == 1, "leading axes must be merged"
    return {"a": x * c + y[:, None], "b": (y * y, x[:, ::-1])}
  def net(x, y, c):
    if kind == "args":
      if order == "big first":
        return hk.BatchApply(f, nd)(x, y, c)
      return hk.BatchApply(lambda c, x, y: f(x, y, c), nd)(c, x, y)
    if kind == "kwargs":
      return hk.BatchApply(f, num_dims=nd)(x=x, y=y, c=c) if order == "big first" else hk.BatchApply(f, num_dims=nd)(x, c=c, y=y)
    g = lambda t: f(t["x"], t["z"][0], t["z"][1])
    return hk.BatchApply(g, nd)({"x": x, "z": (y, c)})
  if nd == 1 and False:
    return
  out = ctx.run(net, x, y, c)
  ref = ctx.run(lambda x, y, c: {"a": x * c + y[..., None], "b": (y * y, x[..., ::-1])}, x, y, c)
  ctx.eq("batch apply", out, ref)


@harness("C16", bounds="inputs of too small rank rejected; default merges two axes; elementwise independence")
def batch_apply_misc(ctx):
  c = ctx.real("c", (3,))
  ctx.raises("nothing to merge", lambda: ctx.run(lambda c: hk.BatchApply(lambda v: v)(c), c), ValueError)
  x = ctx.real("x", (2, 3, 2))
  def f(v):
    assert v.shape == (6, 2), v.shape
    return jnp.cumsum(v, 0)
  out = ctx.run(lambda x: hk.BatchApply(f)(x), x)
  ref = ctx.run(lambda x: jnp.cumsum(x.reshape(6, 2), 0).reshape(2, 3, 2), x)
  ctx.eq("merged order is row-major", out, ref)
  z = ctx.real("z", (2, 3))
  ctx.eq("scalar per element", ctx.run(lambda z: hk.BatchApply(lambda v: v + 1.)(z), z), ctx.run(lambda z: z + 1., z))


@harness("C16", configs=product(axis=(0, 1, -1, None)), bounds="rank 1..2 trees, axes 0, 1 and -1")
def expand_apply(ctx, axis):
  x, y = ctx.real("x", (2, 2)), ctx.real("y", (2,))
  ax = 0 if axis is None else axis
  kw = {} if axis is None else dict(axis=axis)
  if axis == 1:
    ctx.raises("unsupported axis rejected", lambda: hk.expand_apply(lambda t: t, axis=1), ValueError)
    return
  sh = {0: ((1, 2, 2), (1, 2)), 1: ((2, 1, 2), (2, 1)), -1: ((2, 2, 1), (2, 1))}[ax]
  def f(t, k=None):
    assert t["x"].shape == sh[0] and k.shape == sh[1], (t["x"].shape, k.shape)
    return t["x"] * 2. + 1., {"s": k * k}
  out = ctx.run(lambda x, y: hk.expand_apply(f, **kw)({"x": x}, k=y), x, y)
  ctx.eq("expand_apply", out, ctx.run(lambda x, y: (x * 2. + 1., {"s": y * y}), x, y))
  bad = lambda t: jnp.concatenate([t, t], ax)
  ctx.raises("result without the singleton axis rejected", lambda: ctx.run(lambda x: hk.expand_apply(bad, **kw)(x), x))
