"""C15: pooling."""
from checks.common import *
from checks.refs import same_pad


def windows(n, k, s, padding):
  lo, hi = same_pad(n, k, s) if padding == "SAME" else (0, 0)
  out = -(-n // s) if padding == "SAME" else max((n - k) // s + 1, 0)
  return [[i for i in range(o * s - lo, o * s - lo + k) if 0 <= i < n] for o in range(out)]


def ref_pool(x, win, st, padding, op):
  """win/st: full rank tuples."""
  idx = [windows(n, k, s, padding) for n, k, s in zip(x.shape, win, st)]
  outs = []
  for o in itertools.product(*[range(len(i)) for i in idx]):
    elems = [x[e] for e in itertools.product(*[idx[d][o[d]] for d in range(x.ndim)])]
    if op == "max":
      v = elems[0]
      for e in elems[1:]:
        v = jnp.maximum(v, e)
    else:
      v = sum(elems) / len(elems)
    outs.append(v)
  shape = tuple(len(i) for i in idx)
  return jnp.stack(outs).reshape(shape) if outs else jnp.zeros(shape, x.dtype)


def full(x, size, channel_axis):
  """Documented meaning of window/stride arguments."""
  if isinstance(size, int):
    ca = None if channel_axis is None else channel_axis % x.ndim
    return tuple(1 if d == 0 or d == ca else size for d in range(x.ndim))
  return (1,) * (x.ndim - len(size)) + tuple(size)


def case(ctx, shape, win, st, padding, op, channel_axis=-1, module=False, default_axis=False):
  x = ctx.real("x", shape)
  kw = {} if default_axis else dict(channel_axis=channel_axis)
  if module:
    cls = hk.MaxPool if op == "max" else hk.AvgPool
    f = hk.transform(lambda x: cls(win, st, padding, **kw)(x))
    ctx.check("no params", shape_spec(init_shapes(f, x)) == {})
    out = ctx.run(lambda x: f.apply({}, None, x), x)
  else:
    fn = hk.max_pool if op == "max" else hk.avg_pool
    out = ctx.run(lambda x: fn(x, win, st, padding, **kw), x)
  w, s = full(x, win, channel_axis), full(x, st, channel_axis)
  ctx.eq(f"{op} pool", out, ctx.run(lambda x: ref_pool(x, w, s, padding, op), x))
  if padding == "SAME":
    ctx.check("SAME output size", tuple(out.shape) == tuple(-(-n // q) for n, q in zip(shape, s)))


@harness("C15", configs=product(op=("max", "avg"), padding=("SAME", "VALID"), stride=(1, 2, 3)),
         thorough=product(op=("max", "avg"), padding=("SAME", "VALID"), stride=(4,)),
         bounds="1D length 1..6, window 1..4, strides 1..3 (4), all values")
def pool1d(ctx, op, padding, stride):
  n, k = ctx.choice("n", [1, 2, 3, 4, 5, 6]), ctx.choice("k", [1, 2, 3, 4])
  if padding == "VALID" and k > n:
    ctx.check("window larger than input", True)
    return
  case(ctx, (1, n, 1), k, stride, padding, op, module=ctx.flag("module"), default_axis=ctx.flag("default_axis"))


@harness("C15", configs=product(op=("max", "avg"), padding=("SAME", "VALID"), ca=(-1, 1, 2, 3, -2, -3, None)),
         bounds="rank 4 inputs 2x3x2x2, int windows and strides, every channel axis")
def pool_channel_axis(ctx, op, padding, ca):
  case(ctx, (2, 3, 2, 2), 2, ctx.choice("s", [1, 2, (1, 2, 1, 2)]), padding, op, channel_axis=ca, module=ctx.flag("module"))


@harness("C15", configs=product(op=("max", "avg"), padding=("SAME", "VALID")),
         bounds="per-axis windows and strides, full rank and shorter (batch dims in front), mixed int/sequence")
def pool_sequences(ctx, op, padding):
  shape = ctx.choice("shape", [(3, 4), (2, 3, 4), (2, 2, 3, 2)])
  wl = ctx.choice("wl", [1, 2, 3])
  if wl > len(shape):
    ctx.check("n/a", True)
    return
  win = ctx.choice("w", [(2, 1, 2)[-wl:], (1, 3, 2)[-wl:], (2, 2, 1)[-wl:]])
  st = ctx.choice("s", [1, 2, (1, 2, 1)[-wl:], (2, 1, 2)[-wl:]])
  if padding == "VALID" and any(k > n for k, n in zip(win, shape[-wl:])):
    ctx.check("window larger than input", True)
    return
  if ctx.flag("list"):
    win = list(win)
  case(ctx, shape, win, st, padding, op, module=ctx.flag("module"))


@harness("C15", bounds="rejected arguments")
def pool_errors(ctx):
  x = ctx.real("x", (2, 3, 2))
  for fn, cls in ((hk.max_pool, hk.MaxPool), (hk.avg_pool, hk.AvgPool)):
    ctx.raises("unknown padding", lambda: ctx.run(lambda x: fn(x, 2, 1, "FULL"), x), ValueError)
    ctx.raises("channel axis out of range", lambda: ctx.run(lambda x: fn(x, 2, 1, "SAME", channel_axis=3), x), ValueError)
    ctx.raises("negative channel axis out of range", lambda: ctx.run(lambda x: fn(x, 2, 1, "SAME", channel_axis=-4), x), ValueError)
