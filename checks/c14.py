"""C14: transposed convolutions."""
import inspect
from checks.common import *
from checks.refs import *
from checks.c13 import LAST, FIRST

CLS = {1: "Conv1DTranspose", 2: "Conv2DTranspose", 3: "Conv3DTranspose"}


def case(ctx, nd, sizes, ks, stride, padding, out_shape=None, cin=1, cout=1, bias=True, batch=1, fmt=None, mask=False,
         generic=False, scalar=False):
  fmt = fmt or LAST[nd][0]
  last = fmt in LAST[nd]
  lead = () if batch is None else (batch,)
  x = ctx.real("x", lead + (tuple(sizes) + (cin,) if last else (cin,) + tuple(sizes)))
  wsh = tuple(ks) + (cout, cin)
  w = ctx.real("w", wsh)
  m = ctx.real("m", wsh) if mask else None
  kw = dict(output_channels=cout, kernel_shape=ks[0] if scalar else list(ks), stride=stride[0] if scalar else list(stride),
            padding=padding, with_bias=bias, data_format=fmt,
            output_shape=None if out_shape is None else (out_shape[0] if scalar else list(out_shape)))
  bsh = (cout,) if last else (cout,) + (1,) * nd
  def net(x, m=None):
    mod = hk.ConvNDTranspose(nd, mask=m, name="c", **kw) if generic else getattr(hk, CLS[nd])(mask=m, name="c", **kw)
    return mod(x)
  f = hk.transform(net)
  args = [x] + ([m] if mask else [])
  if out_shape is not None:
    ok = all(n == (-(-o // s) if padding == "SAME" else (o - k + s) // s) for n, o, s, k in zip(sizes, out_shape, stride, ks))
    if not ok:
      ctx.raises("impossible output_shape rejected", lambda: init_shapes(f, *args), ValueError)
      return
  check_shapes(ctx, "params", init_shapes(f, *args), {"c": {"w": wsh, **({"b": bsh} if bias else {})}})
  params = {"c": {"w": w}}
  if bias:
    params["c"]["b"] = ctx.real("b", bsh)
  out = ctx.run(lambda p, *a: f.apply(p, None, *a), params, *args)
  osz = out.shape[len(lead):]
  osz = tuple(osz[:-1] if last else osz[1:])
  if out_shape is not None:
    want = tuple(out_shape)
  elif padding == "SAME":
    want = tuple(n * s for n, s in zip(sizes, stride))
  else:
    want = tuple((n - 1) * s + max(k, s) for n, s, k in zip(sizes, stride, ks))
  ctx.check(f"output size {osz} vs {want}", osz == want)
  before = [0 if padding == "VALID" else max(0, (n - 1) * s + k - o) // 2 for n, s, k, o in zip(sizes, stride, ks, want)]
  def ref(p, x, m=None):
    if batch is None:
      x = x[None]
    w = p["c"]["w"] * (1. if m is None else m)
    y = ref_conv_transpose(to_last(x, nd, last), w, stride, want, before)
    if bias:
      y = y + p["c"]["b"].reshape(-1)
    y = from_last(y, last)
    return y[0] if batch is None else y
  ctx.eq("transposed convolution", out, ctx.run(ref, params, *args))


@harness("C14", configs=product(padding=("SAME", "VALID"), stride=(1, 2, 3)), thorough=product(padding=("SAME", "VALID"), stride=(4, 5)),
         bounds="1D length 1..4, kernel 1..4, stride 1..3 (5), all inputs and weights")
def convt1d(ctx, padding, stride):
  case(ctx, 1, (ctx.choice("n", [1, 2, 3, 4]),), (ctx.choice("k", [1, 2, 3, 4]),), (stride,), padding, generic=ctx.flag("generic"))


@harness("C14", configs=product(padding=("SAME", "VALID"), stride=(1, 2, 3)),
         bounds="1D length 1..3, kernel 1..4, stride 1..3, requested output sizes 1..9")
def convt1d_output_shape(ctx, padding, stride):
  n = ctx.choice("n", [1, 2, 3])
  k = ctx.choice("k", [1, 2, 3, 4])
  o = ctx.choice("o", list(range(1, 10)))
  case(ctx, 1, (n,), (k,), (stride,), padding, out_shape=(o,))


@harness("C14", configs=product(fmt=LAST[1] + FIRST[1] + LAST[2] + FIRST[2], padding=("SAME", "VALID")),
         bounds="1D/2D with 1..2 channels in, 1..2 out, mask, bias, batched and unbatched, output_shape and default")
def convt_channels(ctx, fmt, padding):
  nd = ctx.choice("nd", [1, 2])
  if fmt not in LAST[nd] + FIRST[nd]:
    ctx.check("n/a", True)
    return
  sizes = (2,) if nd == 1 else (2, 3)
  ks = ctx.choice("k", [(2, 3)[:nd], (3, 1)[:nd]])
  st = ctx.choice("s", [(1, 2)[:nd], (2, 1)[:nd]])
  osh = None
  if ctx.flag("out"):
    osh = tuple(n * s if padding == "SAME" else (n - 1) * s + k for n, s, k in zip(sizes, st, ks))
    if padding == "SAME" and ctx.flag("odd"):
      osh = tuple(o - 1 if s > 1 else o for o, s in zip(osh, st))
  cin, cout = ctx.choice("c", [(1, 2), (2, 1)])
  case(ctx, nd, sizes, ks, st, padding, out_shape=osh, cin=cin, cout=cout, bias=ctx.flag("bias"), batch=ctx.choice("b", [None, 2]),
       fmt=fmt, mask=ctx.flag("mask"))


@harness("C14", configs=product(fmt=LAST[3] + FIRST[3], padding=("SAME", "VALID")), bounds="3D 1x2x2 inputs")
def convt3d(ctx, fmt, padding):
  ks, st = ctx.choice("k", [(1, 2, 3), (2, 1, 2)]), ctx.choice("s", [(1, 2, 1), (2, 1, 1)])
  sizes = (1, 2, 2)
  osh = None
  if ctx.flag("out"):
    osh = tuple(n * s if padding == "SAME" else (n - 1) * s + k for n, s, k in zip(sizes, st, ks))
  case(ctx, 3, sizes, ks, st, padding, out_shape=osh, cin=ctx.choice("c", [1, 2]), cout=2, fmt=fmt, batch=ctx.choice("b", [None, 1]))


@harness("C14", bounds="int arguments replicated; explicit padding pairs")
def convt_args(ctx):
  nd = ctx.choice("nd", [1, 2, 3])
  osh = (4,) * nd if ctx.flag("out") else None
  case(ctx, nd, (2,) * nd, (2,) * nd, (2,) * nd, "SAME", out_shape=osh, cout=2, scalar=True)


@harness("C14", configs=product(lo=(0, 1, 2), hi=(0, 1, 2)), bounds="1D, explicit (low, high) padding of the dilated input")
def convt_pairs(ctx, lo, hi):
  n, k, s = ctx.choice("n", [2, 3]), ctx.choice("k", [1, 2]), ctx.choice("s", [1, 2])
  x, w = ctx.real("x", (1, n, 1)), ctx.real("w", (k, 1, 1))
  f = hk.transform(lambda x: hk.Conv1DTranspose(1, k, stride=s, padding=[(lo, hi)], with_bias=False, name="c")(x))
  out = ctx.run(lambda p, x: f.apply(p, None, x), {"c": {"w": w}}, x)
  osz = (n - 1) * s + 1 + lo + hi - k + 1
  ctx.eq("explicit padding", out, ctx.run(lambda x, w: ref_conv_transpose(x, w, (s,), (osz,), (k - 1 - lo,)), x, w))


@harness("C14", bounds="errors; initial values")
def convt_errors(ctx):
  x = ctx.real("x", (2, 4, 2))
  mk = lambda **kw: hk.transform(lambda x: hk.Conv1DTranspose(2, 2, **kw)(x))
  ctx.raises("bad mask shape", lambda: init_shapes(mk(mask=np.ones((2, 2, 3))), x), ValueError)
  ctx.raises("rank too large", lambda: init_shapes(mk(), jax.ShapeDtypeStruct((1, 2, 3, 4), np.float32)), ValueError)
  ctx.raises("rank too small", lambda: init_shapes(mk(), jax.ShapeDtypeStruct((3,), np.float32)), ValueError)
  ctx.raises("no spatial dims", lambda: init_shapes(hk.transform(lambda x: hk.ConvNDTranspose(0, 2, 2)(x)), x), ValueError)
  ctx.raises("pairs with output_shape", lambda: init_shapes(mk(padding=[(1, 1)], output_shape=4), x), ValueError)
  key = ctx.key("k")
  p = ctx.run(mk().init, key, x)["conv1_d_transpose"]
  ctx.eq("bias starts at zero", p["b"], np.zeros(2, np.float32))
  ctx.check("w within 2/sqrt(fan_in)", ctx.le(p["w"], np.full((2, 2, 2), 1.0, np.float32)))
  ctx.check("w within 2/sqrt(fan_in)", ctx.ge(p["w"], np.full((2, 2, 2), -1.0, np.float32)))


@harness("C14", configs=product(padding=("SAME", "VALID")),
         bounds="symbolic input size 1..40, output size 1..200, kernel 1..12, stride 1..6, dilation 1..3")
def adjusted_padding(ctx, padding):
  from haiku._src import conv
  fn = getattr(conv, "compute_adjusted_padding", None)
  try:
    ok = list(inspect.signature(fn).parameters)[:6] == ["input_size", "output_size", "kernel_size", "stride", "padding", "dilation"]
  except (TypeError, ValueError):
    ok = False
  if not ok:
    ctx.check("helper not present under its old signature", True)
    return
  n, o, k = ctx.int("n", 1, 40), ctx.int("o", 1, 200), ctx.int("k", 1, 12)
  s, d = ctx.choice("s", [1, 2, 3, 4, 5, 6]), ctx.choice("d", [1, 2, 3])
  ke = (k - 1) * d + 1
  expect = (o + s - 1) // s if padding == "SAME" else (o - ke + s) // s
  try:
    b, a = fn(n, o, k, s, padding, d)
  except ValueError:
    ctx.check("rejected only when impossible", n != expect)
    return
  ctx.check("accepted only when consistent", n == expect)
  ctx.check("produces exactly the requested size", (n - 1) * s + 1 + b + a - ke + 1 == o)
  need = (n - 1) * s + ke - o
  fwd = 0 if padding == "VALID" else (0 if need <= 0 else need // 2)
  ctx.check("is the adjoint's padding", b == ke - 1 - fwd)
