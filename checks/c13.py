"""C13: convolution layers, depthwise and separable convolutions, padding functions."""
from checks.common import *
from checks.refs import *

PADFN = dict(full=lambda k: (k - 1, k - 1), same=lambda k: ((k - 1) // 2, k // 2), valid=lambda k: (0, 0),
             causal=lambda k: (k - 1, 0), reverse_causal=lambda k: (0, k - 1))


def pads_for(padding, sizes, ks, stride, rate):
  out = []
  nd = len(sizes)
  pl = padding if isinstance(padding, (list, tuple)) else [padding] * nd
  for p, n, k, s, r in zip(pl, sizes, ks, stride, rate):
    ke = (k - 1) * r + 1
    if p == "SAME":
      out.append(same_pad(n, ke, s))
    elif p == "VALID":
      out.append((0, 0))
    elif isinstance(p, tuple):
      out.append(p)
    else:
      out.append(PADFN[p](ke))
  return out


def code_padding(padding):
  if isinstance(padding, (list, tuple)):
    return [q if isinstance(q, tuple) else getattr(hk.pad, q) for q in padding]
  return padding if padding in ("SAME", "VALID") else getattr(hk.pad, padding)


LAST = {1: ("NWC", "channels_last", "N...C"), 2: ("NHWC", "channels_last"), 3: ("NDHWC",)}
FIRST = {1: ("NCW", "channels_first", "NC..."), 2: ("NCHW", "channels_first"), 3: ("NCDHW",)}
CLS = {1: "Conv1D", 2: "Conv2D", 3: "Conv3D"}


def conv_case(ctx, nd, sizes, ks, stride, rate, padding, groups=1, cin=1, cout=1, bias=True, batch=1, fmt=None,
              mask=False, generic=False, scalar_args=False):
  fmt = fmt or LAST[nd][0]
  last = fmt in LAST[nd]
  lead = () if batch is None else (batch,)
  shape = lead + (tuple(sizes) + (cin,) if last else (cin,) + tuple(sizes))
  x = ctx.real("x", shape)
  wsh = tuple(ks) + (cin // groups, cout)
  w = ctx.real("w", wsh)
  kw = dict(output_channels=cout, kernel_shape=ks[0] if scalar_args else list(ks),
            stride=stride[0] if scalar_args else tuple(stride), rate=rate[0] if scalar_args else list(rate),
            padding=code_padding(padding), with_bias=bias, data_format=fmt, feature_group_count=groups)
  m = ctx.real("m", wsh) if mask else None
  bsh = (cout,) if last else (cout,) + (1,) * nd
  def net(x, m=None):
    mod = hk.ConvND(nd, mask=m, name="c", **kw) if generic else getattr(hk, CLS[nd])(mask=m, name="c", **kw)
    return mod(x)
  f = hk.transform(net)
  want = {"c": {"w": wsh, **({"b": bsh} if bias else {})}}
  check_shapes(ctx, "conv params", init_shapes(f, x, *([m] if mask else [])), want)
  params = {"c": {"w": w}}
  if bias:
    params["c"]["b"] = ctx.real("b", bsh)
  args = [x] + ([m] if mask else [])
  out = ctx.run(lambda p, *a: f.apply(p, None, *a), params, *args)
  pads = pads_for(padding, sizes, ks, stride, rate)
  def ref(p, x, m=None):
    if batch is None:
      x = x[None]
    w = p["c"]["w"] * (1. if m is None else m)
    y = ref_conv(to_last(x, nd, last), w, stride, rate, pads, groups)
    if bias:
      y = y + p["c"]["b"].reshape(-1)
    y = from_last(y, last)
    return y[0] if batch is None else y
  ctx.eq("convolution", out, ctx.run(ref, params, *args))
  osz = out.shape[len(lead):]
  osz = osz[:-1] if last else osz[1:]
  for n, o, s, k, r in zip(sizes, osz, stride, ks, rate):
    if padding == "SAME":
      ctx.check(f"SAME size {n}->{o}", o == -(-n // s))
    if padding == "VALID":
      ctx.check(f"VALID size {n}->{o}", o == max(0, (n - ((k - 1) * r + 1)) // s + 1))


@harness("C13", configs=product(padding=("SAME", "VALID", "full", "same", "valid", "causal", "reverse_causal", "tuple"), stride=(1, 2, 3)),
         thorough=product(padding=("SAME", "VALID", "full", "same", "causal", "reverse_causal", "tuple"), stride=(4, 5)),
         bounds="1D, length 1..5, kernel 1..3, stride 1..3 (5 thorough), dilation 1..2, all inputs and weights")
def conv1d(ctx, padding, stride):
  n = ctx.choice("n", [1, 2, 3, 4, 5])
  k = ctx.choice("k", [1, 2, 3])
  r = ctx.choice("rate", [1, 2])
  if padding == "tuple":
    padding = [ctx.choice("pad", [(0, 1), (2, 0), (1, 2)])]
  if padding == "VALID" and (k - 1) * r + 1 > n:
    ctx.check("kernel larger than input", True)
    return
  conv_case(ctx, 1, (n,), (k,), (stride,), (r,), padding, generic=ctx.flag("generic"))


@harness("C13", configs=product(groups=(1, 2), fmt=LAST[1] + FIRST[1]),
         bounds="1D length 3 kernel 2, 2-4 channels in, 2-4 out, groups 1..2, every data format, batched (1,2,unbatched), masked or not, with/without bias")
def conv1d_channels(ctx, groups, fmt):
  cin, cout = ctx.choice("c", [(2, 2), (2, 4), (4, 2)])
  conv_case(ctx, 1, (3,), (2,), (ctx.choice("s", [1, 2]),), (1,), ctx.choice("p", ["SAME", "causal"]), groups=groups, cin=cin, cout=cout,
            bias=ctx.flag("bias"), batch=ctx.choice("batch", [None, 2]), fmt=fmt, mask=ctx.flag("mask"))


@harness("C13", configs=product(fmt=LAST[2] + FIRST[2], padding=("SAME", "VALID", ("full", "causal"), ("reverse_causal", "same"), ((1, 0), (0, 2)), "full")),
         bounds="2D 3x4 inputs, kernels and strides and rates differing per axis, 1..2 channels")
def conv2d(ctx, fmt, padding):
  ks = ctx.choice("k", [(2, 3), (3, 1), (1, 2)])
  st = ctx.choice("s", [(1, 1), (1, 2), (2, 1)])
  rt = ctx.choice("r", [(1, 1), (2, 1), (1, 2)])
  sizes = (4, 5) if padding == "VALID" else (3, 4)
  if padding == "VALID" and any((k - 1) * r + 1 > n for n, k, r in zip(sizes, ks, rt)):
    ctx.check("kernel larger than input", True)
    return
  cin, cout = ctx.choice("c", [(1, 2), (2, 1)])
  conv_case(ctx, 2, sizes, ks, st, rt, list(padding) if isinstance(padding, tuple) else padding, cin=cin, cout=cout,
            bias=True, batch=ctx.choice("batch", [None, 1]), fmt=fmt)


@harness("C13", configs=product(fmt=LAST[3] + FIRST[3], padding=("SAME", "VALID", "causal")), bounds="3D 2x3x2 inputs")
def conv3d(ctx, fmt, padding):
  conv_case(ctx, 3, (2, 3, 2), ctx.choice("k", [(1, 2, 2), (2, 1, 2)]), ctx.choice("s", [(1, 1, 1), (1, 2, 1), (2, 1, 2)]),
            ctx.choice("r", [(1, 1, 1), (1, 1, 1) if padding == "VALID" else (1, 2, 1)]), padding,
            cin=ctx.choice("c", [1, 2]), cout=2, batch=ctx.choice("b", [None, 1]), fmt=fmt)


@harness("C13", bounds="1D-3D, int and one-element arguments replicated over the axes")
def conv_scalar_args(ctx):
  nd = ctx.choice("nd", [1, 2, 3])
  conv_case(ctx, nd, (3,) * nd, (2,) * nd, (2,) * nd, (1,) * nd, ctx.choice("p", ["SAME", "causal"]), cout=2, scalar_args=True)


@harness("C13", configs=product(dirn=("causal", "reverse_causal"), rate=(1, 2), k=(1, 2, 3)),
         bounds="length 4: changing any later (earlier) input leaves an output unchanged")
def causality(ctx, dirn, rate, k):
  x, y = ctx.real("x", (1, 4, 1)), ctx.real("y", (1, 4, 1))
  w, b = ctx.real("w", (k, 1, 1)), ctx.real("b", (1,))
  f = hk.transform(lambda x: hk.Conv1D(1, k, rate=rate, padding=getattr(hk.pad, dirn))(x))
  app = lambda x: ctx.run(lambda p, x: f.apply(p, None, x), {"conv1_d": {"w": w, "b": b}}, x)
  base = app(x)
  ctx.check("length kept", tuple(base.shape) == (1, 4, 1))
  for t in range(4):
    keep = np.arange(4) <= t if dirn == "causal" else np.arange(4) >= t
    mix = ctx.run(lambda x, y: jnp.where(keep[None, :, None], x, y), x, y)
    ctx.eq(f"output {t} ignores the other side", app(mix)[:, t], base[:, t])


@harness("C13", configs=product(name=tuple(PADFN)), bounds="kernel sizes 1..64, dilation 1..8 as symbolic integers")
def pad_functions(ctx, name):
  k = ctx.int("k", 1, 64)
  r = ctx.int("r", 1, 8)
  ke = (k - 1) * r + 1
  got = getattr(hk.pad, name)(k)
  ctx.check(f"{name} before", got[0] == PADFN[name](k)[0])
  ctx.check(f"{name} after", got[1] == PADFN[name](k)[1])
  pads = hk.pad.create(getattr(hk.pad, name), k, r, 2)
  ctx.check("one entry per axis", len(pads) == 2)
  for p in pads:
    ctx.check(f"{name} create before", p[0] == PADFN[name](ke)[0])
    ctx.check(f"{name} create after", p[1] == PADFN[name](ke)[1])
  if name == "same":
    ctx.check("stride-1 output size kept", got[0] + got[1] == k - 1)


@harness("C13", bounds="2-3 axes with symbolic kernel 1..32 and rate 1..8, independent padding functions per axis")
def pad_create_mixed(ctx):
  n = ctx.choice("n", [2, 3])
  ks = [ctx.int(f"k{i}", 1, 32) for i in range(n)]
  rs = [ctx.int(f"r{i}", 1, 8) for i in range(n)]
  fns = [ctx.choice(f"f{i}", ["full", "causal", "reverse_causal"]) for i in range(n)]
  got = hk.pad.create([getattr(hk.pad, f) for f in fns], ks, rs, n)
  for i in range(n):
    ke = (ks[i] - 1) * rs[i] + 1
    ctx.check(f"axis {i} before", got[i][0] == PADFN[fns[i]](ke)[0])
    ctx.check(f"axis {i} after", got[i][1] == PADFN[fns[i]](ke)[1])


@harness("C13", bounds="argument errors; default weight range; initial bias")
def conv_errors(ctx):
  x = ctx.real("x", (2, 4, 2))
  mk = lambda **kw: hk.transform(lambda x: hk.Conv1D(2, 2, **kw)(x))
  ctx.raises("channels not divisible by groups", lambda: init_shapes(mk(feature_group_count=3), x), ValueError)
  ctx.raises("bad mask shape", lambda: init_shapes(mk(mask=np.ones((2, 2, 3))), x), ValueError)
  ctx.raises("bad data format", lambda: init_shapes(mk(data_format="foo"), x), ValueError)
  ctx.raises("rank too large", lambda: init_shapes(mk(), jax.ShapeDtypeStruct((1, 2, 3, 4), np.float32)), ValueError)
  ctx.raises("rank too small", lambda: init_shapes(mk(), jax.ShapeDtypeStruct((3,), np.float32)), ValueError)
  ctx.raises("no spatial dims", lambda: init_shapes(hk.transform(lambda x: hk.ConvND(0, 2, 2)(x)), x), ValueError)
  ctx.raises("kernel rank", lambda: init_shapes(hk.transform(lambda x: hk.Conv1D(2, (2, 2))(x)), x), (TypeError, ValueError))
  key = ctx.key("k")
  p = ctx.run(mk().init, key, x)
  ctx.eq("bias starts at zero", p["conv1_d"]["b"], np.zeros(2, np.float32))
  ctx.check("w within 2/sqrt(fan_in)", ctx.le(p["conv1_d"]["w"], np.full((2, 2, 2), 1.0, np.float32)))
  ctx.check("w within 2/sqrt(fan_in)", ctx.ge(p["conv1_d"]["w"], np.full((2, 2, 2), -1.0, np.float32)))
  g = mk(w_init=lambda s, d: jnp.full(s, 7., d), b_init=lambda s, d: jnp.full(s, 3., d))
  ctx.eq("custom initializers", ctx.run(g.init, key, x), {"conv1_d": {"w": np.full((2, 2, 2), 7, np.float32), "b": np.full((2,), 3, np.float32)}})


@harness("C13", configs=product(fmt=("NHWC", "NCHW", "channels_first"), mult=(1, 2), padding=("SAME", "VALID", ((1, 0), (0, 2)))),
         bounds="depthwise 2D, 3x4 inputs, 1..2 channels, multiplier 1..2")
def depthwise(ctx, fmt, mult, padding):
  last = fmt == "NHWC"
  cin = ctx.choice("c", [1, 2, 3])
  ks = ctx.choice("k", [(2, 2), (1, 3), (3, 1)])
  st = ctx.choice("s", [(1, 1), (2, 1), (1, 2)])
  bias = ctx.flag("bias")
  sizes = (3, 4)
  x = ctx.real("x", (1,) + (sizes + (cin,) if last else (cin,) + sizes))
  f = hk.transform(lambda x: hk.DepthwiseConv2D(mult, ks, stride=st, padding=padding, with_bias=bias, data_format=fmt, name="d")(x))
  co = mult * cin
  bsh = (co,) if last else (co, 1, 1)
  check_shapes(ctx, "depthwise params", init_shapes(f, x), {"d": {"w": ks + (1, co), **({"b": bsh} if bias else {})}})
  params = {"d": {"w": ctx.real("w", ks + (1, co))}}
  if bias:
    params["d"]["b"] = ctx.real("b", bsh)
  pads = pads_for(list(padding) if isinstance(padding, tuple) else padding, sizes, ks, st, (1, 1))
  def ref(p, x):
    y = ref_conv(to_last(x, 2, last), p["d"]["w"], st, (1, 1), pads, cin)
    return from_last(y + (p["d"]["b"].reshape(-1) if bias else 0.), last)
  ctx.eq("depthwise", ctx.run(lambda p, x: f.apply(p, None, x), params, x), ctx.run(ref, params, x))


@harness("C13", configs=product(fmt=("NHWC", "NCHW"), mult=(1, 2), padding=("SAME", "VALID")),
         bounds="separable 2D, 4x4 inputs, 1..2 channels")
def separable(ctx, fmt, mult, padding):
  last = fmt == "NHWC"
  cin = ctx.choice("c", [1, 2])
  ks = ctx.choice("k", [(2, 2), (2, 3), (3, 2)])
  st = ctx.choice("s", [(1, 1), (2, 1)])
  bias = ctx.flag("bias")
  sizes = (4, 3)
  x = ctx.real("x", (1,) + (sizes + (cin,) if last else (cin,) + sizes))
  f = hk.transform(lambda x: hk.SeparableDepthwiseConv2D(mult, list(ks), stride=st, padding=padding, with_bias=bias, data_format=fmt, name="d")(x))
  co = mult * cin
  bsh = (co,) if last else (co, 1, 1)
  n1, n2 = "d/~/depthwise_conv2_d", "d/~/depthwise_conv2_d_1"
  want = {n1: {"w": (ks[0], 1, 1, co)}, n2: {"w": (1, ks[1], 1, co), **({"b": bsh} if bias else {})}}
  check_shapes(ctx, "separable params", init_shapes(f, x), want)
  params = {m: {n: ctx.real(m + n, s) for n, s in b.items()} for m, b in want.items()}
  def ref(p, x):
    x = to_last(x, 2, last)
    k1, k2 = (ks[0], 1), (1, ks[1])
    y = ref_conv(x, p[n1]["w"], st, (1, 1), pads_for(padding, sizes, k1, st, (1, 1)), cin)
    y = ref_conv(y, p[n2]["w"], (1, 1), (1, 1), pads_for(padding, y.shape[1:3], k2, (1, 1), (1, 1)), co)
    return from_last(y + (p[n2]["b"].reshape(-1) if bias else 0.), last)
  ctx.eq("separable", ctx.run(lambda p, x: f.apply(p, None, x), params, x), ctx.run(ref, params, x))
