"""C27: ResNet and MobileNet wiring."""
from checks.common import *


# -------------------------------------------------- hand-written reference nets
class Ref:
  """Functional reference: every layer applied by explicit parameter path."""

  def __init__(self, p, s, train, local=False):
    self.p, self.s, self.train, self.local = p, s, train, local
    self.new = {k: dict(v) for k, v in s.items()}
    self.used = set()

  def conv(self, path, x, out, k, stride, pad="SAME", bias=False, depthwise=False):
    self.used.add(path)
    cls = (lambda: hk.DepthwiseConv2D(1, k, stride, pad, with_bias=bias, name="c")) if depthwise else \
        (lambda: hk.Conv2D(out, k, stride, padding=pad, with_bias=bias, name="c"))
    return hk.transform(lambda x: cls()(x)).apply({"c": self.p[path]}, None, x)

  def bn(self, path, x, decay, eps=1e-5):
    self.used.add(path)
    f = hk.transform_with_state(lambda x: hk.BatchNorm(True, True, decay, eps=eps, name="b")(x, self.train, self.local))
    st = {f"b/~/{n}": self.s[f"{path}/~/{n}"] for n in ("mean_ema", "var_ema")}
    y, new = f.apply({"b": self.p[path]}, st, None, x)
    for n in ("mean_ema", "var_ema"):
      self.new[f"{path}/~/{n}"] = dict(new[f"b/~/{n}"])
    return y

  def linear(self, path, x, n):
    self.used.add(path)
    return hk.transform(lambda x: hk.Linear(n, name="l")(x)).apply({"l": self.p[path]}, None, x)

  def block(self, pre, x, v2, ch, stride, proj, bottle, decay, eps=1e-5):
    inner = ch // 4 if bottle else ch
    convs = [(inner, 1, 1), (inner, 3, stride), (ch, 1, 1)] if bottle else [(ch, 3, stride), (ch, 3, 1)]
    y = short = x
    if not v2:
      if proj:
        short = self.conv(f"{pre}/~/shortcut_conv", x, ch, 1, stride)
        short = self.bn(f"{pre}/~/shortcut_batchnorm", short, decay, eps)
      for i, (c, k, s) in enumerate(convs):
        y = self.conv(f"{pre}/~/conv_{i}", y, c, k, s)
        y = self.bn(f"{pre}/~/batchnorm_{i}", y, decay, eps)
        if i + 1 < len(convs):
          y = jax.nn.relu(y)
      return jax.nn.relu(y + short)
    for i, (c, k, s) in enumerate(convs):
      y = jax.nn.relu(self.bn(f"{pre}/~/batchnorm_{i}", y, decay, eps))
      if i == 0 and proj:
        short = self.conv(f"{pre}/~/shortcut_conv", y, ch, 1, stride)
      y = self.conv(f"{pre}/~/conv_{i}", y, c, k, s)
    return y + short

  def resnet(self, pre, x, v2, blocks, channels, proj, bottle, classes, decay, eps, logits="logits"):
    y = self.conv(f"{pre}/~/initial_conv", x, 64, 7, 2)
    if not v2:
      y = jax.nn.relu(self.bn(f"{pre}/~/initial_batchnorm", y, decay, eps))
    y = hk.max_pool(y, (1, 3, 3, 1), (1, 2, 2, 1), "SAME")
    for g in range(4):
      for b in range(blocks[g]):
        y = self.block(f"{pre}/~/block_group_{g}/~/block_{b}", y, v2, channels[g], ((1, 2, 2, 2)[g] if b == 0 else 1), proj[g] and b == 0, bottle, decay, eps)
    if v2:
      y = jax.nn.relu(self.bn(f"{pre}/~/final_batchnorm", y, decay, eps))
    return self.linear(f"{pre}/~/{logits}", jnp.mean(y, axis=(1, 2)), classes)

  def mobile_block(self, pre, x, ch, stride, use_bn):
    y = self.conv(f"{pre}/depthwise_conv", x, None, 3, stride, ((1, 1), (1, 1)), not use_bn, depthwise=True)
    y = self.bn(f"{pre}/batch_norm", y, .999) if use_bn else y
    y = self.conv(f"{pre}/pointwise_conv", jax.nn.relu(y), ch, 1, 1, "VALID", not use_bn)
    y = self.bn(f"{pre}/batch_norm_1", y, .999) if use_bn else y
    return jax.nn.relu(y)

  def mobilenet(self, pre, x, strides, channels, classes, use_bn):
    y = self.conv(f"{pre}/conv2_d", x, 32, 3, 2, "VALID", not use_bn)
    y = jax.nn.relu(self.bn(f"{pre}/batch_norm", y, .999) if use_bn else y)
    for i, (s, c) in enumerate(zip(strides, channels)):
      y = self.mobile_block(f"{pre}/mobile_net_v1_block" + (f"_{i}" if i else ""), y, c, s, use_bn)
    return self.linear(f"{pre}/logits", jnp.mean(y, axis=(1, 2)), classes)


def compare(ctx, net, ref, xshape, train):
  """net(x) vs ref(Ref, x) for opaque params, state and input."""
  f = hk.transform_with_state(lambda x: net(x, *train))
  x = jax.ShapeDtypeStruct(xshape, np.float32)
  ps, ss = init_shapes(hk.transform_with_state(lambda x: net(x, True, False)), x)
  p, s = ctx.opaque("p", ps), ctx.opaque("s", ss)
  xi = ctx.opaque("x", x)
  out, new = ctx.orun(lambda p, s, x: f.apply(p, s, None, x), p, s, xi)
  used = []
  def go(p, s, x):
    r = Ref(p, s, *train)
    y = ref(r, x)
    used.append(r.used)
    return y, r.new
  try:
    ro, rn = ctx.orun(go, p, s, xi)
  except KeyError as e:
    ctx.check(f"documented parameter missing: {e}", False)
  ctx.check(f"exactly the documented parameters {sorted(set(ps) ^ used[0])}", set(ps) == used[0])
  ctx.oeq("output", out, ro)
  ctx.oeq("only the normalisation statistics change" if train[0] else "state unchanged", new, rn if train[0] else s)
  return ps, ss, out


TR = [(True, False), (False, False), (False, True)]


@harness("C27", configs=product(v2=(False, True), bottle=(False, True), proj=(False, True), stride=(1, 2, (1, 2), (2, 1))), bounds="8 channels, 5x4 images, batch 2: all values (array-level encoding); every flag combination", validate=False)
def block(ctx, v2, bottle, proj, stride):
  train = ctx.choice("train", TR)
  if not proj and stride != 1:
    return ctx.check("strided blocks need a projection", True)
  cin = 8 if not proj else 4
  cls = hk.nets.ResNet.BlockV2 if v2 else hk.nets.ResNet.BlockV1
  cfg = ctx.choice("bn_config", [{"decay_rate": .9}, {"decay_rate": .75, "eps": .5}] + ([] if v2 else [{}]))
  net = lambda x, *train: cls(channels=8, stride=stride, use_projection=proj, bn_config=cfg, bottleneck=bottle, name="blk")(x, *train)
  ref = lambda r, x: r.block("blk", x, v2, 8, stride, proj, bottle, cfg.get("decay_rate", .999), cfg.get("eps", 1e-5))
  ps, ss, out = compare(ctx, net, ref, (2, 5, 4, cin), train)
  sh, sw = np.broadcast_to(stride, 2).tolist()
  ctx.check("output shape", tuple(out.shape) == (2, -(-5 // sh), -(-4 // sw), 8))


@harness("C27", configs=product(v2=(False, True), n=(1, 2, 3)), bounds="groups of 1..3 blocks", validate=False)
def group(ctx, v2, n):
  train, bottle, proj = ctx.choice("train", TR), ctx.flag("bottle"), ctx.flag("proj")
  stride = ctx.choice("stride", [1, 2] if proj else [1])
  net = lambda x, *train: hk.nets.ResNet.BlockGroup(channels=8, num_blocks=n, stride=stride, bn_config={"decay_rate": .9}, resnet_v2=v2, bottleneck=bottle, use_projection=proj, name="g")(x, *train)
  def ref(r, x):
    for b in range(n):
      x = r.block(f"g/~/block_{b}", x, v2, 8, stride if b == 0 else 1, proj and b == 0, bottle, .9)
    return x
  compare(ctx, net, ref, (2, 4, 4, 8), train)


SPEC = {18: ((2, 2, 2, 2), False), 34: ((3, 4, 6, 3), False), 50: ((3, 4, 6, 3), True), 101: ((3, 4, 23, 3), True), 152: ((3, 8, 36, 3), True), 200: ((3, 24, 36, 3), True)}


def spec(n):
  blocks, bottle = SPEC[n]
  return blocks, ((256, 512, 1024, 2048) if bottle else (64, 128, 256, 512)), ((bottle,) + (True,) * 3), bottle


@harness("C27", configs=product(n=(18, 34, 50), v2=(False, True), train=TR) + product(n=(101, 152, 200), v2=(False, True), train=TR[:1]),
         bounds="the six predefined networks with their real channel counts, 32x32 images, batch 2; array-level encoding", budget=300, validate=False)
def resnet(ctx, n, v2, train):
  blocks, ch, proj, bottle = spec(n)
  cfg = ctx.choice("bn_config", [None, {"decay_rate": .5, "eps": .25}]) if n == 18 else None
  kw = {} if cfg is None else dict(bn_config=cfg)
  if v2:
    kw["resnet_v2"] = True
  cls = getattr(hk.nets, f"ResNet{n}")
  net = lambda x, *train: cls(3, name="net", **kw)(x, *train)
  c = cfg or {}
  ref = lambda r, x: r.resnet("net", x, v2, blocks, ch, proj, bottle, 3, c.get("decay_rate", .9), c.get("eps", 1e-5))
  ps, ss, out = compare(ctx, net, ref, (2, 32, 32, 3), train)
  ctx.check("one score per class", tuple(out.shape) == (2, 3))


@harness("C27", configs=product(v2=(False, True), bottle=(False, True)), bounds="custom block counts, channels, projections and logits configuration", validate=False, budget=120)
def custom_resnet(ctx, v2, bottle):
  blocks = ctx.choice("blocks", [(1, 2, 1, 1), (2, 1, 1, 2)])
  proj = ctx.choice("proj", [(True, True, True, True), (False, True, True, True)])
  ch = (64, 8, 16, 8)
  train = ctx.choice("train", TR[:2])
  lc = ctx.choice("logits", [None, "head"])
  kw = dict(logits_config={"name": "head", "w_init": jnp.ones}) if lc else {}
  net = lambda x, *train: hk.nets.ResNet(blocks, 5, resnet_v2=v2, bottleneck=bottle, channels_per_group=ch, use_projection=proj, name="net", **kw)(x, *train)
  ref = lambda r, x: r.resnet("net", x, v2, blocks, ch, proj, bottle, 5, .9, 1e-5, lc or "logits")
  compare(ctx, net, ref, (1, 20, 20, 3), train)


@harness("C27", bounds="initial values: logits zero, scale of the last normalisation of v1 bottlenecks zero, other scales one, offsets zero; wrong lengths rejected", validate=False)
def resnet_init(ctx):
  v2 = ctx.flag("v2")
  bottle = ctx.flag("bottle")
  net = lambda x: hk.nets.ResNet((1, 1, 1, 1), 3, resnet_v2=v2, bottleneck=bottle, channels_per_group=(8, 8, 8, 8), name="net")(x, True)
  f = hk.transform_with_state(net)
  x = ctx.opaque("x", jax.ShapeDtypeStruct((1, 8, 8, 1), np.float32))
  k = ctx.opaque("k", jax.ShapeDtypeStruct((2,), np.uint32))
  p, s = ctx.orun(lambda k, x: f.init(k, x), k, x)
  for m, d in p.items():
    for n, v in d.items():
      want = None
      if n == "scale":
        want = 0. if not v2 and bottle and m.endswith("batchnorm_2") else 1.
      elif n == "offset" or m.endswith("logits"):
        want = 0.
      if want is not None:
        ctx.oeq(f"initial {m}/{n}", v, ctx.orun(lambda x: jnp.full(v.shape, want, jnp.float32), x))
  for kw in (dict(blocks_per_group=(1, 1, 1)), dict(channels_per_group=(8,) * 5)):
    full = dict(blocks_per_group=(1, 1, 1, 1), num_classes=2, channels_per_group=(8,) * 4)
    full.update(kw)
    ctx.raises("wrong length rejected", lambda: init_shapes(hk.transform_with_state(lambda x: hk.nets.ResNet(**full)(x, True)), jax.ShapeDtypeStruct((1, 8, 8, 1), np.float32)), ValueError)


@harness("C27", configs=product(bn=(True, False), kind=("default", "custom")), bounds="MobileNetV1 as documented (13 blocks) and a 3-block custom one, with and without batch norm, 32..40 pixel images", budget=200, validate=False)
def mobilenet(ctx, bn, kind):
  train = ctx.choice("train", [True, False])
  if kind == "default":
    st, ch, cl = (1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1), (64, 128, 128, 256, 256, 512, 512, 512, 512, 512, 512, 1024, 1024), 1000
    kw = {}
  else:
    st, ch, cl = (2, 1, 2), (4, 8, 6), 7
    kw = dict(strides=st, channels=ch, num_classes=cl)
  if not bn:
    kw["use_bn"] = False
  net = lambda x, *train: hk.nets.MobileNetV1(name="net", **kw)(x, train[0])
  ps, ss, out = compare(ctx, net, lambda r, x: r.mobilenet("net", x, st, ch, cl, bn), (2, 40, 33, 3), (train, False))
  ctx.check("one score per class", tuple(out.shape) == (2, cl))
  ctx.raises("strides and channels of different length", lambda: init_shapes(hk.transform_with_state(lambda x: hk.nets.MobileNetV1(strides=(1,), channels=(4, 4))(x, True)), jax.ShapeDtypeStruct((1, 8, 8, 1), np.float32)), ValueError)


# ------------------------------------------------------ element-wise encoding
@harness("C27", configs=product(v2=(False, True), bottle=(False, True), proj=(False, True)), bounds="evaluation mode, batch 2 of 1x1 images with 4 channels: element-wise encoding of the whole block", budget=120)
def independent(ctx, v2, bottle, proj):
  cls = hk.nets.ResNet.BlockV2 if v2 else hk.nets.ResNet.BlockV1
  ch = 4 if bottle else 1
  mk = lambda t: hk.transform_with_state(lambda x: cls(channels=ch, stride=1, use_projection=proj, bn_config={"decay_rate": .5}, bottleneck=bottle, name="blk")(x, t, False))
  f = mk(False)
  sh = (2, 1, 1, ch)
  ps, ss = init_shapes(mk(True), jax.ShapeDtypeStruct(sh, np.float32))
  p = ctx.like("p", ps)
  s = {m: {k: ctx.real(f"{m}.{k}", v.shape, lo=0 if "var" in m else None) if v.dtype == np.float32 else np.ones((), np.int32) for k, v in d.items()} for m, d in ss.items()}
  x, y = ctx.real("x", sh), ctx.real("y", sh)
  app = lambda v: ctx.run(lambda p, s, v: f.apply(p, s, None, v)[0], p, s, v)
  mix = ctx.run(lambda x, y: jnp.stack([x[0], y[1]]), x, y)
  ctx.eq("first example ignores the second", app(mix)[0], app(x)[0])


@harness("C27", configs=product(bn=(True, False)), bounds="MobileNet block in evaluation mode, batch 2 of 2x1 images, 1-2 channels", budget=120)
def independent_mobile(ctx, bn):
  stride = ctx.choice("stride", [1, 2])
  if BLOCK is None:
    return ctx.check("block is private", True)
  mk = lambda t: hk.transform_with_state(lambda x: MOB(1, stride, bn)(x, t))
  f = mk(False)
  sh = (2, 2, 1, 1)
  ps, ss = init_shapes(mk(True), jax.ShapeDtypeStruct(sh, np.float32))
  p = ctx.like("p", ps)
  s = {m: {k: ctx.real(f"{m}.{k}", v.shape, lo=0 if "var" in m else None) if v.dtype == np.float32 else np.ones((), np.int32) for k, v in d.items()} for m, d in ss.items()}
  x, y = ctx.real("x", sh), ctx.real("y", sh)
  app = lambda v: ctx.run(lambda p, s, v: f.apply(p, s, None, v)[0], p, s, v)
  mix = ctx.run(lambda x, y: jnp.stack([x[0], y[1]]), x, y)
  ctx.eq("first example ignores the second", app(mix)[0], app(x)[0])


def MOB(ch, stride, bn):
  return BLOCK(ch, stride, bn, name="blk")


try:  # The block is not exported; `mobilenet` covers it through the public class.
  from haiku._src.nets.mobilenetv1 import MobileNetV1Block as BLOCK
except ImportError:
  BLOCK = None
