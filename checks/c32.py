"""C32: misuse is rejected with an error, correct use is not.

Each rule is a small program over symbolic arguments and a validity condition
taken from the documentation; the program must raise exactly when it does not hold.
"""
from checks.common import *
from vlib.core import plain

I = hk.initializers
f32 = jnp.float32
S = jax.ShapeDtypeStruct
RULES = {}


def rule(group, exc=Exception):
  def deco(f):
    RULES.setdefault(group, {})[f.__name__] = (f, exc)
    return f
  return deco


def build(f, *shapes, state=True, apply=False):
  """Abstractly runs f inside a transform on inputs of these shapes."""
  t = hk.transform_with_state(f)
  args = [s if isinstance(s, S) else S(tuple(s), f32) for s in shapes]
  def go(k, *a):
    p, s = t.init(k, *a)
    return t.apply(p, s, k, *a) if apply else (p, s)
  return jax.eval_shape(go, S((2,), np.uint32), *args)


def shape(ctx, rank, size=2):
  return (size,) * rank


# Every rule returns (valid, thunk).

# ------------------------------------------------------------- outside

KEY = np.array([0, 1], np.uint32)
same = lambda x: x


def same_fn(x):
  return x

INSIDE = {
    "get_parameter": lambda: hk.get_parameter("w", (), init=jnp.zeros),
    "get_state": lambda: hk.get_state("w", (), init=jnp.zeros),
    "set_state": lambda: hk.set_state("w", 1.),
    "next_rng_key": lambda: hk.next_rng_key(),
    "next_rng_keys": lambda: hk.next_rng_keys(2),
    "maybe_next_rng_key": lambda: hk.maybe_next_rng_key(),
    "reserve_rng_keys": lambda: hk.reserve_rng_keys(2),
    "running_init": lambda: hk.running_init(),
    "with_rng": lambda: hk.with_rng(KEY).__enter__(),
    "custom_creator": lambda: hk.experimental.custom_creator(lambda n, *a: n(*a)).__enter__(),
    "custom_getter": lambda: hk.experimental.custom_getter(lambda n, *a: n(*a)).__enter__(),
    "intercept_methods": lambda: hk.experimental.intercept_methods(lambda n, a, k, c: n(*a, **k)).__enter__(),
    "name_scope": lambda: hk.experimental.name_scope("a").__enter__(),
    "module": lambda: hk.Linear(1),
    "layerless module": lambda: hk.Sequential([same]),
    "lift": lambda: hk.experimental.lift(lambda k: {}, name="l"),
    "to_module": lambda: hk.to_module(same)("a"),
    "grad": lambda: hk.grad(same)(1.),
    "value_and_grad": lambda: hk.value_and_grad(same)(1.),
    "jit": lambda: hk.jit(same)(1.),
    "remat": lambda: hk.remat(same)(1.),
    "cond": lambda: hk.cond(True, same, same, 1.),
    "switch": lambda: hk.switch(0, [same, same], 1.),
    "scan": lambda: hk.scan(lambda c, x: (c, x), 0., np.zeros(2, np.float32)),
    "fori_loop": lambda: hk.fori_loop(0, 2, lambda i, x: x, 1.),
    "while_loop": lambda: hk.while_loop(lambda x: x < 0, same, 1.),
    "vmap": lambda: hk.vmap(same)(np.zeros(2, np.float32)),
    "eval_shape": lambda: hk.eval_shape(same, 1.),
    "random initializer": lambda: I.RandomNormal()((2,), f32),
    "optimize_rng_use": lambda: hk.experimental.optimize_rng_use(same)(1.),
}


@harness("C32", configs=[dict(part=i) for i in range(6)], bounds="all 30 functions and classes that need a transform, outside of any, within init and apply, and after a transform returned or raised (also an inner one)", validate=False)
def outside(ctx, part):
  names = sorted(INSIDE)[part::6]
  name = ctx.choice("use", names)
  use = INSIDE[name]
  when = ctx.choice("when", ["never", "init", "apply", "returned", "raised", "nested raised"])
  def boom(raising):
    def f():
      hk.Linear(1)
      if raising:
        raise KeyError("boom")
    return f
  if when in ("init", "apply"):
    def f():
      if when == "apply" and hk.running_init():
        return
      if name == "while_loop" and hk.running_init():
        return ctx.raises("loop needs parameters to exist", use)
      r = use()
      if hasattr(r, "__exit__"):
        r.__exit__(None, None, None)
    def inside():
      t = hk.transform_with_state(f)
      p, s = t.init(KEY)
      if when == "apply" and name in ("get_parameter",):
        return ctx.raises("unknown parameter in apply", lambda: t.apply(p, s, KEY))
      t.apply(p, s, KEY)
    try:
      inside()
    except Exception as e:  # pylint: disable=broad-except
      ctx.check(f"{name} works in {when}: {type(e).__name__}: {e}"[:250], internal(e))
    ctx.check("fine inside", True)
    return
  if when == "returned":
    hk.transform(boom(False)).init(KEY)
  elif when == "raised":
    ctx.raises("own error", lambda: hk.transform(boom(True)).init(KEY), KeyError)
  elif when == "nested raised":
    def outer():
      hk.Linear(1)
      try:
        hk.transform(boom(True)).init(KEY)
      except KeyError:
        pass
      hk.Bias()
    hk.transform(outer).init(KEY)
  ctx.raises(f"{name} outside of a transform", use)


def internal(e):
  """Signals of the exploration itself are passed on."""
  if type(e).__name__ in ("PathAbort", "Infeasible", "BudgetExceeded", "Unsupported", "ConcreteViolation"):
    raise e
  return False


# ------------------------------------------------------------- numbers


@rule("numbers", ValueError)
def dropout_rate(ctx):
  r = int(ctx.int("rate", -5, 9)) / 4 + ctx.choice("off", [-1e-7, 0., 1e-7])
  return 0 <= r < 1, lambda: hk.dropout(KEY, r, np.ones(2, np.float32))


@rule("numbers", ValueError)
def warmup(ctx):
  n, z, tree = ctx.int("n", -3, 3), ctx.flag("debias"), ctx.flag("tree")
  cls = hk.EMAParamsTree if tree else hk.ExponentialMovingAverage
  return n >= 0 and not (n != 0 and z), lambda: build(lambda x: (cls(.5, zero_debias=z, warmup_length=n), x)[1] if not tree else cls(.5, zero_debias=z, warmup_length=int(n))({"m": {"w": x}}), (2,))


@rule("numbers", ValueError)
def variance_scaling(ctx):
  s = ctx.int("scale", -3, 3)
  m = ctx.choice("mode", ["fan_in", "fan_out", "fan_avg", "fan_on", "", "FAN_IN"])
  d = ctx.choice("distribution", ["normal", "truncated_normal", "uniform", "UNIFORM", "gauss", "truncated normal"])
  return s >= 0 and m in ("fan_in", "fan_out", "fan_avg") and d.lower() in ("normal", "truncated_normal", "uniform"), lambda: I.VarianceScaling(s, m, d)


@rule("numbers", ValueError)
def reshape_dims(ctx):
  n = ctx.int("preserve_dims", -2, 3)
  out = ctx.choice("shape", [(4,), (-1,), (2, -1), (-1, -1), (-1, 2, -1)])
  flat = ctx.flag("flatten")
  if flat:
    return n > 0, lambda: build(lambda x: hk.Flatten(preserve_dims=n)(x), (1, 1, 1, 2, 2))
  return n > 0 and out.count(-1) <= 1, lambda: build(lambda x: hk.Reshape(out, preserve_dims=n)(x), (1, 1, 1, 2, 2))


@rule("numbers")
def reshape_size(ctx):
  a, b, c = ctx.int("a", 1, 4), ctx.int("b", 1, 4), ctx.int("c", 1, 4)
  auto = ctx.flag("auto")
  a, b, c = int(a), int(b), int(c)
  return (a * 4 % b == 0 if auto else b * c == a * 4), lambda: build(lambda x: hk.Reshape((b, -1 if auto else c))(x), (2, a, 4))


@rule("numbers", ValueError)
def spatial_dims(ctx):
  n = ctx.int("n", -2, 3)
  cls = ctx.choice("cls", [hk.ConvND, hk.ConvNDTranspose])
  return n > 0, lambda: build(lambda x: (cls(n, 1, 1), x)[1], (1,))


@rule("numbers")
def group_channels(ctx):
  c, g = ctx.int("channels", 1, 6), ctx.int("groups", 1, 6)
  what = ctx.choice("what", ["norm", "conv"])
  valid = c % g == 0
  c, g = int(c), int(g)
  if what == "norm":
    return valid, lambda: build(lambda x: hk.GroupNorm(g)(x), (1, 2, c))
  return valid, lambda: build(lambda x: hk.Conv1D(g * 2, 1, feature_group_count=g)(x), (1, 2, c))


@rule("numbers", ValueError)
def quantiser_decay(ctx):
  d = int(ctx.int("decay", -5, 9)) / 4 + ctx.choice("off", [-1e-7, 0., 1e-7])
  return 0 <= d <= 1, lambda: build(lambda x: (hk.nets.VectorQuantizerEMA(1, 1, 1., d), x)[1], (1, 1))


@rule("numbers", ValueError)
def expand_axis(ctx):
  a = ctx.int("axis", -3, 3)
  return a == 0 or a == -1, lambda: build(lambda x: hk.expand_apply(lambda y: y, axis=a)(x), (2, 2))


@rule("numbers", ValueError)
def bias_dims(ctx):
  r = ctx.choice("rank", [2, 3, 4])
  d = ctx.int("dim", -4, 4)
  # A negative index counts from the end; it has to exist and not be the minibatch.
  if bool(d < -r):   # out of range: left open
    return None, None
  return (d != 0) & (d != -r) & (d < r), lambda: build(lambda x: hk.Bias(bias_dims=[d])(x), shape(ctx, r))


@rule("numbers")
def blocks(ctx):
  m = int(ctx.int("m", 3, 5))
  what = ctx.choice("what", ["blocks", "channels"])
  kw = dict(blocks_per_group=(1,) * 4, channels_per_group=(4,) * 4, use_projection=(True,) * 4)
  k = {"blocks": "blocks_per_group", "channels": "channels_per_group"}[what]
  kw[k] = kw[k][:1] * m
  return m == 4, lambda: build(lambda x: (hk.nets.ResNet(num_classes=2, **kw), x)[1], (1,))


@rule("numbers")
def mobile_blocks(ctx):
  n, m = int(ctx.int("strides", 1, 3)), int(ctx.int("channels", 1, 3))
  return n == m, lambda: build(lambda x: (hk.nets.MobileNetV1((1,) * n, (4,) * m), x)[1], (1,))


# ------------------------------------------------------------- ranks


def rank(ctx, lo=0, hi=6):
  return int(ctx.int("rank", lo, hi))


@rule("ranks")
def linear(ctx):
  r = rank(ctx)
  return r >= 1, lambda: build(lambda x: hk.Linear(1)(x), shape(ctx, r))


@rule("ranks")
def conv(ctx):
  n = ctx.choice("n", [1, 2, 3])
  kind = ctx.choice("kind", ["Conv", "Transpose", "ND", "NDTranspose"])
  r = rank(ctx)
  mk = {"Conv": lambda: getattr(hk, f"Conv{n}D")(1, 1), "Transpose": lambda: getattr(hk, f"Conv{n}DTranspose")(1, 1), "ND": lambda: hk.ConvND(n, 1, 1), "NDTranspose": lambda: hk.ConvNDTranspose(n, 1, 1)}[kind]
  return r in (n + 1, n + 2), lambda: build(lambda x: mk()(x), shape(ctx, r))


@rule("ranks")
def cores(ctx):
  r = rank(ctx, 0, 4)
  cls = ctx.choice("cls", [hk.LSTM, hk.GRU])
  def f(x):
    c = cls(1)
    return c(x, c.initial_state(None if r < 2 else x.shape[0]))
  return r in (1, 2), lambda: build(f, shape(ctx, r))


@rule("ranks")
def spectral(ctx):
  r = rank(ctx, 0, 4)
  strict = ctx.flag("strict")
  return r == 2 or (r > 2 and not strict), lambda: build(lambda x: hk.SpectralNorm()(x, error_on_non_matrix=strict), shape(ctx, r))


@rule("ranks")
def bias(ctx):
  r = rank(ctx, 0, 4)
  return r >= 2, lambda: build(lambda x: hk.Bias()(x), shape(ctx, r))


@rule("ranks")
def matrices(ctx):
  r = rank(ctx, 0, 4)
  cls = ctx.choice("cls", [I.Orthogonal, I.Identity])
  return r >= 2, lambda: build(lambda x: hk.get_parameter("w", shape(ctx, r), init=cls()), (1,))


@rule("ranks")
def logits(ctx):
  r = rank(ctx, 0, 4)
  return r in (1, 2), lambda: jax.eval_shape(lambda k, x: hk.multinomial(k, x, 3), S((2,), np.uint32), S(shape(ctx, r), f32))


@rule("ranks")
def windows(ctx):
  r, n = rank(ctx, 2, 5), int(ctx.int("window", 1, 5))
  f = ctx.choice("pool", [hk.max_pool, hk.avg_pool])
  what = ctx.choice("what", ["window", "strides"])
  a, b = ((1,) * n, 1) if what == "window" else (1, (1,) * n)
  return n <= r, lambda: jax.eval_shape(lambda x: f(x, a, b, "SAME"), S(shape(ctx, r), f32))


@rule("ranks")
def group_rank(ctx):
  r, q = rank(ctx, 2, 4), int(ctx.int("again", 2, 4))
  def f(x, y):
    g = hk.GroupNorm(1)
    return g(x), g(y)
  return r == q, lambda: build(f, shape(ctx, r), shape(ctx, q))


@rule("ranks")
def batch_dims(ctx):
  args = ctx.choice("args", ["array", "scalar and array", "nothing", "scalars"])
  x = {"array": (jnp.ones((2, 2)),), "scalar and array": (1., jnp.ones((2, 2))), "nothing": (), "scalars": (1., 2)}[args]
  return "array" in args, lambda: build(lambda _: hk.BatchApply(lambda *a: jnp.zeros((4,)))(*x), (1,))


# ------------------------------------------------------------- shapes


def small(ctx, name):
  return ctx.choice(name, [(), (1,), (2,), (1, 2), (2, 1), (2, 2)])


@rule("shapes")
def stored_parameter(ctx):
  have, want = small(ctx, "have"), small(ctx, "want")
  t = hk.transform(lambda: hk.get_parameter("w", want, init=jnp.ones))
  inside = ctx.choice("how", ["plain", "scope", "jit"])
  m = "~"
  if inside == "scope":
    def f():
      with hk.experimental.name_scope("s"):
        return hk.get_parameter("w", want, init=jnp.ones)
    t, m = hk.transform(f), "s"
  elif inside == "jit":
    t = hk.transform(lambda: hk.jit(lambda: hk.get_parameter("w", want, init=jnp.ones))())
  return have == want, lambda: jax.eval_shape(lambda w: t.apply({m: {"w": w}}, None), S(have, f32))


@rule("shapes")
def without_init(ctx):
  given = ctx.flag("init")
  step = ctx.choice("step", ["init", "apply"])
  t = hk.transform(lambda: hk.get_parameter("w", (), f32, jnp.ones if given else None))
  return given, (lambda: t.init(None)) if step == "init" else lambda: t.apply({"~": {"w": np.ones((), np.float32)}}, None)


@rule("shapes")
def created_parameter(ctx):
  have, want = small(ctx, "have"), small(ctx, "want")
  how = ctx.choice("how", ["init", "creator", "getter"])
  def f(x):
    if how == "init":
      return hk.get_parameter("w", want, init=lambda s, d: jnp.ones(have, d))
    if how == "creator":
      with hk.experimental.custom_creator(lambda n, s, d, i, c: jnp.ones(have, d)):
        return hk.get_parameter("w", want, init=jnp.ones)
    with hk.experimental.custom_getter(lambda n, v, c: jnp.ones(have)):
      return hk.get_parameter("w", want, init=jnp.ones)
  return have == want, lambda: build(f, (1,), apply=True)


@rule("shapes")
def masks(ctx):
  have = ctx.choice("mask", [(2, 1, 2), (2, 2, 1), (1, 2, 1), (2, 1), (2, 2, 2), (1, 1, 1)])
  tr = ctx.flag("transpose")
  cls, want = (hk.Conv1DTranspose, (2, 2, 1)) if tr else (hk.Conv1D, (2, 1, 2))
  return have == want, lambda: build(lambda x: cls(2, 2, mask=np.ones(have, bool))(x), (1, 3, 1))


@rule("shapes")
def replicated(ctx):
  n = int(ctx.int("length", 0, 4))
  what = ctx.choice("what", ["kernel_shape", "stride", "rate", "transposed kernel", "transposed stride", "output_shape"])
  kw = dict(kernel_shape=1)
  kw[{"transposed kernel": "kernel_shape", "transposed stride": "stride"}.get(what, what)] = (1,) * n if what != "output_shape" else (2,) * n
  cls = hk.Conv2D if what in ("kernel_shape", "stride", "rate") else hk.Conv2DTranspose
  return n in (1, 2), lambda: build(lambda x: cls(1, **kw)(x), (1, 2, 2, 1))


@rule("shapes")
def pads(ctx):
  n = int(ctx.int("length", 0, 4))
  what = ctx.choice("what", ["pairs", "functions"])
  pad = ((0, 0),) * n if what == "pairs" else (hk.pad.same,) * n
  return n in (1, 2), lambda: build(lambda x: hk.Conv2D(1, 1, padding=pad)(x), (1, 2, 2, 1))


@rule("shapes")
def embeddings(ctx):
  v, d = ctx.choice("vocab", [None, 2, 3]), ctx.choice("dim", [None, 2, 3])
  given = ctx.flag("matrix")
  valid = (v in (None, 2) and d in (None, 3)) if given else (v is not None and d is not None)
  return valid, lambda: build(lambda x: hk.Embed(v, d, embedding_matrix=np.ones((2, 3), np.float32) if given else None)(jnp.zeros((1,), jnp.int32)), (1,))


SEQ = {
    "bias": lambda L: (lambda x: hk.Bias(output_size=L([3]), bias_dims=L([1]))(x), (2, 3)),
    "convolution": lambda L: (lambda x: hk.Conv2D(1, L([2, 2]), stride=L([1, 1]), rate=L([1, 1]), padding=L([L([0, 0]), L([1, 1])]))(x), (1, 3, 3, 1)),
    "padding functions": lambda L: (lambda x: hk.Conv2D(1, 2, padding=L([hk.pad.same, hk.pad.valid]))(x), (1, 3, 3, 1)),
    "transposed": lambda L: (lambda x: hk.Conv2DTranspose(1, L([2, 2]), stride=L([1, 1]), output_shape=L([3, 3]))(x), (1, 3, 3, 1)),
    "transposed padding": lambda L: (lambda x: hk.Conv2DTranspose(1, 2, padding=L([L([0, 0]), L([1, 1])]))(x), (1, 3, 3, 1)),
    "separable": lambda L: (lambda x: hk.SeparableDepthwiseConv2D(1, L([2, 2]), stride=L([1, 1]))(x), (1, 3, 3, 1)),
    "depthwise": lambda L: (lambda x: hk.DepthwiseConv2D(1, L([2, 2]), stride=L([1, 1]))(x), (1, 3, 3, 1)),
    "reshape": lambda L: (lambda x: hk.Reshape(L([3, -1]))(x), (2, 3)),
    "reshape whole": lambda L: (lambda x: hk.Reshape(L([3, 1]))(x), (2, 3)),
    "layer norm": lambda L: (lambda x: hk.LayerNorm(L([1, 2]), True, True)(x), (2, 3, 4)),
    "batch norm": lambda L: (lambda x: hk.BatchNorm(True, True, .9, axis=L([0, 1]))(x, True), (2, 3, 4)),
    "group norm": lambda L: (lambda x: hk.GroupNorm(2, axis=L([1, 2]))(x), (2, 3, 4)),
    "max pool": lambda L: (lambda x: hk.max_pool(x, L([2, 1]), L([1, 1]), "SAME"), (2, 3, 4)),
    "avg pool": lambda L: (lambda x: hk.AvgPool(L([2, 1]), L([1, 1]), "SAME")(x), (2, 3, 4)),
    "parameter": lambda L: (lambda x: hk.get_parameter("w", L([2, 3]), init=jnp.ones), (1,)),
    "state": lambda L: (lambda x: hk.get_state("w", L([2, 3]), init=jnp.ones), (1,)),
    "conv lstm": lambda L: (lambda x: (lambda c: c(x, c.initial_state(1)))(hk.Conv2DLSTM(input_shape=L([3, 3]), output_channels=1, kernel_shape=L([2, 2]))), (1, 3, 3, 1)),
    "resnet": lambda L: (lambda x: hk.nets.ResNet(L([1] * 4), 2, channels_per_group=L([4] * 4), use_projection=L([True] * 4))(x, True), (1, 8, 8, 1)),
    "mobilenet": lambda L: (lambda x: hk.nets.MobileNetV1(L([1]), L([4]), num_classes=2)(x, True), (1, 8, 8, 1)),
    "perceptron": lambda L: (lambda x: hk.nets.MLP(L([1, 2]))(x), (1, 1)),
    "sequential": lambda L: (lambda x: hk.Sequential(L([jnp.sin, jnp.cos]))(x), (1, 1)),
    "deep": lambda L: (lambda x: (lambda c: c(x, c.initial_state(1)))(hk.DeepRNN(L([hk.GRU(1)]))), (1, 1)),
    "skip": lambda L: (lambda x: (lambda c: c(x, c.initial_state(1)))(hk.deep_rnn_with_skip_connections(L([hk.GRU(1)]))), (1, 1)),
    "switch": lambda L: (lambda x: hk.switch(0, L([jnp.sin, jnp.cos]), x), (1, 1)),
    "embed ids": lambda L: (lambda x: hk.Embed(3, 2)(L([1, 2])), (1,)),
    **{"initializer " + type(i).__name__: lambda L, i=i: (lambda x: (hk.get_parameter("w", L([2, 3]), init=i), i(L([2, 3]), f32)), (1,))
       for i in (I.Constant(1.), I.Orthogonal(), I.Identity(), I.RandomNormal(), I.RandomUniform(), I.TruncatedNormal(), I.VarianceScaling(), I.UniformScaling())},
}


@rule("sequences")
def any_sequence(ctx):
  """Arguments documented as sequences may be tuples or lists."""
  n = ctx.choice("use", sorted(SEQ))
  f, sh = SEQ[n](ctx.choice("type", [list, tuple]))
  return True, lambda: build(f, sh, apply=True)


@rule("shapes")
def bias_size(ctx):
  have = ctx.choice("size", [(2,), (3,), (2, 3), (3, 2), ()])
  return have == (2, 3), lambda: build(lambda x: hk.Bias(output_size=have)(x), (4, 2, 3))


@rule("shapes")
def transposed_output(ctx):
  n, o, k, s = int(ctx.int("n", 1, 4)), int(ctx.int("out", 1, 9)), int(ctx.int("kernel", 1, 3)), int(ctx.int("stride", 1, 3))
  pad = ctx.choice("padding", ["SAME", "VALID", "FULL", "pairs"])
  # A convolution from `out` back to `n` must exist.
  valid = pad == "SAME" and n == -(-o // s) or pad == "VALID" and o >= k and n == (o - k) // s + 1
  return valid, lambda: build(lambda x: hk.Conv1DTranspose(1, k, stride=s, output_shape=o, padding=((0, 0),) if pad == "pairs" else pad)(x), (1, n, 1))


@rule("shapes")
def resets(ctx):
  have = ctx.choice("reset", [(), (1,), (2,), (3,), (2, 1), (2, 2), (1, 2)])
  batched = ctx.flag("batched")
  def f(x):
    c = hk.ResetCore(hk.VanillaRNN(2))
    return c((x, jnp.zeros(have, bool)), c.initial_state(3 if batched else None))
  valid = have == () or have == ((3,) if batched else (2,))
  return valid, lambda: build(f, (3, 2) if batched else (2,))


@rule("shapes")
def parameter_structure(ctx):
  kind = ctx.choice("params", ["right", "none", "missing module", "missing name", "other module", "list", "array", "function"])
  t = hk.transform(lambda x: hk.Linear(1)(x))
  p = dict(w=np.ones((2, 1), np.float32), b=np.ones(1, np.float32))
  ps = {"right": {"linear": p}, "none": None, "missing module": {}, "missing name": {"linear": {"w": p["w"]}}, "other module": {"linear_1": p}, "list": [p], "array": p["w"], "function": len}[kind]
  return kind == "right", lambda: jax.eval_shape(lambda x: t.apply(ps, None, x), S((1, 2), f32))


# ------------------------------------------------------------- options


NORMS = {"batch": lambda **k: hk.BatchNorm(decay_rate=.5, **k), "layer": lambda **k: hk.LayerNorm(axis=-1, **k), "instance": lambda **k: hk.InstanceNorm(**k), "group": lambda **k: hk.GroupNorm(1, **k)}


@rule("options")
def norm_options(ctx):
  n = ctx.choice("norm", sorted(NORMS))
  cs, co = ctx.flag("create_scale"), ctx.flag("create_offset")
  given = ctx.choice("given", ["nothing", "scale_init", "offset_init", "scale", "offset", "both", "both_init"])
  ik = {k: jnp.ones for k in ("scale_init", "offset_init") if given == k or given == "both_init"}
  ck = {k: jnp.ones(2) for k in ("scale", "offset") if given == k or given == "both"}
  valid = all([cs or "scale_init" not in ik, co or "offset_init" not in ik, not (cs and "scale" in ck), not (co and "offset" in ck)])
  call = lambda m, x: m(x, True, **ck) if n == "batch" else m(x, **ck)
  return valid, lambda: build(lambda x: call(NORMS[n](create_scale=cs, create_offset=co, **ik), x), (2, 2, 2))


@rule("options")
def norm_axes(ctx):
  n = ctx.choice("norm", ["layer", "group"])
  ax = ctx.choice("axis", [1, -1, (1, 2), [1, 2], slice(1, None), 1.5, "1", (1, "2"), None])
  valid = not isinstance(ax, (float, str, type(None))) and ax != (1, "2")
  mk = (lambda: hk.LayerNorm(ax, False, False)) if n == "layer" else (lambda: hk.GroupNorm(1, axis=ax))
  return valid, lambda: build(lambda x: (mk(), x)[1], (2, 2, 2))


@rule("options")
def replicas(ctx):
  a = ctx.choice("axis", [None, "i"])
  g = ctx.choice("groups", [None, [[0, 1]]])
  return not (a is None and g is not None), lambda: build(lambda x: (hk.BatchNorm(True, True, .5, cross_replica_axis=a, cross_replica_axis_index_groups=g), x)[1], (1,))


@rule("options")
def mlp(ctx):
  b, i = ctx.flag("bias"), ctx.flag("b_init")
  return b or not i, lambda: build(lambda x: hk.nets.MLP([2], with_bias=b, b_init=jnp.ones if i else None)(x), (1, 2))


@rule("options")
def mlp_dropout(ctx):
  r, k = ctx.choice("rate", [None, 0., .5]), ctx.flag("key")
  return (r is None) != k, lambda: build(lambda x: hk.nets.MLP([2])(x, dropout_rate=r, rng=hk.next_rng_key() if k else None), (1, 2))


@rule("options")
def pool_padding(ctx):
  p = ctx.choice("padding", ["SAME", "VALID", "same", "FULL", None, ((0, 0),)])
  f = ctx.choice("pool", [hk.max_pool, hk.avg_pool, lambda *a: hk.MaxPool(*a[1:])(a[0]), lambda *a: hk.AvgPool(*a[1:])(a[0])])
  return p in ("SAME", "VALID"), lambda: build(lambda x: f(x, 2, 1, p), (1, 2, 2, 1))


@rule("options")
def pool_channel(ctx):
  c = int(ctx.int("axis", -6, 6))
  f = ctx.choice("pool", [hk.max_pool, hk.avg_pool])
  # Negative axes up to -rank exist; naming the batch axis -rank is left open.
  if c == -4:
    return None, None
  return -4 < c < 4, lambda: jax.eval_shape(lambda x: f(x, 2, 1, "SAME", c), S((2, 2, 2, 2), f32))


@rule("options")
def formats(ctx):
  d = ctx.choice("format", ["channels_last", "channels_first", "NHWC", "NCHW", "NWC", "BTHWD", "NC", "N...C", "CHWN", "HWC", "", "nhwc", "last"])
  cls = ctx.choice("cls", [lambda d: hk.BatchNorm(True, True, .5, data_format=d), lambda d: hk.InstanceNorm(True, True, data_format=d), lambda d: hk.GroupNorm(1, data_format=d), lambda d: hk.ConvND(2, 1, 1, data_format=d)])
  return d in ("channels_last", "channels_first", "NHWC", "NCHW", "NWC", "BTHWD", "NC", "N...C"), lambda: build(lambda x: (cls(d), x)[1], (1,))


@rule("options")
def lookups(ctx):
  s = ctx.choice("style", ["ARRAY_INDEX", "ONE_HOT", "array_index", "OTHER", "ONE-HOT", hk.EmbedLookupStyle.ONE_HOT])
  where = ctx.choice("where", ["class", "call"])
  mk = lambda: (hk.Embed(2, 1, lookup_style=s) if where == "class" else hk.Embed(2, 1))
  ck = {} if where == "class" else dict(lookup_style=s)
  return isinstance(s, hk.EmbedLookupStyle) or s.upper() in ("ARRAY_INDEX", "ONE_HOT"), lambda: build(lambda x: mk()(x, **ck), S((2,), jnp.int32))


@rule("options")
def ids(ctx):
  dt = ctx.choice("ids", [jnp.int32, jnp.uint32, jnp.uint8, jnp.float32, jnp.bool_, jnp.bfloat16])
  return jnp.issubdtype(dt, jnp.integer), lambda: build(lambda x: hk.Embed(2, 1)(x), S((2,), dt))


@rule("options")
def skips(ctx):
  n = ctx.choice("layers", ["cores", "with function", "with module"])
  layers = lambda: [hk.VanillaRNN(1)] + {"cores": [hk.IdentityCore()], "with function": [jnp.tanh], "with module": [hk.Linear(1)]}[n]
  how = ctx.choice("how", ["skip", "plain"])
  return how == "plain" or n == "cores", lambda: build(lambda x: (hk.DeepRNN(layers()) if how == "plain" else hk.deep_rnn_with_skip_connections(layers()), x)[1], (1,))


@rule("options")
def summaries(ctx):
  c = ctx.choice("columns", [None, ("module", "owned_params"), (), ("modules",), ("module", "x")])
  fl = ctx.choice("filters", [None, ("has_output",), (), ("has_outputs",), ("has_params", "x")])
  valid = c not in (("modules",), ("module", "x")) and fl not in (("has_outputs",), ("has_params", "x"))
  return valid, lambda: hk.experimental.tabulate(lambda x: hk.Linear(1)(x), columns=c, filters=fl)(np.ones((1, 1), np.float32))


# ------------------------------------------------------------- names and transforms


@rule("transforms")
def module_names(ctx):
  n = ctx.choice("name", ["a", "a_b", "a1", "~", "a/b", "~/a", "a/~/b", "_a", "", "1a", "a b", "a//b", "/a", "a/", "a-b", "a.b", None])
  valid = n in ("a", "a_b", "a1", "_a", None)
  return valid, lambda: build(lambda x: hk.Linear(1, name=n)(x), (1, 1))


@rule("transforms")
def scope_names(ctx):
  n = ctx.choice("name", ["a", "a/b", "", "/a", "/"])
  def f(x):
    with hk.experimental.name_scope(n):
      return hk.get_parameter("w", (), init=jnp.ones)
  return n in ("a", "a/b"), lambda: build(f, (1,))


@rule("transforms")
def scope_reuse(ctx):
  how = ctx.choice("how", ["once", "again", "nested", "other"])
  def f(x):
    s = hk.experimental.name_scope("a")
    if how == "nested":
      with s, s:
        return x
    with s:
      y = x
    if how == "again":
      with s:
        return y
    if how == "other":
      with hk.experimental.name_scope("a"):
        return y
  return how in ("once", "other"), lambda: build(f, (1,))


@rule("transforms")
def super_constructor(ctx):
  early = ctx.flag("early")   # uses the module before calling super().__init__
  what = ctx.choice("what", ["module", "parameter", "nothing"])
  class M(hk.Module):
    def __init__(self):
      if not early:
        super().__init__(name="m")
      if what == "module":
        self.l = hk.Linear(1)
      elif what == "parameter":
        self.w = hk.get_parameter("w", (), init=jnp.ones)
      if early and what != "nothing":
        super().__init__(name="m")
  return not early, lambda: build(lambda x: (M(), x)[1], (1,))


@rule("transforms")
def apply_creates(ctx):
  how = ctx.choice("how", ["parameter", "module", "state", "state without init", "loop", "recursive"])
  def f(x):
    if hk.running_init():
      return x
    if how == "parameter":
      return hk.get_parameter("w", (), init=jnp.ones)
    if how == "module":
      return hk.Linear(1)(x)
    if how == "state":
      return hk.get_state("s", (), init=jnp.ones)
    if how == "state without init":
      return hk.get_state("s")
    if how == "loop":
      return hk.fori_loop(0, 2, lambda i, x: x + hk.get_parameter("w", (), init=jnp.ones), x)
    return hk.transform(lambda: hk.get_parameter("w", (), init=jnp.ones)).apply({}, None)
  return how == "state", lambda: build(f, (2, 2), apply=True)


@rule("transforms")
def state_arguments(ctx):
  have = ctx.choice("given", ["all", "no init", "no shape", "no dtype", "stored"])
  def f(x):
    if have == "stored":
      hk.set_state("s", x)
      return hk.get_state("s")
    if have == "no init":
      return hk.get_state("s", (), f32)
    if have == "no shape":
      return hk.get_state("s", None, f32, init=jnp.ones)
    if have == "no dtype":
      return hk.get_state("s", (), None, init=jnp.ones)
    return hk.get_state("s", (), f32, init=jnp.ones)
  return have in ("all", "stored"), lambda: build(f, (2,))


@rule("transforms")
def stateless(ctx):
  uses = ctx.choice("uses", ["nothing", "set", "get", "inherited"])
  wrap = ctx.choice("wrap", ["transform", "without_state"])
  def f(x):
    if uses == "set":
      hk.set_state("s", x)
    elif uses == "get":
      hk.get_state("s", (), init=jnp.ones)
    elif uses == "inherited":
      hk.ExponentialMovingAverage(.5)(x)
    return x
  t = hk.transform(f) if wrap == "transform" else hk.without_state(hk.transform_with_state(f))
  step = ctx.choice("step", ["init", "apply"])
  run = (lambda: jax.eval_shape(lambda x: t.init(KEY, x), S((2,), f32))) if step == "init" else (lambda: jax.eval_shape(lambda x: t.apply({}, KEY, x), S((2,), f32)))
  return uses == "nothing", run


@rule("transforms")
def keys(ctx):
  k = ctx.choice("rng", ["key", "seed", "none", "string", "long", "float key", "matrix", "list"])
  v = {"key": KEY, "seed": 3, "none": None, "string": "key", "long": np.zeros(3, np.uint32), "float key": np.zeros(2, np.float32), "matrix": np.zeros((2, 2), np.uint32), "list": [1, 2]}[k]
  used = ctx.flag("used")
  step = ctx.choice("step", ["init", "apply"])
  t = hk.transform(lambda: hk.next_rng_key() if used else None)
  return k in ("key", "seed") or (k == "none" and not used), (lambda: t.init(v)) if step == "init" else (lambda: t.apply({}, v))


@rule("transforms")
def scoped_keys(ctx):
  k = ctx.choice("rng", ["key", "string", "long", "float key"])
  v = {"key": KEY, "string": "key", "long": np.zeros(3, np.uint32), "float key": np.zeros(2, np.float32)}[k]
  def f(x):
    with hk.with_rng(v):
      return hk.next_rng_key()
  return k == "key", lambda: build(f, (1,))


@rule("transforms")
def wrappers(ctx):
  w = ctx.choice("wrap", ["without_apply_rng", "without_state", "apply_rng"])
  t = ctx.choice("what", ["transform", "with state", "pair", "function"])
  v = {"transform": lambda: hk.transform(same), "with state": lambda: hk.transform_with_state(same), "pair": lambda: (same, same), "function": lambda: same}[t]
  if w == "apply_rng":
    on = ctx.flag("on")
    return on, lambda: hk.transform(same, apply_rng=on)
  if w == "without_state":
    return None if t == "transform" else t == "with state", lambda: hk.without_state(v()).init(KEY, 1.)
  return t in ("transform", "with state"), lambda: hk.without_apply_rng(v()).init(KEY, 1.)


@rule("transforms")
def to_module(ctx):
  a = ctx.choice("first", ["name", "nothing", "none", "array", "keyword"])
  M = hk.to_module(same_fn)
  mk = {"name": lambda: M("a"), "nothing": lambda: M(), "none": lambda: M(None), "array": lambda: M(jnp.ones(2)), "keyword": lambda: M(name="a")}[a]
  return a != "array", lambda: build(lambda x: mk()(x), (2,))


@rule("transforms")
def loop_condition(ctx):
  what = ctx.choice("condition", ["pure", "sets state", "takes key"])
  def cond(v):
    if what == "sets state":
      hk.set_state("s", v)
    elif what == "takes key":
      hk.next_rng_key()
    return v.sum() < 0
  def f(x):
    hk.get_state("s", x.shape, init=jnp.zeros)
    return x if hk.running_init() else hk.while_loop(cond, lambda v: v + 1, x)
  return what == "pure", lambda: build(f, (2,), apply=True)


@harness("C32", configs=[dict(group=g, rule=r) for g in RULES for r in RULES[g]], bounds="one rule per documented restriction (numbers, ranks 0-6, shapes, conflicting options, option values, names, use of transforms), all argument values in small ranges; raises exactly when the restriction is violated", budget=120, validate=False)
def rules(ctx, group, rule):
  f, exc = RULES[group][rule]
  valid, thunk = f(ctx)
  if thunk is None:
    return ctx.check("left open", True)
  if valid is None:
    return ctx.check("left open", True)
  if bool(valid):
    try:
      thunk()
    except Exception as e:  # pylint: disable=broad-except
      return internal(e) or ctx.check(f"{rule}: correct use works, not {type(e).__name__}: {e}"[:250], False)
    ctx.check("correct use works", True)
  else:
    ctx.raises(f"{rule}: misuse is rejected", thunk, exc)
