"""C31: an omitted argument means its documented default, and arguments keep their place.

For every public layer and helper the table below states, from the
documentation, which arguments exist, in which order, and what leaving one out
stands for.  The same program with and without the argument, and with arguments
given by position and by name, must create the same parameters and states and
compute the same outputs for every input, key, parameter and state.
"""
from checks.common import *
from vlib.core import plain

I = hk.initializers
C = I.Constant
ini = lambda s, d: (jnp.arange(int(np.prod(s))).reshape(s) % 5 - 2).astype(d) / 4
tn = lambda fan: I.TruncatedNormal(1. / np.sqrt(fan))
zeros, ones = jnp.zeros, jnp.ones
V = {}


class Case:
  """body(inputs, args, kwargs): the program.  spec: name -> (value,) if required, (default, other) if not."""

  def __init__(self, body, ins, spec, kwonly=(), keep=()):
    self.body, self.ins, self.spec, self.kwonly, self.keep = body, ins, spec, kwonly, keep


def add(fam, label, body, ins, /, kwonly=(), keep=(), **spec):
  V.setdefault(fam, {})[label] = Case(body, ins, {k: v if isinstance(v, tuple) else (v,) for k, v in spec.items()}, kwonly, keep)


def mod(cls, *call, **ckw):
  return lambda xs, a, k: cls(*a, **k)(*xs, *call, **ckw)


def call(mk, *before):
  """Arguments of the call instead of the constructor."""
  return lambda xs, a, k: mk()(*xs, *before, *a, **k)


def fn(f):
  return lambda xs, a, k: f(*xs, *a, **k)


# Convolutions: one, two and three dimensions, and the general ones.
FMT = {1: ("NWC", "NCW"), 2: ("NHWC", "NCHW"), 3: ("NDHWC", "NCDHW")}
for n in (1, 2, 3):
  sh = (1,) + (3, 2, 2)[:n] + (2,)
  kern = (2, 1, 1)[:n]
  conv = dict(output_channels=2, kernel_shape=(kern,), stride=(1, 2), rate=(1, 1), padding=("SAME", "VALID"), with_bias=(True, False), w_init=(tn(4.), ini), b_init=(zeros, ini))
  add("conv", f"conv{n}", mod(getattr(hk, f"Conv{n}D")), [sh], **conv, data_format=FMT[n], mask=(None, np.ones(kern + (3, 2), bool)), feature_group_count=(1, 1), name=(f"conv{n}_d", "other"), )
  add("conv", f"conv_nd{n}", mod(hk.ConvND), [sh], num_spatial_dims=n, **conv, data_format=("channels_last", "channels_first"), mask=(None, None), feature_group_count=(1, 1), name=("conv_nd", "other"))
  add("conv", f"dilated{n}", mod(getattr(hk, f"Conv{n}D")), [sh], output_channels=4, kernel_shape=(kern,), stride=(1, 1), rate=(1, 2), padding=("SAME", hk.pad.full), with_bias=(True, False), w_init=(tn(4.), ini), b_init=(zeros, None), data_format=(FMT[n][0],) * 2, mask=(None, None), feature_group_count=(1, 2))
  conv = dict(output_channels=2, kernel_shape=(kern,), stride=(1, 2), output_shape=(None, tuple(2 * v for v in sh[1:-1])), padding=("SAME", "VALID"), with_bias=(True, False), w_init=(tn(4.), ini), b_init=(zeros, ini))
  add("conv_transpose", f"conv{n}", mod(getattr(hk, f"Conv{n}DTranspose")), [sh], **conv, data_format=FMT[n][:1] * 2, mask=(None, np.ones(kern + (2, 2), bool)), name=(f"conv{n}_d_transpose", "other"))
  add("conv_transpose", f"conv_nd{n}", mod(hk.ConvNDTranspose), [sh], num_spatial_dims=n, **conv, data_format=("channels_last", "channels_last"), mask=(None, np.ones(kern + (2, 2), bool)), name=("conv_nd_transpose", "other"))
for n in (1, 2, 3):
  kern = (2, 1, 3)[:n]
  fan = int(np.prod(kern))
  add("conv", f"grouped{n}", lambda xs, a, k, n=n: getattr(hk, f"Conv{n}D")(*a, feature_group_count=2, **k)(*xs), [(3, 2, 3)[:n] + (4,)], output_channels=2, kernel_shape=(kern,), stride=(1, 2), rate=(1, 1), padding=("VALID", "SAME"), with_bias=(True, False), w_init=(tn(2. * fan), ini), b_init=(zeros, ini), keep=("padding",))
  add("conv", f"first{n}", lambda xs, a, k, n=n: hk.ConvND(n, *a, data_format="channels_first", **k)(*xs), [(3,) + (3, 2, 3)[:n]], output_channels=2, kernel_shape=(kern,), stride=(1, 2), rate=(1, 1), padding=("SAME", "VALID"), with_bias=(True, False), w_init=(tn(3. * fan), ini), b_init=(zeros, ini))
  add("conv_transpose", f"first{n}", lambda xs, a, k, n=n: hk.ConvNDTranspose(n, *a, data_format="channels_first", **k)(*xs), [(3,) + (2, 1, 2)[:n]], output_channels=2, kernel_shape=(kern,), stride=(1, 2), output_shape=(None, None), padding=("SAME", "VALID"), with_bias=(True, False), w_init=(tn(3. * fan), ini), b_init=(zeros, ini))
dw = lambda fan: dict(channel_multiplier=2, kernel_shape=((2, 1),), stride=(1, 2), padding=("SAME", "VALID"), with_bias=(True, False), w_init=(tn(fan), ini), b_init=(zeros, ini), data_format=("NHWC", "NCHW"))
add("depthwise", "depthwise", mod(hk.DepthwiseConv2D), [(1, 3, 2, 2)], **dw(2.), name=("depthwise_conv2_d", "other"))
add("depthwise", "separable", mod(hk.SeparableDepthwiseConv2D), [(1, 3, 2, 1)], **{**dw(2.), "kernel_shape": ((2, 2),)}, name=("separable_depthwise_conv2_d", "other"))
add("depthwise", "depthwise_first", lambda xs, a, k: hk.DepthwiseConv2D(*a, data_format="NCHW", **k)(*xs), [(1, 3, 2, 2)], **{k: v for k, v in dw(2.).items() if k != "data_format"})

# Linear layers.
add("linear", "linear", mod(hk.Linear), [(2, 2)], output_size=3, with_bias=(True, False), w_init=(tn(2.), ini), b_init=(zeros, ini), name=("linear", "other"))
add("linear", "linear_wide", mod(hk.Linear), [(1, 3)], output_size=2, with_bias=(True, True), w_init=(tn(3.), ini), b_init=(zeros, ini))
for shape in ((3,), (2, 1, 3), (1, 1, 2, 3)):
  add("linear", f"linear_rank{len(shape)}", mod(hk.Linear), [shape], output_size=2, with_bias=(True, False), w_init=(tn(3.), ini), b_init=(zeros, ini))
add("linear", "bias", mod(hk.Bias), [(2, 3)], output_size=(None, (3,)), bias_dims=(None, (-1,)), b_init=(zeros, ini), name=("bias", "other"))
add("linear", "bias_full", mod(hk.Bias), [(2, 1, 2)], bias_dims=(None, (1, 2)), b_init=(zeros, ini), kwonly=("bias_dims", "b_init"))
add("linear", "bias_call", call(lambda: hk.Bias(b_init=ini)), [(2, 2)], multiplier=(None, 3.))
add("linear", "bias_one", call(lambda: hk.Bias(b_init=ini)), [(2, 2)], multiplier=(1., -2.))
add("linear", "mlp", mod(hk.nets.MLP), [(1, 2)], output_sizes=((2, 1),), w_init=(tn(2.), ini), b_init=(zeros, None), with_bias=(True, False), activation=(jax.nn.relu, jnp.tanh), activate_final=(False, True), name=("mlp", "other"))
add("linear", "mlp_call", call(lambda: hk.nets.MLP([2, 1])), [(1, 2)], dropout_rate=(None, None), rng=(None, None))
add("linear", "mlp_reverse", lambda xs, a, k: (lambda m: (m(xs[0]), m.reverse(*a, **k)(m(xs[0]))))(hk.nets.MLP([2, 1], w_init=ini)), [(1, 2)], activate_final=(False, True), name=("mlp_reversed", "other"))
add("linear", "mlp_reverse_active", lambda xs, a, k: (lambda m: (m(xs[0]), m.reverse(*a, **k)(m(xs[0]))))(hk.nets.MLP([2, 1], w_init=ini, activate_final=True)), [(1, 2)], activate_final=(True, False))
add("linear", "sequential", lambda xs, a, k: hk.Sequential([hk.Linear(1), jnp.tanh], *a, **k)(*xs), [(1, 2)], name=("sequential", "other"))
add("linear", "embed", mod(hk.Embed), [("int", (2,), 0, 2)], vocab_size=(3, 3), embed_dim=(2, 2), embedding_matrix=(None, None), w_init=(I.TruncatedNormal(), ini), lookup_style=("ARRAY_INDEX", "ONE_HOT"), name=("embed", "other"), keep=("vocab_size", "embed_dim"))
add("linear", "embed_style", call(lambda: hk.Embed(3, 2, lookup_style=hk.EmbedLookupStyle.ONE_HOT)), [("int", (2,), 0, 2)], lookup_style=("ONE_HOT", "ARRAY_INDEX"))
add("linear", "embed_none", call(lambda: hk.Embed(3, 2)), [("int", (2,), 0, 2)], lookup_style=(None, "ONE_HOT"))

# Shapes and windows.
add("shape", "reshape", mod(hk.Reshape), [(2, 3, 2)], output_shape=((-1, 3),), preserve_dims=(1, 2), name=("reshape", "other"), keep=())
V["shape"]["reshape"].spec["preserve_dims"] = (1, 1)
add("shape", "flatten", mod(hk.Flatten), [(2, 2, 3)], preserve_dims=(1, 2), name=("flatten", "other"))
add("shape", "batch_apply", lambda xs, a, k: hk.BatchApply(lambda x: jnp.cumsum(x, 0) * x.ndim, *a, **k)(*xs), [(2, 3, 2)], num_dims=(2, 1))
add("shape", "batch_apply_linear", lambda xs, a, k: hk.BatchApply(hk.Flatten(), *a, **k)(*xs), [(2, 2, 1, 2)], num_dims=(2, 3))
add("shape", "expand_apply", lambda xs, a, k: hk.expand_apply(lambda x: jnp.cumsum(x, axis=1), *a, **k)(*xs), [(2, 2)], axis=(0, -1))
for p in ("max", "avg"):
  cls, f = getattr(hk, p.capitalize() + "Pool" if p != "max" else "MaxPool"), getattr(hk, p + "_pool")
  for n, b in (("module", mod(cls)), ("function", fn(f))):
    extra = dict(name=(p + "_pool", "other")) if n == "module" else {}
    add("shape", f"{p}_pool_{n}", b, [(1, 3, 2, 2)], window_shape=2, strides=1, padding="SAME", channel_axis=(-1, 1), **extra)

# Normalisation.
batch = lambda train: lambda xs, a, k: hk.BatchNorm(*a, **k)(*xs, train or hk.running_init())
batch_call = lambda train: lambda xs, a, k: hk.BatchNorm(False, False, .5)(*xs, train or hk.running_init(), *a, **k)
bn = lambda c=ini: dict(eps=(1e-5, .5), scale_init=(ones, ini), offset_init=(zeros, ini))
add("norm", "layer", mod(hk.LayerNorm), [(2, 2, 2)], axis=-1, create_scale=True, create_offset=True, **bn(), name=("layer_norm", "other"))
add("norm", "layer_call", call(lambda: hk.LayerNorm(-1, False, False)), [(2, 2)], scale=(None, np.float32(3)), offset=(None, np.float32(2)))
add("norm", "layer_call_one", call(lambda: hk.LayerNorm(-1, False, False)), [(2, 2)], scale=(np.float32(1), np.float32(3)), offset=(np.float32(0), np.float32(2)))
add("norm", "instance", mod(hk.InstanceNorm), [(2, 2, 2)], create_scale=True, create_offset=True, **bn(), data_format=("channels_last", "channels_first"), name=("instance_norm", "other"))
add("norm", "instance_call", call(lambda: hk.InstanceNorm(False, False)), [(1, 2, 2)], scale=(np.float32(1), np.float32(3)), offset=(np.float32(0), np.float32(2)))
add("norm", "group", mod(hk.GroupNorm), [(1, 2, 2)], groups=2, axis=(slice(1, None), (1, 2)), create_scale=(True, True), create_offset=(True, False), eps=(1e-5, .5), scale_init=(ones, ini), offset_init=(zeros, None), data_format=("channels_last", "channels_first"), name=("group_norm", "other"))
add("norm", "group_call", call(lambda: hk.GroupNorm(1, create_scale=False, create_offset=False)), [(1, 2, 2)], scale=(np.float32(1), np.float32(3)), offset=(np.float32(0), np.float32(2)))
for train in (True, False):
  add("norm", f"batch_{train}", batch(train), [(2, 1, 2)], create_scale=True, create_offset=True, decay_rate=.5, **bn(), axis=(None, (0, 2)), cross_replica_axis=(None, None), cross_replica_axis_index_groups=(None, None), data_format=("channels_last", "channels_last"), name=("batch_norm", "other"))
add("norm", "batch_axes", mod(hk.BatchNorm, True), [(2, 2, 2)], create_scale=True, create_offset=True, decay_rate=.5, axis=((0, 1), (0,)), data_format=("channels_last", "channels_first"), kwonly=("axis", "data_format"))
V["norm"]["batch_axes"].spec["data_format"] = ("channels_last", "NWC")
V["norm"]["batch_axes"].spec["axis"] = ((0, 1), (1, 0))
for train in (True, False):
  add("norm", f"batch_call_{train}", batch_call(train), [(2, 2)], test_local_stats=(False, True), scale=(None, np.float32(3)), offset=(None, np.float32(2)))
  add("norm", f"batch_call_one_{train}", batch_call(train), [(2, 2)], test_local_stats=(False, True), scale=(np.float32(1), np.float32(3)), offset=(np.float32(0), np.float32(2)))

# Averages and spectral normalisation.
add("average", "ema", mod(hk.ExponentialMovingAverage), [(2,)], decay=.5, zero_debias=(True, False), warmup_length=(0, 0), name=("exponential_moving_average", "other"))
add("average", "ema_warm", mod(hk.ExponentialMovingAverage), [(2,)], decay=.5, zero_debias=(False, False), warmup_length=(0, 3), keep=("zero_debias",))
add("average", "ema_call", call(lambda: hk.ExponentialMovingAverage(.5)), [(2,)], update_stats=(True, False))
add("average", "ema_initialize", lambda xs, a, k: (lambda e: (e.initialize((2,), *a, **k), e(xs[0])))(hk.ExponentialMovingAverage(.5)), [(2,)], dtype=(jnp.float32, jnp.float32))
tree = lambda xs: {"m": {"w": xs[0], "b": xs[1]}}
add("average", "ema_tree", lambda xs, a, k: hk.EMAParamsTree(*a, **k)(tree(xs)), [(2,), ()], decay=.5, zero_debias=(True, False), warmup_length=(0, 0), ignore_regex=("", ".*b"), name=("ema_params_tree", "other"))
add("average", "ema_tree_call", lambda xs, a, k: hk.EMAParamsTree(.5)(tree(xs), *a, **k), [(2,), ()], update_stats=(True, False))
add("average", "spectral", mod(hk.SpectralNorm), [(2, 1)], eps=(1e-4, .5), n_steps=(1, 2), name=("spectral_norm", "other"))
add("average", "spectral_call", call(hk.SpectralNorm), [(2, 1)], update_stats=(True, False), error_on_non_matrix=(False, True))
add("average", "spectral_tensor", call(hk.SpectralNorm), [(1, 2, 1)], update_stats=(True, False), error_on_non_matrix=(False, False))
add("average", "spectral_tree", lambda xs, a, k: hk.SNParamsTree(*a, **k)(tree(xs)), [(2, 1), (1, 1)], eps=(1e-4, .5), n_steps=(1, 2), ignore_regex=("", ".*w"), name=("sn_params_tree", "other"))
add("average", "spectral_tree_call", lambda xs, a, k: hk.SNParamsTree()(tree(xs), *a, **k), [(2, 1), (1, 1)], update_stats=(True, False))

# Recurrence.
def core(cls):
  def body(xs, a, k):
    c = cls(*a, **k)
    return c(xs[0], c.initial_state(xs[0].shape[0]))
  return body

add("recurrent", "vanilla", core(hk.VanillaRNN), [(1, 2)], hidden_size=1, double_bias=(True, False), name=("vanilla_rnn", "other"))
add("recurrent", "lstm", core(hk.LSTM), [(1, 1)], hidden_size=1, name=("lstm", "other"))
add("recurrent", "gru", core(hk.GRU), [(1, 2)], hidden_size=1, w_i_init=(I.VarianceScaling(), ini), w_h_init=(I.VarianceScaling(), C(.25)), b_init=(zeros, C(.5)), name=("gru", "other"))
for how in ("static", "dynamic"):
  for mk, label in ((lambda: hk.VanillaRNN(1, double_bias=False), "vanilla"), (hk.IdentityCore, "identity")):
    add("recurrent", f"{how}_{label}", lambda xs, a, k, how=how, mk=mk: (lambda c: getattr(hk, how + "_unroll")(c, xs[0], c.initial_state(2), *a, **k))(mk()), [(2, 2, 1)], time_major=(True, False))
add("recurrent", "dynamic_states", lambda xs, a, k: (lambda c: hk.dynamic_unroll(c, xs[0], c.initial_state(2), *a, **k))(hk.VanillaRNN(1)), [(2, 2, 1)], time_major=(True, False))
add("recurrent", "skip", lambda xs, a, k: (lambda c: c(xs[0], c.initial_state(1)))(hk.deep_rnn_with_skip_connections([hk.VanillaRNN(1), hk.VanillaRNN(1)], *a, **k)), [(1, 1)], name=("deep_rnn_with_skip_connections", "other"))
add("recurrent", "deep", lambda xs, a, k: (lambda c: c(xs[0], c.initial_state(1)))(hk.DeepRNN([hk.VanillaRNN(1), jnp.tanh], *a, **k)), [(1, 1)], name=("deep_rnn", "other"))
add("recurrent", "reset", lambda xs, a, k: (lambda c: c((xs[0], jnp.array([True])), c.initial_state(1)))(hk.ResetCore(hk.VanillaRNN(1), *a, **k)), [(1, 1)], name=("reset_core", "other"))

# Attention and quantisers.
VS = I.VarianceScaling
add("attention", "sizes", mod(hk.MultiHeadAttention), [(1, 1, 2), (1, 2, 2), (1, 2, 2)], num_heads=2, key_size=1, w_init_scale=2., query_size=(1, 1), value_size=(1, 2), model_size=(2, 1), name=("multi_head_attention", "other"))
add("attention", "call", call(lambda: hk.MultiHeadAttention(1, 1, 1.)), [(1, 1, 1), (1, 2, 1), (1, 2, 1)], mask=(None, np.array([[[[True, False]]]])))
add("attention", "call_all", call(lambda: hk.MultiHeadAttention(1, 1, 1.)), [(1, 1, 1), (1, 2, 1), (1, 2, 1)], mask=(np.array([[[[True, True]]]]), np.array([[[[True, False]]]])))
add("quantiser", "plain", mod(hk.nets.VectorQuantizer, True), [(1, 2)], embedding_dim=2, num_embeddings=3, commitment_cost=.25, dtype=(jnp.float32, jnp.float32), name=("vector_quantizer", "other"))
add("quantiser", "ema", mod(hk.nets.VectorQuantizerEMA, True), [(1, 1)], embedding_dim=1, num_embeddings=2, commitment_cost=.25, decay=.5, epsilon=(1e-5, .5), dtype=(jnp.float32, jnp.float32), cross_replica_axis=(None, None), name=("vector_quantizer_ema", "other"))

# Initializers and functions.
par = lambda mk: lambda xs, a, k: hk.get_parameter("w", (3, 2), init=mk(*a, **k)) + xs[0]
add("initializer", "normal", par(I.RandomNormal), [()], stddev=(1., 2.), mean=(0., 3.))
add("initializer", "truncated", par(I.TruncatedNormal), [()], stddev=(1., 2.), mean=(0., 3.))
add("initializer", "uniform", par(I.RandomUniform), [()], minval=(0., -1.), maxval=(1., 2.))
add("initializer", "scaling", par(I.VarianceScaling), [()], scale=(1., 2.), mode=("fan_in", "fan_avg"), distribution=("truncated_normal", "uniform"))
add("initializer", "scaling_out", lambda xs, a, k: par(I.VarianceScaling)(xs, a, k), [()], scale=(1., 3.), mode=("fan_in", "fan_out"), distribution=("truncated_normal", "normal"))
add("initializer", "uniform_scaling", par(I.UniformScaling), [()], scale=(1., 2.))
add("initializer", "identity", par(I.Identity), [()], gain=(1., 2.))
add("initializer", "orthogonal", par(I.Orthogonal), [()], scale=(1., 2.), axis=(-1, 0))
add("initializer", "parameter", lambda xs, a, k: hk.get_parameter("w", (), *a, init=C(2), **k) * xs[0], [()], dtype=(jnp.float32, jnp.float32))
add("initializer", "parameter_init", lambda xs, a, k: hk.get_parameter("w", (2,), *a, **k) * xs[0], [()], dtype=(jnp.float32, jnp.int32), init=(C(2), zeros), keep=("init",))
add("initializer", "state", lambda xs, a, k: (hk.get_state("s", (), *a, init=C(2), **k), hk.set_state("s", xs[0]))[0], [()], dtype=(jnp.float32, jnp.float32))
add("initializer", "state_init", lambda xs, a, k: (hk.get_state("s", *a, **k), hk.set_state("s", xs[0]))[0], [()], shape=((), ()), dtype=(jnp.float32, jnp.int32), init=(C(2), zeros), keep=("shape", "init"))

def creator(xs, a, k):
  with hk.experimental.custom_creator(lambda nxt, s, d, i, c: nxt(s, d, ones), *a, **k):
    return hk.get_parameter("w", (), init=zeros) + hk.get_state("s", (), init=zeros) + xs[0]

def getter(xs, a, k):
  with hk.experimental.custom_getter(lambda nxt, v, c: nxt(v) + 1., *a, **k):
    return hk.get_parameter("w", (), init=zeros) + 10. * hk.get_state("s", (), init=zeros) + xs[0]

add("function", "creator", creator, [()], params=(True, False), state=(False, True), kwonly=("params", "state"))
add("function", "getter", getter, [()], params=(True, False), state=(False, True), kwonly=("params", "state"))
par2 = lambda x, y: x * y * hk.get_parameter("w", (), init=ones) + x * x
first = lambda t: t[0] if isinstance(t, tuple) else t
for g in ("grad", "value_and_grad"):
  add("function", g, lambda xs, a, k, g=g: (lambda: par2(*xs))() * 0 + sum(jnp.sum(v) for v in jax.tree_util.tree_leaves(getattr(hk, g)(par2, *a, **k)(*xs))), [(), ()], argnums=(0, 1), has_aux=(False, False), holomorphic=(False, False))
add("function", "vmap", lambda xs, a, k: hk.vmap(lambda x, y: x * 2. + y + hk.get_parameter("w", (), init=ones), *a, **k)(*xs), [(2, 2), (2, 2)], in_axes=(0, 1), out_axes=(0, 1), axis_name=(None, "i"))
add("function", "scan", lambda xs, a, k: hk.scan(lambda c, x: (c + x * hk.get_parameter("w", (), init=ones), c), xs[0], xs[1], *a, **k), [(), (2,)], length=(None, 2), reverse=(False, True), unroll=(1, 2))
add("function", "one_hot", fn(hk.one_hot), [("int", (2,), -1, 3)], num_classes=3, dtype=(jnp.float32, jnp.int32))
add("function", "name_scope", lambda xs, a, k: hk.experimental.named_call(lambda x: x * hk.get_parameter("w", (), init=ones), **k)(*xs), [()], name=(None, "f"), kwonly=("name",))


def inputs(ctx, ins):
  out = []
  for i, s in enumerate(ins):
    out.append(ctx.integer(f"x{i}", s[1], s[2], s[3]) if s and s[0] == "int" else ctx.real(f"x{i}", s))
  return out


def agree(ctx, label, a, b, ins, tol=None):
  """Two programs agree in init and in two consecutive applies."""
  ta, tb = (hk.transform_with_state(lambda *xs, f=f: f(xs)) for f in (a, b))
  xs = inputs(ctx, ins)
  k = ctx.key("k")
  got, want = (ctx.run(lambda k, *xs, t=t: tuple(map(plain, t.init(k, *xs))), k, *xs) for t in (ta, tb))
  ctx.check(f"{label}: parameters and states {shape_spec(got)}, expected {shape_spec(want)}"[:300], shape_spec(got) == shape_spec(want))
  ctx.eq(f"{label}: initial values", got, want)
  p, s = ctx.like("p", sds(want[0])), ctx.like("s", sds(want[1]))
  def two(t):
    def go(p, s, k, *xs):
      outs = []
      for _ in range(2):
        o, s = t.apply(p, s, k, *xs)
        outs.append((o, plain(s)))
      return outs
    return ctx.run(go, p, s, k, *xs)
  ctx.eq(f"{label}: outputs and states", two(ta), two(tb))


@harness("C31", configs=[dict(fam=f, case=c) for f in V for c in V[f]], bounds="every public layer, initializer, unroll, pooling function and stateful transform with optional arguments, at small shapes; every optional argument left out alone or all together, against its documented default; all arguments by position in the documented order against by name; all inputs, keys, params and states", budget=200, validate=False)
def omitted(ctx, fam, case):
  c = V[fam][case]
  optional = [n for n, v in c.spec.items() if len(v) == 2]
  may = [n for n in optional if n not in c.keep]
  positional = [n for n in c.spec if n not in c.kwonly]
  modes = ["all"] + (["only " + n for n in may] if len(may) > 1 else []) + ([f"by position up to {n}" for n in positional[-1:]] if len(positional) > 1 or positional[:1] == optional[:1] else [])
  mode = ctx.choice("left out", modes)
  if mode.startswith("by position"):
    full = {n: v[-1] for n, v in c.spec.items()}
    args = [full[n] for n in positional]
    rest = {n: full[n] for n in c.kwonly if n in full}
    if c.body is not None:
      agree(ctx, "by position and by name", lambda xs: c.body(xs, args, rest), lambda xs: c.body(xs, [], full), c.ins)
    return
  full = {n: v[0] for n, v in c.spec.items()}
  gone = may if mode == "all" else [mode[5:]]
  some = {n: v for n, v in full.items() if n not in gone}
  agree(ctx, f"{case} without {', '.join(gone)}"[:120], lambda xs: c.body(xs, [], some), lambda xs: c.body(xs, [], full), c.ins)


BN = {"decay_rate": .9, "eps": 1e-5, "create_scale": True, "create_offset": True}
BN2 = {"decay_rate": .5, "eps": .25}
head = dict(bn_config=(BN, BN2), resnet_v2=(False, True))
logits = lambda n: dict(logits_config=({"w_init": jnp.zeros, "name": "logits"}, {"name": "head", "w_init": jnp.ones}), name=(n, "other"))
NETS = {
    "resnet": (hk.nets.ResNet, dict(blocks_per_group=((1, 1, 1, 1),), num_classes=(3,), **head, bottleneck=(True, False), channels_per_group=((256, 512, 1024, 2048), (64, 8, 16, 8)), use_projection=((True,) * 4, (False, True, True, True)), **logits("res_net"))),
    "resnet18": (hk.nets.ResNet18, dict(num_classes=(3,), **head, **logits("res_net18"))),
    "mobilenet": (hk.nets.MobileNetV1, dict(strides=((1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1), (1, 2)), channels=((64, 128, 128, 256, 256, 512, 512, 512, 512, 512, 512, 1024, 1024), (4, 8)), num_classes=(1000, 5), use_bn=(True, False), name=("mobile_net_v1", "other"))),
}
NETS.update({f"resnet{n}": (getattr(hk.nets, f"ResNet{n}"), dict(num_classes=(3,), **head, **logits(f"res_net{n}"))) for n in (34, 50)})


@harness("C31", configs=[dict(net=n, left=m) for n, (_, spec) in NETS.items() for m in ["all", "position", "call"] + ([] if n not in ("resnet", "mobilenet") else [k for k, v in spec.items() if len(v) == 2])],
         thorough=[dict(net=n, left=k) for n, (_, spec) in NETS.items() if n not in ("resnet", "mobilenet") for k, v in spec.items() if len(v) == 2],
         bounds="ResNet, ResNet18/34/50 and MobileNetV1 on 16x16 images: every optional argument left out alone or together against its documented default, by position against by name; array-level encoding", budget=300, validate=False)
def nets(ctx, net, left):
  cls, spec = NETS[net]
  optional = [n for n, v in spec.items() if len(v) == 2]
  train = ctx.flag("train")
  args, call_a, call_b = [], (train,), (train,)
  if left == "position":
    full = {n: v[-1] for n, v in spec.items()}
    args, some = list(full.values()), {}
  else:
    full = {n: v[0] for n, v in spec.items()}
    gone = optional if left in ("all", "call") else [left]
    some = {n: v for n, v in full.items() if n not in gone}
  if left == "call" and net != "mobilenet":
    call_b = (train, False)
  a = hk.transform_with_state(lambda x: cls(*args, **some)(x, *call_a))
  b = hk.transform_with_state(lambda x: cls(**full)(x, *call_b))
  if left == "call":
    ia, ib = (hk.transform_with_state(lambda x, c=c: cls(**full)(x, True)) for c in (0, 1))
  else:
    ia, ib = hk.transform_with_state(lambda x: cls(*args, **some)(x, True)), hk.transform_with_state(lambda x: cls(**full)(x, True))
  xs = jax.ShapeDtypeStruct((1, 16, 16, 1), np.float32)
  x = ctx.opaque("x", xs)
  k = ctx.opaque("k", jax.ShapeDtypeStruct((2,), np.uint32))
  got, want = (init_shapes(i, xs) for i in (ia, ib))
  ctx.check(f"same parameters and states without {left}", shape_spec(got) == shape_spec(want))
  if left != "call":
    ctx.oeq("same initial values", *(ctx.orun(lambda k, x, i=i: tuple(map(plain, i.init(k, x))), k, x) for i in (ia, ib)))
  p, s = ctx.opaque("p", plain(want[0])), ctx.opaque("s", plain(want[1]))
  ctx.oeq("same output and states", *(ctx.orun(lambda p, s, x, f=f: f.apply(p, s, None, x), p, s, x) for f in (a, b)))
