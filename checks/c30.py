"""C30: layers work in the precision of their input.

The same module is run for float32 and another precision on the same symbolic
reals: parameters, outputs and states must have the precision asked for and,
as rounding is not modelled, the same values.  Hyperparameters are dyadic so
that constants are exact in every precision.
"""
from checks.common import *
from vlib.core import plain
from jax.experimental import enable_x64
import contextlib

DT = {"float16": jnp.float16, "bfloat16": jnp.bfloat16, "float64": jnp.float64}
C = hk.initializers.Constant
ini = lambda s, d: (jnp.arange(int(np.prod(s))).reshape(s) % 5 - 2).astype(d) / 4
EPS = 2. ** -7


class Unroll(hk.Module):
  def __init__(self, mk, how, batched=True, **kw):
    super().__init__(name="u")
    self.mk, self.how, self.batched, self.kw = mk, how, batched, kw

  def __call__(self, x):
    core = self.mk()
    x = x if self.batched else x[:, 0]
    s = jax.tree_util.tree_map(lambda v: v.astype(x.dtype), core.initial_state(x.shape[1] if self.batched else None))
    xs = x if not isinstance(core, hk.ResetCore) else (x, jnp.array([[False] * x.shape[1], [True] * x.shape[1]]) if self.batched else jnp.array([False, True]))
    if self.how == "step":
      return core(jax.tree_util.tree_map(lambda v: v[0], xs), s)
    return getattr(hk, self.how + "_unroll")(core, xs, s, **self.kw)


def rnn(mk):
  return {"step": lambda: Unroll(mk, "step"), "step alone": lambda: Unroll(mk, "step", False), "static": lambda: Unroll(mk, "static"), "dynamic": lambda: Unroll(mk, "dynamic"), "alone": lambda: Unroll(mk, "static", False), "dynamic alone": lambda: Unroll(mk, "dynamic", False)}


class F(hk.Module):
  def __init__(self, f):
    super().__init__(name="f")
    self.f = f

  def __call__(self, *a):
    return self.f(*a)


b2 = lambda **k: product(**{n: v for n, v in k.items()})
V = {}
def family(name, shape, **variants):
  V[name] = (shape, variants)

family("linear", (2, 2), bias=lambda: hk.Linear(2, w_init=ini, b_init=ini), plain=lambda: hk.Linear(2, with_bias=False, w_init=ini),
       bias_layer=lambda: hk.Bias(b_init=ini), bias_dims=lambda: hk.Bias(bias_dims=[-1], b_init=ini), bias_scalar=lambda: hk.Bias(bias_dims=[], b_init=ini),
       mlp=lambda: hk.nets.MLP([2, 1], w_init=ini, b_init=ini), mlp_plain=lambda: hk.nets.MLP([2, 1], with_bias=False, activate_final=True, w_init=ini),
       dropout=lambda: F(lambda x: hk.dropout(hk.next_rng_key(), .5, x)), mlp_dropout=lambda: F(lambda x: hk.nets.MLP([2, 2], w_init=ini)(x, dropout_rate=.5, rng=hk.next_rng_key())),
       reverse=lambda: F(lambda x: (lambda m, y: m.reverse()(y))(*(lambda m: (m, m(x)))(hk.nets.MLP([2, 1], w_init=ini)))),
       sequential=lambda: hk.Sequential([hk.Linear(2, w_init=ini), jax.nn.relu, hk.Bias(b_init=ini)]), batch_apply=lambda: F(lambda x: hk.BatchApply(hk.Linear(1, w_init=ini))(x[None])),
       expand=lambda: F(lambda x: hk.expand_apply(hk.Bias(b_init=ini))(x)), flatten=lambda: hk.Flatten(), reshape=lambda: hk.Reshape((1, 2)))
family("conv1", (1, 3, 2), same=lambda: hk.Conv1D(2, 2, w_init=ini, b_init=ini), valid=lambda: hk.Conv1D(1, 2, padding="VALID", with_bias=False, w_init=ini), causal=lambda: hk.Conv1D(1, 2, padding=hk.pad.causal, w_init=ini),
       mask=lambda: hk.Conv1D(2, 2, mask=np.ones((2, 2, 2), bool), w_init=ini), group=lambda: hk.Conv1D(2, 2, feature_group_count=2, w_init=ini), stride=lambda: hk.Conv1D(1, 2, stride=2, rate=1, w_init=ini),
       transpose=lambda: hk.Conv1DTranspose(1, 2, w_init=ini, b_init=ini), transpose_shape=lambda: hk.Conv1DTranspose(1, 3, stride=2, output_shape=6, with_bias=False, w_init=ini), transpose_mask=lambda: hk.Conv1DTranspose(2, 2, mask=np.ones((2, 2, 2), bool), w_init=ini))
family("conv2", (1, 2, 2, 2), depthwise=lambda: hk.DepthwiseConv2D(1, 2, w_init=ini, b_init=ini), depthwise_plain=lambda: hk.DepthwiseConv2D(2, 1, with_bias=False, w_init=ini),
       separable=lambda: hk.SeparableDepthwiseConv2D(1, 2, w_init=ini), max_pool=lambda: hk.MaxPool(2, 1, "SAME"), max_valid=lambda: hk.MaxPool((2, 2, 1), 1, "VALID"), avg_pool=lambda: hk.AvgPool((2, 2, 1), 1, "SAME"), avg_valid=lambda: hk.AvgPool((2, 2, 1), 1, "VALID"),
       unbatched=lambda: F(lambda x: hk.Conv2D(1, 2, w_init=ini)(x[0])), nchw=lambda: hk.Conv2D(1, 2, data_format="NCHW", w_init=ini))
family("norm", (2, 2, 2), layer=lambda: hk.LayerNorm(-1, True, True, eps=EPS, scale_init=ini, offset_init=ini), layer_rms=lambda: hk.LayerNorm((1, 2), False, True, eps=EPS, offset_init=ini),
       layer_plain=lambda: hk.LayerNorm(-1, False, False, eps=EPS), layer_given=lambda: F(lambda x: hk.LayerNorm(-1, False, False, eps=EPS)(x, scale=x[0, 0], offset=x[0, 1])),
       instance=lambda: hk.InstanceNorm(True, True, eps=EPS, scale_init=ini, offset_init=ini), group=lambda: hk.GroupNorm(2, eps=EPS, scale_init=ini, offset_init=ini), group_plain=lambda: hk.GroupNorm(1, False, False, eps=EPS),
       batch=lambda: F(lambda x: hk.BatchNorm(True, True, .5, eps=EPS, scale_init=ini, offset_init=ini)(x, True)), batch_test=lambda: F(lambda x: hk.BatchNorm(True, False, .5, eps=EPS, scale_init=ini)(x, hk.running_init())), batch_local=lambda: F(lambda x: hk.BatchNorm(False, False, .5, eps=EPS)(x, hk.running_init(), test_local_stats=True)))
family("attention", (1, 2, 2), plain=lambda: F(lambda x: hk.MultiHeadAttention(1, 4, 1., model_size=1)(x, x, x)), heads=lambda: F(lambda x: hk.MultiHeadAttention(2, 1, 1., model_size=2)(x, x, x)),
       mask=lambda: F(lambda x: hk.MultiHeadAttention(1, 1, 1., model_size=1)(x, x, x, mask=jnp.tril(jnp.ones((1, 1, 2, 2), x.dtype)))))
family("average", (2,), ema=lambda: F(lambda x: hk.ExponentialMovingAverage(.5)(x)), ema_biased=lambda: F(lambda x: hk.ExponentialMovingAverage(.5, zero_debias=False)(x)), ema_warm=lambda: F(lambda x: hk.ExponentialMovingAverage(.5, zero_debias=False, warmup_length=2)(x)),
       ema_first=lambda: F(lambda x: (lambda e: (e.initialize(x.shape, x.dtype), e(x, False), e.average))(hk.ExponentialMovingAverage(.5))),)
family("other", (2, 2), spectral=lambda: F(lambda x: hk.SpectralNorm(eps=EPS, n_steps=1)(x)), spectral_kept=lambda: F(lambda x: hk.SpectralNorm(eps=EPS, n_steps=2)(x, update_stats=False)), quantiser=lambda: F(lambda x: hk.nets.VectorQuantizer(2, 2, .25, dtype=x.dtype)(x, True)),
       quantiser_ema=lambda: F(lambda x: hk.nets.VectorQuantizerEMA(2, 2, .25, .5, epsilon=EPS, dtype=x.dtype)(x, hk.running_init())))
for k, mk in dict(vanilla=lambda: hk.VanillaRNN(1), vanilla_single=lambda: hk.VanillaRNN(1, double_bias=False), lstm=lambda: hk.LSTM(1), gru=lambda: hk.GRU(1, w_i_init=ini, w_h_init=ini, b_init=ini), identity=lambda: hk.IdentityCore(),
                  reset=lambda: hk.ResetCore(hk.VanillaRNN(1)), deep=lambda: hk.DeepRNN([hk.VanillaRNN(1), jnp.tanh, hk.GRU(1)]), skip=lambda: hk.deep_rnn_with_skip_connections([hk.VanillaRNN(1), hk.VanillaRNN(1)])).items():
  V[k] = ((2, 1, 2), rnn(mk))
V["conv_lstm"] = ((2, 1, 1, 1), {k: v for k, v in rnn(lambda: hk.Conv1DLSTM([1], 1, 1)).items() if k in ("step", "dynamic")})


@harness("C30", configs=[dict(fam=f, to=d) for f in V for d in DT], bounds="all layers, norms, pooling, attention, averages and recurrent cores with and without their optional parts, at small shapes with dyadic hyperparameters; float16, bfloat16 and float64 against float32; two consecutive apply calls; all params, states, inputs and keys", budget=300, validate=False)
def precision(ctx, fam, to):
  shape, variants = V[fam]
  variant = ctx.choice("variant", list(variants))
  mk = variants[variant]
  t = hk.transform_with_state(lambda x: mk()(x))
  dt = DT[to]
  x = ctx.real("x", shape)
  k = ctx.key("k")
  floating = lambda v: jnp.issubdtype(v.dtype, jnp.floating)
  cast = lambda tree: jax.tree_util.tree_map(lambda v: v.astype(dt) if floating(v) else v, tree)
  with enable_x64() if to == "float64" else contextlib.nullcontext():
    ip, is_ = jax.eval_shape(t.init, jax.ShapeDtypeStruct((2,), np.uint32), jax.ShapeDtypeStruct(shape, dt))
    for m, b in plain(ip).items():
      for n, v in b.items():
        ctx.check(f"{variant}: parameter {m}/{n} is {v.dtype}", v.dtype == dt)
    for v in jax.tree_util.tree_leaves(plain(is_)):
      ctx.check(f"{variant}: state is {v.dtype}", not floating(v) or v.dtype == dt)
    jp, js = jax.eval_shape(t.init, jax.ShapeDtypeStruct((2,), np.uint32), jax.ShapeDtypeStruct(shape, jnp.float32))
    ctx.check("same parameters", shape_spec(ip) == shape_spec(jp) and shape_spec(is_) == shape_spec(js))
    p, s = ctx.like("p", jp), ctx.like("s", js)
    def two(p, s, k, x):
      outs = []
      for _ in range(2):
        o, s = t.apply(p, s, k, x)
        outs.append((o, plain(s)))
      return outs
    want = ctx.run(two, p, s, k, x)
    seen = []
    def low(p, s, k, x):
      r = two(cast(p), cast(s), k, cast(x))
      seen.append(jax.tree_util.tree_map(lambda v: str(v.dtype), r))
      return r
    got = ctx.run(low, p, s, k, x)
    have = jax.tree_util.tree_leaves(seen[-1])
    base = jax.tree_util.tree_map(lambda v: str(v.dtype), want)
    ctx.check(f"{variant}: outputs and states in {to}: {have}"[:250], all(a == (to if b in ("float32",) else b) for a, b in zip(have, jax.tree_util.tree_leaves(base))) and len(have) == len(jax.tree_util.tree_leaves(base)))
    if variant != "mask":   # its large constant is rounded
      ctx.eq(f"{variant}: same values as in float32", got, want, dtype=False, tol={"float16": 10, "bfloat16": 50}.get(to, 1))
