"""C21: recurrent cores, unrolls, ResetCore, DeepRNN."""
from checks.common import *
from checks import refs

sig = jax.nn.sigmoid


# ------------------------------------------------------------ reference cores
def ref_rnn(p, pre, x, s):
  q = p[pre + "/linear_1"]
  h = jax.nn.relu(x @ p[pre + "/linear"]["w"] + p[pre + "/linear"]["b"] + s @ q["w"] + q.get("b", 0.))
  return h, h


def lstm_cell(gates, s):
  n = gates.shape[-1] // 4
  i, g, f, o = (gates[..., k * n:(k + 1) * n] for k in range(4))
  c = sig(f + 1.) * s[1] + sig(i) * jnp.tanh(g)
  h = sig(o) * jnp.tanh(c)
  return h, (h, c)


def ref_lstm(p, pre, x, s):
  q = p[pre + "/linear"]
  return lstm_cell(jnp.concatenate([x, s[0]], -1) @ q["w"] + q["b"], s)


def ref_gru(p, pre, x, s):
  q = p[pre]
  n = q["b"].shape[0] // 3
  wi, wh, b = ([v[..., k * n:(k + 1) * n] for k in range(3)] for v in (q["w_i"], q["w_h"], q["b"]))
  z = sig(x @ wi[0] + s @ wh[0] + b[0])
  r = sig(x @ wi[1] + s @ wh[1] + b[1])
  a = jnp.tanh(x @ wi[2] + (r * s) @ wh[2] + b[2])
  h = (1. - z) * s + z * a
  return h, h


def ref_id(p, pre, x, s):
  return x, s


CORES = {
    "vanilla_rnn": (lambda **k: hk.VanillaRNN(2, **k), ref_rnn, 1),
    "vanilla_single": (lambda **k: hk.VanillaRNN(2, double_bias=False, name=k.get("name") or "vanilla_rnn"), ref_rnn, 1),
    "lstm": (lambda **k: hk.LSTM(2, **k), ref_lstm, 2),
    "gru": (lambda **k: hk.GRU(2, **k), ref_gru, 1),
    "identity_core": (lambda **k: hk.IdentityCore(**k), ref_id, 0),
}
PRE = {"vanilla_single": "vanilla_rnn"}


def param_spec(core, pre, n_in, h=2):
  if core in ("vanilla_rnn", "vanilla_single"):
    d = {pre + "/linear": {"w": (n_in, h), "b": (h,)}, pre + "/linear_1": {"w": (h, h)}}
    if core == "vanilla_rnn":
      d[pre + "/linear_1"]["b"] = (h,)
    return d
  if core == "lstm":
    return {pre + "/linear": {"w": (n_in + h, 4 * h), "b": (4 * h,)}}
  if core == "gru":
    return {pre: {"w_i": (n_in, 3 * h), "w_h": (h, 3 * h), "b": (3 * h,)}}
  return {}


def mkparams(ctx, spec):
  return {m: {k: ctx.real(f"{m}.{k}", s) for k, s in d.items()} for m, d in spec.items()}


def mkstate(ctx, core, batch, name="s"):
  n = CORES[core][2]
  sh = ((batch,) if batch else ()) + (2,)
  if n == 0:
    return ()
  if n == 1:
    return ctx.real(name, sh)
  return hk.LSTMState(ctx.real(name + "h", sh), ctx.real(name + "c", sh))


@harness("C21", configs=product(core=tuple(CORES), batch=(None, 1, 2), n_in=(1, 2, 3)),
         bounds="hidden size 2, input size 1..3, unbatched or batch 1..2; any inputs, states, parameters")
def core_step(ctx, core, batch, n_in):
  mk, ref, _ = CORES[core]
  pre = PRE.get(core, core)
  x = ctx.real("x", ((batch,) if batch else ()) + (n_in,))
  s = mkstate(ctx, core, batch)
  f = hk.transform(lambda x, s: mk()(x, s))
  spec = param_spec(core, pre, n_in)
  check_shapes(ctx, "parameters", init_shapes(f, x, s), spec)
  p = mkparams(ctx, spec)
  out = ctx.run(lambda p, x, s: f.apply(p, None, x, s), p, x, s)
  ctx.eq("recurrence", out, ctx.run(lambda p, x, s: ref(p, pre, x, s), p, x, s))
  if core == "lstm":
    ctx.check("state type", isinstance(out[1], hk.LSTMState))
  z = ctx.run(lambda v: hk.transform(lambda: mk().initial_state(batch)).apply({}, None), ctx.real("d"))
  sh = ((batch,) if batch else ()) + (2,)
  n = CORES[core][2]
  zero = np.zeros(sh, np.float32)
  ctx.eq("initial state is zero with the documented shape", z, {0: (), 1: zero, 2: (zero, zero)}[n])
  if core in ("lstm", "gru"):
    ctx.raises("rank 3 input rejected", lambda: init_shapes(f, ctx.real("x3", (1, 1, n_in)), s), ValueError)


CONV = {1: (hk.Conv1DLSTM, (2,), "conv1_dlstm"), 2: (hk.Conv2DLSTM, (2, 1), "conv2_dlstm"), 3: (hk.Conv3DLSTM, (1, 2, 1), "conv3_dlstm")}


@harness("C21", configs=product(nd=(1, 2, 3), batch=(1, 2), k=(1, 2, 3)), bounds="spatial sizes 1..2, kernel 1..3, 1-2 channels, batch 1..2", budget=90)
def conv_lstm(ctx, nd, batch, k):
  cls, spatial, _ = CONV[nd]
  cin, cout = (2, 1) if k != 2 else (1, 2)
  mk = lambda: cls(spatial, output_channels=cout, kernel_shape=k, name="core")
  f = hk.transform(lambda x, s: mk()(x, s))
  x = ctx.real("x", (batch,) + spatial + (cin,))
  sh = (batch,) + spatial + (cout,)
  s = hk.LSTMState(ctx.real("h", sh), ctx.real("c", sh))
  spec = {"core/input_to_hidden": {"w": (k,) * nd + (cin, 4 * cout), "b": (4 * cout,)},
          "core/hidden_to_hidden": {"w": (k,) * nd + (cout, 4 * cout), "b": (4 * cout,)}}
  check_shapes(ctx, "parameters", init_shapes(f, x, s), spec)
  p = mkparams(ctx, spec)
  out = ctx.run(lambda p, x, s: f.apply(p, None, x, s), p, x, s)
  def ref(p, x, s):
    pad = [refs.same_pad(n, k, 1) for n in spatial]
    c = lambda v, q: refs.ref_conv(v, q["w"], (1,) * nd, (1,) * nd, pad, 1) + q["b"]
    return lstm_cell(c(x, p["core/input_to_hidden"]) + c(s[0], p["core/hidden_to_hidden"]), s)
  ctx.eq("recurrence", out, ctx.run(ref, p, x, s))
  z = ctx.run(lambda v: hk.transform(lambda: mk().initial_state(batch)).apply({}, None), ctx.real("d"))
  zero = np.zeros(sh, np.float32)
  ctx.eq("initial state", z, (zero, zero))
  z = ctx.run(lambda v: hk.transform(lambda: mk().initial_state(None)).apply({}, None), ctx.real("d2"))
  ctx.eq("unbatched initial state", z, (zero[0], zero[0]))


# ------------------------------------------------------------------- unrolls
def take(x, t, tm):
  return jax.tree_util.tree_map(lambda v: v[t] if tm else v[:, t], x)


@harness("C21", configs=product(core=("vanilla_rnn", "lstm", "gru", "identity_core"), how=("static", "dynamic"), tm=(True, False), n=(1, 2, 3)),
         bounds="1..3 steps (hidden 1 or 2), batch 1..2 or none (time major); init and apply; any inputs, states, parameters", budget=90)
def unroll(ctx, core, how, tm, n):
  mk, ref, _ = CORES[core]
  batch = ctx.choice("batch", [1, 2] if not tm else [None, 2])
  fn = hk.static_unroll if how == "static" else hk.dynamic_unroll
  n_in = 1
  lead = (n,) + ((batch,) if batch else ()) if tm else (batch, n)
  x = ctx.real("x", lead + (n_in,))
  s = mkstate(ctx, core, batch)
  kw = {} if tm and ctx.flag("default_major") else dict(time_major=tm)
  f = hk.transform(lambda x, s: fn(mk(), x, s, **kw))
  spec = param_spec(core, core, n_in)
  check_shapes(ctx, "parameters are shared by all steps", init_shapes(f, x, s), spec)
  p = mkparams(ctx, spec)
  out = ctx.run(lambda p, x, s: f.apply(p, None, x, s), p, x, s)
  def by_hand(p, x, s):
    outs = []
    for t in range(n):
      y, s = ref(p, core, take(x, t, tm), s)
      outs.append(y)
    return jnp.stack(outs, 0 if tm else 1), s
  ctx.eq("unroll equals stepping by hand", out, ctx.run(by_hand, p, x, s))
  def at_init(x, s):
    outs = []
    def g(x, s):
      outs.append(fn(mk(), x, s, **kw))
      return outs[-1]
    ps = hk.transform(g).init(jnp.asarray(KEY0), x, s)
    return ps, outs[-1]
  ps, o = ctx.run(at_init, x, s)
  ctx.eq("unroll at init", o, ctx.run(by_hand, ps, x, s))


class Acc(hk.RNNCore):
  """Nested inputs, outputs and states; order and element sensitive."""

  def __call__(self, inputs, state):
    a, b = inputs["a"], inputs["b"]
    s, t = state
    n = (s * 2. + a, t * 3. + s + b)
    return {"u": n[0] * n[1], "v": (a, s)}, n

  def initial_state(self, batch_size):
    z = jnp.zeros(() if batch_size is None else (batch_size,)) + 5.
    return z, z + 1.


@harness("C21", configs=product(how=("static", "dynamic"), tm=(True, False), where=("transform", "outside", "init")),
         bounds="nested inputs/outputs/states, 1..4 steps, batch 2; inside a transform (init and apply) and plain functions outside of one")
def unroll_nested(ctx, how, tm, where):
  n = ctx.choice("n", [1, 2, 3, 4])
  fn = hk.static_unroll if how == "static" else hk.dynamic_unroll
  lead = (n, 2) if tm else (2, n)
  x = {"a": ctx.real("a", lead), "b": ctx.real("b", lead)}
  s = (ctx.real("s", (2,)), ctx.real("t", (2,)))
  if where == "outside":
    def core(i, st):
      m = (st[0] * 2. + i["a"], st[1] * 3. + st[0] + i["b"])
      return {"u": m[0] * m[1], "v": (i["a"], st[0])}, m
    out = ctx.run(lambda x, s: fn(core, x, s, time_major=tm), x, s)
  elif where == "init":
    def go(x, s):
      box = []
      def g(x, s):
        box.append(fn(Acc(), x, s, time_major=tm))
      hk.transform(g).init(None, x, s)
      return box[0]
    out = ctx.run(go, x, s)
  else:
    f = hk.transform(lambda x, s: fn(Acc(), x, s, time_major=tm))
    out = ctx.run(lambda x, s: f.apply({}, None, x, s), x, s)
  def by_hand(x, s):
    outs = []
    for t in range(n):
      i = take(x, t, tm)
      m = (s[0] * 2. + i["a"], s[1] * 3. + s[0] + i["b"])
      outs.append({"u": m[0] * m[1], "v": (i["a"], s[0])})
      s = m
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v, 0 if tm else 1), *outs), s
  ctx.eq("unroll equals stepping by hand", out, ctx.run(by_hand, x, s))


# ----------------------------------------------------------------- ResetCore
@harness("C21", configs=product(core=("vanilla_rnn", "lstm", "gru"), batch=(None, 1, 2)) , bounds="any flags, states, inputs, parameters; one flag per example, or a nest of flags; batch 2, 1 or none")
def reset_core(ctx, core, batch):
  mk, ref, ns = CORES[core]
  lead = (batch,) if batch else ()
  x, s = ctx.real("x", lead + (2,)), mkstate(ctx, core, batch)
  nest = ctx.choice("nest", ["shared", "nest", "full"] if ns == 2 else ["shared", "full"])
  if nest == "shared":
    r = ctx.boolean("r", lead)
  elif ns == 2:
    sh = lead + ((2,) if nest == "full" else ())
    r = hk.LSTMState(ctx.boolean("rh", sh), ctx.boolean("rc", sh))
  else:
    r = ctx.boolean("r", lead + (2,))
  f = hk.transform(lambda x, r, s: hk.ResetCore(mk())((x, r), s))
  p = mkparams(ctx, param_spec(core, core, 2))
  out = ctx.run(lambda p, x, r, s: f.apply(p, None, x, r, s), p, x, r, s)
  def byhand(p, x, r, s):
    rs = jax.tree_util.tree_map(lambda _: r, s) if nest == "shared" else r
    def w(f, v):
      f = f.reshape(f.shape + (1,) * (v.ndim - f.ndim))
      return jnp.where(f, jnp.zeros_like(v), v)
    return ref(p, core, x, jax.tree_util.tree_map(w, rs, s))
  ctx.eq("reset exactly the flagged entries", out, ctx.run(byhand, p, x, r, s))


@harness("C21", configs=product(how=("static", "dynamic"), batch=(1, 2, 3)), bounds="non-zero initial states; unrolls of 1..3 steps with any flags at any step; batch 1..3")
def reset_unroll(ctx, how, batch):
  n = ctx.choice("n", [1, 2, 3])
  lead = (batch,) if batch else ()
  fn = hk.static_unroll if how == "static" else hk.dynamic_unroll
  x = {"a": ctx.real("a", (n,) + lead), "b": ctx.real("b", (n,) + lead)}
  r = ctx.boolean("r", (n,) + lead)
  s = (ctx.real("s", lead), ctx.real("t", lead))
  f = hk.transform(lambda x, r, s: fn(hk.ResetCore(Acc()), (x, r), s))
  out = ctx.run(lambda x, r, s: f.apply({}, None, x, r, s), x, r, s)
  def by_hand(x, r, s):
    outs = []
    for t in range(n):
      i = take(x, t, True)
      s = jnp.where(r[t], 5., s[0]), jnp.where(r[t], 6., s[1])
      m = (s[0] * 2. + i["a"], s[1] * 3. + s[0] + i["b"])
      outs.append({"u": m[0] * m[1], "v": (i["a"], s[0])})
      s = m
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs), s
  ctx.eq("reset equals starting again from the initial state", out, ctx.run(by_hand, x, r, s))
  z = ctx.run(lambda v: hk.transform(lambda: hk.ResetCore(Acc()).initial_state(2)).apply({}, None), ctx.real("d"))
  ctx.eq("initial state of the wrapped core", z, (np.full(2, 5, np.float32), np.full(2, 6, np.float32)))


class HighRank(hk.RNNCore):
  def __call__(self, inputs, state):
    return inputs + jnp.sum(state, axis=(-1, -2)), state * 2.

  def initial_state(self, batch_size):
    z = jnp.full((2, 2), 7.)
    return z if batch_size is None else jnp.stack([z] * batch_size)


@harness("C21", configs=product(rshape=((2,), (2, 2), (2, 2, 2), (1,), (3,), (2, 1))), bounds="rank-3 states of equal axis sizes, flags of every prefix shape; incompatible shapes rejected")
def reset_rank(ctx, rshape):
  x, s = ctx.real("x", (2,)), ctx.real("s", (2, 2, 2))
  r = ctx.boolean("r", rshape)
  f = hk.transform(lambda x, r, s: hk.ResetCore(HighRank())((x, r), s))
  run = lambda: ctx.run(lambda x, r, s: f.apply({}, None, x, r, s), x, r, s)
  if rshape != (2, 2, 2)[:len(rshape)]:
    ctx.raises("incompatible flags rejected", run, ValueError)
    return
  def byhand(x, r, s):
    s = jnp.where(r.reshape(rshape + (1,) * (3 - len(rshape))), 7., s)
    return x + s.sum((1, 2)), s * 2.
  ctx.eq("flags align with the leading axes", run(), ctx.run(byhand, x, r, s))


# ------------------------------------------------------------------- DeepRNN
@harness("C21", configs=product(layers=(("vanilla_rnn", "vanilla_rnn"), ("f", "gru"), ("vanilla_rnn", "f", "f", "vanilla_rnn"), ("lstm", "f", "vanilla_rnn"), ("identity_core", "vanilla_rnn"), ("f",), (), ("vanilla_rnn",), ("gru", "lstm")),
                                skip=(False, True), batch=(None, 2)), bounds="up to 4 layers of cores and functions, hidden size 2, input size 2, batch 2 or none", budget=90)
def deep_rnn(ctx, layers, skip, batch):
  lead = (batch,) if batch else ()
  fs = [lambda v, k=k: v * (k + 2.) + 1. for k in range(len(layers))]
  def build():
    ls = [fs[k] if l == "f" else CORES[l][0](name=f"l{k}") for k, l in enumerate(layers)]
    return hk.deep_rnn_with_skip_connections(ls) if skip else hk.DeepRNN(ls)
  x = ctx.real("x", lead + (2,))
  s = tuple(mkstate(ctx, l, batch, f"s{k}") for k, l in enumerate(layers) if l != "f")
  f = hk.transform(lambda x, s: build()(x, s))
  if skip and "f" in layers:
    ctx.raises("skip connections need cores only", lambda: init_shapes(f, x, s), ValueError)
    return
  if skip and not layers:
    return ctx.check("nothing to do", True)
  spec, cur, tot = {}, 2, 0
  for k, l in enumerate(layers):
    n_in = cur + 2 if skip and k else cur
    if l != "f":
      spec.update(param_spec(l, f"l{k}", n_in))
      cur = n_in if l == "identity_core" else 2
  check_shapes(ctx, "parameters", init_shapes(f, x, s), spec)
  p = mkparams(ctx, spec)
  out = ctx.run(lambda p, x, s: f.apply(p, None, x, s), p, x, s)
  def byhand(p, x, s):
    cur, outs, ns, s = x, [], [], list(s)
    for k, l in enumerate(layers):
      i = jnp.concatenate([x, cur], -1) if skip and k else cur
      if l == "f":
        cur = fs[k](i)
      else:
        cur, n = CORES[l][1](p, f"l{k}", i, s.pop(0))
        outs.append(cur)
        ns.append(n)
    return (jnp.concatenate(outs, -1) if skip else cur), tuple(ns)
  ctx.eq("composition of the layers", out, ctx.run(byhand, p, x, s))
  z = ctx.run(lambda v: hk.transform(lambda: build().initial_state(batch)).apply({}, None), ctx.real("d"))
  zero = np.zeros(lead + (2,), np.float32)
  ctx.eq("one initial state per core", z, tuple({0: (), 1: zero, 2: (zero, zero)}[CORES[l][2]] for l in layers if l != "f"))
