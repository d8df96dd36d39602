"""C24: vector quantisers."""
from checks.common import *

VQ, EMA = "vector_quantizer", "vector_quantizer_ema"
SIZES = (((2,), 1, 2), ((2,), 2, 2), ((1, 2), 2, 2), ((2,), 1, 3), ((1,), 2, 3), ((2, 1, 1), 1, 2), ((), 2, 2))


def nearest(x, e):
  """Index of the first code at least squared distance, by explicit comparisons."""
  d, k = e.shape
  dist = [jnp.sum((x - e[:, j]) ** 2, -1) for j in range(k)]
  best = dist[0]
  idx = jnp.zeros(x.shape[:-1], jnp.int32)
  for j in range(1, k):
    idx = jnp.where(dist[j] < best, j, idx)
    best = jnp.where(dist[j] < best, dist[j], best)
  return idx, jnp.stack(dist, -1)


def ref_forward(x, e, cost, ema):
  d, k = e.shape
  idx, dist = nearest(x, e)
  oh = jnp.stack([(idx == j).astype(jnp.float32) for j in range(k)], -1)
  q = sum(oh[..., j:j + 1] * e[:, j] for j in range(k))
  mse = jnp.mean((q - x) ** 2)
  flat = oh.reshape(-1, k)
  p = jnp.sum(flat, 0) / flat.shape[0]
  perp = jnp.exp(-jnp.sum(jax.scipy.special.xlogy(p, p)))
  return {"quantize": q, "loss": cost * mse if ema else mse + cost * mse, "perplexity": perp,
          "encodings": flat, "encoding_indices": idx, "distances": dist.reshape(-1, k)}


def outputs(ctx, out, ref, x, e):
  ctx.eq("indices of the nearest code", out["encoding_indices"], ref["encoding_indices"])
  ctx.eq("one-hot encodings", out["encodings"], ref["encodings"])
  ctx.eq("nearest code returned", out["quantize"], ref["quantize"])
  ctx.eq("distances", out["distances"], ref["distances"])
  ctx.eq("loss", out["loss"], ref["loss"])
  ctx.eq("perplexity", out["perplexity"], ref["perplexity"])
  # independent statement of nearest: no code is closer than the returned one
  def slack(x, e, q):
    own = jnp.sum((x - q) ** 2, -1)
    return jnp.stack([jnp.sum((x - e[:, j]) ** 2, -1) - own for j in range(e.shape[1])])
  if e.shape[1] == 2:
    ctx.check("no other code is closer", ctx.ge(ctx.run(slack, x, e, out["quantize"]), np.float32(0)))


@harness("C24", configs=product(size=SIZES, train=(True, False)), bounds="up to 2 vectors of dimension 1..2, 2..3 codes, any leading shape; any inputs and codes", budget=120)
def quantizer(ctx, size, train):
  lead, d, k = size
  cost = ctx.choice("cost", [0.25, 2.])
  x, e = ctx.real("x", lead + (d,)), ctx.real("e", (d, k))
  f = hk.transform(lambda x: hk.nets.VectorQuantizer(d, k, cost)(x, train))
  check_shapes(ctx, "parameters", init_shapes(f, x), {VQ: {"embeddings": (d, k)}})
  out = ctx.run(lambda e, x: f.apply({VQ: {"embeddings": e}}, None, x), e, x)
  outputs(ctx, out, ctx.run(lambda x, e: ref_forward(x, e, cost, False), x, e), x, e)


@harness("C24", configs=product(size=(((2,), 1, 2), ((1,), 2, 2)), which=("vq", "ema")), bounds="gradients of sum(c * quantize) and of the loss; any inputs, codes, cotangents", budget=120)
def gradients(ctx, size, which):
  lead, d, k = size
  cost = 0.25
  x, e, c = ctx.real("x", lead + (d,)), ctx.real("e", (d, k)), ctx.real("c", lead + (d,))
  if which == "vq":
    f = hk.transform(lambda x: hk.nets.VectorQuantizer(d, k, cost)(x, True))
    app = lambda e, x: f.apply({VQ: {"embeddings": e}}, None, x)
  else:
    f = hk.transform_with_state(lambda x: hk.nets.VectorQuantizerEMA(d, k, cost, .5)(x, False))
    st = {EMA: {"embeddings": e}, EMA + "/~/ema_cluster_size": {"hidden": ctx.real("h", (k,)), "average": ctx.real("a", (k,))},
          EMA + "/~/ema_dw": {"hidden": ctx.real("h2", (d, k)), "average": ctx.real("a2", (d, k))}}
    app = lambda e, x: f.apply({}, {**st_in[0], EMA: {"embeddings": e}}, None, x)[0]
    st_in = [None]
  def grads(e, x, c, st):
    if which == "ema":
      st_in[0] = st
    gq = jax.grad(lambda e, x: jnp.sum(c * app(e, x)["quantize"]), (0, 1))(e, x)
    gl = jax.grad(lambda e, x: app(e, x)["loss"], (0, 1))(e, x)
    return gq, gl
  gq, gl = ctx.run(grads, e, x, c, st if which == "ema" else {})
  ctx.eq("straight-through gradient to the inputs", gq[1], c)
  ctx.eq("no gradient of the output to the codes", gq[0], ctx.run(lambda e: e * 0., e))
  def ref(e, x):
    idx, _ = nearest(x, e)
    oh = jnp.stack([(idx == j).astype(jnp.float32) for j in range(k)], -1)
    q = sum(oh[..., j:j + 1] * e[:, j] for j in range(k))
    n = x.size
    ge = jnp.stack([jnp.sum((oh[..., j:j + 1] * (q - x)).reshape(-1, d), 0) for j in range(k)], -1) * 2 / n
    return (ge if which == "vq" else ge * 0.), cost * 2 * (x - q) / n
  r = ctx.run(ref, e, x)
  ctx.eq("codebook loss gradient", gl[0], r[0])
  ctx.eq("commitment loss gradient", gl[1], r[1])


def ema_ref(x, st, cost, decay, eps, train, wrap=lambda v: v):
  e = st[EMA]["embeddings"]
  d, k = e.shape
  out = ref_forward(x, e, cost, True)
  if not train:
    return out, st
  new = {m: dict(v) for m, v in st.items()}
  oh = out["encodings"]
  flat = x.reshape(-1, d)
  def upd(n, v):
    o = st[f"{EMA}/~/{n}"]
    c = o.get("counter", jnp.zeros((), jnp.int32)) + 1
    h = o["hidden"] * decay + v * (1 - decay)
    a = h / (1 - jnp.power(jnp.float32(decay), c))
    new[f"{EMA}/~/{n}"] = dict(hidden=h, counter=c, average=a)
    return a
  cs = upd("ema_cluster_size", jnp.sum(oh, 0))
  dw = upd("ema_dw", jnp.stack([jnp.sum(oh[:, j:j + 1] * flat, 0) for j in range(k)], -1))
  n = jnp.sum(cs)
  cs = (cs + eps) / (n + k * eps) * n
  new[EMA] = {"embeddings": dw / cs}
  return out, new


def ema_state(ctx, d, k, counter=True):
  st = {EMA: {"embeddings": ctx.real("e", (d, k))}}
  for n, sh in (("ema_cluster_size", (k,)), ("ema_dw", (d, k))):
    st[f"{EMA}/~/{n}"] = {"hidden": ctx.real(n + "h", sh, lo=0.125 if n != "ema_dw" else None), "average": ctx.real(n + "a", sh),
                          "counter": ctx.integer(n + "c", (), 0, 3)}
  return st


@harness("C24", configs=product(size=(((1,), 1, 2), ((2,), 1, 2), ((1,), 2, 2), ((1, 1), 1, 3), ((), 1, 2)), train=(True, False)),
         bounds="one step from any state (counters 0..3, positive cluster sizes): up to 2 vectors, 2..3 codes; decay 3/4, epsilon 1e-5 and 1/2", budget=120)
def ema_step(ctx, size, train):
  lead, d, k = size
  if train and k > 2:
    return ctx.check("three codes: evaluation only", True)
  cost, decay = 0.25, 0.75
  eps = ctx.choice("eps", [None, .5])
  kw = {} if eps is None else dict(epsilon=eps)
  x, st = ctx.real("x", lead + (d,)), ema_state(ctx, d, k)
  f = hk.transform_with_state(lambda x: hk.nets.VectorQuantizerEMA(d, k, cost, decay, **kw)(x, train))
  out, new = ctx.run(lambda s, x: f.apply({}, s, None, x), st, x)
  rout, rnew = ctx.run(lambda s, x: ema_ref(x, s, cost, decay, eps or 1e-5, train), st, x)
  outputs(ctx, out, rout, x, st[EMA]["embeddings"])
  if not train:
    ctx.eq("evaluation changes nothing", new, st)
    return
  ctx.eq("running sums", {m: v for m, v in new.items() if m != EMA}, {m: v for m, v in rnew.items() if m != EMA})
  ctx.eq("codes are the smoothed running means", new[EMA], rnew[EMA])


@harness("C24", bounds="init, then 1..2 training steps on one vector, then evaluation; 2 codes of dimension 1; decay 1/2", budget=120)
def ema_history(ctx):
  n = ctx.choice("n", [1, 2])
  xs = [ctx.real(f"x{i}", (1, 1)) for i in range(n + 1)]
  f = hk.transform_with_state(lambda x, t: hk.nets.VectorQuantizerEMA(1, 2, .25, .5, epsilon=.5)(x, t))
  p, s = ctx.run(lambda k, x: f.init(k, x, False), ctx.key("k"), xs[0])
  ctx.check("no parameters", not dict(p))
  for m, sh in (("ema_cluster_size", (2,)), ("ema_dw", (1, 2))):
    for v in ("hidden", "average"):
      ctx.eq("averages start at zero", s[f"{EMA}/~/{m}"][v], np.zeros(sh, np.float32))
  s = {k: dict(v) for k, v in s.items()}
  s[EMA]["embeddings"] = ctx.real("e0", (1, 2))
  for m in ("ema_cluster_size", "ema_dw"):
    s[f"{EMA}/~/{m}"]["counter"] = np.zeros((), np.int32)
  r = s
  for i in range(n):
    o, s = ctx.run(lambda s, x: f.apply({}, s, None, x, True), s, xs[i])
    ro, r = ctx.run(lambda s, x: ema_ref(x, s, .25, .5, .5, True), r, xs[i])
    ctx.eq("quantised", o["quantize"], ro["quantize"])
    ctx.eq("state", {m: v for m, v in s.items()}, r)
  o, s2 = ctx.run(lambda s, x: f.apply({}, s, None, x, False), s, xs[n])
  ctx.eq("evaluation changes nothing", s2, s)


@harness("C24", configs=product(which=("vq", "ema")), bounds="quantize(indices): every index; argument errors; decay outside [0, 1]")
def lookup(ctx, which):
  d, k = 2, 3
  e = ctx.real("e", (d, k))
  i = ctx.integer("i", (2, 1), 0, k - 1)
  if which == "vq":
    f = hk.transform(lambda i: hk.nets.VectorQuantizer(d, k, .25).quantize(i))
    out = ctx.run(lambda e, i: f.apply({VQ: {"embeddings": e}}, None, i), e, i)
  else:
    f = hk.transform_with_state(lambda i: hk.nets.VectorQuantizerEMA(d, k, .25, .5).quantize(i))
    st = ema_state_with(ctx, e, d, k)
    out, s2 = ctx.run(lambda s, i: f.apply({}, s, None, i), st, i)
    ctx.eq("state", s2, st)
    for bad in (-.5, 1.5):
      ctx.raises("decay range", lambda: init_shapes(hk.transform_with_state(lambda i: hk.nets.VectorQuantizerEMA(d, k, .25, bad).quantize(i)), i), ValueError)
  ctx.eq("row of the codebook", out, ctx.run(lambda e, i: sum((i == j).astype(jnp.float32)[..., None] * e[:, j] for j in range(k)), e, i))


def ema_state_with(ctx, e, d, k):
  return {EMA: {"embeddings": e}, EMA + "/~/ema_cluster_size": {"hidden": ctx.real("h", (k,)), "average": ctx.real("a", (k,))},
          EMA + "/~/ema_dw": {"hidden": ctx.real("h2", (d, k)), "average": ctx.real("a2", (d, k))}}


@harness("C24", configs=product(train=(True, False)), bounds="2 replicas with 1 vector each, 2 codes: statistics and perplexity summed across replicas; decay 1/2", budget=120)
def cross_replica(ctx, train):
  x, st = ctx.real("x", (2, 1, 1)), ema_state(ctx, 1, 2)
  mk = lambda ax: hk.transform_with_state(lambda x: hk.nets.VectorQuantizerEMA(1, 2, .25, .5, epsilon=.5, cross_replica_axis=ax)(x, train))
  f, g = mk("i"), mk(None)
  out, new = ctx.run(lambda s, x: jax.vmap(lambda x: f.apply({}, s, None, x), axis_name="i")(x), st, x)
  ro, rn = ctx.run(lambda s, x: ema_ref(x.reshape(2, 1), s, .25, .5, .5, train), st, x)
  for r in range(2):
    at = lambda t: ctx.run(lambda t: jax.tree_util.tree_map(lambda v: v[r], t), t)
    ctx.eq("global perplexity", at(out["perplexity"]), ro["perplexity"])
    ctx.eq("global statistics", at(new), rn)
