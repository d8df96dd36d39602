"""C22: multi-head attention."""
from checks.common import *

PRE = "multi_head_attention"


def setup(ctx, heads, ks, vs, ms, b, t, tk, d):
  kw = dict(num_heads=heads, key_size=ks, w_init_scale=1.)
  if vs:
    kw["value_size"] = vs
  if ms:
    kw["model_size"] = ms
  vsz, msz = vs or ks, ms or ks * heads
  q, k, v = ctx.real("q", (b, t, d[0])), ctx.real("k", (b, tk, d[1])), ctx.real("v", (b, tk, d[2]))
  spec = {PRE + "/query": {"w": (d[0], heads * ks), "b": (heads * ks,)},
          PRE + "/key": {"w": (d[1], heads * ks), "b": (heads * ks,)},
          PRE + "/value": {"w": (d[2], heads * vsz), "b": (heads * vsz,)},
          PRE + "/linear": {"w": (heads * vsz, msz), "b": (msz,)}}
  p = {m: {n: ctx.real(f"{m[21:]}.{n}", s) for n, s in e.items()} for m, e in spec.items()}
  return kw, q, k, v, spec, p


def reference(p, q, k, v, heads, ks, vs, keep=None):
  """keep: nested list [b][h][t] of lists of key positions that count."""
  lin = lambda n, x: x @ p[PRE + "/" + n]["w"] + p[PRE + "/" + n]["b"]
  Q, K, V = lin("query", q), lin("key", k), lin("value", v)
  b, t, tk = q.shape[0], q.shape[1], k.shape[1]
  rows = []
  for i in range(b):
    for j in range(t):
      parts = []
      for h in range(heads):
        pos = list(range(tk)) if keep is None else keep[i][h][j]
        qv = Q[i, j, h * ks:(h + 1) * ks]
        ls = jnp.stack([jnp.sum(qv * K[i, n, h * ks:(h + 1) * ks]) for n in pos]) / np.sqrt(ks).astype(np.float32)
        w = jax.nn.softmax(ls)
        parts.append(sum(w[a] * V[i, n, h * vs:(h + 1) * vs] for a, n in enumerate(pos)))
      rows.append(jnp.concatenate(parts))
  out = jnp.stack(rows).reshape(b, t, heads * vs)
  return lin("linear", out)


@harness("C22", configs=product(heads=(1, 2), ks=(1, 2, 4), vs=(None, 1, 3), ms=(None, 2), size=((1, 1, 2), (2, 2, 2), (1, 2, 3))),
         bounds="1..2 heads, key size 1..4, value size 1..3, batch 1..2, up to 2 queries and 3 keys, feature sizes 1..2; all inputs and parameters", budget=90)
def attention(ctx, heads, ks, vs, ms, size):
  b, t, tk = size
  d = (2, 1, 1) if ks < 4 else (1, 1, 2)
  kw, q, k, v, spec, p = setup(ctx, heads, ks, vs, ms, b, t, tk, d)
  f = hk.transform(lambda q, k, v: hk.MultiHeadAttention(**kw)(q, k, v))
  check_shapes(ctx, "parameters", init_shapes(f, q, k, v), spec)
  out = ctx.run(lambda p, *a: f.apply(p, None, *a), p, q, k, v)
  ctx.eq("attention equation", out, ctx.run(lambda p, q, k, v: reference(p, q, k, v, heads, ks, vs or ks), p, q, k, v))


@harness("C22", configs=product(heads=(1, 2), shape=("btT", "b1tT", "bhtT", "11tT", "b11T"), size=((1, 2, 2), (2, 1, 2), (1, 1, 3))),
         bounds="every 0/1 mask with at least one key per query, masks of all broadcastable shapes; logits below 1e8; 1..2 heads, up to 3 keys", budget=120)
def masked(ctx, heads, shape, size):
  b, t, tk = size
  ks = 1
  kw, q, k, v, spec, p = setup(ctx, heads, ks, None, None, b, t, tk, (1, 1, 1))
  dims = {"b": b, "h": heads, "t": t, "T": tk, "1": 1}
  msh = tuple(dims[c] for c in shape)
  if shape == "btT":
    # documented layout has a head axis; without it broadcasting is only meaningful for one head/batch
    msh = (1, t, tk)
  cells = msh[:-1]
  ctx.dominate(10 ** 8)
  sub = [[i for i in range(tk) if m >> i & 1] for m in range(1, 2 ** tk)]
  n = int(np.prod(cells))
  if n > 4:
    return ctx.check("more than 4 mask rows: outside the bound", True)
  rows = [ctx.choice(f"mask{i}", sub) for i in range(n)]
  mask = np.zeros((n, tk), np.float32)
  for i, r in enumerate(rows):
    mask[i, r] = 1
  mask = mask.reshape(msh)
  mtype = ctx.choice("mask_dtype", [np.float32, np.bool_, np.int32]) if n == 1 else np.float32
  full = np.broadcast_to(mask, (b, heads, t, tk))
  keep = [[[[x for x in range(tk) if full[i, h, j, x]] for j in range(t)] for h in range(heads)] for i in range(b)]
  f = hk.transform(lambda q, k, v: hk.MultiHeadAttention(**kw)(q, k, v, jnp.asarray(mask.astype(mtype))))
  out = ctx.run(lambda p, *a: f.apply(p, None, *a), p, q, k, v)
  ctx.eq("masked attention uses the unmasked keys only", out, ctx.run(lambda p, q, k, v: reference(p, q, k, v, heads, ks, ks, keep), p, q, k, v))


@harness("C22", configs=product(i=(0, 1)), bounds="batch 2: output of one example is independent of the other's inputs")
def batch_independent(ctx, i):
  kw, q, k, v, spec, p = setup(ctx, 2, 1, 1, 1, 2, 2, 2, (1, 1, 1))
  f = hk.transform(lambda q, k, v: hk.MultiHeadAttention(**kw)(q, k, v))
  other = [ctx.real("o" + n, (2, 2, 1)) for n in "qkv"]
  mix = ctx.run(lambda *a: tuple(jnp.stack([x[j] if j == i else y[j] for j in range(2)]) for x, y in zip(a[:3], a[3:])), q, k, v, *other)
  run = lambda a: ctx.run(lambda p, *a: f.apply(p, None, *a), p, *a)
  ctx.eq("example unaffected", run(mix)[i], run((q, k, v))[i])
