"""C17: Linear, Bias, MLP, Sequential, Embed, dropout."""
from checks.common import *


@harness("C17", configs=product(b=(True, False), lead=((), (2,), (2, 2), (0,))),
         bounds="inputs 3 wide, leading shapes (), (2,), (2,2), (0,); outputs 2; all values")
def linear(ctx, b, lead):
  x = ctx.real("x", lead + (3,))
  w = ctx.real("w", (3, 2))
  params = {"linear": {"w": w}}
  if b:
    params["linear"]["b"] = bb = ctx.real("b", (2,))
  f = hk.transform(lambda x: hk.Linear(2, with_bias=b)(x))
  check_shapes(ctx, "linear params", init_shapes(f, x),
               {"linear": {"w": (3, 2), **({"b": (2,)} if b else {})}})
  out = ctx.run(f.apply, params, None, x)
  ref = ctx.run(lambda x, w: jnp.einsum("...i,io->...o", x, w), x, w)
  if b:
    ref = ctx.run(lambda r, b: r + b, ref, bb)
  ctx.eq("linear = x@w+b", out, ref)


@harness("C17", bounds="fan-in 4; all keys")
def linear_init(ctx):
  key = ctx.key("k")
  x = ctx.real("x", (1, 4))
  f = hk.transform(lambda x: hk.Linear(2)(x))
  p = ctx.run(f.init, key, x)
  ctx.eq("bias starts at zero", p["linear"]["b"], np.zeros(2, np.float32))
  ctx.check("default weights within two stddev (1/sqrt(fan_in))",
            ctx.le(p["linear"]["w"], np.full((4, 2), 1.0, np.float32)))
  ctx.check("default weights within two stddev (1/sqrt(fan_in))",
            ctx.ge(p["linear"]["w"], np.full((4, 2), -1.0, np.float32)))
  g = hk.transform(lambda x: hk.Linear(2, w_init=lambda s, d: jnp.full(s, 7., d), b_init=lambda s, d: jnp.full(s, 3., d))(x))
  q = ctx.run(g.init, key, x)
  ctx.eq("custom initializers", q, {"linear": {"w": np.full((4, 2), 7, np.float32), "b": np.full((2,), 3, np.float32)}})
  ctx.raises("scalar input rejected", lambda: init_shapes(f, jax.ShapeDtypeStruct((), np.float32)), ValueError)


def _bias_ref_shape(shape, dims):
  if dims is None:
    return shape[1:]
  if not dims:
    return ()
  n = len(shape)
  s = [shape[d] if d in [k % n for k in dims] else 1 for d in range(n)]
  first = min(k % n for k in dims)
  return tuple(s[first:])


@harness("C17", configs=product(shape=((2, 3), (2, 3, 2), (1, 2, 3, 2)),
                                dims=(None, (), (-1,), (1,), (2,), (1, 2), (-2,), (3, 1), (1, -1)), mult=(None, 1, 2)),
         bounds="inputs of rank 2..4, every documented bias_dims pattern, scalar and tensor multipliers")
def bias(ctx, shape, dims, mult):
  n = len(shape)
  if dims and any(d >= n or d < -n + 1 for d in dims):
    x = ctx.real("x", shape)
    if any(d >= n for d in dims):
      f = hk.transform(lambda x: hk.Bias(bias_dims=dims)(x))
      ctx.raises("out of range bias dim rejected", lambda: init_shapes(f, x), ValueError)
    else:
      ctx.check("skip", True)
    return
  x = ctx.real("x", shape)
  bs = _bias_ref_shape(shape, dims)
  b = ctx.real("b", bs)
  m = None if mult is None else (ctx.real("m") if mult == 1 else ctx.real("m", shape))
  f = hk.transform(lambda x, m: hk.Bias(bias_dims=dims)(x, m))
  check_shapes(ctx, "bias shape", init_shapes(hk.transform(lambda x: hk.Bias(bias_dims=dims)(x)), x), {"bias": {"b": bs}})
  if mult is None:
    out = ctx.run(lambda p, x: f.apply(p, None, x, None), {"bias": {"b": b}}, x)
    ref = ctx.run(lambda x, b: x + b, x, b)
  else:
    out = ctx.run(lambda p, x, m: f.apply(p, None, x, m), {"bias": {"b": b}}, x, m)
    ref = ctx.run(lambda x, b, m: x + jnp.broadcast_to(b, x.shape) * m, x, b, m)
  ctx.eq("bias", out, ref)


@harness("C17", bounds="rank 2..4")
def bias_errors(ctx):
  x = ctx.real("x", (2, 3, 2))
  ctx.raises("batch dimension rejected", lambda: init_shapes(hk.transform(lambda x: hk.Bias(bias_dims=[0])(x)), x), ValueError)
  ctx.raises("batch dimension rejected (negative)", lambda: init_shapes(hk.transform(lambda x: hk.Bias(bias_dims=[-3])(x)), x), ValueError)
  ctx.raises("wrong output_size rejected", lambda: init_shapes(hk.transform(lambda x: hk.Bias(output_size=(3, 3))(x)), x), ValueError)
  check_shapes(ctx, "right output_size accepted", init_shapes(hk.transform(lambda x: hk.Bias(output_size=(3, 2))(x)), x), {"bias": {"b": (3, 2)}})


@harness("C17", configs=product(sizes=((2,), (3, 2), (2, 3, 2)), bias_=(True, False), final=(True, False), drop=(False, True), act=("relu", "tanh")),
         bounds="1-3 layers of width 2-3, 2 examples; dropout with any key and rate 0.5")
def mlp(ctx, sizes, bias_, final, drop, act):
  x = ctx.real("x", (2, 2))
  actf = dict(relu=jax.nn.relu, tanh=jnp.tanh)[act]
  kw = {} if act == "relu" else dict(activation=actf)
  f = hk.transform(lambda x, k: hk.nets.MLP(sizes, with_bias=bias_, activate_final=final, **kw)(
      x, *((0.5, k) if drop else ())))
  want, ins = {}, 2
  for i, s in enumerate(sizes):
    want[f"mlp/~/linear_{i}"] = {"w": (ins, s), **({"b": (s,)} if bias_ else {})}
    ins = s
  key = ctx.key("k")
  check_shapes(ctx, "mlp params", init_shapes(f, x, key), want)
  params = {m: {n: ctx.real(f"{m}/{n}", s) for n, s in b.items()} for m, b in want.items()}
  out = ctx.run(lambda p, x, k: f.apply(p, None, x, k), params, x, key)
  def ref(p, x, k):
    for i in range(len(sizes)):
      q = p[f"mlp/~/linear_{i}"]
      x = x @ q["w"] + (q["b"] if bias_ else 0.)
      if i < len(sizes) - 1 or final:
        if drop:
          k, sub = jax.random.split(k)
          x = jnp.where(jax.random.bernoulli(sub, 0.5, x.shape), x / 0.5, 0.)
        x = actf(x)
    return x
  ctx.eq("mlp", out, ctx.run(ref, params, x, key))


@harness("C17", configs=product(final=(True, False, None), orig=(True, False), bias_=(True, False)), bounds="3-layer MLP reversed")
def mlp_reverse(ctx, final, orig, bias_):
  x = ctx.real("x", (1, 2))
  def net(x):
    m = hk.nets.MLP([3, 1, 4], activate_final=orig, with_bias=bias_, name="m")
    y = m(x)
    r = m.reverse(activate_final=final)
    z = r(y)
    return y, z, r.name
  names = []
  f = hk.transform(lambda x: (lambda t: (names.append(t[2]), t[:2])[1])(net(x)))
  shp = shape_spec(init_shapes(f, x))
  want = {}
  for pre, sizes in (("m", [2, 3, 1, 4]), ("m/~reverse/m_reversed", [4, 1, 3, 2])):
    for i in range(3):
      want[f"{pre}/~/linear_{i}"] = {"w": (sizes[i], sizes[i + 1]), **({"b": (sizes[i + 1],)} if bias_ else {})}
  ctx.check(f"reverse params {shp}", shp == want)
  params = {m: {n: ctx.real(f"{m}/{n}", s) for n, s in b.items()} for m, b in want.items()}
  y, z = ctx.run(lambda p, x: f.apply(p, None, x), params, x)
  fin = orig if final is None else final
  def ref(p, y):
    for i in range(3):
      q = p[f"m/~reverse/m_reversed/~/linear_{i}"]
      y = y @ q["w"] + (q["b"] if bias_ else 0.)
      if i < 2 or fin:
        y = jax.nn.relu(y)
    return y
  ctx.eq("reverse", z, ctx.run(ref, params, y))


@harness("C17", bounds="argument errors")
def mlp_errors(ctx):
  x = ctx.real("x", (1, 2))
  k = ctx.key("k")
  sx = sds(x)
  ctx.raises("b_init without bias", lambda: init_shapes(hk.transform(lambda x: hk.nets.MLP([1], with_bias=False, b_init=jnp.ones)(x)), x), ValueError)
  ctx.raises("dropout without key", lambda: init_shapes(hk.transform(lambda x: hk.nets.MLP([1])(x, 0.5)), x), ValueError)
  ctx.raises("key without dropout", lambda: init_shapes(hk.transform(lambda x, k: hk.nets.MLP([1])(x, rng=k)), x, k), ValueError)


@harness("C17", configs=product(n=(1, 2, 3)), bounds="up to 3 layers, extra args for the first")
def sequential(ctx, n):
  x, y, z = ctx.real("x", (2,)), ctx.real("y", (2,)), ctx.real("z", (2,))
  layers = [lambda x, y, z=0.: x * y + 2 * z, lambda a: a * a + 1., lambda a: a - 3.][:n]
  f = hk.transform(lambda x, y, z: hk.Sequential(layers)(x, y, z=z))
  g = hk.transform(lambda x, y, z: hk.Sequential(iter(layers))(x, y, z=z))
  def ref(x, y, z):
    out = layers[0](x, y, z=z)
    for l in layers[1:]:
      out = l(out)
    return out
  r = ctx.run(ref, x, y, z)
  ctx.eq("sequential", ctx.run(lambda *a: f.apply({}, None, *a), x, y, z), r)
  ctx.eq("sequential over an iterator", ctx.run(lambda *a: g.apply({}, None, *a), x, y, z), r)


@harness("C17", configs=product(style=("ARRAY_INDEX", "ONE_HOT", "one_hot", hk.EmbedLookupStyle.ONE_HOT, hk.EmbedLookupStyle.ARRAY_INDEX),
                                over=(None, "ONE_HOT", "array_index"), shape=((), (2,), (2, 2))),
         bounds="vocabulary 3, dimension 2, ids of rank 0..2, all ids and tables")
def embed(ctx, style, over, shape):
  ids = ctx.integer("ids", shape, 0, 2)
  e = ctx.real("e", (3, 2))
  f = hk.transform(lambda i: hk.Embed(vocab_size=3, embed_dim=2, lookup_style=style)(i, *(() if over is None else (over,))))
  check_shapes(ctx, "embed params", init_shapes(f, ids), {"embed": {"embeddings": (3, 2)}})
  out = ctx.run(lambda p, i: f.apply(p, None, i), {"embed": {"embeddings": e}}, ids)
  def ref(e, i):
    r = jnp.broadcast_to(e[0], i.shape + (2,))
    for v in (1, 2):
      r = jnp.where((i == v)[..., None], e[v], r)
    return r
  ctx.eq("row lookup", out, ctx.run(ref, e, ids))


@harness("C17", configs=product(style=("ARRAY_INDEX", "ONE_HOT")), bounds="supplied 3x2 matrix")
def embed_matrix(ctx, style):
  e = ctx.real("e", (3, 2))
  ids = ctx.integer("ids", (2,), 0, 2)
  for kw in ({}, dict(vocab_size=3), dict(embed_dim=2)):
    f = hk.transform(lambda e, i: hk.Embed(embedding_matrix=e, lookup_style=style, **kw)(i))
    p = ctx.run(lambda e, i: f.init(None, e, i), e, ids)
    ctx.eq("initial table is the given matrix", p, {"embed": {"embeddings": e}})
  ctx.raises("wrong vocab", lambda: init_shapes(hk.transform(lambda e, i: hk.Embed(embedding_matrix=e, vocab_size=4)(i)), e, ids), ValueError)
  ctx.raises("wrong dim", lambda: init_shapes(hk.transform(lambda e, i: hk.Embed(embedding_matrix=e, embed_dim=4)(i)), e, ids), ValueError)
  ctx.raises("missing sizes", lambda: init_shapes(hk.transform(lambda i: hk.Embed(vocab_size=4)(i)), ids), ValueError)
  ctx.raises("float ids", lambda: init_shapes(hk.transform(lambda i: hk.Embed(2, 2)(i)), e), ValueError)


@harness("C17", configs=product(rate=(0.25, 0.5, 0.75), shape=((3,), (2, 2))), bounds="rates .25 .5 .75, up to 4 elements, all keys and values")
def dropout(ctx, rate, shape):
  k = ctx.key("k")
  x = ctx.real("x", shape)
  out = ctx.run(lambda k, x: hk.dropout(k, rate, x), k, x)
  kept = ctx.run(lambda x: x / (1 - rate), x)
  ref = ctx.run(lambda k, x: jnp.where(jax.random.bernoulli(k, 1 - rate, x.shape), x / (1 - rate), 0.), k, x)
  if ctx.sym:
    ctx.check("each element zero or scaled", [T.or_(T.eq(o, 0), T.eq(T.norm(T.sub(o, s)), 0)) for o, s in zip(out.a.flat, kept.a.flat)])
  ctx.eq("dropout", out, ref)


@harness("C17", bounds="rate 0, invalid rates -1, -0.5, 1, 1.5, 2")
def dropout_edges(ctx):
  k = ctx.key("k")
  x = ctx.real("x", (3,))
  ctx.eq("rate 0 is the identity", ctx.run(lambda k, x: hk.dropout(k, 0., x), k, x), x)
  for r in (-1., -0.5, 1., 1.5, 2.):
    ctx.raises(f"rate {r} rejected", lambda: ctx.run(lambda k, x: hk.dropout(k, r, x), k, x), ValueError)


@harness("C17", configs=product(n=(2, 3)), bounds="class counts 2, 3, ids in range")
def one_hot(ctx, n):
  ids = ctx.integer("ids", (2,), 0, n - 1)
  for dt in (jnp.float32, jnp.int32):
    out = ctx.run(lambda i: hk.one_hot(i, n, dt), ids)
    ctx.eq("one_hot", out, ctx.run(lambda i: (i[:, None] == jnp.arange(n)[None]).astype(dt), ids))


@harness("C17", configs=product(shape=((3,), (2, 3)), n=(1, 2)), bounds="3 categories, 1-2 samples, all logits and keys")
def multinomial(ctx, shape, n):
  k = ctx.key("k")
  lg = ctx.real("l", shape)
  out = ctx.run(lambda k, l: hk.multinomial(k, l, n), k, lg)
  ctx.check(f"sample shape {out.shape}", tuple(out.shape) == shape[:-1] + (n,))
  ctx.check("classes in range", ctx.ge(out, np.zeros((), np.int32)))
  ctx.check("classes in range", ctx.le(out, np.full((), 2, np.int32)))
  def ref(k, l):
    c = jnp.cumsum(jax.nn.softmax(l), -1)
    u = jax.random.uniform(k, (l.shape[:-1] if n == 1 else (n,) + l.shape[:-1]) + (1,))
    r = jnp.argmin((u > c), -1)
    return r[..., None] if n == 1 else jnp.transpose(r)
  ctx.eq("inverse-cdf sample", out, ctx.run(ref, k, lg))
  ctx.raises("rank 0 logits", lambda: ctx.run(lambda k: hk.multinomial(k, jnp.zeros(()), n), k), ValueError)
  ctx.raises("rank 3 logits", lambda: ctx.run(lambda k: hk.multinomial(k, jnp.zeros((1, 1, 2)), n), k), ValueError)
