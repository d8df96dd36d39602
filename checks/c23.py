"""C23: initializers."""
from checks.common import *

I = hk.initializers
SH = [(), (1,), (3,), (2, 3), (3, 2), (1, 4), (2, 1, 3), (3, 2, 2), (1, 2, 3, 1), (2, 2, 1, 4), (4, 1), (2, 2, 1, 1, 2), (2, 1, 1, 3, 1, 2)]


def fans(shape):
  if len(shape) == 0:
    return 1, 1
  if len(shape) == 1:
    return shape[0], shape[0]
  r = 1
  for d in shape[:-2]:
    r *= d
  return r * shape[-2], r * shape[-1]


def sample(ctx, key, fn, n=1):
  """fn(k) with the key that the first request of a fresh call gets."""
  g = hk.transform(lambda: fn(hk.next_rng_key()))
  return ctx.run(lambda k: g.apply({}, k), key)


def call(ctx, key, init, shape, dtype=jnp.float32, *args):
  mk = init if args else (lambda: init)
  f = hk.transform(lambda *a: mk(*a)(shape, dtype))
  return ctx.run(lambda k, *a: f.apply({}, k, *a), key, *args)


def shaped(ctx, out, shape, dtype):
  ctx.check(f"shape {out.shape}", tuple(out.shape) == tuple(shape))
  ctx.check(f"dtype {out.dtype}", np.dtype(out.dtype) == np.dtype(dtype))


@harness("C23", configs=product(kind=("normal", "truncated", "uniform")), bounds="shapes of rank 0..5, up to 16 elements; any key, mean, stddev, limits")
def plain(ctx, kind):
  shape = ctx.choice("shape", SH)
  key = ctx.key("k")
  a, b = ctx.real("a"), ctx.real("b")
  if kind == "normal":
    out = call(ctx, key, lambda s, m: I.RandomNormal(stddev=s, mean=m), shape, jnp.float32, a, b)
    z = sample(ctx, key, lambda k: jax.random.normal(k, shape, jnp.float32))
    ctx.eq("mean + stddev * normal", out, ctx.run(lambda a, b, z: b + a * z, a, b, z))
  elif kind == "truncated":
    out = call(ctx, key, lambda s, m: I.TruncatedNormal(stddev=s, mean=m), shape, jnp.float32, a, b)
    z = sample(ctx, key, lambda k: jax.random.truncated_normal(k, -2., 2., shape, jnp.float32))
    ctx.eq("mean + stddev * truncated normal", out, ctx.run(lambda a, b, z: b + a * z, a, b, z))
  else:
    ctx.assume(ctx.lt(a, b))
    out = call(ctx, key, lambda lo, hi: I.RandomUniform(lo, hi), shape, jnp.float32, a, b)
    z = sample(ctx, key, lambda k: jax.random.uniform(k, shape, jnp.float32, *ZO))
    ctx.eq("uniform between the limits", out, ctx.run(lambda a, b, z: a + (b - a) * z, a, b, z))
  shaped(ctx, out, shape, jnp.float32)


ZO = (0., 1.)


@harness("C23", configs=product(kind=("truncated", "uniform", "uniform_default", "truncated_default", "scaling", "vs_uniform", "vs_truncated")),
         bounds="ranges for any key: uniform [a, b) for any limits, truncated normals within 2 stddev, scaling initializers within their documented limit")
def ranges(ctx, kind):
  shape = ctx.choice("shape", [(), (2,), (2, 2), (3, 2, 1)])
  key = ctx.key("k")
  if kind == "uniform":
    a, b = ctx.real("a", (), -8, 8), ctx.real("b", (), -8, 8)
    ctx.assume(ctx.lt(a, b))
    out = call(ctx, key, lambda lo, hi: I.RandomUniform(lo, hi), shape, jnp.float32, a, b)
    lo, hi = a, b
  elif kind == "truncated":
    s, m = ctx.real("s", (), 0.125, 8), ctx.real("m", (), -8, 8)
    out = call(ctx, key, lambda s, m: I.TruncatedNormal(s, m), shape, jnp.float32, s, m)
    lo, hi = ctx.run(lambda s, m: (m - 2 * s, m + 2 * s), s, m)
  else:
    init, lim = {
        "uniform_default": (I.RandomUniform(), (0., 1.)), "truncated_default": (I.TruncatedNormal(), (-2., 2.)),
        "scaling": (I.UniformScaling(2.), None), "vs_uniform": (I.VarianceScaling(2., "fan_out", "uniform"), None),
        "vs_truncated": (I.VarianceScaling(2., "fan_avg"), None)}[kind]
    if kind == "scaling":
      l = np.sqrt(3 / np.prod(shape[:-1])) * 2.
      lim = (-l, l)
    elif kind == "vs_uniform":
      l = np.sqrt(3 * 2. / fans(shape)[1])
      lim = (-l, l)
    elif kind == "vs_truncated":
      l = 2 * np.sqrt(2. / (sum(fans(shape)) / 2)) / .87962566103423978
      lim = (-l, l)
    out = call(ctx, key, init, shape)
    e = 1e-5 * max(abs(lim[0]), abs(lim[1])) if lim not in ((0., 1.), (-2., 2.)) else 0.
    lo, hi = np.float32(lim[0] - e), np.float32(lim[1] + e)
  ctx.check("not below", ctx.ge(out, lo))
  ctx.check("below the limit", ctx.le(out, hi))


@harness("C23", configs=product(shape=SH, mode=("fan_in", "fan_out", "fan_avg", None), dist=("truncated_normal", "normal", "uniform", None, "UNIFORM")),
         bounds="all modes and distributions, shapes of rank 0..6; scales 1, 2, 3/4, 12; any key")
def variance_scaling(ctx, shape, mode, dist):
  scale = ctx.choice("scale", [None, 2., .75, 12.])
  kw = {k: v for k, v in (("scale", scale), ("mode", mode), ("distribution", dist)) if v is not None}
  key = ctx.key("k")
  out = call(ctx, key, I.VarianceScaling(**kw), shape)
  fi, fo = fans(shape)
  n = {"fan_in": fi, "fan_out": fo, "fan_avg": (fi + fo) / 2, None: fi}[mode]
  s = (1. if scale is None else scale) / n
  d = (dist or "truncated_normal").lower()
  if d == "truncated_normal":
    c = np.float32(np.sqrt(s) / np.asarray(.87962566103423978, np.float32))
    z = sample(ctx, key, lambda k: c * jax.random.truncated_normal(k, -2., 2., shape, jnp.float32))
  elif d == "normal":
    c = np.float32(np.sqrt(s))
    z = sample(ctx, key, lambda k: c * jax.random.normal(k, shape, jnp.float32))
  else:
    c = np.sqrt(3. * s)
    z = sample(ctx, key, lambda k: jax.random.uniform(k, shape, jnp.float32, -c, c))
  shaped(ctx, out, shape, jnp.float32)
  ctx.eq("samples scaled by the fan", out, z)


@harness("C23", bounds="UniformScaling on shapes of rank 1..5, scales 1, 2, 1/2; any key")
def uniform_scaling(ctx):
  shape = ctx.choice("shape", [s for s in SH if s])
  scale = ctx.choice("scale", [None, 2., .5])
  key = ctx.key("k")
  out = call(ctx, key, I.UniformScaling() if scale is None else I.UniformScaling(scale), shape)
  c = np.sqrt(3 / np.prod(shape[:-1])) * (scale or 1.)
  shaped(ctx, out, shape, jnp.float32)
  ctx.eq("uniform in sqrt(3/inputs)*scale", out, sample(ctx, key, lambda k: jax.random.uniform(k, shape, jnp.float32, -c, c)))


@harness("C23", configs=product(dtype=("float32", "int32")), bounds="scalar and array constants broadcast to rank 0..5 shapes, any values")
def constant(ctx, dtype):
  shape = ctx.choice("shape", SH)
  c = ctx.real("c") if dtype == "float32" else ctx.integer("c", (), -5, 5)
  out = call(ctx, None, lambda c: I.Constant(c), shape, jnp.dtype(dtype), c)
  ctx.eq("constant", out, ctx.run(lambda c: jnp.stack([c] * int(np.prod(shape))).reshape(shape), c))
  v = ctx.real("v", (3,))
  out = call(ctx, None, lambda v: I.Constant(v), (2, 3), jnp.float32, v)
  ctx.eq("array constant broadcast", out, ctx.run(lambda v: jnp.stack([v, v]), v))
  out = call(ctx, None, I.Constant(3), shape)
  shaped(ctx, out, shape, jnp.float32)
  ctx.eq("converted to the dtype", out, np.full(shape, 3, np.float32))


@harness("C23", bounds="Identity on shapes of rank 0..4 (square and not), any gain; ranks below 2 rejected")
def identity(ctx):
  shape = ctx.choice("shape", [s for s in SH if len(s) < 5] + [(2, 2), (3, 3), (2, 3, 3)])
  g = ctx.real("g")
  if len(shape) < 2:
    ctx.raises("rank below 2 rejected", lambda: I.Identity()(shape, jnp.float32), ValueError)
    return
  def ref(g):
    e = np.zeros(shape, np.float32)
    for i in np.ndindex(*shape):
      e[i] = float(i[-1] == i[-2])
    return g * e
  ctx.eq("gain times identity", ctx.run(lambda g: I.Identity(g)(shape, jnp.float32), g), ctx.run(ref, g))
  ctx.eq("default gain", ctx.run(lambda g: I.Identity()(shape, jnp.float32), g), ctx.run(ref, np.float32(1)))


@harness("C23", configs=product(shape=((2, 2), (3, 2), (2, 3), (2, 1, 2), (1, 3), (3, 1), (1, 2, 1, 3), (2, 1, 3, 1)), axis=(None, 0, 1)),
         bounds="Orthogonal on matrices and rank 3..4 shapes up to 6 elements for any key (QR itself assumed: Q'Q = I, R of full rank)", budget=90)
def orthogonal(ctx, shape, axis):
  scale = ctx.choice("scale", [None, 2.])
  key = ctx.key("k")
  kw = {k: v for k, v in (("scale", scale), ("axis", axis)) if v is not None}
  out = call(ctx, key, I.Orthogonal(**kw), shape)
  shaped(ctx, out, shape, jnp.float32)
  ax = -1 if axis is None else axis
  s2 = (scale or 1.) ** 2
  def gram(w):
    m = jnp.moveaxis(w, ax, 0).reshape(shape[ax], -1)
    return m @ m.T if m.shape[0] <= m.shape[1] else m.T @ m
  g = ctx.run(gram, out)
  ctx.eq("orthonormal along the smaller side", g, ctx.run(lambda _: np.eye(g.shape[0], dtype=np.float32) * np.float32(s2), ctx.real("d")))


@harness("C23", bounds="sequences of two initializers and one request: every random initializer takes exactly one key, the next in order; deterministic ones none")
def keys(ctx):
  mk = {"normal": (lambda: I.RandomNormal(), lambda k, s: jax.random.normal(k, s, jnp.float32)),
        "trunc": (lambda: I.TruncatedNormal(), lambda k, s: jax.random.truncated_normal(k, -2., 2., s, jnp.float32)),
        "unif": (lambda: I.RandomUniform(), lambda k, s: jax.random.uniform(k, s, jnp.float32)),
        "const": (lambda: I.Constant(2.), None), "id": (lambda: I.Identity(), None)}
  ext = {"vs": lambda: I.VarianceScaling(), "vsn": lambda: I.VarianceScaling(distribution="normal"), "vsu": lambda: I.VarianceScaling(distribution="uniform"),
         "us": lambda: I.UniformScaling(), "orth": lambda: I.Orthogonal()}
  names = list(mk) + list(ext)
  a, b = ctx.choice("first", names), ctx.choice("second", names)
  get = lambda n: (mk[n][0] if n in mk else ext[n])()
  key = ctx.key("k")
  f = hk.transform(lambda: (get(a)((2, 2), jnp.float32), get(b)((2, 2), jnp.float32), hk.next_rng_key()))
  u, v, k = ctx.run(lambda k: f.apply({}, k), key)
  n = [x not in ("const", "id") for x in (a, b)]
  ks = ctx.run(lambda k: hk.transform(lambda: [hk.next_rng_key() for _ in range(3)]).apply({}, k), key)
  ctx.eq("number of keys taken", k, ks[sum(n)])
  for i, (nm, val) in enumerate(((a, u), (b, v))):
    if nm in mk and mk[nm][1]:
      ctx.eq("samples from the next key", val, ctx.run(lambda k: mk[nm][1](k, (2, 2)), ks[n[0] if i else 0]))


@harness("C23", bounds="constructor errors")
def errors(ctx):
  ctx.raises("negative scale", lambda: I.VarianceScaling(-1.), ValueError)
  ctx.raises("unknown mode", lambda: I.VarianceScaling(1., "fan"), ValueError)
  ctx.raises("unknown distribution", lambda: I.VarianceScaling(1., "fan_in", "cauchy"), ValueError)
  f = hk.transform(lambda: I.Orthogonal()((3,), jnp.float32))
  ctx.raises("orthogonal vector", lambda: jax.eval_shape(lambda k: f.apply({}, k), jax.ShapeDtypeStruct((2,), np.uint32)), ValueError)
  k = ctx.choice("init", ["RandomNormal", "TruncatedNormal", "RandomUniform", "VarianceScaling", "UniformScaling"])
  g = hk.transform(lambda: getattr(I, k)()((2, 2), jnp.float32))
  ctx.raises("no key given", lambda: g.apply({}, None), ValueError)
