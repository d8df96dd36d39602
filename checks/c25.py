"""C25: spectral normalisation."""
from checks.common import *

PRE = "spectral_norm"


def l2(v, eps):
  return v / jnp.sqrt(jnp.sum(v ** 2) + eps)


def ref(w, u, eps, n):
  """Textbook power iteration on the matrix over the last axis; vectors of rank 1."""
  m = w.reshape(-1, w.shape[-1])
  u = u.reshape(-1)
  for _ in range(n):
    v = l2(jnp.stack([jnp.sum(m[i] * u) for i in range(m.shape[0])]), eps)
    u = l2(jnp.stack([jnp.sum(m[:, j] * v) for j in range(m.shape[1])]), eps)
  sigma = sum(v[i] * m[i, j] * u[j] for i in range(m.shape[0]) for j in range(m.shape[1]))
  return w / sigma, u.reshape(1, -1), sigma


@harness("C25", configs=product(shape=((2, 2), (1, 2), (2, 1), (3, 2), (2, 1, 2), (1, 2, 1, 2), (1, 1)), n=(None, 1, 2, 3)),
         bounds="weights up to 6 elements of rank 2..4, 1..3 power iterations (3 up to 4 elements), eps 1e-4 and 1/2; any weights and stored vectors; update on/off", budget=120)
def step(ctx, shape, n):
  if n == 3 and int(np.prod(shape)) > 2 or n == 2 and int(np.prod(shape)) > 4:
    return ctx.check("outside the bound", True)
  eps = ctx.choice("eps", [None, .5])
  upd = ctx.choice("update", [None, True, False])
  kw = {k: v for k, v in (("eps", eps), ("n_steps", n)) if v is not None}
  call = {} if upd is None else dict(update_stats=upd)
  w, u, sg = ctx.real("w", shape), ctx.real("u", (1, shape[-1])), ctx.real("sigma")
  f = hk.transform_with_state(lambda w: hk.SpectralNorm(**kw)(w, **call))
  st = {PRE: {"u0": u, "sigma": sg}}
  out, new = ctx.run(lambda s, w: f.apply({}, s, None, w), st, w)
  y, u1, s1 = ctx.run(lambda w, u: ref(w, u, eps or 1e-4, n or 1), w, u)
  ctx.eq("weight divided by the estimate", out, y)
  ctx.eq("stored vector and estimate", new, st if upd is False else {PRE: {"u0": u1, "sigma": s1}})


@harness("C25", bounds="1..3 consecutive updates from init, weights changing in between; 1x2 and 2x2 weights; properties read the state", budget=120)
def history(ctx):
  n = ctx.choice("n", [1, 2, 3])
  shape = ctx.choice("shape", [(1, 2), (2, 2)]) if n < 3 else (1, 2)
  f = hk.transform_with_state(lambda w, t: hk.SpectralNorm(eps=.5)(w, update_stats=t))
  ws = [ctx.real(f"w{i}", shape) for i in range(n)]
  p, s = ctx.run(lambda k, w: f.init(k, w, True), ctx.key("k"), ws[0])
  ctx.check("no parameters", not dict(p))
  ctx.check("stored vector over the last axis", tuple(s[PRE]["u0"].shape) == (1, shape[-1]))
  u = ctx.real("u", (1, shape[-1]))
  s = {PRE: {"u0": u, "sigma": ctx.real("sg")}}
  def props():
    m = hk.SpectralNorm(eps=.5)
    return m.u0, m.sigma
  g = hk.transform_with_state(props)
  for i in range(n):
    o, s = ctx.run(lambda s, w: f.apply({}, s, None, w, True), s, ws[i])
    y, u, sg = ctx.run(lambda w, u: ref(w, u, .5, 1), ws[i], u)
    ctx.eq("normalised", o, y)
    r, s2 = ctx.run(lambda s: g.apply({}, s, None), s)
    ctx.eq("u0 and sigma properties", r, (u, sg))
    ctx.eq("reading changes nothing", s2, s)


@harness("C25", bounds="ranks 0, 1 rejected; rank above 2 rejected when asked; gradients do not flow through the stored vectors (2x2)", budget=120)
def errors_and_grad(ctx):
  mk = lambda **kw: hk.transform_with_state(lambda w: hk.SpectralNorm(eps=.5)(w, **kw))
  for sh in ((), (2,)):
    ctx.raises("rank below two rejected", lambda: init_shapes(mk(), jax.ShapeDtypeStruct(sh, np.float32)), ValueError)
  ctx.raises("rank above two rejected when asked", lambda: init_shapes(mk(error_on_non_matrix=True), jax.ShapeDtypeStruct((2, 1, 2), np.float32)), ValueError)
  init_shapes(mk(error_on_non_matrix=True), jax.ShapeDtypeStruct((2, 2), np.float32))
  w, u, c = ctx.real("w", (1, 2)), ctx.real("u", (1, 2)), ctx.real("c", (1, 2))
  f = mk()
  st = {PRE: {"u0": u, "sigma": ctx.real("s")}}
  g = ctx.run(lambda s, w, c: jax.grad(lambda w: jnp.sum(c * f.apply({}, s, None, w)[0]))(w), st, w, c)
  def rgrad(w, u, c):
    _, u1, sg = ref(w, u, .5, 1)
    v1 = l2(jnp.stack([jnp.sum(w[0] * u[0])]), .5)
    return c / sg - jnp.sum(c * w) / sg ** 2 * (v1[:, None] * u1)
  ctx.eq("gradient treats the singular vectors as constants", g, ctx.run(rgrad, w, u, c))


TREES = {"one": {"lin": {"w": (2, 2)}}, "two": {"a/~/lin": {"w": (1, 2)}, "a/lin": {"w": (1, 2), "v": (2, 1)}},
         "clash": {"a/b": {"c": (1, 2)}, "a__b": {"c": (1, 2)}}}


@harness("C25", configs=product(tree=tuple(TREES), rx=("", ".*w", "a/b", "lin", ".*lin/w", "b")), bounds="trees with up to 3 matrices (incl. names whose flattened forms clash), ignore patterns, 2 updating calls and a non-updating one", budget=120)
def params_tree(ctx, tree, rx):
  import re
  spec = TREES[tree]
  mk = lambda t: {m: {k: ctx.real(f"{t}.{m}.{k}", sh) for k, sh in d.items()} for m, d in spec.items()}
  f = hk.transform_with_state(lambda t, upd: hk.SNParamsTree(eps=.5, ignore_regex=rx)(t, update_stats=upd))
  t1, t2 = mk("a"), mk("b")
  _, s = ctx.run(lambda k, t: f.init(k, t, True), ctx.key("k"), t1)
  used = [(m, k) for m, d in spec.items() for k in d if not (rx and re.match(rx, f"{m}/{k}"))]
  ctx.check("one stored vector per matching parameter", sum("u0" in v for v in s.values()) == len(used) and len(s) == len(used))
  s = {m: {"u0": ctx.real(f"u.{m}", v["u0"].shape), "sigma": ctx.real(f"s.{m}")} for m, v in s.items()}
  o1, s1 = ctx.run(lambda s, t: f.apply({}, s, None, t, True), s, t1)
  o2, s2 = ctx.run(lambda s, t: f.apply({}, s, None, t, False), s1, t2)
  ctx.eq("not updating changes nothing", s2, s1)
  names = list(s)
  # which stored entry belongs to which parameter: by name of the module created for it, in order of creation
  def expect(t, st):
    out, new, cnt = {}, {}, {}
    for m, d in spec.items():
      out[m] = {}
      for k in d:
        if (m, k) not in used:
          out[m][k] = t[m][k]
          continue
        base = f"{m}/{k}".replace("/", "__").replace("~", "_tilde")
        i = cnt.get(base, 0)
        cnt[base] = i + 1
        key = [n for n in names if n.endswith("/" + base + (f"_{i}" if i else ""))][0]
        y, u1, sg = ref(t[m][k], st[key]["u0"], .5, 1)
        out[m][k], new[key] = y, {"u0": u1, "sigma": sg}
    return out, new
  r1, n1 = ctx.run(expect, t1, s)
  ctx.eq("every matching parameter normalised", o1, r1)
  ctx.eq("its own stored vector updated", s1, n1)
  r2, _ = ctx.run(expect, t2, s1)
  ctx.eq("without updating", o2, r2)
