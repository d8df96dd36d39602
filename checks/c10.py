"""C10: lifting a transformed function nests its parameters faithfully."""
from checks.common import *
from vlib.core import plain


class P(hk.Module):
  """A module with its own parameters, submodules of the given names and top-level requests."""

  def __init__(self, subs=(), name=None):
    super().__init__(name=name)
    self.subs = subs

  def __call__(self, x):
    x = x * hk.get_parameter("w", (), init=lambda s, d: VALS("w")) + hk.get_parameter("b", (2,), init=lambda s, d: VALS("b", 2))
    for s in self.subs:
      x = P(name=s)(x)
    return x

  def meth(self, x):
    return P(name="in_method")(x)


COUNT = None


def VALS(n, k=None):
  """Initial values are successive elements of one symbolic vector."""
  COUNT[1] += k or 1
  v = COUNT[0][COUNT[1] - (k or 1):COUNT[1]]
  return v if k else v[0]


INNER = {
    "one": lambda x: P(name="a")(x),
    "two": lambda x: P(name="b")(P(name="a")(x)),
    "same class": lambda x: P()(P()(x)),
    "nested": lambda x: P(subs=("a", "b"), name="a")(x),
    "lifted": lambda x: P(subs=("lifted",), name="lifted")(x),
    "top level": lambda x: x * hk.get_parameter("w", (), init=lambda s, d: VALS("w")),
    "mixed": lambda x: P(name="l")(x) + hk.get_parameter("l", (), init=lambda s, d: VALS("l")),
    "method": lambda x: P(name="a").meth(x),
    "empty": lambda x: x,
}


def run_init(f, v, *args):
  global COUNT
  COUNT = [v, 0]
  return f.init(None, *args)


def prefixed(pre, d):
  return {f"{pre}/{m}": b for m, b in d.items()}


PLACES = {"top": "", "module": "out/", "scope": "sc/", "method": "out/~meth/", "deep": "out/mid/"}


def at(place, f):
  """Runs f somewhere in the outer function."""
  class Out(hk.Module):
    def __call__(self):
      if place == "deep":
        class Mid(hk.Module):
          def __call__(self):
            return f()
        return Mid(name="mid")()
      return f()
    def meth(self):
      return f()
  if place == "top":
    return f()
  if place == "scope":
    with hk.experimental.name_scope("sc"):
      return f()
  m = Out(name="out")
  return m.meth() if place == "method" else m()


@harness("C10", configs=product(inner=tuple(INNER), place=tuple(PLACES)), bounds="nine inner functions (nested, same-class, top-level, method-created and oddly named modules) lifted at five places under four names, among modules of similar names; all parameter values and inputs")
def single(ctx, inner, place):
  name = ctx.choice("name", ["lifted", "l", "a", "a_1"])
  around = ctx.choice("around", ["nothing", "prefix"] + (["same name before", "same name after"] if name != "a_1" else []))
  wrap = ctx.choice("wrap", ["plain", "jit", "remat"])
  given = ctx.choice("given", ["positional", "keyword"])
  t = hk.transform(INNER[inner])
  x = ctx.real("x", (2,))
  v = ctx.real("v", (60,))
  got_inner = []
  def outer(x):
    pre = P(name=name)(x) if around == "same name before" and place == "top" else x
    if around == "prefix":
      pre = P(name=name + "x")(pre)
    def f():
      l = hk.experimental.lift(t.init, name=name)
      call = (lambda x: l(None, x=x)) if given == "keyword" and inner != "x" else (lambda x: l(None, x))
      params = {"plain": lambda f: f, "jit": hk.jit, "remat": hk.remat}[wrap](call)(x)
      got_inner.append((l.module_name, params))
      return t.apply(params, None, x)
    y = at(place, f)
    if around == "same name after" and place == "top":
      y = P(name=name)(y)
    return y + pre
  o = hk.transform(outer)
  # ---- init
  def init(v, x):
    got_inner.clear()
    p = run_init(o, v, x)
    return plain(p), got_inner[-1][1]
  p, returned = ctx.run(init, v, x)
  mod = got_inner[-1][0]
  own = 3 * sum([around == "same name before" and place == "top", around == "prefix"])   # values used up before the lift
  want_inner = ctx.run(lambda v, x: plain(run_init(t, v[own:], x)), v, x)
  ctx.eq("init returns the inner parameters", plain(returned), want_inner)
  under = {m: b for m, b in p.items() if m.startswith(mod + "/")}
  ctx.eq("stored exactly under the lifting module's name", under, prefixed(mod, want_inner))
  base = PLACES[place] + name
  ctx.check(f"name of the lifting module {mod}", mod == base + ("_1" if around == "same name before" and place == "top" else ""))
  rest = {m for m in p if m not in under}
  others = set()
  if around == "prefix":
    others.add(name + "x")
  if around == "same name before" and place == "top":
    others.add(name)
  if around == "same name after" and place == "top":
    others.add(name + "_1")
  ctx.check(f"nothing else: {sorted(rest)}", rest == others)
  # ---- apply with other values
  q = ctx.like("q", p)
  def apply(q, x):
    got_inner.clear()
    out = o.apply(q, None, x)
    return out, got_inner[-1][1]
  out, returned = ctx.run(apply, q, x)
  sel = {m[len(mod) + 1:]: b for m, b in q.items() if m.startswith(mod + "/")}
  ctx.eq("apply returns the outer values under their inner names and nothing else", plain(returned), sel)
  def ref(q, sel, x):
    aff = lambda b, x: x * b["w"] + b["b"]
    y, pre = t.apply(sel, None, x), x
    if around == "same name before" and place == "top":
      pre = aff(q[name], pre)
    if around == "prefix":
      pre = aff(q[name + "x"], pre)
    if around == "same name after" and place == "top":
      y = aff(q[name + "_1"], y)
    return y + pre
  ctx.eq("result", out, ctx.run(ref, q, sel, x))


@harness("C10", configs=product(place=tuple(PLACES), n=(2, 3)), bounds="2..3 functions lifted side by side under equal, numbered, or prefix-related names, called in any order, one of them lifting again; all parameter values and inputs")
def side_by_side(ctx, place, n):
  names = ctx.choice("names", [("lifted",) * 3, ("l", "lifted", "l"), ("a", "aa", "a_1"), ("a_1", "a", "a"), ("lifted_1", "lifted", "lifted")])[:n]
  kinds = [ctx.choice(f"k{i}", ["one", "nested", "lifted", "again"]) for i in range(2)] + ["top level"]
  order = ctx.choice("order", [tuple(range(n)), tuple(reversed(range(n)))])
  inner0 = hk.transform(INNER["two"])
  def again(x):
    l = hk.experimental.lift(inner0.init, name=names[0])
    return inner0.apply(l(None, x), None, x)
  ts = [hk.transform(again if kinds[i] == "again" else INNER[kinds[i]]) for i in range(n)]
  x, v = ctx.real("x", (2,)), ctx.real("v", (60,))
  got = {}
  def outer(x):
    def f():
      ls = [hk.experimental.lift(ts[i].init, name=names[i]) for i in range(n)]
      y = jnp.zeros((2,))
      for i in order:
        p = ls[i](None, x)
        got[i] = (ls[i].module_name, p)
        y = y + ts[i].apply(p, None, x) * (i + 1.)
      return y
    return at(place, f)
  o = hk.transform(outer)
  def init(v, x):
    p = run_init(o, v, x)
    return plain(p), [got[i][1] for i in range(n)]
  p, rets = ctx.run(init, v, x)
  mods = [got[i][0] for i in range(n)]
  ctx.check("lifting modules have different names", len(set(mods)) == n and all(m.startswith(PLACES[place]) for m in mods))
  def ref(v, x):
    off, res = 0, {}
    for i in order:
      res[i] = plain(run_init(ts[i], v[off:], x))
      off += COUNT[1]
    return [res[i] for i in range(n)]
  want = ctx.run(ref, v, x)
  ctx.eq("each returns its own inner parameters", [plain(r) for r in rets], want)
  allp = {}
  for m, w in zip(mods, want):
    allp.update(prefixed(m, w))
  ctx.eq("the outer parameters are exactly theirs", p, allp)
  q = ctx.like("q", p)
  def apply(q, x):
    out = o.apply(q, None, x)
    return out, [got[i][1] for i in range(n)]
  out, rets = ctx.run(apply, q, x)
  sels = [{k: q[f"{m}/{k}"] for k in w} for m, w in zip(mods, want)]
  ctx.eq("each gets exactly its own entries", [plain(r) for r in rets], sels)
  ctx.eq("result", out, ctx.run(lambda sels, x: sum(t.apply(s, None, x) * (i + 1.) for i, (t, s) in enumerate(zip(ts, sels))), sels, x))


@harness("C10", bounds="inner functions with random initialisers and with state; gradients through lifted parameters; loops and branches around the lifted call at apply; all values and keys")
def uses(ctx):
  what = ctx.choice("what", ["random", "grad", "scan", "cond", "vmap", "no other effects"])
  k, x = ctx.key("k"), ctx.real("x")
  class R(hk.Module):
    def __call__(self, x):
      return x * hk.get_parameter("w", (), init=hk.initializers.RandomUniform(1., 2.)) + hk.get_parameter("b", (), init=jnp.ones)
  t = hk.transform(lambda x: R(name="r")(x))
  if what == "random":
    def f(x):
      a = hk.next_rng_key()
      p = hk.experimental.lift(t.init, name="l")(hk.next_rng_key() if hk.running_init() else None, x)
      return a, p, (hk.next_rng_key() if hk.running_init() else None)
    def run(k, x):
      box = []
      o = hk.transform(lambda x: box.append(f(x)))
      return plain(o.init(k, x)), plain(box[0])
    def ref(k, x):
      s = hk.PRNGSequence(k)
      a, b, c = next(s), next(s), next(s)
      p = plain(t.init(b, x))
      return prefixed("l", p), (a, p, c)
    ctx.eq("random inner parameters and outer keys", ctx.run(run, k, x), ctx.run(ref, k, x))
    return
  q = {"l/r": {"w": ctx.real("w"), "b": ctx.real("b")}, "other": {"w": ctx.real("ow")}}
  def f(x):
    l = hk.experimental.lift(t.init, name="l")
    if what == "scan":
      return hk.scan(lambda c, _: (t.apply(l(None, c), None, c), c), x, None, length=3)
    if what == "cond":
      g = lambda x: t.apply(l(None, x), None, x)
      return hk.cond(x > 0., g, lambda x: -g(x), x)
    if what == "vmap":
      return hk.vmap(lambda x: t.apply(l(None, x), None, x))(jnp.stack([x, x + 1.]))
    return t.apply(l(None, x), None, x)
  o = hk.transform(f)
  aff = lambda q, x: x * q["l/r"]["w"] + q["l/r"]["b"]
  if what == "grad":
    got = ctx.run(lambda q, x: jax.grad(lambda q: o.apply(q, None, x))(q), q, x)
    ctx.eq("gradients reach the outer parameters", got, ctx.run(lambda q, x: {"l/r": {"w": x, "b": jnp.ones(())}, "other": {"w": jnp.zeros(())}}, q, x))
    return
  def ref(q, x):
    if what == "scan":
      ys = []
      for _ in range(3):
        ys.append(x)
        x = aff(q, x)
      return x, jnp.stack(ys)
    if what == "cond":
      return jnp.where(x > 0., 1., -1.) * aff(q, x)
    if what == "vmap":
      return jnp.stack([aff(q, x), aff(q, x + 1.)])
    return aff(q, x)
  ctx.eq("result", ctx.run(lambda q, x: o.apply(q, None, x), q, x), ctx.run(ref, q, x))
  if what == "no other effects":
    ctx.raises("outside of a transform", lambda: hk.experimental.lift(t.init), ValueError)
    q2 = {k_: dict(v_) for k_, v_ in q.items()}
    ctx.run(lambda q, x: o.apply(q, None, x), q2, x)
    ctx.eq("arguments are not modified", q2, q)
