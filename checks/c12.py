"""C12: FlatMapping (params/state mapping) as an immutable dict and a JAX tree."""
import collections
import copy
import pickle

from checks.common import *

FM = type(hk.data_structures.to_immutable_dict({}))
MODS = ["a", "a/b", "c"]
NAMES = ["w", "b"]


def gen(ctx, tag, leaf="sym", empties=True, rev=None):
  """A nested dict chosen by the solver, in a solver-chosen insertion order."""
  d = {}
  mods = MODS if not (rev if rev is not None else ctx.flag(f"{tag}.rev")) else MODS[::-1]
  for m in mods:
    kind = ctx.choice(f"{tag}.{m}", ["absent", "full", "one"] + (["empty"] if empties and m == "c" else []))
    if kind == "absent":
      continue
    names = {"full": NAMES, "one": NAMES[1:], "empty": []}[kind]
    d[m] = {}
    for n in names:
      i = f"{tag}.{m}.{n}"
      if leaf == "sym":
        d[m][n] = ctx.int(i, 0, 2)
      elif leaf == "mixed":
        d[m][n] = ctx.choice(i, [5, None, (1, [2]), {"x": 3, "y": {"z": None}}]) if m == "a" else 7
      else:
        d[m][n] = ctx.choice(i, [0, 1]) if m == "a" else 1
  return d


def clone(d):
  return {k: clone(v) if isinstance(v, dict) else v for k, v in d.items()}


def eqv(a, b):
  """Structural equality of plain containers; leaf equality decided by the solver."""
  if isinstance(a, collections.abc.Mapping) or isinstance(b, collections.abc.Mapping):
    return (isinstance(a, collections.abc.Mapping) and isinstance(b, collections.abc.Mapping)
            and set(a) == set(b) and all(eqv(a[k], b[k]) for k in a))
  if isinstance(a, (list, tuple)):
    return type(a) is type(b) and len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
  if a is None or b is None:
    return a is b
  return bool(a == b)


def agrees(ctx, label, fm, d):
  """Every read operation agrees with the dict."""
  ctx.check(f"{label}: len", len(fm) == len(d))
  ctx.check(f"{label}: truth", bool(fm) == bool(d))
  ctx.check(f"{label}: iteration", sorted(fm) == sorted(d) and len(list(fm)) == len(d))
  ctx.check(f"{label}: keys", sorted(fm.keys()) == sorted(d) and len(fm.keys()) == len(d))
  ctx.check(f"{label}: keys/values/items in step", list(zip(list(fm.keys()), [id(v) for v in fm.values()])) == [(k, id(v)) for k, v in fm.items()]
            and list(fm) == list(fm.keys()))
  for k in list(d) + ["nope"]:
    ctx.check(f"{label}: contains", (k in fm) == (k in d) and (k in fm.keys()) == (k in d))
    if k in d:
      for v in (fm[k], fm.get(k), dict(fm.items())[k]):
        if isinstance(d[k], dict):
          ctx.check(f"{label}: nested mapping", isinstance(v, collections.abc.Mapping))
          agrees(ctx, label, v, d[k])
        else:
          ctx.check(f"{label}: value", eqv(v, d[k]))
    else:
      ctx.raises(f"{label}: missing key", lambda: fm[k], KeyError)
      ctx.check(f"{label}: get default", fm.get(k) is None and fm.get(k, 3) == 3)
      ctx.check(f"{label}: getattr default", getattr(fm, k, 9) == 9)
  for k in d:
    if k.isidentifier() and isinstance(fm, FM):
      ctx.check(f"{label}: attribute access", eqv(getattr(fm, k), d[k]))


def mutators(t):
  return [("setitem", lambda: t.__setitem__("a", 1)), ("setitem new", lambda: t.__setitem__("zz", 1)), ("delitem", lambda: t.__delitem__("a")),
          ("pop", lambda: t.pop("a")), ("popitem", lambda: t.popitem()), ("clear", lambda: t.clear()), ("update", lambda: t.update({"a": 1})),
          ("setdefault", lambda: t.setdefault("zz", 1)), ("ior", lambda: t.__ior__({"a": 1}))]


@harness("C12", configs=product(leaf=("sym", "mixed")), validate=False,
         bounds="nested mappings over 3 modules x 2 names with any entries absent, empty inner mappings, both insertion orders; leaves symbolic integers, None, lists or dicts")
def like_dict(ctx, leaf):
  d = gen(ctx, "d", leaf)
  src = clone(d)
  fm = hk.data_structures.to_immutable_dict(src)
  agrees(ctx, "as built", fm, d)
  for label, f in mutators(fm) + [(m + " nested", g) for k in d for m, g in mutators(fm[k])]:
    ctx.raises(f"no {label}", f, (TypeError, AttributeError))
  agrees(ctx, "after refused mutations", fm, d)
  # later changes to the source are not visible
  for k in list(src):
    src[k]["extra"] = 1
    for n in list(src[k]):
      src[k][n] = 99
  src["new"] = {"w": 1}
  src.pop("a", None)
  agrees(ctx, "after source changed", fm, d)
  # mutable copies are independent, and converting back and forth is the identity
  mut = hk.data_structures.to_mutable_dict(fm)
  def plain_dicts(x):
    return type(x) is dict and all(plain_dicts(v) for v in x.values() if isinstance(v, collections.abc.Mapping))
  ctx.check("mutable copy is made of plain dicts", plain_dicts(mut))
  ctx.check("mutable copy equal", eqv(mut, d))
  back = hk.data_structures.to_immutable_dict(mut)
  ctx.check("back again", eqv(back, d) and isinstance(back, FM))
  for k in mut:
    mut[k]["w"] = 55
  mut["other"] = {}
  agrees(ctx, "after mutable copy changed", fm, d)
  agrees(ctx, "round trip after mutable copy changed", back, d)


@harness("C12", configs=product(how=("immutable", "constructor", "unflattened", "dicts inside", "one mapped")), validate=False,
         bounds="pairs of nested mappings over 2 modules with symbolic leaves 0..2, both insertion orders, also with plain dictionaries inside one of them (put there by the constructor or by jax.tree_map)")
def equality(ctx, how):
  global MODS
  def mk(tag):
    d = {}
    rev = tag == "y"
    for m in (["a", "c"][::-1] if rev else ["a", "c"]):
      kind = ctx.choice(f"{tag}.{m}", ["absent", "one"] if m == "c" else ["absent", "full", "one"])
      if kind != "absent":
        names = {"full": ["b", "w"], "one": ["w"]}[kind]
        d[m] = {n: ctx.int(f"{tag}.{m}.{n}", 0, 2) for n in (names[::-1] if rev else names)}
    return d
  def conv(d):
    if how == "immutable":
      return hk.data_structures.to_immutable_dict(clone(d))
    if how == "dicts inside" and d is x:
      return FM(clone(d))
    if how == "one mapped" and d is x:
      # every module is a leaf of `outer` that is mapped to a dictionary
      outer = hk.data_structures.to_immutable_dict({k: i for i, k in enumerate(d)})
      return jax.tree_util.tree_map(lambda i: clone(list(d.values())[i]), outer)
    if how == "constructor":
      return FM({k: FM(v) for k, v in d.items()})
    leaves, tree = jax.tree_util.tree_flatten(hk.data_structures.to_immutable_dict(clone(d)))
    return jax.tree_util.tree_unflatten(tree, leaves)
  x, y = mk("x"), mk("y")
  fx, fy = conv(x), conv(y)
  want = eqv(x, y)
  ctx.check("== agrees with dict", bool(fx == fy) == want)
  ctx.check("!= agrees with dict", bool(fx != fy) == (not want))
  ctx.check("== dict", bool(fx == y) == want)
  ctx.check("dict ==", bool(y == fx) == want)
  ctx.check("reflexive", bool(fx == fx) and bool(fx == clone(x)))
  ctx.check("None", not (fx == None) and (fx != None))  # pylint: disable=singleton-comparison
  if want and how not in ("dicts inside", "one mapped"):
    ctx.check("equal mappings hash equally", hash(fx) == hash(fy))
    ctx.check("usable as a key", {fx: 1}[fy] == 1)


@harness("C12", configs=product(fn=("id", "num", "none", "list", "dict", "tuple", "fm"), leaf=("sym", "mixed")), validate=False,
         bounds="mappings as above; functions returning numbers, None and containers; flatten/unflatten/map/multi-map against the same dict tree")
def as_tree(ctx, fn, leaf):
  d = gen(ctx, "d", leaf, rev=(fn in ("list", "num")))
  fm = hk.data_structures.to_immutable_dict(clone(d))
  f = {"id": lambda x: x, "num": lambda x: x + 1, "none": lambda x: None, "list": lambda x: [x, [x]],
       "dict": lambda x: {"p": x, "q": None}, "tuple": lambda x: (), "fm": lambda x: FM({"p": x})}[fn]
  tu = jax.tree_util
  ctx.check("leaves in the same order as the dict", eqv(tu.tree_leaves(fm), tu.tree_leaves(d)))
  leaves, tree = tu.tree_flatten(fm)
  again = tu.tree_unflatten(tree, leaves)
  ctx.check("flatten/unflatten", isinstance(again, FM) and eqv(again, d) and bool(again == fm))
  agrees(ctx, "unflattened", again, d)
  got, want = tu.tree_map(f, fm), tu.tree_map(f, d)
  ctx.check("tree_map gives the mapping type", isinstance(got, FM))
  ctx.check(f"tree_map {got} vs {want}"[:200], eqv(got, want))
  agrees(ctx, "mapped", got, want)
  # the result is itself a well-formed tree
  ctx.check("leaves of the mapped mapping", eqv(tu.tree_leaves(got), tu.tree_leaves(want)))
  l2, t2 = tu.tree_flatten(got)
  if fn != "dict":
    ctx.check("same structure as the mapping built from the mapped dict", tu.tree_structure(got) == tu.tree_structure(hk.data_structures.to_immutable_dict(clone(want))))
  ctx.check("flatten/unflatten of the mapped mapping", eqv(tu.tree_unflatten(t2, l2), want))
  g2, w2 = tu.tree_map(lambda x: (x, 1), got), tu.tree_map(lambda x: (x, 1), want)
  ctx.check("mapped twice", eqv(g2, w2))
  two = tu.tree_map(lambda x, y: [x, y], fm, again)
  ctx.check("two trees", eqv(two, tu.tree_map(lambda x, y: [x, y], d, d)))
  ctx.check("same structure for equal mappings", tu.tree_structure(fm) == tu.tree_structure(hk.data_structures.to_immutable_dict(dict(reversed(list(clone(d).items()))))))
  ctx.check("mapping left as it was", eqv(fm, d))


@harness("C12", configs=product(leaf=("small", "mixed")), validate=False,
         bounds="mappings as above with concrete leaves; pickle (all protocols), copy, deepcopy, before and after being unflattened")
def copies(ctx, leaf):
  d = gen(ctx, "d", leaf)
  fm = hk.data_structures.to_immutable_dict(clone(d))
  if ctx.flag("unflattened"):
    fm = jax.tree_util.tree_map(lambda x: x, fm)
  for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
    x = pickle.loads(pickle.dumps(fm, protocol=p))
    ctx.check(f"pickle {p}", isinstance(x, FM) and eqv(x, d) and bool(x == fm))
    agrees(ctx, "pickled", x, d)
    ctx.check("pickled: same tree", jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(fm))
  for x in (copy.copy(fm), copy.deepcopy(fm)):
    ctx.check("copy", isinstance(x, FM) and eqv(x, d))
    if leaf == "small":
      ctx.check("copy hash", hash(x) == hash(fm))


@harness("C12", configs=product(t=("jit", "grad", "vmap")), bounds="through JAX transformations, all values")
def through_jax(ctx, t):
  spec = {"m": {"w": jax.ShapeDtypeStruct((2,), jnp.float32), "b": jax.ShapeDtypeStruct((2,), jnp.float32)}, "n/o": {"w": jax.ShapeDtypeStruct((2,), jnp.float32)}}
  p = ctx.like("p", spec)
  def f(q):
    return q["m"]["w"] * q["m"]["b"] + q["n/o"]["w"]
  conv = hk.data_structures.to_immutable_dict
  def run(q):
    q = conv(q)
    if t == "jit":
      out = jax.jit(lambda q: jax.tree_util.tree_map(lambda x: x * 2, q))(q)
    elif t == "grad":
      out = jax.grad(lambda q: f(q).sum())(q)
    else:
      out = jax.vmap(lambda q: q)(q)
    assert isinstance(out, FM) and isinstance(out["m"], collections.abc.Mapping)
    return out
  got = ctx.run(run, p)
  if t == "jit":
    want = ctx.run(lambda p: jax.tree_util.tree_map(lambda x: 2 * x, p), p)
  elif t == "grad":
    want = {"m": {"w": p["m"]["b"], "b": p["m"]["w"]}, "n/o": {"w": jnp.ones((2,))}}
  else:
    want = p
  ctx.eq("values", got, want)


@harness("C12", configs=product(which=("params", "state")), bounds="what init returns, and what apply was given, for bounded key sets")
def from_transform(ctx, which):
  x = ctx.real("x", (2,))
  names = [ctx.flag("w"), ctx.flag("b")]
  user = {"~": {n: x for n, k in zip("wb", names) if k}}
  def f():
    for n, k in zip("wb", names):
      if k:
        if which == "params":
          hk.get_parameter(n, (2,), init=lambda s, d: jnp.ones(s, d))
        else:
          hk.get_state(n, (2,), init=lambda s, d: jnp.ones(s, d))
  t = hk.transform_with_state(f)
  out = t.init(None)[0 if which == "params" else 1]
  ctx.check("init returns the immutable mapping", isinstance(out, FM) and all(isinstance(b, FM) for b in out.values()))
  for label, g in mutators(out) + [(m, g) for b in out.values() for m, g in mutators(b)]:
    ctx.raises(f"no {label}", g, (TypeError, AttributeError))
  ctx.check("keys", {k: set(v) for k, v in out.items() if v} == {k: set(v) for k, v in user.items() if v})

@harness("C12", configs=product(n=(0, 1, 3)), bounds="tree_size/tree_bytes of bounded trees", validate=False)
def sizes(ctx, n):
  shapes = [ctx.choice(f"s{i}", [(), (2,), (2, 3), (0,)]) for i in range(n)]
  dts = [ctx.choice(f"d{i}", [np.float32, np.int8, np.float16]) for i in range(n)]
  t = hk.data_structures.to_immutable_dict({"m": {f"p{i}": jax.ShapeDtypeStruct(s, np.dtype(d)) if False else np.zeros(s, d) for i, (s, d) in enumerate(zip(shapes, dts))}})
  ctx.check("tree_size", hk.data_structures.tree_size(t) == sum(int(np.prod(s)) for s in shapes))
  ctx.check("tree_bytes", hk.data_structures.tree_bytes(t) == sum(int(np.prod(s)) * np.dtype(d).itemsize for s, d in zip(shapes, dts)))
