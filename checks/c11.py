"""C11: filter, partition, map, merge. Values and predicate thresholds are solver integers."""
import collections

from checks.common import *
from vlib.core import plain

PATHS = [("a", "w"), ("a", "b"), ("a/b", "w"), ("c", "w"), ("c", "z")]


def build(ctx, tag, paths, kind="dict"):
  """A structure over a solver-chosen subset of the paths, with solver-chosen values."""
  d = {}
  for i, (m, n) in enumerate(paths):
    if ctx.flag(f"{tag}.has{i}"):
      d.setdefault(m, {})[n] = ctx.int(f"{tag}.v{i}", 0, 9)
  if kind == "flat":
    return hk.data_structures.to_immutable_dict({m: dict(b) for m, b in d.items()}), d
  if kind == "default":
    x = collections.defaultdict(dict)
    x.update({m: dict(b) for m, b in d.items()})
    return x, d
  if kind == "mixed":
    return {m: (hk.data_structures.to_immutable_dict(b) if i % 2 else dict(b)) for i, (m, b) in enumerate(d.items())}, d
  return {m: dict(b) for m, b in d.items()}, d


def entries(s):
  return {(m, n): v for m, b in s.items() for n, v in b.items()}


def same(ctx, label, got, want):
  """Same paths with the very same value objects."""
  g, w = entries(got), dict(want)
  ctx.check(f"{label}: paths {sorted(g)} vs {sorted(w)}", sorted(g) == sorted(w))
  for p in w:
    ctx.check(f"{label}: value of {p}", g[p] is w[p])


def frozen(ctx, label, out):
  for t in [out] + list(out.values()):
    for op in (lambda: t.__setitem__("q", 1), lambda: t.__delitem__("q"), lambda: t.update(q=1), lambda: t.clear()):
      ctx.raises(f"{label}: result is immutable", op, (TypeError, AttributeError))


def unaliased(ctx, label, src, out, before):
  """The input was left alone; later changes to it are not visible in the output."""
  snap = entries(out)
  e = entries(src)
  ctx.check(f"{label}: input unmodified", {k: id(v) for k, v in e.items()} == {k: id(v) for k, v in before.items()})
  if isinstance(src, dict):
    for b in src.values():
      if isinstance(b, dict):
        b["new"] = object()
        for k in list(b):
          if k != "new":
            b[k] = object()
    src["newmod"] = {"w": object()}
    after = entries(out)
    ctx.check(f"{label}: output not aliased", {k: id(v) for k, v in snap.items()} == {k: id(v) for k, v in after.items()})


def recorder(ctx, f):
  calls = []
  def g(m, n, v):
    calls.append((m, n, v))
    return f(m, n, v)
  return g, calls


def check_calls(ctx, label, calls, e):
  ctx.check(f"{label}: called once per entry with its names and value",
            sorted((m, n, id(v)) for m, n, v in calls) == sorted((m, n, id(v)) for (m, n), v in e.items()))


@harness("C11", configs=product(kind=("dict", "flat", "default", "mixed"), pred=("value", "path", "truthy")), validate=False,
         bounds="every subset of 5 paths in 3 modules (one a path prefix of another); integer values 0..9 and thresholds symbolic, or predicate chosen freely per path; results truthy non-bools too")
def partition_filter(ctx, kind, pred):
  src, d = build(ctx, "s", PATHS if pred == "value" else PATHS[:4], kind)
  e = entries(d)
  if pred == "value":
    t = ctx.int("t", 0, 10)
    p = lambda m, n, v: v >= t
  elif pred == "path":
    keep = {q: ctx.flag(f"keep{i}") for i, q in enumerate(PATHS[:4]) if q in e}
    p = lambda m, n, v: keep[m, n]
  else:
    truth = {q: ctx.choice(f"keep{i}", [0, 3, None, "x"]) for i, q in enumerate(PATHS[:4]) if q in e}
    p = lambda m, n, v: truth[m, n]
  f, calls = recorder(ctx, p)
  yes, no = hk.data_structures.partition(f, src)
  check_calls(ctx, "partition", calls, e)
  want_yes = {q: v for q, v in e.items() if bool(p(*q, v))}
  want_no = {q: v for q, v in e.items() if q not in want_yes}
  same(ctx, "partition: satisfying", yes, want_yes)
  same(ctx, "partition: others", no, want_no)
  g, calls = recorder(ctx, p)
  flt = hk.data_structures.filter(g, src)
  check_calls(ctx, "filter", calls, e)
  same(ctx, "filter", flt, want_yes)
  same(ctx, "merge of halves is the original", hk.data_structures.merge(yes, no), e)
  same(ctx, "merge of halves in the other order", hk.data_structures.merge(no, yes), e)
  for lab, o in (("filter", flt), ("partition", yes), ("partition", no)):
    frozen(ctx, lab, o)
  for o in (flt, yes, no):
    before = e if not isinstance(src, dict) else entries(src)
    unaliased(ctx, "filter/partition", src, o, before)


@harness("C11", configs=product(kind=("dict", "flat", "default", "mixed"), res=("int", "none", "container")), validate=False,
         bounds="every subset of 5 paths, symbolic values; results: numbers, None, containers")
def mapping(ctx, kind, res):
  src, d = build(ctx, "s", PATHS, kind)
  e = entries(d)
  made = {}
  def fn(m, n, v):
    r = v + len(m) * 10 + len(n)
    r = {"int": r, "none": None if n == "w" else r, "container": (r, [v])}[res]
    made.setdefault((m, n), []).append(r)
    return r
  f, calls = recorder(ctx, fn)
  out = hk.data_structures.map(f, src)
  check_calls(ctx, "map", calls, e)
  same(ctx, "map: result of the function at every path", out, {q: r[0] for q, r in made.items()})
  frozen(ctx, "map", out)
  unaliased(ctx, "map", src, out, e)


@harness("C11", configs=product(kinds=(("dict", "dict", "dict"), ("flat", "dict", "flat"), ("default", "flat", "mixed"))), validate=False,
         bounds="three structures, each any subset of 4 paths (overlapping arbitrarily), symbolic values")
def merging(ctx, kinds):
  srcs, es = [], []
  for i, k in enumerate(kinds):
    s, d = build(ctx, f"s{i}", (PATHS[:1] + PATHS[2:4]) if i else PATHS[:3], k)
    srcs.append(s)
    es.append(entries(d))
  out = hk.data_structures.merge(*srcs)
  want = {}
  for e in es:
    want.update(e)
  same(ctx, "merge: last value wins", out, want)
  same(ctx, "merge of two", hk.data_structures.merge(srcs[0], srcs[1]), {**es[0], **es[1]})
  same(ctx, "merge of one", hk.data_structures.merge(srcs[2]), es[2])
  same(ctx, "merge of none", hk.data_structures.merge(), {})
  same(ctx, "associative", hk.data_structures.merge(hk.data_structures.merge(srcs[0], srcs[1]), srcs[2]), want)
  frozen(ctx, "merge", out)
  ones = [hk.data_structures.merge(s) for s in srcs]
  more = [hk.data_structures.merge(s, {}) for s in srcs] + [hk.data_structures.merge({}, s) for s in srcs]
  for o in ones + more:
    frozen(ctx, "merge of one", o)
  for i, (s, e) in enumerate(zip(srcs, es)):
    for o in (out, ones[i], more[i], more[i + 3]):
      unaliased(ctx, "merge", s, o, e if o is out or not isinstance(s, dict) else entries(s))


@harness("C11", configs=product(which=("partition", "filter", "map", "merge")), bounds="array values traced; structures of 2 modules x 2 names")
def traced(ctx, which):
  p = ctx.like("p", {"m": {"w": jax.ShapeDtypeStruct((2,), jnp.float32), "b": jax.ShapeDtypeStruct((), jnp.float32)},
                     "m/n": {"w": jax.ShapeDtypeStruct((2,), jnp.int32)}})
  keep = {q: ctx.flag(f"k{i}") for i, q in enumerate([("m", "w"), ("m", "b"), ("m/n", "w")])}
  pred = lambda m, n, v: keep[m, n]
  def pick(q, want):
    out = {}
    for (m, n), k in keep.items():
      if k == want:
        out.setdefault(m, {})[n] = q[m][n]
    return out
  if which == "partition":
    got = ctx.run(lambda p: hk.data_structures.partition(pred, p), p)
    ctx.eq("partition", got, (pick(p, True), pick(p, False)))
  elif which == "filter":
    ctx.eq("filter", ctx.run(lambda p: hk.data_structures.filter(pred, p), p), pick(p, True))
  elif which == "map":
    f = lambda m, n, v: v * 3 if keep[m, n] else v + v
    got = ctx.run(lambda p: hk.data_structures.map(f, p), p)
    want = ctx.run(lambda p: {m: {n: f(m, n, v) for n, v in b.items()} for m, b in p.items()}, p)
    ctx.eq("map", got, want)
  else:
    q = ctx.like("q", {"m": {"b": jax.ShapeDtypeStruct((), jnp.float32)}, "z": {"w": jax.ShapeDtypeStruct((), jnp.float32)}})
    got = ctx.run(lambda p, q: hk.data_structures.merge(p, q), p, q)
    ctx.eq("merge", got, {"m": {"w": p["m"]["w"], "b": q["m"]["b"]}, "m/n": p["m/n"], "z": q["z"]})
