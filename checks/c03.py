"""C03: state reads see the latest write; init returns first values, apply final ones."""
from checks.common import *
from vlib.core import plain


class M(hk.Module):
  def __call__(self, g):
    return g()

  def meth(self, g):
    return g()

  def sub(self, g):
    return M(name="s")(g)


PATHS = [("~", "x"), ("a", "x"), ("a", "y"), ("a/s", "x")]
KINDS = ["read", "readinit", "write"]


def at(a, i, g):
  return [lambda: g(), lambda: a(g), lambda: a.meth(g), lambda: a(lambda: M(name="s")(g))][i]()


def net(ops, vals, log):
  a = M(name="a")
  outs = []
  for i, (kind, p) in enumerate(ops):
    name = PATHS[p][1]
    def init(s, d, i=i):
      log.append((i, tuple(s), jnp.dtype(d)))
      return vals[i]
    if kind == "read":
      outs.append(at(a, p, lambda: hk.get_state(name)))
    elif kind == "readinit":
      outs.append(at(a, p, lambda: hk.get_state(name, (), jnp.float32, init=init)))
    else:
      outs.append(at(a, p, lambda: hk.set_state(name, vals[i])))
  return outs


def spec(ops, vals, given):
  """Reference semantics. Returns (outs, initial, current, log), outs None for a bad read."""
  first, cur = dict(given), dict(given)
  outs, log = [], []
  for i, (kind, p) in enumerate(ops):
    q = PATHS[p]
    if kind == "write":
      first.setdefault(q, vals[i])
      cur[q] = vals[i]
      outs.append(None)
      continue
    if q not in cur:
      if kind == "read":
        return None, None, None, None
      first[q] = cur[q] = vals[i]
      log.append((i, (), jnp.dtype(jnp.float32)))
    outs.append(cur[q])
  return outs, first, cur, log


def nest(flat):
  out = {}
  for (m, k), v in flat.items():
    out.setdefault(m, {})[k] = v
  return out


def drop_none(outs):
  return [o for o in outs if o is not None]


@harness("C03", configs=product(mode=("init", "apply"), first=tuple(itertools.product(KINDS, range(3)))),
         thorough=product(mode=("init", "apply"), first=tuple(itertools.product(KINDS, range(3))), n=(4,)), budget=500,
         bounds="3 (thorough 4) reads, initialising reads and writes over 4 entries in 3 module paths; every subset of touched entries passed in plus untouched ones; all values")
def programs(ctx, mode, first, n=3):
  ops = [first]
  for i in range(1, n):
    ops.append((ctx.choice(f"k{i}", KINDS), ctx.choice(f"p{i}", range(4 if n < 4 else 3))))
  vals = [ctx.real(f"v{i}") for i in range(n)]
  given = {}
  if mode == "apply":
    for j, q in enumerate(PATHS):
      if any(p == j for _, p in ops) and ctx.flag(f"given{j}"):
        given[q] = ctx.real(f"g{j}")
    given[("a", "z")] = ctx.real("u0")
    given[("never/called", "x")] = ctx.real("u1")
  log = []
  if mode == "init":
    def run(vals, given):
      box = []
      st = hk.transform_with_state(lambda: box.extend(net(ops, vals, log))).init(None)[1]
      return drop_none(box), st
  else:
    def run(vals, given):
      out, st = hk.transform_with_state(lambda: net(ops, vals, log)).apply({}, given, None)
      return drop_none(out), st
  outs, firsts, cur, wlog = spec(ops, vals, given)
  if outs is None:
    ctx.raises("uninitialised read", lambda: ctx.run(run, vals, nest(given)), ValueError)
    return
  got, st = ctx.run(run, vals, nest(given))
  ctx.eq("reads see the latest write", got, drop_none(outs))
  ctx.eq("init: initial values" if mode == "init" else "apply: final values", st, nest(firsts if mode == "init" else cur))
  ctx.check("initialiser runs only when needed, with shape and dtype", log == wlog)


@harness("C03", configs=product(steps=(1, 2, 3)), bounds="init then 1..3 applies threading the state, counters and accumulators in shared, nested and uncalled modules; all inputs")
def history(ctx, steps):
  use_b = ctx.flag("use_b")
  twice = ctx.flag("twice")
  xs = [ctx.real(f"x{i}") for i in range(steps + 1)]
  class Acc(hk.Module):
    def __init__(self, name=None):
      super().__init__(name=name)
      hk.get_state("made", (), init=jnp.zeros)
    def __call__(self, x):
      t = hk.get_state("t", (), init=jnp.zeros)
      hk.set_state("t", t * 2 + x)
      hk.set_state("last", x)
      return hk.get_state("t") + hk.get_state("last")
  def f(x, is_init):
    a, b = Acc(name="a"), Acc(name="b")
    y = a(x)
    if twice:
      y = y + a(x * 3)
    if use_b or is_init:
      y = y + b(x)
    return y
  t = hk.transform_with_state(f)
  st = ctx.run(lambda x: t.init(None, x, True)[1], xs[0])
  want = {"a": {"made": 0., "t": 0., "last": xs[0]}, "b": {"made": 0., "t": 0., "last": xs[0]}}
  mk = lambda d: ctx.run(lambda d: jax.tree_util.tree_map(lambda v: jnp.asarray(v, jnp.float32), d), d)
  ctx.eq("init returns the first values", st, mk(want))
  for i in range(steps):
    x = xs[i + 1]
    out, st2 = ctx.run(lambda s, x: t.apply({}, s, None, x, False), st, x)
    def ref(s, x):
      a = s["a"]["t"] * 2 + x
      la, y = x, a + x
      if twice:
        a = a * 2 + 3 * x
        la = 3 * x
        y = y + a + la
      n = {"a": {"made": s["a"]["made"], "t": a, "last": la}, "b": dict(s["b"])}
      if use_b:
        tb = s["b"]["t"] * 2 + x
        n["b"].update(t=tb, last=x)
        y = y + tb + x
      return y, n
    wout, wst = ctx.run(ref, plain(st), x)
    ctx.eq(f"step {i}: output", out, wout)
    ctx.eq(f"step {i}: state", st2, wst)
    st = st2


@harness("C03", configs=product(kind=("tree", "shape", "dtype", "falsy")), bounds="state values that are pytrees, change shape or dtype on write, or are zero")
def values(ctx, kind):
  x, y = ctx.real("x", (2,)), ctx.real("y", (3,))
  b = ctx.integer("b", (2,))
  def f(x, y, b):
    if kind == "tree":
      hk.set_state("s", (x, [y]))
      r = hk.get_state("s")
      hk.set_state("s", (r[1][0], [r[0]]))
    elif kind == "shape":
      hk.get_state("s", (2,), init=lambda *_: x)
      hk.set_state("s", y)
    elif kind == "dtype":
      hk.get_state("s", (2,), init=lambda *_: x)
      hk.set_state("s", b)
    else:
      hk.set_state("s", x)
      hk.set_state("s", jnp.zeros(()))
      hk.get_state("s", (), init=lambda *_: x[0])
    return hk.get_state("s")
  t = hk.transform_with_state(f)
  st = ctx.run(lambda *a: t.init(None, *a)[1], x, y, b)
  out, st2 = ctx.run(lambda s, *a: t.apply({}, s, None, *a), st, x, y, b)
  first = (x, [y]) if kind == "tree" else x
  last = {"tree": (y, [x]), "shape": y, "dtype": b, "falsy": jnp.zeros(())}[kind]
  ctx.eq("init", st, {"~": {"s": first}})
  ctx.eq("read", out, last)
  ctx.eq("apply", st2, {"~": {"s": last}})


@harness("C03", configs=product(mode=("init", "apply"), read=(True, False)), bounds="modules without entries in the given state, read or not; all values")
def empty_modules(ctx, mode, read):
  """Entries and modules the function never touches come back, even empty modules."""
  v = ctx.real("v", (2,))
  t = hk.transform_with_state(lambda v: M(name="a")(lambda: hk.get_state("x", (2,), init=lambda *_: v) if read else v))
  given = {"e": {}, "a": {"x": v}, "a/b": {}, "z": {"k": v}}
  if mode == "init":
    p, s = ctx.run(lambda v: t.init(None, v), v)
    ctx.eq("init", (plain(p), plain(s)), ({}, {"a": {"x": v}} if read else {}))
  else:
    o, s = ctx.run(lambda s, v: t.apply({"e": {}}, s, None, v), given, v)
    ctx.check(f"the modules given come back: {sorted(s)}", sorted(s) == sorted(given))
    ctx.eq("apply", (o, plain(s)), (v, given))


@harness("C03", bounds="argument errors, None state, transform without state")
def errors(ctx):
  which = ctx.choice("which", ["noshape", "nodtype", "none", "list", "transform init", "transform apply", "outside get", "outside set"])
  f = lambda: hk.get_state("s", (), init=jnp.zeros)
  if which == "noshape":
    ctx.raises("shape needed", lambda: hk.transform_with_state(lambda: hk.get_state("s", init=jnp.zeros)).init(None), ValueError)
  elif which == "nodtype":
    ctx.raises("dtype needed", lambda: hk.transform_with_state(lambda: hk.get_state("s", (), None, init=jnp.zeros)).init(None), ValueError)
  elif which == "none":
    out, st = hk.transform_with_state(f).apply(None, None, None)
    ctx.eq("no state given: freshly initialised", (out, st), (jnp.zeros(()), {"~": {"s": jnp.zeros(())}}))
  elif which == "list":
    ctx.raises("state must be a mapping", lambda: hk.transform_with_state(f).apply({}, [1], None), TypeError)
  elif which == "transform init":
    ctx.raises("stateful function needs transform_with_state", lambda: hk.transform(f).init(None), ValueError)
  elif which == "transform apply":
    ctx.raises("stateful function needs transform_with_state", lambda: hk.transform(f).apply({}, None), ValueError)
  elif which == "outside get":
    ctx.raises("outside", f, ValueError)
  else:
    ctx.raises("outside", lambda: hk.set_state("s", 1), ValueError)
