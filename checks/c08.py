"""C08: stateful cond and switch equal Python branching.

Predicates and indices are symbolic: one query covers all of them at once; the
reference is a pure function of explicit params, state and keys per branch, of
which only the selected one is compared.
"""
from checks.common import *


class Sub(hk.Module):
  def __call__(self, x):
    w = hk.get_parameter("w", (), init=hk.initializers.Constant(3.))
    n = hk.get_state("n", (), init=jnp.ones)
    hk.set_state("n", n * w + x)
    return w * x + n


ACTS = {
    "pure": (), "param": ("param",), "write": ("write",), "rw": ("read", "write"), "write2": ("write", "write other"),
    "sub": ("sub",), "key": ("key",), "keys": ("key", "key", "write"), "keys3": ("keys3", "param"), "scope": ("scope",), "mixed": ("param", "key", "rw2", "sub"),
}


def branch(acts, tag, m):
  """A branch made of the given actions: operand -> (value, keys)."""
  def f(x):
    x = jnp.asarray(x)
    y, ks = x * (tag + 2.), []
    for a in acts:
      if a == "param":
        y = y * m.param(f"p{tag}") + 1.
      elif a == "read":
        y = y + m.get("s")
      elif a == "write":
        m.set("s", m.get("s") * 2. + x + tag)
      elif a == "write other":
        m.set("t", x * tag)
      elif a == "rw2":
        m.set("t", m.get("t") + y)
        y = y - m.get("t")
      elif a == "sub":
        y = y + m.sub(y)
      elif a == "key":
        ks.append(hk.next_rng_key())
      elif a == "keys3":
        ks.extend(hk.next_rng_keys(3))
      elif a == "scope":
        with hk.with_rng(hk.next_rng_key()):
          ks.append(hk.next_rng_key())
    while len(ks) < 3:
      ks.append(jnp.zeros((2,), jnp.uint32))
    return y, ks
  return f


NK = {"key": 1, "keys": 2, "keys3": 3, "scope": 1, "mixed": 1}


class M(hk.Module):
  """Holds the state the branches use; everything exists before the branches run."""

  def __call__(self, names, body):
    for i, n in enumerate(names):
      if "param" in ACTS[n]:
        self.param(f"p{i}")
    self.get("s"), self.get("t")
    self._sub = Sub(name="sub")
    if hk.running_init():
      self._sub(jnp.zeros(()))
    return body(self)

  def param(self, n):
    return hk.get_parameter(n, (), init=hk.initializers.Constant(5.))

  def get(self, n):
    return hk.get_state(n, (), init=jnp.ones)

  def set(self, n, v):
    hk.set_state(n, v)

  def sub(self, x):
    return self._sub(x)


PAIRS = [("pure", "write"), ("param", "rw"), ("rw", "rw"), ("write2", "pure"), ("sub", "write"), ("key", "pure"), ("keys", "key"), ("key", "key"), ("keys3", "scope"), ("mixed", "keys"), ("mixed", "mixed"), ("sub", "sub")]


def execute(mode, p, s, key, f, *args):
  box = []
  t = hk.transform_with_state(lambda *a: box.append(f(*a)) or box[-1])
  if mode == "init":
    ps = t.init(key, *args)
    return box[0], ps
  return t.apply(p, s, key, *args)


def program(names, pre, run):
  """before; branches; after - everything observable is returned."""
  draws = any(n in NK for n in names)
  def f(sel, *ops):
    def body(m):
      ks = []
      if pre == "key":
        ks.append(hk.next_rng_key())
      elif pre == "reserve":
        hk.reserve_rng_keys(3)
        ks.append(hk.next_rng_key())
      y, inner = run(m, [branch(ACTS[n], i, m) for i, n in enumerate(names)], sel, *ops)
      after = [hk.next_rng_key(), hk.next_rng_key()] if draws else []
      return y, ks, inner, after, m.get("s"), m.get("t"), hk.get_state("z", (), init=jnp.zeros)
    return M(name="m")(names, body)
  return f


def both(ctx, names, mode, pre, run, pick, sel, sel_c, ops, k):
  draws = any(n in NK for n in names)
  ref = lambda m, bs, sel, *ops: bs[sel_c](pick(sel_c, *ops))
  f, g = program(names, pre, run), program(names, pre, ref)
  sh = jax.eval_shape(lambda k, *a: execute("init", None, None, k, g, *a)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds((sel,) + tuple(ops)))
  p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
  go = lambda h: ctx.run(lambda p, s, k, *a: execute(mode, p, s, k if draws else None, h, *a), p, s, k, sel, *ops)
  return go(f), go(g)


def compare(ctx, names, sel_c, pre, k, got, want):
  (y1, b1, i1, a1, *r1), ps1 = got
  (y2, b2, i2, a2, *r2), ps2 = want
  n = NK.get(names[sel_c], 0)
  ctx.eq("result", y1, y2)
  ctx.eq("state seen afterwards", r1, r2)
  ctx.eq("parameters and state returned", ps1, ps2)
  ctx.distinct("keys used before, in the taken branch and afterwards differ", [k] + b1 + i1[:n] + a1)
  if pre != "reserve" and names[sel_c] != "keys3":
    ctx.eq("keys of the taken branch", i1[:n], i2[:n])


@harness("C08", configs=product(names=tuple(PAIRS), mode=("init", "apply"), form=("new", "old", "same object")) + product(names=tuple(n for n in PAIRS if n[0] == n[1]), mode=("init", "apply"), form=("same object, two operands",)), budget=300,
         bounds="cond with boolean or numeric predicate, Python constant or traced (all values), both calling conventions, one function for both branches, branches that read, write, call modules and draw 0..3 keys, keys drawn or reserved before; all values and keys")
def cond(ctx, names, mode, form):
  if form == "same object" and names[0] != names[1]:
    form = "methods"
  taken = ctx.choice("taken", [0, 1])
  kind = ctx.choice("kind", ["bool", "const", "int"] if form == "new" else ["bool"])
  pre = ctx.choice("pre", ["nothing", "key", "reserve"] if any(n in NK for n in names) else ["nothing"])
  k, x, y = ctx.key("k"), ctx.real("x"), ctx.real("y")
  if kind == "bool":
    sel = ctx.boolean("sel")
    ctx.assume(ctx.ge(ctx.run(lambda b: jnp.where(b, 1., 0.), sel), 1.) if taken == 0 else ctx.le(ctx.run(lambda b: jnp.where(b, 1., 0.), sel), 0.))
  elif kind == "int":
    sel = ctx.integer("sel", (), -2, 2)
    ctx.assume(ctx.ne(sel, 0) if taken == 0 else ctx.le(ctx.run(jnp.abs, sel), 0))
  else:
    sel = jnp.asarray(taken == 0)
  def run(m, bs, sel, *ops):
    if form == "old":
      return hk.cond(sel, ops[0], bs[0], ops[1], bs[1])
    if form == "same object, two operands":
      return hk.cond(sel, ops[0], bs[0], ops[1], bs[0])
    if form == "same object":
      # one function object for both branches: it sees which branch runs through the state only
      return hk.cond(sel, bs[0], bs[0], ops[0])
    return hk.cond(sel, true_fun=bs[0], false_fun=bs[1], operand=ops[0]) if form == "methods" else hk.cond(sel, bs[0], bs[1], ops[0])
  pick = (lambda i, a, b: (a, b)[i]) if form == "old" else (lambda i, a: a)
  ops = (x, y) if form in ("old", "same object, two operands") else (x,)
  if form.startswith("same object"):
    def ref_pick(m, bs, sel, *ops):
      return bs[0](ops[taken if len(ops) > 1 else 0])
    draws = any(n in NK for n in names)
    f, g = program(names, pre, run), program(names, pre, ref_pick)
    sh = jax.eval_shape(lambda k, *a: execute("init", None, None, k, g, *a)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds((sel,) + ops))
    p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
    go = lambda h: ctx.run(lambda p, s, k, *a: execute(mode, p, s, k if draws else None, h, *a), p, s, k, sel, *ops)
    compare(ctx, names, 0, pre, k, go(f), go(g))
    return
  got, want = both(ctx, names, mode, pre, run, pick, sel, taken, ops, k)
  compare(ctx, names, taken, pre, k, got, want)


TRIPLES = [("pure",), ("write", "rw"), ("pure", "write", "rw"), ("key", "pure", "keys"), ("mixed", "sub", "scope"), ("keys3", "write2", "mixed"), ("rw", "rw", "rw")]


@harness("C08", configs=product(names=tuple(TRIPLES), mode=("init", "apply")), budget=300,
         bounds="switch over 1..3 branches, constant or traced index in -3..5 (all values; out of range picks the first or last), the same function listed twice, keys drawn or reserved before; all values and keys")
def switch(ctx, names, mode):
  n = len(names)
  taken = ctx.choice("taken", range(n))
  how = ctx.choice("how", ["traced", "constant", "clamped"])
  pre = ctx.choice("pre", ["nothing", "key", "reserve"] if any(x in NK for x in names) else ["nothing"])
  shared = n == 3 and how == "traced" and ctx.flag("shared")
  k, x, y = ctx.key("k"), ctx.real("x"), ctx.real("y", (2,))
  if how == "traced":
    sel = ctx.integer("sel", (), -3, 5)
    ctx.assume(ctx.le(sel, taken)), ctx.assume(ctx.ge(sel, taken))
  elif how == "clamped":
    sel = ctx.integer("sel", (), -3, 5)
    if 0 < taken < n - 1:
      ctx.assume(ctx.le(sel, taken)), ctx.assume(ctx.ge(sel, taken))
    elif n == 1:
      pass
    else:
      ctx.assume(ctx.le(sel, 0) if taken == 0 else ctx.ge(sel, n - 1))
  else:
    sel = jnp.asarray(taken)
  def run(m, bs, sel, x, y):
    if shared:
      bs = [bs[0], bs[1], bs[0]]
    return hk.switch(sel, [(lambda b: lambda op: b(op["x"] + op["y"][1]))(b) for b in bs] if not shared else
                     (lambda l: [l[0], l[1], l[0]])([(lambda b: lambda op: b(op["x"] + op["y"][1]))(b) for b in bs]), {"x": x, "y": y})
  i = 0 if shared and taken == 2 else taken
  got, want = both(ctx, names, mode, pre, run, lambda i, x, y: x + y[1], sel, i, (x, y), k)
  compare(ctx, names, i, pre, k, got, want)


@harness("C08", configs=product(outer=("cond", "switch", "loop"), inner=("cond", "switch")), bounds="branches within branches and within a loop, all combinations of two symbolic predicates; all values and keys")
def nested(ctx, outer, inner):
  mode = ctx.choice("mode", ["init", "apply"])
  A, B = ctx.choice("A", [0, 1]), ctx.choice("B", [0, 1])
  k, x = ctx.key("k"), ctx.real("x")
  a, b = ctx.integer("a", (), 0, 1), ctx.integer("b", (), 0, 1)
  for v, c in ((a, A), (b, B)):
    ctx.assume(ctx.le(v, c)), ctx.assume(ctx.ge(v, c))
  def sel(kind, i, fs, op):
    if kind == "python":
      return fs[i](op)
    return hk.cond(i == 0, fs[0], fs[1], op) if kind == "cond" else hk.switch(i, fs, op)
  def prog(o, n, a, b):
    def leaf(tag):
      def f(x):
        s = hk.get_state("s", (), init=jnp.ones)
        hk.set_state("s", s * x + tag)
        return x * 2. + s * hk.get_parameter("w", (), init=jnp.ones), hk.next_rng_key()
      return f
    def mid(tag):
      def f(x):
        y, k1 = sel(n, b, [leaf(tag), leaf(tag + 10.)], x + tag)
        hk.set_state("r", y)
        return y, k1, hk.next_rng_key()
      return f
    hk.get_state("s", (), init=jnp.ones), hk.get_state("r", (), init=jnp.ones), hk.get_parameter("w", (), init=jnp.ones)
    k0 = hk.next_rng_key()
    if outer == "loop":
      def step(c, t):
        y, k1, k2 = mid(3.)(c)
        return y, (k1, k2)
      if o == "python":
        c, ks = x0, []
        for t in range(2):
          c, kk = step(c, None)
          ks += kk
        y = c
      else:
        y, (q1, q2) = hk.scan(step, x0, None, length=2)
        ks = [q1[0], q2[0], q1[1], q2[1]]
    else:
      y, *ks = sel(o, a, [mid(1.), mid(2.)], x0)
    return y, list(ks), [k0, hk.next_rng_key()], hk.get_state("s"), hk.get_state("r")
  x0 = None
  def go(o, n, concrete):
    def f(x, a, b):
      nonlocal x0
      x0 = x
      return prog(o, n, A if concrete else a, B if concrete else b)
    return f
  sh = jax.eval_shape(lambda k, *r: execute("init", None, None, k, go("python", "python", True), *r)[1], jax.ShapeDtypeStruct((2,), np.uint32), *sds((x, a, b)))
  p, s = (ctx.like("p", sh[0]), ctx.like("s", sh[1])) if mode == "apply" else ({}, {})
  got = ctx.run(lambda p, s, k, *r: execute(mode, p, s, k, go(outer, inner, False), *r), p, s, k, x, a, b)
  want = ctx.run(lambda p, s, k, *r: execute(mode, p, s, k, go("python", "python", True), *r), p, s, k, x, a, b)
  ctx.eq("result, keys, state", got, want)
  ctx.distinct("keys differ", [k] + got[0][1] + got[0][2])


@harness("C08", validate=False, bounds="both loops outside of a transform; a state first created inside only one branch")
def rejected(ctx):
  what = ctx.choice("what", ["cond", "switch"])
  ctx.raises("outside of a transform", lambda: hk.cond(True, lambda x: x, lambda x: x, 1.) if what == "cond" else hk.switch(0, [lambda x: x], 1.), ValueError)


@harness("C08", configs=product(mode=("init", "apply")), bounds="parameters and state first created inside the branches (the same ones in every branch), all predicates and values")
def created_inside(ctx, mode):
  k, x = ctx.key("k"), ctx.real("x")
  taken = ctx.choice("taken", [0, 1])
  sel = ctx.integer("sel", (), 0, 1)
  ctx.assume(ctx.le(sel, taken)), ctx.assume(ctx.ge(sel, taken))
  use = ctx.choice("use", ["cond", "switch"])
  again = ctx.choice("again", ["same", "other", "no"])
  class Q(hk.Module):
    def __call__(self, x, t):
      w = hk.get_parameter("w", (), init=lambda *_: x)
      s = hk.get_state("s", (), init=lambda *_: x * t)
      hk.set_state("s", s + 1. + t)
      return w * x + t + s
  def f(x, sel, how):
    m = Q(name="q")
    fs = [lambda x: m(x, 2.), lambda x: m(x, 5.)]
    if how == "python":
      y = fs[taken](x)
    else:
      y = hk.cond(sel == 0, fs[0], fs[1], x) if use == "cond" else hk.switch(sel, fs, x)
    return y, m(x if again == "same" else x + 1., 0.) if again != "no" else y, hk.next_rng_key()
  p, s = ({}, {})
  if mode == "apply":
    p, s = {"q": {"w": ctx.real("w")}}, {"q": {"s": ctx.real("s")}}
  go = lambda how: ctx.run(lambda p, s, k, x, sel: execute(mode, p, s, k, lambda x, sel: f(x, sel, how), x, sel), p, s, k, x, sel)
  ctx.eq("result, parameters, state, keys", go("haiku"), go("python"))


@harness("C08", configs=product(use=("cond", "switch")), validate=False, bounds="modules created for the first time inside the branches, followed by another module of the same class")
def names_outside(ctx, use):
  class A(hk.Module):
    def __call__(self, x):
      return hk.get_parameter("w", (), init=jnp.ones) * x
  def f(x):
    fs = [lambda x: A()(x), lambda x: A()(x)]
    y = hk.cond(x > 0., fs[0], fs[1], x) if use == "cond" else hk.switch(0, fs, x)
    return A()(y)
  got = hk.transform(f).init(None, jnp.ones(()))
  ctx.check(f"modules made inside {use} keep their names to themselves", sorted(got) == ["a", "a_1"])
