"""C26: module summaries report what actually ran and leave no trace.

The programs under summary are made of solver-chosen calls; every method writes
its own log of what it was given and returned, which is the oracle.  That later
behaviour is unchanged is decided for all parameter values, inputs and keys.
"""
from checks.common import *
import re

LOG = []


def spec(t):
  return jax.tree_util.tree_map(lambda a: ("arr", tuple(a.shape), str(a.dtype)) if isinstance(a, jnp.ndarray) else a, t)


def got_spec(t):
  is_spec = lambda a: type(a).__name__ == "ArraySpec"
  return jax.tree_util.tree_map(lambda a: ("arr", tuple(a.shape), str(np.dtype(a.dtype))) if is_spec(a) else a, t, is_leaf=is_spec)


class Entry:
  """One call as the method itself saw it."""

  def __init__(self, mod, method, args, kwargs):
    self.mod, self.method, self.args, self.kwargs = mod, method, spec(args), spec(kwargs)
    self.stack = [(m, n) for m, n in STACK]
    self.out, self.done = None, False
    LOG.append(self)
    STACK.append((mod, method))

  def ret(self, out):
    STACK.pop()
    self.out, self.done = spec(out), True
    return out


STACK = []


class A(hk.Module):
  """Parameters, several methods, a property."""

  def __init__(self, width, name=None):
    super().__init__(name=name)
    self.width = width

  def __call__(self, x, scale=None, **extra):
    e = Entry(self, "__call__", (x,) if scale is None else (x, scale), extra)
    w = hk.get_parameter("w", (x.shape[-1], self.width), init=jnp.ones)
    b = hk.get_parameter("b", (self.width,), init=jnp.zeros)
    y = x @ w + b
    return e.ret(y if scale is None else y * scale)

  def other(self, x, y=None):
    e = Entry(self, "other", (x,), {} if y is None else {"y": y})
    out = {"a": x + 1., "b": (self(x), None)}
    return e.ret(out)

  @property
  def prop(self):
    e = Entry(self, "prop", (), {})
    return e.ret(hk.get_parameter("p", (3,), init=jnp.ones))

  def nothing(self, flag):
    e = Entry(self, "nothing", (flag,), {})
    return e.ret(None)


class S(hk.Module):
  """State and keys."""

  def __call__(self, x):
    e = Entry(self, "__call__", (x,), {})
    c = hk.get_state("c", (), jnp.int32, init=jnp.zeros)
    hk.set_state("c", c + 1)
    hk.set_state("last", x)
    return e.ret(x + jax.random.uniform(hk.next_rng_key()) * 0. + c)


class B(hk.Module):
  """Calls modules made in its constructor, in its methods and given from outside."""

  def __init__(self, given=None, name=None):
    super().__init__(name=name)
    self.inner = A(2, name="inner")
    self.given = given

  def __call__(self, x):
    e = Entry(self, "__call__", (x,), {})
    y = self.inner(x)
    if self.given is not None:
      y = y + self.given(x)
    y = self.inner.other(y)["a"]
    y = self.meth(y, [y])
    return e.ret((y, {"k": x}))

  def meth(self, x, rest):
    e = Entry(self, "meth", (x, rest), {})
    out = A(2)(x) + rest[0]
    rest.pop()   # arguments are recorded as they were passed
    return e.ret(out)


class D(hk.Module):
  """Reaches a given module through a method of a child, or through its call."""

  def __init__(self, given, depth, name=None):
    super().__init__(name=name)
    self.child = D(given, depth - 1, name=f"d{depth}") if depth else given
    self.depth = depth

  def __call__(self, x):
    e = Entry(self, "__call__", (x,), {})
    return e.ret(self.child.run(x) if self.depth else self.child(x))

  def run(self, x):
    e = Entry(self, "run", (x,), {})
    return e.ret(self.child(x))


class R(hk.Module):
  """Raises after calling another module."""

  def __call__(self, x):
    e = Entry(self, "__call__", (x,), {})
    A(2, name="before")(x)
    STACK.pop()
    raise KeyError


CALLS = {
    "a": lambda x: A(2)(x), "a kw": lambda x: A(2, name="n")(x, other=x[0], flag=3), "a scale": lambda x: A(2)(x, x[:, :1]), "other": lambda x: A(2).other(x, y=x)["b"][0],
    "prop": lambda x: x + A(2).prop.sum(), "nothing": lambda x: (A(2, name="z").nothing(True), x)[1], "s": lambda x: S()(x), "b": lambda x: B()(x)[0],
    "b given": lambda x: B(A(2, name="g"))(x)[0], "raise": None, "deep given": lambda x: D(A(2, name="far"), 2)(x), "deep given run": lambda x: D(S(name="far"), 2).run(x), "no modules": lambda x: x * 2., "named scope": None,
}


def step(c, x):
  if c == "raise":
    try:
      R()(x)
    except KeyError:
      pass
    return x
  if c == "named scope":
    with hk.experimental.name_scope("sc"):
      return A(2, name="in")(x)
  return CALLS[c](x)


def program(calls):
  def f(x):
    for c in calls:
      x = step(c, x)
    return x
  return f


def recorded(f, *args):
  """What the methods saw in the last run of f."""
  def run():
    t = hk.transform_with_state(f)
    def g(k):
      p, s = t.init(k, *args)
      del LOG[:], STACK[:]
      return t.apply(p, s, k, *args)
    jax.eval_shape(g, jax.ShapeDtypeStruct((2,), np.uint32))
  run()
  return [e for e in LOG if e.done]


def own(tree, e, log):
  """Entries of the module, of modules below it and of modules it has called."""
  mod = e.mod.module_name
  used = {c.mod.module_name for c in log if e.mod in [m for m, _ in c.stack]}
  return {f"{m}/{n}": ("arr", tuple(v.shape), str(v.dtype)) for m, b in tree.items() for n, v in b.items() if m == mod or m.startswith(mod + "/") or m in used}


FORMS = ["function", "transform", "transform_with_state", "init", "apply"]


@harness("C26", configs=product(first=tuple(CALLS)), validate=False, budget=300,
         bounds="functions of 1..3 module calls (several methods, properties, keyword arguments, trees, nested, shared and given modules, state, keys, modules reached through methods of children, exceptions that are caught, name scopes) given as function, transformed or init/apply; batch 1..3")
def summary(ctx, first):
  n = ctx.choice("n", [1, 2, 3])
  calls = [first] + [ctx.choice(f"c{i}", ["a", "s", "b given", "raise"]) for i in range(1, n)]
  form = ctx.choice("form", FORMS) if n < 3 else "function"
  batch = ctx.int("batch", 1, 3) if n == 1 else 2
  f = program(calls)
  stateful = any(c in ("s", "deep given run") for c in calls)
  if form == "transform" and stateful:
    form = "transform_with_state"
  x = jnp.ones((batch, 2))
  g = {"function": lambda: f, "transform": lambda: hk.transform(f), "transform_with_state": lambda: hk.transform_with_state(f),
       "init": lambda: hk.transform_with_state(f).init, "apply": lambda: hk.transform_with_state(f).apply}[form]()
  want = recorded(f, x)
  every = list(LOG)
  shapes = jax.eval_shape(lambda k: hk.transform_with_state(f).init(k, x), jax.ShapeDtypeStruct((2,), np.uint32))
  state = jax.eval_shape(lambda k: (lambda t: t.apply(*t.init(k, x), k, x)[1])(hk.transform_with_state(f)), jax.ShapeDtypeStruct((2,), np.uint32))
  del LOG[:], STACK[:]
  got = hk.experimental.eval_summary(g)(x)
  ctx.check("no gaps in the list", all(i is not None for i in got))
  ctx.check(f"the calls made, in order: {[(i.module_details.module.module_name, i.module_details.method_name) for i in got]}"[:300],
            [(i.module_details.module.module_name, i.module_details.method_name) for i in got] == [(e.mod.module_name, e.method) for e in want])
  for i, e in zip(got, want):
    where = f"{e.mod.module_name}.{e.method}"
    ctx.check(f"{where}: arguments {i.args_spec} vs {e.args}"[:300], got_spec(tuple(i.args_spec)) == tuple(e.args) and got_spec(dict(i.kwargs_spec)) == dict(e.kwargs))
    ctx.check(f"{where}: result {i.output_spec} vs {e.out}"[:300], got_spec(i.output_spec) == e.out)
    ctx.check(f"{where}: call stack", [(d.module.module_name, d.method_name) for d in i.call_stack if type(d.module) is not hk.Module] == [(e.mod.module_name, e.method)] + [(m.module_name, q) for m, q in reversed(e.stack)])
    ctx.check(f"{where}: context", i.context.method_name == e.method and i.context.module is i.module_details.module and type(i.context.module) is type(e.mod))
    ctx.check(f"{where}: own parameters", got_spec(dict(i.module_details.params)) == own(shapes[0], e, every))
    st = got_spec(dict(i.module_details.state))
    ctx.check(f"{where}: own state", st == own(state, e, every))


@harness("C26", configs=product(first=tuple(CALLS)), validate=False, budget=300, bounds="tables over the same functions, any one or all columns, with and without each filter")
def table(ctx, first):
  second = ctx.choice("second", ["a", "prop", "raise", "b", "nothing"])
  cols = ctx.choice("cols", [None, ("module",), ("output", "owned_params"), ("module", "owned_params"), ("input", "output"), ("params_size", "params_bytes")])
  filt = ctx.choice("filt", [None, (), ("has_output",), ("has_params",)])
  f = program([first, second])
  x = jnp.ones((2, 2))
  calls = recorded(f, x)
  every = list(LOG)
  shapes = jax.eval_shape(lambda k: hk.transform_with_state(f).init(k, x), jax.ShapeDtypeStruct((2,), np.uint32))[0]
  kw = {} if filt is None else dict(filters=filt)
  if cols is not None:
    kw["columns"] = cols
  text = hk.experimental.tabulate(f, tabulate_kwargs={"tablefmt": "tsv"}, **kw)(x)
  rows = hk.experimental.tabulate(f, tabulate_kwargs={"tablefmt": "grid"}, **kw)(x)
  active = ("has_output", "has_params") if filt is None else filt
  keep = [e for e in calls if ("has_output" not in active or e.out is not None) and ("has_params" not in active or own(shapes, e, every))]
  if not keep:
    ctx.check("nothing to list", "+" not in rows)
    return
  body = [r for r in re.split(r"\n\+[-=+]+\+\n?", "\n" + rows.split("\n", 1)[1] if rows.startswith("+") else rows) if r.strip()][1:]
  ctx.check(f"one row per call that passes the filters: {len(body)} vs {len(keep)}", len(body) == len(keep))
  cells = []
  for r in body:
    lines = [l.strip("|").split(" | ") if l.count(" | ") else [l.strip("|")] for l in r.strip("\n").split("\n")]
    cells.append(["\n".join(l[j].strip(" |") for l in lines if j < len(l)).strip() for j in range(len(lines[0]))])
  names = cols or ("module", "config", "owned_params", "input", "output", "params_size", "params_bytes")
  fmt = lambda s: {"float32": "f32", "int32": "s32"}[s[2]] + "[" + ",".join(map(str, s[1])) + "]"
  for cell, e in zip(cells, keep):
    d = dict(zip(names, cell))
    mine = own(shapes, e, every)
    size = lambda s: int(np.prod(s[1]))
    if "module" in d:
      want = f"{e.mod.module_name} ({type(e.mod).__name__}" + ("" if e.method == "__call__" else "." + e.method) + ")"
      ctx.check(f"module column {d['module'].splitlines()[0]}", d["module"].splitlines()[0].strip() == want)
      ctx.check("callers", len(d["module"].splitlines()) == 1 + len(e.stack) + (first == "named scope" and e.mod.module_name.startswith("sc/")))
    if "owned_params" in d:
      ps = {k.rsplit("/", 1)[1]: v for k, v in mine.items() if k.rsplit("/", 1)[0] == e.mod.module_name}
      lines = [f"{k}: {fmt(v)}" for k, v in sorted(ps.items(), key=lambda i: (-size(i[1]), i[0]))]
      ctx.check(f"own parameters {d['owned_params']!r}", [l.strip() for l in d["owned_params"].splitlines() if l.strip()] == lines)
    if "params_size" in d:
      ctx.check(f"parameter count {d['params_size']}", int(d["params_size"].replace(",", "")) == sum(map(size, mine.values())))
    if "params_bytes" in d:
      ctx.check(f"parameter bytes {d['params_bytes']}", d["params_bytes"] == f"{4 * sum(map(size, mine.values())):.2f} B")
    if "input" in d and e.method == "__call__" and len(e.args) == 1 and not e.kwargs:
      ctx.check("input column", d["input"] == fmt(e.args[0]))
    if "output" in d and isinstance(e.out, tuple) and e.out and e.out[0] == "arr":
      ctx.check("output column", d["output"] == fmt(e.out))


@harness("C26", configs=product(call=tuple(CALLS)), bounds="summary or table made before, between and after uses of the same transformed function, also one that raises and one made inside another transform; all parameters, state, inputs and keys")
def no_trace(ctx, call):
  how = ctx.choice("how", ["eval_summary", "tabulate", "raising"])
  where = ctx.choice("where", ["outside", "inside"])
  f = program([call, "a", "s"])
  k, x = ctx.key("k"), ctx.real("x", (1, 2))
  def look(t):
    if how == "eval_summary":
      return hk.experimental.eval_summary(t)(jnp.ones((1, 2)))
    if how == "tabulate":
      return hk.experimental.tabulate(t)(jnp.ones((1, 2)))
    def bad(x):
      f(x)
      raise KeyError
    try:
      hk.experimental.eval_summary(bad)(jnp.ones((1, 2)))
    except KeyError:
      pass
  def prog(probe):
    def g(x):
      if probe and where == "inside":
        look(f)
      return f(x), hk.next_rng_key()
    t = hk.transform_with_state(g)
    def run(p, s, k, x):
      if probe and where == "outside":
        look(t)
      i = t.init(k, x)
      if probe and where == "outside":
        look(t)
      a = t.apply(p, s, k, x)
      if probe and where == "outside":
        look(t)
      return i, a, t.apply(p, s, k, x)
    return t, run
  t0, r0 = prog(False)
  sh = init_shapes(t0, x)
  p, s = ctx.like("p", sh[0]), ctx.like("s", jax.tree_util.tree_map(lambda v: v, sh[1]))
  s = {m: dict(b, last=ctx.real(f"last{m}", (1, 2))) if "c" in b else b for m, b in s.items()}
  ctx.eq("as without summaries", ctx.run(prog(True)[1], p, s, k, x), ctx.run(r0, p, s, k, x))
