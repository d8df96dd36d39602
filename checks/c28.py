"""C28: exported graphs render the computation."""
import collections
import html
import re

from checks.common import *
from jax import lax


# ------------------------------------------------------------ reading dot text
class Read:
  """Nodes (label lines, cluster path) and edges of a dot text."""

  def __init__(self, text):
    self.nodes, self.edges, self.clusters = {}, [], []
    path, pending = [], False
    for line in text.split("\n>\n", 1)[1].splitlines():
      line = line.strip()
      m = re.match(r"subgraph (\S+) \{", line)
      if m:
        path.append(None)
      elif line.startswith("}"):
        if path:
          path.pop()
      elif re.match(r"label = <<b>(.*)</b>>;", line) and path:
        path[-1] = html.unescape(re.match(r"label = <<b>(.*)</b>>;", line).group(1))
        self.clusters.append(tuple(path))
      elif re.match(r"\w+ -> \w+;", line):
        self.edges.append(tuple(re.match(r"(\w+) -> (\w+);", line).groups()))
      elif re.match(r"\w+ \[label=<", line):
        m = re.match(r"(\w+) \[label=<(.*?)>,?\s+(?:id=|shape=)", line)
        lines = [html.unescape(re.sub("</?b>", "", l)) for l in m.group(2).split("<br/>")]
        self.nodes.setdefault(m.group(1), (lines, tuple(path), "<b>" in m.group(2)))


# ------------------------------------------------- programs and what they mean
class Box(hk.Module):
  """Runs what it is given inside its methods."""

  def __call__(self, f):
    return f()

  def other(self, f):
    return f()

  def deep(self, f):
    return Box(name="in")(f)

  def weight(self, f, n):
    return f(hk.get_parameter("w", (n,), init=jnp.ones))


@jax.custom_jvp
def cjvp(a):
  return lax.exp(a)


cjvp.defjvps(lambda g, r, a: lax.mul(g, r))


@jax.custom_vjp
def cvjp(a):
  return lax.tanh(a)


cvjp.defvjp(lambda a: (lax.tanh(a), a), lambda r, g: (g,))
JIT = jax.jit(lambda a, b: lax.sin(lax.add(a, b)))
UNARY = {"neg": (lax.neg, "neg"), "custom_jvp": (cjvp, "exp"), "custom_vjp": (cvjp, "tanh"), "vmap": (jax.vmap(lax.cos), "cos")}
BINARY = {"add": (lax.add, "add"), "jit": (JIT, "pjit")}
OPS = ("neg", "add", "sort", "const", "debug", "custom_jvp", "custom_vjp", "vmap", "jit")
PLACES = {"top": None, "call": ("", "__call__"), "other": ("", "other"), "deep": ("/~deep/in", "deep")}


class Program:
  """A sequence of operations over x, y; `run` performs it, `want` is its graph."""

  def __init__(self, n, steps, form, consts):
    self.n, self.steps, self.form, self.consts = n, steps, form, consts

  def run(self, x, y):
    vals, made = [x, y], collections.Counter()
    for i, (op, a, b, place) in enumerate(self.steps):
      a, b = vals[a], vals[b]
      def go(*w, op=op, a=a, b=b, i=i):
        if op == "debug":
          jax.debug.callback(lambda v: None, a)
          return []
        if op in UNARY:
          return [UNARY[op][0](a)]
        if op in BINARY:
          return [BINARY[op][0](a, b)]
        if op == "sort":
          return list(lax.sort((a, b), num_keys=1))
        if op == "const":
          return [lax.mul(a, self.consts[i])]
        if op == "param":
          return [lax.sub(a, w[0])]
      if op == "param":
        vals += Box(name="box").weight(go, self.n)
      elif place == "top":
        vals += go()
      else:
        vals += getattr(Box(name="box"), PLACES[place][1])(go)
    return self.out(vals)

  def out(self, vals):
    last = vals[-1]
    return {"one": last, "tuple": (last, {"k": vals[2 % len(vals)]}), "dict": {"o": last, "p": [vals[-2]]}}[self.form]

  def names(self, vals):
    """Labels of each output value."""
    last = vals[-1]
    n = {"one": [("output", last)], "tuple": [("output[0]", last), ("output[1]: k", vals[2 % len(vals)])],
         "dict": [("output: o", last), ("output: p/0", vals[-2])]}[self.form]
    d = collections.defaultdict(set)
    for k, v in n:
      d[v].add(k)
    return d

  def want(self, argnames):
    """Nodes: list of (title, outputs, path, sources, value ids); sources are value ids."""
    vals, nodes, boxes = [("arg", argnames[0]), ("arg", argnames[1])], [], 0
    fmt = f"f32[{self.n}]"
    for i, (op, a, b, place) in enumerate(self.steps):
      path = ()
      name = "box" + (f"_{boxes}" if boxes else "")
      if op == "param":
        path = (f"{name} (weight)",)
        boxes += 1
      elif place != "top":
        suffix, method = PLACES[place]
        path = (name if method == "__call__" else f"{name} ({method})",) + ((name + suffix,) if method == "deep" else ())
        boxes += 1
      a, b = vals[a], vals[b]
      if op == "debug":
        nodes.append(("debug_callback", [], path, [a], []))
        continue
      outs = [("op", i, 0)] + ([("op", i, 1)] if op == "sort" else [])
      title = UNARY[op][1] if op in UNARY else BINARY[op][1] if op in BINARY else {"sort": "sort", "const": "mul", "param": "sub"}[op]
      srcs = [a, b] if op in BINARY or op == "sort" else [a]
      if op == "const":
        srcs.append(("const", repr(float(self.consts[i][0])) if self.n == 1 else fmt))
      if op == "param":
        srcs.append(("arg", f"args[0]: {name}/w"))
      nodes.append((title, [fmt] * len(outs), path, srcs, outs))
      vals += outs
    return nodes, self.names(vals)


def compare(ctx, text, nodes, names):
  """The dot text has exactly the given nodes, edges and labels."""
  r = Read(text)
  into = collections.defaultdict(list)
  for a, b in r.edges:
    ctx.check(f"edge {a} -> {b} between drawn nodes", a in r.nodes and b in r.nodes)
    into[b].append(a)
  sources = {a for a, _ in r.edges}
  # Classify.
  args, consts, ops = {}, {}, {}
  for k, (lines, path, bold) in r.nodes.items():
    core = [l for l in lines if l != "(reuse)"]
    if core[0].startswith("args["):
      args[k] = core[0]
    elif k not in into and len(core) == 1 and (re.fullmatch(r"\w+\[[\d,]*\]|[-\d.e]+", core[0])):
      consts[k] = core[0]
    else:
      ops[k] = (lines, path)
  ctx.check(f"one node per operation: {[v[0] for v in ops.values()]} vs {[n[0] for n in nodes]}"[:300], len(ops) == len(nodes))
  def split(lines):
    outs = [l for l in lines if l.startswith("output")]
    return outs, lines[len(outs)], lines[len(outs) + 1:]
  # Assign drawn nodes to operations (search over equal-looking ones).
  look = {k: (split(l)[1], tuple(split(l)[2]), p) for k, (l, p) in ops.items()}
  want_look = [(t, tuple(o), p) for t, o, p, _, _ in nodes]
  ctx.check(f"titles, shapes and clusters {sorted(look.values())} vs {sorted(want_look)}"[:400], sorted(look.values()) == sorted(want_look))
  producer = {v: i for i, n in enumerate(nodes) for v in n[4]}
  def matches(assign):
    inv = {k: i for i, k in enumerate(assign)}
    for i, k in enumerate(assign):
      got = collections.Counter(("op", inv[s]) if s in inv else ("arg", args[s]) if s in args else ("const", consts[s]) for s in into[k])
      want = collections.Counter(("op", producer[s]) if s in producer else s for s in nodes[i][3])
      if got != want:
        return False
      outs = split(ops[k][0])[0]
      mine = [names[v] for v in nodes[i][4] if v in names]
      if any(not (set(outs) & m) for m in mine) or any(all(o not in m for m in mine) for o in outs):
        return False
    return True
  def search(assign, left):
    if not left and len(assign) == len(nodes):
      return matches(assign)
    return any(search(assign + [k], left - {k}) for k in left if look[k] == want_look[len(assign)])
  ctx.check(f"edges and output labels {r.edges} {r.nodes} vs {nodes} {dict(names)}"[:1500], search([], set(ops)))
  # Arguments: one node per use, the first plain and the others marked as reuse.
  uses = collections.Counter(s[1] for n in nodes for s in n[3] if s[0] == "arg")
  ctx.check(f"one node per use of an argument {sorted(args.values())} vs {uses}", collections.Counter(args.values()) == uses)
  for a in uses:
    ctx.check("reuse marked", sum(r.nodes[k][0][0] == "(reuse)" for k in args if args[k] == a) == uses[a] - 1)
  return r


def draw(ctx, p, how, argform, use_params):
  n = p.n
  shape = jax.ShapeDtypeStruct((n,), np.float32)
  if argform == "flat":
    f, names, pack = p.run, ("args[0]", "args[1]"), lambda x, y: (x, y)
  else:
    f, names, pack = (lambda d: p.run(d["a<&"], d["b"][1])), ("args[0]: a<&", "args[0]: b/1"), lambda x, y: ({"a<&": x, "b": (None, y)},)
  t = hk.without_apply_rng(hk.transform(f))
  params = jax.tree_util.tree_map(lambda s: jnp.ones(s.shape, s.dtype), jax.eval_shape(t.init, jax.ShapeDtypeStruct((2,), np.uint32), *pack(shape, shape)))
  names = tuple(re.sub(r"args\[(\d)\]", lambda m: f"args[{int(m.group(1)) + 1}]", s) for s in names)
  if how == "to_dot":
    text = hk.experimental.to_dot(t.apply)(params, *pack(jnp.arange(1., n + 1), jnp.arange(2., n + 2)))
  else:
    text = hk.experimental.abstract_to_dot(t.apply)(params, *pack(shape, shape))
  return text, p.want(names)


HOW = ("to_dot", "abstract_to_dot")


def pick(ctx, i, op, k, place="top"):
  """Step i over k values: choose its operands."""
  a = ctx.choice(f"a{i}", range(k))
  b = ctx.choice(f"b{i}", range(k)) if op in BINARY or op == "sort" else 0
  return (op, a, b, place)


@harness("C28", configs=product(first=OPS, how=HOW), validate=False, budget=300,
         bounds="programs of 1..2 operations (quick; 3 thorough) of 9 kinds on any earlier values (also the second output of a two-output operation), vectors of length 1..2, outputs as value/tuple/dict, nested arguments", thorough=product(first=OPS, how=HOW, last=(3,)))
def operations(ctx, first, how, last=2):
  n = ctx.choice("len", [2, 1]) if first == "const" else 2
  steps, k = [pick(ctx, 0, first, 2)], 3 + (first == "sort") - (first == "debug")
  consts = [np.arange(3. + i, 3. + i + n, dtype=np.float32) for i in range(3)]
  for i in range(1, ctx.choice("n", range(1, last + 1))):
    op = ctx.choice(f"op{i}", OPS)
    steps.append(pick(ctx, i, op, k))
    k += 1 + (op == "sort") - (op == "debug")
  form = ctx.choice("form", ["one", "tuple", "dict"])
  p = Program(n, steps, form, consts)
  text, want = draw(ctx, p, how, ctx.choice("args", ["flat", "tree"]) if len(steps) == 1 else "flat", False)
  compare(ctx, text, *want)


@harness("C28", configs=product(first=tuple(PLACES), how=HOW), validate=False, budget=300,
         bounds="2..3 operations, each performed by no module, a module call, another method, a nested module or with a parameter")
def modules(ctx, first, how):
  n = 2
  steps, k = [(ctx.choice("op0", ["neg", "sort"]), 0, 1, first)], 3
  k += steps[0][0] == "sort"
  consts = [np.arange(3. + i, 3. + i + n, dtype=np.float32) for i in range(3)]
  for i in range(1, ctx.choice("n", [2, 3])):
    op = ctx.choice(f"op{i}", ["add", "param", "const", "debug"] if i == 1 else ["add", "param"])
    place = ctx.choice(f"place{i}", list(PLACES)) if op != "param" else None
    steps.append((op, k - 1, ctx.choice(f"b{i}", [0, k - 1]) if op == "add" else 0, place))
    k += op != "debug"
  p = Program(n, steps, "dict" if k > 3 else "one", consts)
  text, want = draw(ctx, p, how, "flat", True)
  compare(ctx, text, *want)


# --------------------------------------------------- the graph computes the function
def evaluate(r, argvals, consts):
  """Values of the drawn operations, from the drawn edges only."""
  into = collections.defaultdict(list)
  for a, b in r.edges:
    into[b].append(a)
  memo = {}
  def val(k):
    if k not in memo:
      lines = [l for l in r.nodes[k][0] if l != "(reuse)"]
      outs = [l for l in lines if l.startswith("output")]
      title = lines[len(outs)]
      srcs = [val(s) for s in into[k]]
      if title.startswith("args["):
        memo[k] = argvals[title]
      elif not srcs:
        memo[k] = consts[title]
      else:
        memo[k] = {"neg": lambda a: -a, "add": lambda a, b: a + b, "mul": lambda a, b: a * b, "integer_pow": None}[title](*srcs)
    return memo[k]
  return {l: val(k) for k in list(r.nodes) for l in r.nodes[k][0] if l.startswith("output")}


@harness("C28", configs=product(how=HOW, first=("neg", "add", "mul", "const")), validate=False,
         thorough=product(how=HOW, first=("neg", "add", "mul", "const"), free=(3,)), budget=300,
         bounds="programs of 3 operations (neg, add, mul, mul by a constant) on any earlier values (the last uses the second; any in thorough), inside or outside modules; all argument values")
def readback(ctx, how, first, free=2):
  steps = []
  for i in range(3):
    op = first if i == 0 else ctx.choice(f"op{i}", ["neg", "add", "mul", "const"])
    a = ctx.choice(f"a{i}", range(2 + i)) if i < free else 1 + i
    steps.append((op, a, ctx.choice(f"b{i}", range(a + 1)) if op in ("add", "mul") else 0))
  inside = ctx.choice("inside", [None, 1])
  c = jnp.float32(2.5)
  def f(x, y):
    vals = [x, y]
    for i, (op, a, b) in enumerate(steps):
      a, b = vals[a], vals[b]
      go = lambda: {"neg": lambda: lax.neg(a), "add": lambda: lax.add(a, b), "mul": lambda: lax.mul(a, b), "const": lambda: lax.mul(a, c)}[op]()
      vals.append(Box(name="box")(go) if inside == i else go())
    return {"v": vals[-1], "w": vals[-2]}
  t = hk.without_apply_rng(hk.transform(f))
  g = lambda x, y: t.apply({}, x, y)
  if how == "to_dot":
    text = hk.experimental.to_dot(g)(jnp.float32(3.), jnp.float32(5.))
  else:
    text = hk.experimental.abstract_to_dot(g)(*[jax.ShapeDtypeStruct((), np.float32)] * 2)
  x, y = ctx.real("x"), ctx.real("y")
  want = ctx.run(g, x, y)
  got = ctx.run(lambda x, y: evaluate(Read(text), {"args[0]": x, "args[1]": y}, {"2.5": 2.5, "f32[]": 2.5}), x, y)
  ctx.check(f"labelled outputs {sorted(got)}", sorted(got) == ["output: v", "output: w"])
  for k in ("v", "w"):
    ctx.eq(f"the drawn graph computes output {k}", got[f"output: {k}"], want[k])


# ------------------------------------------------------------------ no traces
class Lin(hk.Module):
  def __call__(self, x):
    w = hk.get_parameter("w", x.shape, init=hk.initializers.Constant(2.))
    s = hk.get_state("s", x.shape, init=jnp.zeros)
    hk.set_state("s", s + x)
    return x * w + s + hk.next_rng_key()[0]


@harness("C28", configs=product(how=HOW), bounds="a graph drawn (or failing while it is drawn, inside or outside a module) before or inside uses of a transformed function, name scopes on or off; all parameters, state, inputs and keys")
def no_trace(ctx, how):
  fail = ctx.choice("fail", [None, "outside", "inside"])
  where = ctx.choice("where", ["before", "within"])
  scopes = ctx.flag("scopes")
  to = hk.experimental.to_dot if how == "to_dot" else hk.experimental.abstract_to_dot
  def other(x):
    if fail == "outside":
      raise KeyError("x")
    def bad():
      raise KeyError("y")
    return Box(name="o")(bad if fail else lambda: lax.neg(x))
  def look():
    t = hk.without_apply_rng(hk.transform(other))
    try:
      text = to(t.apply)({}, jnp.ones((2,)))
    except KeyError:
      ctx.check("only failing functions fail", fail is not None)
    else:
      compare(ctx, text, [("neg", ["f32[2]"], ("o",), [("arg", "args[1]")], [("op", 0, 0)])], {("op", 0, 0): {"output"}})
  def f(x, draw=False):
    if draw:
      look()
    return Lin(name="lin")(x)
  k, x = ctx.key("k"), ctx.real("x", (2,))
  t = hk.transform_with_state(f)
  def both(k, x, draw):
    p, s = t.init(k, x, draw=draw)
    return p, s, t.apply(p, s, k, x, draw=draw)
  def stacks():
    j = jax.make_jaxpr(lambda k, x: t.apply({"lin": {"w": x}}, {"lin": {"s": x}}, k, x))(KEY0, jnp.ones((2,)))
    return [str(e.source_info.name_stack) for e in j.eqns]
  hk.experimental.profiler_name_scopes(scopes)
  try:
    want, names = ctx.run(lambda k, x: both(k, x, False), k, x), stacks()
    if where == "before":
      look()
    got = ctx.run(lambda k, x: both(k, x, where == "within"), k, x)
    ctx.eq("later behaviour", got, want)
    ctx.check(f"name scopes as set: {names}"[:200], stacks() == names and any("lin" in n for n in names) == scopes)
    fail = None
    look()
  finally:
    hk.experimental.profiler_name_scopes(True)
