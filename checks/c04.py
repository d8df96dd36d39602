"""C04: module names are deterministic, hierarchical and never collide.

The name requests, parents and nesting ways are solver-chosen; the reference is a
set-based description of the naming rule, independent of how it is implemented.
"""
import dataclasses

from checks.common import *


class Foo(hk.Module):
  """Runs a function in each kind of place a module can be created from."""

  def __init__(self, g=None, name=None):
    super().__init__(name=name)
    self.made = g() if g is not None else None

  def __call__(self, g):
    return g()

  def other(self, g):
    return g()

  def _private(self, g):
    return g()

  @property
  def prop(self):
    return self.g()

  @property
  def slot(self):
    return None

  @slot.setter
  def slot(self, g):
    self.made = g()

  @slot.deleter
  def slot(self):
    self.made = self.g()

  @hk.transparent
  def clear(self, g):
    return g()


@dataclasses.dataclass
class Data(hk.Module):
  size: int = 1
  name: str = None

  def __call__(self, g):
    return g()


class Reference:
  """Names handed out in one scope."""

  def __init__(self):
    self.used = []          # (base, index or None)

  def request(self, name):
    """The name given, or None for an error."""
    head, _, tail = name.rpartition("_")
    if head and tail.isdigit():
      n = (head, int(tail))
      names = [self.show(u) for u in self.used]
      if self.show(n) in names:
        return None
      self.used.append(n)
      return self.show(n)
    idx = [i or 0 for b, i in self.used if b == name]
    n = (name, max(idx) + 1 if idx else None)
    self.used.append(n)
    return self.show(n)

  @staticmethod
  def show(u):
    return u[0] if u[1] is None else f"{u[0]}_{u[1]}"


BIG = ["a", "a_9", "a_10", "a_12", "b_100", "b"]
POOL = [None, "a", "a_1", "a_2", "a_0", "foo", "foo_1", "a_1_1", "b"]


def where(place, g):
  """Runs g in a fresh place; returns (prefix, result)."""
  if place == "top":
    return "", g()
  if place == "function":
    return "", (lambda: g())()
  if place == "call":
    return "p/", Foo(name="p")(g)
  if place == "other":
    return "p/~other/", Foo(name="p").other(g)
  if place == "private":
    return "p/~_private/", Foo(name="p")._private(g)
  if place == "ctor":
    return "p/~/", Foo(g, name="p").made
  if place == "clear":
    return "", Foo(name="p").clear(g)
  if place == "prop":
    p = Foo(name="p")
    p.g = g
    return "p/~prop/", p.prop
  if place == "setter":
    p = Foo(name="p")
    p.slot = g
    return "p/~slot/", p.made
  if place == "deleter":
    p = Foo(name="p")
    p.g = g
    del p.slot
    return "p/~slot/", p.made
  if place == "scope":
    with hk.experimental.name_scope("p"):
      return "p/", g()
  if place == "scope2":
    with hk.experimental.name_scope("p/q"):
      return "p/q/", g()
  if place == "call2":
    p = Foo(name="p")
    p(lambda: [Foo(name="a"), Foo(), Foo(name="a")])     # an earlier call leaves no trace
    return "p/", p(g)
  if place == "after_error":
    p = Foo(name="p")
    def bad():
      Foo(name="a")
      with hk.experimental.name_scope("zz"):
        raise KeyError
    try:
      p(bad)
    except KeyError:
      pass
    return "p/", p(g)
  raise AssertionError(place)


PLACES = ["top", "function", "call", "other", "private", "ctor", "clear", "prop", "scope", "scope2", "call2", "after_error", "setter", "deleter"]


@harness("C04", configs=product(place=tuple(PLACES)) + product(place=("top", "call"), big=(True,)), thorough=product(place=tuple(PLACES), n=(4,)) + product(place=("ctor", "scope"), n=(4,), big=(True,)), validate=False, budget=400,
         bounds="every sequence of 3 (thorough 4) name requests from 9 (none, plain, numbered, doubly numbered, the class's own snake name) or 6 (plain, numbered up to 100) in 14 kinds of place, init and apply")
def sequences(ctx, place, n=3, big=False):
  names = [ctx.choice(f"n{i}", BIG if big else POOL) for i in range(n)]
  cls = Foo if place not in ("scope2",) else None
  ref = Reference()
  want = [ref.request(x or "foo") for x in names]
  mode = "init" if place in ("top", "call2") or n > 3 else ctx.choice("mode", ["init", "apply"])
  def body():
    got = []
    prefix, mods = where(place, lambda: got.extend(Foo(name=x) for x in names) or got)
    return prefix, got
  def run():
    box = []
    t = hk.transform(lambda: box.append(body()))
    t.init(None) if mode == "init" else t.apply({}, None)
    return box[0]
  if None in want:
    ctx.raises(f"repeated explicit name {names}", run, ValueError)
    return
  prefix, mods = run()
  full = [prefix + w for w in want]
  ctx.check(f"names for {names}: {[m.module_name for m in mods]} vs {full}", [m.module_name for m in mods] == full)
  ctx.check("short names", [m.name for m in mods] == want)
  ctx.check("all different", len(set(full)) == len(full))
  ctx.check("deterministic", [m.module_name for m in run()[1]] == full)


WAYS = ["call", "ctor", "other", "prop", "scope", "clear", "function"]


@harness("C04", configs=product(w0=tuple(WAYS)), bounds="module trees of depth 3 over 7 ways of nesting (constructor, call, method, property, name scope, transparent method, function), a parameter and a state entry at every level; all values")
def hierarchy(ctx, w0):
  ways = [w0] + [ctx.choice(f"w{i}", WAYS) for i in (1, 2)]
  if ways[2] in ("clear", "function") and ctx.flag("scoped"):
    ways = ways[:2] + ["scope"]
  v = ctx.real("v", (4, 2))
  entries = {}
  names = []
  def put(level):
    hk.get_parameter(f"p{level}", (), init=lambda s, d: V[level][0])
    hk.get_state(f"s{level}", (), init=lambda s, d: V[level][1])
  def go(level):
    put(level)
    if level == 3:
      return
    g = lambda: go(level + 1)
    w = ways[level]
    if w == "call":
      m = Foo(name=f"m{level}")
      m(g)
    elif w == "ctor":
      m = Foo(g, name=f"m{level}")
    elif w == "other":
      m = Foo(name=f"m{level}")
      m.other(g)
    elif w == "prop":
      m = Foo(name=f"m{level}")
      m.g = g
      m.prop  # pylint: disable=pointless-statement
    elif w == "scope":
      with hk.experimental.name_scope(f"m{level}"):
        g()
      return
    elif w == "clear":
      m = Foo(name=f"m{level}")
      m.clear(g)
    else:
      g()
      return
    names.append((level, m.module_name))
  V = v
  def run(v):
    nonlocal V
    V = v
    names.clear()
    return hk.transform_with_state(lambda: go(0)).init(None)
  p, s = ctx.run(run, v)
  # reference: bundle = module whose method is running; child prefix adds a method marker
  bundle, prefix = "~", ""
  wp, ws, wn = {}, {}, {}
  for level in range(4):
    wp.setdefault(bundle, {})[f"p{level}"] = v[level][0]
    ws.setdefault(bundle, {})[f"s{level}"] = v[level][1]
    if level == 3:
      break
    w = ways[level]
    name = prefix + f"m{level}"
    if w != "function":
      wn[level] = name
    if w in ("clear", "function"):
      continue
    bundle = name
    prefix = name + {"call": "/", "scope": "/", "ctor": "/~/", "other": "/~other/", "prop": "/~prop/"}[w]
  ctx.eq("parameters live under the running module", p, wp)
  ctx.eq("state lives under the running module", s, ws)
  ctx.check(f"full names {names} vs {wn}", all(wn[l] == n for l, n in names))


@harness("C04", configs=product(how=("own", "under", "captured", "scope", "siblings")),
         bounds="modules a, a_1, ab, nested and captured submodules (3 levels), with and without entries; contents exactly those of the module and its submodules, in init and apply; all values")
def dicts(ctx, how):
  v = ctx.real("v", (6,))
  mode = ctx.choice("mode", ["init", "apply"])
  deep = ctx.flag("deep")
  twice = ctx.flag("twice")
  def put(i):
    hk.get_parameter("w", (), init=lambda s, d: V[i])
    hk.get_state("t", (), init=lambda s, d: V[i])
    hk.set_state("t", V[i] * 2)
  class Cap(hk.Module):
    def __init__(self, inner, name=None):
      super().__init__(name=name)
      self.inner = inner
    def __call__(self):
      put(0)
      self.inner(lambda: put(1))
  V = v
  def body(v):
    nonlocal V
    V = v
    if how == "own":
      a, b, c = Foo(name="a"), Foo(name="a"), Foo(name="ab")
      a(lambda: put(0)), b(lambda: put(1)), c(lambda: put(2)), put(3)
      want = {"a/": 0}
    elif how == "siblings":
      a, b, c = Foo(name="a_1"), Foo(name="a_10"), Foo(name="a")
      a(lambda: put(0)), b(lambda: put(1)), c(lambda: put(2)), put(3)
      want = {"a_1/": 0}
    elif how == "under":
      a, b = Foo(name="a"), Foo(name="b")
      def inner():
        put(1)
        if deep:
          Foo(name="e").other(lambda: put(3))
          Foo(name="f").other(lambda: Foo(lambda: put(4), name="g"))
      for _ in range(2 if twice else 1):
        a(lambda: [put(0), Foo(name="d")(inner)])
      b(lambda: [put(2), Foo(name="d")(lambda: put(5))])
      want = {"a/": 0, "a/d/": 1}
      if deep:
        want.update({"a/d/e/": 3, "a/d/f/~other/g/": 4})
    elif how == "captured":
      c, d = Foo(name="c"), Foo(name="d")
      a = Cap(c, name="a")
      if deep:
        x, a = a, Cap(lambda g: x(), name="z")
      for _ in range(2 if twice else 1):
        a()
      d(lambda: put(2))
      want = {"c/": 1, "a/": 0}
      if deep:
        want["z/"] = 0
    else:
      a = Foo(name="a")
      def inner():
        put(0)
        with hk.experimental.name_scope("s"):
          put(1)
          Foo(name="d")(lambda: put(2))
      a(inner)
      with hk.experimental.name_scope("s"):
        put(3)
      want = {"a/": 0, "a/s/": 1, "a/s/d/": 2}
    return a.params_dict(), a.state_dict(), want
  def run(v):
    box = []
    t = hk.transform_with_state(lambda v: box.append(body(v)))
    p, s = t.init(None, v)
    if mode == "apply":
      box.clear()
      t.apply(p, s, None, v)
    pd, sd, want = box[0]
    return pd, sd, {k + "w": v[i] for k, i in want.items()}, {k + "t": v[i] * 2 for k, i in want.items()}
  pd, sd, wp, ws = ctx.run(run, v)
  ctx.eq("params_dict", pd, wp)
  ctx.eq("state_dict", sd, ws)


def snake(s):
  out = ""
  for i, c in enumerate(s):
    new_word = c.isupper() and i > 0 and ((s[i - 1].islower() or s[i - 1].isdigit()) or (i + 1 < len(s) and s[i + 1].islower()))
    out += ("_" if new_word else "") + c.lower()
  return out


@harness("C04", configs=product(n=(1, 2, 3, 4)), thorough=product(n=(5, 6)), validate=False, bounds="all class names of up to 4 (thorough 6) letters over two upper, two lower case letters and a digit not in the last place")
def class_names(ctx, n):
  name = ctx.choice("c0", list("AbY"))
  for i in range(1, n):
    name += ctx.choice(f"c{i}", list("AYbz") + (["2"] if i < n - 1 else []))
  cls = type(hk.Module)(name, (hk.Module,), {"__module__": __name__})
  box = []
  hk.transform(lambda: box.extend([cls().module_name, cls(name="x").module_name, cls().module_name])).init(None)
  ctx.check(f"{name} -> {box}", box == [snake(name), "x", snake(name) + "_1"])


@harness("C04", validate=False, bounds="identifiers and non-identifiers; missing super constructor; dataclass modules; modules outside a transform; nested transforms; two transforms")
def rules(ctx):
  which = ctx.choice("which", ["invalid", "valid", "nosuper", "nosuper sub", "dataclass", "outside", "outside call", "nested", "fresh", "reuse scope", "bad scope", "subclass"])
  box = []
  run = lambda f: hk.transform(f).init(None)
  if which == "invalid":
    bad = ctx.choice("bad", ["1a", "a/b", "a-b", "", "~", "a b", "a.b", "~a"])
    ctx.raises("invalid name", lambda: run(lambda: Foo(name=bad)), ValueError)
  elif which == "valid":
    ok = ctx.choice("ok", ["a", "_a", "A1", "a1b", "_", "a_b"])
    run(lambda: box.append(Foo(name=ok).module_name))
    ctx.check("valid name kept", box == [ok])
  elif which == "nosuper":
    class Bad(hk.Module):
      def __init__(self):  # pylint: disable=super-init-not-called
        pass
    ctx.raises("super constructor required", lambda: run(Bad), ValueError)
    run(lambda: box.append(Foo(name="a").module_name))
    ctx.check("no trace", box == ["a"])
  elif which == "nosuper sub":
    class Bad2(hk.Module):
      def __init__(self):
        hk.Linear(1)
        super().__init__()
    ctx.raises("super constructor first", lambda: run(Bad2), ValueError)
  elif which == "dataclass":
    run(lambda: box.extend([Data(), Data(2), Data(name="x"), Data(3, "y"), Data(4, name="x")]))
    ctx.check("dataclass names", [m.module_name for m in box] == ["data", "data_1", "x", "y", "x_1"] and [m.size for m in box] == [1, 2, 1, 3, 4])
  elif which == "outside":
    ctx.raises("outside", lambda: Foo(name="a"), ValueError)
  elif which == "outside call":
    run(lambda: box.append(Foo(name="a")))
    ctx.raises("outside", lambda: box[0](lambda: 1), ValueError)
    ctx.raises("outside", lambda: box[0].params_dict(), ValueError)
  elif which == "nested":
    def inner():
      box.append(Foo(name="a").module_name)
    def outer():
      box.append(Foo(name="a").module_name)
      def g():
        Foo(name="a")
        run(inner)
        box.append(Foo(name="a").module_name)
      Foo(name="p")(g)
      box.append(Foo(name="a").module_name)
    run(outer)
    ctx.check(f"inner transform has its own names {box}", box == ["a", "a", "p/a_1", "a_1"])
  elif which == "fresh":
    t = hk.transform(lambda: box.append([Foo().module_name, Foo().module_name]))
    t.init(None), t.init(None), t.apply({}, None), t.apply({}, None)
    ctx.check("same names in every call", box == [["foo", "foo_1"]] * 4)
  elif which == "reuse scope":
    def reenter():
      s = hk.experimental.name_scope("s")
      with s:
        with s:
          pass
    def reuse():
      s = hk.experimental.name_scope("s")
      with s:
        pass
      with s:
        pass
    ctx.raises("not reentrant", lambda: run(reenter), ValueError)
    ctx.raises("not reusable", lambda: run(reuse), ValueError)
  elif which == "bad scope":
    bad = ctx.choice("bad", ["", "/a", "a//b", "a-b", "a/", "a/1b", "a/b/1c", "a/b/c-d", "a/b/c/d e"])
    def f():
      with hk.experimental.name_scope(bad):
        pass
    ctx.raises("bad scope name", lambda: run(f), ValueError)
  else:
    class Sub(Foo):
      def __call__(self, g):
        return super().__call__(lambda: [g(), hk.get_parameter("w", (), init=jnp.ones)])
      def other(self, g):
        return super().other(g)
    def f():
      m = Sub(name="s")
      m(lambda: box.append(Foo(name="c").module_name))
      m.other(lambda: box.append(Foo(name="c").module_name))
    p = run(f)
    ctx.check("overriding methods: one scope per call on the stack", box == ["s/c", "s/~other/c"] and set(p) == {"s"})
