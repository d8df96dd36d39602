"""C01: transformed functions are pure and isolated.

A probe program is run before, between and after other activity (other
transforms, exceptions at solver-chosen points, nested transforms, other threads
preempting at solver-chosen points); everything it returns must be the same for
all parameters, states, inputs and keys.
"""
import os
import sys
import threading

from checks.common import *
from vlib.core import plain


class A(hk.Module):
  def __call__(self, x):
    w = hk.get_parameter("w", (), init=hk.initializers.RandomUniform(1., 2.))
    c = hk.get_state("c", (), init=jnp.ones)
    hk.set_state("c", c * w + x)
    return x * w + c


class B(hk.Module):
  def __init__(self, name=None):
    super().__init__(name=name)
    self.inner = A()

  def __call__(self, x):
    with hk.experimental.name_scope("sc"):
      y = A()(x)
    hk.set_state("seen", y)
    return self.inner(y) + self.meth(x)

  def meth(self, x):
    return A(name="m")(x) + hk.get_parameter("b", (), init=jnp.zeros)


def probe(x):
  """Uses names, parameters, state and keys of every sort."""
  k1 = hk.next_rng_key()
  y = A()(x["a"]) + A()(x["b"][0])
  y = B()(y)
  hk.reserve_rng_keys(2)
  t = hk.get_state("top", (), init=jnp.zeros)
  hk.set_state("top", t + y)
  return {"y": y, "keys": [k1, hk.next_rng_key()], "run": jnp.asarray(hk.running_init())}


class Boom(Exception):
  pass


def other(x, where=None):
  """A different function that can raise at one of many places."""
  def boom(here):
    if here == where:
      raise Boom()
  class L(hk.Module):
    def __init__(self, name=None):
      super().__init__(name=name)
      boom("constructor")
    def __call__(self, x):
      boom("method")
      return x * hk.get_parameter("w", (2,), init=lambda s, d: (boom("initialiser"), jnp.ones(s, d))[1]).sum()
    @property
    def p(self):
      boom("property")
      return 1.
  a = L(name="a")
  x = a(x) + a.p
  boom("top")
  with hk.experimental.name_scope("a"):
    boom("name scope")
    x = L()(x)
  def creator(n, s, d, i, c):
    boom("creator")
    return n(s, d, i)
  def getter(n, v, c):
    boom("getter")
    return n(v)
  def interceptor(n, a, k, c):
    boom("interceptor")
    return n(*a, **k)
  with hk.experimental.custom_creator(creator, state=True), hk.experimental.custom_getter(getter, state=True):
    hk.get_parameter("q", (), init=jnp.ones)
  with hk.experimental.intercept_methods(interceptor):
    x = L()(x)
  with hk.with_rng(hk.next_rng_key()):
    hk.next_rng_key()
    boom("rng scope")
  def f(x):
    boom("inner function")
    return x * 2.
  for w in (hk.jit, hk.remat, hk.experimental.named_call):
    x = w(f)(x)
  x = hk.cond(x > 0., f, lambda x: (boom("branch"), x)[1], x)
  x, _ = hk.scan(lambda c, _: ((boom("scan body"), c)[1], None), x, None, length=2)
  x = hk.fori_loop(0, 2, lambda i, c: (boom("loop body"), c)[1], x)
  x = hk.grad(lambda x: (boom("grad"), x * x)[1])(x)
  x = hk.vmap(lambda x: (boom("vmap"), x)[1])(x[None])[0]
  hk.eval_shape(lambda x: (boom("eval_shape"), x)[1], x)
  t = hk.transform(lambda x: (boom("nested transform"), L()(x))[1])
  p = t.init(None, x)
  t.apply(p, None, x)
  hk.set_state("a", x)
  hk.experimental.lift(t.init, name="l")(None, x) if hk.running_init() else None
  boom("end")
  return x


PLACES = ["constructor", "method", "initialiser", "property", "top", "name scope", "creator", "getter", "interceptor", "rng scope", "inner function", "branch",
          "scan body", "loop body", "grad", "vmap", "eval_shape", "nested transform", "end", None]


def noise(k, mode, where):
  """Runs `other`, which may raise half way, in init or apply."""
  t = hk.transform_with_state(functools.partial(other, where=where))
  good = hk.transform_with_state(other)
  try:
    if mode == "init":
      t.init(k, jnp.ones(()))
    else:
      p, s = good.init(k, jnp.ones(()))
      t.apply(p, s, k, jnp.ones(()))
  except Boom:
    return
  except Exception as e:  # pylint: disable=broad-except
    # a place reached in init only
    raise e


def world(ctx):
  x = {"a": ctx.real("xa"), "b": [ctx.real("xb")]}
  t = hk.transform_with_state(probe)
  sh = init_shapes(t, x)
  p, s = ctx.like("p", sh[0]), ctx.like("s", sh[1])
  return t, p, s, ctx.key("k"), x


def everything(t, p, s, k, x, between=lambda: None):
  between()
  i = t.init(k, x)
  between()
  a = t.apply(p, s, k, x)
  between()
  return plain(i), plain(a)


@harness("C01", configs=product(where=tuple(PLACES), mode=("init", "apply")), budget=200,
         bounds="20 places where other code raises (or not) in init or apply of another transform, before, between and after, at top level, in a transform, and in a jitted apply; all values and keys")
def after_other_activity(ctx, where, mode):
  inside = ctx.choice("inside", ["outside", "nested", "jitted"])
  t, p, s, k, x = world(ctx)
  k2 = ctx.key("k2")
  want = ctx.run(lambda *a: everything(t, *a), p, s, k, x)
  def run(p, s, k, k2, x):
    go = lambda: noise(k2, mode, where)
    if inside == "outside":
      return everything(t, p, s, k, x, go)
    if inside == "nested":
      def g(x):
        first = probe(x)
        return first
      def wrapped(x):
        go()
        r = probe(x)
        go()
        return r
      return everything(hk.transform_with_state(wrapped), p, s, k, x)
    go()
    return plain(t.init(k, x)), plain(jax.jit(t.apply)(p, s, k, x))
  ctx.eq("as on its own", ctx.run(run, p, s, k, k2, x), want)
  for f in (hk.running_init, hk.maybe_next_rng_key, lambda: hk.get_parameter("w", ()), lambda: hk.get_state("w", ()), lambda: hk.set_state("w", 1.), A):
    ctx.raises("nothing is left active", f, ValueError)


def wrap_places(f):
  """f called at one of several places of an outer function."""
  class W(hk.Module):
    def __init__(self, when, name=None):
      super().__init__(name=name)
      if when == "constructor":
        f()
    def __call__(self):
      return f()
  def g(place):
    if place == "constructor":
      W("constructor")
    elif place == "method":
      W("")()
    elif place == "scope":
      with hk.experimental.name_scope("zz"):
        f()
    elif place == "rng scope":
      with hk.with_rng(KEY0):
        f()
    elif place == "initialiser":
      hk.get_parameter("created", (), init=lambda s, d: (f(), jnp.ones(s, d))[1])
    else:
      f()
  return g


@harness("C01", configs=product(place=("top", "constructor", "method", "scope", "rng scope", "initialiser"), inner=("init", "apply", "both", "raise", "jit apply", "twice nested")),
         bounds="a transform run at six places inside another (init, apply, jitted, raising, two levels deep); all values and keys of both")
def nested(ctx, place, inner):
  # initialisers run in init only
  mode = ctx.choice("mode", ["init", "apply"] if place != "initialiser" else ["init"])
  order = ctx.choice("order", ["before", "after", "between"])
  t, p, s, k, x = world(ctx)
  k2, z = ctx.key("k2"), {"a": ctx.real("za"), "b": [ctx.real("zb")]}
  def outer(use, k2, z):
    box = []
    def inside():
      box.clear()
      if inner in ("init", "both"):
        box.append(plain(t.init(k2, z)))
      if inner in ("apply", "both"):
        box.append(plain(t.apply(p_, s_, k2, z)))
      if inner == "jit apply":
        box.append(plain(jax.jit(t.apply)(p_, s_, k2, z)))
      if inner == "twice nested":
        def mid(z):
          hk.get_parameter("mid", (), init=jnp.ones)
          box.append(plain(t.init(k2, z)))
          return hk.next_rng_key()
        box.append(plain(hk.transform(mid).init(k2, z)))
      if inner == "raise":
        try:
          hk.transform(lambda: [A(), A(), hk.next_rng_key(), other(jnp.ones(()), "rng scope")]).init(k2)
        except Boom:
          pass
    g = wrap_places(inside)
    def f(x):
      if order == "before":
        g(place) if use else wrap_places(lambda: None)(place)
      r = [A(name="out")(x["a"]), hk.next_rng_key()]
      if order == "between":
        g(place) if use else wrap_places(lambda: None)(place)
      r += [probe(x)]
      if order == "after":
        g(place) if use else wrap_places(lambda: None)(place)
      r += [A(name="out")(x["a"]), hk.next_rng_key(), A()(x["b"][0])]
      return r
    return f, box
  p_, s_ = None, None
  def run(use):
    def go(p, s, k, k2, x, z, op, os_):
      nonlocal p_, s_
      p_, s_ = p, s
      f, box = outer(use, k2, z)
      keep = []
      o = hk.transform_with_state(lambda x: keep.append(f(x)) or keep[-1])
      if mode == "init":
        ps = o.init(k, x)
        return keep[-1], plain(ps), list(box)
      r = o.apply(op, os_, k, x)
      return plain(r[0]), plain(r[1]), list(box)
    return go
  f0, _ = outer(False, k2, z)
  sh = init_shapes(hk.transform_with_state(f0), x)
  op, os_ = ctx.like("op", sh[0]), ctx.like("os", sh[1])
  got = ctx.run(run(True), p, s, k, k2, x, z, op, os_)
  want = ctx.run(run(False), p, s, k, k2, x, z, op, os_)
  ctx.eq("the outer function is not affected", got[:2], want[:2])
  def alone(p, s, k2, z):
    r = []
    if inner in ("init", "both", "twice nested"):
      r.append(plain(t.init(k2, z)))
    if inner in ("apply", "both", "jit apply"):
      r.append(plain(t.apply(p, s, k2, z)))
    if inner == "twice nested":
      r.append(dict(plain(hk.transform(lambda: hk.get_parameter("mid", (), init=jnp.ones)).init(k2))))
    return r
  ctx.eq("the inner function is not affected", got[2], ctx.run(alone, p, s, k2, z))


@harness("C01", configs=product(form=("dict", "flat", "mixed", "jitted")), bounds="parameters, state and inputs given as dicts, immutable mappings or both, all values; everything compared by identity and value after init and apply")
def arguments(ctx, form):
  mode = ctx.choice("mode", ["init", "apply", "raise"])
  t, p, s, k, x = world(ctx)
  imm = hk.data_structures.to_immutable_dict
  def conv(d, f):
    return imm({m: imm(b) for m, b in d.items()}) if f == "flat" else ({m: imm(b) if i % 2 else dict(b) for i, (m, b) in enumerate(d.items())} if f == "mixed" else {m: dict(b) for m, b in d.items()})
  seen = []
  def f(x):
    r = probe(x)
    seen.append([type(v) for v in (x, x["b"])])
    if mode == "raise":
      raise Boom()
    return r
  tt = hk.transform_with_state(f)
  def run(p, s, k, x):
    pp, ss = conv(p, form), conv(s, form)
    snap = lambda t: [(m, n, id(v)) for m, b in t.items() for n, v in b.items()]
    before = snap(pp), snap(ss), [id(b) for b in pp.values()], id(x["a"]), id(x["b"]), id(x["b"][0])
    st = None
    try:
      if mode == "init":
        tt.init(k, x)
      else:
        _, st = (jax.jit(tt.apply) if form == "jitted" else tt.apply)(pp, ss, k, x)
    except Boom:
      pass
    after = snap(pp), snap(ss), [id(b) for b in pp.values()], id(x["a"]), id(x["b"]), id(x["b"][0])
    if before != after:
      raise AssertionError("arguments were modified")
    if mode == "apply" and form != "jitted":
      # the returned state does not share storage with the state given
      if any(st[m] is ss[m] for m in ss if m in st) and form == "dict":
        raise AssertionError("returned state aliases the argument")
      again = plain(st)
      for m in ss:
        if isinstance(ss[m], dict):
          ss[m].clear()
      if snap(st) != [(m, n, id(v)) for m, b in again.items() for n, v in b.items()]:
        raise AssertionError("returned state depends on the argument afterwards")
    return pp, ss if mode != "apply" or form == "jitted" else s, x
  pp, ss, xx = ctx.run(run, p, s, k, x)
  ctx.eq("values of the arguments", [plain(pp), plain(ss), xx], [p, s, x])


@harness("C01", configs=product(stateful=(False, True), keys=(False, True)), bounds="all ways of transforming one function, with and without state and keys; state used where none is carried; all values")
def variants(ctx, stateful, keys):
  class Q(hk.Module):
    def __call__(self, x, y=1.):
      w = hk.get_parameter("w", (), init=hk.initializers.Constant(2.))
      x = x * w + y
      if stateful:
        c = hk.get_state("c", (), init=jnp.ones)
        hk.set_state("c", c + x)
        x = x * c
      return x
  def f(x, y=1.):
    r = Q(name="q")(x, y=y)
    kk = hk.maybe_next_rng_key()
    return (r, kk) if kk is not None else (r,)
  x, y, w, c = ctx.real("x"), ctx.real("y"), ctx.real("w"), ctx.real("c")
  k = ctx.key("k")
  kk = (lambda k: k) if keys else (lambda k: None)
  tws = hk.transform_with_state(f)
  p, s = {"q": {"w": w}}, ({"q": {"c": c}} if stateful else {})
  i = ctx.run(lambda k, x, y: plain(tws.init(kk(k), x, y=y)), k, x, y)
  a = ctx.run(lambda p, s, k, x, y: plain(tws.apply(p, s, kk(k), x, y=y)), p, s, k, x, y)
  ctx.eq("initial values", i, ({"q": {"w": 2.}}, {"q": {"c": 1.}} if stateful else {}), dtype=False)
  ctx.eq("result", a[0][0], ctx.run(lambda w, c, x, y: (x * w + y) * (c if stateful else 1.), w, c, x, y))
  if stateful:
    ctx.eq("new state", a[1], ctx.run(lambda w, c, x, y: {"q": {"c": c + x * w + y}}, w, c, x, y))
    for tr in (hk.transform(f), hk.without_state(tws)):
      ctx.raises("state under transform, init", lambda tr=tr: jax.eval_shape(lambda x: tr.init(None, x), jnp.ones(())), ValueError)
      ctx.raises("state under transform, apply", lambda tr=tr: jax.eval_shape(lambda x: tr.apply({"q": {"w": x}}, None, x), jnp.ones(())), ValueError)
  else:
    for tr in (hk.transform(f), hk.without_state(tws)):
      ctx.check("pair of init and apply", isinstance(tr, hk.Transformed))
      ctx.eq("init agrees", ctx.run(lambda k, x, y: plain(tr.init(kk(k), x, y=y)), k, x, y), i[0])
      ctx.eq("apply agrees", ctx.run(lambda p, k, x, y: plain(tr.apply(p, kk(k), x, y=y)), p, k, x, y), a[0])
      nr = hk.without_apply_rng(tr)
      ctx.check("still a Transformed", isinstance(nr, hk.Transformed) and not isinstance(nr, hk.TransformedWithState))
      ctx.eq("init agrees", ctx.run(lambda k, x, y: plain(nr.init(kk(k), x, y=y)), k, x, y), i[0])
      ctx.eq("apply without rng", ctx.run(lambda p, x, y: plain(nr.apply(p, x, y=y)), p, x, y), ctx.run(lambda p, x, y: plain(tr.apply(p, None, x, y=y)), p, x, y))
  nr = hk.without_apply_rng(tws)
  ctx.check("still a TransformedWithState", isinstance(nr, hk.TransformedWithState))
  ctx.eq("init agrees", ctx.run(lambda k, x, y: plain(nr.init(kk(k), x, y=y)), k, x, y), i)
  ctx.eq("apply without rng", ctx.run(lambda p, s, x, y: plain(nr.apply(p, s, x, y=y)), p, s, x, y), ctx.run(lambda p, s, x, y: plain(tws.apply(p, s, None, x, y=y)), p, s, x, y))
  ctx.raises("not a transformed function", lambda: hk.without_apply_rng(f), ValueError)
  for bad in ([1], "x", 3):
    ctx.raises("parameters that are not a mapping", lambda: tws.apply(bad, s, None, 1.), TypeError)
    ctx.raises("state that is not a mapping", lambda: tws.apply({"q": {"w": jnp.ones(())}}, bad, None, 1.), TypeError)


@harness("C01", validate=False, bounds="every stateful function of the public API, outside of any transform, in a thread started inside of one, and after one raised")
def outside(ctx):
  when = ctx.choice("when", ["fresh", "thread", "after exception", "after exit"])
  api = {
      "get_parameter": lambda: hk.get_parameter("w", (), init=jnp.ones), "get_state": lambda: hk.get_state("w", (), init=jnp.ones), "set_state": lambda: hk.set_state("w", 1.),
      "next_rng_key": hk.next_rng_key, "next_rng_keys": lambda: hk.next_rng_keys(1), "reserve": lambda: hk.reserve_rng_keys(1), "maybe": hk.maybe_next_rng_key, "with_rng": lambda: hk.with_rng(KEY0),
      "running_init": hk.running_init, "module": A, "creator": lambda: hk.experimental.custom_creator(lambda n, *a: n(*a[:3])), "getter": lambda: hk.experimental.custom_getter(lambda n, v, c: n(v)),
      "interceptor": lambda: hk.experimental.intercept_methods(lambda n, a, k, c: n(*a, **k)), "name_scope": lambda: hk.experimental.name_scope("a"),
      "linear": lambda: hk.Linear(1), "dropout": lambda: hk.dropout(None, .1, jnp.ones(())) if False else hk.get_parameter("x", (), init=jnp.ones),
      "jit": lambda: hk.jit(lambda: 1), "scan": lambda: hk.scan(lambda c, x: (c, x), 0., None, length=1), "lift": lambda: hk.experimental.lift(lambda k: {}),
  }
  res = {}
  def go():
    for n, f in api.items():
      try:
        f()
        res[n] = None
      except Exception as e:  # pylint: disable=broad-except
        res[n] = e
  if when == "fresh":
    go()
  elif when == "thread":
    def f():
      th = threading.Thread(target=go)
      th.start()
      th.join()
    hk.transform_with_state(f).init(KEY0)
  elif when == "after exception":
    try:
      hk.transform_with_state(lambda: 1 / 0).init(KEY0)
    except ZeroDivisionError:
      pass
    go()
  else:
    hk.transform_with_state(probe).init(KEY0, {"a": 1., "b": [2.]})
    go()
  for n, e in res.items():
    ctx.check(f"{n} refuses to run: {type(e).__name__}", isinstance(e, ValueError))


SRC = os.path.join(os.path.dirname(os.path.abspath(hk.__file__)), "_src") + os.sep


class Baton:
  """Lets exactly one of two threads run; the first is preempted at chosen points."""

  def __init__(self, points, lines):
    self.points, self.lines, self.count = set(points), lines, 0
    self.turn = threading.Semaphore(0)
    self.back = threading.Semaphore(0)
    self.other_done = False
    self.hits, self.places = 0, []

  def trace(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(SRC):
      return None
    if event == "call" or (self.lines and event == "line"):
      self.places.append((frame.f_code, frame.f_lineno if self.lines else 0))
      if self.count in self.points:
        self.switch()
      self.count += 1
    return self.trace if self.lines else None

  def switch(self):
    """Called by the first thread: lets the second run until it hands back or ends."""
    self.hits += 1
    if self.other_done:
      return
    old = sys.gettrace()
    self.turn.release()
    self.back.acquire()
    sys.settrace(old)


def traced(f, args):
  jx, shape = jax.make_jaxpr(f, return_shape=True)(*args)
  return jx, jax.tree_util.tree_structure(shape)


def interleave(first, second, points, lines, stops=0):
  """Traces both functions in two threads; the second runs at the points chosen of the first."""
  b = Baton(points, lines)
  res, err = {}, []
  def one():
    try:
      sys.settrace(b.trace)
      try:
        res[0] = first()
      finally:
        sys.settrace(None)
    except BaseException as e:  # pylint: disable=broad-except
      err.append(e)
    finally:
      if not b.other_done:
        b.turn.release()
  n = [0]
  def second_trace(frame, event, arg):
    # the second thread hands back once, at its own chosen point
    if event == "call" and frame.f_code.co_filename.startswith(SRC):
      if n[0] == stops and stops:
        b.back.release()
        b.turn.acquire()
      n[0] += 1
    return None
  def two():
    b.turn.acquire()
    try:
      if stops:
        sys.settrace(second_trace)
      try:
        res[1] = second()
      finally:
        sys.settrace(None)
    except BaseException as e:  # pylint: disable=broad-except
      err.append(e)
    finally:
      b.other_done = True
      b.back.release()
  ts = [threading.Thread(target=one), threading.Thread(target=two)]
  for t in ts:
    t.start()
  for t in ts:
    t.join(60)
  if err:
    raise err[0]
  return res[0], res[1], b.places


PROGRAMS = {
    "same function": (probe, probe),
    "other function": (probe, lambda x: other(x["a"] + x["b"][0])),
    "hooks": (lambda x: hooked(x), lambda x: probe(x)),
    "raising": (probe, lambda x: raising(x)),
    "optimised": (hk.experimental.optimize_rng_use(probe), probe),
    "both optimised": (hk.experimental.optimize_rng_use(probe), hk.experimental.optimize_rng_use(lambda x: hooked(x))),
}


def hooked(x):
  log = []
  with hk.experimental.custom_creator(lambda n, s, d, i, c: n(s, d, lambda s, d: i(s, d) * 3.)), \
       hk.experimental.custom_getter(lambda n, v, c: n(v * 2.)), \
       hk.experimental.intercept_methods(lambda n, a, k, c: (log.append(c.method_name), n(*a, **k))[1]):
    r = A()(x["a"])
    with hk.experimental.name_scope("deep"):
      r = r + A()(x["b"][0])
  return {"r": r, "n": jnp.asarray(len(log))}


def raising(x):
  try:
    hk.transform(lambda: other(jnp.ones(()), "rng scope")).init(KEY0)
  except Boom:
    pass
  return probe(x)


def ends(places):
  """Indices of the first and the last visit of every place."""
  return sorted(set({p: i for i, p in reversed(list(enumerate(places)))}.values()) | set({p: i for i, p in enumerate(places)}.values()))


@functools.lru_cache(None)
def alone(prog, mode, fine):
  f, g = PROGRAMS[prog]
  tf, tg = hk.transform_with_state(f), hk.transform_with_state(g)
  if prog == "same function":
    tg = tf
  x = {"a": jnp.ones(()), "b": [jnp.ones(())]}
  key = jax.ShapeDtypeStruct((2,), np.uint32)
  def call(t):
    if mode == "init":
      return lambda: traced(lambda k, x: plain(t.init(k, x)), (key, x))
    sh = jax.eval_shape(t.init, key, x)
    args = (plain(sh[0]), plain(sh[1]), key, x)
    return lambda: traced(lambda *a: plain(t.apply(*a)), args)
  cf, cg = call(tf), call(tg)
  jf, jg = cf(), cg()
  places = interleave(cf, lambda: None, (), fine)[2]
  return cf, cg, jf, jg, (ends(places) if not fine else list(range(len(places))))


@harness("C01", configs=product(prog=tuple(PROGRAMS), part=tuple(range(6))), thorough=product(prog=tuple(PROGRAMS), part=tuple(range(64)), fine=(True,)), validate=False, budget=200,
         bounds="two threads running transformed functions, the first preempted at the first or last entry of any haiku function (thorough: at any line executed) for the whole of the second or until a chosen point of it; all values and keys of both")
def threads(ctx, prog, part, fine=False):
  mode = ctx.choice("mode", ["apply", "init"])
  cf, cg, jf, jg, points = alone(prog, mode, fine)
  parts = 64 if fine else 6
  points = points[part::parts]
  at = points[int(ctx.int("at", 0, len(points) - 1))]
  stop = ctx.choice("stop", [0, 7, 31]) if fine else (0, 7, 31)[at % 3]
  (kf, tf2), (kg, tg2), _ = interleave(cf, cg, (at,), fine, stop)
  ctx.check("structure", tf2 == jf[1] and tg2 == jg[1])
  # identical programs need no solver; otherwise decide equality for all inputs
  for name, a, b in (("first", jf[0], kf), ("second", jg[0], kg)):
    if str(a) == str(b) and all(np.array_equal(i, j) for i, j in zip(a.consts, b.consts)):
      ctx.check(f"{name} thread as on its own", True)
      continue
    ins = [ctx.key(f"{name}{i}") if v.aval.dtype == np.uint32 else ctx.real(f"{name}{i}", v.aval.shape) for i, v in enumerate(a.jaxpr.invars)]
    ctx.check(f"{name} thread: same inputs", [v.aval.shape for v in a.jaxpr.invars] == [v.aval.shape for v in b.jaxpr.invars])
    ctx.eq(f"{name} thread as on its own", ctx.run(lambda *i: jax.core.eval_jaxpr(b.jaxpr, b.consts, *i), *ins), ctx.run(lambda *i: jax.core.eval_jaxpr(a.jaxpr, a.consts, *i), *ins))
