"""C06: custom creators, getters and method interceptors run in order and in scope only.

Every hook applies its own symbolic affine map, so the composition order is
visible in the result for all values; scopes, kinds, exits by exception, short
circuits and repeated continuation are chosen by the solver.
"""
import contextlib
import threading

from checks.common import *


class M(hk.Module):
  def __call__(self, g):
    return g()


def aff(k, v):
  return k[0] * v + k[1]


def request(what, name, v, shape=()):
  if what == "param":
    return hk.get_parameter(name, shape, jnp.float32, init=lambda s, d: v)
  return hk.get_state(name, shape, jnp.float32, init=lambda s, d: v)


HOOK = {"creator": hk.experimental.custom_creator, "getter": hk.experimental.custom_getter}


@harness("C06", configs=product(kind=("creator", "getter"), what=("param", "state"), mode=("init", "apply")) + product(kind=("creator", "getter"), what=("state",), mode=("apply, not given",)),
         bounds="init, apply, and apply where the state is first created; up to 3 nested hooks (each for params, state or both; passing on, stopping early, or continuing twice), one request inside a module and one at top level, requests before, between and after the scopes; all values")
def nesting(ctx, kind, what, mode):
  n = ctx.choice("n", [1, 2, 3])
  regs = [ctx.choice(f"reg{i}", [(True, False), (False, True), (True, True)] if n < 3 else [(True, False), (True, True)]) for i in range(n)]
  acts = [ctx.choice(f"act{i}", ["next", "stop", "twice"]) for i in range(n)]
  exc = ctx.flag("exc") if n < 3 else False
  K = ctx.real("k", (3, 2))
  v = ctx.real("v", (4,))
  g = ctx.real("g", (4,))
  log = []
  def hook(i, k):
    def creator(nxt, shape, dtype, init, c):
      log.append((i, tuple(shape), jnp.dtype(dtype), c.full_name))
      new = lambda s, d: aff(k[i], init(s, d))
      if acts[i] == "stop":
        return new(shape, dtype)
      if acts[i] == "twice":
        nxt(shape, dtype, init)
      return nxt(shape, dtype, new)
    def getter(nxt, value, c):
      log.append((i, tuple(value.shape), value.dtype, c.full_name))
      if acts[i] == "stop":
        return aff(k[i], value)
      if acts[i] == "twice":
        nxt(value * 0 + 7.)
      return nxt(aff(k[i], value))
    return creator if kind == "creator" else getter
  def body(K, v):
    outs = [request(what, "before", v[0])]
    def inside(i):
      if i == n:
        outs.append(M(name="m")(lambda: request(what, "w", v[1])))
        outs.append(request(what, "w", v[2]))
        if exc:
          raise KeyError
        return
      with HOOK[kind](hook(i, K), params=regs[i][0], state=regs[i][1]):
        inside(i + 1)
    try:
      inside(0)
    except KeyError:
      pass
    outs.append(request(what, "after", v[3]))
    return outs
  def run(K, v, g):
    given = {"~": {"before": g[0], "w": g[2], "after": g[3]}, "m": {"w": g[1]}}
    if mode == "init":
      box = []
      p, s = hk.transform_with_state(lambda: box.extend(body(K, v))).init(None)
      return box, (p if what == "param" else s)
    t = hk.transform_with_state(lambda: body(K, v))
    o, s = t.apply(given if what == "param" else {}, given if (what, mode) == ("state", "apply") else {}, None)
    return o, (given if what == "param" else s)
  out, stored = ctx.run(run, K, v, g)
  # ---- reference
  active = [i for i in range(n) if regs[i][0 if what == "param" else 1]]
  def ref(K, v, g):
    base = v if mode != "apply" else g
    def comp(x):
      if kind == "creator":
        # the i-th hook wraps the initialiser it was given; innermost (or the stopping one) evaluates it
        f = lambda y: y
        for i in active:
          f = (lambda i, f: lambda y: aff(K[i], f(y)))(i, f)
          if acts[i] == "stop":
            break
        return f(x)
      for i in active:
        x = aff(K[i], x)
        if acts[i] == "stop":
          break
      return x
    runs = active and (kind == "getter" or mode != "apply")
    seen = [comp(base[1]), comp(base[2])] if runs else [base[1], base[2]]
    keep = seen if kind == "creator" and runs else [base[1], base[2]]
    return [base[0]] + seen + [base[3]], {"~": {"before": base[0], "w": keep[1], "after": base[3]}, "m": {"w": keep[0]}}
  wout, wst = ctx.run(ref, K, v, g)
  ctx.eq("values seen by the reader", out, wout)
  ctx.eq("values stored", stored, wst)
  # ---- order of the hooks and what they were told
  want = []
  def chain(full, j=0):
    if j == len(active):
      return
    i = active[j]
    want.append((i, (), jnp.dtype(jnp.float32), full))
    if acts[i] == "stop":
      return
    chain(full, j + 1)
    if acts[i] == "twice":
      chain(full, j + 1)
  if kind == "getter" or mode != "apply":
    chain("m/w")
    chain("~/w")
  ctx.check(f"hooks run outermost first, each time the chain is continued: {log} vs {want}"[:300], log == want * 1)


@harness("C06", configs=product(kind=("creator", "getter"), what=("param", "state")), bounds="context contents at top level, in modules, nested modules, name scopes and methods; shapes and dtypes as originally requested although an outer hook changed them")
def context(ctx, kind, what):
  place = ctx.choice("place", ["top", "module", "nested", "scope", "ctor"])
  shape = ctx.choice("shape", [(), (2,), (1, 2)])
  dtype = ctx.choice("dtype", [jnp.float32, jnp.float16])
  change = ctx.choice("change", [False, "outer", "inner", "both"]) if kind == "creator" else False
  seen, inits = [], []
  def one(s, d):
    inits.append((tuple(s), jnp.dtype(d)))
    return jnp.ones(s, d)
  v = ctx.real("v", shape)
  def outer(*a):
    nxt, c = a[0], a[-1]
    seen.append(("outer", a[1:-1], c, c.module.module_name if c.module is not None else None))
    if kind == "getter":
      return nxt(a[1])
    if change in ("outer", "both"):
      r = nxt((3,), jnp.int32, one)
      return jnp.ones(shape, dtype) * r.sum().astype(dtype)
    return nxt(*a[1:-1])
  def inner(*a):
    nxt, c = a[0], a[-1]
    seen.append(("inner", a[1:-1], c, c.module.module_name if c.module is not None else None))
    if change in ("inner", "both"):
      r = nxt((2, 2), jnp.int8, one)
      return jnp.ones(a[1], a[2]) * r.sum().astype(a[2])
    return nxt(*a[1:-1])
  get = hk.get_parameter if what == "param" else hk.get_state
  class C(hk.Module):
    def __init__(self, name=None):
      super().__init__(name=name)
      self.w = get("w", shape, dtype, init=one)
  def f():
    g = lambda: get("w", shape, dtype, init=one)
    with HOOK[kind](outer, params=what == "param", state=what == "state"):
      with HOOK[kind](inner, params=what == "param", state=what == "state"):
        if place == "top":
          g()
        elif place == "module":
          M(name="a")(g)
        elif place == "nested":
          M(name="a")(lambda: M(name="b")(g))
        elif place == "scope":
          with hk.experimental.name_scope("a"):
            g()
        else:
          C(name="a")
  p, s = hk.transform_with_state(f).init(None)
  mod = {"top": "~", "nested": "a/b"}.get(place, "a")
  ctx.check("both ran once, in order", [x[0] for x in seen] == ["outer", "inner"])
  for tag, args, c, mname in seen:
    ctx.check("full name", c.full_name == mod + "/w" and c.name == "w" and c.module_name == mod)
    ctx.check("module", (mname is None) if place == "top" else mname == mod)
    ctx.check("original shape and dtype", tuple(c.original_shape) == shape and jnp.dtype(c.original_dtype) == jnp.dtype(dtype))
    if kind == "creator":
      sh, dt = ((3,), jnp.int32) if change in ("outer", "both") and tag == "inner" else (shape, dtype)
      ctx.check("arguments passed on by the previous one", tuple(args[0]) == sh and jnp.dtype(args[1]) == jnp.dtype(dt) and callable(args[2]))
  val = (p if what == "param" else s)[mod]["w"]
  want = {False: 1, "outer": 3, "inner": 4, "both": 12}[change]
  ctx.check(f"the initialiser got what the last hook passed on: {inits}", inits == [
      ((2, 2), jnp.dtype(jnp.int8)) if change in ("inner", "both") else ((3,), jnp.dtype(jnp.int32)) if change else (shape, jnp.dtype(dtype))])
  ctx.eq("value", val, np.full(shape, want, jnp.dtype(dtype)))


@harness("C06", configs=product(kind=("creator", "getter", "interceptor")), validate=False, bounds="hook registered, left (normally, by exception, through a generator closed early, never entered), then used again in the same call, in a nested or later transform, or in another thread")
def leak(ctx, kind):
  how = ctx.choice("how", ["normal", "raise", "raise through transform", "generator", "never entered"])
  what = ctx.choice("what", ["param", "state"])
  probe = ctx.choice("probe", ["same", "later", "thread"])
  ran, kept = [], []
  def hook(*a):
    ran.append(1)
    if kind == "interceptor":
      return a[0](*a[1], **a[2])
    return a[0](*a[1:-1])
  reg = {"creator": lambda: hk.experimental.custom_creator(hook, state=True), "getter": lambda: hk.experimental.custom_getter(hook, state=True),
         "interceptor": lambda: hk.experimental.intercept_methods(hook)}[kind]
  def use(tag):
    M(name=tag)(lambda: request(what, "w", jnp.ones(())))
  def gen():
    with reg():
      use("x")
      yield
      use("y")
  def f():
    if how == "normal":
      with reg():
        use("x")
    elif how == "raise":
      try:
        with reg():
          use("x")
          raise KeyError
      except KeyError:
        pass
    elif how == "raise through transform":
      with reg():
        use("x")
        raise KeyError
    elif how == "generator":
      it = gen()
      next(it)
      it.close()
    else:
      kept.append(reg())   # a context manager that is never entered has no effect
      use("x")
      ctx.check("no effect before it is entered", not ran)
      ran.append(1)
    if probe == "same":
      n = len(ran)
      use("z")
      ctx.check("no effect after the scope", len(ran) == n)
  try:
    hk.transform_with_state(f).init(None)
  except KeyError:
    pass
  ctx.check("ran inside the scope", bool(ran))
  n = len(ran)
  if probe == "later":
    hk.transform_with_state(lambda: use("z")).init(None)
    ctx.check("no effect in a later transform", len(ran) == n)
  if probe == "thread":
    err = []
    def g():
      def other():
        try:
          hk.transform_with_state(lambda: use("z")).init(None)
        except Exception as e:  # pylint: disable=broad-except
          err.append(e)
      m = len(ran)
      with reg():
        t = threading.Thread(target=other)
        t.start()
        t.join()
      ctx.check("no effect in another thread", len(ran) == m and not err)
    hk.transform_with_state(g).init(None)


class N(hk.Module):
  def __init__(self, name=None):
    super().__init__(name=name)
    self.c = 1.

  def __call__(self, x, y=0.):
    w = hk.get_parameter("w", (), init=jnp.ones)
    return x * w + y

  def meth(self, x, y=0.):
    return x - y

  @property
  def prop(self):
    return hk.get_parameter("w", (), init=jnp.ones)


@harness("C06", configs=product(method=("__call__", "meth", "prop", "__init__", "nested"), n=(1, 2, 3)), budget=200,
         bounds="1..3 nested interceptors, each passing on, changing arguments and result, short-circuiting to the original method or to a constant, continuing twice, or raising; calls before and after the scopes; all values")
def interceptors(ctx, method, n):
  A = ["pass", "affine", "orig", "const", "twice", "kw"] if n < 3 else ["affine", "orig", "twice"]
  acts = [ctx.choice(f"a{i}", A) for i in range(n)]
  K = ctx.real("k", (3, 4))
  x, y, w = ctx.real("x"), ctx.real("y"), ctx.real("w")
  log = []
  no_args = method in ("prop", "__init__")
  target = "__call__" if method == "nested" else method
  def change(K, i, a, kw):
    if no_args:
      return a, kw
    return (K[i][0] * a[0] + K[i][1],) + tuple(a[1:]), kw
  def result(K, i, r):
    return r if method == "__init__" else K[i][2] * r + K[i][3]
  def interceptor(i, K):
    def f(nxt, a, kw, c):
      if c.method_name != target or (method == "nested" and c.module.name != "inner"):
        return nxt(*a, **kw)
      log.append((i, c.method_name, getattr(c.module, "module_name", None), isinstance(c.module, N)))
      t = acts[i]
      if t == "pass":
        return nxt(*a, **kw)
      if t == "kw":
        return nxt(*a, **dict(kw, y=K[i][0])) if not no_args else nxt(*a, **kw)
      if t == "orig":
        a, kw = change(K, i, a, kw)
        return result(K, i, c.orig_method(*a, **kw))
      if t == "const":
        return K[i][0] if method != "__init__" else c.orig_method(*a, **kw)
      a, kw = change(K, i, a, kw)
      if t == "twice":
        nxt(*a, **kw)
      return result(K, i, nxt(*a, **kw))
    return f
  class Outer(hk.Module):
    def __call__(self, x, y):
      return N(name="inner")(x, y=y)
  def call(m, x, y):
    if method == "prop":
      return m.prop
    if method == "meth":
      return m.meth(x, y=y)
    if method == "__init__":
      q = N(name="q")
      return q.c
    return m(x, y=y)
  def body(x, y, K):
    m = Outer(name="out") if method == "nested" else N(name="m")
    outs = [call(m, x, y)]
    def go(i):
      if i == n:
        outs.append(call(m, x, y))
        return
      with hk.experimental.intercept_methods(interceptor(i, K)):
        go(i + 1)
    go(0)
    outs.append(call(m, x, y))
    return outs
  path = {"nested": "out/inner"}.get(method, "m")
  out = ctx.run(lambda w, x, y, K: hk.transform(body).apply({path: {"w": w}, "q": {"w": w}}, None, x, y, K), w, x, y, K)
  want_log = []
  def ref(w, x, y, K):
    base = {"prop": lambda x, y: w, "meth": lambda x, y: x - y, "__init__": lambda x, y: 1.}.get(method, lambda x, y: x * w + y)
    def go(i, x, y):
      if i == n:
        return base(x, y)
      want_log.append(i)
      t = acts[i]
      if t == "pass":
        return go(i + 1, x, y)
      if t == "kw":
        return go(i + 1, x, K[i][0])
      if t == "const":
        return K[i][0] if method != "__init__" else 1.
      nx = K[i][0] * x + K[i][1]
      if t == "orig":
        r = base(nx, y)
      else:
        if t == "twice":
          go(i + 1, nx, y)
        r = go(i + 1, nx, y)
      return r if method == "__init__" else K[i][2] * r + K[i][3]
    p = base(x, y)
    return [p, go(0, x, y), p]
  want = ctx.run(lambda w, x, y, K: [jnp.asarray(v, jnp.float32) for v in ref(w, x, y, K)], w, x, y, K)
  got = ctx.run(lambda *o: [jnp.asarray(v, jnp.float32) for v in o], *out)
  ctx.eq("result", got, want)
  ctx.check(f"order {[l[0] for l in log]} vs {want_log}", [l[0] for l in log] == want_log)
  nm = {"nested": "out/inner", "__init__": None}.get(method, "m")
  ctx.check("context", all(l[1] == target and l[3] and (nm is None or l[2] == nm) for l in log))


@harness("C06", bounds="creators, getters and interceptors together on one module; state writes untouched by hooks; all values")
def together(ctx):
  k = ctx.real("k", (3, 2))
  v, s, x = ctx.real("v"), ctx.real("s"), ctx.real("x")
  order = ctx.choice("order", ["cgi", "igc", "gic"])
  class Q(hk.Module):
    def __call__(self, x):
      w = hk.get_parameter("w", (), init=lambda *_: V[0])
      t = hk.get_state("t", (), init=lambda *_: V[1])
      hk.set_state("t", x)
      return w * x + t, hk.get_state("t")
  V = None
  def body(v, s, x, k):
    nonlocal V
    V = (v, s)
    mk = {"c": lambda: hk.experimental.custom_creator(lambda n, sh, d, i, c: n(sh, d, lambda a, b: aff(k[0], i(a, b))), state=True),
          "g": lambda: hk.experimental.custom_getter(lambda n, val, c: n(aff(k[1], val)), state=True),
          "i": lambda: hk.experimental.intercept_methods(lambda n, a, kw, c: n(aff(k[2], a[0])) if c.method_name == "__call__" else n(*a, **kw))}
    with mk[order[0]](), mk[order[1]](), mk[order[2]]():
      return Q(name="q")(x)
  def run(v, s, x, k):
    box = []
    p, st = hk.transform_with_state(lambda: box.append(body(v, s, x, k))).init(None)
    o, st2 = hk.transform_with_state(lambda: body(v, s, x, k)).apply(p, st, None)
    return box[0], p, st, o, st2
  def ref(v, s, x, k):
    w0, t0, xx = aff(k[0], v), aff(k[0], s), aff(k[2], x)
    y = aff(k[1], w0) * xx + aff(k[1], t0)
    o = (y, aff(k[1], xx))
    return o, {"q": {"w": w0}}, {"q": {"t": t0}}, o, {"q": {"t": xx}}
  got, want = ctx.run(run, v, s, x, k), ctx.run(ref, v, s, x, k)
  for lab, a, b in zip(["init outputs", "params", "initial state", "apply outputs", "final state"], got, want):
    ctx.eq(lab, a, b)


AROUND = ["jit", "remat", "named_call", "grad", "vmap", "scan", "fori", "while", "cond", "switch", "eval_shape"]


@harness("C06", configs=product(around=tuple(AROUND), where=("outside", "inside")), budget=200,
         bounds="creators, getters and interceptors (one or all of them) registered outside of or inside of a function that is jitted, rematerialised, named, differentiated, vectorised, looped, branched on or only shaped, in init and apply, with uses before and after; all values")
def around_transforms(ctx, around, where):
  mode = ctx.choice("mode", ["apply"] if around == "while" else ["init", "apply"])
  kinds = ctx.choice("kinds", ["c", "g", "i", "cgi"])
  k, x = ctx.real("k", (3, 2)), ctx.real("x")
  p = {"q": {"w": ctx.real("w")}} if mode == "apply" else {}
  s = {"q": {"t": ctx.real("t")}} if mode == "apply" else {}

  class Q(hk.Module):
    def __call__(self, x):
      w = hk.get_parameter("w", (), init=hk.initializers.Constant(2.))
      t = hk.get_state("t", (), init=jnp.ones)
      hk.set_state("t", t + w)
      return w * x + hk.get_state("t")

  def hooks(k):
    stack = contextlib.ExitStack()
    for c in kinds:
      stack.enter_context({
          "c": lambda: hk.experimental.custom_creator(lambda n, sh, d, i, c: n(sh, d, lambda a, b: aff(k[0], i(a, b))), state=True),
          "g": lambda: hk.experimental.custom_getter(lambda n, v, c: n(aff(k[1], v)), state=True),
          "i": lambda: hk.experimental.intercept_methods(lambda n, a, kw, c: n(aff(k[2], a[0])) if c.method_name == "__call__" else n(*a, **kw))}[c]())
    return stack

  def wrapped(f, how, x):
    if how == "python":
      if around in ("scan", "fori", "while"):
        return f(f(x))
      if around == "vmap":
        return f(x)     # one lane; the state is shared
      if around == "eval_shape":
        return x
      return f(x)
    if how in ("jit", "remat"):
      return {"jit": hk.jit, "remat": hk.remat}[how](f)(x)
    if how == "named_call":
      return hk.experimental.named_call(f, name="zz")(x)
    if how == "grad":
      return hk.value_and_grad(f)(x)[0]
    if how == "vmap":
      return hk.vmap(f)(x[None])[0]
    if how == "scan":
      return hk.scan(lambda c, _: (f(c), None), x, None, length=2)[0]
    if how == "fori":
      return hk.fori_loop(0, 2, lambda _, c: f(c), x)
    if how == "while":
      return hk.while_loop(lambda v: v[0] < 2, lambda v: (v[0] + 1, f(v[1])), (0, x))[1]
    if how == "cond":
      return hk.cond(jnp.asarray(1) > 0, f, lambda x: x, x) if mode == "apply" else hk.cond(jnp.asarray(1) > 0, f, f, x)
    if how == "switch":
      return hk.switch(jnp.asarray(1), [f, f], x)
    hk.eval_shape(f, x)
    return x

  def prog(how):
    def f(k, x):
      m = Q(name="q")
      before = m(x) if mode == "apply" or around == "eval_shape" or pre else None
      if where == "outside":
        with hooks(k):
          r = wrapped(m, how, x)
      else:
        def g(x):
          with hooks(k):
            return m(x)
        r = wrapped(g, how, x)
      return before, r, m(x)
    return f
  pre = ctx.flag("used before") if mode == "init" and around != "eval_shape" else False

  def run(how):
    def go(p, s, k, x):
      t = hk.transform_with_state(prog(how))
      if mode == "init":
        box = []
        u = hk.transform_with_state(lambda k, x: box.append(prog(how)(k, x)))
        p, s = u.init(None, k, x)
        return box[0], p, s
      o, s = t.apply(p, s, None, k, x)
      return o, s
    return ctx.run(go, p, s, k, x)
  ctx.eq("same as without the transform", run(around), run("python"))
