"""C05: random keys are unique, deterministic and derived from the given key only.

Splitting is modelled as a free (injective, acyclic) algebra over symbolic base
keys, so "pairwise different" is decided for every key value at once.
"""
from checks.common import *

OPS = ["next", "take2", "take3", "reserve1", "reserve2", "maybe", "take0", "reserve0", "take1"]
LATER = ["next", "take2", "reserve1", "reserve2"]


def do(op):
  """One request through the public functional API; returns the keys handed out."""
  if op == "next":
    return [hk.next_rng_key()]
  if op == "maybe":
    return [hk.maybe_next_rng_key()]
  if op.startswith("take"):
    ks = hk.next_rng_keys(int(op[4:]))
    assert len(ks) == int(op[4:])
    return list(ks)
  hk.reserve_rng_keys(int(op[7:]))
  return []


def seq_do(seq, op):
  if op in ("next", "maybe"):
    return [next(seq) if op == "next" else seq.next()]
  if op.startswith("take"):
    ks = seq.take(int(op[4:]))
    assert len(ks) == int(op[4:])
    return list(ks)
  seq.reserve(int(op[7:]))
  return []


@harness("C05", configs=product(mode=("init", "apply", "seq"), first=tuple(OPS)),
         thorough=product(mode=("init", "apply", "seq"), first=tuple(OPS), n=(4,)), budget=300,
         bounds="every sequence of 3 (thorough 4) requests followed by two more keys; nested scope (depth 1 or 2) at any position; all keys")
def sequences(ctx, mode, first, n=3):
  k, k2, k3 = ctx.key("k"), ctx.key("k2"), ctx.key("k3")
  ops = [first] + [ctx.choice(f"o{i}", LATER) for i in range(1, n)]
  flat = lambda ks: [x for y in ks for x in y]
  if mode == "seq":
    def f(k):
      seq = hk.PRNGSequence(k)
      return flat(seq_do(seq, o) for o in ops + ["next", "take2"])
    keys = ctx.run(f, k)
    ctx.distinct("all keys of a sequence differ", [k] + keys)
    kids = ctx.run(lambda ks: [list(jax.random.split(x, n)) for x in ks for n in (2, 3)], keys)
    ctx.distinct("keys split from the keys handed out are not handed out themselves", keys + flat(kids))
    # saving and restoring
    at = ctx.choice("save", range(n + 1))
    def g(k, k2):
      seq = hk.PRNGSequence(k)
      a = flat(seq_do(seq, o) for o in ops[:at])
      st = seq.internal_state
      b = flat(seq_do(seq, o) for o in ops[at:] + ["next", "take2"])
      seq.replace_internal_state(st)
      c = flat(seq_do(seq, o) for o in ops[at:] + ["next", "take2"])
      other = hk.PRNGSequence(st)
      d = flat(seq_do(other, o) for o in ops[at:] + ["next", "take2"])
      third = hk.PRNGSequence(k2)
      seq_do(third, "take2"), seq_do(third, "reserve1")
      third.replace_internal_state(st)
      e = flat(seq_do(third, o) for o in ops[at:] + ["next", "take2"])
      return a + b, b, c, d, e
    ab, b, c, d, e = ctx.run(g, k, k2)
    ctx.eq("taking the state out changes nothing", ab, keys)
    for x in (c, d, e):
      ctx.eq("restored sequence repeats the keys", x, b)
    return
  pos = ctx.choice("pos", [None, 0, 1, n])
  inner = ctx.choice("inner", [("take2", "next"), ("reserve2", "next")]) if pos is not None else ()
  deep = pos is not None and ctx.flag("deep")
  how = ctx.choice("how", ["with", "raise"]) if pos is not None and not deep else "with"
  def body(k2, k3, outer, nested):
    for i, o in enumerate(ops + ["next", "take2"]):
      if i == pos:
        try:
          with hk.with_rng(k2):
            nested.extend(flat(do(x) for x in inner))
            if deep:
              with hk.with_rng(k3):
                nested.extend(do("take2"))
              nested.extend(do("next"))
            if how == "raise":
              raise KeyError("leaves the scope")
        except KeyError:
          pass
      outer.extend(do(o))
  def run(k, k2, k3):
    outer, nested = [], []
    g = lambda: body(k2, k3, outer, nested)
    if mode == "init":
      hk.transform_with_state(g).init(k)
    else:
      hk.transform_with_state(g).apply({}, {}, k)
    return outer, nested
  outer, nested = ctx.run(run, k, k2, k3)
  ctx.distinct("all keys handed out differ, and differ from the keys passed in", [k, k2, k3] + outer + nested)
  kids = ctx.run(lambda ks: [list(jax.random.split(x, n)) for x in ks for n in (2, 3)], outer + nested)
  ctx.distinct("keys split from the keys handed out are not handed out themselves", outer + nested + flat(kids))
  def alone(k, k2, k3):
    s = hk.PRNGSequence(k)
    a = flat(seq_do(s, o) for o in ops + ["next", "take2"])
    b = []
    if pos is not None:
      s = hk.PRNGSequence(k2)
      b = flat(seq_do(s, o) for o in inner)
      if deep:
        b += seq_do(hk.PRNGSequence(k3), "take2")
        b += seq_do(s, "next")
    return a, b
  a, b = ctx.run(alone, k, k2, k3)
  ctx.eq("outer keys depend on the key and the requests alone", outer, a)
  ctx.eq("scope keys depend on the scope's key alone", nested, b)


@harness("C05", configs=product(prior=("nothing", "other transform", "nested transform", "optimised", "raised")),
         bounds="same requests after other activity in the process; params and state in between; all keys")
def deterministic(ctx, prior):
  k, k2 = ctx.key("k"), ctx.key("k2")
  ops = [ctx.choice(f"o{i}", ["next", "take2", "reserve2"]) for i in range(2)] + ["next"]
  class M(hk.Module):
    def __call__(self):
      out = [x for o in ops for x in do(o)]
      hk.get_parameter("w", (), init=jnp.ones)
      hk.get_state("s", (), init=jnp.ones)
      return out + do("next")
  def plain_f():
    return [x for o in ops for x in do(o)] + do("next")
  def run(k, k2):
    def noise(kk):
      t = hk.transform(lambda: [do("take2"), do("reserve2")])
      t.init(kk), t.apply({}, kk)
    def f():
      if prior == "nested transform":
        noise(hk.next_rng_key()) if False else noise(k2)
      return M()()
    if prior == "other transform":
      noise(k2)
    if prior == "optimised":
      hk.transform(hk.experimental.optimize_rng_use(plain_f)).apply({}, k2)
    if prior == "raised":
      def bad():
        do("reserve2")
        with hk.with_rng(k2):
          raise KeyError
      try:
        hk.transform(bad).apply({}, k2)
      except KeyError:
        pass
    t = hk.transform_with_state(f)
    box = []
    hk.transform_with_state(lambda: box.extend(f())).init(k)
    out, _ = t.apply({"m": {"w": jnp.ones(())}}, {}, k)
    out2, _ = jax.jit(t.apply)({"m": {"w": jnp.ones(())}}, {}, k)
    return box, out, out2, hk.transform(plain_f).apply({}, k)
  a, b, c, d = ctx.run(run, k, k2)
  ctx.eq("init as in a fresh process", a, d)
  ctx.eq("apply as in a fresh process", b, d)
  ctx.eq("jitted apply", c, d)


@harness("C05", configs=product(mode=("init", "apply")), bounds="up to 3 next_rng_key calls in plain code, modules and parameter initialisers under optimize_rng_use; all keys")
def optimised(ctx, mode):
  k = ctx.key("k")
  kinds = [ctx.choice(f"o{i}", ["next", "param", "module", "state", "none"]) for i in range(3)]
  class M(hk.Module):
    def __call__(self):
      return hk.next_rng_key()
  def f():
    out = []
    for i, o in enumerate(kinds):
      if o == "next":
        out.append(hk.next_rng_key())
      elif o == "module":
        out.append(M()())
      elif o == "param":
        out.append(hk.get_parameter(f"w{i}", (2,), jnp.uint32, init=lambda s, d: hk.next_rng_key()))
      elif o == "state":
        out.append(hk.get_state(f"w{i}", (2,), jnp.uint32, init=lambda s, d: hk.next_rng_key()))
        hk.set_state(f"w{i}", out[-1] + 1)
    return out
  g = hk.experimental.optimize_rng_use(f)
  def run(k):
    box = []
    p, s = hk.transform_with_state(lambda: box.extend(g())).init(k)
    if mode == "init":
      return {**p, "s": s}, box
    return {**p, "s": s}, hk.transform_with_state(g).apply(p, s, k)[0]
  p, out = ctx.run(run, k)
  ctx.check("as many results as requests", len(out) == sum(o != "none" for o in kinds))
  used = [o for o in kinds if o != "none"]
  rand = [x for x, o in zip(out, used) if mode == "init" or o not in ("param", "state")]
  ctx.eq("one split ahead for as many keys as are requested", rand, ctx.run(lambda k: list(jax.random.split(k, len(rand) + 1))[1:], k) if rand else [])
  if mode == "init":
    ctx.distinct("keys differ", [k] + out)
  else:
    ctx.distinct("keys differ", [k] + rand)
    ctx.eq("parameters and state injected", [x for x, o in zip(out, used) if o in ("param", "state")],
           [(p if o == "param" else p["s"])["~"][f"w{i}"] for i, o in enumerate(kinds) if o in ("param", "state")])


@harness("C05", configs=product(where=("top", "module", "scope", "nested")),
         bounds="optimize_rng_use anywhere in a function (after modules, parameters, state, keys or reservations, in a module, in a name scope, in two modules), around up to 2 uses of keys; all keys")
def optimised_anywhere(ctx, where):
  k, k2 = ctx.key("k"), ctx.key("k2")
  before = ctx.choice("before", ["none", "key", "param", "state", "module", "two", "reserve"])
  kinds = [ctx.choice(f"o{i}", ["next", "param", "module", "state", "scoped", "none"]) for i in range(2)]
  after = ctx.flag("after")
  key_init = lambda s, d: hk.next_rng_key()
  class Noise(hk.Module):
    def __call__(self):
      return hk.get_parameter("w", (2,), jnp.uint32, init=key_init) + hk.next_rng_key()
  def inner():
    out = []
    for i, o in enumerate(kinds):
      if o == "next":
        out.append(hk.next_rng_key())
      elif o == "param":
        out.append(hk.get_parameter(f"p{i}", (2,), jnp.uint32, init=key_init))
      elif o == "module":
        out.append(Noise()())
      elif o == "state":
        out.append(hk.get_state(f"s{i}", (2,), jnp.uint32, init=key_init))
        hk.set_state(f"s{i}", out[-1] + 1)
      elif o == "scoped":
        with hk.experimental.name_scope(f"scope{i}"):
          out.append(Noise()())
    return out
  def by_hand(f):
    def g():
      # initialisers run in init only, and not for what exists
      first = int(hk.running_init())
      cost = {"next": 1, "param": first, "module": 1 + first, "state": first, "scoped": 1 + first, "none": 0}
      hk.reserve_rng_keys(sum(cost[o] for o in kinds) - (first and before == "state" and kinds[0] == "state"))
      return f()
    return g
  def program(wrap):
    def body():
      out = []
      if before == "key":
        out.append(hk.next_rng_key())
      elif before == "param":
        out.append(hk.get_parameter("p9", (2,), jnp.uint32, init=key_init))
      elif before == "state":
        hk.get_state("s0", (2,), jnp.uint32, init=jnp.zeros)
        hk.set_state("s0", jnp.full((2,), 7, jnp.uint32))
      elif before in ("module", "two"):
        out += [Noise()() for _ in range(1 + (before == "two"))]
      elif before == "reserve":
        hk.reserve_rng_keys(2)
      out += wrap(inner)()
      if after:
        out += [Noise()(), hk.next_rng_key()]
      return out
    class Outer(hk.Module):
      def __call__(self):
        return body()
    def f():
      if where == "module":
        return Outer()()
      if where == "nested":
        return Outer(name="a")() + Outer(name="b")()
      if where == "scope":
        with hk.experimental.name_scope("scope"):
          return body()
      return body()
    def run(k, k2):
      box = []
      p, s = hk.transform_with_state(lambda: box.append(f())).init(k)
      return hk.data_structures.to_mutable_dict(p), hk.data_structures.to_mutable_dict(s), box[0], hk.transform_with_state(f).apply(p, s, k2)
    return run
  ctx.eq("as with as many keys reserved as are requested", ctx.run(program(hk.experimental.optimize_rng_use), k, k2), ctx.run(program(by_hand), k, k2))


@harness("C05", bounds="no key given; malformed keys; integer seeds 0..5; sequence outside of a transform")
def misuse(ctx):
  which = ctx.choice("which", ["next", "take", "reserve", "maybe", "optimised", "scope", "outside", "shape", "dtype", "type", "seed", "state"])
  mode = ctx.choice("mode", ["init", "apply"])
  def go(f, key=None):
    t = hk.transform(f)
    return t.init(key) if mode == "init" else t.apply({}, key)
  if which == "next":
    ctx.raises("no key", lambda: go(hk.next_rng_key), ValueError)
  elif which == "take":
    n = ctx.choice("n", [1, 2])
    ctx.raises("no key", lambda: go(lambda: hk.next_rng_keys(n)), ValueError)
  elif which == "reserve":
    ctx.raises("no key", lambda: go(lambda: hk.reserve_rng_keys(1)), ValueError)
  elif which == "maybe":
    box = []
    go(lambda: box.append(hk.maybe_next_rng_key()))
    ctx.check("maybe returns nothing", box == [None])
  elif which == "optimised":
    opt = hk.experimental.optimize_rng_use
    box = []
    go(opt(lambda: box.append(hk.maybe_next_rng_key())))
    ctx.check("maybe returns nothing", box == [None, None])
    ctx.raises("no key", lambda: go(opt(hk.next_rng_key)), ValueError)
  elif which == "scope":
    k = ctx.key("k")
    def f(k):
      box = []
      def g():
        with hk.with_rng(k):
          box.append(hk.next_rng_key())
        box.append(hk.maybe_next_rng_key())
      go(g)
      assert box[1] is None
      return box[0]
    ctx.eq("key from the scope", ctx.run(f, k), ctx.run(lambda k: next(hk.PRNGSequence(k)), k))
    def h():
      with hk.with_rng(KEY0):
        pass
      hk.next_rng_key()
    ctx.raises("no key after the scope", lambda: go(h), ValueError)
  elif which == "outside":
    for f in (hk.next_rng_key, lambda: hk.next_rng_keys(1), hk.maybe_next_rng_key, lambda: hk.reserve_rng_keys(1), lambda: hk.with_rng(KEY0)):
      ctx.raises("outside", f, ValueError)
  elif which == "shape":
    bad = ctx.choice("bad", [np.zeros((3,), np.uint32), np.zeros((1, 2), np.uint32), np.zeros((), np.uint32)])
    ctx.raises("bad key", lambda: go(lambda: None, bad), ValueError)
    ctx.raises("bad key", lambda: hk.PRNGSequence(bad), ValueError)
    ctx.raises("bad key", lambda: go(lambda: hk.with_rng(bad), KEY0), ValueError)
  elif which == "dtype":
    bad = ctx.choice("bad", [np.zeros((2,), np.int32), np.zeros((2,), np.float32)])
    ctx.raises("bad key", lambda: go(lambda: None, bad), ValueError)
    ctx.raises("bad key", lambda: hk.PRNGSequence((KEY0, (bad,))), ValueError)
    ctx.raises("bad key", lambda: hk.PRNGSequence(KEY0).replace_internal_state((bad, ())), ValueError)
  elif which == "type":
    bad = ctx.choice("bad", ["x", 1.5, [0, 1]])
    ctx.raises("bad key", lambda: go(lambda: None, bad), ValueError)
  elif which == "seed":
    s = ctx.choice("s", range(6))
    a, b = hk.PRNGSequence(s), hk.PRNGSequence(jax.random.PRNGKey(s))
    ctx.check("an integer seed stands for its key", np.array_equal(np.array(a.take(3)), np.array(b.take(3))))
    box = []
    go(lambda: box.append(np.asarray(hk.next_rng_key())), s)
    ctx.check("also in init/apply", np.array_equal(box[0], np.asarray(next(hk.PRNGSequence(jax.random.PRNGKey(s))))))
  else:
    seq = hk.PRNGSequence(KEY0)
    seq.reserve(2)
    next(seq)
    st = seq.internal_state
    st2 = jax.tree_util.tree_map(lambda x: x, st)
    a = seq.take(3)
    b = hk.PRNGSequence(st2).take(3)
    ctx.check("state survives being mapped as a tree", np.array_equal(np.array(a), np.array(b)))
