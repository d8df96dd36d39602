"""Replays a harness of another property in "derivative mode".

The harness states equations `ctx.eq(label, ctx.run(f, ..), ctx.run(ref, ..))`.
Here every run is recorded, and each equation between two results becomes the
equation between their derivatives: for any direction t, jvp(f)(t) = jvp(ref)(t),
with respect to every real input either of the two sides depends on.
"""
import jax
import numpy as np

from vlib.core import SymCtx
from vlib.symjax import SA

_leaf = lambda v: isinstance(v, SA) or v is None


def _flat(t):
  return jax.tree_util.tree_flatten(t, is_leaf=_leaf)


def _isf(v):
  try:
    return jax.numpy.issubdtype(v.dtype, np.floating)
  except Exception:  # pylint: disable=broad-except
    return False


class Tape:
  like = SymCtx.like

  def __init__(self, ctx, generic=False, short=True, reverse=False, lean=False):
    self.ctx, self.generic, self.short, self.reverse, self.lean = ctx, generic, short, reverse, lean
    self.prod, self.inputs, self.keep, self.vals = {}, {}, [], []
    self.n = self.k = 0

  def __getattr__(self, name):
    return getattr(self.ctx, name)

  # -- inputs
  def _in(self, v):
    self.inputs[id(v)] = v
    self.keep.append(v)
    return v

  def real(self, *a, **k):
    v = self.ctx.real(*a, **k)
    if self.generic:        # no two inputs coincide: away from the kinks of max, relu, ...
      n = int(np.prod(v.shape, dtype=int))
      flat = (v.a if self.ctx.sym else np.asarray(v)).reshape(-1)
      new = [flat[i] for i in range(n)]
      for i, x in enumerate(new):
        for y in self.vals + new[:i]:
          self.ctx.assume(self.ctx.ne(_wrap(self.ctx, x, v), _wrap(self.ctx, y, v)))
      self.vals += new
    return self._in(v)

  def integer(self, *a, **k):
    return self._in(self.ctx.integer(*a, **k))

  def boolean(self, *a, **k):
    return self._in(self.ctx.boolean(*a, **k))

  def key(self, *a, **k):
    return self._in(self.ctx.key(*a, **k))

  def choice(self, name, options):
    options = list(options)
    if self.short and len(options) > 2:
      options = [options[0], options[-1]]
    if self.lean:          # one structure per instance
      options = options[-1:]
    return self.ctx.choice(name, options)

  def flag(self, name):
    return self.choice(name, [False, True])

  # -- what the other property decides is not decided again
  def check(self, *a, **k):
    pass

  def raises(self, *a, **k):
    pass

  distinct = oeq = raises

  # -- the recorded computation
  def run(self, f, *args, **kw):
    out = self.ctx.run(f, *args, **kw)
    leaves, td = _flat((args, kw))
    rec = (f, leaves, td, len(self.keep))
    ol, _ = _flat(out)
    given = {id(v) for v in leaves}
    for i, v in enumerate(ol):
      if id(v) not in self.inputs and id(v) not in given and hasattr(v, "shape"):
        self.prod.setdefault(id(v), (rec, i))
    self.keep.append((rec, out))
    return out

  def _deps(self, leaf, ins):
    """Collects the inputs below a leaf; False if it is neither known nor constant."""
    if id(leaf) in self.inputs:
      ins.setdefault(id(leaf), leaf)
      return True
    if id(leaf) in self.prod:
      return all(self._deps(v, ins) for v in self.prod[id(leaf)][0][1])
    return not isinstance(leaf, (SA, jax.Array))

  def _value(self, leaves, env):
    memo = {}
    def ev(v):
      if id(v) in env:
        return env[id(v)]
      if id(v) in self.prod:
        rec, i = self.prod[id(v)]
        if id(rec) not in memo:
          args, kw = jax.tree_util.tree_unflatten(rec[2], [ev(x) for x in rec[1]])
          memo[id(rec)] = _flat(rec[0](*args, **kw))[0]
        return memo[id(rec)][i]
      return v
    return [ev(v) for v in leaves]

  def eq(self, label, a, b, **kw):
    la, lb = _flat(a)[0], _flat(b)[0]
    if len(la) != len(lb):
      return
    xs, ys, ins = [], [], {}
    for x, y in zip(la, lb):
      if id(x) not in self.prod or not _isf(x) or not hasattr(y, "shape") or tuple(x.shape) != tuple(y.shape) or not _isf(y):
        continue
      sub = {}
      if self._deps(x, sub) and self._deps(y, sub) and any(_isf(v) for v in sub.values()):
        xs.append(x)
        ys.append(y)
        ins.update(sub)
    if not xs:
      return
    dif = [v for v in ins.values() if _isf(v) and v.shape is not None and int(np.prod(v.shape, dtype=int))]
    oth = [v for v in ins.values() if not any(v is w for w in dif)]
    self.k += 1
    if self.reverse:
      ts = [self.ctx.real(f"c{self.k}_{i}", x.shape, dtype=x.dtype) for i, x in enumerate(xs)]
    else:
      ts = [self.ctx.real(f"t{self.k}_{i}", v.shape, dtype=v.dtype) for i, v in enumerate(dif)]
    def grad_of(leaves):
      def g(d, o, t):
        def f(d):
          env = {id(v): n for v, n in zip(dif + oth, list(d) + list(o))}
          return [jax.numpy.asarray(v) for v in self._value(leaves, env)]
        if self.reverse:
          return jax.vjp(f, d)[1](t)[0]
        return jax.jvp(f, (d,), (t,))[1]
      return g
    got = self.ctx.run(grad_of(xs), dif, oth, ts)
    want = self.ctx.run(grad_of(ys), dif, oth, ts)
    self.n += len(xs)
    self.ctx.eq(f"derivative: {label}", got, want, **kw)


def _wrap(ctx, x, v):
  if not ctx.sym:
    return x
  a = np.empty((), dtype=object)
  a[()] = x
  return SA(a, v.dtype)
