"""Harness context: one harness text, run symbolically (solver) or concretely (replay)."""
import collections
import hashlib
import json
import os
import sys
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as np
import z3

from vlib import symjax
from vlib import terms as T
from vlib.symjax import SA
from vlib.terms import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


class PathAbort(BaseException):
  """Path ended (candidate recorded)."""


class Infeasible(BaseException):
  """Path condition unsatisfiable / assumption violated."""


class ConcreteViolation(BaseException):
  pass


class BudgetExceeded(BaseException):
  pass


def stable_seed(*parts):
  return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:8], 16)


def plain(x):
  """Mappings -> dict, named tuples/sequences kept, for structural comparison."""
  if isinstance(x, SA):
    return x
  if isinstance(x, collections.abc.Mapping):
    return {k: plain(v) for k, v in x.items()}
  if isinstance(x, tuple) and hasattr(x, "_fields"):
    return tuple(plain(v) for v in x)
  if isinstance(x, (list, tuple)):
    return type(x)(plain(v) for v in x) if type(x) in (list, tuple) else tuple(plain(v) for v in x)
  return x


def flatten(x, path=()):
  x = plain(x)
  if isinstance(x, dict):
    out = []
    for k in sorted(x, key=repr):
      out += flatten(x[k], path + (k,))
    return out or [(path, "{}")]
  if isinstance(x, (list, tuple)):
    out = []
    for i, v in enumerate(x):
      out += flatten(v, path + (i,))
    return out or [(path, "()")]
  return [(path, x)]


class Stats(dict):
  def __init__(self):
    super().__init__(paths=0, forks=0, queries=0, folded=0, solver_s=0.0,
                     obligations=0, discharged=0, validated=0, reachable=0,
                     eqns=0, elements=0)
    self.functions = set()
    self.inconclusive = []
    self.candidates = []
    self.notes = []
    self.samples = []


class Ctx:
  """Base class; see SymCtx and ConcCtx."""
  sym = False

  def tree(self, f, *trees):
    return jax.tree_util.tree_map(f, *trees, is_leaf=lambda x: isinstance(x, SA))


# ----------------------------------------------------------------- symbolic
class SymCtx(Ctx):
  sym = True

  def __init__(self, stats, decisions, query_ms, validate=False, deadline=None):
    self.st = stats
    self.decisions = decisions      # list of [chosen, [remaining options]]
    self.pos = 0
    self.pc = []
    self.inputs = {}
    self.choices = {}
    self.ints = {}
    self.query_ms = query_ms
    self.validate = validate
    self.deadline = deadline
    self.solver = z3.Solver()
    self.solver.set("timeout", query_ms)
    self.nkeys = 0
    self.checked = 0
    self.interp = symjax.Interp(self._decide)

  def dominate(self, v):
    """Assume symbolic parts of sums are below v wherever a constant reaches v."""
    T.BIG = v

  # -- inputs
  def _arr(self, name, shape, mk, dtype):
    assert name not in self.inputs, name
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      a[i] = mk(name + "".join(f"_{j}" for j in i))
    sa = SA(a, np.dtype(dtype) if not isinstance(dtype, str) else dtype)
    self.inputs[name] = sa
    return sa

  def real(self, name, shape=(), lo=None, hi=None, dtype=jnp.float32):
    sa = self._arr(name, shape, z3.Real, jnp.dtype(dtype))
    for x in sa.a.flat:
      if lo is not None:
        self.assume(x >= T.to_real(lo))
      if hi is not None:
        self.assume(x <= T.to_real(hi))
    return sa

  def integer(self, name, shape=(), lo=0, hi=3, dtype=np.int32):
    sa = self._arr(name, shape, z3.Int, dtype)
    for x in sa.a.flat:
      self.assume(z3.And(x >= lo, x <= hi))
    return sa

  def boolean(self, name, shape=()):
    return self._arr(name, shape, z3.Bool, np.bool_)

  def key(self, name):
    k = T.Key.Base(self.nkeys)
    self.nkeys += 1
    a = np.empty((2,), dtype=object)
    a[0], a[1] = T.W0(k), T.W1(k)
    sa = SA(a, np.dtype(np.uint32))
    self.inputs[name] = ("key", sa)
    return sa

  def like(self, name, tree, lo=None, hi=None):
    """Fresh symbolic arrays with the shapes/dtypes of `tree` (params, state)."""
    cnt = [0]
    def mk(x):
      cnt[0] += 1
      n = f"{name}.{cnt[0]}"
      k = symjax.kind(x.dtype)
      if k == "f":
        return self.real(n, x.shape, lo, hi, dtype=x.dtype)
      if k == "b":
        return self.boolean(n, x.shape)
      return self.integer(n, x.shape, 0, 7, dtype=x.dtype)
    return self.tree(mk, tree)

  # -- decisions
  def choice(self, name, options):
    options = list(options)
    v = z3.Int("choice_" + name)
    i = self._fork([v == j for j in range(len(options))])
    self.choices[name] = i
    return options[i]

  def flag(self, name):
    return self.choice(name, [False, True])

  def int(self, name, lo, hi):
    from vlib import symx
    v = z3.Int(name)
    self.assume(z3.And(v >= lo, v <= hi))
    s = symx.SymInt(v, self)
    self.ints[name] = v
    return s

  def _sat(self, *extra):
    t = time.time()
    self.st["queries"] += 1
    r = self.solver.check(*extra)
    self.st["solver_s"] += time.time() - t
    return r

  def _fork(self, conds, data=None):
    """Picks one feasible alternative; others are left for later paths."""
    if self.deadline and self.deadline.passed():
      raise BudgetExceeded()
    if self.pos < len(self.decisions):
      i = self.decisions[self.pos][0]
    else:
      feas = [j for j, c in enumerate(conds) if self._sat(c) != z3.unsat]
      if not feas:
        raise Infeasible()
      self.decisions.append([feas[0], feas[1:], data])
      self.st["forks"] += max(len(feas) - 1, 0)
      i = feas[0]
    self.pos += 1
    self._add(conds[i])
    return i

  def branch(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    return self._fork([cond, z3.Not(cond)]) == 0

  def concretise(self, t):
    """A machine integer for a symbolic one: forks over all feasible values."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
      return t.as_long()
    vals = []
    if self.pos < len(self.decisions):
      vals = self.decisions[self.pos][2]
    else:
      self.solver.push()
      while len(vals) < 4096 and self._sat() == z3.sat:
        v = self.solver.model().eval(t, model_completion=True)
        vals.append(v.as_long())
        self.solver.add(t != v)
      self.solver.pop()
      vals.sort()
    return vals[self._fork([t == v for v in vals], vals)]

  def _add(self, c):
    self.pc.append(c)
    self.solver.add(c)

  def assume(self, c):
    if isinstance(c, SA):
      for x in c.a.flat:
        self.assume(x)
      return
    from vlib import symx  # pylint: disable=g-import-not-at-top
    c = symx.unwrap(c)
    if T.is_c(c):
      if not c:
        raise Infeasible()
      return
    for ax in T.axioms([c]):
      self._add(ax)
    self._add(c)
    if self._sat() == z3.unsat:
      raise Infeasible()

  def _decide(self, c, extra):
    if self._sat(z3.And(*extra, z3.Not(c)) if extra else z3.Not(c)) == z3.unsat:
      return True
    if self._sat(z3.And(*extra, c) if extra else c) == z3.unsat:
      return False
    return None

  # -- running the code under test
  def run(self, f, *args, **kwargs):
    e0 = symjax.STATS["eqns"]
    n0 = len(self.interp.unwinding)
    jx, out, ins = symjax.run(f, args, kwargs, self.interp)
    self.st["eqns"] += symjax.STATS["eqns"] - e0
    for ax in self.interp.axioms:
      self._add(ax)
    self.interp.axioms.clear()
    for u in self.interp.unwinding[n0:]:
      if self._sat(u) != z3.unsat:
        raise Unsupported("while loop exceeds the unrolling bound")
    if self.validate:
      self._validate(jx, out, ins)
    return out

  def _validate(self, jx, out, ins):
    """Pushes concrete inputs through both the encoding and real JAX."""
    s = str(jx)
    if "random_" in s or not ins or any(i.dtype == "key" for i in ins) or len(s) > 60000:
      return
    rs = np.random.RandomState(0)
    vals, cins = [], []
    for i in ins:
      k = symjax.kind(i.dtype)
      if k == "f":
        v = rs.randint(-8, 9, i.shape) / 4.0
      elif k == "b":
        v = rs.rand(*i.shape) < 0.5
      else:
        v = rs.randint(0, 2, i.shape)
      v = np.asarray(v, dtype=i.dtype)
      vals.append(jnp.asarray(v))
      a = np.empty(i.shape, dtype=object)
      for j in np.ndindex(*i.shape):
        a[j] = float(v[j]) if k == "f" else (bool(v[j]) if k == "b" else int(v[j]))
      cins.append(SA(a, i.dtype))
    try:
      mine = symjax.interpret(jx.jaxpr, [symjax.lift_const(c) for c in jx.consts], cins, symjax.Interp())
    except (Unsupported, OverflowError, ZeroDivisionError):
      return
    real = jax.jit(lambda *a: jax.core.eval_jaxpr(jx.jaxpr, jx.consts, *a))(*vals)
    for m, r in zip(mine, real):
      if m.dtype == "key" or not symjax.all_const(m):
        continue
      mv, rv = symjax.to_numpy(m).astype(np.float64), np.asarray(r).astype(np.float64)
      ok = np.isfinite(mv) & np.isfinite(rv) & (np.abs(rv) < 1e6)
      if not np.allclose(mv[ok], rv[ok], rtol=1e-3, atol=1e-3):
        raise Unsupported("engine validation failed: encoding disagrees with JAX")
    self.st["validated"] += 1

  # -- array-level (opaque) encoding of whole networks
  def opaque(self, name, tree):
    from vlib import opaque as O
    cnt = [0]
    def mk(x):
      cnt[0] += 1
      return O.OA(O.fn(f"input:{name}.{cnt[0]}", 0), x.shape, x.dtype)
    return jax.tree_util.tree_map(mk, tree)

  def orun(self, f, *args):
    from vlib import opaque as O
    e0 = O.STATS["eqns"]
    out = O.run(f, args)
    self.st["eqns"] += O.STATS["eqns"] - e0
    return out

  def oeq(self, label, a, b):
    fa, fb = flatten(a), flatten(b)
    if [p for p, _ in fa] != [p for p, _ in fb]:
      self.check(f"{label}: structure {sorted(set(map(str, (p for p, _ in fa))) ^ set(map(str, (p for p, _ in fb))))}"[:400], False)
    bad = []
    for (p, x), (_, y) in zip(fa, fb):
      if isinstance(x, str) or isinstance(y, str):
        self.check(label, x is y or x == y)
        continue
      if tuple(x.shape) != tuple(y.shape) or x.dtype != y.dtype:
        self.check(f"{label} at {p}: shape/dtype {x.shape} {x.dtype} vs {y.shape} {y.dtype}", False)
      self.st["elements"] += int(np.prod(x.shape, dtype=int))
      bad.append(x.t != y.t)
    self.checked += 1
    self.st["obligations"] += 1
    s = z3.SolverFor("QF_UF")
    s.set("timeout", self.query_ms)
    s.add(z3.Or(*bad) if bad else z3.BoolVal(False))
    t = time.time()
    r = s.check()
    self.st["queries"] += 1
    self.st["solver_s"] += time.time() - t
    if r == z3.unsat:
      self.st["discharged"] += 1
      return
    self._fail(label, None, str(r))

  # -- obligations
  def _fail(self, label, model, why):
    inputs = {}
    for name, sa in self.inputs.items():
      if isinstance(sa, tuple):
        continue
      if model is not None:
        inputs[name] = [_model_val(model, x) for x in sa.a.flat]
    ints = {}
    if model is not None:
      for n, v in self.ints.items():
        ints[n] = int(_model_val(model, v))
    self.st.candidates.append(dict(label=label, why=why, inputs=inputs,
                                   choices=dict(self.choices), ints=ints))
    raise PathAbort(label)

  def _query(self, label, bad):
    """bad: list of z3 formulas, any satisfiable one is a violation."""
    goal = z3.Or(*bad) if len(bad) > 1 else bad[0]
    fs = self.pc + [goal]
    ax = T.axioms(fs)
    t = time.time()
    self.st["queries"] += 1
    r, m = solve(fs + ax, self.query_ms)
    self.st["solver_s"] += time.time() - t
    return r, m

  def check(self, label, cond):
    from vlib import symx
    cond = symx.unwrap(cond)
    if isinstance(cond, SA):
      cond = [x for x in cond.a.flat]
    conds = cond if isinstance(cond, list) else [cond]
    self.checked += 1
    self.st["obligations"] += 1
    self.st["elements"] += len(conds)
    bad = []
    for c in conds:
      if T.is_c(c):
        if not c:
          r, m = solve(self.pc, self.query_ms) if self.pc else (None, None)
          if r == z3.unsat:
            raise Infeasible()
          self._fail(label, m, "false on this path")
        continue
      c = z3.simplify(c, som=True, som_blowup=4294967295)
      if z3.is_true(c):
        continue
      bad.append(z3.Not(c))
    self._finish(label, bad)

  def _finish(self, label, bad, raw=()):
    if not bad:
      if raw and self.st["folded"] < 6:
        # cross-check the normal form with the SMT core on the raw terms
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(z3.Or(*raw[:200]))
        t = time.time()
        self.st["queries"] += 1
        r = s.check()
        self.st["solver_s"] += time.time() - t
        if r == z3.sat and not T.axioms(list(raw[:200])):
          raise Unsupported("normal form and SMT core disagree")
        if r == z3.unsat:
          self.st["smt_confirmed"] = self.st.get("smt_confirmed", 0) + 1
      self.st["folded"] += 1
      self.st["discharged"] += 1
      return
    rest = []
    for b in bad:
      r = self._cases(b)
      if r is not None:
        rest.extend(r)
      else:
        rest.append(b)
    if not rest:
      self.st["discharged"] += 1
      return
    r, m = self._query(label, rest)
    if r == z3.unsat:
      self.st["discharged"] += 1
      return
    if r == z3.unknown:
      self._fail(label, m, "unknown")
    self._fail(label, m, "sat")

  def _cases(self, b, cap=256):
    """Splits a disequality d != 0 on its if-conditions, normalising each case.

    Returns the list of cases (with their conditions) that the normal form
    alone does not settle, or None when there are too many.
    """
    if not (z3.is_distinct(b) or z3.is_not(b)):
      return None
    e = b.arg(0) if z3.is_not(b) else None
    if e is not None and z3.is_eq(e):
      l, r = e.arg(0), e.arg(1)
    elif z3.is_distinct(b) and b.num_args() == 2:
      l, r = b.arg(0), b.arg(1)
    else:
      return None
    if l.sort() not in (T.R, T.I):
      return None
    left, out, stack = cap, [], [(z3.simplify(l - r, som=True, som_blowup=4294967295, sort_sums=True), [])]
    while stack:
      d, cs = stack.pop()
      left -= 1
      if left < 0:
        return None
      c = _first_cond(d)
      if c is None:
        v = T.from_z3(d)
        if T.is_c(v) and abs(v) <= 1e-6:
          continue
        if cs:
          s = z3.Solver()
          s.set("timeout", 1000)
          s.add(*self.pc, *cs)
          self.st["queries"] += 1
          if s.check() == z3.unsat:
            continue
        out.append(z3.And(*cs, d != 0) if cs else d != 0)
        continue
      for val in (True, False):
        nd = z3.simplify(z3.substitute(d, (c, z3.BoolVal(val))), som=True, som_blowup=4294967295, sort_sums=True)
        stack.append((nd, cs + [c if val else z3.Not(c)]))
    return out

  def eq(self, label, a, b, dtype=True, tol=1):
    fa, fb = flatten(a), flatten(b)
    if [p for p, _ in fa] != [p for p, _ in fb]:
      self.check(f"{label}: structure {[p for p, _ in fa]} vs {[p for p, _ in fb]}"[:400], False)
    bad, n, raw = [], 0, []
    for (p, x), (_, y) in zip(fa, fb):
      lab = f"{label}{'' if not p else ' at ' + '/'.join(map(str, p))}"
      if x is None or y is None or isinstance(x, (str, type)) or isinstance(y, (str, type)):
        self.check(lab, x == y if (isinstance(x, str) and isinstance(y, str)) else x is y)
        continue
      x, y = symjax.lift_const(x), symjax.lift_const(y)
      if tuple(x.shape) != tuple(y.shape):
        self.check(f"{lab}: shape {x.shape} vs {y.shape}", False)
      if dtype and str(x.dtype) != str(y.dtype):
        self.check(f"{lab}: dtype {x.dtype} vs {y.dtype}", False)
      for u, v in zip(x.a.flat, y.a.flat):
        n += 1
        if T.is_c(u) and T.is_c(v):
          if not _const_close(u, v):
            self.check(f"{lab}: {u} vs {v}", False)
          continue
        uu, vv = T.pair(u, v)
        raw.append(uu != vv)
        if uu.eq(vv):
          continue
        if uu.sort() == T.R:
          d = T.norm(uu - vv)
          if T.is_c(d):
            if abs(d) > 1e-6:
              self.check(lab, False)
            continue
          bad.append(d != 0)
        else:
          c = z3.simplify(uu != vv)
          if not z3.is_false(c):
            bad.append(c)
    self.checked += 1
    self.st["obligations"] += 1
    self.st["elements"] += n
    self._finish(label, bad, raw)

  def distinct(self, label, keys):
    ks = [z3.simplify(T.key_of(k.a[0], k.a[1])) for k in map(symjax.lift_const, keys)]
    self.checked += 1
    self.st["obligations"] += 1
    self.st["elements"] += len(ks)
    if len(ks) < 2:
      self.st["discharged"] += 1
      return
    self._finish(label, [z3.Not(z3.Distinct(*ks))])

  def raises(self, label, fn, exc=Exception):
    try:
      fn()
    except (PathAbort, Infeasible, BudgetExceeded, Unsupported):
      raise
    except exc as e:
      self.check(label, True)
      return e
    except Exception as e:  # pylint: disable=broad-except
      self.check(f"{label}: raised {type(e).__name__} instead", False)
    self.check(label, False)

  # -- term helpers usable in both modes
  def lt(self, a, b): return _zip(T.lt, a, b)
  def le(self, a, b): return _zip(T.le, a, b)
  def ge(self, a, b): return _zip(T.ge, a, b)
  def ne(self, a, b): return _zip(T.ne, a, b)

  def end(self):
    self.st["paths"] += 1
    if self.checked and self.st["reachable"] == 0:
      if not self.pc or self._sat() == z3.sat:
        self.st["reachable"] += 1


def _zip(f, a, b):
  a, b = symjax.lift_const(a), symjax.lift_const(b)
  sh = np.broadcast_shapes(a.shape, b.shape)
  return SA(symjax.ew(f, np.broadcast_to(a.a, sh), np.broadcast_to(b.a, sh)), np.dtype(bool))


def _const_close(u, v):
  fu, fv = float(u), float(v)
  if fu == fv or (fu != fu and fv != fv):
    return True
  if isinstance(u, (bool, int)) and isinstance(v, (bool, int)):
    return u == v
  return abs(fu - fv) <= 1e-5 * max(abs(fu), abs(fv)) + 1e-7


def _model_val(m, x):
  if not isinstance(x, z3.ExprRef):
    return float(x)
  v = m.eval(x, model_completion=True)
  if z3.is_true(v):
    return 1
  if z3.is_false(v):
    return 0
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_rational_value(v):
    return float(v.numerator_as_long()) / float(v.denominator_as_long())
  if z3.is_algebraic_value(v):
    v = v.approx(10)
    return float(v.numerator_as_long()) / float(v.denominator_as_long())
  return 0.0


def _abstract(fs):
  """Replaces uninterpreted applications by fresh reals (weaker: unsat is sound)."""
  sub, seen = {}, {}
  def walk(t):
    i = t.get_id()
    if i in seen:
      return seen[i]
    if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      r = z3.FreshConst(t.sort(), "abs")
    elif z3.is_app(t) and t.num_args():
      ch = [walk(c) for c in t.children()]
      r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch) \
          if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else _rebuild(t, ch)
    else:
      r = t
    seen[i] = r
    keep.append(t)
    return r
  keep = []
  return [walk(f) for f in fs]


def _rebuild(t, ch):
  k = t.decl().kind()
  if k == z3.Z3_OP_AND:
    return z3.And(*ch)
  if k == z3.Z3_OP_OR:
    return z3.Or(*ch)
  if k == z3.Z3_OP_ADD:
    return z3.Sum(*ch)
  if k == z3.Z3_OP_MUL:
    return z3.Product(*ch)
  return z3.Distinct(*ch)


def _first_cond(t):
  """Innermost-first if-condition (an atom) inside a term, or None."""
  seen, found = set(), [None]
  def walk(x):
    if found[0] is not None or x.get_id() in seen:
      return
    seen.add(x.get_id())
    if z3.is_app_of(x, z3.Z3_OP_ITE):
      c = x.arg(0)
      walk(c)
      if found[0] is None:
        while True:
          if z3.is_not(c):
            c = c.arg(0)
          elif z3.is_and(c) or z3.is_or(c):
            c = c.arg(0)
          else:
            break
        found[0] = c
      return
    for y in x.children():
      walk(y)
  walk(t)
  return found[0]


def _has_uf(fs):
  seen, stack = set(), list(fs)
  while stack:
    t = stack.pop()
    if t.get_id() in seen:
      continue
    seen.add(t.get_id())
    if z3.is_app(t) and t.num_args():
      if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return True
      stack.extend(t.children())
  return False


def solve(fs, ms):
  """unsat / sat+model / unknown for the conjunction of fs."""
  s = z3.Solver()
  s.set("timeout", max(ms // 2, 1000))
  s.add(*fs)
  r = s.check()
  if r == z3.unsat:
    return r, None
  if r == z3.sat:
    return r, s.model()
  if _has_uf(fs):
    try:
      g = _abstract(fs)
      s2 = z3.Tactic("qfnra-nlsat").solver()
      s2.set("timeout", ms)
      s2.add(*g)
      if s2.check() == z3.unsat:
        return z3.unsat, None
    except z3.Z3Exception:
      pass
  else:
    try:
      s2 = z3.Tactic("qfnra-nlsat").solver()
      s2.set("timeout", ms)
      s2.add(*fs)
      r2 = s2.check()
      if r2 == z3.unsat:
        return r2, None
      if r2 == z3.sat:
        return r2, s2.model()
    except z3.Z3Exception:
      pass
  return z3.unknown, None


# ----------------------------------------------------------------- concrete
class ConcCtx(Ctx):
  """Runs the same harness on concrete values against the unmodified code."""
  sym = False

  def __init__(self, inputs, choices, ints, trial, seed):
    self.given, self.choices, self.ints = inputs, choices, ints
    self.trial, self.seed = trial, seed
    self.used = {}
    self.violations = []

  def _rs(self, name):
    return np.random.RandomState(stable_seed(self.seed, self.trial, name) % (2**31))

  def _get(self, name, shape, gen, dtype):
    if self.trial == 0 and name in self.given:
      v = np.asarray(self.given[name]).reshape(shape)
    else:
      v = gen(self._rs(name))
    v = np.asarray(v).astype(dtype)
    self.used[name] = v
    return jnp.asarray(v)

  def real(self, name, shape=(), lo=None, hi=None, dtype=jnp.float32):
    def gen(rs):
      if lo is None and hi is None:
        return np.round(rs.randn(*shape) * (1 if self.trial % 2 else 2), 3)
      l = lo if lo is not None else hi - 3.0
      h = hi if hi is not None else lo + 3.0
      return np.round(l + (h - l) * rs.rand(*shape), 3)
    return self._get(name, shape, gen, jnp.dtype(dtype))

  def integer(self, name, shape=(), lo=0, hi=3, dtype=np.int32):
    return self._get(name, shape, lambda rs: rs.randint(lo, hi + 1, shape), dtype)

  def boolean(self, name, shape=()):
    return self._get(name, shape, lambda rs: rs.rand(*shape) < 0.5, np.bool_)

  def key(self, name):
    return jax.random.PRNGKey(stable_seed(self.seed, self.trial, name) % (2**31))

  like = SymCtx.like

  def dominate(self, v):
    pass

  def choice(self, name, options):
    options = list(options)
    if name in self.choices:
      return options[min(self.choices[name], len(options) - 1)]
    return options[self._rs("choice" + name).randint(len(options))]

  def flag(self, name):
    return self.choice(name, [False, True])

  def int(self, name, lo, hi):
    if name in self.ints and self.trial == 0:
      return self.ints[name]
    return int(self._rs(name).randint(lo, hi + 1))

  def assume(self, c):
    if not bool(np.all(np.asarray(c))):
      raise Infeasible()

  def run(self, f, *args, **kwargs):
    return f(*args, **kwargs)

  def opaque(self, name, tree):
    rs = self._rs(name)
    def mk(x):
      if np.dtype(x.dtype).kind in "iu":
        return jnp.asarray(np.ones(x.shape), x.dtype)
      if len(x.shape) == 4:
        return jnp.asarray(rs.randn(*x.shape) / np.sqrt(max(1, np.prod(x.shape[:-1]) ** .5)), x.dtype)
      return jnp.asarray(rs.rand(*x.shape) + .25, x.dtype)   # positive: also used for variances
    return jax.tree_util.tree_map(mk, tree)

  def orun(self, f, *args):
    return jax.jit(f)(*args)

  def oeq(self, label, a, b):
    self.eq(label, a, b)

  def check(self, label, cond):
    if isinstance(cond, list):
      cond = all(bool(np.all(np.asarray(c))) for c in cond)
    if not bool(np.all(np.asarray(cond))):
      self.violations.append(label)
      raise ConcreteViolation(label)

  def eq(self, label, a, b, dtype=True, tol=1):
    fa, fb = flatten(a), flatten(b)
    if [p for p, _ in fa] != [p for p, _ in fb]:
      self.check(f"{label}: structure {[p for p, _ in fa]} vs {[p for p, _ in fb]}"[:400], False)
    for (p, x), (_, y) in zip(fa, fb):
      lab = f"{label}{'' if not p else ' at ' + '/'.join(map(str, p))}"
      if x is None or y is None or isinstance(x, (str, type)) or isinstance(y, (str, type)):
        self.check(lab, x == y if (isinstance(x, str) and isinstance(y, str)) else x is y)
        continue
      dx, dy = getattr(x, "dtype", None), getattr(y, "dtype", None)
      if dtype and dx is not None and dy is not None and dx != dy:
        self.check(f"{lab}: dtype {dx} vs {dy}", False)
      x, y = np.asarray(x), np.asarray(y)
      if x.shape != y.shape:
        self.check(f"{lab}: shape {x.shape} vs {y.shape}", False)
      if x.dtype.kind in "iub" and y.dtype.kind in "iub":
        self.check(f"{lab}: {x.tolist()} vs {y.tolist()}"[:300], bool(np.array_equal(x, y)))
        continue
      x, y = x.astype(np.float64), y.astype(np.float64)
      scale = max([1e-2] + [float(np.max(np.abs(t[np.isfinite(t)]))) for t in (x, y) if np.isfinite(t).any()])
      close = np.isclose(x, y, rtol=2e-3 * tol, atol=2e-4 * tol * scale, equal_nan=True)
      self.check(f"{lab}: {x.tolist()} vs {y.tolist()}"[:300], bool(close.all()))

  def distinct(self, label, keys):
    ks = [tuple(np.asarray(k).tolist()) for k in keys]
    self.check(label, len(set(ks)) == len(ks))

  def raises(self, label, fn, exc=Exception):
    try:
      fn()
    except (ConcreteViolation, Infeasible):
      raise
    except exc as e:
      return e
    except Exception as e:  # pylint: disable=broad-except
      self.check(f"{label}: raised {type(e).__name__} instead", False)
    self.check(label, False)

  def lt(self, a, b): return np.asarray(a) < np.asarray(b)
  def le(self, a, b): return np.asarray(a) <= np.asarray(b) + 1e-5
  def ge(self, a, b): return np.asarray(a) >= np.asarray(b) - 1e-5
  def ne(self, a, b): return np.asarray(a) != np.asarray(b)


# ------------------------------------------------------------------ functions
class FunctionRecorder:
  """Records which functions of the code under test were executed/encoded."""
  TOOL = 3

  def __init__(self):
    self.seen = set()
    self.on = False

  def start(self):
    m = sys.monitoring
    try:
      m.use_tool_id(self.TOOL, "verif")
    except ValueError:
      return
    root = os.path.join(REPO, "haiku") + os.sep
    def cb(code, off):
      if code.co_filename.startswith(root) and not code.co_filename.endswith("_test.py"):
        self.seen.add(os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname)
      return m.DISABLE
    m.register_callback(self.TOOL, m.events.PY_START, cb)
    m.set_events(self.TOOL, m.events.PY_START)
    self.on = True

  def stop(self):
    if self.on:
      sys.monitoring.set_events(self.TOOL, 0)
      sys.monitoring.free_tool_id(self.TOOL)
      self.on = False


# ------------------------------------------------------------------ exploring
class Deadline:
  """Time budget of one instance; a busy machine gets more wall time."""

  def __init__(self, budget_s):
    self.budget, self.wall, self.cpu = budget_s, time.time(), time.process_time()

  def passed(self):
    wall = time.time() - self.wall
    return wall > self.budget and (time.process_time() - self.cpu > self.budget or wall > 4 * self.budget)


def explore(fn, config, budget_s, query_ms, max_paths, validate):
  """All paths of a harness; returns Stats."""
  st = Stats()
  st.complete = True
  decisions = []
  deadline = Deadline(budget_s)
  while True:
    T.BIG = None
    ctx = SymCtx(st, decisions, query_ms, validate=validate and st["paths"] == 0,
                 deadline=deadline)
    try:
      fn(ctx, **config)
      ctx.end()
      if len(st.samples) < 2:
        st.samples.append(dict(config={k: repr(v) for k, v in config.items()},
                               choices=dict(ctx.choices),
                               path_condition=[str(c)[:80] for c in ctx.pc[:6]]))
    except PathAbort:
      st["paths"] += 1
    except Infeasible:
      pass
    except BudgetExceeded:
      st.complete = False
      st.inconclusive.append("budget exhausted")
      break
    except Unsupported as e:
      st["paths"] += 1
      st.inconclusive.append(f"unsupported: {e}"[:200])
      st.candidates.append(dict(label="unsupported", why="unsupported", inputs={},
                                choices=dict(ctx.choices), ints={}))
    except Exception as e:  # pylint: disable=broad-except
      st["paths"] += 1
      st["obligations"] += 1
      m = None
      inputs, ints = {}, {}
      if ctx.pc:
        r, m = solve(ctx.pc, query_ms)
        if m is not None:
          for n, sa in ctx.inputs.items():
            if not isinstance(sa, tuple):
              inputs[n] = [_model_val(m, x) for x in sa.a.flat]
          for n, v in ctx.ints.items():
            ints[n] = int(_model_val(m, v))
      st.candidates.append(dict(label=f"exception {type(e).__name__}: {e}"[:300],
                                why="exception", inputs=inputs,
                                choices=dict(ctx.choices), ints=ints,
                                tb=traceback.format_exc()[-1500:]))
    # next path
    while decisions and not decisions[-1][1]:
      decisions.pop()
    if not decisions:
      break
    decisions[-1][0] = decisions[-1][1].pop(0)
    if len(st.candidates) >= 4:
      st.complete = False
      break
    if st["paths"] >= max_paths or deadline.passed():
      st.complete = False
      st.inconclusive.append("path or time budget exhausted")
      break
  return st


def replay_run(fn, config, cand, seed, trials):
  """Concrete trials of a candidate; returns (label, trial, inputs) or None."""
  for trial in range(trials):
    ctx = ConcCtx(cand["inputs"], cand["choices"], cand["ints"], trial, seed)
    if trial == 0 and not cand["inputs"] and not cand["ints"] and cand["why"] != "exception":
      pass
    big = [abs(v) for vs in cand["inputs"].values() for v in vs if abs(v) > 1e4] if trial == 0 else []
    if big:
      continue
    try:
      fn(ctx, **config)
    except ConcreteViolation as e:
      return str(e), trial, {k: np.asarray(v).tolist() for k, v in ctx.used.items()}
    except Infeasible:
      continue
    except Exception as e:  # pylint: disable=broad-except
      return (f"exception {type(e).__name__}: {e}"[:300], trial,
              {k: np.asarray(v).tolist() for k, v in ctx.used.items()})
  return None
