"""Scalar term algebra: python constants (int, bool, Fraction, float) or z3 terms.

Floats are modelled as mathematical reals (rounding, overflow and NaN are
outside the claim); integers as mathematical integers; random keys as a free
algebra (Key datatype), i.e. splitting is assumed injective and acyclic.
"""
from fractions import Fraction
import math
import numpy as np
import z3

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

_K = z3.Datatype("Key")
_K.declare("Base", ("base_id", I))
_K.declare("Seed", ("seed_n", I))
_K.declare("Raw", ("raw0", I), ("raw1", I))
_K.declare("Split", ("split_of", _K), ("split_n", I), ("split_i", I))
_K.declare("Fold", ("fold_of", _K), ("fold_d", I))
Key = _K.create()
W0 = z3.Function("keyword0", Key, I)
W1 = z3.Function("keyword1", Key, I)
UNIF = z3.Function("unif", Key, I, I, R)       # key, size, index -> [0,1)
BITS = z3.Function("bits", Key, I, I, I, I)    # key, width, size, index

INF = float("inf")
BIG = None   # magnitude above which a constant dominates every symbolic part


def _big_part(d):
  """Sign of the dominating constant of a normal form, or 0 (see BIG)."""
  if BIG is None or is_c(d):
    return 0
  for c in (d.children() if z3.is_app_of(d, z3.Z3_OP_ADD) else ()):
    if z3.is_rational_value(c):
      v = Fraction(c.numerator_as_long(), c.denominator_as_long())
      if abs(v) >= BIG:
        return 1 if v > 0 else -1
  return 0


class Unsupported(Exception):
  """The engine cannot encode this; the obligation becomes inconclusive."""


def is_c(x):
  return not isinstance(x, z3.ExprRef)


def canon_float(v):
  """Exact nice rational for a float32/float64 constant (stated assumption)."""
  if isinstance(v, Fraction):
    return v
  f64 = float(v)
  if math.isnan(f64) or math.isinf(f64):
    return f64
  if f64 == int(f64) and abs(f64) < 1e9:
    return Fraction(int(f64))
  f = Fraction(f64).limit_denominator(2048)
  if np.float32(float(f)) == np.float32(f64):
    return f
  if abs(f64) > 3e38:
    return Fraction(f64)
  return Fraction(np.format_float_scientific(np.float32(f64), unique=True))


def to_real(x):
  """const or term -> z3 real."""
  if isinstance(x, z3.ExprRef):
    if x.sort() == I:
      return z3.ToReal(x)
    if x.sort() == B:
      return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x
  if isinstance(x, (bool, np.bool_)):
    return z3.RealVal(int(x))
  if isinstance(x, float):
    if math.isinf(x) or math.isnan(x):
      if math.isnan(x):
        return z3.Const("NAN", R)
      return z3.Const("POSINF" if x > 0 else "NEGINF", R)
    x = canon_float(x)
  return z3.RealVal(str(Fraction(x)))


def to_int(x):
  if isinstance(x, z3.ExprRef):
    if x.sort() == B:
      return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
  return z3.IntVal(int(x))


def to_bool(x):
  if isinstance(x, z3.ExprRef):
    if x.sort() == B:
      return x
    return x != 0
  return z3.BoolVal(bool(x))


def lift(x, like):
  s = like.sort()
  if s == R:
    return to_real(x)
  if s == I:
    return to_int(x)
  if s == B:
    return to_bool(x)
  return x


def sort_of(x):
  if isinstance(x, z3.ExprRef):
    return x.sort()
  if isinstance(x, (bool, np.bool_)):
    return B
  if isinstance(x, (int, np.integer)):
    return I
  return R


def pair(a, b):
  if is_c(a):
    a = lift(a, b)
  elif is_c(b):
    b = lift(b, a)
  if a.sort() != b.sort():
    if R in (a.sort(), b.sort()):
      a, b = to_real(a), to_real(b)
    else:
      a, b = to_int(a), to_int(b)
  return a, b


def _spec(x):
  return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def norm(x):
  """Polynomial normal form (sum of monomials)."""
  if is_c(x):
    return x
  x = z3.simplify(x, som=True, som_blowup=4294967295, sort_sums=True)
  return from_z3(x)


_KEEP = []


def _lead(b):
  """Coefficient of a canonical (smallest id) monomial of a normal form."""
  terms = b.children() if z3.is_app_of(b, z3.Z3_OP_ADD) else [b]
  best, coef = None, None
  for c in terms:
    if z3.is_rational_value(c) or z3.is_int_value(c):
      continue
    k = Fraction(1)
    if z3.is_app_of(c, z3.Z3_OP_MUL):
      ch = c.children()
      if z3.is_rational_value(ch[0]) or z3.is_int_value(ch[0]):
        k = Fraction(from_z3(ch[0]))
        c = ch[1] if len(ch) == 2 else z3.simplify(z3.Product(*ch[1:]), som=True, som_blowup=4294967295, sort_sums=True)
    elif z3.is_app_of(c, z3.Z3_OP_UMINUS):
      k, c = Fraction(-1), c.arg(0)
    _KEEP.append(c)
    if best is None or c.get_id() < best:
      best, coef = c.get_id(), k
  return coef


def from_z3(x):
  if z3.is_rational_value(x):
    return Fraction(x.numerator_as_long(), x.denominator_as_long())
  if z3.is_int_value(x):
    return x.as_long()
  if z3.is_true(x):
    return True
  if z3.is_false(x):
    return False
  return x


def add(a, b):
  if is_c(a) and is_c(b):
    return _fold(a, b, lambda x, y: x + y)
  if is_c(a) and a == 0:
    return b
  if is_c(b) and b == 0:
    return a
  if _spec(a):
    return a
  if _spec(b):
    return b
  a, b = pair(a, b)
  return a + b


def _fold(a, b, f):
  if isinstance(a, Fraction) and isinstance(b, (float, np.floating)) or \
     isinstance(b, Fraction) and isinstance(a, (float, np.floating)):
    return f(float(a), float(b))
  return f(a, b)


def neg(a):
  if is_c(a):
    return -a
  return -a


def sub(a, b):
  if is_c(a) and is_c(b):
    return _fold(a, b, lambda x, y: x - y)
  if is_c(b) and b == 0:
    return a
  if is_c(a) and a == 0:
    return neg(b)
  if _spec(a):
    return a
  if _spec(b):
    return -b
  a, b = pair(a, b)
  if a.eq(b):
    return Fraction(0) if a.sort() == R else 0
  return a - b


def mul(a, b):
  if is_c(a) and is_c(b):
    return _fold(a, b, lambda x, y: x * y)
  if is_c(b):
    a, b = b, a
  if is_c(a):
    if a == 0:
      return Fraction(0) if sort_of(b) == R else 0
    if a == 1:
      return b
    if _spec(a):
      raise Unsupported("inf * symbolic")
  # keep 0/1 indicators as ite:  ite(c,1,0) * t  ->  ite(c, t, 0)
  for x, y in ((a, b), (b, a)):
    if not is_c(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
      t, e = from_z3(x.arg(1)), from_z3(x.arg(2))
      if is_c(t) and is_c(e) and t in (0, 1) and e in (0, 1):
        return ite(x.arg(0), mul(t, y), mul(e, y))
  a, b = pair(a, b)
  for x, y in ((a, b), (b, a)):
    if z3.is_app_of(x, z3.Z3_OP_ITE):
      t, e = from_z3(x.arg(1)), from_z3(x.arg(2))
      if is_c(t) and t == 0 or is_c(e) and e == 0:
        return ite(x.arg(0), mul(t, from_z3(y)), mul(e, from_z3(y)))
  return a * b


_UF = {}


def uf(name, *args):
  """Uninterpreted function over normalised arguments."""
  args = [norm(a) for a in args]
  zs = [to_real(a) if sort_of(a) == R else
        (to_int(a) if sort_of(a) == I else a) for a in args]
  zs = [z if isinstance(z, z3.ExprRef) else z3.BoolVal(bool(z)) for z in zs]
  sig = (name,) + tuple(str(z.sort()) for z in zs)
  if sig not in _UF:
    _UF[sig] = z3.Function("uf_" + "_".join(sig), *[z.sort() for z in zs], R)
  return _UF[sig](*zs)


def uf_int(name, *args):
  args = [norm(a) for a in args]
  zs = [lift(a, z3.IntVal(0)) if is_c(a) else a for a in args]
  sig = ("int_" + name,) + tuple(str(z.sort()) for z in zs)
  if sig not in _UF:
    _UF[sig] = z3.Function("uf_" + "_".join(sig), *[z.sort() for z in zs], I)
  return _UF[sig](*zs)


def inv(b):
  b = norm(b)
  if is_c(b):
    if b == 0:
      return INF
    return 1 / Fraction(b) if not isinstance(b, float) else 1.0 / b
  if z3.is_app_of(b, z3.Z3_OP_MUL):
    out = Fraction(1)
    for c in b.children():
      out = mul(out, inv(from_z3(c)))
    return out
  if z3.is_app_of(b, z3.Z3_OP_ITE):
    return ite(b.arg(0), inv(from_z3(b.arg(1))), inv(from_z3(b.arg(2))))
  if z3.is_app(b) and b.decl().name() == "uf_inv_Real":
    return b.arg(0)
  if z3.is_app_of(b, z3.Z3_OP_ADD):
    # make the leading coefficient 1 so that inv(2x+2y) == inv(x+y)/2
    lead = _lead(b)
    if lead is not None and lead != 1:
      return mul(1 / lead, uf("inv", mul(1 / lead, b)))
  return uf("inv", b)


def div(a, b):
  if is_c(a) and is_c(b):
    if b == 0:
      if a == 0:
        return float("nan")
      return INF if a > 0 else -INF
    if isinstance(a, float) or isinstance(b, float):
      return float(a) / float(b)
    return Fraction(a) / Fraction(b)
  if is_c(b):
    return mul(inv(b), a)
  ib = inv(b)
  if is_c(ib) and _spec(ib):
    raise Unsupported("division by zero")
  return mul(a, ib)


def int_div(a, b):
  """Truncated integer division (XLA)."""
  if is_c(a) and is_c(b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
  a, b = pair(a, b)
  return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))),
               z3.If(b > 0, -((-a) / b), (-a) / (-b)))


def int_rem(a, b):
  if is_c(a) and is_c(b):
    return int(math.fmod(a, b))
  return sub(a, mul(int_div(a, b), b))


def ite(c, a, b):
  if is_c(c):
    return a if c else b
  if is_c(a) and is_c(b):
    if type(a) == type(b) and a == b:
      return a
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
      return c if a else z3.Not(c)
    if sort_of(a) == R or sort_of(b) == R:
      return z3.If(c, to_real(a), to_real(b))
    return z3.If(c, to_int(a), to_int(b))
  a, b = pair(a, b)
  if a.eq(b):
    return a
  return z3.If(c, a, b)


def _cmp(a, b, f):
  if is_c(a) and is_c(b):
    return bool(_fold(a, b, f))
  for x, y, flip in ((a, b, False), (b, a, True)):
    if _spec(x):
      # finite symbolic value vs +-inf
      return bool(f(x, 0.0) if not flip else f(0.0, x))
  a, b = pair(a, b)
  if a.sort() == B:
    return from_z3(z3.simplify(f(a, b)))
  d = norm(a - b)
  if is_c(d):
    return bool(f(d, 0))
  g = _big_part(d)
  if g:
    return bool(f(g, 0))
  if d.sort() == R:
    k = _lead(d)
    if k is not None and k != 1:
      d2 = norm(mul(1 / abs(k), d))
      if k < 0:
        d2 = norm(mul(Fraction(-1), d2))
        return f(z3.RealVal(0), d2)
      d = d2
    return f(d, z3.RealVal(0))
  return from_z3(z3.simplify(f(a, b), som=True, som_blowup=4294967295, sort_sums=True, arith_lhs=True))


def lt(a, b): return _cmp(a, b, lambda x, y: x < y)
def le(a, b): return _cmp(a, b, lambda x, y: x <= y)
def gt(a, b): return _cmp(a, b, lambda x, y: x > y)
def ge(a, b): return _cmp(a, b, lambda x, y: x >= y)
def eq(a, b): return _cmp(a, b, lambda x, y: x == y)
def ne(a, b): return not_(eq(a, b))


def not_(a):
  if is_c(a):
    return (not a)
  return z3.Not(a)


def and_(a, b):
  if is_c(a):
    return b if a else False
  if is_c(b):
    return a if b else False
  return z3.And(a, b)


def or_(a, b):
  if is_c(a):
    return True if a else b
  if is_c(b):
    return True if b else a
  return z3.Or(a, b)


def max_(a, b):
  if is_c(a) and is_c(b):
    return a if a >= b else b
  if _spec(a):
    return b if a < 0 else a
  if _spec(b):
    return a if b < 0 else b
  if not is_c(a) and not is_c(b) and a.eq(b):
    return a
  return ite(ge(a, b), a, b)


def min_(a, b):
  if is_c(a) and is_c(b):
    return a if a <= b else b
  if _spec(a):
    return b if a > 0 else a
  if _spec(b):
    return a if b > 0 else b
  return ite(le(a, b), a, b)


def sqrt(a):
  a = norm(a)
  if is_c(a):
    if a >= 0 and isinstance(a, (Fraction, int)):
      a = Fraction(a)
      n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
      if n * n == a.numerator and d * d == a.denominator:
        return Fraction(n, d)
    return canon_float(math.sqrt(a)) if a >= 0 else float("nan")
  return uf("sqrt", a)


def rsqrt(a):
  return inv(sqrt(a))


def exp(a):
  a = norm(a)
  if is_c(a):
    if a == 0:
      return Fraction(1)
    if _spec(a):
      return Fraction(0) if a < 0 else INF
    if a < -200:
      return Fraction(0)
    return canon_float(math.exp(float(a))) if a < 80 else INF
  if z3.is_app_of(a, z3.Z3_OP_ITE):
    return ite(a.arg(0), exp(from_z3(a.arg(1))), exp(from_z3(a.arg(2))))
  if _big_part(a) < 0:
    return Fraction(0)
  return uf("exp", a)


def ipow(a, n):
  if n < 0:
    return inv(ipow(a, -n))
  out = Fraction(1) if sort_of(a) == R else 1
  for _ in range(n):
    out = mul(out, a)
  return out


def power(a, b):
  if is_c(b):
    fb = Fraction(b) if not isinstance(b, float) else canon_float(b)
    if fb.denominator == 1 and abs(fb) <= 16:
      return ipow(a, int(fb))
    if fb == Fraction(1, 2):
      return sqrt(a)
    if fb == Fraction(-1, 2):
      return rsqrt(a)
  if is_c(a) and is_c(b):
    return canon_float(float(a) ** float(b))
  # pow(a, ite-int): integer valued symbolic exponent stays uninterpreted
  return uf("pow", a, b)


_NUM = {
    "log": math.log, "tanh": math.tanh, "sin": math.sin, "cos": math.cos,
    "erf": math.erf, "log1p": math.log1p, "expm1": math.expm1,
    "atan2": None, "cbrt": None,
}


def unary(name, a):
  a = norm(a)
  if is_c(a) and not _spec(a):
    f = _NUM.get(name)
    if f is not None:
      try:
        v = f(float(a))
        return canon_float(v)
      except ValueError:
        return float("nan")
    if name == "erf_inv":
      from scipy.special import erfinv
      return canon_float(float(erfinv(float(a))))
  return uf(name, a)


def axioms(fs):
  """Lazily instantiated axioms for the uninterpreted symbols in formulas."""
  out, seen, stack = [], set(), list(fs)
  while stack:
    t = stack.pop()
    i = t.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_app(t):
      n = t.decl().name()
      if n.startswith("uf_") or n in ("unif", "bits"):
        a = t.arg(0) if t.num_args() else None
        if n == "uf_inv_Real":
          out.append(z3.Implies(a != 0, t * a == 1))
          out.append(z3.Implies(a > 0, t > 0))
          out.append(z3.Implies(a < 0, t < 0))
        elif n == "uf_sqrt_Real":
          out.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
          out.append(z3.Implies(a > 0, t > 0))
        elif n == "uf_exp_Real":
          out.append(t > 0)
          out.append(z3.Implies(a <= 0, t <= 1))
          out.append(z3.Implies(a >= 0, t >= 1))
        elif n == "uf_tanh_Real":
          out.append(z3.And(t > -1, t < 1))
        elif n == "unif":
          out.append(z3.And(t >= 0, t < 1))
        elif n == "bits":
          out.append(z3.And(t >= 0, t < 2 ** 32))
      stack.extend(t.children())
  return out


def key_of(w0, w1):
  """Recovers the Key term from its two words."""
  if is_c(w0) and is_c(w1):
    return Key.Raw(int(w0), int(w1))
  w0, w1 = to_int(w0), to_int(w1)
  if z3.is_app(w0) and z3.is_app(w1):
    if w0.decl().eq(W0) and w1.decl().eq(W1) and w0.arg(0).eq(w1.arg(0)):
      return w0.arg(0)
    if z3.is_app_of(w0, z3.Z3_OP_ITE) and z3.is_app_of(w1, z3.Z3_OP_ITE) \
        and w0.arg(0).eq(w1.arg(0)):
      return z3.If(w0.arg(0), key_of(from_z3(w0.arg(1)), from_z3(w1.arg(1))),
                   key_of(from_z3(w0.arg(2)), from_z3(w1.arg(2))))
  return Key.Raw(w0, w1)
