"""Solver-backed Python scalars for code that runs before/outside tracing.

SymInt/SymBool are handed to the real Python functions; arithmetic builds z3
terms, truth tests fork the path (both sides explored while feasible), and
places where CPython needs a machine integer (`__index__`, hashing) enumerate
the feasible values by forking on the solver's models.
"""
import z3

from vlib import terms as T


def unwrap(x):
  if isinstance(x, _Sym):
    return x.t
  if isinstance(x, (list,)):
    return [unwrap(v) for v in x]
  return x


class _Sym:
  __slots__ = ("t", "ctx")

  def __init__(self, t, ctx):
    object.__setattr__(self, "t", t)
    object.__setattr__(self, "ctx", ctx)

  def __repr__(self):
    return f"<{z3.simplify(self.t) if isinstance(self.t, z3.ExprRef) else self.t}>"


class SymBool(_Sym):
  __class__ = property(lambda self: bool)

  def __bool__(self):
    return self.ctx.branch(self.t)

  def __and__(self, o): return SymBool(z3.And(self.t, T.to_bool(unwrap(o))), self.ctx)
  def __or__(self, o): return SymBool(z3.Or(self.t, T.to_bool(unwrap(o))), self.ctx)
  def __invert__(self): return SymBool(z3.Not(self.t), self.ctx)
  __rand__, __ror__ = __and__, __or__
  def __eq__(self, o): return SymBool(self.t == T.to_bool(unwrap(o)), self.ctx)
  def __ne__(self, o): return SymBool(self.t != T.to_bool(unwrap(o)), self.ctx)
  def __hash__(self): return hash(bool(self))
  def __int__(self): return int(bool(self))
  __index__ = __int__


def _intlike(o):
  return isinstance(o, SymInt) or type(o) in (int, bool) or (isinstance(o, z3.ExprRef) and o.sort() == T.I) \
      or (hasattr(o, "dtype") and hasattr(o, "item") and getattr(o, "ndim", 1) == 0 and o.dtype.kind in "iu")


def _i(o):
  o = unwrap(o)
  if isinstance(o, z3.ExprRef):
    return o
  return z3.IntVal(int(o))


def _bin(f):
  def g(self, o):
    if type(o) is float and o == int(o):
      o = int(o)
    if not _intlike(o):
      return NotImplemented
    return SymInt(f(self.t, _i(o)), self.ctx)
  def r(self, o):
    if type(o) is float and o == int(o):
      o = int(o)
    if not _intlike(o):
      return NotImplemented
    return SymInt(f(_i(o), self.t), self.ctx)
  return g, r


def _cmp(f, dflt=NotImplemented):
  def g(self, o):
    if type(o) is float and o == int(o):
      o = int(o)
    if not _intlike(o):
      return dflt
    return SymBool(f(self.t, _i(o)), self.ctx)
  return g


def _floordiv(a, b):
  # z3 integer division is Euclidean: equals floor for b > 0
  return z3.If(b > 0, a / b, (-a) / (-b))


class SymInt(_Sym):
  __class__ = property(lambda self: int)
  __add__, __radd__ = _bin(lambda a, b: a + b)
  __sub__, __rsub__ = _bin(lambda a, b: a - b)
  __mul__, __rmul__ = _bin(lambda a, b: a * b)
  __lt__ = _cmp(lambda a, b: a < b)
  __le__ = _cmp(lambda a, b: a <= b)
  __gt__ = _cmp(lambda a, b: a > b)
  __ge__ = _cmp(lambda a, b: a >= b)
  __eq__ = _cmp(lambda a, b: a == b, False)
  __ne__ = _cmp(lambda a, b: a != b, True)

  def _divmod(self, a, b):
    if self.ctx.branch(b == 0):
      raise ZeroDivisionError("integer division or modulo by zero")
    q = _floordiv(a, b)
    return SymInt(q, self.ctx), SymInt(a - q * b, self.ctx)

  def __floordiv__(self, o): return self._divmod(self.t, _i(o))[0] if _intlike(o) else NotImplemented
  def __rfloordiv__(self, o): return self._divmod(_i(o), self.t)[0] if _intlike(o) else NotImplemented
  def __mod__(self, o): return self._divmod(self.t, _i(o))[1] if _intlike(o) else NotImplemented
  def __rmod__(self, o): return self._divmod(_i(o), self.t)[1] if _intlike(o) else NotImplemented
  def __divmod__(self, o): return self._divmod(self.t, _i(o))
  def __truediv__(self, o):
    # exact only; used where a quotient is known to be integral, else concretise
    return int(self) / int(o)
  def __rtruediv__(self, o): return o / int(self)
  def __pow__(self, o): return int(self) ** int(o)
  def __neg__(self): return SymInt(-self.t, self.ctx)
  def __pos__(self): return self
  def __abs__(self): return SymInt(z3.If(self.t >= 0, self.t, -self.t), self.ctx)
  def __bool__(self): return self.ctx.branch(self.t != 0)
  def __int__(self): return self.ctx.concretise(self.t)
  __index__ = __trunc__ = __int__
  def __float__(self): return float(int(self))
  def __hash__(self): return hash(int(self))
  def __round__(self, n=None): return self
  def __floor__(self): return self
  __ceil__ = __floor__
  def __str__(self): return "<int>"      # messages only: never concretises
  def __format__(self, s): return "<int>"
  def bit_length(self): return int(self).bit_length()
  real = property(lambda self: self)
  def __copy__(self): return self
  def __deepcopy__(self, memo): return self
