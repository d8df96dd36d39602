"""Symbolic interpreter for jaxprs traced from the real code.

`trace(f, args)` runs the real Python code under jax.make_jaxpr, so the code
under test is turned into JAX's intermediate representation; `interpret`
executes that representation on arrays of solver terms.
"""
import functools
import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3

from vlib import terms as T
from vlib.terms import Unsupported

jcore = jax.core
STATS = {"eqns": 0}
WHILE_BOUND = 8


class SA:
  """Symbolic array: object ndarray of scalar terms plus the JAX dtype."""
  __slots__ = ("a", "dtype", "weak")

  def __init__(self, a, dtype):
    if not isinstance(a, np.ndarray):
      b = np.empty((), dtype=object)
      b[()] = a
      a = b
    assert a.dtype == object, a.dtype
    self.a, self.dtype = a, dtype

  @property
  def shape(self):
    return self.a.shape

  @property
  def ndim(self):
    return self.a.ndim

  @property
  def size(self):
    return self.a.size

  def __repr__(self):
    return f"SA{self.a.shape}:{self.dtype}"

  def __getitem__(self, i):
    r = self.a[i]
    return SA(r if isinstance(r, np.ndarray) else r, self.dtype)


def kind(dtype):
  if isinstance(dtype, str):
    return dtype
  try:
    if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key):
      return "key"
  except Exception:  # pylint: disable=broad-except
    pass
  if jnp.issubdtype(dtype, jnp.bool_):
    return "b"
  if jnp.issubdtype(dtype, jnp.integer):
    return "i"
  if jnp.issubdtype(dtype, jnp.floating):
    return "f"
  raise Unsupported(f"dtype {dtype}")


def const_elem(v, k):
  if k == "b":
    return bool(v)
  if k == "i":
    return int(v)
  return T.canon_float(v)


def lift_const(x, dtype=None):
  """Concrete array -> SA of canonical python constants."""
  if isinstance(x, SA):
    return x
  if hasattr(x, "dtype") and kind(x.dtype) == "key":
    data = np.asarray(jax.random.key_data(x))
    out = np.empty(data.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
      out[i] = T.Key.Raw(int(data[i][0]), int(data[i][1]))
    return SA(out, "key")
  arr = np.asarray(x)
  dtype = dtype or arr.dtype
  k = kind(dtype)
  out = np.empty(arr.shape, dtype=object)
  if k == "f":
    arr = arr.astype(np.float32) if arr.dtype != np.float64 else arr
  for i in np.ndindex(*arr.shape):
    out[i] = const_elem(arr[i], k)
  return SA(out, dtype)


def all_const(sa):
  return all(T.is_c(x) for x in sa.a.flat)


def to_numpy(sa):
  """SA of constants -> numpy array."""
  k = kind(sa.dtype)
  if k == "key":
    raise Unsupported("concrete key")
  dt = {"b": np.bool_, "i": np.int64, "f": np.float64}[k]
  out = np.empty(sa.shape, dtype=dt)
  for i in np.ndindex(*sa.shape):
    out[i] = sa.a[i]
  return out


def ew(f, *arrs):
  fn = np.frompyfunc(f, len(arrs), 1)
  r = fn(*arrs)
  if not isinstance(r, np.ndarray):
    b = np.empty((), dtype=object)
    b[()] = r
    return b
  return r


def full(shape, v):
  out = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape):
    out[i] = v
  return out


RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def _out_dtype(eqn, i=0):
  d = eqn.outvars[i].aval.dtype
  return "key" if kind(d) == "key" else d


# ---------------------------------------------------------------- elementwise
def _elem(name, f):
  def r(interp, eqn, *xs):
    return [SA(ew(f, *[x.a for x in xs]), _out_dtype(eqn))]
  RULES[name] = r


for _n, _f in {
    "add": T.add, "add_any": T.add, "sub": T.sub, "mul": T.mul, "neg": T.neg,
    "lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge, "eq": T.eq, "ne": T.ne,
    "max": T.max_, "min": T.min_, "sqrt": T.sqrt, "rsqrt": T.rsqrt,
    "exp": T.exp, "pow": T.power,
    "square": lambda a: T.mul(a, a),
    "logistic": lambda a: T.inv(T.add(Fraction(1), T.exp(T.neg(a)))),
    "log": lambda a: T.unary("log", a),
    "log1p": lambda a: T.unary("log", T.add(Fraction(1), a)),
    "expm1": lambda a: T.sub(T.exp(a), Fraction(1)),
    "tanh": lambda a: T.unary("tanh", a),
    "erf": lambda a: T.unary("erf", a),
    "erf_inv": lambda a: T.unary("erf_inv", a),
    "sin": lambda a: T.unary("sin", a), "cos": lambda a: T.unary("cos", a),
    "abs": lambda a: T.ite(T.ge(a, 0), a, T.neg(a)),
    "stop_gradient": lambda a: a, "copy": lambda a: a, "device_put": lambda a: a, "optimization_barrier": lambda a: a, "copy_p": lambda a: a,
    "real": lambda a: a,
}.items():
  _elem(_n, _f)


@rule("sign")
def _sign(interp, eqn, x):
  one = Fraction(1) if kind(x.dtype) == "f" else 1
  f = lambda a: T.ite(T.gt(a, 0), one, T.ite(T.lt(a, 0), -one, one * 0))
  return [SA(ew(f, x.a), x.dtype)]


@rule("is_finite")
def _is_finite(interp, eqn, x):
  f = lambda a: not (T.is_c(a) and T._spec(a))
  return [SA(ew(f, x.a), np.dtype(bool))]


@rule("div")
def _div(interp, eqn, a, b):
  f = T.int_div if kind(a.dtype) == "i" else T.div
  return [SA(ew(f, a.a, b.a), _out_dtype(eqn))]


@rule("rem")
def _rem(interp, eqn, a, b):
  if kind(a.dtype) == "i":
    return [SA(ew(T.int_rem, a.a, b.a), _out_dtype(eqn))]
  def f(x, y):
    if T.is_c(x) and T.is_c(y):
      return T.canon_float(math.fmod(float(x), float(y)))
    return T.uf("rem", x, y)
  return [SA(ew(f, a.a, b.a), _out_dtype(eqn))]


@rule("integer_pow")
def _ipow(interp, eqn, x):
  n = eqn.params["y"]
  return [SA(ew(lambda a: T.ipow(a, n), x.a), _out_dtype(eqn))]


@rule("and", "or", "xor", "not")
def _logic(interp, eqn, *xs):
  n = eqn.primitive.name
  if kind(xs[0].dtype) == "b":
    f = {"and": T.and_, "or": T.or_, "not": T.not_,
         "xor": lambda a, b: T.ne(a, b)}[n]
  else:
    def f(*v):
      if all(T.is_c(t) for t in v):
        return {"and": lambda a, b: a & b, "or": lambda a, b: a | b,
                "xor": lambda a, b: a ^ b, "not": lambda a: ~a}[n](*map(int, v))
      return T.uf_int(n, *v)
  return [SA(ew(f, *[x.a for x in xs]), _out_dtype(eqn))]


@rule("shift_right_logical", "shift_left", "shift_right_arithmetic")
def _shift(interp, eqn, a, b):
  n = eqn.primitive.name
  def f(x, y):
    if T.is_c(x) and T.is_c(y):
      return (int(x) << int(y)) & 0xffffffff if n == "shift_left" else int(x) >> int(y)
    return T.uf_int(n, x, y)
  return [SA(ew(f, a.a, b.a), _out_dtype(eqn))]


@rule("bitcast_convert_type")
def _bitcast(interp, eqn, x):
  d = _out_dtype(eqn)
  k = kind(d)
  f = (lambda v: T.uf("bitcast", v)) if k == "f" else (lambda v: T.uf_int("bitcast", v))
  return [SA(ew(f, x.a), d)]


@rule("clamp")
def _clamp(interp, eqn, lo, x, hi):
  l, h = lo.a, hi.a
  f = lambda a, b, c: T.min_(T.max_(b, a), c)
  l = np.broadcast_to(l, x.shape) if l.shape != x.shape else l
  h = np.broadcast_to(h, x.shape) if h.shape != x.shape else h
  return [SA(ew(f, l, x.a, h), x.dtype)]


@rule("floor", "ceil", "round")
def _floor(interp, eqn, x):
  n = eqn.primitive.name
  def f(a):
    if T.is_c(a):
      if T._spec(a):
        return a
      return Fraction({"floor": math.floor, "ceil": math.ceil, "round": round}[n](a))
    if n == "floor":
      return z3.ToReal(z3.ToInt(a))
    if n == "ceil":
      return -z3.ToReal(z3.ToInt(-a))
    return T.uf("round", a)
  return [SA(ew(f, x.a), x.dtype)]


@rule("nextafter")
def _nextafter(interp, eqn, a, b):
  def f(x, y):
    if T.is_c(x) and T.is_c(y):
      return T.canon_float(np.nextafter(np.float32(x), np.float32(y)))
    return x
  return [SA(ew(f, a.a, b.a), a.dtype)]


def cast_elem(v, ks, kd):
  if ks == kd:
    return v
  if T.is_c(v):
    if kd == "f":
      return Fraction(int(v)) if not isinstance(v, float) else v
    if kd == "i":
      return int(v)
    return bool(v != 0)
  if kd == "f":
    return T.to_real(v)
  if kd == "i":
    if ks == "b":
      return T.to_int(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
  return T.ne(v, 0)


@rule("convert_element_type")
def _convert(interp, eqn, x):
  d = _out_dtype(eqn)
  ks, kd = kind(x.dtype), kind(d)
  return [SA(ew(lambda v: cast_elem(v, ks, kd), x.a), d)]


@rule("reduce_precision")
def _rp(interp, eqn, x):
  return [x]


@rule("select_n")
def _select_n(interp, eqn, which, *cases):
  if which.shape != cases[0].shape:
    w = np.broadcast_to(which.a, cases[0].shape) if which.shape == () else which.a
  else:
    w = which.a
  if kind(which.dtype) == "b":
    f = lambda c, a, b: T.ite(c, b, a)
    return [SA(ew(f, w, cases[0].a, cases[1].a), cases[0].dtype)]
  def g(i, *cs):
    if T.is_c(i):
      return cs[int(i)]
    out = cs[-1]
    for j in reversed(range(len(cs) - 1)):
      out = T.ite(T.eq(i, j), cs[j], out)
    return out
  return [SA(ew(g, w, *[c.a for c in cases]), cases[0].dtype)]


# -------------------------------------------------------------- data movement
@rule("reshape")
def _reshape(interp, eqn, x, *rest):
  if eqn.params.get("dimensions") is not None:
    raise Unsupported("reshape dimensions")
  return [SA(x.a.reshape(eqn.params["new_sizes"]), x.dtype)]


@rule("squeeze", "expand_dims")
def _squeeze(interp, eqn, x):
  return [SA(x.a.reshape(eqn.outvars[0].aval.shape), x.dtype)]


@rule("transpose")
def _transpose(interp, eqn, x):
  return [SA(np.transpose(x.a, eqn.params["permutation"]), x.dtype)]


@rule("broadcast_in_dim")
def _bid(interp, eqn, x, *dyn):
  shape, dims = eqn.params["shape"], eqn.params["broadcast_dimensions"]
  tmp = [1] * len(shape)
  for s, d in zip(x.shape, dims):
    tmp[d] = s
  return [SA(np.broadcast_to(x.a.reshape(tmp), shape).copy(), x.dtype)]


@rule("slice")
def _slice(interp, eqn, x):
  p = eqn.params
  st = p["strides"] or (1,) * x.ndim
  return [SA(x.a[tuple(slice(a, b, c) for a, b, c in zip(
      p["start_indices"], p["limit_indices"], st))], x.dtype)]


@rule("rev")
def _rev(interp, eqn, x):
  return [SA(np.flip(x.a, eqn.params["dimensions"]), x.dtype)]


@rule("concatenate")
def _concat(interp, eqn, *xs):
  return [SA(np.concatenate([x.a for x in xs], eqn.params["dimension"]), xs[0].dtype)]


@rule("pad")
def _pad(interp, eqn, x, v):
  return [SA(np_pad(x.a, v.a[()], eqn.params["padding_config"]), x.dtype)]


def np_pad(a, v, config):
  for ax, (lo, hi, inner) in enumerate(config):
    n = a.shape[ax]
    total = n + max(n - 1, 0) * inner
    shp = list(a.shape)
    shp[ax] = total
    b = full(tuple(shp), v)
    idx = [slice(None)] * a.ndim
    idx[ax] = slice(0, total, inner + 1)
    if n:
      b[tuple(idx)] = a
    # negative padding crops
    if lo < 0:
      idx[ax] = slice(-lo, None)
      b = b[tuple(idx)]
      lo = 0
    if hi < 0:
      idx[ax] = slice(0, b.shape[ax] + hi)
      b = b[tuple(idx)]
      hi = 0
    shp = list(b.shape)
    shp[ax] = lo + hi + b.shape[ax]
    c = full(tuple(shp), v)
    idx = [slice(None)] * a.ndim
    idx[ax] = slice(lo, lo + b.shape[ax])
    c[tuple(idx)] = b
    a = c
  return a


@rule("iota")
def _iota(interp, eqn):
  p = eqn.params
  k = kind(p["dtype"])
  out = np.empty(p["shape"], dtype=object)
  for i in np.ndindex(*p["shape"]):
    out[i] = const_elem(i[p["dimension"]], k)
  return [SA(out, p["dtype"])]


def _bind_ids(eqn, arrs):
  """Runs the real data-movement primitive on element ids."""
  table, ids = [], []
  for a in arrs:
    if isinstance(a, SA):
      base = len(table)
      table.extend(a.a.flat)
      ids.append(jnp.asarray(np.arange(base, base + a.size, dtype=np.int32).reshape(a.shape)))
    else:
      ids.append(a)
  params, missing = dict(eqn.params), float("nan")
  if params.get("fill_value") is not None:      # ids outside the operand read as INT_MIN
    fv = np.asarray(params["fill_value"])
    if np.isfinite(fv):
      missing = const_elem(fv.item(), kind(fv.dtype)) if np.asarray(fv).ndim == 0 else missing
    params["fill_value"] = -2**31
  out = np.asarray(eqn.primitive.bind(*ids, **params))
  res = np.empty(out.shape, dtype=object)
  for i in np.ndindex(*out.shape):
    j = int(out[i])
    res[i] = table[j] if 0 <= j < len(table) else missing
  return res


@rule("dynamic_slice")
def _dynamic_slice(interp, eqn, x, *idx):
  sizes = eqn.params["slice_sizes"]
  def at(starts):
    st = [min(max(int(s), 0), x.shape[d] - sizes[d]) for d, s in enumerate(starts)]
    return x.a[tuple(slice(s, s + n) for s, n in zip(st, sizes))]
  ivals = [i.a[()] for i in idx]
  sym = [d for d, i in enumerate(ivals) if not T.is_c(i)]
  if not sym:
    return [SA(at(ivals), x.dtype)]
  out = None
  ranges = [range(x.shape[d] - sizes[d] + 1) for d in sym]
  for combo in itertools.product(*ranges):
    starts = list(ivals)
    c = True
    for d, v in zip(sym, combo):
      starts[d] = v
      hi = x.shape[d] - sizes[d]
      t = ivals[d]
      c = T.and_(c, T.and_(T.le(t, 0) if v == 0 else (T.ge(t, hi) if v == hi else T.eq(t, v)), True)
                 if not (v == 0 and hi == 0) else True)
    val = at(starts)
    out = val if out is None else ew(lambda a, b: T.ite(c, a, b), val, out)
  return [SA(out, x.dtype)]


@rule("dynamic_update_slice")
def _dus(interp, eqn, x, u, *idx):
  ivals = [i.a[()] for i in idx]
  def at(starts):
    st = [min(max(int(s), 0), x.shape[d] - u.shape[d]) for d, s in enumerate(starts)]
    out = x.a.copy()
    out[tuple(slice(s, s + n) for s, n in zip(st, u.shape))] = u.a
    return out
  sym = [d for d, i in enumerate(ivals) if not T.is_c(i)]
  if not sym:
    return [SA(at(ivals), x.dtype)]
  out = None
  for combo in itertools.product(*[range(x.shape[d] - u.shape[d] + 1) for d in sym]):
    starts, c = list(ivals), True
    for d, v in zip(sym, combo):
      starts[d] = v
      c = T.and_(c, T.eq(ivals[d], v))
    val = at(starts)
    out = val if out is None else ew(lambda a, b: T.ite(c, a, b), val, out)
  return [SA(out, x.dtype)]


@rule("gather")
def _gather(interp, eqn, x, idx):
  if all_const(idx):
    return [SA(_bind_ids(eqn, [x, jnp.asarray(to_numpy(idx).astype(np.int32))]), x.dtype)]
  dn = eqn.params["dimension_numbers"]
  n = idx.shape[-1]
  dims = dn.start_index_map
  sizes = eqn.params["slice_sizes"]
  out_shape = eqn.outvars[0].aval.shape
  batch_dims = [d for d in range(len(out_shape)) if d not in dn.offset_dims]
  ranges = [range(-1, x.shape[d] - sizes[d] + 2) for d in dims]
  out = full(out_shape, float("nan"))
  first = True
  for combo in itertools.product(*ranges):
    ci = np.broadcast_to(np.asarray(combo, np.int32), idx.shape)
    val = _bind_ids(eqn, [x, jnp.asarray(ci)])
    for o in np.ndindex(*out_shape):
      b = tuple(o[d] for d in batch_dims)
      c = True
      for j in range(n):
        t = idx.a[b + (j,)]
        hi = x.shape[dims[j]] - sizes[dims[j]] + 1
        v = combo[j]
        c = T.and_(c, T.le(t, -1) if v == -1 else (T.ge(t, hi) if v == hi else T.eq(t, v)))
      nv = val[o]
      if T.is_c(nv) and T._spec(nv):
        nv = z3.Const("NAN", T.R) if kind(x.dtype) == "f" else -2**31
      out[o] = nv if first else T.ite(c, nv, out[o])
    first = False
  return [SA(out, x.dtype)]


def _scatter_sym(eqn, x, idx, u):
  """Scatter at symbolic positions: every update guarded by its position."""
  name, p = eqn.primitive.name, eqn.params
  dn = p["dimension_numbers"]
  dims = dn.scatter_dims_to_operand_dims
  rows = [d for d in range(u.ndim) if d not in dn.update_window_dims]
  if idx.size // max(idx.shape[-1], 1) * int(np.prod([x.shape[d] + 1 for d in dims])) * u.size > 20000:
    raise Unsupported("large scatter with symbolic indices")
  res = x.a.copy().reshape(-1)
  for combo in itertools.product(*[range(x.shape[d]) for d in dims]):
    ci = jnp.asarray(np.broadcast_to(np.asarray(combo, np.int32), idx.shape))
    for k, pos in enumerate(np.ndindex(*u.shape)):
      c = True
      for j, v in enumerate(combo):
        c = T.and_(c, T.eq(idx.a[tuple(pos[d] for d in rows) + (j,)], v))
      if T.is_c(c) and not c:
        continue
      onehot = np.zeros(u.size, np.int32)
      onehot[k] = 1
      m = np.asarray(jax.lax.scatter_add(
          jnp.zeros(x.shape, jnp.int32), ci, jnp.asarray(onehot.reshape(u.shape)), dn,
          indices_are_sorted=False, unique_indices=False, mode=p["mode"])).reshape(-1)
      v = u.a.reshape(-1)[k]
      for j in np.nonzero(m)[0]:
        if name == "scatter":
          res[j] = T.ite(c, v, res[j])
        elif "mul" in name:
          res[j] = T.mul(res[j], T.ite(c, v, Fraction(1) if kind(x.dtype) == "f" else 1))
        else:
          res[j] = T.add(res[j], T.ite(c, v, Fraction(0) if kind(x.dtype) == "f" else 0))
  return [SA(res.reshape(x.shape), x.dtype)]


@rule("scatter", "scatter-add", "scatter_add", "scatter-mul", "scatter_mul")
def _scatter(interp, eqn, x, idx, u):
  if not all_const(idx):
    return _scatter_sym(eqn, x, idx, u)
  ci = jnp.asarray(to_numpy(idx).astype(np.int32))
  name = eqn.primitive.name
  if name == "scatter":
    nx = SA(x.a, x.dtype)
    table = list(x.a.flat) + list(u.a.flat)
    xi = jnp.arange(x.size, dtype=jnp.int32).reshape(x.shape)
    ui = jnp.arange(x.size, x.size + u.size, dtype=jnp.int32).reshape(u.shape)
    out = np.asarray(eqn.primitive.bind(xi, ci, ui, **eqn.params))
    res = np.empty(out.shape, dtype=object)
    for i in np.ndindex(*out.shape):
      res[i] = table[int(out[i])]
    return [SA(res, x.dtype)]
  p = {k: v for k, v in eqn.params.items()}
  res = x.a.copy().reshape(-1)
  for k in range(u.size):
    onehot = np.zeros(u.size, np.int32)
    onehot[k] = 1
    m = np.asarray(jax.lax.scatter_add(
        jnp.zeros(x.shape, jnp.int32), ci, jnp.asarray(onehot.reshape(u.shape)),
        p["dimension_numbers"], indices_are_sorted=p["indices_are_sorted"],
        unique_indices=p["unique_indices"], mode=p["mode"])).reshape(-1)
    for j in np.nonzero(m)[0]:
      f = T.mul if "mul" in name else T.add
      res[j] = f(res[j], u.a.reshape(-1)[k])
  return [SA(res.reshape(x.shape), x.dtype)]


# ------------------------------------------------------------------ reductions
def _reduce(name, f, init):
  def r(interp, eqn, x):
    axes = eqn.params["axes"]
    keep = [d for d in range(x.ndim) if d not in axes]
    a = np.transpose(x.a, keep + list(axes))
    n = int(np.prod([x.shape[d] for d in axes], dtype=int)) if axes else 1
    outshape = tuple(x.shape[d] for d in keep)
    a = a.reshape(outshape + (n,))
    out = np.empty(outshape, dtype=object)
    for i in np.ndindex(*outshape):
      row = a[i]
      acc = init(kind(x.dtype)) if n == 0 else row[0]
      for j in range(1, n):
        acc = f(acc, row[j])
      out[i] = acc
    return [SA(out, x.dtype)]
  RULES[name] = r


_reduce("reduce_sum", T.add, lambda k: Fraction(0) if k == "f" else 0)
_reduce("reduce_prod", T.mul, lambda k: Fraction(1) if k == "f" else 1)
_reduce("reduce_max", T.max_, lambda k: -T.INF)
_reduce("reduce_min", T.min_, lambda k: T.INF)
_reduce("reduce_and", T.and_, lambda k: True)
_reduce("reduce_or", T.or_, lambda k: False)


@rule("argmax", "argmin")
def _argmax(interp, eqn, x):
  (axis,) = eqn.params["axes"]
  a = np.moveaxis(x.a, axis, -1)
  better = T.gt if eqn.primitive.name == "argmax" else T.lt
  isb = kind(x.dtype) == "b"
  if isb:
    better = ((lambda p, q: T.and_(p, T.not_(q))) if eqn.primitive.name == "argmax"
              else (lambda p, q: T.and_(T.not_(p), q)))
  out = np.empty(a.shape[:-1], dtype=object)
  for i in np.ndindex(*out.shape):
    best, bi = a[i][0], 0
    for j in range(1, a.shape[-1]):
      c = better(a[i][j], best)
      best, bi = T.ite(c, a[i][j], best), T.ite(c, j, bi)
    out[i] = bi
  return [SA(out, eqn.params["index_dtype"])]


@rule("cumsum", "cumprod", "cummax", "cummin")
def _cum(interp, eqn, x):
  f = {"cumsum": T.add, "cumprod": T.mul, "cummax": T.max_, "cummin": T.min_}[eqn.primitive.name]
  ax = eqn.params["axis"]
  a = np.moveaxis(x.a, ax, 0).copy()
  rng = list(range(a.shape[0]))
  if eqn.params.get("reverse"):
    rng = rng[::-1]
  for p, q in zip(rng, rng[1:]):
    a[q] = ew(f, a[p], a[q]) if a.ndim > 1 else f(a[p], a[q])
  return [SA(np.moveaxis(a, 0, ax), x.dtype)]


def _window(interp, eqn, x, f, init):
  p = eqn.params
  wd, ws = p["window_dimensions"], p["window_strides"]
  bd = p.get("base_dilation") or (1,) * x.ndim
  wdil = p.get("window_dilation") or (1,) * x.ndim
  a = np_pad(x.a, init, [(lo, hi, b - 1) for (lo, hi), b in zip(p["padding"], bd)])
  outshape = eqn.outvars[0].aval.shape
  out = np.empty(outshape, dtype=object)
  for o in np.ndindex(*outshape):
    acc = init
    for w in np.ndindex(*wd):
      idx = tuple(i * s + j * d for i, s, j, d in zip(o, ws, w, wdil))
      acc = f(acc, a[idx])
    out[o] = acc
  return [SA(out, x.dtype)]


@rule("reduce_window_sum")
def _rws(interp, eqn, x):
  return _window(interp, eqn, x, T.add, Fraction(0) if kind(x.dtype) == "f" else 0)


@rule("reduce_window_max")
def _rwm(interp, eqn, x):
  return _window(interp, eqn, x, T.max_, -T.INF)


@rule("reduce_window_min")
def _rwmin(interp, eqn, x):
  return _window(interp, eqn, x, T.min_, T.INF)


def _selected(eqn, x):
  """For each window its elements' positions and the condition that each is the selected one."""
  p = eqn.params
  wd, ws = p["window_dimensions"], p["window_strides"]
  if any(d != 1 for k in ("base_dilation", "window_dilation") for d in p.get(k) or ()):
    raise Unsupported("dilated select window")
  pos = np.empty(x.shape, dtype=object)
  for i in np.ndindex(*x.shape):
    pos[i] = i
  padded = np_pad(pos, None, [(lo, hi, 0) for lo, hi in p["padding"]])
  better = {"ge": T.gt, "gt": T.gt, "le": T.lt, "lt": T.lt}[p["select_prim"].name]
  sizes = [(n - w) // st + 1 for n, w, st in zip(padded.shape, wd, ws)]
  for o in np.ndindex(*sizes):
    el = [padded[tuple(a * st + b for a, st, b in zip(o, ws, w))] for w in np.ndindex(*wd)]
    el = [e for e in el if e is not None]
    conds = []
    for a, e in enumerate(el):
      c = True
      for b, g in enumerate(el):
        if a != b:         # the first of equal ones is selected
          c = T.and_(c, T.not_(better(x.a[g], x.a[e])) if a < b else better(x.a[e], x.a[g]))
      conds.append((e, c))
    yield o, conds


@rule("select_and_gather_add")
def _sga(interp, eqn, t, x):
  out = np.empty(eqn.outvars[0].aval.shape, dtype=object)
  for o, conds in _selected(eqn, x):
    v = const_elem(0, "f")
    for e, c in conds:
      v = T.ite(c, t.a[e], v)
    out[o] = v
  return [SA(out, t.dtype)]


@rule("select_and_scatter_add")
def _ssa(interp, eqn, src, x):
  out = full(x.shape, const_elem(0, "f"))
  for o, conds in _selected(eqn, x):
    for e, c in conds:
      out[e] = T.add(out[e], T.ite(c, src.a[o], const_elem(0, "f")))
  return [SA(out, src.dtype)]


@rule("reduce_window")
def _rwg(interp, eqn, x, init):
  jx = eqn.params["jaxpr"]
  consts = eqn.params.get("consts", ())
  def f(a, b):
    r = interpret(jx, [lift_const(c) for c in consts],
                  [SA(a, x.dtype), SA(b, x.dtype)], interp)
    return r[0].a[()]
  return _window(interp, eqn, x, f, init.a[()])


# ------------------------------------------------------------- linear algebra
@rule("dot_general")
def _dot(interp, eqn, l, r):
  (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
  lo = [d for d in range(l.ndim) if d not in lc and d not in lb]
  ro = [d for d in range(r.ndim) if d not in rc and d not in rb]
  bs = [l.shape[d] for d in lb]
  la = np.transpose(l.a, list(lb) + lo + list(lc)).reshape(
      [int(np.prod(bs, dtype=int)), int(np.prod([l.shape[d] for d in lo], dtype=int)), -1]
      if l.size else (int(np.prod(bs, dtype=int)), int(np.prod([l.shape[d] for d in lo], dtype=int)), int(np.prod([l.shape[d] for d in lc], dtype=int))))
  ra = np.transpose(r.a, list(rb) + ro + list(rc)).reshape(
      [int(np.prod(bs, dtype=int)), int(np.prod([r.shape[d] for d in ro], dtype=int)), la.shape[2]])
  zero = Fraction(0) if kind(_out_dtype(eqn)) == "f" else 0
  out = np.empty((la.shape[0], la.shape[1], ra.shape[1]), dtype=object)
  for b, i, j in np.ndindex(*out.shape):
    acc = zero
    for k in range(la.shape[2]):
      acc = T.add(acc, T.mul(la[b, i, k], ra[b, j, k]))
    out[b, i, j] = acc
  return [SA(out.reshape(eqn.outvars[0].aval.shape), _out_dtype(eqn))]


@rule("conv_general_dilated")
def _conv(interp, eqn, l, r):
  p = eqn.params
  dn = p["dimension_numbers"]
  la = np.transpose(l.a, dn.lhs_spec)   # N C spatial
  ra = np.transpose(r.a, dn.rhs_spec)   # O I spatial
  nd = la.ndim - 2
  ld, rd = p["lhs_dilation"] or (1,) * nd, p["rhs_dilation"] or (1,) * nd
  fg, bg = p["feature_group_count"], p["batch_group_count"]
  zero = Fraction(0)
  la = np_pad(la, zero, [(0, 0, 0), (0, 0, 0)] + [
      (lo, hi, d - 1) for (lo, hi), d in zip(p["padding"], ld)])
  outshape = tuple(eqn.outvars[0].aval.shape[d] for d in dn.out_spec)
  out = np.empty(outshape, dtype=object)
  O, Ig = ra.shape[0], ra.shape[1]
  opg = O // fg
  N = la.shape[0]
  ws = p["window_strides"]
  for o in np.ndindex(*outshape):
    n, c = o[0], o[1]
    acc = zero
    if bg > 1:
      g = c // (O // bg)
      nn, ci0 = g * (N // bg) + n, 0
    else:
      nn, ci0 = n, (c // opg) * Ig
    for i in range(Ig):
      for w in np.ndindex(*ra.shape[2:]):
        idx = tuple(x * s + k * d for x, s, k, d in zip(o[2:], ws, w, rd))
        acc = T.add(acc, T.mul(la[(nn, ci0 + i) + idx], ra[(c, i) + w]))
    out[o] = acc
  inv = np.argsort(dn.out_spec)
  return [SA(np.transpose(out, inv), _out_dtype(eqn))]


QR_CACHE = {}


@rule("qr")
def _qr(interp, eqn, x):
  """Q, R as fresh unknowns with the axioms Q'Q = I, diag(R) != 0 (full rank)."""
  m, n = x.shape
  if eqn.params.get("full_matrices") or m < n:
    raise Unsupported("full or wide qr")
  key = tuple(str(z3.simplify(T.to_real(v)).get_id()) if not T.is_c(v) else str(v) for v in x.a.flat) + x.shape
  if key not in QR_CACHE:
    q, r = np.empty((m, n), dtype=object), full((n, n), Fraction(0))
    for i in np.ndindex(m, n):
      q[i] = z3.FreshReal("q")
    for i in range(n):
      for j in range(i, n):
        r[i, j] = z3.FreshReal("r")
    ax = [z3.Sum(*[q[k, i] * q[k, j] for k in range(m)]) == (1 if i == j else 0) for i in range(n) for j in range(i, n)]
    ax += [r[i, i] != 0 for i in range(n)]
    QR_CACHE[key] = (q, r, ax, list(x.a.flat))
  q, r, ax, _ = QR_CACHE[key]
  interp.axioms.extend(ax)
  return [SA(q, x.dtype), SA(r, x.dtype)]


@rule("psum", "pmax", "pmin")
def _psum(interp, eqn, *xs):
  """Collectives over positional (vmapped) axes."""
  axes = eqn.params["axes"]
  if any(not isinstance(a, int) for a in axes) or eqn.params.get("axis_index_groups"):
    raise Unsupported("collective over a named axis")
  f = {"psum": T.add, "pmax": T.max_, "pmin": T.min_}[eqn.primitive.name]
  outs = []
  for x in xs:
    a = x.a
    for ax in sorted(axes, reverse=True):
      parts = [np.take(a, i, ax) for i in range(a.shape[ax])]
      a = functools.reduce(lambda u, v: ew(f, u, v), parts)
      if not isinstance(a, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = a
        a = b
    outs.append(SA(a, x.dtype))
  return outs


# ------------------------------------------------------------------------- rng
@rule("random_wrap")
def _wrap(interp, eqn, x):
  out = np.empty(x.shape[:-1], dtype=object)
  for i in np.ndindex(*out.shape):
    out[i] = T.key_of(x.a[i + (0,)], x.a[i + (1,)])
  return [SA(out, "key")]


@rule("random_unwrap")
def _unwrap(interp, eqn, x):
  out = np.empty(x.shape + (2,), dtype=object)
  for i in np.ndindex(*x.shape):
    k = z3.simplify(x.a[i])
    out[i + (0,)], out[i + (1,)] = word(k, 0), word(k, 1)
  return [SA(out, np.dtype(np.uint32))]


def word(k, j):
  if z3.is_app_of(k, z3.Z3_OP_ITE):
    return T.ite(k.arg(0), word(k.arg(1), j), word(k.arg(2), j))
  if z3.is_app(k) and k.decl().eq(T.Key.Raw):
    return T.from_z3(k.arg(j))
  return (T.W0 if j == 0 else T.W1)(k)


@rule("random_split")
def _split(interp, eqn, x):
  shape = eqn.params.get("shape")
  if shape is None:
    shape = (eqn.params["count"],)
  n = int(np.prod(shape))
  out = np.empty(x.shape + tuple(shape), dtype=object)
  for i in np.ndindex(*x.shape):
    for j, s in enumerate(np.ndindex(*shape)):
      out[i + s] = T.Key.Split(x.a[i], n, j)
  return [SA(out, "key")]


@rule("random_seed")
def _seed(interp, eqn, x):
  return [SA(ew(lambda v: T.Key.Seed(T.to_int(v)), x.a), "key")]


@rule("random_fold_in")
def _fold(interp, eqn, k, d):
  return [SA(ew(lambda a, v: T.Key.Fold(a, T.to_int(v)), k.a, d.a), "key")]


@rule("random_bits")
def _bits(interp, eqn, k):
  shape, bw = eqn.params["shape"], eqn.params["bit_width"]
  n = int(np.prod(shape, dtype=int))
  out = np.empty(k.shape + tuple(shape), dtype=object)
  for i in np.ndindex(*k.shape):
    for j, s in enumerate(np.ndindex(*shape)):
      out[i + s] = T.BITS(k.a[i], bw, n, j)
  return [SA(out, np.dtype(np.uint32))]


def _uniform(interp, eqn, key, lo, hi):
  shape = eqn.outvars[0].aval.shape
  n = int(np.prod(shape, dtype=int))
  k = key.a
  if key.dtype != "key":
    k = _wrap(interp, None, key)[0].a
  if k.shape != ():
    raise Unsupported("batched uniform")
  out = np.empty(shape, dtype=object)
  l, h = np.broadcast_to(lo.a, shape), np.broadcast_to(hi.a, shape)
  kk = z3.simplify(k[()])
  for j, i in enumerate(np.ndindex(*shape)):
    u = T.UNIF(kk, n, j)
    out[i] = T.add(T.mul(T.sub(h[i], l[i]), u), l[i])
  return [SA(out, _out_dtype(eqn))]


# ---------------------------------------------------------------- control flow
def _inline(jaxpr, consts, interp, xs):
  return interpret(jaxpr, consts, xs, interp)


@rule("pjit", "closed_call", "core_call", "xla_call", "remat", "checkpoint",
      "remat2", "named_call", "custom_jvp_call", "custom_vjp_call",
      "custom_vjp_call_jaxpr", "custom_lin", "core_closed_call", "jit")
def _call(interp, eqn, *xs):
  p = eqn.params
  if p.get("name") == "_uniform" and len(xs) == 3 and kind(_out_dtype(eqn)) == "f":
    try:
      return _uniform(interp, eqn, *xs)
    except Unsupported:
      pass
  j = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
  if hasattr(j, "consts"):
    return _inline(j.jaxpr, [lift_const(c) for c in j.consts], interp, xs)
  return _inline(j, [], interp, xs)


@rule("custom_jvp_call_jaxpr")
def _cjj(interp, eqn, *xs):
  j = eqn.params["fun_jaxpr"]
  return _inline(j.jaxpr, [lift_const(c) for c in j.consts], interp, xs)


def merge(c, xs, ys):
  """ite over lists of SA."""
  if T.is_c(c):
    return xs if c else ys
  out = []
  for x, y in zip(xs, ys):
    f = lambda a, b: T.ite(c, a, b) if x.dtype != "key" else (a if a.eq(b) else z3.If(c, a, b))
    out.append(SA(ew(f, x.a, y.a), x.dtype))
  return out


@rule("cond")
def _cond(interp, eqn, idx, *ops):
  bs = eqn.params["branches"]
  i = idx.a[()]
  if kind(idx.dtype) == "b" and T.is_c(i):
    i = int(i)
  run = lambda b: _inline(b.jaxpr, [lift_const(c) for c in b.consts], interp, ops)
  if T.is_c(i):
    return run(bs[min(max(int(i), 0), len(bs) - 1)])
  outs = [run(b) for b in bs]
  res = outs[-1]
  for j in reversed(range(len(bs) - 1)):
    c = T.not_(i) if kind(idx.dtype) == "b" else (T.le(i, 0) if j == 0 else T.eq(i, j))
    res = merge(c, outs[j], res)
  return res


@rule("scan")
def _scan(interp, eqn, *xs):
  p = eqn.params
  nc, nk, length = p["num_consts"], p["num_carry"], p["length"]
  jx = p["jaxpr"]
  consts, carry, seqs = list(xs[:nc]), list(xs[nc:nc + nk]), xs[nc + nk:]
  jc = [lift_const(c) for c in jx.consts]
  ny = len(jx.jaxpr.outvars) - nk
  ys = [[None] * length for _ in range(ny)]
  order = range(length)
  if p["reverse"]:
    order = reversed(order)
  for t in order:
    sl = [SA(s.a[t], s.dtype) for s in seqs]
    out = _inline(jx.jaxpr, jc, interp, consts + carry + sl)
    carry = list(out[:nk])
    for k, y in enumerate(out[nk:]):
      ys[k][t] = y.a
  stacked = []
  for k in range(ny):
    aval = eqn.outvars[nk + k].aval
    if length:
      st = np.empty(aval.shape, dtype=object)
      for t in range(length):
        st[t] = ys[k][t] if aval.ndim > 1 else ys[k][t][()]
      stacked.append(SA(st, _out_dtype(eqn, nk + k)))
    else:
      stacked.append(SA(np.empty(aval.shape, dtype=object), _out_dtype(eqn, nk + k)))
  return carry + stacked


@rule("while")
def _while(interp, eqn, *xs):
  p = eqn.params
  cn, bn = p["cond_nconsts"], p["body_nconsts"]
  cc, bc, carry = list(xs[:cn]), list(xs[cn:cn + bn]), list(xs[cn + bn:])
  cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
  cond = lambda s: _inline(cj.jaxpr, [lift_const(c) for c in cj.consts], interp, cc + s)[0].a[()]
  body = lambda s: _inline(bj.jaxpr, [lift_const(c) for c in bj.consts], interp, bc + s)
  stack = []
  for n in range(10000):
    c = T.norm(cond(carry))
    if T.is_c(c):
      if not c:
        break
      carry = body(carry)
      continue
    if len(stack) >= WHILE_BOUND:
      # unwinding assertion: must be unreachable
      interp.unwinding.append(z3.And(*[s[0] for s in stack], c))
      break
    # prune by the solver when the context can decide the condition
    known = interp.decide(c, [s[0] for s in stack])
    if known is False:
      break
    if known is True:
      carry = body(carry)
      continue
    stack.append((c, carry))
    carry = body(carry)
  for c, before in reversed(stack):
    carry = merge(c, carry, before)
  return carry


class Interp:
  def __init__(self, decide=None):
    self.unwinding, self.axioms = [], []
    self.decide = decide or (lambda c, extra: None)


def _try_bind(eqn, xs):
  vals = []
  for x, v in zip(xs, eqn.invars):
    vals.append(jnp.asarray(to_numpy(x).astype(v.aval.dtype)))
  out = eqn.primitive.bind(*vals, **eqn.params)
  if not eqn.primitive.multiple_results:
    out = [out]
  return [lift_const(o) for o in out]


def interpret(jaxpr, consts, args, interp):
  env = {}

  def read(v):
    if isinstance(v, jcore.Literal):
      return lift_const(np.asarray(v.val), v.aval.dtype)
    return env[v]

  for v, c in zip(jaxpr.constvars, consts):
    env[v] = c
  for v, a in zip(jaxpr.invars, args):
    env[v] = a
  for eqn in jaxpr.eqns:
    STATS["eqns"] += 1
    xs = [read(v) for v in eqn.invars]
    r = RULES.get(eqn.primitive.name)
    if r is None:
      if all(x.dtype != "key" and all_const(x) for x in xs):
        outs = _try_bind(eqn, xs)
      else:
        raise Unsupported(f"primitive {eqn.primitive.name}")
    else:
      outs = r(interp, eqn, *xs)
    for v, o in zip(eqn.outvars, outs):
      if not isinstance(v, jcore.DropVar):
        if tuple(o.shape) != tuple(v.aval.shape):
          raise Unsupported(f"engine shape error in {eqn.primitive.name}: {o.shape} {v.aval.shape}")
        env[v] = o
  return [read(v) for v in jaxpr.outvars]


def trace(f, *args, **kwargs):
  """Traces f (the real code); returns (closed_jaxpr, out_tree, flat SA inputs)."""
  leaves, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=lambda x: isinstance(x, SA))
  sym_pos = [i for i, l in enumerate(leaves) if isinstance(l, SA)]
  def g(*sym):
    ls = list(leaves)
    for i, s in zip(sym_pos, sym):
      ls[i] = s
    a, k = jax.tree_util.tree_unflatten(tree, ls)
    return f(*a, **k)
  specs = [jax.ShapeDtypeStruct(leaves[i].shape, leaves[i].dtype) for i in sym_pos]
  jx, out_shape = jax.make_jaxpr(g, return_shape=True)(*specs)
  return jx, jax.tree_util.tree_structure(out_shape), [leaves[i] for i in sym_pos]


def run(f, args, kwargs=None, interp=None):
  jx, tree, ins = trace(f, *args, **(kwargs or {}))
  outs = interpret(jx.jaxpr, [lift_const(c) for c in jx.consts], ins, interp or Interp())
  return jx, jax.tree_util.tree_unflatten(tree, outs), ins
