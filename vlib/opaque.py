"""Array-level encoding: every JAX primitive is an uninterpreted function.

Used for whole networks, where element-wise terms would be too large: arrays
are constants of an uninterpreted sort, each primitive application a function
symbol named after the primitive and its parameters.  Equality of two programs
is then decided by z3's theory of equality with uninterpreted functions; it
holds for all inputs (and any meaning of the primitives).
"""
import hashlib

import jax
import jax.numpy as jnp
import numpy as np
import z3

ARR = z3.DeclareSort("Arr")
_FN = {}
_INLINE = {"pjit", "closed_call", "core_call", "xla_call", "remat", "checkpoint", "named_call",
           "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_jvp_call_jaxpr",
           "core_closed_call", "jit", "remat2"}
_IDENT = {"copy", "copy_p", "stop_gradient", "device_put"}
_COMM = {"add", "mul", "max", "min", "and", "or", "eq", "ne", "add_any"}
STATS = {"eqns": 0}


class OA:
  """Opaque array: a term with shape and dtype."""
  __slots__ = ("t", "shape", "dtype")

  def __init__(self, t, shape, dtype):
    self.t, self.shape, self.dtype = t, tuple(shape), np.dtype(dtype)

  def __repr__(self):
    return f"OA{self.shape}"


def fn(name, n):
  if (name, n) not in _FN:
    _FN[name, n] = z3.Function(name, *([ARR] * n), ARR) if n else z3.Const(name, ARR)
  return _FN[name, n]


def const(v):
  v = np.asarray(v)
  h = hashlib.sha1(v.tobytes()).hexdigest()[:12] if v.size > 1 else repr(v.reshape(-1).tolist())
  return fn(f"const:{v.dtype}:{v.shape}:{h}", 0)


def _param(v):
  if isinstance(v, jax.core.ClosedJaxpr) or isinstance(v, jax.core.Jaxpr):
    return str(v)
  if isinstance(v, (tuple, list)):
    return "(" + ",".join(_param(x) for x in v) + ")"
  return repr(v)


def interpret(jaxpr, consts, args):
  env = {}
  def read(v):
    return const(v.val) if isinstance(v, jax.core.Literal) else env[v]
  for v, c in zip(jaxpr.constvars, consts):
    env[v] = c
  for v, a in zip(jaxpr.invars, args):
    env[v] = a
  for e in jaxpr.eqns:
    STATS["eqns"] += 1
    n = e.primitive.name
    xs = [read(v) for v in e.invars]
    if n in _INLINE:
      j = e.params.get("jaxpr") or e.params.get("call_jaxpr") or e.params.get("fun_jaxpr")
      if hasattr(j, "consts"):
        out = interpret(j.jaxpr, [const(c) for c in j.consts], xs)
      else:
        out = interpret(j, [], xs)
    elif n in _IDENT:
      out = xs
    elif n == "convert_element_type" and e.invars[0].aval.dtype == e.outvars[0].aval.dtype:
      out = xs
    else:
      if n in _COMM and len(xs) == 2 and xs[0].get_id() > xs[1].get_id():
        xs = xs[::-1]
      name = n + "{" + ";".join(f"{k}={_param(v)}" for k, v in sorted(e.params.items())) + "}" + \
          "->" + ",".join(str(v.aval.str_short()) for v in e.outvars)
      out = [fn(f"{name}#{i}", len(xs))(*xs) if xs else fn(f"{name}#{i}", 0) for i in range(len(e.outvars))]
    for v, o in zip(e.outvars, out):
      env[v] = o
  return [read(v) for v in jaxpr.outvars]


def run(f, args):
  leaf = lambda x: isinstance(x, OA)
  flat, td = jax.tree_util.tree_flatten(args, is_leaf=leaf)
  idx = [i for i, x in enumerate(flat) if isinstance(x, OA)]
  def g(*a):
    full = list(flat)
    for i, v in zip(idx, a):
      full[i] = v
    return f(*jax.tree_util.tree_unflatten(td, full))
  jx, shape = jax.make_jaxpr(g, return_shape=True)(*[jax.ShapeDtypeStruct(flat[i].shape, flat[i].dtype) for i in idx])
  out = interpret(jx.jaxpr, [const(c) for c in jx.consts], [flat[i].t for i in idx])
  of, otd = jax.tree_util.tree_flatten(shape)
  return jax.tree_util.tree_unflatten(otd, [OA(t, s.shape, s.dtype) for t, s in zip(out, of)])
