"""Shared imports and helpers for harness files."""
import functools
import itertools
import types
from typing import NamedTuple

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from vlib.reg import harness
from vlib.symjax import SA
from vlib import terms as T

KEY0 = np.array([0, 42], dtype=np.uint32)


def sds(x):
  """Shape/dtype structs of a tree of (symbolic) arrays."""
  def f(v):
    if isinstance(v, SA) or hasattr(v, "shape"):
      return jax.ShapeDtypeStruct(v.shape, v.dtype)
    return v
  return jax.tree_util.tree_map(f, x, is_leaf=lambda v: isinstance(v, SA))


def init_shapes(f, *args, **kwargs):
  """Real init under abstract evaluation: tree of ShapeDtypeStruct."""
  return jax.eval_shape(lambda *a: f.init(*a, **kwargs), jax.ShapeDtypeStruct((2,), np.uint32),
                        *sds(args))


def shape_spec(tree):
  """Plain nested dict of shapes."""
  from vlib.core import plain
  tree = plain(tree)
  if isinstance(tree, dict):
    return {k: shape_spec(v) for k, v in tree.items()}
  if isinstance(tree, (tuple, list)):
    return tuple(shape_spec(v) for v in tree)
  return tuple(tree.shape)


def check_shapes(ctx, label, got, want):
  got = shape_spec(got)
  ctx.check(f"{label}: {got} vs {want}"[:300], got == want)


def product(**kw):
  keys = list(kw)
  return [dict(zip(keys, v)) for v in itertools.product(*kw.values())]
