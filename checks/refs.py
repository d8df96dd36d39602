"""Textbook reference models used as oracles (independent of lax convolutions)."""
import itertools
import jax.numpy as jnp


def same_pad(n, keff, s):
  out = -(-n // s)
  tot = max((out - 1) * s + keff - n, 0)
  return tot // 2, tot - tot // 2


def to_last(x, nd, fmt_last):
  """batched layout -> N spatial C."""
  return x if fmt_last else jnp.moveaxis(x, 1, -1)


def from_last(x, fmt_last):
  return x if fmt_last else jnp.moveaxis(x, -1, 1)


def ref_conv(x, w, stride, rate, pads, groups):
  """x: N spatial C; w: kernel + (C/groups, O); returns N spatial O."""
  nd = x.ndim - 2
  ks = w.shape[:nd]
  x = jnp.pad(x, [(0, 0)] + list(pads) + [(0, 0)])
  outs = [(x.shape[1 + d] - ((ks[d] - 1) * rate[d] + 1)) // stride[d] + 1 for d in range(nd)]
  outs = [max(o, 0) for o in outs]
  o_total = w.shape[-1]
  og, ig = o_total // groups, w.shape[-2]
  res = []
  for g in range(groups):
    acc = jnp.zeros((x.shape[0],) + tuple(outs) + (og,), x.dtype)
    for off in itertools.product(*[range(k) for k in ks]):
      sl = tuple(slice(off[d] * rate[d], off[d] * rate[d] + max((outs[d] - 1) * stride[d] + 1, 0), stride[d])
                 for d in range(nd))
      xs = x[(slice(None),) + sl + (slice(g * ig, (g + 1) * ig),)]
      for i in range(ig):
        acc = acc + xs[..., i:i + 1] * w[off + (i, slice(g * og, (g + 1) * og))]
    res.append(acc)
  return jnp.concatenate(res, -1)


def ref_conv_transpose(x, w, stride, out_sizes, before):
  """Adjoint: out[t] = sum over i*s + j - before == t of x[i] v[j], v the flipped kernel.

  x: N spatial C; w: kernel + (O, C).
  """
  nd = x.ndim - 2
  ks = w.shape[:nd]
  v = w[tuple(slice(None, None, -1) for _ in range(nd))]
  cols = {}
  for i in itertools.product(*[range(n) for n in x.shape[1:1 + nd]]):
    for j in itertools.product(*[range(k) for k in ks]):
      t = tuple(a * s + b - p for a, s, b, p in zip(i, stride, j, before))
      if all(0 <= a < o for a, o in zip(t, out_sizes)):
        xi = x[(slice(None),) + i]          # N C
        vj = v[j]                           # O C
        term = sum(xi[:, c:c + 1] * vj[None, :, c] for c in range(x.shape[-1]))
        cols[t] = cols[t] + term if t in cols else term
  zero = jnp.zeros((x.shape[0], w.shape[nd]), x.dtype)
  flat = [cols.get(t, zero) for t in itertools.product(*[range(o) for o in out_sizes])]
  out = jnp.stack(flat, 1) if flat else jnp.zeros((x.shape[0], 0, w.shape[nd]), x.dtype)
  return out.reshape((x.shape[0],) + tuple(out_sizes) + (w.shape[nd],))
