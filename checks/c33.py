"""C33: derivatives.

The harnesses of the other properties state that a layer or transform computes a
reference function.  Here the same equations are decided between the derivatives
of the two sides (vlib/tape.py): for every point, every direction (forward mode)
or every cotangent (reverse mode), with respect to all parameters, states and
inputs at once.
"""
from checks.common import *
from vlib import reg
from vlib.tape import Tape


# too big for the solver within the budget
SKIP = {"C21.unroll": lambda c: c["core"] in ("lstm", "gru") and c["n"] > 2, "C21.conv_lstm": lambda c: c["nd"] > 1 and c["k"] > 1}


def pick(prop, name, n=None):
  """n configurations spread evenly over those of the other harness."""
  reg.load(prop)
  skip = SKIP.get(f"{prop}.{name}", lambda c: False)
  use = [i for i, c in enumerate(reg.REGISTRY[prop][name].configs) if not skip(c)]
  n = len(use) if n is None else min(n, len(use))
  return [dict(of=f"{prop}.{name}", cfg=use[i * len(use) // n]) for i in range(n)]


def these(spec):
  quick, thorough = [], []
  for of, n in spec.items():
    prop, name = of.split(".")
    q = pick(prop, name, n)
    quick += q
    thorough += [c for c in pick(prop, name) if c not in q]
  return dict(configs=quick, thorough=thorough)


def derive(ctx, of, cfg, **kw):
  prop, name = of.split(".")
  h = reg.REGISTRY[prop][name]
  t = Tape(ctx, **kw)
  h.fn(t, **list(h.configs)[cfg])
  ctx.check("done", True)


@harness("C33", **these({"C13.conv1d": 12, "C13.conv1d_channels": 6, "C13.conv2d": 8, "C13.conv3d": 3, "C13.depthwise": 6, "C13.separable": 4,
                         "C14.convt1d": None, "C14.convt1d_output_shape": None, "C14.convt_channels": 6}), validate=False, budget=120,
         bounds="convolutions, depthwise, separable and transposed convolutions as in C13 and C14; forward mode")
def convolutions(ctx, of, cfg):
  derive(ctx, of, cfg, lean=of in ("C13.conv2d", "C13.conv3d", "C13.conv1d_channels", "C13.depthwise", "C14.convt_channels"))


@harness("C33", **these({"C15.pool1d": None, "C15.pool_channel_axis": 8}), validate=False, budget=120,
         bounds="average and maximum pooling as in C15, no two inputs equal; forward mode")
def pooling(ctx, of, cfg):
  derive(ctx, of, cfg, generic=True)


@harness("C33", **these({"C17.linear": None, "C17.bias": 24, "C17.mlp": 16, "C17.mlp_reverse": None, "C17.sequential": None, "C17.embed": 16, "C17.dropout": None,
                         "C16.batch_apply": None, "C16.expand_apply": None}), validate=False, budget=120,
         bounds="Linear, Bias, MLP, Sequential, Embed, dropout, BatchApply and expand_apply as in C16 and C17; forward mode")
def basic(ctx, of, cfg):
  derive(ctx, of, cfg)


@harness("C33", **these({"C18.step": 48, "C18.cross_replica": None, "C18.history": 2, "C19.layer_norm": 26, "C19.instance_norm": None, "C19.group_norm": 24, "C20.history": 12, "C20.step": None,
                         "C20.params_tree": 8}), validate=False, budget=150,
         bounds="batch (also through the batch statistics, the moving averages and the other replicas), layer, instance and group normalisation, and moving averages as in C18 to C20; forward mode")
def normalisation(ctx, of, cfg):
  derive(ctx, of, cfg, lean=True)


@harness("C33", **these({"C21.core_step": 24, "C21.conv_lstm": None, "C21.unroll": 16, "C21.unroll_nested": None, "C21.reset_core": None, "C21.reset_unroll": None, "C21.deep_rnn": 10,
                         "C22.attention": 24, "C22.masked": 10}),
         validate=False, budget=150, bounds="recurrent cores, unrolls, resets, deep cores and attention as in C21 and C22; forward mode")
def recurrent_and_attention(ctx, of, cfg):
  derive(ctx, of, cfg, lean=of.startswith("C22"))


@harness("C33", **these({"C06.together": None, "C07.scan": 10, "C07.fori": 8, "C07.while_loop": 8, "C07.nested": 6, "C08.cond": 16, "C08.switch": None, "C08.nested": None, "C08.created_inside": None,
                         "C09.same_as_direct": 24, "C10.single": 12, "C10.side_by_side": 4, "C10.uses": None, "C29.to_module": None}), validate=False, budget=150,
         bounds="hooks, scan, fori_loop, while_loop, cond, switch, jit, remat, vmap, grad, lifting and to_module as in C06 to C10 and C29; forward mode")
def transforms(ctx, of, cfg):
  derive(ctx, of, cfg)


@harness("C33", **these({"C07.scan": None, "C08.cond": 18, "C08.switch": 8, "C09.same_as_direct": None, "C10.single": 10, "C17.linear": 4, "C17.mlp": 8, "C17.embed": 12, "C18.step": 20, "C19.layer_norm": 10,
                         "C19.instance_norm": 6, "C19.group_norm": 10, "C21.core_step": 10, "C21.unroll": None, "C21.unroll_nested": None, "C21.deep_rnn": 4, "C22.attention": 12, "C22.masked": 6,
                         "C13.conv1d": 6, "C14.convt1d": 3, "C15.pool1d": None, "C20.history": 6}), validate=False, budget=150,
         bounds="reverse mode: any cotangent of the outputs, for layers, unrolls, scan, cond, switch, remat and lifting")
def reverse_mode(ctx, of, cfg):
  derive(ctx, of, cfg, reverse=True, lean=True, generic=of == "C15.pool1d")
