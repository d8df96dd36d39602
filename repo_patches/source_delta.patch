From 43258ff12071060b7cb583de372ee85092c5a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:49 +0000
Subject: [PATCH 01/27] fix: use collections.abc for ABCs removed from
 collections in Python 3.10

---
 haiku/_src/group_norm.py | 4 ++--
 haiku/_src/layer_norm.py | 4 ++--
 haiku/_src/stateful.py   | 3 ++-
 haiku/_src/utils.py      | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..213707a 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Group normalization implementation for Haiku."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..8df833f 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Layer Norm."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..bd76b0b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -15,6 +15,7 @@
 """Wrappers for JAX transformations that respect Haiku internal state."""
 
 import collections
+import collections.abc
 import functools
 import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
@@ -45,7 +46,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..0bfbcb7 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Misc utility functions."""
 
-import collections
+import collections.abc
 import decimal
 import inspect
 import pprint
@@ -119,7 +119,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From 7c63c5d6813ef157933cf62993204f661a79a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 02/27] fix: fall back to jax.tree_map where jax.tree_multimap
 no longer exists

---
 haiku/_src/recurrent.py | 15 +++++++++------
 haiku/_src/stateful.py  | 13 ++++++++-----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 306c518..a1fe549 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -28,6 +28,9 @@ import jax
 import jax.nn
 import jax.numpy as jnp
 
+# `jax.tree_multimap` was merged into `jax.tree_map` and removed in newer JAX.
+tree_multimap = getattr(jax, "tree_multimap", jax.tree_map)
+
 # If you are forking replace this with `import haiku as hk`.
 hk = types.ModuleType("haiku")
 hk.initializers = initializers
@@ -129,7 +132,7 @@ def static_unroll(core, input_sequence, initial_state, time_major=True):
     output_sequence.append(outputs)
 
   # Stack outputs along the time axis.
-  output_sequence = jax.tree_multimap(
+  output_sequence = tree_multimap(
       lambda *args: jnp.stack(args, axis=time_axis),
       *output_sequence)
   return output_sequence, state
@@ -670,14 +673,14 @@ class ResetCore(RNNCore):
     # >> batch_entry 1:
     # >>  [[0. 0.]
     # >>  [0. 0.]]
-    should_reset = jax.tree_multimap(_validate_and_conform, should_reset, state)
+    should_reset = tree_multimap(_validate_and_conform, should_reset, state)
     if self._is_batched(state):
       batch_size = jax.tree_leaves(inputs)[0].shape[0]
     else:
       batch_size = None
-    initial_state = jax.tree_multimap(
+    initial_state = tree_multimap(
         lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))
-    state = jax.tree_multimap(jnp.where, should_reset, initial_state, state)
+    state = tree_multimap(jnp.where, should_reset, initial_state, state)
     return self.core(inputs, state)
 
   def initial_state(self, batch_size: Optional[int]):
@@ -718,7 +721,7 @@ class _DeepRNN(RNNCore):
     concat = lambda *args: jnp.concatenate(args, axis=-1)
     for idx, layer in enumerate(self.layers):
       if self.skip_connections and idx > 0:
-        current_inputs = jax.tree_multimap(concat, inputs, current_inputs)
+        current_inputs = tree_multimap(concat, inputs, current_inputs)
 
       if isinstance(layer, RNNCore):
         current_inputs, next_state = layer(current_inputs, state[state_idx])
@@ -729,7 +732,7 @@ class _DeepRNN(RNNCore):
         current_inputs = layer(current_inputs)
 
     if self.skip_connections:
-      out = jax.tree_multimap(concat, *outputs)
+      out = tree_multimap(concat, *outputs)
     else:
       out = current_inputs
 
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index bd76b0b..05dccab 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -24,6 +24,9 @@ from haiku._src import base
 import jax
 import jax.numpy as jnp
 
+# `jax.tree_multimap` was merged into `jax.tree_map` and removed in newer JAX.
+tree_multimap = getattr(jax, "tree_multimap", jax.tree_map)
+
 InternalState = collections.namedtuple("InternalState", "params,state,rng")
 Bundle = Mapping[str, Mapping[str, Any]]
 T = TypeVar("T")
@@ -309,16 +312,16 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
   is_new_param = lambda a, b: a is not b
   params_before, params_after = box_and_fill_missing(before.params,
                                                      after.params)
-  params_after = jax.tree_multimap(functools.partial(if_changed, is_new_param),
-                                   params_before, params_after)
+  params_after = tree_multimap(functools.partial(if_changed, is_new_param),
+                               params_before, params_after)
 
   # state
   def is_new_state(a: base.StatePair, b: base.StatePair):
     return a.initial is not b.initial or a.current is not b.current
 
   state_before, state_after = box_and_fill_missing(before.state, after.state)
-  state_after = jax.tree_multimap(functools.partial(if_changed, is_new_state),
-                                  state_before, state_after)
+  state_after = tree_multimap(functools.partial(if_changed, is_new_state),
+                              state_before, state_after)
 
   # rng
   def is_new_rng(a: Optional[base.PRNGSequenceState],
@@ -506,7 +509,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 573288c80feca8f8fdc8a67b5862230d6c73e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:02 +0000
Subject: [PATCH 03/27] fix: accept documented (low, high) integer pairs as
 ConvND padding

---
 haiku/_src/pad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/pad.py b/haiku/_src/pad.py
index dd99f2a..e118012 100644
--- a/haiku/_src/pad.py
+++ b/haiku/_src/pad.py
@@ -83,7 +83,7 @@ def create(
       lambda kernel, rate: (kernel - 1) * rate + 1,
       utils.replicate(kernel, n, "kernel"), utils.replicate(rate, n, "rate"))
   paddings = map(  # pylint: disable=deprecated-lambda
-      lambda x, y: x(y), utils.replicate(padding, n, "padding"),
-      effective_kernel_size)
+      lambda x, y: x(y) if callable(x) else tuple(x),
+      utils.replicate(padding, n, "padding"), effective_kernel_size)
 
   return tuple(paddings)
-- 
2.43.0


From 1a7b17d0043fd08ed72263be77a47710aa9e93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 04/27] fix: resolve negative GroupNorm axes against the
 ungrouped input

---
 haiku/_src/group_norm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 213707a..b953dbd 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -221,6 +221,9 @@ class GroupNorm(hk.Module):
       axes = tuple(range(self.rank))
       self.axis = axes[self.axis]
 
+    # Negative axes refer to the input, not to the (rank + 1) grouped input.
+    self.axis = tuple(a + self.rank if a < 0 else a for a in self.axis)
+
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
       self.group_shape = (
-- 
2.43.0


From c120838d55d88b046e998ea9e08e20de7488da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 05/27] fix: GroupNorm uses the shape of the current input, not
 of the first one

---
 haiku/_src/group_norm.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index b953dbd..f5b8869 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -181,7 +181,15 @@ class GroupNorm(hk.Module):
           f"was channels={channels}, groups={self.groups}")
 
     if self.rank is None:
-      self._initialize(x, channels)
+      self._initialize(x)
+
+    if self.channel_index == -1:
+      group_shape = (
+          (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
+    else:
+      assert self.channel_index == 1
+      group_shape = (-1, self.groups, channels // self.groups) + x.shape[2:]
+    input_shape = (-1,) + x.shape[1:]
 
     dtype = x.dtype
     if self.channel_index == -1:
@@ -196,11 +204,11 @@ class GroupNorm(hk.Module):
     if self.create_offset:
       offset = hk.get_parameter("offset", params_shape, dtype, self.offset_init)
 
-    x = x.reshape(self.group_shape)
+    x = x.reshape(group_shape)
     mean = jnp.mean(x, self.axis, keepdims=True)
     var = jnp.var(x, self.axis, keepdims=True)
     x = (x - mean) * jax.lax.rsqrt(var + self.eps)
-    x = x.reshape(self.first_input_shape)
+    x = x.reshape(input_shape)
 
     if scale is not None:
       scale = jax.lax.broadcast_to_rank(scale, x.ndim)
@@ -212,7 +220,7 @@ class GroupNorm(hk.Module):
 
     return x
 
-  def _initialize(self, x: jnp.ndarray, channels: int):
+  def _initialize(self, x: jnp.ndarray):
     assert self.rank is None
     self.rank = x.ndim
 
@@ -226,12 +234,6 @@ class GroupNorm(hk.Module):
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
     else:
       assert self.channel_index == 1
       self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1, self.groups, channels // self.groups) + x.shape[2:])
-
-    self.first_input_shape = (-1,) + x.shape[1:]
-- 
2.43.0


From 0bae934cd9330fbc89414412f1caf36fcb8ec753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:59 +0000
Subject: [PATCH 06/27] fix: InstanceNorm scale and offset follow the channel
 axis for channels_first

---
 haiku/_src/layer_norm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 8df833f..0c73b36 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -81,6 +81,7 @@ class LayerNorm(hk.Module):
     else:
       raise ValueError("`axis` should be an int, slice or iterable of ints.")
 
+    self.channel_index = -1
     self.eps = eps
     self.create_scale = create_scale
     self.create_offset = create_offset
@@ -123,7 +124,10 @@ class LayerNorm(hk.Module):
     mean = jnp.mean(inputs, axis=axis, keepdims=True)
     variance = jnp.var(inputs, axis=axis, keepdims=True)
 
-    param_shape = inputs.shape[-1:]
+    if self.channel_index == 1:
+      param_shape = inputs.shape[1:2] + (1,) * (inputs.ndim - 2)
+    else:  # channel_index = -1
+      param_shape = inputs.shape[-1:]
     if self.create_scale:
       scale = hk.get_parameter("scale", param_shape, inputs.dtype,
                                init=self.scale_init)
@@ -192,3 +196,4 @@ class InstanceNorm(LayerNorm):
         scale_init=scale_init,
         offset_init=offset_init,
         name=name)
+    self.channel_index = utils.get_channel_index(data_format)
-- 
2.43.0


From a6009c153c1a6fb146905920f3f281111d658cdf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:06:12 +0000
Subject: [PATCH 07/27] fix: continue the whole rest of the hook chain each
 time a creator, getter or interceptor calls next

---
 haiku/_src/base.py   | 19 +++++++++++--------
 haiku/_src/module.py | 23 +++++++++++++----------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..39fa9b2 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -16,6 +16,7 @@
 
 import collections
 import contextlib
+import functools
 from typing import (Callable, Iterator, Iterable, MutableMapping, NamedTuple,
                     Optional, Set, Tuple, Union, Any, Sequence, Mapping,
                     FrozenSet)
@@ -350,13 +351,14 @@ def run_creators(
 
   stack_copy = stack.clone()
 
-  def next_creator(shape, dtype, init):
-    if stack_copy:
-      return stack_copy.popleft()(next_creator, shape, dtype, init, context)
+  def run_from(depth, shape, dtype, init):
+    if depth < len(stack_copy):
+      next_creator = functools.partial(run_from, depth + 1)
+      return stack_copy.peek(depth)(next_creator, shape, dtype, init, context)
     else:
       return init(shape, dtype)
 
-  return next_creator(shape, dtype, init)
+  return run_from(0, shape, dtype, init)
 
 
 def custom_creator(
@@ -418,13 +420,14 @@ def run_getters(
 
   stack_copy = stack.clone()
 
-  def next_getter(value):
-    if stack_copy:
-      return stack_copy.popleft()(next_getter, value, context)
+  def run_from(depth, value):
+    if depth < len(stack_copy):
+      next_getter = functools.partial(run_from, depth + 1)
+      return stack_copy.peek(depth)(next_getter, value, context)
     else:
       return value
 
-  return next_getter(value)
+  return run_from(0, value)
 
 
 def custom_getter(
diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index ac0a3eb..07856ea 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -283,16 +283,19 @@ def run_interceptors(  # pylint: disable=invalid-name
                       orig_method=bound_method)
   interceptor_stack_copy = interceptor_stack.clone()
 
-  def next_fun(*args, **kwargs):
-    if interceptor_stack_copy:
-      # NOTE: The `interceptor_fun` may call `next_fun` to trigger the next
-      # interceptor (and so on) allowing interceptors to be run in turn.
-      interceptor_fun = interceptor_stack_copy.popleft()
-      return interceptor_fun(next_fun, args, kwargs, ctx)
-    else:
-      return bound_method(*args, **kwargs)
-
-  return next_fun(*args, **kwargs)
+  def run_from(depth):
+    def next_fun(*args, **kwargs):
+      if depth < len(interceptor_stack_copy):
+        # NOTE: The `interceptor_fun` may call `next_fun` to trigger the next
+        # interceptor (and so on) allowing interceptors to be run in turn.
+        interceptor_fun = interceptor_stack_copy.peek(depth)
+        return interceptor_fun(run_from(depth + 1), args, kwargs, ctx)
+      else:
+        return bound_method(*args, **kwargs)
+
+    return next_fun
+
+  return run_from(0)(*args, **kwargs)
 
 
 def simulate_module_call(module):
-- 
2.43.0


From 7c140bb1d4a352db51d2185ea715693eeb35cf0f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:07:44 +0000
Subject: [PATCH 08/27] fix: custom creators and getters become active when
 their context is entered

---
 haiku/_src/base.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 39fa9b2..0c7acbb 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -398,12 +398,17 @@ def custom_creator(
     Context manager under which the creator is active.
   """
   assert_context("experimental.custom_creator")
-  stack = contextlib.ExitStack()
-  if params:
-    stack.enter_context(param_creator_stack(creator))
-  if state:
-    stack.enter_context(state_creator_stack(creator))
-  return stack
+  return _custom_creator(creator, params=params, state=state)
+
+
+@contextlib.contextmanager
+def _custom_creator(creator: Creator, *, params: bool, state: bool):
+  with contextlib.ExitStack() as stack:
+    if params:
+      stack.enter_context(param_creator_stack(creator))
+    if state:
+      stack.enter_context(state_creator_stack(creator))
+    yield
 
 NextGetter = Callable[[str, jnp.ndarray], jnp.ndarray]
 Getter = Callable[[NextGetter, jnp.ndarray, GetterContext], jnp.ndarray]
@@ -467,12 +472,17 @@ def custom_getter(
     Context manager under which the getter is active.
   """
   assert_context("experimental.custom_getter")
-  stack = contextlib.ExitStack()
-  if params:
-    stack.enter_context(param_getter_stack(getter))
-  if state:
-    stack.enter_context(state_getter_stack(getter))
-  return stack
+  return _custom_getter(getter, params=params, state=state)
+
+
+@contextlib.contextmanager
+def _custom_getter(getter: Getter, *, params: bool, state: bool):
+  with contextlib.ExitStack() as stack:
+    if params:
+      stack.enter_context(param_getter_stack(getter))
+    if state:
+      stack.enter_context(state_getter_stack(getter))
+    yield
 
 
 def assert_is_prng_key(key: PRNGKey):
-- 
2.43.0


From d8b671ace05c5c2f6eec989f683d7df84e80e074 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:08 +0000
Subject: [PATCH 09/27] fix: hk.fori_loop without any steps returns its initial
 value in init

---
 haiku/_src/stateful.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 05dccab..517e9f6 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -532,7 +532,12 @@ def fori_loop(lower, upper, body_fun, init_val):
   if not base.params_frozen():
     # During init we need to unwind one step of the loop to ensure the Haiku
     # state before and after the body has the same structure.
-    init_val = body_fun(lower, init_val)
+    # NOTE: A loop without any steps still creates the state of its body, but the
+    # value of that step is not part of the result.
+    first_val = body_fun(lower, init_val)
+    if upper - lower <= 0:
+      return init_val
+    init_val = first_val
     lower += 1
     if upper - lower == 0:
       return init_val
-- 
2.43.0


From 482c25b643de6abd942ed4f8749622521cdcd6e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:08 +0000
Subject: [PATCH 10/27] fix: hk.scan with reverse stacks the first step last in
 init

---
 haiku/_src/stateful.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 517e9f6..6585efb 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -509,7 +509,9 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    # NOTE: With `reverse` the first step to run is the last one of the outputs.
+    stack = lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys])
+    ys = tree_multimap(stack, y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 459381d67287ad66c8c099f53ee61df93357b62b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:19:00 +0000
Subject: [PATCH 11/27] fix: compare managed state by value identity while it
 is alive and notice removed keys in assert_state_unchanged

---
 haiku/_src/base.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 0c7acbb..355f328 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -816,9 +816,9 @@ def assert_no_new_parameters():
     raise AssertionError(f"New parameters were created: {list(sorted(diff))}")
 
 
-def _get_ids(collection_name: str) -> FrozenSet[int]:
-  """Returns the identity for all state in the current context."""
-  out = []
+def _get_items(collection_name: str) -> Mapping[Tuple[str, str], Any]:
+  """Returns all values of the given collection in the current context."""
+  out = {}
   collection = getattr(current_frame(), collection_name)
   for mod_name, bundle in collection.items():
     if not isinstance(bundle, Mapping):
@@ -826,34 +826,40 @@ def _get_ids(collection_name: str) -> FrozenSet[int]:
       warnings.warn(f"Invalid entry {mod_name!r} in collection {collection}")
       continue
 
-    out.extend(map(id, bundle.values()))
+    for name, value in bundle.items():
+      out[(mod_name, name)] = value
 
-  return frozenset(out)
+  return out
 
 
 def _all_state():
-  params = _get_ids("params")
-  state = _get_ids("state")
+  params = _get_items("params")
+  state = _get_items("state")
   rng = current_frame().rng_stack.peek()
   if rng is not None:
     key, subkeys = rng.internal_state
-    rng = frozenset(map(id, [key] + list(subkeys)))
+    rng = dict(enumerate([key] + list(subkeys)))
   else:
-    rng = frozenset()
+    rng = {}
   return params, state, rng
 
 
+def _changed(before: Mapping[Any, Any], after: Mapping[Any, Any]) -> bool:
+  """Whether any item was added, removed or replaced."""
+  return (before.keys() != after.keys() or
+          any(before[k] is not v for k, v in after.items()))
+
+
 @contextlib.contextmanager
 def assert_state_unchanged():
   """Asserts that in the given block params, state and rng are unchanged."""
-  params_before, state_before, rng_before = _all_state()
+  # NOTE: Values are compared by identity, so they are kept alive in `before`
+  # (an identity could otherwise be reused by a new value).
+  before = _all_state()
   yield
-  params_after, state_after, rng_after = _all_state()
+  after = _all_state()
 
-  params_diff = params_after - params_before
-  state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
-  if params_diff or state_diff or rng_diff:
+  if any(map(_changed, before, after)):
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
                             "`set_state`).")
-- 
2.43.0


From 036313f81843a2a108170e5312ba132ce4d81fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:00 +0000
Subject: [PATCH 12/27] fix: hk.while_loop keeps the number of reserved keys
 constant

---
 haiku/_src/stateful.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 6585efb..7e507e8 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -609,9 +609,11 @@ def while_loop(cond_fun, body_fun, init_val):
     val, state = val
     with temporary_internal_state(state):
       val = body_fun(val)
+      reserve_up_to_full_rng_block()
       state = internal_state()
       return val, state
 
+  reserve_up_to_full_rng_block()
   init_val = (init_val, internal_state())
   val, state = jax.lax.while_loop(pure_cond_fun, pure_body_fun, init_val)
   update_internal_state(state)
-- 
2.43.0


From 261175870f9ec1b2d776e5751a262b4fb3f6c7f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:19:00 +0000
Subject: [PATCH 13/27] fix: the condition of hk.while_loop reads the state
 written by its body

---
 haiku/_src/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7e507e8..9900c69 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -593,9 +593,9 @@ def while_loop(cond_fun, body_fun, init_val):
         "      val = hk.while_loop(lambda val: val.mean() < 1, module, val)\n")
 
   def pure_cond_fun(val):
-    val, _ = val
+    val, state = val
     try:
-      with base.assert_state_unchanged():
+      with temporary_internal_state(state), base.assert_state_unchanged():
         return cond_fun(val)
     except base.StateChangedError as e:
       # If we find a use case for updating state/using rng in `cond` we would
-- 
2.43.0


From 1b35bd37e23c355feeb1662c95d8ac97fa57e51d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:33:02 +0000
Subject: [PATCH 14/27] fix: module summaries leave out methods that raised
 instead of listing None

---
 haiku/_src/summarise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 7583547..17795bf 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -209,7 +209,8 @@ def eval_summary(
     used_modules = []
     with sidechannel(used_modules):
       jax.eval_shape(init_apply, *args, **kwargs)
-    return used_modules
+    # NOTE: Methods that raised an exception have no record.
+    return [m for m in used_modules if m is not None]
 
   return wrapper
 
-- 
2.43.0


From d26f723b906626349208b6f49ba91f27b0ee40c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:33:02 +0000
Subject: [PATCH 15/27] fix: module summaries record arguments as they were
 passed

---
 haiku/_src/summarise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 17795bf..b8556de 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -146,11 +146,13 @@ def log_used_modules(
 
   idx = len(used_modules)
   used_modules.append(None)
+  # NOTE: Arguments may be modified by the method.
+  args_spec, kwargs_spec = to_spec(args), to_spec(kwargs)
   out = next_f(*args, **kwargs)
   used_modules[idx] = MethodInvocation(
       module_details=ModuleDetails.of(context.module, context.method_name),
-      args_spec=to_spec(args),
-      kwargs_spec=to_spec(kwargs),
+      args_spec=args_spec,
+      kwargs_spec=kwargs_spec,
       output_spec=to_spec(out),
       context=context,
       call_stack=get_call_stack())
-- 
2.43.0


From 6bd11d30b21807ebc2c5876bb057559f37bd717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:42 +0000
Subject: [PATCH 16/27] fix: without_apply_rng keeps the type of the
 transformed function

It returned a TransformedWithState for a function made by hk.transform, so
later wrappers called its apply with the wrong arguments.
---
 haiku/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/transform.py b/haiku/_src/transform.py
index b439f7e..318c352 100644
--- a/haiku/_src/transform.py
+++ b/haiku/_src/transform.py
@@ -145,7 +145,7 @@ def without_apply_rng(f: TransformedT) -> TransformedT:
 
   tie_in_original_fn(f, f.init, apply_fn)
 
-  return TransformedWithState(init=f.init, apply=apply_fn)
+  return type(f)(init=f.init, apply=apply_fn)
 
 
 # TODO(tomhennigan) Remove apply_rng.
-- 
2.43.0


From cc5c24123a4537f4bacc06f1f4cd9509d48b5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:35 +0000
Subject: [PATCH 17/27] fix: optimize_rng_use counts keys of the current thread
 only

It monkey patched next_rng_key_internal for the whole process, so keys used in
other threads were counted too (changing the keys handed out), and overlapping
uses restored the wrong function.
---
 haiku/_src/base.py   |  5 ++++-
 haiku/_src/random.py | 15 +++++----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 355f328..aefc74d 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -49,6 +49,8 @@ param_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 state_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 param_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
 state_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
+# Counts keys requested in this thread, see `count_hk_rngs_requested`.
+rng_counter_stack: ThreadLocalStack[collections.Counter] = ThreadLocalStack()
 
 
 class Frame(NamedTuple):
@@ -626,8 +628,9 @@ def next_rng_key() -> PRNGKey:
   return next_rng_key_internal()
 
 
-# NOTE: Split for monkey patching in random.py.
 def next_rng_key_internal() -> PRNGKey:
+  for counter in rng_counter_stack:
+    counter["next_rng_key"] += 1
   rng_seq = rng_seq_or_fail()
   return next(rng_seq)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 5b87314..d5677f3 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Utilities for working with random numbers."""
 
+import collections
 import contextlib
 import functools
 
@@ -28,16 +29,10 @@ def count_hk_rngs_requested():
   # TODO(tomhennigan): Catch keys from `next_rng_keys`, `maybe_next_rng_key`, ..
   # TODO(tomhennigan): Don't include keys returned under a `with_rng` context.
   # TODO(tomhennigan): Optimize use of keys within a `with_rng` heading as well.
-  count = [0]
-  orig_next_rng_key = base.next_rng_key_internal
-  def counting_next_rng_key(*a, **k):
-    count[0] += 1
-    return orig_next_rng_key(*a, **k)
-  try:
-    base.next_rng_key_internal = counting_next_rng_key
-    yield lambda: count[0]
-  finally:
-    base.next_rng_key_internal = orig_next_rng_key
+  # NOTE: Counters are thread local since other threads may use keys meanwhile.
+  counter = collections.Counter()
+  with base.rng_counter_stack(counter):
+    yield lambda: counter["next_rng_key"]
 
 
 def optimize_rng_use(fun):
-- 
2.43.0


From e771c2d893a83955a7dca491ed1cac59915ee0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 18/27] fix: to_dot accepts the keyword arguments of custom
 derivative calls

---
 haiku/_src/dot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index cebe56d..b3b869a 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -224,15 +224,15 @@ class DotTrace(jax.core.Trace):
 
   process_map = process_call
 
-  def process_custom_jvp_call(self, primitive, fun, jvp, tracers):
+  def process_custom_jvp_call(self, primitive, fun, jvp, tracers, **kwargs):
     # Drop the custom differentiation rule.
-    del primitive, jvp  # Unused.
+    del primitive, jvp, kwargs  # Unused.
     return fun.call_wrapped(*tracers)
 
   def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers,
-                              out_trees):
+                              **kwargs):
     # Drop the custom differentiation rule.
-    del primitive, fwd, bwd, out_trees  # Unused.
+    del primitive, fwd, bwd, kwargs  # Unused.
     return fun.call_wrapped(*tracers)
 
 
-- 
2.43.0


From b3401ab8433d66f4193412d7013d08481c1ee55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 19/27] fix: to_dot draws operations without outputs

---
 haiku/_src/dot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index b3b869a..f0bad2d 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -207,9 +207,11 @@ class DotTrace(jax.core.Trace):
     outputs = list(jax.tree_leaves(val_out))
 
     graph = graph_stack.peek()
-    node = Node(id=outputs[0], title=str(primitive), outputs=outputs)
+    # Some primitives (e.g. debug callbacks) have no outputs.
+    node_id = outputs[0] if outputs else object()
+    node = Node(id=node_id, title=str(primitive), outputs=outputs)
     graph.nodes.append(node)
-    graph.edges.extend([(i, outputs[0]) for i in inputs])
+    graph.edges.extend([(i, node_id) for i in inputs])
 
     return jax.tree_map(lambda v: DotTracer(self, v), val_out)
 
-- 
2.43.0


From 2182892e59122e91d69f100bf6693c119ded6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 20/27] fix: to_dot connects every output of an operation to
 its node

---
 haiku/_src/dot.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index f0bad2d..e64083c 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -281,7 +281,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
   lines = []
   used_argids = set()
   argid_usecount = collections.Counter()
-  op_outids = set()
+  op_outids = {}  # Maps the id of each output to the id of its node.
   captures = []
   argids = {id(v) for v in jax.tree_leaves(args)}
   outids = {id(v) for v in jax.tree_leaves(outputs)}
@@ -303,14 +303,17 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
       ])
 
     for node in g.nodes:
+      node_id = id(node.id)
+      names = []
       label = f'<b>{escape(node.title)}</b>'
       for o in node.outputs:
         label += '<br/>' + _format_val(o)
-        op_outids.add(id(o))
+        op_outids[id(o)] = node_id
+        if id(o) in outids:
+          names.append(outname[id(o)])
 
-      node_id = id(node.id)
-      if node_id in outids:
-        label = f'<b>{escape(outname[node_id])}</b><br/>' + label
+      if names:
+        label = ''.join(f'<b>{escape(n)}</b><br/>' for n in names) + label
         color = '#0053D6'
         fillcolor = '#AABFFF'
         style = 'filled,bold'
@@ -344,7 +347,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
         argid_usecount[a] += 1
         lines.append(f'{a}{i} -> {b};')
       else:
-        lines.append(f'{a} -> {b};')
+        lines.append(f'{op_outids.get(a, a)} -> {b};')
       used_argids.add(a)
 
   graph_depth = _max_depth(graph)
-- 
2.43.0


From 5698fbda19f50aa9cc02b9fcaacf276fb4523ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 21/27] fix: to_dot escapes the paths of arguments

---
 haiku/_src/dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index e64083c..fa96bcd 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -365,7 +365,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
     for i in range(argid_usecount[node_id]):
       label = f'<b>args[{escape(path[0])}]'
       if len(path) > 1:
-        label += ': ' + '/'.join(map(str, path[1:]))
+        label += ': ' + escape('/'.join(map(str, path[1:])))
       label += '</b>'
       if hasattr(value, 'shape') and hasattr(value, 'dtype'):
         label += f'<br/>{escape(_format_val(value))}'
-- 
2.43.0


From 31eaab127e93e92ea787931616c7485f148ea4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 22/27] fix: warmup of moving averages works in every precision

---
 haiku/_src/moving_averages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index b5f0e35..db47470 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -115,7 +115,7 @@ class ExponentialMovingAverage(hk.Module):
 
     decay = jax.lax.convert_element_type(self.decay, value.dtype)
     if self.warmup_length > 0:
-      decay = jax.lax.select(counter <= 0, 0.0, decay)
+      decay = jax.lax.select(counter <= 0, jnp.zeros_like(decay), decay)
 
     one = jnp.ones([], value.dtype)
     hidden = hk.get_state("hidden", value.shape, value.dtype, init=jnp.zeros)
-- 
2.43.0


From 51f5e1163556e848b793cc4a6a298ae65f84fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 23/27] fix: attention masks stay finite in half precision

---
 haiku/_src/attention.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/attention.py b/haiku/_src/attention.py
index 322dee1..e99a6e0 100644
--- a/haiku/_src/attention.py
+++ b/haiku/_src/attention.py
@@ -74,7 +74,9 @@ class MultiHeadAttention(hk.Module):
     sqrt_key_size = np.sqrt(self.key_size).astype(key.dtype)
     attention_logits = attention_logits / sqrt_key_size
     if mask is not None:
-      attention_logits -= 1e10 * (1. - mask)
+      # NOTE: The offset has to be finite in half precision too.
+      offset = min(1e10, float(jnp.finfo(attention_logits.dtype).max) / 2)
+      attention_logits -= offset * (1. - mask)
 
     attention_weights = jax.nn.softmax(attention_logits)
     attention = jnp.einsum("bhtT,bThd->bthd", attention_weights, value_heads)
-- 
2.43.0


From 3ae093f0b26851eaa7719574c14221f8cf51af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 24/27] fix: perplexity of vector quantisers is finite in half
 precision

---
 haiku/_src/nets/vqvae.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/nets/vqvae.py b/haiku/_src/nets/vqvae.py
index 567971d..b47dff3 100644
--- a/haiku/_src/nets/vqvae.py
+++ b/haiku/_src/nets/vqvae.py
@@ -136,7 +136,8 @@ class VectorQuantizer(hk.Module):
     # Straight Through Estimator
     quantized = inputs + jax.lax.stop_gradient(quantized - inputs)
     avg_probs = jnp.mean(encodings, 0)
-    perplexity = jnp.exp(-jnp.sum(avg_probs * jnp.log(avg_probs + 1e-10)))
+    perplexity = jnp.exp(
+        -jnp.sum(jax.scipy.special.xlogy(avg_probs, avg_probs)))
 
     return {
         "quantize": quantized,
@@ -319,7 +320,8 @@ class VectorQuantizerEMA(hk.Module):
     avg_probs = jnp.mean(encodings, 0)
     if self.cross_replica_axis:
       avg_probs = jax.lax.pmean(avg_probs, axis_name=self.cross_replica_axis)
-    perplexity = jnp.exp(-jnp.sum(avg_probs * jnp.log(avg_probs + 1e-10)))
+    perplexity = jnp.exp(
+        -jnp.sum(jax.scipy.special.xlogy(avg_probs, avg_probs)))
 
     return {
         "quantize": quantized,
-- 
2.43.0


From c756a898e6d7b17a1d4fb503d4f81deba7280c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 25/27] fix: Bias accepts its output size as any sequence

---
 haiku/_src/bias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/bias.py b/haiku/_src/bias.py
index 1dbb31b..11fa7d6 100644
--- a/haiku/_src/bias.py
+++ b/haiku/_src/bias.py
@@ -91,7 +91,7 @@ class Bias(hk.Module):
       name: Name of the module.
     """
     super().__init__(name=name)
-    self.output_size = output_size
+    self.output_size = None if output_size is None else tuple(output_size)
     self.bias_dims = bias_dims
     self.b_init = b_init or jnp.zeros
     self.bias_shape = None
-- 
2.43.0


From 4f048ab160b7ecd263d958846f56e873ce16c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:11 +0000
Subject: [PATCH 26/27] fix: BatchNorm parameters have the right shape for
 negative axes

---
 haiku/_src/batch_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/batch_norm.py b/haiku/_src/batch_norm.py
index 963ac8f..f12d3c8 100644
--- a/haiku/_src/batch_norm.py
+++ b/haiku/_src/batch_norm.py
@@ -157,7 +157,7 @@ class BatchNorm(hk.Module):
       channel_index += inputs.ndim
 
     if self.axis is not None:
-      axis = self.axis
+      axis = [i + inputs.ndim if i < 0 else i for i in self.axis]
     else:
       axis = [i for i in range(inputs.ndim) if i != channel_index]
 
-- 
2.43.0


From 4bd04c7617f344b03b3941280939eea0a4c7517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:03 +0000
Subject: [PATCH 27/27] fix: optimize_rng_use works inside modules and after
 other modules

---
 haiku/_src/random.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index d5677f3..363f5cf 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -19,7 +19,6 @@ import contextlib
 import functools
 
 from haiku._src import base
-from haiku._src import data_structures
 import jax
 
 
@@ -71,24 +70,23 @@ def optimize_rng_use(fun):
   def wrapper(*args, **kwargs):
     base.assert_context("optimize_rng_use")
 
-    # Extract all current state.
     frame = base.current_frame()
-    params = frame.params or None
-    if params is not None:
-      params = data_structures.to_immutable_dict(params)
-    state = frame.state or None
-    if state is not None:
-      state = base.extract_state(state, initial=True)
     rng = frame.rng_stack.peek()
     if rng is not None:
-      rng = rng.internal_state
-
-    def pure_fun(params, state, rng, *args, **kwargs):
-      with base.new_context(params=params, state=state, rng=rng):
+      rng = base.PRNGSequence(rng.internal_state)
+    copy_structure = lambda items: jax.tree_map(lambda x: x, items)
+
+    def pure_fun(*args, **kwargs):
+      # NOTE: `fun` sees the names, params, state and rng of where it is called
+      # (e.g. inside a module), but it can only change this copy of them.
+      with base.frame_stack(
+          frame.evolve(params=copy_structure(frame.params),
+                       state=copy_structure(frame.state),
+                       rng=rng)):
         return fun(*args, **kwargs)
 
     with count_hk_rngs_requested() as rng_count_f:
-      jax.eval_shape(pure_fun, params, state, rng, *args, **kwargs)
+      jax.eval_shape(pure_fun, *args, **kwargs)
     rng_count = rng_count_f()
 
     if rng_count:
-- 
2.43.0

