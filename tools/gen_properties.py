"""Writes /verif/properties.jsonl (kept as code so that it stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe or [], "hook_needed": None}})

S = "haiku/_src/"
prop("C01", "Transformed functions are pure and isolated",
 "The init and apply functions of a transformed function depend only on the arguments they are given: calling them again with the same arguments gives the same result, never modifies the params, state or inputs passed in, and leaves no trace behind for later calls, whatever ran before, whatever raised an exception half way, whatever transform is nested inside another (apart from custom creators, getters and interceptors active around a nested transform, which apply inside of it), and whatever other threads do at the same time. "
 "Outside of a transformed function the stateful API refuses to run. "
 "transform, transform_with_state, without_state and without_apply_rng agree with one another on params, state and outputs.",
 ["programs", "histories", "schedules", "inputs"],
 "All bounded programs of parameter/state/rng operations, all positions of an exception, all interleavings of two threads, all values.",
 "Tests run fixed programs once, single threaded, and compare single results.",
 [S+"base.py", S+"transform.py", S+"data_structures.py"],
 [("context manager per call with fresh stores", S+"base.py:new_context"), ("thread local stacks", S+"data_structures.py:ThreadLocalStack"), ("init/apply pair", S+"transform.py:transform_with_state")],
 ["hk.transform(...).init/apply", "hk.transform_with_state"])
prop("C02", "Parameters are created once by init and injected unchanged by apply",
 "During init every parameter named by a module path and name is created exactly once, with the initializer called on the requested shape and dtype, every later request for it in that call returns that same value, and init returns exactly the set of requested parameters. "
 "During apply a request returns exactly the value supplied for that path and name, the initializer never runs, and a request for a parameter that was not supplied, or whose supplied shape differs from the requested one, raises an error instead of returning a value. "
 "Two requests return the same parameter if and only if both module path and name agree.",
 ["programs", "inputs"],
 "All bounded sequences of parameter requests over modules and names, all parameter values.",
 "Tests use a handful of fixed parameter names and constant values.",
 [S+"base.py", S+"module.py"], [("get_parameter", S+"base.py:get_parameter"), ("current_bundle_name", S+"base.py:current_bundle_name")], ["hk.get_parameter"])
prop("C03", "State reads see the latest write, init returns first values, apply final ones",
 "Within one call a state read returns the most recent value written for that module path and name, or else the value passed in, or else the freshly initialised value; an uninitialised read without an initializer raises. "
 "init returns for every state entry its initial value (the first value it got) even when it was later overwritten, and apply returns for every entry its final value. "
 "Entries that the call does not touch are returned unchanged, including entries of modules that are never called.",
 ["programs", "inputs"],
 "All bounded sequences of get/set operations over modules and names, all values.",
 "Tests use fixed counters; the interplay of initial and current values is sampled on one or two sequences.",
 [S+"base.py", S+"transform.py"], [("StatePair(initial, current)", S+"base.py:get_state/set_state"), ("extract_state", S+"base.py:extract_state")], ["hk.get_state", "hk.set_state"])
prop("C04", "Module names are deterministic, hierarchical and never collide",
 "Two different module instances created under the same parent call get different names; the names depend only on the sequence of names requested there, are the requested (or snake-cased class) name or, if that name or a numbered version of it was requested before, the name with the next numeric suffix above those already used, and a repeated explicitly numbered name raises. "
 "A module's full name is its parent's full name, then a method marker if it was created in a constructor (~) or in a method other than the call method (~method), then its own name, and parameters and state live under the name of the module whose method is running (or the active name scope; transparent methods and functions add no scope). "
 "A module's params_dict/state_dict contain exactly the entries of that module and its submodules.",
 ["programs", "inputs"],
 "All bounded sequences of module creations with arbitrary identifier-like names, nesting, name scopes, and methods.",
 "Tests enumerate a few name sequences; suffix arithmetic has corner cases for explicit numeric suffixes.",
 [S+"module.py", S+"utils.py"], [("unique_and_canonical_name", S+"module.py"), ("name scopes and method wrapping", S+"module.py:wrap_method/NameScope")], ["hk.Module.module_name", "hk.experimental.name_scope", "hk.transparent", "hk.to_module"])
prop("C05", "Random keys are unique, deterministic and only derived from the given key",
 "All keys handed out in one call of init or apply (one at a time, several at once, reserved in advance, or from nested key scopes with different keys), and by one key sequence over its life, are pairwise different and different from the key passed in; they are a function of that key and of the sequence of requests alone. "
 "A nested key scope hands out keys derived from its own key and leaves the enclosing sequence exactly as it was; saving and restoring a sequence's state reproduces the same keys; optimize_rng_use around a function, anywhere in a program (also inside modules and after other modules, state and keys), splits the keys the function will request once ahead, keeps them unique and changes nothing else. "
 "Asking for a key when none was given raises (or returns nothing for the maybe variant).",
 ["programs", "histories", "inputs"],
 "All bounded request sequences, for every base key, under the assumption that splitting is injective.",
 "Tests check that two or three keys differ for one seed.",
 [S+"base.py", S+"random.py"], [("PRNGSequence split/reserve/take", S+"base.py:PRNGSequence"), ("rng stack", S+"base.py:with_rng")], ["hk.next_rng_key", "hk.next_rng_keys", "hk.reserve_rng_keys", "hk.with_rng", "hk.PRNGSequence", "hk.experimental.optimize_rng_use"])
prop("C06", "Custom creators, getters and method interceptors run in order and in scope only",
 "While custom creators are active each newly created parameter (or state entry, where asked for) is produced by running them from the outermost to the innermost and finally the initializer, each one seeing the arguments passed on by the previous one; custom getters run likewise on every read and change only what the reader sees, not what is stored. "
 "Method interceptors run from outermost to innermost around every module method call under them and may change arguments and result or short circuit. "
 "All of them see the correct context (full name, module, original shape and dtype, method name), and have no effect outside of their scope or on the kind (params or state) they were not registered for, also after an exception.",
 ["programs", "inputs"],
 "All bounded nestings of creators, getters and interceptors, all values.",
 "Tests exercise two nested creators at most with constant values.",
 [S+"base.py", S+"module.py"], [("run_creators/run_getters", S+"base.py"), ("run_interceptors", S+"module.py")], ["hk.experimental.custom_creator", "hk.experimental.custom_getter", "hk.experimental.intercept_methods"])
prop("C07", "Stateful loops equal the unrolled Python loop",
 "scan, fori_loop and while_loop inside a transformed function give the same carry, stacked outputs, parameters, state and random keys as running the body in a plain Python loop, in init (where supported) and in apply, for any trip count, direction and unroll factor, for bodies that use modules created outside of the loop. Keys equal those of the plain loop when they are requested one at a time; a loop of zero steps creates the parameters and state of its body at init and changes no value. "
 "The keys used in different iterations are pairwise different and different from keys used before and after the loop. "
 "A while condition sees the state written by the body; changing state in the condition, or creating a parameter after the first step, raises.",
 ["programs", "inputs", "configurations"],
 "All values, bounded trip counts, body programs over params, state and rng.",
 "Tests use fixed bodies (counters) with concrete inputs.",
 [S+"stateful.py"], [("internal state threaded through the carry", S+"stateful.py:scan/fori_loop/while_loop")], ["hk.scan", "hk.fori_loop", "hk.while_loop"])
prop("C08", "Stateful cond and switch equal Python branching",
 "cond and switch inside a transformed function give the same result, parameters and state as running only the selected branch in plain Python, for every predicate or index and both calling conventions, for branches that use modules created outside of them; state written by a branch that is not taken is never visible. "
 "Keys used in a branch are different from those used before and after.",
 ["programs", "inputs"], "All predicates/indices and values, bounded branch programs.",
 "Tests run both predicates on one constant program.",
 [S+"stateful.py"], [("stateful_branch", S+"stateful.py:cond/switch")], ["hk.cond", "hk.switch"])
prop("C09", "Stateful jit, remat, grad, vmap, named_call and eval_shape keep semantics",
 "Wrapping a function with jit, remat, value_and_grad, grad or named_call inside a transformed function gives the same value, created parameters, final state and subsequent random keys as calling it directly, and gradients equal those of the pure function with respect to the selected arguments (for functions using modules created outside of them); vmap gives the function applied per example with params, state and keys shared. "
 "eval_shape returns the right shapes and dtypes and changes no parameter, state or key.",
 ["programs", "inputs"], "All values, bounded programs over params, state and rng.",
 "Tests compare one state update per wrapper.",
 [S+"stateful.py"], [("difference/update_internal_state", S+"stateful.py")], ["hk.jit", "hk.remat", "hk.grad", "hk.value_and_grad", "hk.vmap", "hk.experimental.named_call", "hk.eval_shape"])
prop("C10", "Lifting a transformed function nests its parameters faithfully",
 "Lifting an inner init function inside an outer transform stores exactly the inner parameters under the lifting module's name as prefix, at init returns the inner parameters, and at apply returns exactly the outer values of those entries under their inner names and nothing else, for any module structure and any number of separately named lifted functions side by side, each called once.",
 ["programs", "inputs"], "All bounded inner/outer module name structures and all values.",
 "Tests use one inner module.", [S+"lift.py"], [("pack/unpack with prefix", S+"lift.py")], ["hk.experimental.lift"])
prop("C11", "filter, partition, map and merge obey their set-algebra laws",
 "partition splits a parameter structure into exactly the entries satisfying the predicate and exactly the others, filter keeps exactly the satisfying ones, map applies the function to every entry keeping the structure, and merge contains every path with the value of the last structure that has it, so merging the two halves of a partition gives back the original. "
 "The predicate and function are called once per entry with its module name, name and value; inputs are never modified and outputs do not alias them.",
 ["inputs", "programs"], "All predicates and values over bounded two-level structures.",
 "Tests use one structure and two predicates.", [S+"filtering.py"], [("two-level loops", S+"filtering.py")], ["hk.data_structures.*"])
prop("C12", "Parameter mappings are immutable, equal dicts, and round-trip as trees",
 "The mapping type used for params and state behaves as an immutable dict: lookups, length, iteration, equality and nested access agree with the dict it was built from by to_immutable_dict, it has no mutating operation, later changes to the source dict are not visible in it, and conversion to a mutable dict and back is the identity. "
 "As a JAX tree it flattens and unflattens to an equal mapping, maps leaf by leaf also when leaves become containers or None, and equal mappings hash equally and survive pickling.",
 ["inputs", "programs"], "All bounded nested structures and values.",
 "Tests use fixed structures.", [S+"data_structures.py"], [("FlatMapping", S+"data_structures.py")], ["hk.data_structures.to_immutable_dict/to_mutable_dict", "results of init"])
prop("C13", "Convolution layers compute the padded, strided, dilated convolution asked for",
 "ConvND layers (1D, 2D, 3D), depthwise and separable convolutions equal the textbook cross-correlation of the input with the masked kernel plus bias for every stride, dilation rate, group count, data format and padding choice, for batched and unbatched inputs. "
 "SAME padding gives ceil(n/stride) outputs and VALID only complete windows; custom padding functions pad (before, after) with the amounts documented for full, same, valid, causal and reverse causal padding, and causal outputs never depend on later inputs (reverse causal never on earlier ones).",
 ["inputs", "configurations"], "All input and kernel values at bounded shapes; padding arithmetic for all kernel sizes and rates within bounds.",
 "Tests sample constant inputs (ones) on a few shapes, and many do not even run on current Python.",
 [S+"conv.py", S+"pad.py", S+"depthwise_conv.py", S+"utils.py"], [("pad.create/pad functions", S+"pad.py"), ("ConvND.__call__", S+"conv.py"), ("DepthwiseConv2D", S+"depthwise_conv.py")], ["hk.Conv1D/2D/3D", "hk.DepthwiseConv2D", "hk.SeparableDepthwiseConv2D", "hk.pad.*"])
prop("C14", "Transposed convolutions are the adjoint and honour output_shape",
 "ConvNDTranspose layers equal the gradient-style transposed convolution of the input with the masked kernel plus bias, with output size n*stride for SAME and (n-1)*stride + max(kernel, stride) for VALID, and exactly the requested size when an output shape is given, in channels-first and channels-last layouts.",
 ["inputs", "configurations"], "All values at bounded shapes; size arithmetic for all sizes within bounds.",
 "Tests sample constant inputs.", [S+"conv.py"], [("ConvNDTranspose and output_shape padding", S+"conv.py")], ["hk.ConvNDTranspose"])
prop("C15", "Pooling reduces exactly the window it covers",
 "max_pool and avg_pool (functions and modules) return for each output position the maximum, or the mean over the non-padding elements, of exactly the input elements in its window, over the spatial axes only for integer window sizes (channel axis excluded as given) and as given for sequences, for every stride and padding and for batched or unbatched inputs; SAME gives ceil(n/stride) outputs.",
 ["inputs", "configurations"], "All values at bounded shapes, windows, strides.",
 "Tests sample ones and random inputs of fixed shape.", [S+"pool.py"], [("reduce_window", S+"pool.py")], ["hk.max_pool", "hk.avg_pool", "hk.MaxPool", "hk.AvgPool"])
prop("C16", "Reshape, Flatten, BatchApply and expand_apply only rearrange",
 "Reshape and Flatten keep the preserved leading dimensions and row-major element order, infer a -1 dimension correctly, and raise on an impossible shape; BatchApply equals applying the function to each element of the merged leading axes and splitting them back on every output; expand_apply equals applying to an input expanded with a singleton at the first or last axis and squeezing it, and rejects other axes.",
 ["inputs", "configurations"], "All values, all bounded shapes, preserved dims and output shapes.",
 "Tests sample a few shapes.", [S+"reshape.py", S+"basic.py"], [("_infer_shape", S+"reshape.py"), ("merge_leading_dims/split_leading_dim", S+"basic.py")], ["hk.Reshape", "hk.Flatten", "hk.BatchApply", "hk.expand_apply"])
prop("C17", "Linear, Bias, MLP, Sequential, Embed and dropout compute what they document",
 "Linear is x @ w + b with w of shape (inputs, outputs) and b optional; Bias adds (scaled) a parameter covering exactly the chosen dimensions; MLP alternates linear layers, activation and (with a rate and key) dropout, activating the last layer only when asked, and its reverse maps back through the sizes in reverse order; Sequential composes in order passing extra arguments to the first layer only. "
 "Embed returns the table row for every id in both lookup styles, with a supplied matrix too; dropout keeps each element either zeroed or divided by the keep probability, is the identity at rate 0, and rejects rates outside [0, 1); one_hot and multinomial return class indicators and in-range classes.",
 ["inputs", "configurations"], "All input/parameter values and keys at bounded shapes.",
 "Tests sample ones, and check shapes mostly.", [S+"basic.py", S+"bias.py", S+"embed.py", S+"nets/mlp.py"], [("Linear/Sequential/dropout", S+"basic.py"), ("Bias", S+"bias.py"), ("MLP", S+"nets/mlp.py"), ("Embed", S+"embed.py")], ["hk.Linear", "hk.Bias", "hk.nets.MLP", "hk.Sequential", "hk.Embed", "hk.dropout"])
prop("C18", "BatchNorm normalises with the right statistics and tracks averages",
 "In training (or when testing with local statistics) BatchNorm normalises with the mean and biased variance of the current batch over all axes but the channel axis (or the given axes, averaged across replicas when an axis name is given); otherwise it uses the zero-debiased moving averages only, so that examples do not influence one another. "
 "The moving averages change in training only, by the configured decay, and scale and offset are learned parameters or passed in, never both.",
 ["inputs", "histories", "configurations"], "All values at bounded shapes and numbers of steps.",
 "Tests sample constant inputs.", [S+"batch_norm.py", S+"moving_averages.py"], [("BatchNorm.__call__", S+"batch_norm.py")], ["hk.BatchNorm"])
prop("C19", "Layer, instance and group normalisation use statistics of the right slices",
 "LayerNorm normalises by mean and biased variance over exactly the given axes, InstanceNorm over all spatial axes per example and channel, GroupNorm per example over the spatial axes and the channels of each group, all with epsilon under the square root and then scale and offset along the channel axis. "
 "No example influences another and an indivisible group count or contradictory scale/offset arguments raise.",
 ["inputs", "configurations"], "All values at bounded shapes, axes, formats.",
 "Tests sample ones and shapes.", [S+"layer_norm.py", S+"group_norm.py"], [("LayerNorm", S+"layer_norm.py"), ("GroupNorm", S+"group_norm.py")], ["hk.LayerNorm", "hk.InstanceNorm", "hk.GroupNorm"])
prop("C20", "Exponential moving averages follow their recurrence, debiasing and warmup",
 "After any sequence of updates an exponential moving average equals the decay recurrence on the inputs from zero, divided by one minus the product of decays when zero-debiasing (so a constant input gives that constant exactly); during warmup (the first warmup_length updates) it is just the latest input, and warmup with zero-debiasing is rejected; reading it, or calling it without updating, changes nothing. "
 "The tree version keeps an independent average for every non-ignored parameter, returns the same structure with ignored entries passed through untouched.",
 ["inputs", "histories"], "All values and decays, bounded numbers of steps.",
 "Tests sample constant sequences.", [S+"moving_averages.py"], [("ExponentialMovingAverage", S+"moving_averages.py"), ("EMAParamsTree", S+"moving_averages.py")], ["hk.ExponentialMovingAverage", "hk.EMAParamsTree"])
prop("C21", "Recurrent cores satisfy their equations and all unrolls agree",
 "VanillaRNN, LSTM, GRU, the ConvLSTMs and IdentityCore compute their documented recurrences; static and dynamic unrolling, time-major or batch-major, equal stepping the core by hand; their initial states have the shapes and values documented, with and without batch. "
 "ResetCore equals the core from its initial state exactly for the batch entries flagged and from the given state otherwise, and DeepRNN (with or without skip connections) equals composing its layers by hand with each core keeping its own state.",
 ["inputs", "histories", "configurations"], "All inputs, states, parameters and reset flags at bounded sizes and lengths.",
 "Tests compare unrolls on one random input, and check shapes.", [S+"recurrent.py"], [("cores and unrolls", S+"recurrent.py")], ["hk.LSTM", "hk.GRU", "hk.VanillaRNN", "hk.ResetCore", "hk.DeepRNN", "hk.static_unroll", "hk.dynamic_unroll"])
prop("C22", "Multi-head attention equals the attention equation and respects masks",
 "MultiHeadAttention equals, for every head, softmax of scaled query-key products applied to the values, heads concatenated and projected, for inputs of shape [batch, sequence, features]. "
 "Keys masked out have no influence on the output.",
 ["inputs", "configurations"], "All inputs, parameters and masks at bounded sizes.",
 "Tests check shapes and constants.", [S+"attention.py"], [("MultiHeadAttention.__call__", S+"attention.py")], ["hk.MultiHeadAttention"])
prop("C23", "Initializers return the documented values, ranges and scales",
 "Every initializer returns the requested shape and dtype; Constant returns its value, Identity the (gain scaled) identity on the last two axes, Orthogonal a gain-scaled matrix with orthonormal rows or columns, RandomUniform values in [minval, maxval), TruncatedNormal values within two standard deviations, RandomNormal mean plus stddev times a standard normal, UniformScaling and VarianceScaling scale their samples by the documented fan of the shape (fan_in, fan_out or fan_avg, truncated normal, normal or uniform). "
 "Fans follow the documented rule for scalars, vectors, matrices and kernels; random initializers use one fresh key each.",
 ["inputs", "configurations"], "All keys, and bounded shapes, scales, modes.",
 "Tests sample few seeds and check statistics loosely.", [S+"initializers.py"], [("_compute_fans, VarianceScaling", S+"initializers.py")], ["hk.initializers.*"])
prop("C24", "Vector quantisers pick the nearest code and update their codebook as documented",
 "The vector quantisers return for every input vector the codebook entry at least squared distance (the one with the reported index and one-hot encoding), with straight-through gradients to the inputs, the documented loss and perplexity. "
 "The EMA variant moves each code to its debiased running mean of assigned vectors in training only; in evaluation its state is unchanged.",
 ["inputs", "histories"], "All inputs and codebooks at bounded sizes.",
 "Tests sample random inputs for few sizes.", [S+"nets/vqvae.py"], [("VectorQuantizer/VectorQuantizerEMA", S+"nets/vqvae.py")], ["hk.nets.VectorQuantizer", "hk.nets.VectorQuantizerEMA"])
prop("C25", "Spectral normalisation divides by the power-iteration estimate",
 "SpectralNorm returns the weight divided by sigma where sigma is the estimate after the configured number of power iterations from the stored vector, updates that vector and sigma only when asked to, and treats higher-rank weights as matrices over the last axis and rejects ranks below two; the tree version does this per matching parameter and leaves others untouched.",
 ["inputs", "histories"], "All weights and stored vectors at bounded sizes and iteration counts.",
 "Tests sample one weight.", [S+"spectral_norm.py"], [("SpectralNorm", S+"spectral_norm.py")], ["hk.SpectralNorm", "hk.SNParamsTree"])
prop("C26", "Model summaries report what actually ran and leave no trace",
 "The module summaries list every module method call that returned, in call order, with the parameters and state of the module, of the modules below it and of the modules it called, the context of the call and the shapes and dtypes of its array arguments and results as actually passed, and neither building them nor formatting them changes the function's later behaviour.",
 ["programs", "inputs"], "All bounded module call structures.",
 "Tests check one model's printed table.", [S+"summarise.py", S+"module.py"], [("hook_methods logging", S+"summarise.py")], ["hk.experimental.eval_summary", "hk.experimental.tabulate"])
prop("C27", "ResNet and MobileNet wire their blocks as documented",
 "The residual networks' blocks compute shortcut plus residual branch with the documented projection, stride, bottleneck and normalisation order (v1 and v2) and MobileNet stacks depthwise-separable blocks with the documented strides; outputs have the documented shape, in evaluation mode examples do not influence one another, and in training only the normalisation statistics change.",
 ["inputs", "configurations"], "All values at bounded shapes for the blocks, all dependencies at small image sizes for the networks.",
 "Tests only check that the networks run and their shapes.", [S+"nets/resnet.py", S+"nets/mobilenetv1.py"], [("BlockV1/BlockV2/BlockGroup", S+"nets/resnet.py"), ("MobileNetV1Block", S+"nets/mobilenetv1.py")], ["hk.nets.ResNet", "hk.nets.MobileNetV1"])
prop("C28", "Graph export renders the computation faithfully",
 "to_dot and abstract_to_dot render every JAX operation a function performs on values that depend on its arguments exactly once (also operations with several or no outputs; a jitted or other higher-order call is one node, and functions with custom derivative rules show the operations of the original function), labelled with the operation and the shape and dtype of its outputs, with an edge from the producer of each operand (an operation, a labelled argument or parameter, or a captured constant), with the outputs of the function marked and named, grouped by the module and method that performed it. Drawing a graph, even one that fails, leaves no trace in the behaviour of the program. (Arguments that are distinct objects.)",
 ["programs"], "All functions over lax-level operations, modules, parameters and argument trees.",
 "Tests check one graph.", [S+"dot.py"], [("DotTrace", S+"dot.py")], ["hk.experimental.to_dot"])
prop("C29", "Helpers agree with what they stand for",
 "The textual form of a module is a constructor call that shows arguments it was given, leaves out those equal to their defaults, and rebuilds the same arguments when evaluated. "
 "A module class made by to_module behaves like a module whose call method is the wrapped function (its parameters, state, keys and submodules live under the instance's name), and refuses use without a call to its constructor. "
 "A function run with transform_and_run returns what apply returns for the params and state that init creates, with the keys of the given seed or with the given keys. "
 "running_init is true exactly while init runs, also inside nested modules, wrappers and nested transforms, and raises outside. Profiler name scopes change no parameter, state, key or value.",
 ["programs", "inputs", "configurations"],
 "All values, bounded signatures, programs and nestings.",
 "Tests compare a handful of printed modules and run fixed functions.",
 [S+"utils.py", S+"basic.py", S+"test_utils.py", S+"transform.py"], [("auto_repr", S+"utils.py"), ("to_module", S+"basic.py:to_module"), ("transform_and_run", S+"test_utils.py"), ("running_init", S+"transform.py:running_init")], ["repr(module)", "hk.to_module", "hk.testing.transform_and_run", "hk.running_init", "hk.experimental.profiler_name_scopes"])
prop("C30", "Layers keep the precision of their input",
 "Given inputs in half (float16 or bfloat16), single or double precision, the linear, convolutional, pooling, normalisation, attention, averaging, quantising and recurrent layers, with any of their optional parts (biases, scales, offsets, masks in the same precision, warmup, debiasing, unrolling, skip connections), create their parameters and state in that precision (quantisers: in the precision they were constructed with), return outputs and states in that precision, stay usable for a second call with the state returned, and compute the same values as in single precision up to rounding, never turning finite values into NaN because a constant does not fit the precision.",
 ["inputs", "configurations"],
 "All values, params and states for every layer and optional part at small shapes; rounding itself is not modelled.",
 "Tests only look at result types, for one default configuration of each module on inputs of ones.",
 [S+"basic.py", S+"bias.py", S+"conv.py", S+"depthwise_conv.py", S+"pool.py", S+"layer_norm.py", S+"group_norm.py", S+"batch_norm.py", S+"attention.py", S+"moving_averages.py", S+"recurrent.py", S+"spectral_norm.py", S+"nets/vqvae.py"],
 [("parameters requested with the dtype of the input", S+"basic.py:Linear.__call__"), ("EMA dtype handling", S+"moving_averages.py")], ["module outputs, hk.get_parameter dtypes"])
prop("C31", "Omitted arguments mean their documented defaults",
 "For every public layer, core, network, initializer, pooling function, unroll and stateful transform, leaving an optional argument out (alone or together with others) is the same as passing the default its documentation gives: the same parameters and states are created with the same initial values for every key (weights of linear, convolutional and transposed layers from a truncated normal with standard deviation one over the square root of the fan-in, biases and offsets zero, scales one, attention sizes derived from the key size), and the same outputs and states are computed for every input, parameter and state. "
 "Passing all arguments by position in the documented order is the same as passing them by name.",
 ["inputs", "configurations"],
 "All inputs, keys, params and states at small shapes, each optional argument and all together.",
 "Tests mostly pass options explicitly or only look at shapes, so that a default that moved is not seen.",
 [S+"conv.py", S+"depthwise_conv.py", S+"basic.py", S+"bias.py", S+"reshape.py", S+"pool.py", S+"layer_norm.py", S+"group_norm.py", S+"batch_norm.py", S+"moving_averages.py", S+"spectral_norm.py", S+"attention.py", S+"embed.py", S+"recurrent.py", S+"initializers.py", S+"stateful.py", S+"base.py", S+"nets/mlp.py", S+"nets/vqvae.py", S+"nets/resnet.py", S+"nets/mobilenetv1.py"],
 [("constructor signatures and default initializers", S+"conv.py:ConvND.__call__"), ("Linear default w_init", S+"basic.py:Linear.__call__"), ("VarianceScaling defaults", S+"initializers.py:VarianceScaling")], ["constructors and calls of hk.* modules and functions"])
prop("C32", "Misuse is rejected and correct use is not",
 "A call that violates a documented restriction raises an error instead of computing something: functions and modules that need a transform used outside of one (also after a transform returned or raised), inputs of an unsupported rank, numbers outside their range (dropout rates, decays, warmup lengths, scales, spatial dimensions, preserved dimensions), shapes that do not fit (stored or created parameters, masks, per-dimension options, embeddings, biases, transposed output shapes, resets, channel groups), conflicting options (initializers or call arguments for absent or own scales and offsets, MLP bias and dropout keys, replica groups), unknown option values (padding, data format, lookup style, columns), invalid or reused names and scopes, and wrong use of transforms (creating parameters in apply, state in hk.transform, missing or malformed keys, params of the wrong structure, side effects in loop conditions). "
 "A call within the restrictions, boundaries included, is accepted.",
 ["inputs", "configurations", "programs"],
 "All argument values in small ranges around every boundary, all 30 entry points that need a transform in six contexts.",
 "Tests try one offending value per restriction, far from its boundary, and seldom the nearest accepted value.",
 [S+"base.py", S+"module.py", S+"transform.py", S+"stateful.py", S+"basic.py", S+"bias.py", S+"conv.py", S+"pool.py", S+"layer_norm.py", S+"group_norm.py", S+"batch_norm.py", S+"moving_averages.py", S+"spectral_norm.py", S+"embed.py", S+"recurrent.py", S+"initializers.py", S+"reshape.py", S+"utils.py", S+"summarise.py", S+"nets/mlp.py", S+"nets/vqvae.py", S+"nets/resnet.py", S+"nets/mobilenetv1.py"],
 [("assert_context", S+"base.py:assert_context"), ("shape check of get_parameter", S+"base.py:get_parameter"), ("check_mapping", S+"transform.py:check_mapping"), ("replicate", S+"utils.py:replicate"), ("compute_adjusted_padding", S+"conv.py:compute_adjusted_padding")], ["errors raised by hk.* modules and functions"])
prop("C33", "Layers and transforms are differentiable as the functions they document",
 "Differentiating a network with respect to its parameters, states and inputs gives the derivative of the documented function: for convolutions (also with respect to masks, and none through masked weights), pooling, linear, embedding, dropout and reshaping layers, normalisation (through the batch statistics, across replicas and through the moving averages returned or stored), moving averages, recurrent cores, unrolls through all time steps, resets, attention (none through masked positions), and through scan, fori_loop, while_loop, cond, switch, jit, remat, vmap, grad, custom creators and getters, lifted functions and to_module. "
 "Gradients are stopped only where that is documented (straight-through quantisers and spectral normalisation vectors, see C24 and C25, and where the user's hooks do it). Loops that can be differentiated in reverse stay so: scan, the unrolls, cond, switch and remat.",
 ["inputs", "programs", "configurations"],
 "All points, directions (forward mode) and cotangents (reverse mode) at small shapes; points where a maximum is attained twice are excluded for pooling.",
 "Tests look at outputs and hardly at gradients, which can be wrong at every point while each output is right.",
 [S+"conv.py", S+"depthwise_conv.py", S+"basic.py", S+"bias.py", S+"embed.py", S+"pool.py", S+"batch_norm.py", S+"layer_norm.py", S+"group_norm.py", S+"moving_averages.py", S+"recurrent.py", S+"attention.py", S+"stateful.py", S+"lift.py", S+"base.py", S+"reshape.py", S+"nets/mlp.py"],
 [("batch statistics", S+"batch_norm.py:BatchNorm.__call__"), ("unrolls", S+"recurrent.py:static_unroll"), ("scan", S+"stateful.py:scan"), ("masked weights", S+"conv.py:ConvND.__call__")], ["jax.grad, jax.vjp and jax.jvp of transformed functions"])

if __name__ == "__main__":
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
  with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
