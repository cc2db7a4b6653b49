"""Source of properties.jsonl (run tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/fastforward/" + f for f in files],
            "mechanism": [{"name": n, "where": "src/fastforward/" + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": "src/fastforward/" + w} for n, m, w in state]
    P.append(d)


prop(
    "C01",
    "Linear quantization lands every element on its tile's grid",
    "Quantizing a tensor linearly stores, for every element, the integer nearest to value/scale - offset (ties to even) using the scale and offset of the one tile that contains the element, saturated to the signed range of the bit width; dequantizing returns (integer + offset) * scale element for element. Re-quantizing a dequantized tensor reproduces the same integers. This holds for every granularity, shape, bit width, scale, offset and finite or infinite value.",
    ["inputs", "configurations"],
    "All tensors (shape, values, layout), bit widths, per-tensor/channel/block/tile granularities and parameter values, with and without gradient tracking.",
    "The tests use a handful of small shapes and fixed parameters; a wrong tile, rounding direction or clamp bound shows only on particular shape/granularity/value combinations.",
    ["quantization/affine/function.py", "quantization/affine/static.py", "quantization/_quantizer_impl.py", "quantization/tiled_tensor.py", "quantization/granularity.py", "nn/linear_quantizer.py", "quantized_tensor.py"],
    [("quantize_affine / affine quantization function", "quantization/affine/function.py"), ("tiled quantize/dequantize kernels", "quantization/_quantizer_impl.py")],
    ["QuantizedTensor.raw_data", "QuantizedTensor.dequantize()", "LinearQuantizer.__call__"],
)
prop(
    "C02",
    "Tilings partition a tensor and row views are lossless",
    "A granularity splits every compatible tensor into equally shaped tiles so that each element belongs to exactly one tile, the number of tiles equals the number of quantization parameters it asks for, and incompatible shapes are rejected. Converting a tensor to its row-per-tile view and back is the identity, and the rows follow the row-major order of tiles. Describing a tile size as a granularity and expanding it again yields the same tiling.",
    ["inputs", "configurations"],
    "All shapes up to 5 dimensions, all tile shapes, all granularity classes.",
    "Tests enumerate a few shape/tile pairs; permutation errors cancel on symmetric shapes and only appear with particular mixed dimensions.",
    ["quantization/tiled_tensor.py", "quantization/granularity.py"],
    [("tiles_to_rows / rows_to_tiles", "quantization/tiled_tensor.py"), ("Granularity.tile_size", "quantization/granularity.py")],
)
prop(
    "C03",
    "Range-to-parameter conversion always yields a usable, covering grid",
    "For every finite range, deriving quantization parameters gives finite offsets and strictly positive finite scales whose grid covers the range up to half a step and is not needlessly wide (the tightest grid of the requested kind); for symmetric settings and for ranges that contain zero, zero is exactly representable, and symmetric parameters have no offset. Setting a quantizer's range and reading it back describes a grid that covers the range set, and quantizers with data-dependent parameters cover each tile of the data they are given without clipping by more than half a step.",
    ["inputs", "configurations"],
    "All ranges (degenerate, one-sided, tiny, huge), bit widths, symmetric/asymmetric/one-sided settings, all data for dynamic quantization, per tile.",
    "Tests sample a few well behaved ranges; degenerate all-zero, one-sided or mixed per-channel ranges are where scale 0, NaN or silent clipping appear.",
    ["quantization/affine/range.py", "quantization/affine/dynamic.py", "nn/linear_quantizer.py", "nn/dynamic_linear_quantizer.py"],
    [("parameters_for_range / quantization_range", "quantization/affine/range.py"), ("dynamic quantization", "quantization/affine/dynamic.py")],
)
prop(
    "C04",
    "Integers are never silently wrapped by their storage type",
    "Whatever storage type is requested for quantized data, quantization either refuses the combination of bit width and storage type or stores exactly the same integers as unrestricted storage would; combinations that fit are accepted. Retrieving the integer representation and dequantizing agree with those integers for every storage type and dequantization type.",
    ["configurations", "inputs"],
    "All bit widths 2..16 crossed with integer and floating storage types, all granularities, all values.",
    "Tests check two or three storage types with fixed bit widths; wrap-around needs a bit width just above what the type holds and values at the edge.",
    ["quantization/_quantizer_impl.py", "quantization/affine/static.py", "quantization/affine/function.py", "common.py", "quantized_tensor.py"],
    [("storage type capacity check", "quantization/_quantizer_impl.py")],
)
prop(
    "C05",
    "Quantizer gradients are the straight-through/learned-step gradients",
    "Back-propagating through quantize-dequantize gives each in-range element the incoming gradient and each saturated element zero; gradients of scale and offset equal the per-tile sum of the straight-through derivative of (clamp(round(x/scale - offset)) + offset) * scale. Quantizers whose parameters are derived from the data pass the incoming gradient through unchanged. Gradients are independent of how the tensor is tiled internally, and are accumulated for every element exactly once.",
    ["inputs", "configurations"],
    "All tensors, granularities, bit widths, parameter values away from saturation boundaries; static and dynamic quantizers; any incoming gradient.",
    "Tests compare with a few fixed tensors; mis-assignment of a gradient to another tile or at one saturation bound needs specific layouts.",
    ["quantization/affine/_autograd.py", "quantization/affine/function.py", "quantization/ste.py", "quantization/_quantizer_impl.py"],
    [("autograd function", "quantization/affine/_autograd.py"), ("straight-through helpers", "quantization/ste.py")],
)
prop(
    "C06",
    "Operating modes never change what a quantizer computes",
    "A quantizer, functional operator or module computes the same numbers whether or not gradients are tracked, the quantizer was moved, copied or re-created from its configuration, or export mode is active; only representation (quantized wrapper versus plain tensor) may differ. In export mode the result equals the dequantized eager result.",
    ["configurations", "inputs"],
    "All quantizer configurations and inputs, under grad/no-grad/inference mode, export mode, and traced export programs.",
    "Tests exercise one configuration per mode; differential agreement across the cross product is not sampled.",
    ["quantization/affine/function.py", "quantization/_quantizer_impl.py", "flags.py", "nn/linear_quantizer.py", "export/export.py"],
    [("export quantization path", "quantization/affine/function.py"), ("mode flags", "flags.py")],
)
prop(
    "C07",
    "Tensor operations on quantized tensors equal the same operation on values",
    "Every indexing, reshaping, permuting, joining, expanding, selecting or scaling operation accepted on a quantized tensor, when it returns a result, returns exactly what the operation yields on the dequantized tensors; when it returns a quantized tensor, further dequantization and integer representation agree with that. The inputs are left unchanged.",
    ["inputs", "programs"],
    "All shapes, granularities, parameter values (including negative scales), index expressions, and sequences of such operations.",
    "Tests check single operations on a few per-tensor inputs; per-channel bookkeeping errors only appear for particular axes, sign or operation sequences.",
    ["quantization/_linear_quantized_ops.py", "quantized_tensor.py", "dispatcher.py"],
    [("linear quantized op kernels", "quantization/_linear_quantized_ops.py"), ("torch function handling", "quantized_tensor.py")],
)
prop(
    "C08",
    "Quantized functional operators are the float operator between quantizers",
    "Every operator of the quantized functional library, called with any mix of quantized and float inputs in any calling style, returns the output quantizer applied exactly once to the float operator's result on the dequantized inputs, and leaves its inputs unchanged. Under strict quantization a missing output quantizer or an unquantized input raises instead of silently computing; outside of it a missing output quantizer returns the float result.",
    ["inputs", "configurations", "programs"],
    "All operators of the operator table, argument styles (positional/keyword/defaulted), quantized/float mixes, strictness settings.",
    "Generated operators are tested for a few representatives; an argument dropped or swapped in one of ~50 generated wrappers, or a default that differs, is not sampled.",
    ["_gen/fallback.py", "_gen/operators.py", "nn/functional/__init__.py", "dispatcher.py", "_quantops/generate.py"],
    [("generated fallbacks", "_gen/fallback.py"), ("generated dispatching operators", "_gen/operators.py")],
)
prop(
    "C09",
    "Strict quantization never dequantizes implicitly and its scope is exact",
    "While strict quantization is on, using a quantized tensor in any torch operation (any function that torch lets a tensor subclass intercept) that has no quantized implementation raises, and never yields a float result silently; while it is off, the result equals the operation on the dequantized tensor. The setting, global or per module, holds exactly for the dynamic extent it was requested for, nests, and is restored when that extent ends, normally or by an exception.",
    ["programs", "histories", "fault_sequences"],
    "All torch functions/methods over quantized tensors; all nestings and exception exits of global and per-module strictness scopes.",
    "Tests check one or two ops and un-nested normal exits; leaks after exceptions or recursion need multi-step histories.",
    ["quantized_tensor.py", "flags.py", "quantization/strict_quantization.py"],
    [("torch function interception", "quantized_tensor.py"), ("strict_quantization_for_module hooks", "quantization/strict_quantization.py"), ("flag context manager", "flags.py")],
)
prop(
    "C10",
    "Dispatch picks the latest matching live registration, else the fallback",
    "An operator call is served by the most recently registered implementation that is still registered and whose predicate accepts exactly the call's arguments, and by the fallback when there is none. For every operator of the functional library, predicate and implementation receive everything the call bound, defaults included. Predicates combine as boolean connectives, removing a registration affects no other, and a scoped registration ends with its scope.",
    ["histories"],
    "All interleavings of register/unregister/scoped registration/calls over several operators and overlapping predicates.",
    "Tests register one or two kernels; priority and removal errors need longer histories with duplicates and overlapping predicates.",
    ["dispatcher.py"],
    [("dispatch registry", "dispatcher.py")],
)
prop(
    "C11",
    "Temporary interventions stack correctly and are fully reverted",
    "Overrides on quantizers are applied innermost-last-registered-first, each receiving the next one as its continuation, and removing any of them in any order leaves the others intact. Every scoped intervention (disabling quantization, freezing parameters, overriding, range estimation, recording) leaves the model computing exactly what it computed before once its scope ends, normally or by an exception. Freezing parameters permanently keeps the model's outputs and its activation quantizers.",
    ["histories", "fault_sequences"],
    "All interleavings of adding/removing overrides and of nested scopes with exceptions at any point.",
    "Tests use one override at a time and leave scopes normally.",
    ["forward_override.py", "overrides.py", "quantization/freeze.py", "nn/quantizer.py", "range_setting/common.py", "quantization/random.py"],
    [("override map", "forward_override.py"), ("scoped helpers", "overrides.py"), ("freeze", "quantization/freeze.py")],
)
prop(
    "C12",
    "Quantization state survives saving and loading",
    "Saving a model's quantization state and loading it into a freshly built model makes every covered quantizer produce bit-identical results to the original, including quantizers that share parameters or modules, were not yet initialised, or carry non-default settings; uncovered parts of the target are untouched. Weights that are views of one storage are restored exactly or refused. A mismatch between state and model is reported and never applied partially without being asked for.",
    ["configurations", "histories"],
    "All models (nested, tied, partially quantized) whose module names are not ambiguous under the format's separator, all quantizer kinds and settings, all load options, repeated save/load.",
    "Tests round-trip a few models; aliasing, lazily initialised and partial states combine into cases not sampled.",
    ["quantization/save_load.py", "serialization.py", "nn/quantizer.py"],
    [("save/load of quantization state", "quantization/save_load.py"), ("yaml serialization", "serialization.py")],
)
prop(
    "C13",
    "Copies, moves and pickles of quantized tensors and modules are faithful",
    "Cloning, detaching, deep-copying, pickling, saving, moving or casting a quantized tensor or a quantized module yields an object with the same values and quantization parameters (up to the requested cast), with the aliasing the operation promises: clones and copies never share storage with the original, detach does. Using the copy never changes the original.",
    ["inputs", "histories"],
    "All quantized tensors and modules, all sequences of copy/move operations followed by mutation of one side.",
    "Tests check single operations; aliasing shows only after mutating one side later.",
    ["quantized_tensor.py", "nn/quantizer.py", "nn/linear_quantizer.py", "forward_override.py"],
    [("clone/detach/deepcopy/to", "quantized_tensor.py")],
)
prop(
    "C14",
    "Converting a model to quantized modules preserves the model",
    "Converting any module tree replaces every convertible module by its quantized counterpart while keeping parameters, buffers, hooks, names, sharing, training mode and attributes, and with placeholder quantizers the outputs are bit-identical to before (in-place activations become out-of-place). If the tree contains a module type without a conversion, the conversion raises and the model is left as it was; excluded subtrees are untouched. Every quantizer of the converted model is enumerated once, under its true name. The weight, bias, input and output quantizers of the converted library modules carry the role their name says, which is what quantizer queries select by.",
    ["programs", "inputs", "fault_sequences"],
    "All module trees built from supported modules (shared, nested, containers), all exclusion options, failing conversions at any position.",
    "Tests convert a few small models; shared submodules, partial failure and less-used layers are not covered in combination.",
    ["nn/quantized_module.py", "nn/linear.py", "nn/conv.py", "nn/normalization.py", "nn/embedding.py", "nn/activations.py", "nn/container.py"],
    [("quantize_model / module conversion", "nn/quantized_module.py")],
)
prop(
    "C15",
    "Quantized layers equal the float layer between their quantizers",
    "Every quantized layer computes its output quantizer applied to the float layer evaluated on its quantized input, weight and bias, each quantizer being consulted exactly once per forward with the tensor it is named for. With all quantizers being placeholders the layer equals the float layer, for every layer option. Under strict quantization a layer refuses operands that are not quantized instead of computing silently.",
    ["configurations", "inputs"],
    "All quantized layers, all layer options (bias, stride, padding mode, groups, eps, affine, padding index, dims), all quantizer assignments.",
    "Tests cover each layer with default options; option plumbing errors need the specific option.",
    ["nn/linear.py", "nn/conv.py", "nn/normalization.py", "nn/embedding.py", "nn/activations.py", "nn/functional/__init__.py"],
    [("quantized module forwards", "nn/conv.py")],
)
prop(
    "C16",
    "Calibrated ranges are those of the data seen",
    "After range estimation each quantizer's parameters are exactly those implied by its estimator over all and only the batches seen inside the scope: extreme values for min-max, the documented recurrence for running averages (started from the quantizer's current range if it has one), and a grid-search choice whose error no other candidate beats for error minimisation. Min-max results do not depend on batch order or how data is split into batches, and quantizers outside of the selection are untouched.",
    ["histories", "inputs", "configurations"],
    "All batch sequences, granularities, bit widths, estimator options, selections of quantizers, enabling/disabling of quantization while estimating.",
    "Tests use one or two batches and per-tensor settings.",
    ["range_setting/common.py", "range_setting/minmax.py", "range_setting/min_error.py"],
    [("estimate_ranges", "range_setting/common.py"), ("min-max estimators", "range_setting/minmax.py"), ("grid search", "range_setting/min_error.py")],
)
prop(
    "C17",
    "Quantizer initialisation follows the configured rules exactly",
    "Initialising quantizers from a rule list assigns to every quantizer selected by at least one rule the configuration resulting from the rules that select it with the documented precedence, once, and leaves every other quantizer untouched; conflicting overwrites are handled as the chosen policy says; under the policy that forbids overwriting it raises and no initialised quantizer is replaced. The report of what was initialised matches the model afterwards, also when initialisation fails midway.",
    ["configurations", "programs"],
    "All rule lists (overlapping, empty, callable and class based), all models whose quantizers are registered at a single position, all overwrite policies, repeated initialisation.",
    "Tests use disjoint or two-rule lists on small models.",
    ["quantization/quant_init.py", "mpath/_search.py", "nn/quantizer.py"],
    [("QuantizationConfig.initialize", "quantization/quant_init.py")],
)
prop(
    "C18",
    "Module queries select exactly the modules their pattern denotes",
    "Evaluating a query on a model returns exactly the named modules whose path and attributes match the pattern's meaning (names, wildcards, multi-level wildcards, regular expressions, alternatives, classes and quantizer-tag conditions), each once, with its true name. The search always terminates. Parsing a printed query gives an equivalent query, and combining result sets by union, intersection, difference and symmetric difference behaves as set algebra over the named modules.",
    ["inputs", "programs"],
    "All queries of the grammar over all module trees (including shared modules).",
    "Tests check tens of fixed patterns on one model; backtracking with several multi-level wildcards and alternatives is not enumerated.",
    ["mpath/_search.py", "mpath/_parser.py", "mpath/selector.py", "mpath/fragments.py", "mpath/__init__.py", "nn/quantizer.py"],
    [("search", "mpath/_search.py"), ("parser", "mpath/_parser.py"), ("selector algebra", "mpath/selector.py")],
)
prop(
    "C19",
    "Rounding-error compensated weights stay valid and beat plain rounding",
    "Weight optimisation (GPTQ) with a calibration set re-estimates the weight quantizer and rounds the weights column by column, each to the nearest grid value of its error-compensated value, with group parameters covering the group's compensated weights. Every weight ends up on its quantizer's grid (re-quantizing changes nothing), in aggregate the layer-output error on the calibration data is below that of plain rounding, and only the weight and its quantizer's parameters change: calibration data and other parameters and modules are unchanged. Results do not depend on how the calibration set is split into batches.",
    ["inputs", "configurations"],
    "All layer shapes, granularities, block sizes, ordering options, calibration sets.",
    "Tests check small single-batch cases; data mutation, batch splitting and mixed granularity are not sampled.",
    ["quantization/gptq.py", "_orchestration/registry.py"],
    [("GPTQ update", "quantization/gptq.py")],
)
prop(
    "C20",
    "Quantized attention equals the reference attention",
    "With placeholder quantizers and the default masking value, the quantization-aware attention equals the framework's scaled-dot-product attention for every combination of shapes, boolean or additive masks, causality, scale (of either sign) and grouped heads, also for fully masked queries, and its gradients are finite where those of the framework are; with quantizers each intermediate result passes exactly once, in order, through the quantizer named for it, and the output is what the output quantizer returned. Numbers do not depend on batch layout and inputs are unchanged.",
    ["inputs", "configurations"],
    "All shapes, masks, scaling, grouped-query settings, quantizer subsets, strictness settings.",
    "Tests compare a few fixed shapes; mask/broadcast/grouping combinations are not sampled.",
    ["nn/functional/custom/sdpa.py"],
    [("decomposed attention", "nn/functional/custom/sdpa.py")],
)
prop(
    "C21",
    "Traced module graphs execute like the model",
    "Executing the graph captured from a model gives the model's outputs for all inputs of the captured structure and shapes (a list of inputs is a sequence of batches), also after composing, extracting, inlining or coarsening sub-graphs; every node whose value is needed runs exactly once per batch and only after its inputs. Structurally invalid graphs, and models whose capture cannot be expressed, are rejected.",
    ["programs", "inputs"],
    "All acyclic module compositions with fan-out, shared modules, nested outputs and keyword inputs; all sub-graph cuts.",
    "Tests trace a few hand-written models; naming collisions, sharing, multiple outputs and cut positions combine.",
    ["_orchestration/graph_module.py", "_orchestration/trace.py", "_orchestration/data_flow.py"],
    [("graph module", "_orchestration/graph_module.py"), ("tracing", "_orchestration/trace.py")],
)
prop(
    "C22",
    "Layer-wise execution delivers the right activations and frees them on time",
    "Layer-by-layer optimisation calls the optimiser once per target in dependency order with exactly the activations the partially optimised model produces at that point, for every batch and execution context; the model ends as if it had been optimised layer by layer by re-running it. Exactly the registered, overridden or explicitly given targets are optimised, by the algorithm as given (with its bound arguments). No activation is read after it was released; without gradient tracking each one is gone once its last user is done. Off-loading moves only placement, never values: every call finds its weights and inputs on the compute device, and after the run each weight is on its original device.",
    ["schedules", "programs", "histories"],
    "All graphs, target sets, batch counts, execution contexts, resolutions and off-loading settings.",
    "Tests run a few two-layer models; lifetime and ordering errors need fan-out/fan-in graphs with several contexts.",
    ["_orchestration/instruction_engine.py", "_orchestration/scheduler.py", "_orchestration/registry.py", "_orchestration/data_flow.py", "orchestration.py"],
    [("instruction engine", "_orchestration/instruction_engine.py"), ("scheduler", "_orchestration/scheduler.py")],
)
prop(
    "C23",
    "Exported encodings describe exactly the quantizers of the model",
    "For every exported model, the encoding emitted for each activation and parameter decodes under the rules of the chosen schema version to exactly the scale, offset, bit width, symmetry and axis of the quantizer that produced that tensor, for every granularity the schema supports; unsupported configurations are refused. Every tensor of the exported graph that a quantizer of the model produced, and every quantized parameter, has an encoding, and none gets another tensor's. (Where the ONNX exporter merges tensors, the merged tensor has the encoding of one of them.)",
    ["programs", "configurations"],
    "All small models (branches, views, shared quantizers), quantizer settings (bits, symmetry, granularity), all schema versions.",
    "Tests compare stored encodings for a few models.",
    ["export/_export_schemas.py", "export/stages/onnx/onnx_export_stages.py", "export/stages/passes.py", "export/stages/base_pipeline_stages.py", "export/_lpbq.py", "export/_onnx_helpers.py"],
    [("encoding schemas", "export/_export_schemas.py"), ("spec propagation", "export/stages/passes.py")],
)
prop(
    "C24",
    "Exported runtime graphs compute what the quantized model computes",
    "Running the exported quantize/dequantize graph in a standard runtime gives the eager quantized model's outputs, up to float rounding and the way ties are rounded (one quantization step on elements at a tie), with quantize/dequantize pairs placed exactly where the model quantizes and carrying the quantizers' scales, zero points, bit widths and axes. Quantizers that such a pair cannot represent are refused. Input and output names and order are those requested.",
    ["programs", "configurations", "inputs"],
    "All small models built from supported layers, quantizer settings the format supports, random inputs.",
    "Tests inspect structure for fixed models; numeric agreement across granularity/bit width/model shape is not sampled.",
    ["export/stages/onnx/onnx_qdq_export_stages.py", "export/stages/onnx/onnx_export_stages.py", "export/pipeline/qnn_onnx_qdq_pipeline.py", "export/_onnx_helpers.py"],
    [("QDQ insertion", "export/stages/onnx/onnx_qdq_export_stages.py")],
)
prop(
    "C25",
    "Block-packed model files decode to the model's quantized weights",
    "Decoding the packed blocks of an exported model file with the format's own reference decoder yields the model's quantized weights, code times scale with the scales rounded to half precision, tensor by tensor under the mapped names and shapes, with rows in the order that the target architecture requires (Q8_0 stores the code -128, which the format's own quantizer does not use, as -127); unquantized tensors are stored unchanged in the requested float type. Quantizers and scales that the format cannot represent are refused, never approximated silently, and no tensor is lost.",
    ["inputs", "configurations"],
    "All weights, scales, shapes, supported formats and incompatible quantizer settings.",
    "Tests pack a few blocks and compare bytes.",
    ["export/stages/gguf/_packing.py", "export/stages/gguf/_extract.py", "export/stages/gguf/gguf_export_stages.py", "export/stages/gguf/adapter.py", "export/stages/gguf/_arch.py"],
    [("block packing", "export/stages/gguf/_packing.py"), ("extraction", "export/stages/gguf/_extract.py")],
)
prop(
    "C26",
    "Export pipelines run every stage once, in dependency order, with its inputs",
    "A pipeline executes each registered stage exactly once, after all stages it depends on, passing it their outputs in declared order, for every graph built by any sequence of additions, removals, insertions and replacements; cycles and unknown references are rejected and leave the pipeline unchanged. A failing stage stops its dependents.",
    ["histories", "programs", "fault_sequences"],
    "All sequences of pipeline edits and runs, with stages failing at any position.",
    "Tests edit short linear pipelines.",
    ["export/pipeline/core.py", "export/pipeline/orchestrator.py", "export/pipeline/registry.py"],
    [("pipeline DAG", "export/pipeline/core.py"), ("orchestrator", "export/pipeline/orchestrator.py")],
)
prop(
    "C27",
    "Module input/output capture records exactly what each module saw",
    "A recorder attached to a module holds, after a run, exactly what the module got and returned in its last completed call: positional and keyword arguments in their structure and outputs flattened in order, quantized tensors dequantized together with their quantization parameters, unaffected by anything that happens to the data during or after the call; the run itself is as without recorders. Exporting modules stores both recorded runs (quantization off and on) and writes, for each tensor input and output of a module's graph, the encoding of the quantizer of the tensor found there and none for tensors that are not quantized. Hooks, quantizers, data and the encodings handler are left as before, also when the run or an export fails.",
    ["programs", "histories", "fault_sequences"],
    "All modules and call styles (positional/keyword/nested), repeated calls, failures during the run.",
    "Tests capture simple single-input modules.",
    ["export/_io_capture.py", "export/module_export.py"],
    [("recorders", "export/_io_capture.py"), ("module export", "export/module_export.py")],
)
prop(
    "C28",
    "Fusing quantized weights keeps the network's numbers",
    "Replacing weights by their quantized values (fuse_qdq_weights, with or without stubs, and the export stage that uses it) leaves the model's outputs bit-identical on every input and is idempotent; fused weights are exactly the values that their quantizers produce, with dtype, layout, identity and every other parameter, buffer, module and quantizer untouched, and stubs keep the metadata of the quantizer they replace. Weights of disabled quantizers are left alone. If two uses of one element of a tied, shared or aliased weight need different values, fusing is refused and nothing changes; otherwise it is not refused.",
    ["inputs", "programs"],
    "All models and quantizer arrangements (tied, viewed, shared, stubbed, disabled), all dtypes, all inputs.",
    "Tests fuse a few single layers.",
    ["quantization/fuse.py", "export/stages/base_pipeline_stages.py"],
    [("fuse", "quantization/fuse.py"), ("stage", "export/stages/base_pipeline_stages.py")],
)
prop(
    "C29",
    "Automatic source conversion preserves program meaning",
    "The quantized module class that autoquantize generates from the source of a module computes, with placeholder quantizers, exactly the outputs, exceptions and side effects of the original for every input (a number divided by a tensor: up to float rounding): control flow (if, for, while, try, match, with; break, continue, return and raise anywhere), comprehensions, generators, lambdas, closures, walrus, starred and augmented assignment, containers, helper functions and methods keep their meaning, and each operator is executed as often as in the original, also if a value changes between two uses of the same expression. Each operator of the table that a method's statements apply to a tensor, as a function of torch or an arithmetic expression, is converted, also if other operands are numbers. Every operand that the operator table marks as quantized passes a quantizer before it reaches a converted operator on every path, whichever assignment it comes from, and the result of each converted operator has a quantizer that no other call site uses, with separate ones per call of a helper. Conversion terminates with valid code, is deterministic, modifies neither the model nor its sources, and writes only where asked; existing files are only overwritten on request.",
    ["programs", "inputs"],
    "Modules in the supported language subset (no else on loops, no operators with several outputs), converted without type inference; operands that are plain calls of unconverted functions and parameters of lambdas get no quantizer, and arithmetic on Python numbers is converted to tensor operators.",
    "Tests compare generated text for fixed snippets; they do not run generated code on generated programs.",
    ["_autoquant/autoquant.py", "_autoquant/convert.py", "_autoquant/cst/passes.py", "_autoquant/cst/quantizer_analysis/transformer.py", "_autoquant/cst/quantizer_analysis/annotator.py", "_autoquant/pybuilder/builder.py", "_quantops/optable.py"],
    [("conversion passes", "_autoquant/cst/passes.py"), ("quantizer insertion", "_autoquant/cst/quantizer_analysis/transformer.py")],
)
