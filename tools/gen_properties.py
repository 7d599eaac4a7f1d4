#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
K = "lib/src/kernels/"
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

INP = ["inputs", "configurations"]
prop("C01", "Standard 2D convolution computes exactly the documented sum for any geometry",
 "For every supported input shape, kernel size, stride, dilation, padding, element format and quantisation, a 2D convolution produces, for every output position and channel, exactly the integer dot product of the dilated receptive field (out-of-image positions contributing zero) plus bias, requantised, rounded in the built rounding mode, saturated and clipped by the chosen ReLU. Every kernel-size-specialised entry point gives the same bytes as the generic one on the geometries it accepts.",
 INP, "all small geometries (image, kernel, stride, dilation, four paddings), formats fx16 / fx16-fx8 / sa8 per-tensor and per-axis, fused ReLU kinds, fractional-bit combinations and the build configurations",
 "A handful of fixed geometries with an SNR threshold are tested; border/dilation/padding/stride combinations and rounding-mode corners are combinatorial and an SNR limit hides single wrong border elements.",
 [K+"convolution/impl/mli_krn_convolution_ref.h", K+"convolution/mli_krn_conv2d_hwcn.cc", "lib/src/bricks/impl/mli_prv_quant_ref.h", "lib/src/bricks/impl/mli_krn_dotprod_ref.h"],
 [("convolution2D / conv2d_prepare_and_run", K+"convolution/impl/mli_krn_convolution_ref.h"), ("requantisation", "lib/src/bricks/impl/mli_prv_quant_ref.h")],
 ["mli_krn_conv2d_hwcn_*"])
prop("C02", "Depthwise convolution is exact per channel",
 "For every supported geometry, dilation, padding, channel count and format, a depthwise convolution output channel equals exactly the convolution of its own input channel with its own 2D filter plus bias, requantised, rounded, saturated and clipped; no other input channel influences it. Kernel-size-specialised entry points agree with the generic one.",
 INP, "all small geometries, channel counts, formats (incl. per-channel quantisation), ReLU kinds, build configurations",
 "Tests use few shapes and SNR limits; channel-mapping errors at particular channel counts and borders are not reached.",
 [K+"convolution/impl/mli_krn_convolution_ref.h", K+"convolution/mli_krn_depthwise_conv2d_hwcn.cc"],
 [("depthwise_convolution2D", K+"convolution/impl/mli_krn_convolution_ref.h")], ["mli_krn_depthwise_conv2d_hwcn_*"])
prop("C03", "Group convolution equals independent convolutions over its channel groups",
 "For every number of groups dividing the channels, a group convolution gives exactly, for each group, the standard convolution of that group's input channels with that group's filters, biases and quantisation parameters, written to that group's output channels only. One group is a standard convolution, and as many groups as channels is a depthwise one.",
 INP, "all small geometries x group counts x filters per group x formats x ReLU kinds x build configurations",
 "Tests only have few group counts; offsets of weights, bias and per-axis scales in group g are products of several parameters.",
 [K+"convolution/impl/mli_krn_group_conv2d_ref.h", K+"convolution/mli_krn_group_conv2d_hwcn.cc"],
 [("group_convolution2D", K+"convolution/impl/mli_krn_group_conv2d_ref.h")], ["mli_krn_group_conv2d_hwcn_*"])
prop("C04", "Transposed convolution is exact for every stride, kernel and cropping",
 "For every supported geometry a transposed convolution output element equals exactly the sum over all input elements whose stride-scattered filter footprint covers it (after removing the configured padding), plus bias, requantised, rounded, saturated and clipped. Specialised kernel/stride entry points agree with the generic one.",
 INP, "all small input sizes, kernels, strides, paddings, channels, formats, ReLU kinds, build configurations",
 "The effective padding, stride phase and kernel alignment interact; tests sample a few combinations with SNR limits.",
 [K+"convolution/impl/mli_krn_transpose_conv_ref.h", K+"convolution/mli_krn_transpose_conv2d_hwcn.cc"],
 [("transpose_conv2d_prepare_and_run", K+"convolution/impl/mli_krn_transpose_conv_ref.h")], ["mli_krn_transpose_conv2d_hwcn_*"])
prop("C05", "Fully connected and RNN-dense layers compute exact requantised dot products",
 "For every input size, output size, memory stride, format and quantisation, a fully connected output equals exactly the requantised, rounded, saturated and clipped dot product of the flattened input with its weight column plus bias, and the variant with externally pre-compensated bias gives the same bytes as the normal one. An RNN dense output equals exactly the sum of the requantised products of each of its inputs with its own weights plus one bias.",
 INP, "all small shapes, numbers of inputs, formats, fractional bits / scales / zero points, ReLU kinds, build configurations",
 "Fixed shapes and one quantisation each in tests; overflow, rounding and per-axis paths need particular values.",
 [K+"common/impl/mli_krn_fully_connected_ref.h", K+"common/mli_krn_rnn_dense.h", "lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h"],
 [("fully_connected_prepare_and_run", K+"common/impl/mli_krn_fully_connected_ref.h"), ("rnn_dense_op_stacked", "lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h")],
 ["mli_krn_fully_connected_*", "mli_krn_rnn_dense_*"])
prop("C06", "Max and average pooling use exactly the in-image part of every window",
 "For every image, window, stride and padding, each pooled output is exactly the maximum (or the rounded average over the number of valid elements) of the elements of its window that lie inside the image, per channel. Specialised window entry points agree with the generic one and the output shape and quantisation parameters follow from the input and configuration.",
 INP, "all small images, windows, strides, four paddings, channel counts, formats, value patterns, build configurations",
 "Borders where the window is cut on two sides and reciprocal-multiplication rounding for each divisor are only sampled by tests.",
 [K+"pooling/mli_krn_pool_hwc.h", K+"pooling/impl/mli_krn_avepool_hwc_ref.h", "lib/src/bricks/impl/mli_krn_reduce_max2d_ref.h", "lib/src/bricks/impl/mli_krn_reduce_sum2d_ref.h"],
 [("mli_krn_pool_hwc", K+"pooling/mli_krn_pool_hwc.h")], ["mli_krn_maxpool_hwc_*", "mli_krn_avepool_hwc_*"])
prop("C07", "Element-wise add, sub, mul, min, max are exact, with scalar broadcasting",
 "For every pair of operand values, formats, quantisation parameters and shapes, each element-wise operator yields exactly the correctly rescaled, rounded and saturated result of the two corresponding elements. A single-element operand on either side is broadcast against every element of the other, and operand order matters only where the mathematics says so.",
 INP, "all 8-bit operand pairs and boundary 16-bit pairs, quantisation alphabets, ranks 1-4, scalar on left / right / both, build configurations",
 "There are 65536 operand pairs per quantisation; tests take one random tensor per operator.",
 [K+"eltwise/impl/mli_krn_eltwise_ref.h"],
 [("eltwise_op / eltwise_prepare_and_run", K+"eltwise/impl/mli_krn_eltwise_ref.h")], ["mli_krn_eltwise_*"])
prop("C08", "ReLU, leaky ReLU and PReLU are exact for every value, slope and layout",
 "Every ReLU variant clips each element exactly to the real interval it denotes in the tensor's own quantisation, and leaky/parametric ReLU keep non-negative elements and scale negative ones by the (per-axis) slope with exact rounding and saturation (for ratios of scales within the range of the 16-bit scale format). For parametric ReLU the slope applied is the one at the element's index along the chosen axis, for every axis and rank.",
 INP, "all 8-bit values, boundary 16-bit values, slopes, zero points, scales, ranks, axes, build configurations",
 "Values x slopes x quantisation is a product space; tests use one tensor per kernel.",
 [K+"transform/impl/mli_krn_relu_ref.h", K+"transform/impl/mli_krn_leaky_relu_ref.h", K+"transform/impl/mli_krn_prelu_ref.h"],
 [("relu/leaky/prelu", K+"transform/impl")], ["mli_krn_relu_*", "mli_krn_leaky_relu_*", "mli_krn_prelu_*"])
prop("C09", "Sigmoid and tanh are monotonic and accurate for every input value",
 "For every input value of every format, fractional-bit setting or scale and zero point, sigmoid and tanh return the true function value in the fixed output quantisation to within a small fixed error, never leave the function's range, never decrease as the input grows by more than one output quantum at the saturated ends, and depend only on the element itself: the result is the linear interpolation of the created table. The output quantisation parameters are the documented ones and the lookup table built at run time serves every format.",
 INP, "all 256 8-bit values and all 65536 16-bit values for every fractional-bit setting / scale, every build configuration",
 "Interpolation and saturation corners occur at isolated input codes that a small random tensor with SNR limits misses.",
 ["lib/src/bricks/impl/mli_prv_lut_ref.h", "lib/src/private/src/mli_prv_activation_lut.cc", K+"transform/mli_krn_sigm_fx.cc", K+"transform/mli_krn_tanh_fx.cc"],
 [("activation_lut", "lib/src/bricks/impl/mli_prv_lut_ref.h")], ["mli_krn_sigm_*", "mli_krn_tanh_*"])
prop("C10", "Softmax and L2 normalisation normalise each slice correctly",
 "Along the configured axis (or over the whole tensor) softmax returns values within a small error of the true softmax, ordered like its inputs, and L2 normalisation returns each element divided by the Euclidean norm of its slice within a small error, with elements of other slices having no influence. The error is bounded by the resolution of the 16-bit lookup table (one table quantum per summed element for softmax). An all-zero slice, extreme magnitudes, slices of any length and every axis, rank and documented format (fx16, sa8) are handled without overflow.",
 INP, "all value tuples over a boundary alphabet, slice lengths, axes, ranks, formats and scales, build configurations",
 "Normalisation shifts depend on the data's magnitude class; tests reach one or two.",
 [K+"transform/impl/mli_krn_softmax_ref.h", K+"transform/impl/mli_krn_l2_normalize_ref.h"],
 [("softmax_prepare_and_run", K+"transform/impl/mli_krn_softmax_ref.h"), ("l2_normalize", K+"transform/impl/mli_krn_l2_normalize_ref.h")],
 ["mli_krn_softmax_*", "mli_krn_l2_normalize_*"])
prop("C11", "Argmax returns the indices of the top-k elements of each slice",
 "For every tensor, axis and k, argmax returns for each slice along the axis (or the whole tensor) the positions of its k largest elements, in decreasing order of value, each position at most once. A returned index is the position of the element in the linear memory of the input, so memory strides are already taken into account; only the output elements and quantisation parameters are modified.",
 INP, "all tensors over a small value alphabet (including ties and extremes), ranks, axes, k, formats",
 "Order-dependent selection with ties and k close to the slice size cannot be settled by single random tensors.",
 [K+"diverse/impl/mli_krn_argmax_ref.h"], [("argmax", K+"diverse/impl/mli_krn_argmax_ref.h")], ["mli_krn_argmax_*"])
prop("C12", "Permute reorders axes without altering any element",
 "For every tensor and every permutation of its axes, the output has the permuted shape and per-axis quantisation and each element moves, unchanged, to the permuted coordinates, whatever the memory strides of source and destination. Applying the inverse permutation restores the original tensor.",
 INP, "all ranks, all permutations, all small shapes, all element types, padded memory layouts",
 "24 permutations x shapes x strides; tests sample a few.",
 [K+"diverse/impl/mli_krn_permute_ref.h"], [("permute", K+"diverse/impl/mli_krn_permute_ref.h")], ["mli_krn_permute_*"])
prop("C13", "LSTM and GRU runs compose over time and honour direction and result mode",
 "For cells whose state tensors share the output's quantisation, running a recurrent cell over a sequence gives exactly the same outputs and final state as running its steps in consecutive shorter calls that carry the state, in every split. Last-step mode returns exactly the last step of all-steps mode, backward processing equals forward processing of the reversed sequence, and every step follows the documented gate equations within a small error.",
 ["inputs", "histories", "configurations"], "all splits of short sequences, input/hidden sizes, formats, activations, directions, result modes and quantisations",
 "The property relates whole call histories; tests check single calls with SNR limits.",
 [K+"common/impl/mli_krn_lstm_cell_ref.h", K+"common/impl/mli_krn_gru_cell_ref.h", "lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h"],
 [("lstm_cell_prepare_and_run", K+"common/impl/mli_krn_lstm_cell_ref.h"), ("gru_cell_prepare_and_run", K+"common/impl/mli_krn_gru_cell_ref.h")],
 ["mli_krn_lstm_cell_*", "mli_krn_gru_cell_*"],
 [("cell / prev_out tensors", "recurrent state carried between calls", "include/api/mli_kernels_api.h")])
prop("C14", "Data movement places exactly the configured elements and nothing else",
 "For every configuration of offset, size, sub-sampling, padding, permutation and destination offset/strides, a tensor move writes to each destination coordinate exactly the source element the configuration denotes (or zero in padded areas) and changes no other destination byte. The destination's shape, quantisation and type describe the result, including per-axis parameters that follow a permuted axis.",
 INP, "all small shapes, offsets, sizes, sub-sample steps, paddings, permutations, memory strides, element types, and the slice / concat / sub-sample / pad / permute / copy configuration helpers",
 "Combination space of five independent parameter groups over up to four axes; tests exercise one group at a time.",
 ["lib/src/move/impl/mli_mov_ref.h", "lib/src/move/mli_mov_api.cc"],
 [("mli_mov_basic_operation / mov_inner_loop", "lib/src/move/impl/mli_mov_ref.h"), ("mli_mov_cfg_for_*", "lib/src/move/mli_mov_api.cc")],
 ["mli_mov_tensor_sync"])
prop("C15", "Asynchronous moves follow the handle protocol and never leak or share channels",
 "Under every sequence of pool configuration, acquire, prepare, start, wait, query, callback registration and release calls, DMA channels are handed out only while free, never to two handles at once, always within the configured pool, and become available again on release. A started move completes with the same data as a synchronous move, its callback runs exactly once with its cookie, and a request that cannot be satisfied is answered with an error and changes nothing for other handles.",
 ["histories"], "all operation sequences up to the depth bound over up to three handles and a pool of up to four channels",
 "It is a property of call histories; tests call each function in one fixed order.",
 ["lib/src/move/mli_mov_api.cc", "lib/src/move/impl/mli_mov_ref.h", "lib/src/move/private/mli_mov_private_types.h"],
 [("channel pool", "lib/src/move/mli_mov_api.cc"), ("handle state machine", "lib/src/move/mli_mov_api.cc")],
 ["mli_mov_acquire_handle", "mli_mov_release_handle", "mli_mov_start", "mli_mov_isdone", "mli_mov_wait"],
 [("DMA channel pool", "which channels are free", "lib/src/move/mli_mov_api.cc"), ("handle", "channel range and progress of one move", "lib/src/move/private/mli_mov_private_types.h")])
prop("C16", "Sub-tensor views address exactly the requested region of the parent",
 "A view created from any tensor with any in-range coordinates, size and rank reduction refers to exactly the parent's elements at those coordinates, without copying or touching data, keeps the parent's type and the right part of its quantisation, and never claims capacity beyond the parent's buffer. Views of views equal the directly computed view; element counts, strides, scales and zero points reported for any tensor match its description; out-of-range requests are refused.",
 ["inputs", "histories"], "all small tensors, memory strides, start coordinates, sizes, ranks, quantisation kinds and chains of two views",
 "The coordinates x strides x ranks space and chains of views are only sampled.",
 ["lib/src/helpers/src/mli_helpers.cc", "lib/src/private/mli_prv_tensor.h"],
 [("mli_hlp_create_subtensor / mli_hlp_point_to_subtensor", "lib/src/helpers/src/mli_helpers.cc")], ["mli_hlp_*"])
prop("C17", "Tensor conversion maps each value to the nearest representable one",
 "Converting a tensor between any two supported element types and quantisations (per-tensor or per-axis, float on either side included) maps each element to the destination value denoting the same real number, rounded with the built mode and saturated, for every source value (exactly when the ratio of the scales fits the 16-bit scale format, as for all fixed-point pairs and equal scales; otherwise within 2^-14 of that ratio). Conversion to the same quantisation is the identity and widening then narrowing restores the source.",
 INP, "all 8-bit and boundary wider values, all type pairs, fractional bits, scales, zero points, axes, shapes",
 "Every pair of types has its own path; tests sample few values and parameters.",
 ["lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h"], [("convert_quantized_data / convert_float", "lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h")],
 ["mli_hlp_convert_tensor", "mli_hlp_convert_tensor_safx"])
prop("C18", "A call touches only the memory of the tensors it was given",
 "On every accepted call, a kernel, helper or data move writes only elements of its documented outputs (and state or scratch buffers) and reads only elements of its documented inputs; gaps between strided rows, bytes beyond a tensor's extent, read-only operands and caller structures stay untouched. This holds for every geometry including windows and filters that hang over the image border. While an MLI 3.0 runtime object computes a tile it reads only the operands of that tile and its parameters, and writes only its output tile and itself; moving on to the next tile touches nothing but the runtime object.",
 INP, "every byte access of every call over all small geometries, memory strides and kernels",
 "An out-of-bounds read rarely changes a result, and tests only compare results of a few shapes.",
 [K, "lib/src/private/mli_prv_tensor.h", "lib/src/move"], [("address computation from mem_stride", "lib/src/private/mli_prv_tensor.h"), ("window clipping", K+"pooling/mli_krn_pool_hwc.h")],
 ["all public C API entry points"])
prop("C19", "With checking enabled, invalid arguments are refused and valid ones accepted",
 "In a build that returns error codes, a call of a 2.0 kernel, of data movement or of a helper whose arguments violate a documented constraint (null tensors, configurations, operand lists, tables or data pointers; capacities, quantisation arrays, scratch buffers or tables that are too small, also when extents or sums exceed 32 bits; ranks, shapes, strides, element types, quantisation parameters and axes, fractional bits or bias scales that do not fit; paddings, strides, dilations, kernel sizes, orders, windows and counts out of range; forbidden overlap, wherever in the address space the buffers lie) returns an error status without crashing and without writing operand data, configurations or (except for the result descriptor of data movement) tensor descriptors. A call that satisfies all constraints returns success and writes nothing but its operands and state. Where the documentation leaves a case open, neither is demanded.",
 ["inputs", "fault_sequences", "configurations"], "every mutation of valid calls of every kernel variant, every pair (thorough: every triple) of mutations for one variant of every entry point, buffers around 2 and 4 GiB boundaries",
 "The number of (function, constraint) pairs is in the hundreds; tests only make valid calls.",
 ["lib/src/private/src/mli_check.cc", "lib/src/private/mli_check.h"], [("mli_chk_*", "lib/src/private/src/mli_check.cc")], ["status returned by every C API function"])
prop("C20", "Processing an image in tiles gives the same bytes as processing it whole",
 "Splitting the output of a layer into tiles, and computing each tile from the corresponding region of its inputs, with the padding that remains at the image border and the weights, biases and per-axis quantisation parameters of its output channels, gives bit-identical results to one call on the whole tensor. This holds for convolutions of all kinds, pooling, fully connected and RNN-dense layers (output slices), element-wise operators, ReLU variants, sigmoid, tanh, the slices of softmax, L2 normalisation, permutations and conversions; for every partition of the output and whether a tile is reached through sub-tensor views made with the library's helper, through copies, or through data movement into tile buffers and back.",
 ["inputs", "histories"], "all boxes and all partitions of small outputs along each axis, all layer variants and formats, kernels, strides, paddings, dilations, five ways of reaching a tile",
 "It is a relation between executions (hyperproperty) over all partitions; no test relates two runs.",
 [K+"convolution", K+"pooling", "lib/src/helpers/src/mli_helpers.cc", "lib/src/move"], [("strided tensor views", "lib/src/private/mli_prv_tensor.h")],
 ["C API kernels on sub-tensors"])
prop("C21", "Calls are re-entrant and free of hidden state",
 "Two calls working on different output tensors may be interleaved arbitrarily (pre-emptive tasks or threads, shared constant inputs) and each still produces exactly the result it produces alone. The result of a call never depends on which calls were made before it, and repeating it gives the same bytes. The same holds for MLI 3.0 kernels: the compilation, creation and execution of one kernel never changes what another kernel, compiled or created before, does.",
 ["schedules", "histories"], "all schedules of two concurrent calls up to the pre-emption bound at every global memory access, all ordered pairs and repeated calls of every kernel; all pairs of MLI 3.0 kernels with one kernel's life cycle placed between any two operations of the other",
 "Tests are single-threaded and run each kernel once, so a shared scratch buffer or cached parameter is invisible to them.",
 ["lib/src"], [("all scratch data on the stack or in caller buffers", "lib/src/kernels"), ("constant tables", "lib/src/private/src/mli_prv_activation_lut.cc")],
 ["all public C API entry points"])
prop("C22", "3.0 API convolutions and matrix multiply accumulate exactly",
 "For every geometry, stride, dilation, padding, group count and input/weight zero point, the 3.0 convolution, depthwise, transposed convolution, fully connected and matrix multiply kernels write exactly the documented 32-bit accumulation. For convolutions this is the sum over the whole filter window of the input value times (weight - weights zero point of the output channel), where positions in the padding have the value of the input zero point; for fully connected layers the sum of input * (weight - zero point), for matrix multiply the sum of (left - left offset) * (right - right offset).",
 INP, "all small geometries, tile-less runs, strides, dilations, paddings, zero points (per-tensor and per-channel), 8/16-bit formats",
 "Offline encoding, relocation and run-time execution interact; tests use a few layers with CRC limits.",
 [K+"convolution/mli_krn_conv2d_runtime.cc", K+"convolution/mli_krn_depthwise_conv2d_runtime.cc", K+"convolution/mli_krn_transpose_conv_runtime.cc", K+"convolution/mli_krn_matmul_ref.hpp", K+"common/impl/mli_krn_fully_connected_runtime.cc"],
 [("Issue", K+"convolution/mli_krn_conv2d_runtime.cc")], ["ExecutionInterface::Issue"])
prop("C23", "3.0 API pooling, reduction and element-wise kernels are exact",
 "For every shape, window, axis, data type and operand values, the 3.0 max-pool, sum-pool, reduce-max, reduce-sum, add, sub, mul, min and max kernels compute exactly the mathematical result in the documented output type, with broadcasting of a single-element operand. (Sums are claimed as far as their partial sums fit the 32-bit accumulator.)",
 INP, "all small shapes, windows, paddings, axes, operand pairs over boundary alphabets, data types",
 "Few shapes and values per kernel are tested.",
 [K+"pooling/mli_krn_maxpool_runtime.cc", K+"pooling/mli_krn_sumpool_runtime.cc", K+"conversion/impl", K+"eltwise"],
 [("Issue", K+"pooling/mli_krn_maxpool_runtime.cc")], ["ExecutionInterface::Issue"])
prop("C24", "3.0 API rescale, clip and parametric ReLU requantise exactly",
 "For every input value, bias, per-tensor or per-axis scale, shift and offset, rescaling equals the documented rounded fixed-point formula saturated to the output type; clipping returns the (int8) input limited to its bounds; parametric ReLU applies the positive or negative rescaling chosen by the sign of the input. The parameters used are those at the element's index on the rescale axis.",
 INP, "boundary value alphabets for input, bias, scale, shift and offsets, all axes, small shapes, the implemented type pairs (rescale int8 or int32 to int8 and int8 to int32, parametric ReLU int32 to int8)",
 "Shift/rounding corner values are isolated points in a huge space that tests barely sample.",
 [K+"conversion/impl/mli_krn_rescale_ref.hpp", K+"clip/impl/mli_krn_clip_ref.hpp", K+"transform/impl/mli_krn_prelu_ref.h"],
 [("rescale_prepare_and_run", K+"conversion/impl/mli_krn_rescale_ref.hpp")], ["ExecutionInterface::Issue"])
prop("C25", "3.0 tiled execution equals whole-tensor execution for every tiling",
 "For every kernel of the 3.0 API, issuing and updating it once per tile over any permitted tile size, including tiles cut at the tensor's end and tiles overlapping by the filter size, produces exactly the same output tensor as a single whole-tensor issue. (Window kernels iterate their dimensions in the natural order, convolutions one image at a time, and the first tile of a padded dimension is larger than its padding.)",
 ["inputs", "histories"], "all tile sizes per axis for small tensors, kernels, strides and paddings",
 "Tests use one or two tilings per kernel; last-tile clipping depends on divisibility and padding.",
 ["include/mli_iterator.hpp", "lib/src/kernels"], [("Update / iterator Next", "include/mli_iterator.hpp")], ["ExecutionInterface::Update"])
prop("C26", "Tensor iterators visit every tile exactly once, in order, and wrap around",
 "For every tensor shape, tile size, increment, order and repetition count, stepping an iterator visits exactly the tiles of the tensor in the declared order, each element of a disjoint tiling exactly once, reports the correct position (by level of the order), sub-tensor shape and first/last flags at every step and returns to its initial state after the declared number of steps. Slices, transposes and splits of tensor descriptors address the same elements as the mathematical operation, and a buffer shrunk to one tile holds the largest tile.",
 ["inputs", "histories"], "all small shapes, tile shapes, orders, iterator configurations and complete walks plus one wrap-around",
 "Iterator state evolves over a history; only particular walks inside kernels are executed by tests.",
 ["include/mli_iterator.hpp", "include/mli_types.hpp"], [("TensorIterator::Next", "include/mli_iterator.hpp"), ("Tensor::slice/transpose/split", "include/mli_types.hpp")],
 ["TensorIterator", "Tensor"], [("tile position", "index per loop level", "include/mli_iterator.hpp")])
prop("C27", "3.0 compile/deploy lifecycle is relocatable, bounded and repeatable",
 "The buffer, private-data and runtime-object sizes reported for a configured kernel are sufficient: encoding and execution never write outside them, and encoded parameters decode to the values given. A kernel instance deployed from a copy of its private data at any memory base addresses gives the same results, and can be re-created or re-run any number of times with the same outcome.",
 ["inputs", "histories", "configurations"], "all supported kernels, small configurations, several memory-bank bases, create/run histories up to depth bound",
 "Tests deploy each kernel once at one set of addresses and do not guard buffer ends.",
 ["lib/src/private/src/mli_runtime.cc", "include/api/mli_ref_compiler_api.hpp", "include/internal/mli_ref_private_types.hpp"],
 [("AttachBufferOffsets / GetKernelPrivateData", "lib/src/kernels/*compiler.cc"), ("ExecutionInterface::Create", "lib/src/private/src/mli_runtime.cc")],
 ["ExecutionInterface::Create", "*_CS::Get*BufferSize"])
prop("C28", "3.0 move, broadcast, permute and resize relocate elements faithfully",
 "The 3.0 move and broadcast kernels copy exactly the iterated elements to the mapped destination positions, tile by tile, permute transposes them, and bilinear resize returns the documented fixed-point interpolation at each output pixel, for every shape, stride and element type; no other destination bytes change.",
 INP, "all small shapes, permutations, broadcast dimensions, element sizes, resize strides and offsets",
 "Few shapes tested.",
 ["lib/src/move/mli_mov_runtime.cc", "lib/src/move/mli_move_broadcast_runtime.cc", K+"diverse/mli_krn_permute_runtime.cc", K+"conversion/impl/mli_resize_bilinear_ref.hpp"],
 [("Issue", "lib/src/move/mli_mov_runtime.cc")], ["ExecutionInterface::Issue"])
prop("C29", "In-place use gives the same result as separate input and output buffers",
 "Wherever the documentation allows the output to share memory with an input (element-wise operators on either operand, the ReLU family, sigmoid, tanh, softmax, normalisation, conversions of equal width), an in-place call leaves exactly the bytes that a call with a separate output buffer produces.",
 INP, "all small shapes, ranks, memory strides, formats, operand roles for the kernels documented to work in place",
 "Tests never alias buffers.",
 [K+"eltwise", K+"transform"], [("element-by-element processing order", K+"eltwise/impl/mli_krn_eltwise_ref.h")], ["mli_krn_eltwise_*", "mli_krn_relu_*", "mli_krn_leaky_relu_*", "mli_krn_prelu_*", "mli_krn_sigm_*", "mli_krn_tanh_*", "mli_krn_softmax_*", "mli_krn_l2_normalize_*"])
prop("C30", "Results do not depend on memory strides or placement of tensors",
 "For every kernel, laying out any operand with non-contiguous memory strides, or at a different aligned address, changes nothing in the values of the output elements. An output tensor's given strides are honoured and kept. Nor do the layout, the memories, the offsets and the alignment of buffers change what a compiled MLI 3.0 kernel computes.",
 INP, "all kernels x operands x stride padding choices per axis x small shapes",
 "Tests use at most one strided layout per kernel.",
 ["lib/src/private/mli_prv_tensor.h", K], [("mli_prv_get_tensor_* / calc_mem_stride", "lib/src/private/mli_prv_tensor.h")], ["all C API kernels"])
prop("C31", "A change of build option changes only the documented aspect of results",
 "Rounding-mode and accumulator options change results of the 2.0 API only in how intermediate values are rounded: outputs of convolutions, dense layers, pooling, element-wise operators, leaky/parametric ReLU and conversions whose exact value is representable and whose sums stay within the reduced accumulator (which keeps 24 bits to emulate the vector processor) are identical across all builds, operations that do not round (maximum pooling, ReLU, argmax, permutation, data movement, min, max) never differ, and any other difference is at most one rounding step per rounding (one unit of the last place per output of a layer; one per input of an RNN-dense layer; a few for recurrent cells, which feed their steps to each other). Return-code, assert, debug and full-debug builds leave exactly the bytes, descriptors and status of the release build on every valid call.",
 ["configurations", "inputs"], "all kernels over small inputs and all small window geometries x {up, convergent} x {reduced, full accumulator} x {release, return codes, assert, debug, full debug}",
 "Each build is only compared with its own expectations.",
 ["include/mli_config.h", "lib/src/pal/ref/mli_math.h", "lib/src/private/mli_debug.h"], [("mli_math_acc_cast / asr_rnd", "lib/src/pal/ref/mli_math.h")], ["all C API kernels"])
prop("C32", "IDX files round-trip; damaged files and failed I/O are reported",
 "An array of any supported element type and shape, written to an IDX file at once or in any sequence of portions (header first, last or rewritten in between), gives exactly the documented file and is read back identically, at once or in portions. Buffers are never exceeded; if one is too small nothing is written to it and the needed sizes are reported. A file whose header does not describe its contents (cut, extended, unknown type, dimensions whose product exceeds 32 bits) is refused, and requests which the format cannot represent are refused. Success is never reported when an operation on the file failed at any point, and a file left by a writer which died after any byte reads as the whole array, as an array without elements, or as an error.",
 ["inputs", "faults", "crash points", "histories"], "element types x shapes x portionings x header orders; every fault position and kind; every crash byte; every length and header byte of damaged files",
 "Examples read well-formed files only; no test fails an I/O operation.",
 ["examples/auxiliary/idx_file.c", "examples/auxiliary/idx_file.h"], [("size check of the header", "examples/auxiliary/idx_file.c")], ["idx_file_read_completely", "idx_file_write_completely", "idx_file_check_and_get_info", "idx_file_read_data", "idx_file_write_data", "idx_file_write_header"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
