#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     **({"state": state} if state else {}),
                     observe_at=observe, hook_needed=hook)))

CRC = ("Existing tests compare CRC32 values of outputs for a few dozen fixed vectors per kernel, "
       "with three build configurations; ")

prop("C01", "2D convolution computes the documented fixed-point result",
 'For every accepted combination of input, weights, bias, strides, dilation, padding and fused ReLU, each output element of a 2D HWCN convolution equals the multiply-accumulate over exactly the filter taps that fall inside the input, plus bias, scaled to the output format, rounded in the configured rounding mode, saturated and clipped to the ReLU range. This holds for fx16, fx16 data with fx8 weights, and asymmetric sa8 data with per-tensor or per-channel weight scales, in every build configuration. The output shape is the documented one and every output element is written.',
 ["inputs", "configurations"],
 "all shapes, kernel sizes, strides, dilations, paddings, tensor strides, quantisation parameters, ReLU types and data for which the documented conditions hold and the accumulator does not overflow",
 CRC + "border/padding/dilation/quantisation interactions form an unbounded product the handful of vectors cannot cover.",
 ["lib/src/kernels/convolution/mli_krn_conv2d_hwcn.cc", "lib/src/kernels/convolution/mli_krn_convolution.h", "lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h", "lib/src/bricks/impl/mli_prv_quant_ref.h"],
 [("convolution over valid taps and requantisation", "lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h"),
  ("quantisation parameters and result cast", "lib/src/bricks/impl/mli_prv_quant_ref.h")],
 ["mli_krn_conv2d_hwcn_fx16", "mli_krn_conv2d_hwcn_fx16_fx8_fx8", "mli_krn_conv2d_hwcn_sa8_sa8_sa32"])

prop("C02", "Depthwise and group convolution compute the documented result",
 "For every accepted input, a depthwise convolution computes each output channel from its own input channel only, and a group convolution computes each output "
 "channel from the input channels of its own group only, with the documented taps, bias, scaling, rounding, saturation and fused ReLU. "
 "Every output element is written with exactly that value, for all element types and build configurations.",
 ["inputs", "configurations"],
 "all shapes, group counts, kernel sizes, strides, dilations, paddings, memory strides, quantisation parameters and data satisfying the documented conditions",
 CRC + "channel/group indexing combined with borders, dilation and per-channel quantisation is only sampled.",
 ["lib/src/kernels/convolution/mli_krn_depthwise_conv2d_hwcn.cc", "lib/src/kernels/convolution/mli_krn_group_conv2d_hwcn.cc", "lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h"],
 [("depthwise_convolution2D and group_convolution2D", "lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h")],
 ["mli_krn_depthwise_conv2d_hwcn_*", "mli_krn_group_conv2d_hwcn_*"])

prop("C03", "Transposed convolution equals the scatter-form definition",
 "For every accepted input, the transposed convolution output equals the result of scattering each input element times the filter into the output grid with the given "
 "stride and padding, adding bias, and then scaling, rounding, saturating and clipping as documented. Specialised k2x2/str2 and k4x4/str2 entry points give the same result.",
 ["inputs", "configurations"],
 "all shapes, kernel sizes, strides, paddings, quantisation parameters, ReLU types and data satisfying the documented conditions",
 CRC + "stride-phase decomposition has separate sub-kernel geometry for every phase, kernel size, stride and padding combination.",
 ["lib/src/kernels/convolution/mli_krn_transpose_conv2d_hwcn.cc", "lib/src/kernels/convolution/mli_krn_transpose_conv.h"],
 [("stride-phase decomposition", "lib/src/kernels/convolution/mli_krn_transpose_conv.h")],
 ["mli_krn_transpose_conv2d_hwcn_*"])

prop("C04", "Fully connected and dense RNN layers compute the documented dot products",
 "For every accepted input, each output of a fully connected layer equals the dot product of the flattened input with its weight column plus bias, scaled, rounded, "
 "saturated and clipped to the fused ReLU range; the variant with an externally adjusted bias ignores the input zero point. A dense RNN layer equals the saturated sum of the per-input "
 "dot products and bias, each rescaled to a common format and then cast to the output format.",
 ["inputs", "configurations"],
 "all ranks and shapes, numbers of inputs, memory strides, quantisation parameters (per-tensor and per-channel), ReLU types and data satisfying the documented conditions",
 CRC + "quantisation corner cases, per-channel scales and strided weights are unbounded.",
 ["lib/src/kernels/common/mli_krn_fully_connected.cc", "lib/src/kernels/common/mli_krn_rnn_dense.cc", "lib/src/kernels/common/impl"],
 [("fully connected and rnn dense operation", "lib/src/kernels/common/impl")],
 ["mli_krn_fully_connected_*", "mli_krn_rnn_dense_*"])

prop("C05", "LSTM cell implements the LSTM recurrence step by step",
 "For every accepted input sequence, an LSTM cell call computes, for each time step in the configured direction, the four gates, the new cell state and the new output of the LSTM recurrence "
 "in the documented fixed-point formats, and leaves the final cell state in the cell tensor. With all-outputs mode the outputs of every step are stored in processing order; with last-output mode only the final output is stored, and both modes agree.",
 ["inputs", "histories", "configurations"],
 "all sequence lengths, directions, result modes, activations, input and hidden sizes, quantisation parameters, initial states and data satisfying the documented conditions",
 CRC + "state carried over steps, direction and output mode combine with arbitrary data and quantisation.",
 ["lib/src/kernels/common/mli_krn_lstm_cell.cc", "lib/src/kernels/common/mli_krn_lstm_cell.h"],
 [("lstm_cell_prepare_and_run", "lib/src/kernels/common")],
 ["mli_krn_lstm_cell_*"])

prop("C06", "GRU cell implements the GRU recurrence step by step",
 "For every accepted input sequence, a GRU cell call computes, for each time step in the configured direction, the update and reset gates, the candidate state and the new output of the GRU "
 "recurrence in the documented fixed-point formats. With all-outputs mode every step's output is stored in processing order; with last-output mode only the final one is stored, and both modes agree.",
 ["inputs", "histories", "configurations"],
 "all sequence lengths, directions, result modes, activations, input and hidden sizes, quantisation parameters, initial states and data satisfying the documented conditions",
 CRC + "state carried over steps, direction and output mode combine with arbitrary data and quantisation.",
 ["lib/src/kernels/common/mli_krn_gru_cell.cc", "lib/src/kernels/common/mli_krn_gru_cell.h"],
 [("gru_cell_prepare_and_run", "lib/src/kernels/common")],
 ["mli_krn_gru_cell_*"])

prop("C07", "Max and average pooling reduce exactly the valid window",
 "For every accepted input, each max-pooling output is the maximum, and each average-pooling output the rounded, saturated average, of exactly those input elements of the same channel that fall inside the pooling window "
 "and inside the input; padded positions contribute neither value nor count. The specialised k2x2 and k3x3 entry points obey the same rule.",
 ["inputs", "configurations"],
 "all shapes, kernel sizes, strides, paddings, memory strides, quantisation parameters and data satisfying the documented conditions",
 CRC + "each border region has its own loop and divisor, for every kernel/stride/padding combination.",
 ["lib/src/kernels/pooling/mli_krn_pool_hwc.h", "lib/src/kernels/pooling/impl"],
 [("pooling over central and border regions", "lib/src/kernels/pooling/mli_krn_pool_hwc.h")],
 ["mli_krn_maxpool_hwc_*", "mli_krn_avepool_hwc_*"])

prop("C08", "Element-wise add/sub/mul/min/max compute the documented fixed-point result",
 "For every accepted pair of operands (same shape, or either one a scalar), each output element of element-wise addition, subtraction, multiplication, minimum and maximum equals the real result of the operation on the two dequantised operands, "
 "expressed in the output format with the configured rounding and saturation, up to the documented precision of the scaling. The result does not depend on operand memory layout and only output data memory is modified.",
 ["inputs", "configurations"],
 "all shapes, scalar broadcasts, memory strides, quantisation parameters (fractional bits, scales, zero points), in-place use and data satisfying the documented conditions",
 CRC + "quantisation combinations and saturation corners are unbounded.",
 ["lib/src/kernels/eltwise", "lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h"],
 [("eltwise_prepare_and_run", "lib/src/kernels/eltwise")],
 ["mli_krn_eltwise_{add,sub,mul,min,max}_{fx8,fx16,sa8}"])

prop("C09", "ReLU, leaky ReLU and PReLU apply the documented piecewise-linear function",
 "For every accepted input, ReLU clips each element to the selected range in the input's own quantisation; leaky ReLU and PReLU keep non-negative values (rescaled to the output format where it is quantised separately) and multiply negative values by the slope, "
 "per tensor or per slope-axis element, with documented rounding and saturation. Each element depends only on its own input and its own slope.",
 ["inputs", "configurations"],
 "all shapes, memory strides, slope values and axes, quantisation parameters, in-place use and data satisfying the documented conditions",
 CRC + "rounding, saturation, axis and stride combinations are only sampled.",
 ["lib/src/kernels/transform/mli_krn_relu_fx.cc", "lib/src/kernels/transform/mli_krn_leaky_relu_fx.cc", "lib/src/kernels/transform/mli_krn_prelu.cc", "lib/src/kernels/transform/impl"],
 [("relu/leaky relu/prelu reference code", "lib/src/kernels/transform/impl")],
 ["mli_krn_relu_*", "mli_krn_leaky_relu_*", "mli_krn_prelu_*"])

prop("C10", "Sigmoid and tanh follow the real functions within table accuracy",
 "For every input value in every accepted format, sigmoid and tanh outputs lie within the documented table error of the real function in the output format, for the caller-created look-up table, and depend only on the element's value and the input format. "
 "The created table has exactly the announced size, and output parameters are set to the documented fixed output format.",
 ["inputs", "configurations"],
 "all fx8, fx16 and sa8 input values, input fractional bits / scales / zero points, shapes, strides and in-place use",
 CRC + "input formats and values are not enumerated.",
 ["lib/src/kernels/transform/mli_krn_sigm_fx.cc", "lib/src/kernels/transform/mli_krn_tanh_fx.cc", "lib/src/bricks/impl/mli_prv_lut_ref.h", "lib/src/private/src/mli_prv_activation_lut.cc"],
 [("LUT interpolation", "lib/src/bricks/impl/mli_prv_lut_ref.h"), ("tables", "lib/src/private/src/mli_prv_activation_lut.cc")],
 ["mli_krn_sigm_*", "mli_krn_tanh_*"])

prop("C11", "Softmax and L2-normalise give normalised outputs along the chosen axis",
 "For every accepted fx16 or sa8 input, each softmax output lies within table accuracy of exp(x-max)/sum(exp(x-max)) and each L2-normalise output within table accuracy of x/sqrt(sum(x^2)), computed independently for every slice along the chosen axis or over the whole tensor when no axis is given. Slices do not influence each other, and the output has the input's shape and the documented fixed output format.",
 ["inputs", "configurations"],
 "all shapes and ranks, axes, memory strides, input formats, in-place use and data satisfying the documented conditions",
 CRC + "axis/stride combinations and extreme data (all equal, one dominant, all minimum) are unbounded.",
 ["lib/src/kernels/transform/mli_krn_softmax_fx.cc", "lib/src/kernels/transform/mli_krn_l2_normalize.cc", "lib/src/kernels/transform/impl"],
 [("softmax and l2 normalise reference code", "lib/src/kernels/transform/impl")],
 ["mli_krn_softmax_*", "mli_krn_l2_normalize_*"])

prop("C12", "Argmax returns distinct positions of the top-k values in descending order",
 'For every accepted input, argmax returns for each index of the chosen axis (over all other dimensions), or for the whole tensor when no axis is given, exactly k distinct valid positions whose values are the k largest of that slice, ordered from largest to smallest. The output is described as plain 32-bit integers of the documented shape.',
 ["inputs"],
 "all shapes, axes, k, memory strides and data, including ties and extreme values",
 CRC + "ties, heap order and axis/stride combinations are unbounded.",
 ["lib/src/kernels/diverse/mli_krn_argmax.cc", "lib/src/kernels/diverse/mli_krn_argmax.h", "lib/src/kernels/diverse/impl"],
 [("top-k heap", "lib/src/kernels/diverse")],
 ["mli_krn_argmax_sa8", "mli_krn_argmax_fx16"])

prop("C13", "Permute is an exact index permutation of data and quantisation parameters",
 "For every accepted tensor and permutation, the output element at each permuted coordinate is bit-identical to the input element, the output shape is the permuted input shape and the quantisation parameters (including the quantised axis) follow the data. "
 "Applying the inverse permutation restores the original tensor.",
 ["inputs"],
 "all element types, ranks, shapes, permutations, memory strides and quantisation parameters",
 CRC + "rank/permutation/stride combinations are only sampled.",
 ["lib/src/kernels/diverse/mli_krn_permute_fx.cc", "lib/src/kernels/diverse/mli_krn_permute.h"],
 [("permute_prepare_and_run", "lib/src/kernels/diverse")],
 ["mli_krn_permute_{fx8,fx16,sa8}"])

prop("C14", "Data movement performs pad, crop, subsample, permute and concat exactly",
 "For every accepted transfer configuration, a data move writes to the destination exactly the source elements selected by padding, cropping, subsampling and permuting in that order, at the requested destination offset and strides, with zeros in padded positions, and leaves all other destination memory untouched. "
 "The destination shape and the per-axis quantisation parameters describe the data written; the synchronous call and the prepare/start/wait sequence give the same result.",
 ["inputs", "histories"],
 "all element types, ranks, shapes, offsets, sizes, steps, padding amounts, permutations, destination offsets and memory strides for which the transfer fits the destination",
 CRC + "combinations of the six transformation kinds over four dimensions are unbounded.",
 ["lib/src/move/mli_mov_api.cc", "lib/src/move/impl/mli_mov_ref.h", "include/api/mli_mov_api.h"],
 [("configuration builders and move loop", "lib/src/move")],
 ["mli_mov_data_sync", "mli_mov_prepare", "mli_mov_start", "mli_mov_cfg_for_*", "mli_mov_cfg_all"])

prop("C15", "DMA channel pool hands out disjoint in-range channels",
 'For every history of pool configuration, handle acquisition, transfers and release, every successfully acquired handle refers only to channels inside the configured pool, live handles never share a channel, a request fails exactly when no sufficient free channels exist, and released channels can be acquired again. Every started transfer delivers its data and then reports completion and calls the callback exactly once, on the handle it was registered for.',
 ["histories"],
 "all sequences of pool configuration, acquire, register-callback, prepare, start, poll, wait and release with all channel counts",
 "Existing tests use one channel in straight-line order; no test drives acquisition histories.",
 ["lib/src/move/mli_mov_api.cc", "include/api/mli_mov_api.h"],
 [("channel bookkeeping", "lib/src/move/mli_mov_api.cc")],
 ["mli_mov_set_num_dma_ch", "mli_mov_acquire_handle", "mli_mov_release_handle", "mli_mov_isdone", "mli_mov_registercallback"])

prop("C16", "Tensor helpers describe exactly the addressed elements",
 "For every valid tensor, the helper queries return the true element count, element size, scale, shift and zero offset; stride setup yields the dense layout; and a created sub-tensor addresses exactly the requested window of the parent: same elements, shape, strides, element format, quantisation parameters of the window, and a capacity that never reaches beyond the parent's. "
 "Invalid sub-tensor requests are rejected when argument checking is enabled.",
 ["inputs"],
 "all element types, ranks, shapes, strides, offsets, sizes and per-axis quantisation parameters",
 "Existing tests check a few fixed sub-tensor and point-to configurations.",
 ["lib/src/helpers/src/mli_helpers.cc", "include/api/mli_helpers_api.h"],
 [("helper functions", "lib/src/helpers/src")],
 ["mli_hlp_count_elem_num", "mli_hlp_create_subtensor", "mli_hlp_set_tensor_mem_strides", "mli_hlp_tensor_*"])

prop("C17", "Tensor conversion quantises to the nearest representable value",
 'For every accepted source and destination format, converting a tensor yields for each element the value closest to the represented real number in the destination format (within the precision of the documented 16-bit scale ratio between asymmetric formats), saturated to its range, with per-axis parameters applied to the right slice. Unsupported type pairs are reported as an error, only destination data is modified, and integer to float to integer conversion in the same format restores the data.',
 ["inputs", "configurations"],
 "all element type pairs, ranks, shapes, strides, fractional bits, scales, zero points, per-axis parameters and data including extremes and non-finite-free floats",
 CRC + "the matrix of type pairs, formats and data is unbounded.",
 ["lib/src/helpers/src/mli_helpers.cc", "lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h"],
 [("conversion loops", "lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h")],
 ["mli_hlp_convert_tensor", "mli_hlp_convert_tensor_safx"])

prop("C18", "Invalid parameters are rejected before anything is written",
 "In builds that return status codes, a kernel call that violates a documented, checkable parameter condition returns an error status instead of success and writes nothing to the output, its descriptor or beyond any buffer. "
 "Calls that satisfy all documented conditions return success.",
 ["inputs", "configurations"],
 "all kernels with argument checks, all single or multiple violations of their shape, type, format, capacity, configuration and padding conditions",
 "Existing tests never pass invalid parameters.",
 ["lib/src/private/src/mli_check.cc", "lib/src/private/mli_check.h"],
 [("argument checkers", "lib/src/private/src/mli_check.cc")],
 ["return status of every mli_krn_* function"])

prop("C19", "Specialised kernel entry points agree with the generic ones",
 "Whenever a kernel-size specialised entry point accepts an input, it produces bit-identical output data and output descriptor to the generic entry point called with the same arguments. "
 "Equivalent formulations of the same computation (1x1 convolution as matrix product, depthwise as group convolution with one channel per group, group convolution with one group as plain convolution) agree as well.",
 ["inputs", "configurations"],
 "all inputs accepted by the specialised entry points of convolution, depthwise, group, transposed convolution and pooling",
 CRC + "agreement is never compared on the same input.",
 ["include/api/mli_kernels_api.h", "lib/src/kernels/convolution", "lib/src/kernels/pooling"],
 [("fixed kernel size dispatch", "lib/src/kernels/convolution"), ("fixed kernel size dispatch", "lib/src/kernels/pooling")],
 ["mli_krn_*_k1x1, _k3x3, _k5x5, _k2x2, _k2x2_str2, _k4x4_str2"])

prop("C20", "Kernels touch only declared memory and are layout-independent",
 "For every accepted call, a kernel reads and writes only memory addressed by its tensor descriptors, leaves inputs, unaddressed gaps in the output and read-only descriptors unchanged, and gives the same result for any legal memory strides of inputs and outputs and, where allowed, for in-place operation. "
 "Repeating the call with the same arguments gives the same result.",
 ["inputs", "histories", "configurations"],
 "all kernels, shapes and legal memory-stride layouts, including calls where the output shares memory with an input where documented as allowed, and repeated calls in any order",
 CRC + "most tests use few fixed stride layouts, and memory outside the tensors is only partly observed.",
 ["lib/src/private/mli_prv_tensor.h", "lib/src/kernels"],
 [("stride-aware pointer arithmetic", "lib/src/private/mli_prv_tensor.h")],
 ["all mli_krn_* functions"])

prop("C21", "MLI 3.0 convolution-type kernels return the exact integer accumulation",
 'For every configuration accepted by the compile-time interface, the run-time 2D, depthwise and transposed convolution and fully connected kernels write to each 32-bit output element exactly the sum over all filter taps of input * (weight - weight zero point of the output channel), where taps outside the input (padding, and gaps inserted by a transposed convolution) contribute the input zero point as input value. Matrix multiplication writes exactly the sum of (left - left zero point) * (right - right zero point). All of this holds for every supported data type and memory layout, and no other memory is modified.',
 ["inputs", "configurations"],
 "all shapes, groups, kernel sizes, strides, dilations, paddings, data types, zero points, layouts and data",
 CRC + "fixed vectors only.",
 ["lib/src/kernels/convolution", "lib/src/kernels/common/impl", "include/api/mli_ref_compiler_api.hpp"],
 [("run-time Issue()", "lib/src/kernels/convolution"), ("shared reference convolution", "lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h")],
 ["KernelsFactory::Conv2d_CS, DepthwiseConv2d_CS, TransposeConv2D_CS, FullyConnected_CS, MatMul_CS and their run-time objects"])

prop("C22", "MLI 3.0 rescale and clip apply the documented per-channel transform",
 "For every accepted configuration, rescale maps each 32-bit or 8-bit element x to ((x - input bias) * scale) / 2^shift + output bias, with the division rounded in the rounding mode of the build and the result saturated to the output type, using the parameters of the element's own index along the chosen axis. Clip bounds each 8-bit element to [min, max]. Per-tensor and per-axis parameter forms agree when all per-axis parameters are equal, and no other memory is modified.",
 ["inputs", "configurations"],
 "all shapes, axes, parameter values, element types and data",
 CRC + "fixed vectors only.",
 ["lib/src/kernels/conversion", "lib/src/kernels/clip"],
 [("rescale", "lib/src/kernels/conversion"), ("clip", "lib/src/kernels/clip")],
 ["Rescale_CS", "Clip_CS"])

prop("C23", "MLI 3.0 pooling and reduction kernels reduce exactly their window",
 'For every accepted configuration, each max-pool output is the maximum and each sum-pool output the sum of exactly the input elements inside the window and inside the input, per channel, and each reduce-max and reduce-sum output the maximum and sum over the reduced axis. All other dimensions are preserved and no other memory is modified.',
 ["inputs", "configurations"],
 "all shapes, windows, strides, paddings, axes, element types and data",
 CRC + "fixed vectors only.",
 ["lib/src/kernels/pooling", "lib/src/kernels/conversion"],
 [("pooling and reductions", "lib/src/kernels/pooling")],
 ["MaxPool2D_CS", "SumPool2D_CS", "ReduceMax_CS", "ReduceSum_CS"])

prop("C24", "MLI 3.0 element-wise, PReLU and resize kernels compute the documented values",
 'For every accepted configuration, element-wise add, sub, mul, min and max of two tensors or a tensor and a scalar compute the exact integer result of the corresponding elements, PReLU rescales each element with the positive or negative parameters of its own index along the chosen axis according to its sign relative to the input bias, with documented rounding and saturation. Bilinear resize interpolates each output from its four documented neighbours with coordinates clamped to the input. No other memory is modified.',
 ["inputs", "configurations"],
 "all shapes, broadcasts, axes, strides, parameters, element types and data",
 CRC + "fixed vectors only.",
 ["lib/src/kernels/eltwise", "lib/src/kernels/transform", "lib/src/kernels/conversion"],
 [("element-wise run-time kernels", "lib/src/kernels/eltwise"), ("resize", "lib/src/kernels/conversion")],
 ["Add_CS, Sub_CS, Mul_CS, Min_CS, Max_CS, Prelu_CS, ResizeBilinear_CS"])

prop("C25", "MLI 3.0 permute, move and broadcast copy exactly the addressed elements",
 'For every accepted configuration, permute, move and broadcast write every destination element (or every element of the moved tiles) with the bit-identical source element at the corresponding coordinate and modify nothing else. This holds for all element sizes, memory strides, tensor offsets, whole-tensor, tile and cyclic buffers, and for repeated passes over the tiles.',
 ["inputs", "configurations"],
 "all ranks, shapes, permutations, strides, iterator configurations, element types and data",
 CRC + "fixed vectors only.",
 ["lib/src/kernels/diverse", "lib/src/move"],
 [("permute", "lib/src/kernels/diverse"), ("move/broadcast", "lib/src/move")],
 ["Permute_CS", "Move_CS", "MoveBroadcast_CS"])

prop("C26", "MLI 3.0 tiled execution equals untiled execution",
 'For every MLI 3.0 kernel that supports tiling and every accepted tiling of its output, executing the kernel tile by tile with the tile inputs selected by its iterators produces exactly the output of executing it in one piece. Every output element is produced, the iterators visit every tile once and return to the start, and a second pass gives the same result.',
 ["inputs", "configurations", "histories"],
 "all kernels with iterator configurations, shapes, paddings, strides and tile sizes that the interface accepts",
 CRC + "a few tilings are run.",
 ["include/mli_iterator.hpp", "lib/src/helpers/src/mli_helpers_30.cc", "lib/src/kernels"],
 [("tensor iterators", "include/mli_iterator.hpp"), ("Update() of run-time kernels", "lib/src/kernels")],
 ["ExecutionInterface::Issue/Prefetch/Update"])

prop("C27", "MLI 3.0 compiled kernels are relocatable and within announced sizes",
 'For every kernel, run-time creation from a byte copy of the private data at any address and with relocated memory bases gives a kernel that behaves identically, the announced private-data, object and buffer sizes are sufficient and never exceeded, and the private data is not needed after creation. Creation with too small object memory or for an unknown kernel kind is refused. Encoded weights, zero points and parameters round-trip into the run-time kernel.',
 ["inputs", "configurations"],
 "all kernels, configurations, memory placements and buffer attachments",
 "Existing tests use one placement per kernel.",
 ["lib/src/private/src/mli_runtime.cc", "include/mli_runtime_api.hpp", "include/api/mli_ref_compiler_api.hpp"],
 [("run-time object creation", "lib/src/private/src/mli_runtime.cc")],
 ["ExecutionInterface::Create", "GetKernelPrivateData", "GetRuntimeObjectSize"])

prop("C28", "MLI 3.0 buffers, tensors and iterators preserve the addressed elements",
 'For every shape, stride and offset, buffer element access, sub-buffers, tensor slices, splits, combined, transposed, re-ranked and re-typed tensors address exactly the documented elements of the underlying memory. Iterating over a tiled tensor, also with convolution, weights, transposed, axis-reduced and shrunk-buffer iterators, visits the configured tiles in the configured order with consistent positions, sizes and offsets, reports the end of the pass exactly once per pass, and returns to the start.',
 ["inputs", "histories"],
 "all ranks, shapes, memory strides, tile sizes, increments and iteration orders",
 "Existing tests use the containers only indirectly with fixed shapes.",
 ["include/mli_types.hpp", "include/mli_iterator.hpp"],
 [("buffer/tensor types", "include/mli_types.hpp"), ("iterators", "include/mli_iterator.hpp")],
 ["Buffer", "InternalBuffer", "OffsetBuffer", "Tensor", "IteratorCfg", "TensorIterator"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
