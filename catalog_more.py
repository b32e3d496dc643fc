CAT["C05"] = P("Fully connected layer equals its fixed-point definition",
  "For every input, weight, bias, zero point and activation limit, each output of the fully connected layer is the dot product of the flattened input (minus its zero point) with the output's weight column plus its bias, rescaled, rounded, saturated and clamped by the activation; the variant with pre-adjusted bias differs only in ignoring the input zero point. Nothing but the output elements is written.",
  ["inputs", "configurations"], "all data values and zero points; input ranks 1..3, weight memory strides, per-tensor/per-axis scales, element types, build configurations; biases over the whole type", GEOM,
  [L + "kernels/common/impl/mli_krn_fully_connected_ref.h", L + "kernels/common/mli_krn_fully_connected.cc"], [("inner product", L + "kernels/common/impl/mli_krn_fully_connected_ref.h"), ("bias and result cast", L + "bricks/impl/mli_prv_quant_ref.h")],
  "all data values within small sizes")
CAT["C07"] = P("Element-wise operations equal their definition, with scalar broadcast",
  "For every pair of operands and quantisation offsets, element-wise add, subtract, multiply, minimum and maximum return the exact operation on the aligned operands, rescaled, rounded and saturated, for equal shapes of rank one to four and for either operand being a scalar. Gaps of strided tensors are neither read into results nor written.",
  ["inputs", "configurations"], "all operand values and zero points; shapes of rank 1..4, scalar operands (immediate and in memory), gaps, sets of scales and fraction bits, element types, build configurations", GEOM,
  [L + "kernels/eltwise"], [("operation and parameter derivation", L + "kernels/eltwise/impl/mli_krn_eltwise_ref.h")],
  "all data values within small shapes")

CAT["C08"] = P("ReLU family equals its definition",
  "For every input, zero point and slope, ReLU clamps each element to the limits of the selected type expressed in the input's format and passes that format on; leaky and parametric ReLU return the (rescaled) input where it is not negative and the input times the slope - one slope for the tensor, or the one of the element's index along the configured axis - otherwise, rounded and saturated. Strided tensors keep their gaps.",
  ["inputs", "configurations"], "all input values and zero points, all slope values (FX; classes of SA8); limit types, shapes of rank 1..4, every axis, gaps, sets of scales and fraction bits, element types, build configurations", GEOM,
  [L + "kernels/transform"], [("ReLU", L + "kernels/transform/impl/mli_krn_relu_ref.h"), ("leaky ReLU and parameter derivation", L + "kernels/transform/impl/mli_krn_leaky_relu_ref.h"), ("PReLU axis broadcast", L + "kernels/transform/impl/mli_krn_prelu_ref.h")],
  "all data values within small shapes")
CAT["C09"] = P("Table-driven activations equal their definition; built-in tables are accurate",
  "For every input, zero point and valid table, tanh and sigmoid return the table's linear interpolation at the input's value (end points clamped) in the documented output format; with the built-in tables the 16-bit result stays within 8 units of the last place of the mathematical function between all table nodes. Softmax and L2 normalisation return each element (its table exponential relative to the slice maximum; its offset-free value) times the table or integer reciprocal of the slice's sum, for every axis, and never access memory outside their operands.",
  ["inputs", "configurations"], "all values of one to three input elements, zero points (tanh, sigmoid), all table contents of length 2..6, every segment of the built-in tables; shapes of rank 1..4, every axis, gaps, sets of scales and fraction bits, element types, build configurations", GEOM,
  [L + "kernels/transform", L + "bricks/impl/mli_prv_lut_ref.h", L + "private/mli_prv_activation_lut.cc"], [("table interpolation", L + "bricks/impl/mli_prv_lut_ref.h"), ("softmax", L + "kernels/transform/impl/mli_krn_softmax_ref.h"), ("L2 normalisation", L + "kernels/transform/impl/mli_krn_l2_normalize_ref.h")],
  "all data values within small shapes; the accuracy bound is decided on every table segment")
CAT["C10"] = P("Recurrent kernels equal their equations over the whole sequence",
  "For every input, previous output, weight and bias value, the RNN dense kernel returns the sum over its inputs of the rescaled matrix-vector products plus bias, saturated to the output format. LSTM and GRU cells return, for every time step and both directions, exactly what composing the basic kernels per the cell equations gives - right gate order, right per-gate weights and quantisation parameters, state carried between steps, last or all results, final cell state - and touch no memory outside their operands and scratch buffer.",
  ["inputs", "configurations"], "all element values (and zero points of RNN dense); 1..2 inputs, 1..3 elements and outputs; sequences of 1..2 (3) steps, both directions, last and all results, every cell activation, per-tensor and per-gate weights, three sets of formats", GEOM,
  [L + "kernels/common", L + "bricks/impl/mli_krn_rnn_dense_op_ref.h"], [("LSTM cell", L + "kernels/common/impl/mli_krn_lstm_cell_ref.h"), ("GRU cell", L + "kernels/common/impl/mli_krn_gru_cell_ref.h"), ("stacked gate products", L + "bricks/impl/mli_krn_rnn_dense_op_ref.h")],
  "all data values within small shapes; the basic kernels used by the composition are decided by C05, C07, C09")
CAT["C11"] = P("Data movement delivers exactly the requested elements and channels never clash",
  "For every combination of padding, cropping, subsampling, permutation and destination offset, a tensor move writes exactly the requested source elements (zero where padded) at the requested destination positions, with the documented shape, strides and quantisation parameters, and leaves every other destination element alone; the permute kernel does the same for permutations. Along every history of acquiring and releasing, transfer channels stay inside the configured pool, belong to at most one handle, and are granted whenever the pool has a free block; a registered callback runs exactly once when the transfer is done.",
  ["inputs", "configurations", "histories"], "all element values, old destination contents and quantisation parameters; ranks 1..4, every permutation, eight operations per dimension, element sizes, stride modes; histories of 4 (5) acquire/release steps", GEOM,
  [L + "move", L + "kernels/diverse"], [("move parameters and single-transfer shortcut", L + "move/mli_mov_api.cc"), ("copy loops", L + "move/impl/mli_mov_ref.h"), ("permute", L + "kernels/diverse/impl/mli_krn_permute_ref.h")],
  "all data values within small shapes; every acquire/release sequence up to the stated length")

CAT["C12"] = P("Tensor helpers report and slice tensors exactly",
  "For every tensor the helpers report the exact element count, element size, scale, zero point and fractional bits; computed memory strides describe the contiguous layout. A sub-tensor (or a sub-tensor pointed to by coordinates) addresses exactly the requested slice of the original data: its first element, shape, strides, capacity, rank and element type, and the quantisation parameters that apply to the slice (the matching part of per-axis arrays, the selected parameter when the quantised axis is dropped).",
  ["inputs", "configurations"], "all shapes, offsets and sizes within the bounds, all parameter values; ranks 0..4, every choice of dropped dimensions, element type, quantised axis and stride convention",
  "slicing code depends on the combination of rank, dropped dimensions, strides, element type and quantised axis; a wrong combination silently addresses other data or applies another channel's parameters",
  [L + "helpers/src/mli_helpers.cc", L + "private/mli_prv_tensor.h"], [("slicing", L + "helpers/src/mli_helpers.cc")], "all values within stated shape bounds")
CAT["C16"] = P("Tensor conversion equals its fixed-point definition",
  "For every element value and zero point, converting a tensor between any two of the quantised types (FX8, FX16, SA8, SA32; per tensor or per axis; in place where the element sizes agree) yields the value rescaled by the ratio of the two formats (a 15-bit ratio accurate to 2^-13), rounded in the configured mode, offset by the destination zero point and saturated to the destination type, and writes nothing else.",
  ["inputs", "configurations"], "all element values of the source type and zero points; pairs of types, five sets of scales and fraction bits, per-tensor and per-axis, ranks 1..3, gaps, in place, build configurations", GEOM,
  [L + "helpers/src/mli_helpers.cc", L + "bricks/impl/mli_prv_quant_ref.h"], [("conversion", L + "helpers/src/mli_helpers.cc")],
  "all data values within small shapes and the listed scales; conversions from and to floating point are outside")

CAT["C13"] = P("Parameter checking accepts exactly the documented calls",
  "With parameter checking enabled, a kernel's argument check accepts a call exactly when its documented conditions hold: every tensor valid (positive shapes and strides, non-overlapping dimensions, quantisation arrays large enough, every element within the declared capacity for all 32-bit values of the fields), element types, ranks, shapes, strides, paddings and fraction bits compatible, memory regions not overlapping; checking itself never traps or reads outside its arguments.",
  ["inputs", "configurations"], "values of shapes, strides, capacities, fraction bits, zero points and configuration fields (32-bit ranges for the tensor check, small ranges for the kernels), one tensor or aspect varied at a time; ranks, element types",
  "the documented conditions are relations between many fields over their full ranges (including arithmetic wrap-around); tests only call kernels with valid arguments",
  [L + "private/src/mli_check.cc"], [("tensor and kernel argument checks", L + "private/src/mli_check.cc")], "field ranges as stated")
CAT["C14"] = P("Tile iteration visits every tile exactly once, with its exact data window",
  "For every tensor shape and tile size, a tile iterator visits the tiles of the tensor in the configured order, each exactly once, and reports completion after the last one only; the tiles partition the tensor, the input windows derived for a kernel's aperture, stride and padding are exactly the elements the output tile needs, and operand iterators (weights, zero points) follow the output. Positions, sizes, offsets, increments, element iteration inside a tile and tensor views (slice, transpose, split, combine) all agree.",
  ["inputs", "configurations", "histories"], "tile sizes, tensor sizes, apertures, pre- and post-padding of one dimension symbolic (others fixed small), one to five tiles per dimension, every iteration order of four dimensions, strides 1..3, skewed first tiles; whole iteration history",
  "tiling bugs need a particular remainder, padding or order; a missed or doubled tile corrupts results silently and only for some shapes",
  ["include/mli_iterator.hpp", "include/mli_types.hpp", "include/mli_service_functions.hpp"], [("iterator configuration and stepping", "include/mli_iterator.hpp"), ("tensor views", "include/mli_types.hpp")], "tile and tensor sizes within stated bounds; buffer offsets for the natural iteration order")
