# One entry per property: everything gen.py needs for properties.jsonl and MANIFEST.json.
# (id, title, statement, over, quantifier text, why tests cannot, files, mechanism, level_note)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note))

RT = "src/Runtime/"
prop("C01", "Tensor descriptors report exactly what they were given",
 "A tensor created through the C API reports the rank, dimensions, element type, data pointer and ownership it was created with, row-major strides in elements, an element count equal to the product of the dimensions and a buffer size of count times element size; the shape array is copied, each setter changes its own attribute only, byte strides are converted to element strides, and null tensors are answered neutrally. An empty-created tensor owns a writable buffer of exactly its size. Tensor lists return the tensors they were given in order, and null for any index out of range.",
 ["inputs"], "all dimension, stride, ownership and index values, all element types, ranks 0..4 (6 thorough), lists of up to 3 (5) tensors",
 "the unit tests build a handful of rank-2 float tensors; the statement ranges over every dimension/stride value, element type, rank and order of setters",
 [RT + "OMTensor.inc", RT + "OMTensor.c", RT + "OMTensor.cpp", RT + "OMTensorList.inc", "include/onnx-mlir/Runtime/OnnxDataType.h"],
 [("omTensorCreate, omTensorCreateEmpty, omTensorSet*/Get*", RT + "OMTensor.inc"), ("omTensorListCreate, omTensorListGetOmtByIndex", RT + "OMTensorList.inc"), ("OM_DATA_TYPE_SIZE", RT + "OnnxDataType.c")],
 "exhaustive within the stated bounds for both the C and the C++ build of the tensor sources")
prop("C02", "Tensor and list memory is released exactly once, by its owner",
 "Through every history of creating a tensor, replacing its data, changing its ownership flag or metadata and destroying it, a data buffer is released exactly when an owning tensor replaces it or is destroyed, is never released otherwise, and nothing leaks. Destroying a list destroys its tensors (and the data they own), shallow destruction releases the list only, and the array the caller passed stays the caller's. When an allocation fails during creation, the creator returns null, leaks nothing and leaves the caller's data alone.",
 ["histories", "fault_sequences"], "all histories of up to 3 (4 thorough) operations, every ownership flag, every allocation failing in turn",
 "tests exercise one create/destroy sequence and no allocation failure; ownership bugs need particular sequences",
 [RT + "OMTensor.inc", RT + "OMTensorList.inc"],
 [("_owning flag, omTensorSetDataPtr, omTensorDestroy", RT + "OMTensor.inc"), ("omTensorListDestroy, omTensorListDestroyShallow", RT + "OMTensorList.inc")],
 "exhaustive within the stated bounds on a checked heap model (use after free, double free, leaks, bounds)")
prop("C03", "Index sort along the last axis is a stable ordering permutation",
 "For every supported element type (booleans, all integers, float16, float, double) the sort kernel reorders the index entries of each slice along the last axis into a permutation of that slice that is ascending or descending by value, with equal values in input order, for tensors of rank 1 to 6. Each slice is sorted on its own, the input is not modified, and nothing is written when the axis is empty or a tensor is missing. The portable sort used where the C library has none obeys the same contract whatever its pivots.",
 ["inputs"], "all element values (NaN excluded) of up to 3 (4) elements per type, 4 (5) for the main types, all pivot sequences",
 "backend tests sort a few literal tensors; order, ties and signedness must hold for every value of every type",
 [RT + "OMSort.c", RT + "OMSort.h"], [("omTensorSort, compare functions", RT + "OMSort.h"), ("quick_sort_custom", RT + "OMSort.h")],
 "exhaustive within the stated bounds; glibc qsort_r is modelled by an insertion sort that calls the real comparison functions")
prop("C04", "TopK selects the k best elements, ties to the lower index",
 "For every supported element type and either direction, the TopK kernel leaves in the first k index entries of each slice along the last axis the k largest (smallest) elements, preferring the lower index among equal values, and in order when sorted output is requested; all entries of the slice stay a permutation of its indices. Slices are independent, and nothing is written when the axis is empty or a tensor is missing.",
 ["inputs"], "all element values (NaN excluded) of up to 3 elements for all types, 4 (5) for int32/float, 6 (8) for two-valued data, every k, ranks 1..6",
 "backend tests use distinct literal values; partial selection only goes wrong for ties and particular k",
 [RT + "OMTopK.c", RT + "OMSort.h"], [("omTensorTopK, partial heap / quick select", RT + "OMTopK.c")],
 "exhaustive within the stated bounds")
prop("C05", "Unique yields distinct values, first indices, inverse and counts",
 "The Unique kernels return the distinct elements (or slices along the given axis) of the input, in order of first occurrence or sorted ascending (slices lexicographically in row-major order); signed zeros count as equal. The first-occurrence index, the inverse index of every element or slice and the occurrence counts agree with that output, any subset of the four outputs may be requested, and the counting entry point announces exactly the size the other one fills.",
 ["inputs", "configurations"], "all element values (NaN excluded) of up to 3 elements for 11 types, 4 (6) elements for two types, shapes up to 3x2 / 2x2x2 with every axis, all 16 output subsets",
 "tests fix a few literal tensors and always request all outputs",
 [RT + "OMUnique.c", RT + "OMSort.h"], [("omTensorUnique, omTensorUniqueCount, produceY/indices", RT + "OMUnique.c")],
 "exhaustive within the stated bounds")
prop("C06", "Category tables built at compile time agree with run-time lookup",
 "For every dictionary of distinct string or 64-bit integer categories the table construction of the compiler terminates and the run-time lookup returns, for each key of the dictionary, that key's own index. A key that is not in the dictionary maps to some index inside the table.",
 ["inputs"], "dictionaries of up to 4 (7) strings with one or two arbitrary keys of 1 (2) bytes, up to 4 (5) integers with one arbitrary small key among fixed ones including the extremes",
 "tests contain three literal dictionaries; hash collisions and negative/long keys depend on the particular keys",
 [RT + "OMIndexLookup.c", "src/Conversion/ONNXToKrnl/PerfectHash.cpp"], [("find_index_str, find_index_i64", RT + "OMIndexLookup.c"), ("PerfectHash", "src/Conversion/ONNXToKrnl/PerfectHash.cpp")],
 "exhaustive within the stated bounds")

prop("C07", "Small float conversions are exact or round to nearest even, once",
 "Widening a float16, bfloat16 or 8-bit float gives exactly its value (NaN stays NaN, infinities and signed zeros are kept). Narrowing float or double to float16, and float to bfloat16 or an 8-bit format, gives the nearest representable value, ties to even, with a single rounding, the right overflow behaviour, gradual underflow and NaN for NaN. The C functions, the compiler helper entry points and the C++ value classes agree with one another; bit casts, numeric casts, NaN tests and comparisons of the classes agree with the numeric value.",
 ["inputs"], "all 2^16 patterns and all 2^32 floats for the 16-bit formats, all doubles near the half range, all patterns of the four 8-bit formats with the quarter points between neighbours",
 "unit tests compare a sample of values; rounding goes wrong only at particular ties, subnormals and NaN payloads",
 ["src/Support/SmallFPConversion.c", "src/Support/SmallFP.cpp", "src/Support/SmallFP.hpp"],
 [("om_f16_to_f32, om_f32_to_f16, __truncdfhf2, ...", "src/Support/SmallFPConversion.c"), ("FP16Base, FP8Base", "src/Support/SmallFP.hpp")],
 "the 16-bit conversions are decided for every input; the 8-bit classes by complete case split")
prop("C08", "Resize interpolates as ONNX prescribes",
 "The run-time Resize routines, given scales or sizes, fill every output element with the value ONNX prescribes for half-pixel coordinates: nearest (round_prefer_floor) picks the nearest source element and the lower of two equally near, linear and cubic (coefficient -0.75) weigh the neighbouring elements along every axis with edges clamped. Tensors of any rank are handled, inputs, sizes and scales are not modified and no memory is leaked.",
 ["inputs", "configurations"], "all element values on a grid for ranks 1..5, axis sizes up to 6 (9), ratios 1/2 to 8",
 "backend tests use a handful of literal 4-D images",
 [RT + "OMResize.c"], [("Resize_Scales, Resize_Size, interpolate_nd*", RT + "OMResize.c")],
 "exhaustive within the stated bounds over data for which floating-point evaluation is exact, so the result does not depend on evaluation order")
prop("C09", "Random generators honour size, bounds, seed, mean and scale",
 "The uniform generator fills exactly the elements of its output tensor with values between its low and high bound and refuses other element types without writing; the normal generator fills exactly the requested number of values, each mean + scale * z where z depends on the seed and position only. The seed determines the sequence (same seed, same values) in single and double precision.",
 ["inputs", "histories"], "every sequence the C generator may produce, up to 2 values per call, fixed sets of bounds, seeds, means and scales",
 "the statement ranges over every draw of the underlying generator; tests can only look at a few seeds",
 [RT + "OMRandomUniform.c", RT + "OMRandomNormal.c"], [("run_uniform_random", RT + "OMRandomUniform.c"), ("get_random_normal_value_f32/f64", RT + "OMRandomNormal.c")],
 "exhaustive within the stated bounds; log and cos are replaced by arbitrary values of their range")
prop("C10", "Instrumentation reports every point once, in order, with right times",
 "The tag macros store and read back each flag and name length without disturbing the others. For every sequence of instrumentation points, the report contains, after one header (with the compile info if given), one time line per time-reporting point in the order they occurred with its operation, node, before/after mark and elapsed times, and one memory line per memory-reporting point; nothing else. The current point is published. Environment settings disable time, memory or everything (then nothing is written or opened), or redirect the report to a file; reports of consecutive runs are independent and more points than the buffer holds are not lost.",
 ["histories", "configurations"], "all histories of 3 (4) points over two operations with any flags, all 16 environment settings, all tags",
 "the unit test prints one report and compares nothing; lost or bogus lines need particular orders of points",
 [RT + "OMInstrument.c", "include/onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"],
 [("OMInstrumentPoint, updateRecordBuffer, flushRecordBuffer", RT + "OMInstrument.c"), ("SET_/GET_/IS_INSTRUMENT_*", "include/onnx-mlir/Compiler/OMCompilerRuntimeTypes.h")],
 "exhaustive within the stated bounds")
prop("C11", "External constants are loaded, addressed and released correctly",
 "Loading a constant file from OM_CONSTANT_PATH or the current directory succeeds exactly when the size is positive, the byte order is native, and the file can be opened and holds the requested bytes; then the address refers to those bytes. A failure of any step reports false and leaves no address, mapping, memory or open file behind; loading again keeps the data. Unloading releases exactly what was loaded, reports whether something was loaded, and allows loading again. A constant's address is base plus offset and is computed once.",
 ["histories", "fault_sequences", "inputs"], "all file contents and sizes up to 4 bytes, any failing system call, histories of 5 (6) load/unload steps over two constants, every base and 64-bit offset",
 "tests load one existing file once; failures, short files and reloading need particular fault points and histories",
 [RT + "OMExternalConstant.c"], [("omLoadConstantData, omUnloadConstantData", RT + "OMExternalConstant.c"), ("omGetExternalConstantAddr", RT + "OMExternalConstant.c")],
 "exhaustive within the stated bounds; the file system is a stand-in, so no real file is touched")

prop("C12", "Element types are one consistent vocabulary",
 "The numbers, names and sizes of element types at run time, the compiler's basic types, the C++ types and the MLIR types agree with one another and with ONNX: every mapping and its inverse are consistent, with the same signedness, bit and byte width, and float or integer kind. A wide number carries every value of every element type without loss, converts like a C++ cast and round-trips through arbitrary-precision integers and floats; functions wrapped for wide numbers see the C++ value of the element type. Shape, rank and size helpers of types are consistent.",
 ["inputs", "configurations"], "every element type and every value of the integer types, float, double and the small floats",
 "tests touch a few types with small positive values; wrong signedness or width shows up only for particular types and extreme values",
 ["src/Dialect/ONNX/ElementsAttr/BType.hpp", "src/Dialect/ONNX/ElementsAttr/BType.cpp", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp", "src/Dialect/ONNX/ElementsAttr/WideNum.cpp", "src/Support/TypeUtilities.cpp", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"],
 [("btypeOfMlirType, mlirTypeOfBType", "src/Dialect/ONNX/ElementsAttr/BType.cpp"), ("WideNum::to/from/widen/narrow", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"), ("OM_DATA_TYPE", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc")],
 "decided for every value of the types; arbitrary-precision floats wider than 16 bits on sample values only")
prop("C13", "Strided views address the right elements",
 "The position of a multidimensional index is its dot product with the strides, default strides are row-major, and flattening and unflattening an index are inverse. Iterating a shape visits every element once in row-major order with its index, its flattened index and its position in each of the strided tensors. Reshaping strides yields strides that address the same elements in the same order, and yields some whenever such strides exist. Expanding and transposing strides, and unpacking a strided buffer of any element width, address the elements the broadcast or permuted shape prescribes.",
 ["inputs"], "every shape up to rank 3 (4) with dimensions up to 2..3, every pair of shapes up to 12 elements for reshaping, and all strides",
 "the unit test reshapes three literal shapes; carries, broadcast and unit dimensions go wrong only for particular shapes and strides",
 ["src/Dialect/ONNX/ElementsAttr/Strides.cpp", "src/Dialect/ONNX/ElementsAttr/Strides.hpp", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"],
 [("reshapeStrides, expandStrides, restrideArray, unflattenIndex", "src/Dialect/ONNX/ElementsAttr/Strides.cpp"), ("StridesIterator", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp.inc")],
 "exhaustive within the stated bounds")
prop("C14", "Every way of reading a lazily viewed constant gives its elements",
 "A constant produced by any chain of transposes, reshapes, broadcasts and element-wise functions over a memory buffer or a dense attribute has the shape, element type and elements that applying these steps one by one prescribes, and every way of reading it agrees: as array, as wide numbers, as raw bytes, by index, through iterators, as splat. An attribute that says it is a splat has equal elements. Wrapping a dense attribute and converting back gives the same attribute; dense attributes, booleans included, read as their values.",
 ["histories", "inputs"], "all chains of 2 steps on tensors of up to 8 elements, all element values",
 "lit tests fold fixed constants; wrong strides show up only for particular chains of views and shapes",
 ["src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp"],
 [("getArray, readWideNums, getRawBytes, getSplatValue", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"), ("transpose, reshape, expand, doTransform", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp")],
 "exhaustive within the stated bounds")
prop("C15", "Folding constants computes what the folded operation would",
 "Combining, selecting, comparing, casting, clipping, splitting, concatenating, slicing, padding, gathering, scattering (negative indices included), reducing, multiplying, enumerating and searching constants gives, element by element, the ONNX result with its shape and type, whatever views the operands are (plain, transposed, transformed, broadcast, splat, dense), leaving the operands unchanged. Casts to integers round half to even or truncate as asked, saturate, and map NaN to 0; casts to 8-bit floats saturate or overflow as asked. Large constants give the same for any number of threads.",
 ["inputs", "configurations"], "all element values and operand kinds on tensors of rank <= 2 (3), all broadcasts, axes, index signs and thread counts in the stated ranges",
 "lit tests fold fixed constants with few shapes; wrong strides, index signs and rounding show up only for particular operands",
 ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"],
 [("combine, where, equal, cast*, clip", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"), ("split, concat, slice, pad, gather, scatterND, reduce, matMul, range, nonZero", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"), ("functionTransformer", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp")],
 "exhaustive within the stated bounds; int to float casts are compared through double precision")
prop("C16", "Disposable constants live exactly as long as the module needs them",
 "For every history of creating constants and views, attaching, sharing and removing them, collecting garbage and scrubbing: a constant the module refers to, in nested regions too, stays readable with its elements; collection releases exactly the others, and a buffer is released when the last constant using it is. Scrubbing replaces every constant in the module by a dense attribute with the same type and elements and releases all. A closed pool makes dense constants with the right elements and wraps nothing. The number of workers makes no difference.",
 ["histories", "configurations"], "all histories of 4 (5) steps over two operations, all element values; up to 30 constants and 4 workers",
 "lit tests run one pipeline; use after release and leaks need particular orders of collection, sharing and views",
 ["src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"],
 [("garbageCollectUnreachable, scrub, close, createElementsAttr", "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp")],
 "exhaustive within the stated bounds; workers run one after the other, their interleavings are not explored")

prop("C17", "Compile flags split into the words meant; names follow from them",
 "Splitting a flag string with balanced quotes gives the non-empty words meant: blanks separate, single or double quotes group, a backslash takes the next character literally (in quotes too), and pieces joined without a blank are one word. The input file, output name, target and model tag read from a word list are those the compiler would use: only -o names the output, the last setting counts as documented, and a value is never mistaken for an option. The file name predicted for a model, output option, target and tag is the one the compiler produces, with the extension of the target and in the output directory asked for.",
 ["inputs", "configurations"], "lines of up to 3 words of up to 3 arbitrary bytes in any quoting; options and names of up to 3 arbitrary bytes, all targets",
 "unit tests do not cover these helpers; quoting, dots and prefixes go wrong only for particular flag strings",
 ["src/Compiler/CommandUtils.cpp"], [("parseFlags, getTargetFilename, getOutputFilename, getInputFilename, getModelTag", "src/Compiler/CommandUtils.cpp")],
 "exhaustive within the stated bounds")
prop("C18", "A command runs exactly its program and reports how it ended",
 "For every history of appending, listing and resetting arguments, executing a command runs the given program once with exactly these non-empty arguments, in order and unaltered, in the working directory asked for, its output going to the log file if asked (from the start of it), and the caller's directory, handlers and descriptors unchanged afterwards. It succeeds exactly when the program exits with 0; every other end (exit code, signal, failure to start, to fork or to wait) is reported with its reason, interrupted waits are resumed, and a child that could not start its program leaves without running any of the parent's code. The printed command shows the program and all arguments.",
 ["histories", "fault_sequences", "inputs"], "2 (3) argument steps of arbitrary bytes, every exit code, signal and errno, failing fork, exec, chdir or wait, interrupted waits",
 "no test runs a command; failures to start, signals and interrupted waits need particular faults",
 ["src/Compiler/Command.cpp"], [("Command::exec, appendStr, appendList, resetArgs, print", "src/Compiler/Command.cpp")],
 "exhaustive within the stated bounds; processes are a model")
prop("C19", "OMCompile compiles what is asked and names the files produced",
 "Compiling a model through OMCompile runs the compiler (local, or in a container) once with exactly the model and the flags asked for. It reports success exactly when the compiler ended well and the output is there; otherwise it throws, and neither then nor after an earlier success does it name files of another compilation. The output file, constant file and model tag it names are the ones the compiler produced. In a container, every path outside is mounted and appears inside at the place the command line names, relative paths keep their meaning, words are quoted so that the container's shell sees them unaltered, and an image is pulled only if allowed.",
 ["histories", "fault_sequences", "configurations"], "all fates of the compiler, histories of 2 (3) compilations, models, outputs, targets and tags from the stated sets, all container configurations",
 "no test runs OMCompile; wrong names and paths need particular combinations of options, failures and histories",
 ["src/Compiler/OMCompile.cpp", "src/Compiler/CommandUtils.cpp"], [("OMCompile::compile, setUpContainer, getOutputFilename, getOutputConstantFilename", "src/Compiler/OMCompile.cpp")],
 "exhaustive within the stated bounds; compiler and container engines are models")

prop("C20", "A session loads a model and reports failures without side effects",
 "Loading succeeds exactly when the library opens and has the functions of the model's tag (given, or the lower-case file name without extension; NONE for none). While it loads, constants are looked for next to it unless OM_CONSTANT_PATH is set; afterwards, also on failure, the environment is as before, a failed library is closed and another can be loaded. Signatures and runs are those of the entry point last set; there is none after a failed request. A run calls it once with the inputs, hands over the outputs, keeps or releases inputs as documented, and reports failures with errno. A guarded run turns crashes into exceptions and restores all signal handlers and the signal mask.",
 ["histories", "fault_sequences", "configurations"], "histories of 3 (4) steps, every missing function, failing load, errno and signal, any tag of 2 (3) bytes",
 "no test loads a model; failures, crashes and their aftermath need particular faults and histories",
 [RT + "ExecutionSession.cpp", RT + "ExecutionSession.hpp"], [("loadModel, setEntryPoint, run, runDebug, runWithSignalHandler, fillInputDebug", RT + "ExecutionSession.cpp")],
 "exhaustive within the stated bounds; libraries, environment and signals are models")
prop("C21", "Debug inputs have the shapes, types and values asked for",
 "For every sequence of random draws, a tensor of random data has the type and shape asked for and every element within the bounds, both ends possible; strings are packed in one buffer; ones-then-zeros rows have the number of ones asked for. Inputs made from a signature have its types and shapes, dynamic dimensions taken from the shape info, and values by the value info, else by the bounds per type, else by default. Malformed requests, conflicting dimensions and bounds in the wrong order are refused and leave nothing behind. A seed decides all values.",
 ["inputs", "fault_sequences"], "every value of the generator's draws, 13 types, tensors of up to 3 elements, up to 3 inputs and 2 overrides",
 "no test makes debug inputs; bounds, empty rows and missing values go wrong only for particular requests",
 [RT + "OMTensorHelper.cpp", RT + "OMTensorListHelper.cpp"], [("omTensorCreateWithRandomData, omTensorCreateSozData, omTensorBuildStringBuffer", RT + "OMTensorHelper.cpp"), ("omTensorListCreateFromInputSignature", RT + "OMTensorListHelper.cpp")],
 "exhaustive within the stated bounds")

CV = "src/Conversion/ONNXToKrnl/"
prop("C22", "Compiled element-wise models compute what ONNX specifies",
 "A model of element-wise operators (arithmetic, comparison, logic, bits, shifts, rounding, clipping, selection, variadic, activations, with broadcasting, for static or dynamic shapes including empty ones) compiled by onnx-mlir at any optimization level computes for every input exactly the values, shapes and types ONNX specifies, wrapping integers and treating NaN, infinities and signed zeros as specified; it leaves its inputs unmodified, frees shared outputs once, stays within its buffers and leaks nothing.",
 ["programs", "inputs", "configurations"], "58 operator models over 14 element types, --O0, --O3 and --O3 with SIMD; all element values, up to 12 elements",
 "backend tests run one input per operator and are not part of the tests here; wrap-around, NaN, empty and broadcast shapes, vector tails go untested",
 [CV + "Math/Elementwise.cpp", "src/Conversion/KrnlToLLVM", "src/Compiler/CompilerPasses.cpp"], [("ONNXElementwise*OpLowering", CV + "Math/Elementwise.cpp"), ("determineOwnershipForOutputOMTensors, KrnlEntryPointOpLowering", "src/Conversion/KrnlToLLVM")],
 "exhaustive within the stated bounds; the compiler runs, the code it emits is executed symbolically")
prop("C23", "Compiled data movement models put every element in its place",
 "A model of operators that rearrange, select or replicate data (transpose, reshape, squeeze, concat, split, slice, gather, scatter, pad, tile, expand, compress, one-hot, trilu, reverse, range, shape) compiled by onnx-mlir at any optimization level gives, for every input and every index, bound, pad or repeat computed at run time within ONNX's definition, outputs of the shape and elements ONNX specifies; negative indices, empty dimensions and steps of either sign included; and it reads and writes only its own buffers.",
 ["programs", "inputs", "configurations"], "45 models over up to 5 element types, --O0, --O3 and --O3 with SIMD; all element values, run-time indices over their whole valid range",
 "backend tests sample one input per operator; offsets go wrong for particular axes, indices or dimensions only",
 [CV + "Tensor", "src/Dialect/ONNX/ONNXOps/Tensor", "src/Conversion/KrnlToLLVM"], [("lowerings of the data movement operators", CV + "Tensor"), ("shape inference of the data movement operators", "src/Dialect/ONNX/ONNXOps/Tensor")],
 "exhaustive within the stated bounds except for the listed known findings")
prop("C24", "Compiled products, reductions and orderings compute what ONNX specifies",
 "A model of MatMul, Gemm, MatMulInteger, reductions over any axes, ArgMax and ArgMin, CumSum, TopK or Hardmax compiled by onnx-mlir at any optimization level, whether the compiler tiles, vectorizes, or unrolls it, gives for every input the values ONNX specifies (exactly, for integers and for floats whose sums are exact): transposed, broadcast, batched or vector operands, zero points, empty sums and tails of tiles included; ties go to the lowest index; all accesses stay within the buffers.",
 ["programs", "inputs", "configurations"], "29 models, sizes from 0 up to 9x10, --O0, --O3 and --O3 with SIMD",
 "backend tests sample one input per operator; tails of tiles and vectors, ties and broadcast batches go untested",
 [CV + "Math", "src/Conversion/KrnlToAffine", "src/Conversion/KrnlToLLVM"], [("ONNXMatMulOpLowering", CV + "Math/MatMul.cpp"), ("ONNXGemmOpLowering", CV + "Math/Gemm.cpp"), ("ONNXReduction*OpLowering", CV + "Math/Reduction.cpp"), ("KrnlMatmulLowering", "src/Conversion/KrnlToAffine/KrnlMatmul.cpp")],
 "exhaustive within the stated bounds except for the listed known findings")
prop("C25", "Compiled windows, quantization, recurrence and control flow are right",
 "A model of Conv, ConvTranspose, pooling, BatchNormalization, Resize by the nearest neighbour, QuantizeLinear, DequantizeLinear, DynamicQuantizeLinear, QLinearMatMul, RNN, GRU, LSTM, If, Loop, Scan or Einsum compiled by onnx-mlir at any optimization level gives for every input the values ONNX specifies (for floats: wherever those are exact): any padding, automatic or explicit, stride, dilation, group, rounding of ties, saturation, direction, optional operand, condition and trip count; all accesses stay within the buffers and nothing leaks.",
 ["programs", "inputs", "configurations"], "25 models, images of up to 4x5, loops of up to 3 iterations, --O0, --O3 and --O3 with SIMD",
 "backend tests sample one input per operator and skip most combinations of padding, stride and dilation",
 [CV + "NN", CV + "RNN", CV + "ControlFlow", CV + "Quantization", "src/Dialect/ONNX/Transforms"], [("ONNXConvOpLowering", CV + "NN/Conv.cpp"), ("ONNXPoolOpLowering", CV + "NN/Pooling.cpp"), ("ONNXLoopOpLowering", CV + "ControlFlow/Loop.cpp"), ("ONNXLSTMOp, ONNXGRUOp, ONNXRNNOp lowering", CV + "RNN")],
 "exhaustive within the stated bounds except for the listed known findings")

prop("C26", "Rewriting a model graph keeps its meaning",
 "Whatever rewritings the compiler applies to the graph of a model (canonicalization, fusion of operators, decomposition into and recomposition from others, constant folding, simplification of shape arithmetic, upgrades of old operator forms), at any optimization level, the compiled model gives for every input the values that the graph as written specifies, for chains of layout operators, products and convolutions followed by additions, multiplications or normalizations, clips, casts, gathered constants and computed shapes; models in these forms compile.",
 ["programs", "inputs", "configurations"], "23 models, dimensions up to 4, --O0, --O3 and --O3 with SIMD",
 "lit tests compare the text of the rewritten graph with an expected text; none decides that both mean the same for all inputs",
 ["src/Dialect/ONNX/ONNXOps/Canonicalize.td", "src/Dialect/ONNX/ONNXOps/Canonicalize.cpp", "src/Dialect/ONNX/Transforms"], [("canonicalization patterns", "src/Dialect/ONNX/ONNXOps/Canonicalize.td"), ("decompositions", "src/Dialect/ONNX/Transforms/Decompose.td"), ("constant propagation", "src/Dialect/ONNX/Transforms/ConstProp.td")],
 "exhaustive within the stated bounds except for the listed known findings")

NA = [
 ("N01", "Accelerator code and transcendental functions are accurate", "Code emitted for the NNPA accelerator computes what ONNX specifies, and exponentials, logarithms and trigonometric functions of compiled models are accurate.",
  ["programs", "inputs"], "all models and inputs", "backend tests sample a few inputs per operator", ["src/Accelerators/NNPA", "src/Conversion/ONNXToKrnl/Math"],
  "NNPA code runs only on that hardware with the zDNN library, absent here; libm functions are not reducible to the solver's theories, so Exp, Log, Softmax, Erf and the like cannot be decided"),
 ("N02", "Python bindings round-trip arrays", "Arrays passed to and returned from a compiled model through the Python binding keep values, types, shapes and strides.",
  ["inputs"], "all arrays", "tests use a few numpy arrays", ["src/Runtime/python"],
  "pybind11 is not part of this sandbox's build, so the binding cannot be compiled"),
 ("N03", "Java bindings round-trip tensors and errors", "Tensors passed to and returned from a compiled model through JNI keep values, types and shapes, and failures surface as exceptions.",
  ["inputs"], "all tensors", "tests use one model", ["src/Runtime/jni"],
  "the JNI wrapper only runs against a JVM's function table; symbolic execution of the JVM is out of reach and a stub table would verify the stub"),
]
