SPECS = {}
RT = ["src/Runtime/" + x for x in """OMExternalConstant.c OMIndexLookup.c OMInstrument.c OMRandomNormal.c OMRandomUniform.c OMResize.c
 OMSort.c OMTopK.c OMTensor.c OMTensorList.c OMUnique.c OnnxDataType.c""".split()] + ["src/Support/SmallFPConversion.c"]
CORE = ["src/Runtime/OMTensor.c", "src/Runtime/OMTensorList.c", "src/Runtime/OnnxDataType.c", "src/Runtime/OMInstrument.c", "src/Support/SmallFPConversion.c"]
COREXX = [x.replace("OMTensor.c", "OMTensor.cpp").replace("OMTensorList.c", "OMTensorList.cpp") for x in CORE]
BOTH = [dict(name="c", repo=CORE), dict(name="cxx", repo=COREXX, cflags=["-DRT_CXX"])]
SPECS["C01"] = dict(harness=["c01.c"], parts=BOTH,
    bounds="ranks 0..4 (quick) / 0..6 (thorough), every dimension in 0..1000 (0..2 where storage is allocated), all 22 element types, lists of 0..3/0..5 tensors, every 64-bit value for setters and indices")
SPECS["C02"] = dict(harness=["c02.c"], parts=BOTH,
    bounds="one tensor through all histories of 3 (quick) / 4 (thorough) operations from every creator, lists of 0..3/0..4 tensors, allocation failure at every allocation of every creator")
SORT = ["src/Runtime/OMSort.c", "src/Runtime/OMTopK.c"] + CORE
SPECS["C03"] = dict(harness=["c03.c"], repo=SORT, wraps=["rand"], bounds="1..3 (4) elements for 12 element types, 4 (5) for int32/float(/uint8), ranks 2..6 with up to 3 slices of 2; any value but NaN; portable sort up to 3 elements with pivots from a generator of 6 values per draw")
SPECS["C04"] = dict(harness=["c04.c"], repo=SORT, bounds="1..3 elements for 12 element types and every k, 4 (5) for int32/float, 6 (8) booleans, ranks 2..6 with two slices of 3; any value but NaN")
SPECS["C05"] = dict(harness=["c05.c"], repo=["src/Runtime/OMUnique.c"] + CORE, bounds="1..3 elements for 11 element types, 2x2 (2x3) for int8/int64, shapes 2x3, 3x2, 2x2x2, 1x3x2 with every axis, all output subsets; any value but NaN")
SPECS["C06"] = dict(harness=["c06.cpp"], repo=["src/Runtime/OMIndexLookup.c", "src/Conversion/ONNXToKrnl/PerfectHash.cpp"] + CORE, libs=["mlir"], mlir=True, bounds="strings: dictionaries of 1 (2) arbitrary strings of up to 2 bytes and of 2..4 (7) words with one arbitrary key of up to 1 (2) bytes; integers: 1..3 (5) with one arbitrary key in -12..20 (-99..999), all triples of 8 fixed integers including the extremes; unknown keys of up to 1 (2) bytes / in -20..120 (-999..9999)")
SPECS["C07"] = dict(harness=["c07.cpp"], repo=["src/Support/SmallFP.cpp"] + CORE, libs=["mlir"], mlir=True, bounds="every 16-bit pattern and every float for the C conversions and the two 16-bit classes, every double with exponent near the half range (2^-27..2^17; 2^-33..2^22 thorough) and all others by class; the four 8-bit formats by complete case split over the 256 patterns and the quarter points between neighbours (APFloat is a native library)")
SPECS["C08"] = dict(harness=["c08.c"], repo=["src/Runtime/OMResize.c"] + CORE, bounds="ranks 1..5, every axis, sizes 1..3 -> 1..6 (4 -> 9 thorough) for nearest with arbitrary element values in steps of 1/8 up to 12500, ratios 1/2, 1, 2 and 4 with integer element values up to 100 (linear) or 8 (cubic); the data is chosen so that no intermediate value rounds; upsampling by non-representable ratios only where no exact tie exists")
SPECS["C09"] = dict(harness=["c09.c"], repo=["src/Runtime/OMRandomNormal.c", "src/Runtime/OMRandomUniform.c"] + CORE, wraps=["rand", "srand", "log", "cos"], bounds="0..2 values per call; the C library generator is an arbitrary sequence of 31-bit draws per seed, log and cos arbitrary values of their range (3 and 33 values); four sets of bounds, 3 seeds, 3 means, 3 scales")
SPECS["C10"] = dict(harness=["c10.c"], repo=CORE, print=False, wraps="getenv gettimeofday fopen popen fgets fgetc feof pclose fflush fprintf printf fputs puts fputc putc putchar fwrite".split(), bounds="every tag (20 bits); every history of 3 (4 thorough) points over two operations with any combination of before/after, time and memory reporting; 16 environments; two consecutive runs; 8191..8194 points (the buffer holds 8192); clock, ps and the output file are stand-ins")
IOW = "getenv open close fstat fstat64 __fxstat lseek mmap munmap read".split()
SPECS["C11"] = dict(harness=["c11.c"], wraps=IOW, bounds="two files of 0..4 arbitrary bytes, requested sizes -1..4, either byte order, base path set or not, a failure of open, mmap or any read, all splits into short reads; histories of 5 (6 thorough) load/unload steps over two constants; every base, offset and output address; the file system is a stand-in", parts=[dict(name="mmap", repo=["src/Runtime/OMExternalConstant.c"]),
    dict(name="malloc", repo=[("src/Runtime/OMExternalConstant.c", ["-D__MVS__", "-D__MAP_MEGA=MAP_SHARED"])], cflags=["-DMALLOC_PATH"])])
EA = "src/Dialect/ONNX/ElementsAttr/"
SPECS["C13"] = dict(harness=["c13.cpp"], repo=[EA + "Strides.cpp"], libs=["mlir"], mlir=True, bounds="positions: rank <= 4 (5) with any 64-bit index and strides; iteration over 0..3 tensors: rank <= 3 (4), dimensions <= 2 (3 at rank 2), any strides within +-2^40 (+-2^11 at rank 4); default/splat strides and index flattening: rank <= 4 (5), dimensions 0..3; reshape: every pair of shapes of the same size <= 12, rank <= 3 (4), strides 0..1000; expand: rank <= 3 plus 2 new dimensions; transpose: rank <= 4 (5); unpacking: elements of 1, 2, 4, 8 bytes, rank <= 3 plus one broadcast dimension")
EACPP = [EA + x for x in "BType.cpp DisposableElementsAttr.cpp DisposablePool.cpp ElementsAttrBuilder.cpp ElementsAttrHelper.cpp Strides.cpp WideNum.cpp".split()] + ["src/Support/TypeUtilities.cpp", "src/Support/SmallFP.cpp", "src/Support/SmallFPConversion.c"]
EAW = ["_ZN4llvm20WritableMemoryBuffer21getNewUninitMemBufferEmRKNS_5TwineESt8optionalINS_5AlignEE"]
SPECS["C14"] = dict(harness=["c14.cpp"], repo=EACPP, libs=["mlir"], mlir=True, wraps=EAW, bounds="every chain of 2 view steps (transpose, reshape, expand, element-wise function) from a disposable or dense source of rank <= 2 (3) with dimensions 2, 1, 3, up to 8 elements and rank 3 afterwards, all element values symbolic, for float, int32, int8 and int64 (1 step for uint8, int16, double, bool 1..2; 3 steps for int16 in thorough); dense attributes read by MLIR itself (7 element types, up to 2x2, values from a set of 2 (3)); splats; wide buffers", budget=dict(quick=200, thorough=800))
SPECS["C12"] = dict(harness=["c12.cpp"], repo=[EA + "BType.cpp", EA + "WideNum.cpp", "src/Support/TypeUtilities.cpp", "src/Support/SmallFP.cpp", "src/Support/SmallFPConversion.c", "src/Runtime/OnnxDataType.c"], libs=["mlir"], mlir=True, bounds="every element type; every value of the integer types, float, double, float16, bfloat16 and the 8-bit floats; APFloat conversions of wider floats on ten values; types of rank <= 3 with dimensions 0, 1, 3, 70000 and unknown")
SPECS["C15"] = dict(harness=["c15.cpp"], repo=EACPP, libs=["mlir"], mlir=True, wraps=EAW + ["_ZN4mlir11MLIRContext13getNumThreadsEv"], bounds="operands of rank <= 2 (3 thorough) with dimensions up to 2..3 and all element values, each plain, transposed, transformed, splat, broadcast, wider than its type or dense (8-byte types); combinations, selections and comparisons over every pair of broadcastable shapes of rank <= 2; casts: every float, double (16-bit targets; 64-bit targets thorough), all pairs of integer types and bool; casts to 8-bit floats on 14 values; split/concat into <= 3 parts, slices with steps -2..2, pads 0..2, up to 2 gather/scatter indices of either sign, matMul of ranks 1..3 (4) with M, N, K <= 2, ranges of up to 4 numbers; large constants: 999..1007 elements (2000 for reduction) and 1..8 (16) threads, the pieces run one after the other", budget=dict(quick=240, thorough=800))
SPECS["C16"] = dict(harness=["c16.cpp"], repo=EACPP, libs=["mlir"], mlir=True, wraps=EAW + ["_ZN4mlir11MLIRContext13getNumThreadsEv", "_ZN4mlir17DenseElementsAttr16getFromRawBufferENS_10ShapedTypeEN4llvm8ArrayRefIcEE"], budget=dict(quick=200, thorough=850), bounds="every history of 4 (5 thorough) steps (new constant, view of another, same constant twice, removal, collection, scrub, unattached constant) over two operations in nested modules, then scrub, close and one more constant, all element values; 1..30 constants with 1 large one scrubbed by 1..4 workers that run one after the other (interleavings of the workers are not explored)")
SPECS["C17"] = dict(harness=["c17.cpp"], repo=["src/Compiler/CommandUtils.cpp"], bounds="lines of up to 3 words (1 of <= 3, 2 of <= 2 characters) of any bytes in any quoting, any line of up to 4 (5) bytes; options with up to 3 arbitrary bytes, names and stems of up to 3 arbitrary bytes, all targets; output directories from a set of 5 with names of up to 2 (3) characters over {letter, dot, slash, space}")
SPECS["SELF"] = dict(harness=["self.cpp"], repo=[], bounds="engine self-test, not a property")
FORKW = "fork execvp execv waitpid open dup2 close exit _exit _Exit".split()
SPECS["C18"] = dict(harness=["c18.cpp"], repo=["src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp"], wraps=FORKW + "fprintf printf fputs fputc putc putchar puts fwrite fflush".split(), print=False, bounds='histories of 2 (3) append/list/reset steps with arguments of up to 2 arbitrary bytes; 4 program paths, 5 working directories, log file or not; every exit code, signal and errno, failing fork, up to 2 interrupted waits, lost child; printed commands with up to 2 arguments; processes are a model (fork returns twice, exec/open/dup2 recorded)')
SPECS["C19"] = dict(harness=["c19.cpp"], repo=["src/Compiler/OMCompile.cpp", "src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp"], wraps=FORKW + ["_ZNSt10filesystem6statusERKNS_7__cxx114pathE"], bounds='models from 3 relative or absolute paths given directly or in the flags, 5 forms of output name, all targets, tags, 3 output directories, any one-byte quoted option; 7 fates of the compiler (success, with constants, any exit code, signal, not started, no output, no model); histories of 2 (3) compilations; container setup over all engine, image, pull, socket and DinD combinations, container compilations with 10 special characters and a host prefix; compiler and engines are models, files are real in a scratch directory')
SPECS["C20"] = dict(asan=False, harness=["c20.cpp"], repo=["src/Runtime/ExecutionSession.cpp"] + COREXX, wraps="getenv setenv unsetenv strcasecmp dlopen dlsym dlclose sigaction".split(), bounds='six library paths with tags from the file name, any spelling of NONE or any tag of up to 2 (3) bytes, each required or optional symbol missing, OM_CONSTANT_PATH set or not, failing dlopen; histories of 3 (4) steps (setting an existing or missing entry point, signatures, names, runs on a list or a vector with 0..2 inputs and outputs or failing, filled inputs with any seed); 1..2 (3) guarded or unguarded runs that end, fail with any errno, or crash with any of the 5 signals; failing allocation of the list; library, environment, signals are models')
SPECS["C21"] = dict(harness=["c21.cpp"], repo=[("src/Runtime/OMTensorHelper.cpp", ["-include", "c21_rng.h"]), "src/Runtime/OMTensorListHelper.cpp"] + COREXX, bounds="12 numeric types and strings, shapes of up to 3 elements or empty, several bounds per type with the extremes of the wide types, every value of the generator's draws (at most one rejected draw); arrays of up to 3 strings of up to 3 bytes; ones-then-zeros over 8 shapes and counts -1..5; signatures of 1..3 inputs with up to 2 shape or value entries from stated sets; 16 malformed requests; failing allocations", budget=dict(quick=300, thorough=800))
SPECS["C22"] = dict(harness=["c22.cpp"], repo=CORE, models=True, budget=dict(quick=250, thorough=600), bounds="models stated in harness/c22.cpp, each compiled at --O0, --O3 and --O3 --march=x86-64; dynamic dimensions 0..3 and vectors with tails of up to 12 elements; every value of every integer, bool, float and double element, except: float arithmetic on at most 4 symbolic elements, transcendental functions not covered, Mod with fmod on ints, signed BitShift and Shrink on ints not compiled by this version")
SPECS["C23"] = dict(harness=["c23.cpp"], repo=CORE, models=True, budget=dict(quick=250, thorough=600), bounds="models stated in harness/c23.cpp, each compiled at --O0, --O3 and --O3 --march=x86-64; ranks 1..4, dynamic dimensions 0..3, all element values; run-time indices, starts, ends, steps, pads, repeats and shapes over their valid range (starts and ends also at the extremes of int64)")
SPECS["C24"] = dict(harness=["c24.cpp"], repo=SORT, models=True, budget=dict(quick=250, thorough=600), bounds="models stated in harness/c24.cpp, each compiled at --O0, --O3 and --O3 --march=x86-64; dimensions 0..3 and 4x8x8, 5x9x10 for tiles and tails; integers: all values; floats: integers of magnitude up to 100 at two symbolic positions, every position in turn (all sums exact, so the order of additions is not observable), orderings over 3..6 symbolic values")
SPECS["C25"] = dict(harness=["c25.cpp"], repo=CORE + ["src/Runtime/OMResize.c"], models=True, bounds="models stated in harness/c25.cpp, each compiled at --O0, --O3 and --O3 --march=x86-64; windows of up to 3x3 over images of up to 4x5, batch 1..2, all paddings, strides, dilations and groups shown there; floats that are integers of magnitude up to 100 (windows) or 3..20 (recurrence) at one or two symbolic positions in turn, 3 symbolic elements for max pooling; quantization of all multiples of 1/2 of the scale in [-350,350]; all values in control flow, loops of up to 3 iterations; recurrence of 2 steps with Relu activations", budget=dict(quick=250, thorough=600))

SPECS["C26"] = dict(harness=["c26.cpp"], repo=CORE, models=True, bounds="models stated in harness/c26.cpp, each compiled at --O0, --O3 and --O3 --march=x86-64: chains of Transpose, Reshape, Squeeze, Unsqueeze, Clip, Cast, Slice, Concat, Split, DepthToSpace; products and convolutions with what folds into them; constants to gather and fold; shape arithmetic; old forms of operators; dynamic dimensions 0..3; all values of integers and of floats that are only moved or compared; floats that are integers of magnitude up to 40 at one or two symbolic positions in turn where they are multiplied", budget=dict(quick=250, thorough=600))
