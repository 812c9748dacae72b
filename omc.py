#!/usr/bin/env python3
"""Builds onnx-mlir's compiler (importer, ONNX/Krnl dialects, passes, conversions) from
/repo's working tree against the installed LLVM/MLIR 20 and turns ONNX models into LLVM IR.

The sources target a newer MLIR; the differences are bridged by shadow copies of installed
headers (patched below), never by touching the sources themselves."""
import concurrent.futures as cf
import glob, hashlib, os, re, subprocess, sys
from os.path import join

I20 = "/usr/lib/llvm-20/include"
TBL = [  # (input, output, flags)
    ("src/Interface/%s.td" % i, "src/Interface/%s.%s.inc" % (i, x), ["-gen-op-interface-" + y])
    for i in ("ShapeInferenceOpInterface", "ShapeHelperOpInterface", "ResultTypeInferenceOpInterface",
              "HasOnnxSubgraphOpInterface", "SpecializedKernelOpInterface") for x, y in (("cpp", "defs"), ("hpp", "decls"))]
for d, n, td in (("Krnl", "krnl", "Krnl"), ("ONNX", "onnx", "ONNX")):
    for x, y in (("cpp", "defs"), ("hpp", "decls")):
        b = "src/Dialect/%s/" % d
        TBL += [(b + td + ".td", b + td + "Attributes.%s.inc" % x, ["-gen-attrdef-" + y, "-attrdefs-dialect=" + n]),
                (b + td + ".td", b + td + "Dialect.%s.inc" % x, ["-gen-dialect-" + y, "-dialect=" + n]),
                (b + td + ".td", b + td + "Ops.%s.inc" % x, ["-gen-op-" + y]),
                (b + td + ".td", b + td + "Types.%s.inc" % x, ["-gen-typedef-" + y, "-typedefs-dialect=" + n])]
TBL += [("src/Dialect/ONNX/ONNXOps/Canonicalize.td", "src/Dialect/ONNX/ONNXOps/ONNXCanonicalize.inc", ["-gen-rewriters"])]
for n in ("Decompose", "ConstProp", "ConvOpt"):
    TBL += [("src/Dialect/ONNX/Transforms/%s.td" % n, "src/Dialect/ONNX/Transforms/ONNX%s.inc" % n, ["-gen-rewriters"])]
TBL += [("src/Dialect/ONNX/Transforms/Passes.td", "src/Dialect/ONNX/Transforms/Passes.h.inc", ["-gen-pass-decls", "-name", "ONNXTransforms"]),
        ("src/Transform/PassesKrnl.td", "src/Transform/PassesKrnl.h.inc", ["-gen-pass-decls", "-name", "TransformsKrnl"]),
        ("src/Transform/Passes.td", "src/Transform/Passes.h.inc", ["-gen-pass-decls", "-name", "Transforms"])]

CREATE = '''  // MLIR 21: OpTy::create(builder, [location,] arguments...)
  template <typename B, typename... Args>
  static %s create(B &builder, Args &&...args) {
    return builder.template create<%s>(std::forward<Args>(args)...);
  }
'''


def shadow(d):
    """Copies of installed headers with the additions the sources expect from their MLIR."""
    def patch(rel, subs, base=I20):
        s = open(join(base, rel)).read()
        for old, new in subs:
            if s.count(old) < 1:
                raise RuntimeError("shadow header %s: no %r" % (rel, old))
            s = s.replace(old, new, 1)
        p = join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    patch("mlir/IR/OpDefinition.h", [(
        "  /// Return if this operation contains the provided trait.\n  template <template <typename T> class Trait>\n"
        "  static constexpr bool hasTrait() {\n    return llvm::is_one_of<",
        CREATE % ("ConcreteType", "ConcreteType") +
        "  /// Return if this operation contains the provided trait.\n  template <template <typename T> class Trait>\n"
        "  static constexpr bool hasTrait() {\n    return llvm::is_one_of<")])
    a = []
    for c in ("ConstantIntOp", "ConstantFloatOp", "ConstantIndexOp"):
        x = CREATE % (c, c)
        if c == "ConstantIntOp":
            x += "  static void build(OpBuilder &b, OperationState &r, Type type, int64_t value) { build(b, r, value, type); }\n"
        if c == "ConstantFloatOp":
            x += "  static void build(OpBuilder &b, OperationState &r, FloatType type, const APFloat &value) { build(b, r, value, type); }\n"
        h = "class %s : public arith::ConstantOp {\npublic:\n" % c
        a.append((h, h + x))
    patch("mlir/Dialect/Arith/IR/Arith.h", a)
    patch("mlir/IR/Types.h", [("  bool isF64() const;", "  bool isF64() const;\n  bool isFloat() const;")])
    s = open(join(I20, "mlir/IR/BuiltinTypes.h")).read()
    k = s.rindex("#endif")
    patch("mlir/IR/BuiltinTypes.h", [(s[k:], "namespace mlir { inline bool Type::isFloat() const { return llvm::isa<FloatType>(*this); } }\n" + s[k:])])
    patch("mlir/Dialect/Vector/Transforms/VectorTransforms.h", [(
        "struct VectorTransformsOptions {",
        "struct VectorTransformsOptions {\n  VectorTransformsOptions() = default;\n"
        "  VectorTransformsOptions(VectorContractLowering o) : vectorContractLowering(o) {}\n"
        "  VectorTransformsOptions(VectorTransposeLowering o) : vectorTransposeLowering(o) {}\n")])
    patch("mlir/Conversion/LLVMCommon/MemRefBuilder.h", [(
        "  /// Builds IR creating an `undef` value of the descriptor type.\n  static MemRefDescriptor undef(",
        "  static MemRefDescriptor poison(OpBuilder &b, Location l, Type t) { return undef(b, l, t); }\n"
        "  /// Builds IR creating an `undef` value of the descriptor type.\n  static MemRefDescriptor undef(")])
    patch("mlir/Dialect/Bufferization/Transforms/Passes.h", [(
        "struct OneShotBufferizationOptions;", "struct OneShotBufferizationOptions;\nusing OneShotBufferizePassOptions = OneShotBufferizationOptions;"), (
        '#include "mlir/Dialect/Bufferization/IR/BufferDeallocationOpInterface.h"',
        '#include "mlir/Dialect/Bufferization/IR/BufferDeallocationOpInterface.h"\n#include "mlir/Dialect/Bufferization/Transforms/OneShotAnalysis.h"')])
    patch("mlir/Conversion/BufferizationToMemRef/BufferizationToMemRef.h", [(
        "std::unique_ptr<Pass> createBufferizationToMemRefPass();",
        "std::unique_ptr<Pass> createBufferizationToMemRefPass();\ninline std::unique_ptr<Pass> createConvertBufferizationToMemRefPass() { return createBufferizationToMemRefPass(); }")])
    patch("mlir/Conversion/SCFToControlFlow/SCFToControlFlow.h", [(
        "std::unique_ptr<Pass> createConvertSCFToCFPass();",
        "std::unique_ptr<Pass> createConvertSCFToCFPass();\ninline std::unique_ptr<Pass> createSCFToControlFlowPass() { return createConvertSCFToCFPass(); }")])
    patch("mlir/Transforms/GreedyPatternRewriteDriver.h", [(
        "  bool useTopDownTraversal = false;",
        "  GreedyRewriteConfig &setUseTopDownTraversal(bool v = true) { useTopDownTraversal = v; return *this; }\n"
        "  GreedyRewriteConfig &setMaxNumRewrites(int64_t v) { maxNumRewrites = v; return *this; }\n"
        "  GreedyRewriteConfig &setMaxIterations(int64_t v) { maxIterations = v; return *this; }\n"
        "  bool useTopDownTraversal = false;")])
    patch("mlir/Dialect/OpenMP/OpenMPOps.h.inc", [(
        "  ::mlir::MutableOperandRange getNumThreadsMutable();",
        "  ::mlir::MutableOperandRange getNumThreadsMutable();\n  ::mlir::MutableOperandRange getNumThreadsVarsMutable() { return getNumThreadsMutable(); }")])
    s = open(join(I20, "mlir/Interfaces/FunctionInterfaces.h.inc")).read()
    subs = []
    body = "removeResultAttr(unsigned index, ::mlir::StringAttr name) {"
    out, pos = "", 0
    while True:
        k = s.find("    ::mlir::Attribute " + body, pos)
        if k < 0:
            break
        which = "(*this)" if "(*this)" in s[k:k + 250].split("\n")[1] else "(*static_cast<ConcreteOp *>(this))"
        out += s[pos:k] + ("    ::mlir::Attribute removeResultAttr(unsigned index, ::llvm::StringRef name) {\n"
                           "      return removeResultAttr(index, ::mlir::StringAttr::get(%s->getContext(), name));\n    }\n" % which) + "    ::mlir::Attribute " + body
        pos = k + len("    ::mlir::Attribute " + body)
    out += s[pos:]
    p = join(d, "mlir/Interfaces/FunctionInterfaces.h.inc")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != out:
        open(p, "w").write(out)
    patch("mlir/Dialect/LLVMIR/LLVMOpsAttrDefs.h.inc", [(
        "  static DICompileUnitAttr get(::mlir::MLIRContext *context, DistinctAttr id,",
        "  template <typename F> static DICompileUnitAttr get(::mlir::MLIRContext *context, DistinctAttr id, unsigned l, F f, StringAttr p, bool o, DIEmissionKind k, DINameTableKind n, StringAttr) { return get(context, id, l, f, p, o, k, n); }\n"
        "  static DICompileUnitAttr get(::mlir::MLIRContext *context, DistinctAttr id,")])
    s = open(join(I20, "mlir/Dialect/LLVMIR/LLVMOps.h.inc")).read()
    s = s.replace('#include "mlir/Dialect/LLVMIR/LLVMOps.h.inc"', "")
    m = re.search(r"class InlineAsmOp : public.*?\n  static void build\(", s, re.S)
    x = ("  static void build(::mlir::OpBuilder &b, ::mlir::OperationState &s, ::mlir::Type r, ::mlir::ValueRange o, ::llvm::StringRef a, ::llvm::StringRef c, bool e, bool l, ::mlir::LLVM::TailCallKind, ::mlir::LLVM::AsmDialectAttr d, ::mlir::ArrayAttr t) "
         "{ build(b, s, r, o, a, c, e, l, d, t); }\n  static void build(")
    s = s[:m.end() - len("  static void build(")] + x + s[m.end():]
    for c, f in (("GlobalCtorsOp", "ctors"), ("GlobalDtorsOp", "dtors")):
        m = re.search(r"class %s : public.*?\n  static void build\(" % c, s, re.S)
        x = ("  static void build(::mlir::OpBuilder &b, ::mlir::OperationState &s, ::mlir::ArrayAttr a, ::mlir::ArrayAttr p, ::mlir::ArrayAttr) "
             "{ build(b, s, a, p); }\n  static void build(")
        s = s[:m.end() - len("  static void build(")] + x + s[m.end():]
    p = join(d, "mlir/Dialect/LLVMIR/LLVMOps.h.inc")
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
    patch("llvm/MC/TargetRegistry.h", [
        ("  static const Target *lookupTarget(StringRef Triple, std::string &Error);",
         "  static const Target *lookupTarget(StringRef Triple, std::string &Error);\n"
         "  static const Target *lookupTarget(const llvm::Triple &T, std::string &Error) { return lookupTarget(StringRef(T.str()), Error); }"),
        ("  TargetMachine *createTargetMachine(\n      StringRef TT,",
         "  TargetMachine *createTargetMachine(const Triple &TT, StringRef CPU, StringRef F, const TargetOptions &O, std::optional<Reloc::Model> RM) const { return createTargetMachine(StringRef(TT.str()), CPU, F, O, RM); }\n"
         "  TargetMachine *createTargetMachine(\n      StringRef TT,")])
    # onnx 1.14's protobuf header lacks the newer element types
    new = [("UINT4", 21), ("INT4", 22), ("FLOAT4E2M1", 23), ("FLOAT8E8M0", 24), ("UINT2", 25), ("INT2", 26)]
    patch("onnx/onnx-ml.pb.h", [
        ("  TensorProto_DataType_FLOAT8E5M2FNUZ = 20\n", "  TensorProto_DataType_FLOAT8E5M2FNUZ = 20,\n" +
         ",\n".join("  TensorProto_DataType_%s = %d" % x for x in new) + "\n"),
        ("  static inline bool DataType_IsValid(int value) {\n    return TensorProto_DataType_IsValid",
         "".join("  static constexpr DataType %s = TensorProto_DataType_%s;\n" % (n, n) for n, _ in new) +
         "  static inline bool DataType_IsValid(int value) {\n    return TensorProto_DataType_IsValid")], "/usr/include")
    for rel, text in (
            ("src/Accelerators/Accelerators.inc", "#define APPLY_TO_ACCELERATORS(MACRO, ...)\n#define APPLY_TO_NO_ACCELERATORS(MACRO) MACRO\n"),
            ("src/Compiler/ExternalUtil.hpp", "#ifndef ONNX_MLIR_EXTERNAL_UTIL_H\n#define ONNX_MLIR_EXTERNAL_UTIL_H\n#include <map>\n#include <string>\nnamespace onnx_mlir {\n"
             "static const std::string kExecPath = \"\", kInstPath = \"\", kDefaultTriple = \"x86_64-pc-linux-gnu\", kLrodataScript = \"\";\n"
             "static const std::map<std::string, std::string> toolPathMap = {{\"instPath\", \"\"}, {\"opt\", \"/usr/lib/llvm-20/bin/opt\"}, {\"llc\", \"/usr/lib/llvm-20/bin/llc\"}, {\"defaultTriple\", kDefaultTriple}, {\"lrodataScript\", \"\"}};\n}\n#endif\n"),
            ("ExternalUtil.hpp", '#include "src/Compiler/ExternalUtil.hpp"\n'),
            ("VCSVersion.inc", "#undef ONNX_MLIR_REVISION\n#undef ONNX_MLIR_REPOSITORY\n")):
        p = join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)


def sources(repo):
    out = []
    for pat in ("src/Dialect/**/*.cpp", "src/Builder/*.cpp", "src/Conversion/KrnlToAffine/*.cpp", "src/Conversion/KrnlSeqToMemref/*.cpp",
                "src/Conversion/KrnlToLLVM/*.cpp", "src/Conversion/ONNXConversionCommon/**/*.cpp", "src/Conversion/ONNXToKrnl/**/*.cpp",
                "src/Transform/**/*.cpp", "src/Interface/*.cpp", "src/Support/*.cpp", "src/Accelerators/*.cpp", "src/Pass/*.cpp"):
        out += glob.glob(join(repo, pat), recursive=True)
    out += [join(repo, "src/Compiler", x) for x in ("CompilerOptions.cpp", "CompilerPasses.cpp", "CompilerDialects.cpp", "OptionUtils.cpp",
            "CompilerUtils.cpp", "Command.cpp", "CommandUtils.cpp",
            "DisposableGarbageCollector.cpp", "HeapReporter.cpp", "JsonConfigObject.cpp")]
    out += [join(repo, x) for x in ("src/Support/SmallFPConversion.c", "src/onnx-mlir.cpp", "src/Version/Version.cpp")]
    return sorted(set(out))


def flags(repo, b):
    return ["-std=c++17", "-O0", "-fPIC", "-w", "-fno-rtti", "-fexceptions", "-I" + join(b, "shadow"), "-I" + join(b, "gen"), "-I" + join(repo, "include"), "-I" + repo,
            "-isystem" + I20, "-DONNX_ML=1", "-DONNX_NAMESPACE=onnx", "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
            '-DLLVM_PACKAGE_VERSION="20.1.2"', '-DONNX_MLIR_VERSION="0.5.1"', '-DPRODUCT_ID="NOT_SPECIFIED"', "-DPRODUCT_VERSION_MAJOR=0",
            "-DPRODUCT_VERSION_MINOR=0", "-DPRODUCT_VERSION_PATCH=0"]


def build(repo, b, compile_one, sh, fhash, jobs=8, log=lambda *a: None):
    """Returns the path of the compiler, built in directory b."""
    os.makedirs(join(b, "o"), exist_ok=True)
    shadow(join(b, "shadow"))

    def tbl(t):
        src, out, f = t
        o, dep = join(b, "gen", out), join(b, "gen", out + ".d")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        cmd = ["mlir-tblgen-20" if False else "/usr/lib/llvm-20/bin/mlir-tblgen"] + f + ["-I" + repo, "-I" + os.path.dirname(join(repo, src)), "-I" + I20,
               join(repo, src), "--write-if-changed", "-o", o, "-d", dep]

        def key():
            if not os.path.exists(dep):
                return None
            ds = sorted(x for x in {join(repo, src)} | set(open(dep).read().replace("\\\n", " ").split()) if x.startswith(repo + "/"))
            return hashlib.sha1((" ".join(cmd) + "".join(x + fhash(x) for x in ds)).encode()).hexdigest()
        st = o + ".stamp"
        if os.path.exists(o) and os.path.exists(st) and open(st).read() == key():
            return
        r = sh(cmd)
        if r.returncode:
            raise RuntimeError("tblgen %s\n%s" % (src, r.stdout[-3000:]))
        open(st, "w").write(key() or "")
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(tbl, TBL))
    F = flags(repo, b)
    here = os.path.dirname(os.path.abspath(__file__))
    pch = join(b, "pch.hpp.pch")
    compile_one(["clang++-18", "-x", "c++-header", "-Xclang", "-fno-pch-timestamp"] + F, join(here, "engine/omc/pch.hpp"), pch)
    pk = fhash(pch)

    def one(src):
        o = join(b, "o", re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, repo if src.startswith(repo + "/") else here)) + ".o")
        if src.endswith(".c"):
            compile_one(["clang-18", "-O1", "-fPIC", "-w", "-I" + repo, "-I" + join(repo, "include")], src, o)
        else:
            compile_one(["clang++-18"] + F + ["-include-pch", pch], src, o, extra=[pch])
        return o
    srcs = sources(repo) + [join(here, "engine/omc/stubs.cpp")]
    # the largest translation units first
    srcs.sort(key=lambda s: -(1 << 30 if s.endswith(("ONNXOps.cpp", "ONNXDialect.cpp")) else os.path.getsize(s)))
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(one, s) for s in srcs]
    errs = [str(f.exception()) for f in futs if f.exception()]
    if errs:
        raise RuntimeError("\n".join(e[-1500:] for e in errs[:20]))
    objs = [f.result() for f in futs]
    exe = join(b, "omc")
    k = hashlib.sha1("".join(o + fhash(o) for o in objs).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(exe + ".stamp") and open(exe + ".stamp").read() == k):
        r = sh(["clang++-18", "-o", exe] + objs + ["-L/usr/lib/llvm-20/lib", "-Wl,-rpath,/usr/lib/llvm-20/lib", "-lMLIR", "-lLLVM", "-lonnx", "-lonnx_proto", "-lprotobuf"])
        if r.returncode:
            raise RuntimeError("link\n" + r.stdout[-6000:])
        open(exe + ".stamp", "w").write(k)
    return exe


if __name__ == "__main__":
    import time
    import run
    t = time.time()
    print(build(run.REPO, join(run.BUILD, "omc"), run.compile_one, run.sh, run.fhash), "%.0f s" % (time.time() - t))
