from mkbug import *
STR = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
I="-I include -I . -I /usr/lib/llvm-20/include"
g++ -std=c++17 -fno-rtti -O1 -w $I "$D/demo.cpp" src/Dialect/ONNX/ElementsAttr/Strides.cpp -L/usr/lib/llvm-20/lib -lMLIR -lLLVM-20 -Wl,-rpath,/usr/lib/llvm-20/lib -o "$W/demo"
cd "$W" && timeout 60 ./demo
"""
mk("c13-untranspose-cycle", "C13", [("src/Dialect/ONNX/ElementsAttr/Strides.cpp", "    unpermutedDims[perm[i]] = dims[i];", "    unpermutedDims[i] = dims[perm[i]];")],
 "a permutation of three or more axes that is not its own inverse", "untransposing permutes the dimensions the wrong way round", {"demo.sh": STR, "demo.cpp": """#include "src/Dialect/ONNX/ElementsAttr/Strides.hpp"
int main() { auto u = onnx_mlir::untransposeDims({10, 20, 30}, {1, 2, 0}); return !(u[1] == 10 && u[2] == 20 && u[0] == 30); }
"""})

BT = STR.replace("src/Dialect/ONNX/ElementsAttr/Strides.cpp", "src/Dialect/ONNX/ElementsAttr/BType.cpp src/Dialect/ONNX/ElementsAttr/WideNum.cpp src/Support/TypeUtilities.cpp src/Support/SmallFP.cpp -x c -std=c11 src/Support/SmallFPConversion.c -x none")
BT = BT.replace("g++ -std=c++17", "gcc -O1 -w $I -c src/Support/SmallFPConversion.c -o \"$W/l.o\"\ng++ -std=c++17").replace("-x c -std=c11 src/Support/SmallFPConversion.c -x none", "\"$W/l.o\"")
mk("c12-u64-as-signed", "C12", [("src/Dialect/ONNX/ElementsAttr/WideNum.hpp", "    case BType::UINT64:\n      return static_cast<T>(u64);\n", "      return static_cast<T>(u64);\n    case BType::UINT64:\n")],
 "an unsigned 64-bit value of 2^63 or more converted to a floating point type", "wide unsigned 64-bit numbers convert as if they were signed", {"demo.sh": BT, "demo.cpp": """#include "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"
using namespace onnx_mlir;
int main() { volatile uint64_t x = ~0ull; return !(WideNum::from<uint64_t>(BType::UINT64, x).to<double>(BType::UINT64) > 0); }
"""})
mk("c12-dim-from-end", "C12", [("src/Support/TypeUtilities.cpp", "        vectorType.getElementTypeBitWidth() * vectorType.getNumElements();", "        vectorType.getElementTypeBitWidth() * vectorType.getShape().back();")],
 "elements that are vectors of rank two or more", "the element size counts only the innermost vector dimension", {"demo.sh": BT, "demo.cpp": """#include "src/Support/TypeUtilities.hpp"
#include "mlir/IR/MLIRContext.h"
int main() { mlir::MLIRContext c; auto v = mlir::VectorType::get({2, 3}, mlir::Float32Type::get(&c)); return onnx_mlir::getEltSizeInBytes(mlir::MemRefType::get({5}, v)) != 24; }
"""})
