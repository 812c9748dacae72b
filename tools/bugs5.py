from mkbug import *
EAS = " ".join("src/Dialect/ONNX/ElementsAttr/" + x for x in "BType.cpp DisposableElementsAttr.cpp DisposablePool.cpp ElementsAttrBuilder.cpp ElementsAttrHelper.cpp Strides.cpp WideNum.cpp".split()) + " src/Support/TypeUtilities.cpp src/Support/SmallFP.cpp"
EAB = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
I="-I include -I . -I /usr/lib/llvm-20/include"
gcc -O1 -w $I -c src/Support/SmallFPConversion.c -o "$W/l.o"
g++ -std=c++17 -fno-rtti -O1 -w $I "$D/demo.cpp" """ + EAS + """ "$W/l.o" -L/usr/lib/llvm-20/lib -lMLIR -lLLVM-20 -Wl,-rpath,/usr/lib/llvm-20/lib -o "$W/demo"
cd "$W" && timeout 60 ./demo
"""
EAH = """#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/MLIRContext.h"
using namespace onnx_mlir; using namespace mlir;
struct D : Dialect { D(MLIRContext *c) : Dialect("d", c, TypeID::get<D>()) { addInterface<DisposablePool>(c); addAttributes<DisposableElementsAttr>(); }
  static constexpr StringRef getDialectNamespace() { return "d"; } };
static MLIRContext ctx(MLIRContext::Threading::DISABLED);
static DisposablePool *pool() { ctx.loadDialect<D>(); return DisposablePool::get<D>(&ctx); }
template <typename T> ElementsAttr mkAttr(DisposablePool *p, ArrayRef<int64_t> shape, std::vector<T> v) {
  return ElementsAttrBuilder(*p).fromArray<T>(RankedTensorType::get(shape, mlirTypeOfBType(toBType<T>, &ctx)), [&](MutableArrayRef<T> o) { std::copy(v.begin(), v.end(), o.begin()); });
}
"""
if __name__ == "__main__":
    EB = "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"
    DE = "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"
    mk("c14-reshape-narrow-buffer", "C14", [(EB, "reshapedType, disp.getBufferBType(), [disp]", "reshapedType, disp.getBType(), [disp]")],
     "reshaping, in a way strides cannot express, a transposed constant whose buffer is wider than its element type",
     "the copied buffer is declared to hold elements of the attribute's type although it holds wide ones", {"demo.sh": EAB, "demo.cpp": EAH + """
int main() {
  auto *p = pool(); ElementsAttrBuilder b(*p);
  auto e = b.fromWideNums(RankedTensorType::get({2, 2}, IntegerType::get(&ctx, 32)), [](MutableArrayRef<WideNum> o) { for (int i = 0; i < 4; ++i) o[i].i64 = i + 1; });
  e = b.reshape(b.transpose(e, {1, 0}), {4});
  auto a = getElementsArray<int32_t>(e);
  int32_t want[4] = {1, 3, 2, 4};
  for (int i = 0; i < 4; ++i) if (a.get()[i] != want[i]) return 1;
  return 0;
}
"""})
    mk("c14-compose-order", "C14", [(EB, "      fst(dst);\n      snd(dst);\n", "      snd(dst);\n      fst(dst);\n")],
     "two element-wise functions that do not commute applied to the same constant before it is read", "composed element-wise functions are applied in the wrong order", {"demo.sh": EAB, "demo.cpp": EAH + """
static WideNum neg(WideNum n) { n.i64 = -n.i64; return n; }
static WideNum inc(WideNum n) { n.i64 += 1; return n; }
int main() {
  auto *p = pool(); ElementsAttrBuilder b(*p);
  auto e = mkAttr<int32_t>(p, {2}, {5, 7});
  e = b.transform(b.transform(e, e.getElementType(), neg), e.getElementType(), inc);
  return getElementsArray<int32_t>(e).get()[0] != -4;
}
"""})
    mk("c14-raw-bytes-view", "C14", [(DE, "  if (!isTransformedOrCast() && isContiguous())\n    return getBufferBytes();", "  if (!isTransformedOrCast() && (isContiguous() || areStridesSplat(getStrides())))\n    return getBufferBytes();")],
     "raw bytes of an expanded scalar", "the raw bytes of a splat view hold a single element", {"demo.sh": EAB, "demo.cpp": EAH + """
int main() {
  auto *p = pool(); ElementsAttrBuilder b(*p);
  auto e = b.expand(mkAttr<int32_t>(p, {1}, {5}), {3});
  return mlir::cast<DisposableElementsAttr>(e).getRawBytes().get().size() != 12;
}
"""})
