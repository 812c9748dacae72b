from mkbug import *
import sys
mk("c01-zero-dim-stride", "C01", [("src/Runtime/OMTensor.inc", "      tensor->_strides[i] = tensor->_strides[i + 1] * tensor->_shape[i + 1];\n  }\n  return tensor;", "      tensor->_strides[i] =\n          tensor->_strides[i + 1] *\n          (tensor->_shape[i + 1] > 0 ? tensor->_shape[i + 1] : 1);\n  }\n  return tensor;")],
 "a tensor with a zero dimension that is not the first one", "the strides of an empty tensor are no longer the row-major products of the dimensions", {"demo.sh": cdemo(), "demo.c": '''
#include "OnnxMlirRuntime.h"
int main() { int64_t d[3] = {2, 0, 3}; OMTensor *t = omTensorCreate(0, d, 3, ONNX_TYPE_FLOAT);
  const int64_t *s = omTensorGetStrides(t); return !(s[0] == 0 && s[1] == 3 && s[2] == 1); }
'''})
mk("c02-leak-on-borrow", "C02", [("src/Runtime/OMTensor.inc", "  if (tensor->_owning) {\n    /* If we own the allocated buffer, free it first. */", "  if (tensor->_owning && (owning || alignedPtr)) {\n    /* If we own the allocated buffer, free it first. */")],
 "an owning tensor whose data is replaced by borrowed data without an aligned pointer", "the owned buffer is leaked", {"demo.sh": cdemo(flags="-fsanitize=address"), "demo.c": '''
#include "OnnxMlirRuntime.h"
#include <stdlib.h>
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
int main() { int64_t d[1] = {4}; float b[4]; OMTensor *t = omTensorCreateEmpty(d, 1, ONNX_TYPE_FLOAT);
  omTensorSetDataPtr(t, 0, b, 0); omTensorDestroy(t); return 0; } // LeakSanitizer decides
'''})
mk("c03-uint64-descending", "C03", [("src/Runtime/OMSort.c", "declare_compare_function(Uint64, uint64_t, Descending, Load)", "declare_compare_function(Uint64, int64_t, Descending, Load)")],
 "descending sort of uint64 values of 2^63 or more", "large unsigned values sort as negative ones", {"demo.sh": cdemo("src/Runtime/OMSort.c"), "demo.c": '''
#include "OnnxMlirRuntime.h"
void omTensorSort(OMTensor *, const OMTensor *, uint64_t, uint64_t);
int main() { int64_t d[1] = {2}; uint64_t v[2] = {1, 1ull << 63}, o[2] = {0, 1};
  omTensorSort(omTensorCreate(o, d, 1, ONNX_TYPE_INT64), omTensorCreate(v, d, 1, ONNX_TYPE_UINT64), 0, 0);
  return !(o[0] == 1 && o[1] == 0); }
'''})
mk("c04-heap-last-child", "C04", [("src/Runtime/OMTopK.c", "  while ((root * 2 + 1) <= end) { // While root has at least one child", "  while ((root * 2 + 1) < end) { // While root has at least one child")],
 "an even k, so that the last heap element is an only child holding the worst value", "TopK keeps a worse element than one it drops", {"demo.sh": cdemo("src/Runtime/OMTopK.c src/Runtime/OMSort.c"), "demo.c": '''
#include "OnnxMlirRuntime.h"
void omTensorTopK(OMTensor *, const OMTensor *, uint64_t, uint64_t, uint64_t, uint64_t);
int main() { int64_t d[1] = {6}; float v[6] = {5, 4, 3, 1, 2, 0}; uint64_t o[6] = {0, 1, 2, 3, 4, 5};
  omTensorTopK(omTensorCreate(o, d, 1, ONNX_TYPE_INT64), omTensorCreate(v, d, 1, ONNX_TYPE_FLOAT), 0, 0, 4, 1);
  return !(o[0] == 0 && o[1] == 1 && o[2] == 2 && o[3] == 4); }
'''})
mk("c05-inverse-shift", "C05", [("src/Runtime/OMUnique.c", "        if ((table->inverseIndicesPtr)[j] >= insertIdx)", "        if ((table->inverseIndicesPtr)[j] > insertIdx)")],
 "sorted output, inverse indices requested, a smaller element after a larger one", "the inverse index of an element moved by a later insertion is stale", {"demo.sh": cdemo("src/Runtime/OMUnique.c src/Runtime/OMSort.c"), "demo.c": '''
#include "OnnxMlirRuntime.h"
void omTensorUnique(OMTensor *, OMTensor *, OMTensor *, OMTensor *, OMTensor *, const OMTensor *, int64_t, uint64_t);
int main() { int64_t d[1] = {2}, one[1] = {1}, v[2] = {5, 3}, y[2], inv[2], tot;
  omTensorUnique(omTensorCreate(&tot, one, 1, ONNX_TYPE_INT64), omTensorCreate(y, d, 1, ONNX_TYPE_INT64), 0, omTensorCreate(inv, d, 1, ONNX_TYPE_INT64), 0, omTensorCreate(v, d, 1, ONNX_TYPE_INT64), -1, 1);
  return !(tot == 2 && y[0] == 3 && inv[0] == 1 && inv[1] == 0); }
'''})
mk("c06-unsigned-bytes", "C06", [("src/Runtime/OMIndexLookup.c", "    hval ^= c;", "    hval ^= (unsigned char)c;")],
 "string categories with bytes outside ASCII", "the run-time hash differs from the one the table was built with", {"demo.sh": '''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
I="-I include -I . -I /usr/lib/llvm-20/include"
gcc -O1 -w $I -c src/Runtime/OMIndexLookup.c -o "$W/l.o"
g++ -std=c++17 -fno-rtti -O1 -w $I "$D/demo.cpp" src/Conversion/ONNXToKrnl/PerfectHash.cpp "$W/l.o" -L/usr/lib/llvm-20/lib -lLLVM-20 -Wl,-rpath,/usr/lib/llvm-20/lib -o "$W/demo"
cd "$W" && timeout 60 ./demo
''', "demo.cpp": '''#include "src/Conversion/ONNXToKrnl/PerfectHash.hpp"
#include <map>
extern "C" uint64_t find_index_str(const char *str, const int32_t G[], const int32_t V[], int32_t dictSize);
int main() {
  const char *w[5] = {"\\xc3\\xa9t\\xc3\\xa9", "hiver", "\\xc3\\xa0", "\\xc3\\xa8", "\\xc3\\xbc"};
  std::map<llvm::StringRef, int32_t> m; for (int i = 0; i < 5; ++i) m[w[i]] = i;
  onnx_mlir::PerfectHash<llvm::StringRef, int32_t> ph(m);
  for (int i = 0; i < 5; ++i) if (find_index_str(w[i], ph.getG().data(), ph.getV().data(), 5) != (uint64_t)i) return 1;
  return 0; }
'''})
