from mkbug import *
ES = "src/Runtime/ExecutionSession.cpp"
RTX = "src/Runtime/ExecutionSession.cpp src/Runtime/OMTensorListHelper.cpp src/Runtime/OMTensorHelper.cpp src/Runtime/OMTensor.cpp src/Runtime/OMTensorList.cpp"
DEMO = """#!/bin/bash
# Builds a small model library and the demonstration, and runs it in a scratch directory.
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
for f in OMInstrument OnnxDataType; do gcc -O1 -w -fPIC -I include -I . -c src/Runtime/$f.c -o "$W/$f.o"; done
gcc -O1 -w -fPIC -I include -I . -c src/Support/SmallFPConversion.c -o "$W/fp.o"
g++ -std=c++17 -O1 -w -I include -I . "$D/demo.cpp" """ + RTX + """ "$W"/*.o -o "$W/demo" -lpthread -ldl -rdynamic
[ -f "$D/model.c" ] && gcc -O1 -w -shared -fPIC -I include -I . "$D/model.c" -o "$W/My.Net.so"
cd "$W" && timeout 60 ./demo
"""
MODEL = """#include <stddef.h>
#include <stdint.h>
#include "onnx-mlir/Runtime/OMTensorList.h"
#define T(x) x##_SUFFIX
const char *names[] = {"run_main_graph_my.net", NULL};
int ran;
OMTensorList *run1(OMTensorList *l) __asm__("run_main_graph_my.net");
OMTensorList *run1(OMTensorList *l) { ++ran; return omTensorListCreate(NULL, 0); }
const char **q(int64_t *n) __asm__("omQueryEntryPoints_my.net");
const char **q(int64_t *n) { if (n) *n = 1; return names; }
const char *is(const char *e) __asm__("omInputSignature_my.net");
const char *is(const char *e) { return e; }
const char *os(const char *e) __asm__("omOutputSignature_my.net");
const char *os(const char *e) { return e; }
int prints; void omInstrumentPrint(void) { ++prints; }
"""
H = """#include "src/Runtime/ExecutionSession.hpp"
#include "src/Runtime/OMTensorListHelper.hpp"
#include "src/Runtime/OMTensorHelper.hpp"
#include <cstring>
#include <malloc.h>
using namespace onnx_mlir; using S = std::string;
"""
def m(id, prop, f, edits, needs, breaks, body, model=False):
  files = {"demo.sh": DEMO, "demo.cpp": H + body}
  if model: files["model.c"] = MODEL
  mk(id, prop, [(f, o, n) for o, n in edits], needs, breaks, files)
m("c20-tag-first-dot", "C20", ES, [("""                                      .filename()
                                      .replace_extension("")
                                      .string();
""", """                                      .filename()
                                      .string();
    fnameWithoutExt = fnameWithoutExt.substr(0, fnameWithoutExt.find('.'));
""")], "a model file whose name has more than one dot, loaded without a tag", "the session looks for the functions of another tag and fails",
"""int main() { try { ExecutionSession s("./My.Net.so"); } catch (ExecutionSessionException &) { return 1; } return 0; }
""", True)
m("c20-half-set-entry", "C20", ES, [("""  _entryPointFunc = reinterpret_cast<entryPointFuncType>(
      dlsym(_sharedLibraryHandle, entryPointName.c_str()));
#endif
  if (!_entryPointFunc)
    throw""", """  // Keep the current function when there is no such entry point.
  _entryPointName = entryPointName;
  auto func = reinterpret_cast<entryPointFuncType>(
      dlsym(_sharedLibraryHandle, entryPointName.c_str()));
  if (func)
    _entryPointFunc = func;
  else
#endif
    throw"""), ("""            "'.");
  _entryPointName = entryPointName;
  errno""", """            "'.");
  errno""")] if 0 else [("""  _entryPointFunc = reinterpret_cast<entryPointFuncType>(
      dlsym(_sharedLibraryHandle, entryPointName.c_str()));
#endif
  if (!_entryPointFunc)
    throw""", """  // Keep the current function when there is no such entry point.
  auto *func = reinterpret_cast<entryPointFuncType>(
      dlsym(_sharedLibraryHandle, entryPointName.c_str()));
  _entryPointName = entryPointName;
  if (func)
    _entryPointFunc = func;
  else
#endif
    throw""")], "setting an entry point that does not exist, then asking for the signature", "the session describes the missing entry point while it runs the previous one",
"""int main() { ExecutionSession s("./My.Net.so"); try { s.setEntryPoint("nope"); } catch (ExecutionSessionException &) {} try { return s.inputSignature() == "nope"; } catch (ExecutionSessionException &) {} return 0; }
""", True)
m("c20-no-outputs", "C20", ES, [("""  std::vector<OMTensorUniquePtr> outs;
  for""", """  std::vector<OMTensorUniquePtr> outs;
  if (omTensorListGetSize(wrappedOutput) == 0)
    return outs;
  for""")], "a model without outputs, run with a vector of tensors", "the list of outputs leaks and the instrumentation is not printed",
"""int main() { ExecutionSession s("./My.Net.so"); s.run(std::vector<OMTensorUniquePtr>()); int *p = (int *)dlsym(s.getSharedLibraryHandle(), "prints"); return !p || *p != 1; }
""", True)
OH = "src/Runtime/OMTensorHelper.cpp"; LH = "src/Runtime/OMTensorListHelper.cpp"
m("c21-soz-cap", "C21", OH, [("std::min(sozCount, innerDim) : 0;", "std::min(sozCount, numElems) : 0;")], "a number of ones above the size of a row, with several rows", "the ones run into the next rows and past the buffer",
"""int main() { OMTensor *t = omTensorCreateSozData({2, 2}, ONNX_TYPE_INT64, 3); int64_t *p = (int64_t *)omTensorGetDataPtr(t); return malloc_usable_size(p) < 32 || p[0] != 1 || p[3] != 1 ? 2 : !!memcmp(p + 4, "\\0\\0\\0\\0\\0\\0\\0\\0", malloc_usable_size(p) >= 40 ? 8 : 0); }
""")
m("c21-empty-strings", "C21", OH, [("    totalStrLen += s.length() + 1;", "    totalStrLen += s.empty() ? 0 : s.length() + 1;")], "an array of strings with empty ones", "the buffer is too small for the terminators of the empty strings",
"""int main() { std::vector<S> v(64); void *p = omTensorBuildStringBuffer(v); return malloc_usable_size(p) < 64 * 9; }
""")
m("c21-min-only", "C21", LH, [("    double hi = vspec.hasMax ? vspec.maxVal", "    double hi = vspec.hasMin || vspec.hasMax ? vspec.maxVal")], "an input with a lower bound and no upper bound", "the default upper bound is replaced by 0",
"""int main() { OMTensorList *l = omTensorListCreateFromInputSignature("[ { \\"type\\" : \\"i32\\", \\"dims\\" : [200] } ]", nullptr, "0:min-3"); if (!l) return 1; int32_t *p = (int32_t *)omTensorGetDataPtr(omTensorListGetOmtByIndex(l, 0)), m = 0; for (int i = 0; i < 200; ++i) if (p[i] > m) m = p[i]; return m == 0; }
""")
