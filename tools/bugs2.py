from mkbug import *
SFP = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
I="-I include -I . -I /usr/lib/llvm-20/include"
gcc -O1 -w $I -c src/Support/SmallFPConversion.c -o "$W/l.o"
g++ -std=c++17 -fno-rtti -O1 -w $I "$D/demo.cpp" src/Support/SmallFP.cpp "$W/l.o" -L/usr/lib/llvm-20/lib -lMLIR -lLLVM-20 -Wl,-rpath,/usr/lib/llvm-20/lib -o "$W/demo"
cd "$W" && timeout 60 ./demo
"""
mk("c07-f8-ties-away", "C07", [("src/Support/SmallFP.cpp", "  f.convert(semantics, APFloat::rmNearestTiesToEven, &ignored);", "  f.convert(semantics, APFloat::rmNearestTiesToAway, &ignored);")],
 "a value half way between two representable 8-bit floats whose lower neighbour is even", "narrowing to the 8-bit formats rounds ties away from zero", {"demo.sh": SFP, "demo.cpp": """#include "src/Support/SmallFP.hpp"
int main() { return onnx_mlir::float_8e5m2::fromFloat(1.125f).toFloat() != 1.0f; }
"""})
mk("c08-half-neighbour", "C08", [("src/Runtime/OMResize.c", "  if (r > 0.5) {\n    c = (int)(floor(x)) + 1;", "  if (r >= 0.5) {\n    c = (int)(floor(x)) + 1;")],
 "a source position exactly half way between two elements, e.g. halving an axis", "linear interpolation takes the wrong pair of neighbours", {"demo.sh": cdemo("src/Runtime/OMResize.c"), "demo.c": '''
#include "OnnxMlirRuntime.h"
void Resize_Scales(OMTensor *, OMTensor *, OMTensor *, char *, char *);
int main() { int64_t d[1] = {4}, e[1] = {2}, o[1] = {1}; float x[4] = {1, 2, 4, 8}, y[2] = {0}, s[1] = {0.5f};
  Resize_Scales(omTensorCreate(y, e, 1, ONNX_TYPE_FLOAT), omTensorCreate(x, d, 1, ONNX_TYPE_FLOAT), omTensorCreate(s, o, 1, ONNX_TYPE_FLOAT), "linear", "");
  return !(y[0] == 1.5f && y[1] == 6); }
'''})
mk("c09-uniform-once-per-row", "C09", [("src/Runtime/OMRandomUniform.c", "    float r = (float)rand() / ((float)RAND_MAX + 1.0f);\n    output_ptr[i] = low + r * (high - low);", "    float r = (float)rand() / ((float)RAND_MAX / 2 + 1.0f);\n    if (r > 1.0f)\n      r -= 0.5f;\n    output_ptr[i] = low + r * (high - low);")],
 "a draw from the upper quarter of the generator's range", "uniform values exceed the upper bound", {"demo.sh": cdemo("src/Runtime/OMRandomUniform.c"), "demo.c": '''
#include "OnnxMlirRuntime.h"
OMTensor *run_uniform_random(OMTensor *, float, float, float);
int main() { int64_t d[1] = {1000}; float x[1000]; run_uniform_random(omTensorCreate(x, d, 1, ONNX_TYPE_FLOAT), 0, 1, 7);
  for (int i = 0; i < 1000; ++i) if (x[i] > 1) return 1; return 0; }
'''})
mk("c10-report-global-time", "C10", [("src/Runtime/OMInstrument.c", "    if (bufferIndex >= MAX_TIME_RECORD_BUFFER)\n      flushRecordBuffer();", "    if (bufferIndex >= MAX_TIME_RECORD_BUFFER)\n      bufferIndex = 0;")],
 "more than 8192 timed points in one run", "the records of the full buffer are dropped", {"demo.sh": cdemo(), "demo.c": '''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void OMInstrumentPoint(const char *, int64_t, const char *); void OMInstrumentPointInit(int64_t, const char *); void omInstrumentPrint(void);
int main() { setenv("ONNX_MLIR_INSTRUMENT_FILE", "out.txt", 1); static char n[9000][2];
  OMInstrumentPointInit(0, 0);
  for (int i = 0; i < 8200; ++i) { n[i][0] = 'n'; OMInstrumentPoint("op", 1 | 4 | 2 << 8 | 1 << 24, n[i]); }
  omInstrumentPrint(); fflush(0);
  FILE *f = fopen("out.txt", "r"); char l[300]; int k = 0; if (!f) return 1;
  while (fgets(l, 300, f)) k += !strncmp(l, "==PERF", 6);
  return k != 8200; }
'''})
mk("c10-memory-disabled", "C10", [("src/Runtime/OMInstrument.c", "  if (instrumentReportTimeDisabled || bufferIndex <= 0)\n    return;", "  if (instrumentReportTimeDisabled || instrumentReportMemoryDisabled ||\n      bufferIndex <= 0)\n    return;")],
 "memory reporting disabled by the environment, time reporting not", "the time report is lost", {"demo.sh": cdemo(), "demo.c": '''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void OMInstrumentPoint(const char *, int64_t, const char *); void omInstrumentPrint(void);
int main() { setenv("ONNX_MLIR_INSTRUMENT_FILE", "out.txt", 1); setenv("ONNX_MLIR_NO_INSTRUMENT_MEMORY", "1", 1);
  OMInstrumentPoint("op", 1 | 4 | 16 | 2 << 8 | 1 << 24, "n"); OMInstrumentPoint("op", 2 | 4 | 2 << 8 | 1 << 24, "n");
  omInstrumentPrint(); fflush(0);
  FILE *f = fopen("out.txt", "r"); char l[300]; int k = 0; if (!f) return 1;
  while (fgets(l, 300, f)) k += !strncmp(l, "==PERF", 6);
  return k != 2; }
'''})
