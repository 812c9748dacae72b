#ifndef RTDECL_H
#define RTDECL_H
#include "OnnxMlirRuntime.h"
#include "sx.h"
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifdef RT_CXX // built from the C++ sources, where these two have C++ linkage
#define RTSYM(x) __asm__(x)
#else
#define RTSYM(x)
#endif
OMTensor *omTensorCreateUntyped(int64_t rank) RTSYM("_Z21omTensorCreateUntypedl");
void omTensorSetDataPtr(OMTensor *, int64_t owning, void *allocatedPtr, void *alignedPtr) RTSYM("_Z18omTensorSetDataPtrP8OMTensorlPvS1_");
#ifdef __cplusplus
}
#endif
// Sizes of the ONNX element types by the ONNX enumeration value (onnx.proto).
static const int kSize[22] = {0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1, 1};
#define NT 22
#endif
