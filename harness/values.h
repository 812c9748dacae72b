// Typed element values for symbolic tensors, with an independent ordering:
// every supported element type is mapped to a 64-bit key whose signed order is
// the numeric order (floats: sign-magnitude to two's complement, so -0 == +0).
#ifndef VALUES_H
#define VALUES_H
#include "rtdecl.h"
static inline int isFloatType(int dt) { return dt == ONNX_TYPE_FLOAT || dt == ONNX_TYPE_DOUBLE || dt == ONNX_TYPE_FLOAT16; }
static inline int64_t smKey(uint64_t b, int bits) { uint64_t m = b & ((1ull << (bits - 1)) - 1); return (b >> (bits - 1)) & 1 ? -(int64_t)m : (int64_t)m; }
static inline int64_t keyAt(const void *p, int64_t i, int dt) {
  switch (dt) {
  case ONNX_TYPE_BOOL: case ONNX_TYPE_UINT8: return ((const uint8_t *)p)[i];
  case ONNX_TYPE_INT8: return ((const int8_t *)p)[i];
  case ONNX_TYPE_UINT16: return ((const uint16_t *)p)[i];
  case ONNX_TYPE_INT16: return ((const int16_t *)p)[i];
  case ONNX_TYPE_UINT32: return ((const uint32_t *)p)[i];
  case ONNX_TYPE_INT32: return ((const int32_t *)p)[i];
  case ONNX_TYPE_INT64: return ((const int64_t *)p)[i];
  case ONNX_TYPE_UINT64: return (int64_t)(((const uint64_t *)p)[i] ^ (1ull << 63));
  case ONNX_TYPE_FLOAT: return smKey(((const uint32_t *)p)[i], 32);
  case ONNX_TYPE_DOUBLE: return smKey(((const uint64_t *)p)[i], 64);
  case ONNX_TYPE_FLOAT16: return smKey(((const uint16_t *)p)[i], 16);
  }
  return 0;
}
// Fill n elements of type dt with arbitrary values (floats: anything but NaN).
static inline void fillAny(void *p, int64_t n, int dt, const char *name) {
  for (int64_t i = 0; i < n; ++i)
    switch (kSize[dt]) {
    case 1: ((uint8_t *)p)[i] = dt == ONNX_TYPE_BOOL ? (uint8_t)sx_u64(name, 1) : sx_u8(name); break;
    case 2: ((uint16_t *)p)[i] = sx_u16(name); if (dt == ONNX_TYPE_FLOAT16) sx_assume((((uint16_t *)p)[i] & 0x7fff) <= 0x7c00); break;
    case 4: ((uint32_t *)p)[i] = sx_u32(name); if (dt == ONNX_TYPE_FLOAT) sx_assume((((uint32_t *)p)[i] & 0x7fffffff) <= 0x7f800000u); break;
    case 8: ((uint64_t *)p)[i] = sx_u64(name, 64); if (dt == ONNX_TYPE_DOUBLE) sx_assume((((uint64_t *)p)[i] & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); break;
    }
}
#endif
