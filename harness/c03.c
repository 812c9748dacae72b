// C03: index sort along the last axis is a permutation, ordered by value with
// ties in input order, for every supported element type.
#include "values.h"
#include "src/Runtime/OMSort.h"
static const int kTypes[12] = {ONNX_TYPE_BOOL, ONNX_TYPE_UINT8, ONNX_TYPE_INT8, ONNX_TYPE_UINT16, ONNX_TYPE_INT16, ONNX_TYPE_UINT32,
    ONNX_TYPE_INT32, ONNX_TYPE_UINT64, ONNX_TYPE_INT64, ONNX_TYPE_FLOAT, ONNX_TYPE_DOUBLE, ONNX_TYPE_FLOAT16};
static void checkSlice(const void *data, int64_t off, const uint64_t *o, int64_t n, int dt, int asc) {
  unsigned seen = 0;
  for (int64_t i = 0; i < n; ++i) {
    sx_assert(o[i] < (uint64_t)n, "order entry is an index of the slice");
    sx_assert(!(seen >> o[i] & 1), "order is a permutation");
    seen |= 1u << o[i];
  }
  for (int64_t i = 0; i + 1 < n; ++i) {
    int64_t a = keyAt(data, off + o[i], dt), b = keyAt(data, off + o[i + 1], dt);
    int before = asc ? a < b : a > b;
    sx_assert(before || (a == b && o[i] < o[i + 1]), "values are in order and equal values keep input order");
  }
}
static void sortCase(int dt, int rank, const int64_t *d, int asc) {
  int64_t n = 1, k = d[rank - 1];
  for (int i = 0; i < rank; ++i) n *= d[i];
  void *data = malloc(n * kSize[dt]);
  uint64_t *ord = (uint64_t *)malloc(n * 8);
  fillAny(data, n, dt, "x");
  for (int64_t i = 0; i < n; ++i) ord[i] = i % k;
  OMTensor *in = omTensorCreate(data, d, rank, (OM_DATA_TYPE)dt), *o = omTensorCreate(ord, d, rank, ONNX_TYPE_INT64);
  void *copy = malloc(n * kSize[dt]); memcpy(copy, data, n * kSize[dt]);
  omTensorSort(o, in, rank - 1, asc);
  for (int64_t s = 0; s < n; s += k) checkSlice(copy, s, ord + s, k, dt, asc);
  for (int64_t i = 0; i < n; ++i) sx_assert(keyAt(data, i, dt) == keyAt(copy, i, dt), "input is not modified");
  free(copy); free(data); free(ord); omTensorDestroy(in); omTensorDestroy(o);
}
SX_TEST(vector) {
  int dt = kTypes[sx_pick("type", 0, 11)];
  int64_t d[1] = {sx_pick("n", 1, sx_thorough() ? 4 : 3)};
  int asc = (int)sx_pick("ascending", 0, 1);
  sortCase(dt, 1, d, asc);
  if (d[0] == 3) sx_reach("three elements");
}
SX_TEST(longer) {
  static const int T[3] = {ONNX_TYPE_INT32, ONNX_TYPE_FLOAT, ONNX_TYPE_UINT8};
  int64_t d[1] = {sx_thorough() ? 5 : 4};
  sortCase(T[sx_pick("type", 0, sx_thorough() ? 2 : 1)], 1, d, (int)sx_pick("ascending", 0, 1));
  sx_reach("longer");
}
// Higher ranks: every slice along the last axis is sorted on its own.
SX_TEST(slices) {
  int64_t d[6] = {1, 1, 1, 1, 1, 1}; int rank = (int)sx_pick("rank", 2, 6);
  int which = (int)sx_pick("which", 0, rank - 2);
  d[which] = 3; d[rank - 1] = 2;
  if (rank >= 3 && which < rank - 2) d[which + 1] = 2, d[which] = 2;
  sortCase(sx_pick("type", 0, 1) ? ONNX_TYPE_INT16 : ONNX_TYPE_INT64, rank, d, (int)sx_pick("ascending", 0, 1));
  sx_reach("slices");
}
// Nothing is touched when the axis is empty or a tensor is missing.
SX_TEST(empty) {
  int64_t d[2] = {2, 0};
  uint64_t ord[1] = {sx_i64("o")}; uint64_t keep = ord[0];
  OMTensor *in = omTensorCreate(ord, d, 2, ONNX_TYPE_FLOAT), *o = omTensorCreate(ord, d, 2, ONNX_TYPE_INT64);
  omTensorSort(o, in, 1, 1); omTensorSort(NULL, in, 1, 1); omTensorSort(o, NULL, 1, 0);
  sx_assert(ord[0] == keep, "nothing written");
  sx_reach("empty");
  omTensorDestroy(in); omTensorDestroy(o);
}
// The portable sort used where the C library has none: same contract for every
// sequence of pivots.
int __wrap_rand(void) { return (int)sx_pick("rand", 0, 5); }
SX_TEST(portable) {
  int dt = sx_pick("type", 0, 1) ? ONNX_TYPE_INT8 : ONNX_TYPE_FLOAT, asc = (int)sx_pick("ascending", 0, 1);
  int64_t n = sx_pick("n", 1, 3);
  void *data = malloc(n * kSize[dt]); uint64_t *ord = (uint64_t *)malloc(n * 8);
  fillAny(data, n, dt, "x");
  for (int64_t i = 0; i < n; ++i) ord[i] = i;
  quick_sort_custom(ord, n, sizeof(uint64_t), getCompareFunction(asc, (OM_DATA_TYPE)dt), data);
  checkSlice(data, 0, ord, n, dt, asc);
  if (n == 3) sx_reach("portable");
  free(data); free(ord);
}
