// C05: Unique values / slices with first indices, inverse indices and counts.
#include "values.h"
#include "src/Runtime/OMSort.h"
void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices, OMTensor *inverse_indices, OMTensor *counts,
    const OMTensor *inputTensor, int64_t sliceAxis, uint64_t sorted);
void omTensorUniqueCount(OMTensor *totalTensor, const OMTensor *inputTensor, int64_t sliceAxis, uint64_t sorted);
static const int kTypes[11] = {ONNX_TYPE_INT32, ONNX_TYPE_FLOAT, ONNX_TYPE_UINT8, ONNX_TYPE_INT8, ONNX_TYPE_UINT16, ONNX_TYPE_INT16,
    ONNX_TYPE_UINT32, ONNX_TYPE_UINT64, ONNX_TYPE_INT64, ONNX_TYPE_BOOL, ONNX_TYPE_DOUBLE};
// Row-major position of element e of slice s along axis (axis < 0: flat elements).
static int64_t posOf(int rank, const int64_t *d, int axis, int64_t s, int64_t e) {
  if (axis < 0) return s;
  int64_t idx[6], off = 0;
  for (int i = rank - 1; i >= 0; --i) { if (i == axis) { idx[i] = s; continue; } idx[i] = e % d[i]; e /= d[i]; }
  for (int i = 0; i < rank; ++i) off = off * d[i] + idx[i];
  return off;
}
// -1 / 0 / 1: lexicographic comparison, slice elements in row-major order.
static int cmpSlices(const void *p, int dt, int rank, const int64_t *d, int axis, int64_t m, int64_t a, int64_t b) {
  for (int64_t e = 0; e < m; ++e) {
    int64_t x = keyAt(p, posOf(rank, d, axis, a, e), dt), y = keyAt(p, posOf(rank, d, axis, b, e), dt);
    if (x < y) return -1;
    if (x > y) return 1;
  }
  return 0;
}
static void uniq(int dt, int rank, const int64_t *d, int axis, int sorted, int outs, int zeros) {
  int64_t n = 1;
  for (int i = 0; i < rank; ++i) n *= d[i];
  int64_t ns = axis < 0 ? n : d[axis], m = axis < 0 ? 1 : n / d[axis];
  int sz = kSize[dt];
  void *data = malloc(n * sz);
  fillAny(data, n, dt, "x");
  for (int64_t i = 0; i < n; ++i) { // signed zeros are covered by their own test
    if (dt == ONNX_TYPE_FLOAT && !zeros) sx_assume(((uint32_t *)data)[i] != 0x80000000u);
    if (dt == ONNX_TYPE_DOUBLE && !zeros) sx_assume(((uint64_t *)data)[i] != 0x8000000000000000ull);
  }
  OMTensor *in = omTensorCreate(data, d, rank, (OM_DATA_TYPE)dt);
  int64_t one[1] = {1}, total = -1, total2 = -1;
  OMTensor *tt = omTensorCreate(&total, one, 1, ONNX_TYPE_INT64), *tt2 = omTensorCreate(&total2, one, 1, ONNX_TYPE_INT64);
  // The compiled model first counts, then allocates outputs of exactly that size.
  omTensorUniqueCount(tt2, in, axis, sorted);
  sx_assert(total2 >= 0 && total2 <= ns, "count within range");
  int64_t cnt = total2, yd[6], cs[1] = {cnt}, is[1] = {ns};
  for (int i = 0; i < rank; ++i) yd[i] = d[i];
  if (axis < 0) yd[0] = cnt; else yd[axis] = cnt;
  void *y = malloc(cnt * m * sz); int64_t *ix = (int64_t *)malloc(cnt * 8), *inv = (int64_t *)malloc(ns * 8), *ct = (int64_t *)malloc(cnt * 8);
  OMTensor *Y = outs & 1 ? omTensorCreate(y, yd, axis < 0 ? 1 : rank, (OM_DATA_TYPE)dt) : NULL;
  OMTensor *I = outs & 2 ? omTensorCreate(ix, cs, 1, ONNX_TYPE_INT64) : NULL;
  OMTensor *V = outs & 4 ? omTensorCreate(inv, is, 1, ONNX_TYPE_INT64) : NULL;
  OMTensor *C = outs & 8 ? omTensorCreate(ct, cs, 1, ONNX_TYPE_INT64) : NULL;
  omTensorUnique(tt, Y, I, V, C, in, axis, sorted);
  sx_assert(total == total2, "both entry points count alike");
  // Reference: first occurrences in input order, then (sorted) by value.
  int64_t first[8], rep[8], k = 0, order[8];
  for (int64_t s = 0; s < ns; ++s) {
    int64_t f = s;
    for (int64_t q = 0; q < s && f == s; ++q) if (rep[q] == q && cmpSlices(data, dt, rank, d, axis, m, q, s) == 0) f = q;
    rep[s] = f;
    if (f == s) first[k++] = s;
  }
  sx_assert(total == k, "number of distinct values");
  for (int64_t i = 0; i < k; ++i) {
    int64_t r = i;
    if (sorted) { r = 0; for (int64_t j = 0; j < k; ++j) if (j != i && cmpSlices(data, dt, rank, d, axis, m, first[j], first[i]) < 0) r++; }
    order[r] = first[i];
  }
  for (int64_t i = 0; i < k; ++i) {
    if (I) sx_assert(ix[i] == order[i], "index of the first occurrence");
    if (C) { int64_t c = 0; for (int64_t s = 0; s < ns; ++s) c += rep[s] == order[i]; sx_assert(ct[i] == c, "occurrence count"); }
    if (Y) for (int64_t e = 0; e < m; ++e) {
      int64_t o = axis < 0 ? i : posOf(rank, yd, axis, i, e), q = posOf(rank, d, axis, order[i], e);
      sx_assert(keyAt(y, o, dt) == keyAt(data, q, dt), "unique value");
    }
    if (V) for (int64_t s = 0; s < ns; ++s) if (rep[s] == order[i]) sx_assert(inv[s] == i, "inverse index");
  }
  omTensorDestroy(Y); omTensorDestroy(I); omTensorDestroy(V); omTensorDestroy(C); omTensorDestroy(in); omTensorDestroy(tt); omTensorDestroy(tt2);
  free(y); free(ix); free(inv); free(ct); free(data);
}
SX_TEST(flat) {
  int dt = kTypes[sx_pick("type", 0, 10)];
  int64_t d[1] = {sx_pick("n", 1, 3)};
  uniq(dt, 1, d, -1, (int)sx_pick("sorted", 0, 1), 15, 0);
  if (d[0] == 3) sx_reach("flat");
}
SX_TEST(outputs) {
  int64_t d[2] = {2, 1 + sx_pick("c", 0, 1)};
  uniq(ONNX_TYPE_INT8, 2, d, (int)sx_pick("axis", -1, 1), (int)sx_pick("sorted", 0, 1), (int)sx_pick("outs", 0, 15), 0);
  sx_reach("outputs");
}
SX_TEST(larger) {
  int64_t d[2] = {2, 2};
  if (sx_thorough()) d[1] = 3; 
  uniq(sx_pick("type", 0, 1) ? ONNX_TYPE_INT8 : ONNX_TYPE_INT64, 2, d, -1, (int)sx_pick("sorted", 0, 1), 15, 0);
  sx_reach("larger");
}
SX_TEST(axes) {
  static const int64_t S[4][3] = {{2, 3, 1}, {3, 2, 1}, {2, 2, 2}, {1, 3, 2}};
  int w = (int)sx_pick("shape", 0, 3);
  int rank = w < 2 ? 2 : 3;
  uniq(sx_thorough() && sx_pick("type", 0, 1) ? ONNX_TYPE_FLOAT : ONNX_TYPE_INT32, rank, S[w], (int)sx_pick("axis", 0, rank - 1), (int)sx_pick("sorted", 0, 1), 15, 0);
  sx_reach("axes");
}
SX_TEST(signedZero) {
  int64_t d[1] = {2};
  uniq(sx_pick("type", 0, 1) ? ONNX_TYPE_FLOAT : ONNX_TYPE_DOUBLE, 1, d, -1, (int)sx_pick("sorted", 0, 1), 15, 1);
  sx_reach("signed zero");
}
