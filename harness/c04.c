// C04: TopK index selection: the first k order entries are the k best elements
// (ties to the lower index), sorted when asked; all entries stay a permutation.
#include "values.h"
#include "src/Runtime/OMSort.h"
static const int kTypes[12] = {ONNX_TYPE_BOOL, ONNX_TYPE_UINT8, ONNX_TYPE_INT8, ONNX_TYPE_UINT16, ONNX_TYPE_INT16, ONNX_TYPE_UINT32,
    ONNX_TYPE_INT32, ONNX_TYPE_UINT64, ONNX_TYPE_INT64, ONNX_TYPE_FLOAT, ONNX_TYPE_DOUBLE, ONNX_TYPE_FLOAT16};
static int better(const void *data, int64_t off, uint64_t i, uint64_t j, int dt, int asc) {
  int64_t a = keyAt(data, off + i, dt), b = keyAt(data, off + j, dt);
  int lt = asc ? a < b : a > b;
  return lt | ((a == b) & (i < j));
}
static void topk(int dt, int rank, const int64_t *d, int asc, int64_t k, int sorted) {
  int64_t n = 1, m = d[rank - 1];
  for (int i = 0; i < rank; ++i) n *= d[i];
  void *data = malloc(n * kSize[dt]); uint64_t *ord = (uint64_t *)malloc(n * 8);
  fillAny(data, n, dt, "x");
  for (int64_t i = 0; i < n; ++i) ord[i] = i % m;
  OMTensor *in = omTensorCreate(data, d, rank, (OM_DATA_TYPE)dt), *o = omTensorCreate(ord, d, rank, ONNX_TYPE_INT64);
  omTensorTopK(o, in, rank - 1, asc, k, sorted);
  for (int64_t s = 0; s < n; s += m) {
    unsigned seen = 0;
    for (int64_t i = 0; i < m; ++i) {
      sx_assert(ord[s + i] < (uint64_t)m && !(seen >> ord[s + i] & 1), "order stays a permutation of the slice");
      seen |= 1u << ord[s + i];
    }
    for (int64_t i = 0; i < k; ++i)
      for (int64_t j = k; j < m; ++j)
        sx_assert(better(data, s, ord[s + i], ord[s + j], dt, asc), "every selected element is better than every other, ties to the lower index");
    if (sorted)
      for (int64_t i = 0; i + 1 < k; ++i)
        sx_assert(better(data, s, ord[s + i], ord[s + i + 1], dt, asc), "selected elements are in order, ties in index order");
  }
  free(data); free(ord); omTensorDestroy(in); omTensorDestroy(o);
}
SX_TEST(alltypes) {
  int dt = kTypes[sx_pick("type", 0, 11)];
  int64_t d[1] = {sx_pick("n", 1, 3)};
  topk(dt, 1, d, (int)sx_pick("ascending", 0, 1), sx_pick("k", 0, d[0]), (int)sx_pick("sorted", 0, 1));
  if (d[0] == 3) sx_reach("alltypes");
}
SX_TEST(larger) {
  static const int T[2] = {ONNX_TYPE_INT32, ONNX_TYPE_FLOAT};
  int64_t d[1] = {sx_pick("n", 4, sx_thorough() ? 5 : 4)};
  topk(T[sx_pick("type", 0, 1)], 1, d, (int)sx_pick("ascending", 0, 1), sx_pick("k", 1, d[0]), (int)sx_pick("sorted", 0, 1));
  sx_reach("larger");
}
// A longer axis with few distinct values: exercises the partial selection with ties.
SX_TEST(ties) {
  int64_t d[1] = {sx_thorough() ? 8 : 6};
  int asc = (int)sx_pick("ascending", 0, 1); int64_t k = sx_pick("k", 1, d[0] - 2);
  int dt = ONNX_TYPE_BOOL;
  topk(dt, 1, d, asc, k, (int)sx_pick("sorted", 0, 1));
  sx_reach("ties");
}
SX_TEST(slices) {
  int64_t d[6] = {1, 1, 1, 1, 1, 1}; int rank = (int)sx_pick("rank", 2, 6);
  int which = (int)sx_pick("which", 0, rank - 2);
  d[which] = 2; d[rank - 1] = 3;
  topk(ONNX_TYPE_INT16, rank, d, 0, 1, 1);
  sx_reach("slices");
}
SX_TEST(degenerate) {
  int64_t d[2] = {2, 0}; uint64_t ord[1] = {sx_i64("o")}, keep = ord[0];
  OMTensor *in = omTensorCreate(ord, d, 2, ONNX_TYPE_FLOAT), *o = omTensorCreate(ord, d, 2, ONNX_TYPE_INT64);
  omTensorTopK(o, in, 1, 1, 1, 1); omTensorTopK(NULL, in, 1, 1, 1, 1); omTensorTopK(o, NULL, 1, 1, 1, 1);
  sx_assert(ord[0] == keep, "nothing written");
  sx_reach("degenerate");
  omTensorDestroy(in); omTensorDestroy(o);
}
