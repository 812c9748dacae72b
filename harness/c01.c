// C01: tensor descriptors report exactly what they were created / set with.
#include "rtdecl.h"
#define MAXR 6
static int64_t rankPick(void) { return sx_pick("rank", 0, sx_thorough() ? 6 : 4); }
static void dims(int64_t *d, int64_t r, int64_t hi) { for (int64_t i = 0; i < r; ++i) d[i] = sx_range("dim", 0, hi); }
static int64_t prod(const int64_t *d, int64_t lo, int64_t hi) { int64_t p = 1; for (int64_t i = lo; i < hi; ++i) p *= d[i]; return p; }

SX_TEST(create) {
  int64_t r = rankPick(), d[MAXR + 1], in[MAXR + 1];
  dims(d, r, 1000);
  for (int i = 0; i < r; ++i) in[i] = d[i];
  int dt = (int)sx_range("dtype", 0, NT - 1);
  int64_t own = sx_range("own", 0, 1);
  int how = (int)sx_pick("how", 0, 1);
  char buf[8];
  OMTensor *t = how ? omTensorCreateWithOwnership(buf, in, r, (OM_DATA_TYPE)dt, own) : omTensorCreate(buf, in, r, (OM_DATA_TYPE)dt);
  sx_assert(t != NULL, "creation succeeds");
  // The shape array is copied: later changes by the caller are not seen.
  for (int i = 0; i < r; ++i) in[i] = -7;
  sx_assert(omTensorGetRank(t) == r, "rank as given");
  sx_assert(omTensorGetDataPtr(t) == (void *)buf && omTensorGetAllocatedPtr(t) == (void *)buf, "data pointer as given");
  sx_assert((int)omTensorGetDataType(t) == dt, "element type as given");
  sx_assert(omTensorGetOwning(t) == (how ? own : 0), "ownership as given");
  const int64_t *s = omTensorGetShape(t), *st = omTensorGetStrides(t);
  sx_assert(r == 0 || s != in, "shape is a copy");
  for (int i = 0; i < r; ++i) {
    sx_assert(s[i] == d[i], "dimension as given");
    sx_assert(st[i] == prod(d, i + 1, r), "row-major stride");
  }
  sx_assert(omTensorGetNumElems(t) == prod(d, 0, r), "element count is the product of the dimensions");
  sx_assert(omTensorGetBufferSize(t) == prod(d, 0, r) * kSize[dt], "buffer size is count times element size");
  if (r == 4) sx_reach("create4");
  omTensorSetOwning(t, 0);
  omTensorDestroy(t);
}
SX_TEST(createEmpty) {
  int64_t r = rankPick(), d[MAXR + 1];
  dims(d, r, 2);
  int dt = (int)sx_pick("dtype", 0, NT - 1);
  int64_t n = prod(d, 0, r);
  n = sx_concrete(n);
  OMTensor *t = omTensorCreateEmpty(d, r, (OM_DATA_TYPE)dt);
  if (kSize[dt] == 0) { sx_assert(t == NULL, "no tensor of undefined element type"); sx_reach("undefined"); return; }
  sx_assert(t != NULL, "creation succeeds");
  sx_assert(omTensorGetOwning(t) == 1, "empty tensor owns its buffer");
  sx_assert(omTensorGetRank(t) == r && (int)omTensorGetDataType(t) == dt, "rank and type as given");
  char *p = (char *)omTensorGetDataPtr(t);
  sx_assert(p == (char *)omTensorGetAllocatedPtr(t), "data pointer is the allocation");
  sx_assert(omTensorGetNumElems(t) == n, "element count");
  for (int i = 0; i < r; ++i) sx_assert(omTensorGetShape(t)[i] == d[i] && omTensorGetStrides(t)[i] == prod(d, i + 1, r), "shape and strides");
  for (int64_t i = 0; i < n * kSize[dt]; ++i) p[i] = (char)i; // whole buffer is writable (checked heap)
  sx_reach("empty written");
  omTensorDestroy(t);
}
// Every setter changes its own field only.
SX_TEST(setters) {
  int64_t r = rankPick(), d[MAXR + 1], sh[MAXR + 1], st[MAXR + 1], ish[MAXR + 1], ist[MAXR + 1];
  dims(d, r, 1000);
  char a, b, c;
  int dt = (int)sx_range("dtype", 0, NT - 1), dt2 = (int)sx_range("dtype2", 0, NT - 1);
  OMTensor *t = omTensorCreate(&a, d, r, (OM_DATA_TYPE)dt);
  for (int i = 0; i < r; ++i) { ish[i] = sh[i] = sx_i64("sh"); ist[i] = st[i] = sx_i64("st"); }
  int64_t own = sx_i64("own");
  int ops = (int)sx_pick("ops", 0, 31);
  void *al = &a, *dp = &a; int64_t ow = 0;
  if (ops & 1) { omTensorSetShape(t, ish); for (int i = 0; i < r; ++i) ish[i] = 99; }
  if (ops & 2) { omTensorSetStrides(t, ist); for (int i = 0; i < r; ++i) ist[i] = 98; }
  if (ops & 4) omTensorSetDataType(t, (OM_DATA_TYPE)dt2);
  if (ops & 8) { int64_t o = sx_range("ow2", 0, 1); omTensorSetDataPtr(t, 0, &b, (ops & 1) ? (void *)&c : NULL); al = &b; dp = (ops & 1) ? (void *)&c : (void *)&b; (void)o; }
  if (ops & 16) { omTensorSetOwning(t, own); ow = own; }
  sx_assert(omTensorGetRank(t) == r, "rank unchanged by setters");
  for (int i = 0; i < r; ++i) {
    sx_assert(omTensorGetShape(t)[i] == ((ops & 1) ? sh[i] : d[i]), "shape setter");
    sx_assert(omTensorGetStrides(t)[i] == ((ops & 2) ? st[i] : prod(d, i + 1, r)), "strides setter");
  }
  sx_assert((int)omTensorGetDataType(t) == ((ops & 4) ? dt2 : dt), "type setter");
  sx_assert(omTensorGetAllocatedPtr(t) == al && omTensorGetDataPtr(t) == dp, "data pointer setter");
  sx_assert(omTensorGetOwning(t) == ow, "owning setter");
  if (ops == 31 && r == 4) sx_reach("setters all");
  omTensorSetOwning(t, 0);
  omTensorDestroy(t);
}
// Strides given in bytes become strides in elements.
SX_TEST(byteStrides) {
  int64_t r = sx_pick("rank", 1, 3), d[3] = {1, 1, 1}, k[3], by[3];
  int dt = (int)sx_range("dtype", 1, NT - 1);
  OMTensor *t = omTensorCreate(NULL, d, r, (OM_DATA_TYPE)dt);
  int64_t sz = sx_concrete(kSize[dt]);
  for (int i = 0; i < r; ++i) { k[i] = sx_range("k", -0x40000000LL, 0x40000000LL); by[i] = k[i] * sz; }
  omTensorSetStridesWithPyArrayStrides(t, by);
  for (int i = 0; i < r; ++i) sx_assert(omTensorGetStrides(t)[i] == k[i], "byte stride divided by element size");
  for (int i = 0; i < r; ++i) sx_assert(omTensorGetShape(t)[i] == 1, "shape untouched");
  sx_reach("byteStrides");
  omTensorDestroy(t);
}
// Accessors of a null tensor answer neutrally and setters ignore it.
SX_TEST(nullTensor) {
  int64_t x[2] = {sx_i64("a"), sx_i64("b")};
  sx_assert(omTensorGetDataPtr(NULL) == NULL && omTensorGetAllocatedPtr(NULL) == NULL, "no data");
  sx_assert(omTensorGetShape(NULL) == NULL && omTensorGetStrides(NULL) == NULL, "no shape");
  sx_assert(omTensorGetRank(NULL) == 0 && omTensorGetNumElems(NULL) == 0 && omTensorGetBufferSize(NULL) == 0, "zero size");
  sx_assert(omTensorGetDataType(NULL) == ONNX_TYPE_UNDEFINED && omTensorGetOwning(NULL) == 0, "no type, not owning");
  omTensorSetShape(NULL, x); omTensorSetStrides(NULL, x); omTensorSetStridesWithPyArrayStrides(NULL, x);
  omTensorSetDataType(NULL, ONNX_TYPE_FLOAT); omTensorSetDataPtr(NULL, 1, x, x); omTensorSetOwning(NULL, 1); omTensorDestroy(NULL);
  int64_t d[2] = {2, 3};
  OMTensor *t = omTensorCreate(x, d, 2, ONNX_TYPE_FLOAT);
  omTensorSetShape(t, NULL); omTensorSetStrides(t, NULL); omTensorSetStridesWithPyArrayStrides(t, NULL);
  sx_assert(omTensorGetShape(t)[0] == 2 && omTensorGetShape(t)[1] == 3 && omTensorGetStrides(t)[0] == 3 && omTensorGetStrides(t)[1] == 1, "null arrays are ignored");
  sx_reach("null");
  omTensorDestroy(t);
}
// Lists hold the given tensors in the given order.
SX_TEST(lists) {
  int64_t n = sx_pick("n", 0, sx_thorough() ? 5 : 3), one[1] = {1};
  OMTensor *ts[6], *cp[6];
  for (int i = 0; i < n; ++i) cp[i] = ts[i] = omTensorCreate(NULL, one, 1, ONNX_TYPE_INT8);
  OMTensorList *l = omTensorListCreate(ts, n);
  sx_assert(l != NULL, "list created");
  for (int i = 0; i < n; ++i) ts[i] = NULL;
  sx_assert(omTensorListGetSize(l) == n, "list size");
  OMTensor **arr = omTensorListGetOmtArray(l);
  sx_assert(n > 0 || arr == NULL, "empty list has no array");
  for (int i = 0; i < n; ++i) sx_assert(arr[i] == cp[i], "list array order");
  int64_t ix = sx_i64("index");
  OMTensor *e = omTensorListGetOmtByIndex(l, ix);
  if (ix >= 0 && ix < n) { int64_t c = sx_concrete(ix); sx_assert(e == cp[c], "list element"); sx_reach("list elem"); }
  else { sx_assert(e == NULL, "out-of-range index gives null"); sx_reach("list out of range"); }
  sx_assert(omTensorListGetOmtByIndex(NULL, ix) == NULL && omTensorListGetOmtArray(NULL) == NULL && omTensorListGetSize(NULL) == 0, "null list");
  omTensorListDestroy(NULL); omTensorListDestroyShallow(NULL);
  omTensorListDestroy(l);
}
