// C02: every block is freed exactly once, by the object that owns it; failed
// creations leak nothing.
#include "rtdecl.h"
#define MAXB 6
// One tensor through an arbitrary history of data-pointer / ownership changes.
SX_TEST(history) {
  int steps = sx_thorough() ? 4 : 3;
  int64_t base = sx_live_allocs();
  char stackBuf[8];
  void *blk[MAXB + 2]; int freed[MAXB + 2]; int nb = 0, cur = -1;
  int64_t d[2] = {2, 3};
  int64_t r = sx_pick("rank", 0, 2);
  OMTensor *t;
  int64_t own = 0;
  int how = (int)sx_pick("how", 0, 3);
  if (how == 0) t = omTensorCreate(stackBuf, d, r, ONNX_TYPE_FLOAT);
  else if (how == 1) { own = sx_range("own", 0, 1); blk[nb] = malloc(24); freed[nb] = 0; cur = nb++; t = omTensorCreateWithOwnership(blk[cur], d, r, ONNX_TYPE_FLOAT, own); }
  else if (how == 2) { t = omTensorCreateEmpty(d, r, ONNX_TYPE_FLOAT); own = 1; blk[nb] = omTensorGetAllocatedPtr(t); freed[nb] = 0; cur = nb++; }
  else { t = omTensorCreateUntyped(r); }
  sx_assert(t != NULL, "created");
  sx_assert(omTensorGetOwning(t) == own, "ownership after creation");
  for (int s = 0; s < steps; ++s) {
    int op = (int)sx_pick("op", 0, 3);
    if (op == 0) break;
    if (op == 1) { // new data, possibly owned
      int64_t o = sx_range("o", 0, 1);
      if (own && cur >= 0) freed[cur] = 1;
      blk[nb] = malloc(32); freed[nb] = 0; cur = nb++;
      int al = (int)sx_pick("aligned", 0, 1);
      omTensorSetDataPtr(t, o, blk[cur], al ? (char *)blk[cur] + 16 : NULL);
      own = o;
      sx_assert((char *)omTensorGetDataPtr(t) == (char *)blk[cur] + (al ? 16 : 0), "data pointer after replacement");
    } else if (op == 2) { // ownership flag
      int64_t o = sx_range("o", 0, 1);
      if (cur < 0) o = 0; // a stack buffer is never owned
      omTensorSetOwning(t, o); own = o;
    } else { // metadata changes never move data
      int64_t v[2] = {sx_i64("m0"), sx_i64("m1")};
      omTensorSetShape(t, v); omTensorSetStrides(t, v); omTensorSetDataType(t, ONNX_TYPE_DOUBLE);
    }
    for (int i = 0; i < nb; ++i) sx_assert(sx_block_live(blk[i]) == !freed[i], "a buffer is released exactly when its owner replaces it");
    sx_assert(omTensorGetOwning(t) == own, "ownership flag");
  }
  if (own && cur >= 0) freed[cur] = 1;
  omTensorDestroy(t);
  for (int i = 0; i < nb; ++i) sx_assert(sx_block_live(blk[i]) == !freed[i], "destroy releases owned data only");
  for (int i = 0; i < nb; ++i) { if (!freed[i]) { free(blk[i]); sx_reach("borrowed kept"); } else sx_reach("owned freed"); }
  sx_assert(sx_live_allocs() == base, "nothing leaked");
}
// Lists: deep destroy destroys every tensor, shallow destroy none; the caller's
// array stays the caller's.
SX_TEST(lists) {
  int64_t base = sx_live_allocs();
  int64_t n = sx_pick("n", 0, sx_thorough() ? 4 : 3), one[1] = {4};
  OMTensor **ts = (OMTensor **)malloc(sizeof(OMTensor *) * 5), *cp[5];
  void *buf[5]; int64_t own[5];
  for (int i = 0; i < n; ++i) { own[i] = sx_range("own", 0, 1); buf[i] = malloc(4); cp[i] = ts[i] = omTensorCreateWithOwnership(buf[i], one, 1, ONNX_TYPE_INT8, own[i]); }
  if (n >= 1 && sx_pick("nullelem", 0, 1)) { omTensorSetOwning(ts[0], 0); own[0] = 0; omTensorDestroy(ts[0]); ts[0] = NULL; cp[0] = NULL; }
  OMTensorList *l = omTensorListCreate(ts, n);
  sx_assert(l != NULL, "list created");
  int deep = (int)sx_pick("deep", 0, 1);
  if (deep) omTensorListDestroy(l); else omTensorListDestroyShallow(l);
  sx_assert(sx_block_live(ts) == 1, "caller keeps its array");
  for (int i = 0; i < n; ++i) {
    if (cp[i]) sx_assert(sx_block_live(cp[i]) == !deep, "tensors destroyed by deep destroy only");
    sx_assert(sx_block_live(buf[i]) == !(deep && own[i]), "data released with its owning tensor only");
    if (!deep) omTensorDestroy(cp[i]);
    if (!own[i]) free(buf[i]);
  }
  free(ts);
  if (deep) sx_reach("deep"); else sx_reach("shallow");
  sx_assert(sx_live_allocs() == base, "nothing leaked");
}
// Allocation failure at every point: creation returns null and leaks nothing.
SX_TEST(allocFailures) {
  int64_t base = sx_live_allocs(), d[3] = {2, 3, 4};
  int64_t r = sx_pick("rank", 1, 3);
  char *b = (char *)malloc(96);
  int how = (int)sx_pick("how", 0, 4);
  OMTensor *t = NULL; OMTensorList *l = NULL;
  OMTensor *pre = omTensorCreate(b, d, r, ONNX_TYPE_FLOAT);
  OMTensor *arr[2] = {pre, pre};
  int64_t before = sx_live_allocs();
  sx_alloc_faults(1);
  switch (how) {
  case 0: t = omTensorCreate(b, d, r, ONNX_TYPE_FLOAT); break;
  case 1: t = omTensorCreateWithOwnership(b, d, r, ONNX_TYPE_FLOAT, 1); break;
  case 2: t = omTensorCreateEmpty(d, r, ONNX_TYPE_FLOAT); break;
  case 3: t = omTensorCreateUntyped(r); break;
  default: l = omTensorListCreate(arr, 2); break;
  }
  sx_alloc_faults(0);
  sx_assert(sx_block_live(b) == 1, "the caller's data survives creation, successful or not");
  if (!t && !l) { sx_assert(sx_live_allocs() == before, "failed creation leaks nothing"); sx_reach("failed"); }
  if (t) { if (how == 1) omTensorSetOwning(t, 0); omTensorDestroy(t); sx_reach("succeeded"); }
  omTensorListDestroyShallow(l);
  omTensorDestroy(pre); free(b);
  sx_assert(sx_live_allocs() == base, "nothing leaked");
}
