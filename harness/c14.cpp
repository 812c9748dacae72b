// C14: lazily viewed constants: whatever chain of transposes, reshapes,
// expansions and element-wise functions produced an attribute, every way of
// reading it gives the same, right elements.
#include "elts.h"
// A function on elements: the view records it, the reference applies it at once.
// Two functions that do not commute, so that the order of application matters.
template <typename T> struct Op1;
#define OP1(T, F, X0, X1) template <> struct Op1<T> { static T f(T x) { return (T)(X0); } static WideNum g(WideNum n) { auto x = n.F; n.F = X0; return n; } \
  static T f2(T x) { return (T)(X1); } static WideNum g2(WideNum n) { auto x = n.F; n.F = X1; return n; } };
OP1(bool, u64, !x, 0 * x)
#define INT_OP(T, F) OP1(T, F, x ^ 5, x + 3)
INT_OP(int8_t, i64) INT_OP(uint8_t, u64) INT_OP(int16_t, i64) INT_OP(int32_t, i64) INT_OP(uint16_t, u64) INT_OP(uint32_t, u64) INT_OP(int64_t, i64) INT_OP(uint64_t, u64)
OP1(double, dbl, -x, (x > 0 ? x : 0)) OP1(float, dbl, -x, (x > 0 ? x : 0))
static void factor(int64_t n, Shape &s, int left) {
  if (!left) { s.push_back(n); return; }
  int64_t d = sx_pick("rdim", 1, n);
  if (n % d) { sx_assume(0); return; }
  s.push_back(d); factor(n / d, s, left - 1);
}
template <typename T> static ElementsAttr step(ElementsAttr e, Ref<T> &r, int maxRank, int64_t maxCount) {
  ElementsAttrBuilder b(*pool);
  int rank = (int)r.shape.size(); int64_t n = count(r.shape);
  switch (sx_pick("op", 0, 3)) {
  case 0: { // transpose
    SmallVector<uint64_t, 6> perm; bool used[6] = {}; Shape s;
    for (int i = 0; i < rank; ++i) { uint64_t p = sx_pick("perm", 0, rank - 1); if (used[p]) { sx_assume(0); return e; } used[p] = true; perm.push_back(p); s.push_back(r.shape[p]); }
    Ref<T> o; o.fns = r.fns; o.shape = s; uint64_t ix[6], iy[6];
    for (int64_t k = 0; k < n; ++k) {
      unflat(s, k, ix); for (int i = 0; i < rank; ++i) iy[perm[i]] = ix[i];
      int64_t f = 0; for (int i = 0; i < rank; ++i) f = f * r.shape[i] + iy[i];
      o.v.push_back(r.v[f]);
    }
    r = o; sx_reach("transposed"); return b.transpose(e, perm);
  }
  case 1: { // reshape
    int q = (int)sx_pick("rrank", n == 1 ? 0 : 1, maxRank); Shape s;
    if (q) factor(n, s, q - 1);
    r.shape = s; sx_reach("reshaped"); return b.reshape(e, s);
  }
  case 2: { // expand
    Shape s; int extra = (int)sx_pick("extra", 0, rank < maxRank ? 1 : 0);
    if (extra) s.push_back(sx_pick("edim", 1, 2));
    for (int64_t d : r.shape) s.push_back(d == 1 ? sx_pick("bdim", 1, 2) : d);
    if (count(s) > maxCount) { sx_assume(0); return e; }
    Ref<T> o; o.fns = r.fns; o.shape = s; uint64_t ix[6];
    for (int64_t k = 0; k < count(s); ++k) {
      unflat(s, k, ix); int64_t f = 0;
      for (int i = 0; i < rank; ++i) f = f * r.shape[i] + (r.shape[i] == 1 ? 0 : ix[i + extra]);
      o.v.push_back(r.v[f]);
    }
    r = o; sx_reach("expanded"); return b.expand(e, s);
  }
  default: // element-wise function
    if (r.fns++) { for (auto &x : r.v) x = Op1<T>::f2(x); sx_reach("transformed twice"); return b.transform(e, e.getElementType(), Op1<T>::g2); }
    for (auto &x : r.v) x = Op1<T>::f(x);
    sx_reach("transformed"); return b.transform(e, e.getElementType(), Op1<T>::g);
  }
}
template <typename T> static ElementsAttr source(Ref<T> &r, bool wantDense, int rhi) {
  int rank = (int)sx_pick("rank", 0, rhi);
  static const int64_t D[3] = {2, 1, 3};
  for (int i = 0; i < rank; ++i) r.shape.push_back(D[sx_pick("dim", 0, i == 0 ? 2 : 1)]);
  int64_t n = count(r.shape);
  T *d = (T *)malloc(n * sizeof(T));
  for (int64_t i = 0; i < n; ++i) { d[i] = val<T>("x"); r.v.push_back(d[i]); }
  ElementsAttr e = wantDense ? dense<T>(r.shape, d) : disposable<T>(r.shape, d);
  free(d);
  return e;
}
template <typename T> static void chain(int steps, int rhi = 3) {
  Ref<T> r; bool dn = sx_pick("dense", 0, 1);
  ElementsAttr e = source(r, dn, rhi);
  if (!dn) checkViews(e, r); // unmodified dense attributes are read by MLIR itself
  for (int i = 0; i < steps; ++i) e = step(e, r, 3, 8);
  if (mlir::isa<DisposableElementsAttr>(e)) checkViews(e, r);
}
SX_TEST(floats) { chain<float>(2, sx_thorough() ? 3 : 2); sx_reach("floats"); }
SX_TEST(ints) { chain<int32_t>(2, sx_thorough() ? 3 : 2); sx_reach("ints"); }
SX_TEST(bytes) { chain<int8_t>(2, 2); sx_reach("bytes"); }
SX_TEST(ubytes) { chain<uint8_t>(1); sx_reach("ubytes"); }
SX_TEST(ushorts) { chain<uint16_t>(1); sx_reach("ushorts"); }
SX_TEST(shorts) { chain<int16_t>(1); sx_reach("shorts"); }
SX_TEST(longs) { chain<int64_t>(2, 2); sx_reach("longs"); }
SX_TEST(doubles) { chain<double>(1); sx_reach("doubles"); }
SX_TEST(three) { if (!sx_thorough()) return; chain<int16_t>(3, 2); sx_reach("thorough:three"); }
// Dense attributes as MLIR built them, their disposable wrapping and back.
template <typename T> static void denseReads(const T *V, int nv) {
  Ref<T> r; int rank = (int)sx_pick("rank", 0, 2);
  for (int i = 0; i < rank; ++i) r.shape.push_back(sx_pick("dim", 1, 2));
  int64_t n = count(r.shape); bool splat = n > 1 && sx_pick("splat", 0, 1);
  T d[4];
  for (int64_t i = 0; i < n; ++i) { d[i] = i && splat ? d[0] : V[sx_pick("v", 0, nv - 1)]; r.v.push_back(d[i]); }
  Type t = tyOf(toBType<T>);
  DenseElementsAttr e;
  auto type = RankedTensorType::get(r.shape, t);
  if constexpr (std::is_same_v<T, bool>) e = DenseElementsAttr::get(type, ArrayRef<bool>(d, n));
  else e = DenseElementsAttr::getFromRawBuffer(type, ArrayRef<char>((char *)d, n * sizeof(T)));
  checkViews<T>(e, r);
  constexpr BType B = toBType<T>;
  auto w = getElementsWideNums(e);
  for (int64_t i = 0; i < n; ++i) sx_assert(w.get()[i].u64 == WideNum::widen<B>(r.v[i]).u64, "wide numbers of dense elements are those of the values");
  if (e.isSplat()) sx_assert(getElementsSplatWideNum(e).u64 == WideNum::widen<B>(r.v[0]).u64, "wide splat of dense elements");
  ElementsAttrBuilder b(*pool);
  DisposableElementsAttr x = b.toDisposableElementsAttr(e);
  sx_assert(!!x && b.toDisposableElementsAttr(x) == x, "dense attributes can be wrapped");
  checkViews<T>(x, r);
  sx_assert(x.isSplat() == e.isSplat(), "wrapping keeps splats");
  sx_assert(ElementsAttrBuilder::toDenseElementsAttr(e) == e, "dense attributes stay as they are");
  sx_assert(ElementsAttrBuilder::toDenseElementsAttr(x) == e, "a wrapped dense attribute converts back to itself");
  // and through a view
  ElementsAttr y = step<T>(x, r, 2, 4);
  checkViews<T>(y, r);
  DenseElementsAttr z = ElementsAttrBuilder::toDenseElementsAttr(y);
  sx_assert(z.getType().getElementType() == t && Shape(z.getType().getShape()) == r.shape, "type of the dense copy");
  checkViews<T>(z, r);
}
SX_TEST(denseBools) { static const bool V[] = {false, true}; denseReads<bool>(V, 2); sx_reach("denseBools"); }
SX_TEST(denseBytes) { static const int8_t V[] = {-128, -1, 7}; denseReads<int8_t>(V, sx_thorough() ? 3 : 2); sx_reach("denseBytes"); }
SX_TEST(denseUnsigned) { static const uint32_t V[] = {0xffffffff, 3, 0x80000000}; denseReads<uint32_t>(V, sx_thorough() ? 3 : 2); sx_reach("denseUnsigned"); }
SX_TEST(denseLongs) { static const int64_t V[] = {INT64_MIN, -1, 9}; denseReads<int64_t>(V, sx_thorough() ? 3 : 2); sx_reach("denseLongs"); }
SX_TEST(denseULongs) { static const uint64_t V[] = {UINT64_MAX, 1}; denseReads<uint64_t>(V, 2); sx_reach("denseULongs"); }
SX_TEST(denseFloats) { static const float V[] = {-0.5f, 3e38f, 0.0f}; denseReads<float>(V, sx_thorough() ? 3 : 2); sx_reach("denseFloats"); }
SX_TEST(denseDoubles) { static const double V[] = {-0.0, 1e300}; denseReads<double>(V, 2); sx_reach("denseDoubles"); }
// Boolean views with symbolic contents (one byte per element).
SX_TEST(bools) { Ref<bool> r; auto e = source(r, false, 2); checkViews(e, r); e = step(e, r, 3, 8); if (sx_pick("more", 0, 1)) e = step(e, r, 3, 8); checkViews(e, r); sx_reach("bools"); }
// A splat, expanded from one element: every reading repeats the element.
template <typename T> static void splat() {
  Ref<T> r; T x = val<T>("x"); r.v.push_back(x);
  ElementsAttr e = disposable<T>(r.shape, &x);
  ElementsAttrBuilder b(*pool);
  Shape s; int rank = (int)sx_pick("rank", 1, 2);
  for (int i = 0; i < rank; ++i) s.push_back(sx_pick("dim", 1, 3));
  e = b.expand(e, s); r.shape = s; r.v.assign(count(s), x);
  sx_assert(e.isSplat(), "an expanded scalar is a splat");
  checkViews(e, r);
  e = step(e, r, 3, 12); sx_assert(e.isSplat(), "views of a splat are splats");
  checkViews(e, r);
}
SX_TEST(splats) { if (sx_pick("type", 0, 1)) splat<int16_t>(); else splat<float>(); sx_reach("splats"); }
// Constants built by a filler, in full precision or in the element type.
SX_TEST(fillers) {
  ElementsAttrBuilder b(*pool);
  Ref<int16_t> r; r.shape = {2, 2};
  int16_t d[4]; for (auto &x : d) { x = sym<int16_t>("x"); r.v.push_back(x); }
  auto type = RankedTensorType::get(r.shape, tyOf(BType::INT16));
  checkViews(b.fromArray<int16_t>(type, [&](MutableArrayRef<int16_t> o) { sx_assert(o.size() == 4, "elements to fill"); for (int i = 0; i < 4; ++i) o[i] = d[i]; }), r);
  checkViews(b.fromWideNums(type, [&](MutableArrayRef<WideNum> o) { sx_assert(o.size() == 4, "elements to fill"); for (int i = 0; i < 4; ++i) o[i].i64 = d[i]; }), r);
  sx_reach("fillers");
}
// Wide numbers keep more precision than the element type until they are read.
SX_TEST(wideBuffers) {
  ElementsAttrBuilder b(*pool);
  Ref<int8_t> r; r.shape = {3, 2}; int64_t d[6];
  for (auto &x : d) { x = sx_i64("x"); r.v.push_back((int8_t)x); }
  ElementsAttr e = b.fromWideNums(RankedTensorType::get(r.shape, tyOf(BType::INT8)), [&](MutableArrayRef<WideNum> o) { for (int i = 0; i < 6; ++i) o[i].i64 = d[i]; });
  checkViews(e, r);
  e = step(e, r, 3, 6); e = step(e, r, 3, 6);
  checkViews(e, r);
  sx_reach("wideBuffers");
}
