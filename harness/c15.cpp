// C15: constant folding computes what the folded operation would: combinations,
// selections, comparisons, casts, clipping and data movement on constants of any
// origin (plain, transposed, transformed, broadcast, splat, dense) compared with
// definitions applied element by element.
#include "elts.h"
static unsigned threads = 1;
extern "C" unsigned __wrap__ZN4mlir11MLIRContext13getNumThreadsEv(mlir::MLIRContext *) { return threads; }
template <typename T> static RankedTensorType ty(ArrayRef<int64_t> s) { return RankedTensorType::get(s, tyOf(toBType<T>)); }
static WideNum flip64(WideNum n) { n.i64 ^= 5; return n; }
static WideNum neg64(WideNum n) { n.dbl = -n.dbl; return n; }
static WideNum notBool(WideNum n) { n.u64 = !n.u64; return n; }
template <typename T> static T unflip(T x) { if constexpr (std::is_same_v<T, bool>) return !x; else if constexpr (std::is_floating_point_v<T>) return -x; else return (T)(x ^ 5); }
// A constant of the given shape and origin whose elements are symbolic.
enum { PLAIN, TRANSPOSED, TRANSFORMED, SPLAT, BROADCAST, WIDE, DENSE, KINDS };
template <typename T> static ElementsAttr operand(Ref<T> &r, ArrayRef<int64_t> s, int kind) {
  ElementsAttrBuilder b(*pool);
  int64_t n = count(s); int rank = (int)s.size();
  r.shape = Shape(s); r.v.clear();
  std::vector<char> store(n * sizeof(T) + 1); T *d = (T *)store.data();
  if (kind == SPLAT && n > 0) {
    T x = val<T>("x"); r.v.assign(n, x);
    return b.expand(disposable<T>(Shape(rank, 1), &x), s);
  }
  if (kind == BROADCAST && rank > 0 && n > 0) {
    Shape t(s); int64_t m = n / t[rank - 1], c = t[rank - 1]; t[rank - 1] = 1;
    for (int64_t i = 0; i < m; ++i) { d[i] = val<T>("x"); for (int64_t j = 0; j < c; ++j) r.v.push_back(d[i]); }
    return b.expand(disposable<T>(t, d), s);
  }
  for (int64_t i = 0; i < n; ++i) r.v.push_back(val<T>("x"));
  if (kind == TRANSPOSED && n > 0) {
    Shape t(s.rbegin(), s.rend()); SmallVector<uint64_t, 6> p; uint64_t ix[6];
    for (int i = 0; i < rank; ++i) p.push_back(rank - 1 - i);
    for (int64_t k = 0; k < n; ++k) { unflat(t, k, ix); int64_t f = 0; for (int i = 0; i < rank; ++i) f = f * s[i] + ix[rank - 1 - i]; d[k] = r.v[f]; }
    return b.transpose(disposable<T>(t, d), p);
  }
  if (kind == TRANSFORMED) {
    for (int64_t i = 0; i < n; ++i) d[i] = unflip(r.v[i]);
    return b.transform(disposable<T>(s, d), tyOf(toBType<T>), std::is_same_v<T, bool> ? notBool : std::is_floating_point_v<T> ? neg64 : flip64);
  }
  if (kind == WIDE) return b.fromWideNums(ty<T>(s), [&](MutableArrayRef<WideNum> o) { for (int64_t i = 0; i < n; ++i) o[i] = WideNum::widen<toBType<T>>(r.v[i]); });
  for (int64_t i = 0; i < n; ++i) d[i] = r.v[i];
  if (kind == DENSE && (std::is_same_v<T, int64_t> || std::is_same_v<T, double>) && n > 1) { sx_reach("dense operand"); return dense<T>(s, d); }
  return disposable<T>(s, d);
}
template <typename T> static int64_t kindOf(int hi = KINDS - 1) { return sx_pick("kind", 0, (hi == DENSE && !std::is_same_v<T, int64_t> && !std::is_same_v<T, double>) ? hi - 1 : hi); }
static Shape pickShape(int rlo, int rhi, int64_t dlo, int64_t dhi, const char *nm = "dim") { Shape s; int r = (int)sx_pick("rank", rlo, rhi); for (int i = 0; i < r; ++i) s.push_back(sx_pick(nm, dlo, dhi)); return s; }
// Position in an operand of shape s of element k of the shape c it is broadcast to.
static int64_t bpos(ArrayRef<int64_t> c, int64_t k, ArrayRef<int64_t> s) {
  uint64_t ix[6]; unflat(c, k, ix); int64_t f = 0; size_t off = c.size() - s.size();
  for (size_t i = 0; i < s.size(); ++i) f = f * s[i] + (s[i] == 1 ? 0 : ix[i + off]);
  return f;
}
static Shape shrink(ArrayRef<int64_t> c) { Shape s; size_t drop = sx_pick("drop", 0, c.size()); for (size_t i = drop; i < c.size(); ++i) s.push_back(c[i] > 1 && sx_pick("one", 0, 1) ? 1 : c[i]); return s; }
static Shape broadcasted(ArrayRef<int64_t> a, ArrayRef<int64_t> b) {
  if (a.size() < b.size()) return broadcasted(b, a);
  Shape s(a); for (size_t i = 0; i < b.size(); ++i) { auto &d = s[a.size() - b.size() + i]; if (d == 1) d = b[i]; } return s;
}
// combine: the function sees the elements of the left and the right operand.
static WideNum minus(WideNum a, WideNum b) { a.i64 -= b.i64; return a; }
template <typename T> static void combine(int rhi) {
  ElementsAttrBuilder b(*pool);
  Shape c = pickShape(0, rhi, 1, 2); Ref<T> x, y, o;
  Shape s = shrink(c), t = shrink(c);
  ElementsAttr e = operand(x, s, kindOf<T>()), f = operand(y, t, kindOf<T>());
  o.shape = c; for (int64_t k = 0; k < count(c); ++k) o.v.push_back((T)(x.v[bpos(c, k, s)] - y.v[bpos(c, k, t)]));
  checkElements(b.combine(e, f, ty<T>(c), minus), o);
}
SX_TEST(combineLongs) { combine<int64_t>(sx_thorough() ? 2 : 1); sx_reach("combineLongs"); }
SX_TEST(combineBytes) { combine<int8_t>(2); sx_reach("combineBytes"); }
SX_TEST(where) {
  ElementsAttrBuilder b(*pool); typedef int16_t T;
  Shape c = pickShape(0, sx_thorough() ? 2 : 1, 1, 2); Ref<bool> q; Ref<T> x, y, o;
  Shape u = shrink(c), s = shrink(c), t = shrink(c);
  static const int K[] = {PLAIN, SPLAT, TRANSFORMED, BROADCAST};
  ElementsAttr g = operand(q, u, K[sx_pick("ck", 0, 3)]), e = operand(x, s, K[sx_pick("lk", 0, 2)]), f = operand(y, t, K[sx_pick("rk", 0, 2)]);
  o.shape = c; for (int64_t k = 0; k < count(c); ++k) o.v.push_back(q.v[bpos(c, k, u)] ? x.v[bpos(c, k, s)] : y.v[bpos(c, k, t)]);
  checkElements(b.where(g, e, f, ty<T>(c)), o); sx_reach("where");
}
SX_TEST(whereTransposed) {
  ElementsAttrBuilder b(*pool); Ref<bool> q; Ref<int64_t> x, y, o; Shape c = {2, 2};
  ElementsAttr g = operand(q, c, kindOf<bool>()), e = operand(x, c, kindOf<int64_t>()), f = operand(y, c, kindOf<int64_t>());
  o.shape = c; for (int k = 0; k < 4; ++k) o.v.push_back(q.v[k] ? x.v[k] : y.v[k]);
  checkElements(b.where(g, e, f, ty<int64_t>(c)), o); sx_reach("whereTransposed");
}
template <typename T> static void equal() {
  Shape c = pickShape(0, 2, 1, 2); Shape s = shrink(c), t = shrink(c); Ref<T> x, y;
  ElementsAttr e = operand(x, s, kindOf<T>(WIDE)), f = operand(y, t, kindOf<T>(WIDE));
  c = broadcasted(s, t); bool want = true;
  for (int64_t k = 0; k < count(c); ++k) want = want & (x.v[bpos(c, k, s)] == y.v[bpos(c, k, t)]);
  bool got = ElementsAttrBuilder::equal(e, f);
  sx_assert(got == want, "equal compares every pair of elements"); if (got) sx_reach("equal"); else sx_reach("not equal");
}
SX_TEST(equalBytes) { equal<uint8_t>(); }
SX_TEST(equalFloats) { equal<float>(); }
template <typename T> static void allEqual() {
  Shape c = pickShape(0, 2, 1, 2); Ref<T> x; ElementsAttr e = operand(x, c, kindOf<T>(WIDE)); T v = val<T>("v"); bool want = true;
  for (auto y : x.v) want = want & (y == v);
  bool got = ElementsAttrBuilder::allEqual(e, WideNum::widen<toBType<T>>(v));
  sx_assert(got == want, "allEqual compares every element with the value"); if (got) sx_reach("all equal"); else sx_reach("not all equal");
}
SX_TEST(allEqualShorts) { allEqual<int16_t>(); }
SX_TEST(allEqualFloats) { allEqual<float>(); }
SX_TEST(allEqualLongs) { allEqual<uint64_t>(); }
// Casts.
template <typename T> static T any(const char *nm) { return sym<T>(nm); } // NaN and infinities included
template <typename TO> static TO fpToInt(double x, bool round) {
  const TO lo = std::numeric_limits<TO>::min(), hi = std::numeric_limits<TO>::max();
  if (x != x) return 0;
  double y = round ? __builtin_rint(x) : __builtin_trunc(x);
  if (y <= (double)lo) return lo;
  if (sizeof(TO) == 8 ? y >= (double)hi : y > (double)hi) return hi; // (double)hi is 2^63 or 2^64 for 8 bytes
  return (TO)y;
}
template <typename FROM, typename TO> static void intFromFp(const FROM *V, int nv) {
  ElementsAttrBuilder b(*pool);
  FROM x; if (V) x = V[sx_pick("v", 0, nv - 1)]; else x = any<FROM>("x");
  bool round = sx_pick("round", 0, 1); Ref<TO> o; o.shape = {2};
  ElementsAttr e = b.expand(disposable<FROM>({1}, &x), {2}); auto t = mlir::cast<mlir::IntegerType>(tyOf(toBType<TO>));
  ElementsAttr c = round && sx_pick("default", 0, 1) ? b.castElementType(e, t) : b.castToIntElementType(e, t, round);
  TO w = fpToInt<TO>((double)x, round);
  o.v.assign(2, w); checkElements(c, o);
}
#define INTCASTS(FROM, T1, T2) SX_TEST(castFrom##FROM##To##T1) { intFromFp<FROM, T1>(nullptr, 0); sx_reach("castFrom" #FROM "To" #T1); } SX_TEST(castFrom##FROM##To##T2) { intFromFp<FROM, T2>(nullptr, 0); sx_reach("castFrom" #FROM "To" #T2); }
INTCASTS(float, int8_t, uint8_t) INTCASTS(float, int32_t, uint32_t)
INTCASTS(double, int16_t, uint16_t) INTCASTS(float, int64_t, uint64_t)
SX_TEST(castFromDoubleToLong) { if (!sx_thorough()) return; intFromFp<double, int64_t>(nullptr, 0); sx_reach("thorough:castd64"); }
SX_TEST(castFromDoubleToULong) { if (!sx_thorough()) return; intFromFp<double, uint64_t>(nullptr, 0); sx_reach("thorough:castdu64"); }
static const double EDGE[] = {0.0, -0.0, 0.5, 1.5, 2.5, -0.5, -1.5, 126.5, 127.5, -128.5, 254.5, 255.5, 32767.5, 2147483647.5, -2147483648.5, 4294967295.5, 9223372036854774784.0, 9223372036854775808.0, 9223372036854777856.0,
  18446744073709549568.0, 18446744073709551616.0, -9223372036854775808.0, 1e300, -1e300, 4503599627370497.5, 4503599627370496.5, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
template <typename TO> static void edges() { intFromFp<double, TO>(EDGE, sizeof EDGE / sizeof *EDGE); }
SX_TEST(castEdges) { switch (sx_pick("to", 0, 7)) { case 0: edges<int8_t>(); break; case 1: edges<uint8_t>(); break; case 2: edges<int16_t>(); break; case 3: edges<uint16_t>(); break; case 4: edges<int32_t>(); break; case 5: edges<uint32_t>(); break; case 6: edges<int64_t>(); break; default: edges<uint64_t>(); } sx_reach("castEdges"); }
template <typename FROM, typename TO> static void intFromInt() {
  if constexpr (!std::is_same_v<FROM, TO>) {
    ElementsAttrBuilder b(*pool); Ref<FROM> x; Ref<TO> o;
    ElementsAttr e = operand(x, {2, 2}, kindOf<FROM>(WIDE)); o.shape = x.shape;
    for (auto v : x.v) if constexpr (std::is_same_v<TO, bool>) o.v.push_back(v != 0); else o.v.push_back((TO)v);
    checkElements(b.castElementType(e, tyOf(toBType<TO>)), o);
  }
}
template <typename FROM> static void fromInt() {
  switch (sx_pick("to", 0, 8)) { case 0: intFromInt<FROM, int8_t>(); break; case 1: intFromInt<FROM, uint8_t>(); break; case 2: intFromInt<FROM, int16_t>(); break; case 3: intFromInt<FROM, uint16_t>(); break; case 4: intFromInt<FROM, int32_t>(); break;
  case 5: intFromInt<FROM, uint32_t>(); break; case 6: intFromInt<FROM, int64_t>(); break; case 7: intFromInt<FROM, uint64_t>(); break; default: intFromInt<FROM, bool>(); }
}
SX_TEST(castInts) { switch (sx_pick("from", 0, 4)) { case 0: fromInt<bool>(); break; case 1: fromInt<int8_t>(); break; case 2: fromInt<uint8_t>(); break; case 3: fromInt<int64_t>(); break; default: fromInt<uint64_t>(); } sx_reach("castInts"); }
SX_TEST(castInts32) { if (sx_pick("from", 0, 1)) fromInt<int32_t>(); else fromInt<uint32_t>(); sx_reach("castInts32"); }
SX_TEST(castFpToBool) { // everything but zero, NaN included, is true
  ElementsAttrBuilder b(*pool); Ref<bool> o; o.shape = {1}; float x = any<float>("x"); uint32_t u; memcpy(&u, &x, 4);
  o.v.push_back((u & 0x7fffffff) != 0); checkElements(b.castElementType(disposable<float>({1}, &x), tyOf(BType::BOOL)), o); sx_reach("castFpToBool");
}
template <typename FROM> static void fpFromInt() {
  ElementsAttrBuilder b(*pool); FROM x = val<FROM>("x"); ElementsAttr e = b.expand(disposable<FROM>({1}, &x), {3});
  if (sx_pick("to", 0, 1)) { Ref<double> o; o.shape = {3}; o.v.assign(3, (double)x); checkElements(b.castElementType(e, tyOf(BType::DOUBLE)), o); }
  else { Ref<float> o; o.shape = {3}; o.v.assign(3, (float)(double)x); checkElements(b.castElementType(e, tyOf(BType::FLOAT)), o); }
}
SX_TEST(castToFp) { switch (sx_pick("from", 0, 4)) { case 0: fpFromInt<int8_t>(); break; case 1: fpFromInt<uint16_t>(); break; case 2: fpFromInt<int32_t>(); break; case 3: fpFromInt<bool>(); break; default: fpFromInt<uint32_t>(); } sx_reach("castToFp"); }
SX_TEST(castLongsToFp) { if (sx_pick("from", 0, 1)) fpFromInt<int64_t>(); else fpFromInt<uint64_t>(); sx_reach("castLongsToFp"); }
SX_TEST(castFpToFp) {
  ElementsAttrBuilder b(*pool); double x = val<double>("x"); Ref<float> o; o.shape = {1}; o.v.push_back((float)x);
  auto f32 = mlir::cast<mlir::FloatType>(tyOf(BType::FLOAT));
  ElementsAttr e = b.castToFPElementType(disposable<double>({1}, &x), f32, false); checkElements(e, o);
  float y = val<float>("y"); Ref<double> q; q.shape = {1}; q.v.push_back((double)y); checkElements(b.castElementType(disposable<float>({1}, &y), tyOf(BType::DOUBLE)), q);
  sx_reach("castFpToFp");
}
SX_TEST(saturate) { // casts to 8-bit floats, as ONNX Cast tabulates them
  ElementsAttrBuilder b(*pool);
  static const struct { BType t; double max; int nonsat; } F[] = {{BType::FLOAT8E4M3FN, 448, 0}, {BType::FLOAT8E4M3FNUZ, 240, 0}, {BType::FLOAT8E5M2, 57344, 1}, {BType::FLOAT8E5M2FNUZ, 57344, 0}}; // NaN or infinity beyond the range
  auto &f = F[sx_pick("type", 0, 3)]; bool sat = sx_pick("saturate", 0, 1);
  static const double V[] = {0, 1.5, -3, 192, -224, 448, 57344, 100000, -100000, 1e30, -1e30, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
  double x = V[sx_pick("v", 0, 13)]; ElementsAttr e; // within the range all are representable
  switch (sx_pick("from", 0, 2)) {
  case 0: e = disposable<double>({1}, &x); break;
  case 1: { float y = (float)x; x = y; e = disposable<float>({1}, &y); break; }
  default: { if (!(x >= -1e6 && x <= 1e6) || x != (int)x) { sx_assume(0); return; } int32_t i = (int)x; e = disposable<int32_t>({1}, &i); }
  }
  ElementsAttr c = b.castToFPElementType(e, mlir::cast<mlir::FloatType>(tyOf(f.t)), sat);
  sx_assert(btypeOfMlirType(c.getElementType()) == f.t, "type of the cast");
  double got = c.getValues<mlir::APFloat>()[0].convertToDouble(), ax = x < 0 ? -x : x;
  if (x != x) sx_assert(got != got, "NaN stays NaN");
  else if (ax <= f.max) { double m = x; sx_assert(got == m, "representable numbers are kept"); }
  else if (sat) sx_assert(got == (x < 0 ? -f.max : f.max), "numbers out of range saturate");
  else if (f.nonsat) sx_assert(got == (x < 0 ? -__builtin_inf() : __builtin_inf()), "numbers out of range overflow to infinity");
  else sx_assert(got != got, "numbers out of range become NaN");
  sx_reach("saturate");
}
template <typename T> static void clip() {
  ElementsAttrBuilder b(*pool); Ref<T> x, o; T lo = val<T>("lo"), hi = val<T>("hi"); sx_assume(lo <= hi);
  ElementsAttr e = operand(x, {2}, kindOf<T>(WIDE)); o.shape = x.shape;
  for (auto v : x.v) o.v.push_back(v < lo ? lo : v > hi ? hi : v);
  checkElements(b.clip(e, WideNum::widen<toBType<T>>(lo), WideNum::widen<toBType<T>>(hi)), o);
}
SX_TEST(clipBytes) { clip<int8_t>(); sx_reach("clipBytes"); }
SX_TEST(clipUnsigned) { clip<uint64_t>(); sx_reach("clipUnsigned"); }
SX_TEST(clipFloats) { clip<float>(); sx_reach("clipFloats"); }
// Data movement.
typedef int32_t M;
template <typename T> static Ref<T> sub(const Ref<T> &x, ArrayRef<int64_t> shape, ArrayRef<int64_t> start, ArrayRef<int64_t> step) {
  Ref<T> o; o.shape = Shape(shape); uint64_t ix[6];
  for (int64_t k = 0; k < count(shape); ++k) { unflat(shape, k, ix); int64_t f = 0; for (size_t i = 0; i < shape.size(); ++i) f = f * x.shape[i] + start[i] + (int64_t)ix[i] * step[i]; o.v.push_back(x.v[f]); }
  return o;
}
SX_TEST(split) {
  ElementsAttrBuilder b(*pool); Shape s = pickShape(1, sx_thorough() ? 3 : 2, 0, 2); unsigned axis = (unsigned)sx_pick("axis", 0, s.size() - 1); if (s[axis] == 2 && sx_pick("three", 0, 1)) s[axis] = 3;
  Ref<M> x; ElementsAttr e = operand(x, s, kindOf<M>(BROADCAST)); int parts = (int)sx_pick("parts", 1, 3); Shape sz; int64_t left = s[axis];
  for (int i = 0; i + 1 < parts; ++i) { sz.push_back(sx_pick("size", 0, left)); left -= sz.back(); } sz.push_back(left);
  auto r = b.split(e, axis, sz); sx_assert((int)r.size() == parts, "one result per part");
  Shape st(s.size(), 0), one(s.size(), 1);
  for (int i = 0; i < parts; ++i) { Shape t(s); t[axis] = sz[i]; checkElements(r[i], sub(x, t, st, one)); st[axis] += sz[i]; }
  if (s[axis] == 0) sx_reach("split of an empty axis"); sx_reach("split");
}
SX_TEST(concat) {
  ElementsAttrBuilder b(*pool); Shape s = pickShape(1, 2, sx_thorough() ? 0 : 1, 2); unsigned axis = (unsigned)sx_pick("axis", 0, s.size() - 1); int parts = (int)sx_pick("parts", 1, 3);
  std::vector<Ref<M>> x(parts); std::vector<ElementsAttr> e; Ref<M> o; o.shape = s; o.shape[axis] = 0;
  for (auto &y : x) { Shape t(s); t[axis] = sx_pick("size", 0, 2); e.push_back(operand(y, t, kindOf<M>(parts < 3 ? (int)BROADCAST : (int)TRANSPOSED))); o.shape[axis] += t[axis]; }
  uint64_t ix[6];
  for (int64_t k = 0; k < count(o.shape); ++k) { unflat(o.shape, k, ix); int64_t a = ix[axis]; int p = 0; while (a >= x[p].shape[axis]) a -= x[p++].shape[axis]; ix[axis] = a; int64_t f = 0; for (size_t i = 0; i < s.size(); ++i) f = f * x[p].shape[i] + ix[i]; o.v.push_back(x[p].v[f]); }
  checkElements(b.concat(e, axis), o); sx_reach("concat");
}
SX_TEST(slice) {
  ElementsAttrBuilder b(*pool); Shape s = pickShape(0, 2, 1, 3), t, st, sp; Ref<M> x; ElementsAttr e = operand(x, s, kindOf<M>(WIDE));
  for (int64_t d : s) {
    int64_t a = sx_pick("start", 0, d - 1), p = sx_pick("step", -2, 2); if (!p) { sx_assume(0); return; }
    int64_t most = p > 0 ? (d - 1 - a) / p + 1 : a / -p + 1; t.push_back(sx_pick("len", s.size() > 1 && !sx_thorough() ? most : 0, most)); st.push_back(a); sp.push_back(p);
  }
  checkElements(b.slice(e, t, st, sp), sub(x, t, st, sp)); sx_reach("slice");
}
SX_TEST(pad) {
  ElementsAttrBuilder b(*pool); Shape s = pickShape(0, sx_thorough() ? 3 : 2, 0, 2), l, h; Ref<M> x, o; ElementsAttr e = operand(x, s, kindOf<M>(BROADCAST)); bool empty = count(s) == 0;
  for (size_t i = 0; i < s.size(); ++i) l.push_back(sx_pick("left", 0, s.size() > 2 ? 1 : 2)); for (size_t i = 0; i < s.size(); ++i) h.push_back(sx_pick("right", 0, 1));
  M v = empty ? -7 : val<M>("pad"); Shape pads(l); pads.append(h.begin(), h.end()); o.shape = s; for (size_t i = 0; i < s.size(); ++i) o.shape[i] += l[i] + h[i];
  uint64_t ix[6];
  for (int64_t k = 0; k < count(o.shape); ++k) { unflat(o.shape, k, ix); int64_t f = 0; bool in = true; for (size_t i = 0; i < s.size(); ++i) { int64_t a = (int64_t)ix[i] - l[i]; in &= a >= 0 && a < s[i]; f = f * s[i] + a; } o.v.push_back(in ? x.v[f] : v); }
  if (empty) { if (!count(o.shape)) return; sx_reach("pad of nothing"); }
  checkElements(b.pad(e, pads, WideNum::widen<toBType<M>>(v)), o); sx_reach("pad");
}
template <typename I> static void gather() {
  ElementsAttrBuilder b(*pool); Shape s = pickShape(1, sx_thorough() ? 3 : 2, 1, 2); unsigned axis = (unsigned)sx_pick("axis", 0, s.size() - 1); if (s[axis] == 2) s[axis] = 3;
  Shape is = pickShape(0, 2, 1, 2, "idim"); if (count(is) > 2) { sx_assume(0); return; } Ref<M> x, o; ElementsAttr e = operand(x, s, kindOf<M>(BROADCAST)); std::vector<I> ind;
  for (int64_t i = 0; i < count(is); ++i) ind.push_back((I)sx_pick("index", -s[axis], s[axis] - 1));
  for (unsigned i = 0; i < axis; ++i) o.shape.push_back(s[i]); o.shape.append(is.begin(), is.end()); for (unsigned i = axis + 1; i < s.size(); ++i) o.shape.push_back(s[i]);
  uint64_t ix[8];
  for (int64_t k = 0; k < count(o.shape); ++k) {
    unflat(o.shape, k, ix); int64_t q = 0, f = 0; for (size_t i = 0; i < is.size(); ++i) q = q * is[i] + ix[axis + i]; int64_t a = ind[q]; if (a < 0) a += s[axis];
    for (size_t i = 0; i < s.size(); ++i) f = f * s[i] + (i < axis ? ix[i] : i == axis ? a : ix[i - 1 + is.size()]); o.v.push_back(x.v[f]);
  }
  checkElements(b.gather(e, disposable<I>(is, ind.data()), axis), o);
}
SX_TEST(gatherLong) { gather<int64_t>(); sx_reach("gatherLong"); }
SX_TEST(gatherInt) { gather<int32_t>(); sx_reach("gatherInt"); }
SX_TEST(scatterND) {
  ElementsAttrBuilder b(*pool); Shape s = pickShape(1, sx_thorough() ? 3 : 2, 1, 2); if (s.back() == 2) s.back() = 3; int64_t nd = sx_pick("nd", 1, s.size()); Shape outer = pickShape(0, 2, 1, 2, "odim"); if (count(outer) > (s.size() > 2 && nd > 1 ? 1 : 2)) { sx_assume(0); return; }
  Shape is(outer), us(outer); is.push_back(nd); us.append(s.begin() + nd, s.end()); Ref<M> x, u; ElementsAttr e = operand(x, s, kindOf<M>(TRANSFORMED)), f = operand(u, us, kindOf<M>(TRANSFORMED)); int64_t n = count(outer), sz = count(us) / n; std::vector<int64_t> ind, base;
  for (int64_t i = 0; i < n; ++i) { int64_t p = 0; for (int64_t a = 0; a < nd; ++a) { int64_t v = sx_pick("index", -s[a], s[a] - 1); ind.push_back(v); if (v < 0) { v += s[a]; sx_reach("negative index"); } p = p * s[a] + v; } for (int64_t q : base) if (q == p) { sx_assume(0); return; } base.push_back(p); }
  Ref<M> o = x; for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < sz; ++j) o.v[base[i] * sz + j] = u.v[i * sz + j];
  checkElements(b.scatterND(e, disposable<int64_t>(is, ind.data()), f), o); checkElements(e, x); sx_reach("scatterND");
}
static WideNum plus(WideNum a, WideNum b) { a.i64 += b.i64; return a; }
static WideNum larger(WideNum a, WideNum b) { return a.i64 < b.i64 ? b : a; }
SX_TEST(reduce) {
  ElementsAttrBuilder b(*pool); typedef int64_t T; Shape s = pickShape(0, sx_thorough() ? 3 : 2, 1, 2); if (!s.empty() && s.back() == 2) s.back() = 3;
  Ref<T> x, o; ElementsAttr e = operand(x, s, kindOf<T>()); bool keep = sx_pick("keepdims", 0, 1), isMax = sx_pick("max", 0, 1); SmallVector<unsigned, 4> axes; Shape full;
  for (unsigned i = (unsigned)s.size(); i-- > 0;) if (sx_pick("reduced", 0, 1)) axes.push_back(i); // in descending order
  for (unsigned i = 0; i < s.size(); ++i) { bool red = false; for (auto a : axes) red |= a == i; full.push_back(red ? 1 : s[i]); if (!red || keep) o.shape.push_back(red ? 1 : s[i]); }
  std::vector<T> acc(count(full)); std::vector<bool> set(acc.size());
  for (int64_t k = 0; k < count(s); ++k) { int64_t f = bpos(s, k, full); T v = x.v[k]; acc[f] = !set[f] ? v : isMax ? (acc[f] < v ? v : acc[f]) : acc[f] + v; set[f] = true; }
  o.v.assign(acc.begin(), acc.end());
  checkElements(b.reduce(e, axes, keep, isMax ? larger : plus), o); sx_reach("reduce");
}
template <typename T> static void matMul(int rhi, int kindHi) {
  ElementsAttrBuilder b(*pool); int lr = (int)sx_pick("lrank", 1, rhi), rr = (int)sx_pick("rrank", 1, rhi); int64_t m = sx_pick("M", 1, 2), n = sx_pick("N", 1, 2), K = sx_pick("K", 0, 2);
  if ((lr == 1 && m > 1) || (rr == 1 && n > 1)) { sx_assume(0); return; }
  Shape lb, rb, cb; for (int i = 2; i < lr; ++i) lb.push_back(sx_pick("lb", 1, 2)); for (int i = 2; i < rr; ++i) rb.push_back(sx_pick("rb", 1, 2)); cb = broadcasted(lb, rb);
  Shape ls(lb), rs(rb); if (lr > 1) ls.push_back(m); ls.push_back(K); rs.push_back(K); if (rr > 1) rs.push_back(n);
  Ref<T> x, y, o; ElementsAttr e = operand(x, ls, kindOf<T>(kindHi)), f = operand(y, rs, kindOf<T>(kindHi));
  o.shape = cb; if (lr > 1) o.shape.push_back(m); if (rr > 1) o.shape.push_back(n);
  for (int64_t c = 0; c < count(cb); ++c) for (int64_t i = 0; i < m; ++i) for (int64_t j = 0; j < n; ++j) {
    T s = 0; for (int64_t k = 0; k < K; ++k) s = (T)(s + x.v[bpos(cb, c, lb) * m * K + i * K + k] * y.v[bpos(cb, c, rb) * K * n + k * n + j]);
    o.v.push_back(s);
  }
  checkElements(b.matMul(e, f), o);
}
SX_TEST(matMulInts) { matMul<uint32_t>(2, TRANSFORMED); sx_reach("matMulInts"); }
SX_TEST(matMulBatches) { matMul<int64_t>(sx_thorough() ? 4 : 3, TRANSPOSED); sx_reach("matMulBatches"); }
SX_TEST(range) {
  ElementsAttrBuilder b(*pool); int64_t n = sx_pick("n", 0, 4);
  switch (sx_pick("type", 0, 2)) {
  case 0: { typedef int16_t T; T st = val<T>("start"), d = val<T>("delta"); Ref<T> o; o.shape = {n}; T y = st; for (int64_t i = 0; i < n; ++i) { o.v.push_back(y); y = (T)(y + d); } checkElements(b.range(ty<T>(o.shape), WideNum::widen<toBType<T>>(st), WideNum::widen<toBType<T>>(d)), o); break; }
  case 1: { typedef uint64_t T; T st = val<T>("start"), d = val<T>("delta"); Ref<T> o; o.shape = {n}; T y = st; for (int64_t i = 0; i < n; ++i) { o.v.push_back(y); y += d; } checkElements(b.range(ty<T>(o.shape), WideNum::widen<toBType<T>>(st), WideNum::widen<toBType<T>>(d)), o); break; }
  default: { typedef float T; int32_t st = (int32_t)sx_u64("start", 5) - 16, d = (int32_t)sx_u64("delta", 5) - 16;
    ElementsAttr e = b.range(ty<T>({n}), WideNum::widen<toBType<T>>((T)st), WideNum::widen<toBType<T>>((T)d)); auto w = getElementsArray<float>(e); sx_assert((int64_t)w.get().size() == n, "size of a range");
    for (int64_t i = 0; i < n; ++i) sx_assert(w.get()[i] == (T)(st + i * d), "element of a range"); }
  }
  sx_reach("range");
}
template <typename T> static void nonZero(const T *V, int nv) {
  ElementsAttrBuilder b(*pool); Shape s = pickShape(0, 2, 0, 2); if (count(s) > 1 && s[0] == 2) s[0] = 2; Shape t(s.rbegin(), s.rend()); bool tr = sx_pick("transposed", 0, 1); int64_t n = count(s), rank = s.size(), cnt = 0;
  std::vector<T> d(n + 1); for (int64_t i = 0; i < n; ++i) d[i] = V[sx_pick("v", 0, nv - 1)];
  ElementsAttr e = disposable<T>(s, d.data()); SmallVector<uint64_t, 4> p; for (int64_t i = 0; i < rank; ++i) p.push_back(rank - 1 - i); if (tr) e = b.transpose(e, p);
  const Shape &r = tr ? t : s; std::vector<std::vector<int64_t>> found(rank); uint64_t ix[4], iy[4];
  for (int64_t k = 0; k < n; ++k) { unflat(r, k, ix); int64_t f = 0; for (int64_t i = 0; i < rank; ++i) iy[i] = tr ? ix[rank - 1 - i] : ix[i]; for (int64_t i = 0; i < rank; ++i) f = f * s[i] + iy[i]; if (d[f] != 0) { ++cnt; for (int64_t i = 0; i < rank; ++i) found[i].push_back(ix[i]); } }
  Ref<int64_t> o; o.shape = {rank, cnt}; for (auto &row : found) for (auto v : row) o.v.push_back(v);
  checkElements(b.nonZero(e), o); if (!rank && cnt) sx_reach("scalar nonZero");
}
SX_TEST(nonZeroInts) { static const int8_t V[] = {0, -128}; nonZero<int8_t>(V, 2); sx_reach("nonZeroInts"); }
SX_TEST(nonZeroFloats) { static const float V[] = {-0.0f, 1e-45f}; nonZero<float>(V, 2); sx_reach("nonZeroFloats"); }
// Large constants are processed in as many pieces as there are threads: every
// element is treated exactly once whatever their number.
static WideNum next(WideNum n) { n.i64 += 1; return n; }
SX_TEST(tiles) {
  ElementsAttrBuilder b(*pool); static const int64_t N[] = {999, 1000, 1003, 1007};
  Ref<int64_t> x; Shape s = {N[sx_pick("n", 0, 3)]}; ElementsAttr e = operand(x, s, PLAIN); threads = (unsigned)sx_pick("threads", 1, sx_thorough() ? 16 : 8);
  e = b.transform(e, e.getElementType(), next); auto w = getElementsWideNums(e); sx_assert((int64_t)w.get().size() == s[0], "size of a large constant");
  for (int64_t i = 0; i < s[0]; ++i) sx_assert(w.get()[i].i64 == (int64_t)((uint64_t)x.v[i] + 1), "every element of a large constant is transformed once");
  sx_reach("tiles");
}
SX_TEST(reduceTiles) {
  ElementsAttrBuilder b(*pool); static const int64_t R[] = {400, 401, 666, 3};
  int64_t rows = R[sx_pick("rows", 0, 3)], cols = rows < 10 ? 667 : rows > 600 ? 3 : 5; Ref<int64_t> x; ElementsAttr e = operand(x, {rows, cols}, PLAIN); threads = (unsigned)sx_pick("threads", 1, sx_thorough() ? 16 : 8);
  e = b.reduce(e, {1}, false, larger); auto w = getElementsWideNums(e); sx_assert((int64_t)w.get().size() == rows, "size of a large reduction");
  for (int64_t i = 0; i < rows; i += rows < 10 ? 1 : 7) { auto m = x.v[i * cols]; for (int64_t j = 1; j < cols; ++j) m = m < x.v[i * cols + j] ? x.v[i * cols + j] : m; sx_assert(w.get()[i].i64 == m, "every row of a large constant is reduced"); }
  sx_reach("reduceTiles");
}
