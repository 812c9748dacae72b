// C13: strided views address the right elements: index <-> position mapping,
// iteration over several strided tensors at once, reshaping and unpacking.
#include "sx.h"
#include "src/Dialect/ONNX/ElementsAttr/Strides.hpp"
#include "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"
#include <stdlib.h>
#include <string.h>
using namespace onnx_mlir;
using namespace llvm;
typedef SmallVector<int64_t, 8> V;
static V pickShape(const char *nm, int rlo, int rhi, int lo, int hi) {
  V s; int r = (int)sx_pick("rank", rlo, rhi);
  for (int i = 0; i < r; ++i) s.push_back(sx_pick(nm, lo, hi));
  return s;
}
static int64_t count(const V &s) { int64_t n = 1; for (int64_t d : s) n *= d; return n; }
// row-major index of element k of shape s
static void unflat(const V &s, int64_t k, uint64_t *ix) { for (int a = (int)s.size(); a-- > 0;) { ix[a] = k % s[a]; k /= s[a]; } }
// Position of any index under any strides, all 64-bit values.
SX_TEST(position) {
  int r = (int)sx_pick("rank", 0, sx_thorough() ? 5 : 4);
  uint64_t ix[5]; int64_t st[5];
  for (int i = 0; i < r; ++i) { ix[i] = sx_u64("ix", 64); st[i] = sx_i64("st"); }
  uint64_t want = 0;
  for (int i = r; i-- > 0;) want += ix[i] * (uint64_t)st[i];
  sx_assert(getStridesPosition(ArrayRef<uint64_t>(ix, r), ArrayRef<int64_t>(st, r)) == want, "position is the dot product of index and strides");
  sx_reach("position");
}
// Iteration over N strided tensors of one shape, any strides.
template <size_t N> static void iterate(int rhi, int hi) {
  V shape = pickShape("dim", 0, rhi, 0, hi);
  int64_t st[N + 1][5]; int r = (int)shape.size();
  std::array<ArrayRef<int64_t>, N> strides;
  for (size_t k = 0; k < N; ++k) {
    for (int i = 0; i < r; ++i) st[k][i] = r > 3 ? (int64_t)sx_u64("stride", 12) - 2048 : sx_range("stride", -(1ll << 40), 1ll << 40);
    strides[k] = ArrayRef<int64_t>(st[k], r);
  }
  StridesRange<N> range(shape, strides);
  int64_t n = count(shape), seen = 0;
  sx_assert((int64_t)range.size() == n && range.empty() == (n == 0), "number of elements");
  for (const auto &io : range) {
    sx_assert(seen < n, "iteration ends after the last element");
    uint64_t ix[5]; unflat(shape, seen, ix);
    sx_assert(io.flattenedIndex == (uint64_t)seen, "flattened index counts up");
    sx_assert((int)io.index.size() == r, "index has the rank of the shape");
    for (int a = 0; a < r; ++a) sx_assert(io.index[a] == ix[a], "row-major index");
    for (size_t k = 0; k < N; ++k) {
      int64_t want = 0;
      for (int a = 0; a < r; ++a) want += (int64_t)ix[a] * st[k][a];
      sx_assert(io.offsets[k] == want && io.at(k) == want && io[k] == want, "offset is the position under the k-th strides");
    }
    ++seen;
  }
  sx_assert(seen == n, "every element is visited");
  if (n > 1) { // post-increment and copies
    auto it = range.begin(); auto old = it++;
    sx_assert(old->flattenedIndex == 0 && it->flattenedIndex == 1 && old != it && !(old == it), "post-increment");
  }
}
SX_TEST(iterate0) { iterate<0>(sx_thorough() ? 4 : 3, 3); sx_reach("iterate0"); }
SX_TEST(iterate1) { iterate<1>(sx_thorough() ? 4 : 3, 2); sx_reach("iterate1"); }
SX_TEST(iterateWide) { iterate<2>(2, 3); sx_reach("iterateWide"); }
SX_TEST(iterate2) { iterate<2>(sx_thorough() ? 4 : 3, 2); sx_reach("iterate2"); }
SX_TEST(iterate3) { iterate<3>(3, 2); sx_reach("iterate3"); }
// Strides as the code uses them: stride 0 for dimensions of size 1.
static V canon(const V &shape) {
  V st;
  for (int64_t d : shape) st.push_back(d == 1 ? 0 : sx_range("stride", 0, 1000));
  return st;
}
SX_TEST(defaults) {
  V shape = pickShape("dim", 0, sx_thorough() ? 5 : 4, 0, 3);
  int64_t n = count(shape);
  auto st = getDefaultStrides(shape);
  sx_assert(st.size() == shape.size(), "one stride per dimension");
  uint64_t ix[8];
  for (int64_t k = 0; k < n; ++k) {
    unflat(shape, k, ix);
    sx_assert(getStridesPosition(ArrayRef<uint64_t>(ix, shape.size()), st) == (uint64_t)k, "default strides are row-major");
    auto u = unflattenIndex(shape, k);
    sx_assert(u.size() == shape.size(), "index has the rank of the shape");
    for (size_t a = 0; a < shape.size(); ++a) sx_assert(u[a] == ix[a], "unflattenIndex inverts row-major order");
  }
  for (size_t a = 0; a < shape.size(); ++a) if (shape[a] == 1) sx_assert(st[a] == 0, "dimensions of size one have stride zero");
  sx_assert(areStridesContiguous(shape, st), "default strides are contiguous");
  auto sp = getSplatStrides(shape);
  sx_assert(sp.size() == shape.size() && areStridesSplat(sp), "splat strides");
  sx_reach("defaults");
}
SX_TEST(contiguous) {
  V shape = pickShape("dim", 0, 3, 1, 3), st;
  for (size_t a = 0; a < shape.size(); ++a) st.push_back(sx_i64("stride"));
  auto def = getDefaultStrides(shape);
  bool same = true, zero = true;
  for (size_t a = 0; a < shape.size(); ++a) { same = same && st[a] == def[a]; zero = zero && st[a] == 0; }
  sx_assert(areStridesContiguous(shape, st) == same, "contiguous means default strides");
  sx_assert(areStridesSplat(st) == zero, "splat means all strides zero");
  if (same) sx_reach("contiguous"); else sx_reach("not contiguous");
}
// unflattenIndex on large shapes with any index
SX_TEST(unflatten) {
  int r = (int)sx_pick("rank", 1, 3);
  static const int64_t D[4] = {1, 3, 8, 25};
  V shape; int64_t n = 1;
  for (int i = 0; i < r; ++i) { shape.push_back(D[sx_pick("d", 0, 3)]); n *= shape.back(); }
  int bits = 1; while ((1ll << bits) < n) ++bits;
  uint64_t k = sx_u64("flat", bits); sx_assume(k < (uint64_t)n);
  auto u = unflattenIndex(shape, k);
  uint64_t back = 0;
  for (int a = 0; a < r; ++a) { sx_assert(u[a] < (uint64_t)shape[a], "index within the shape"); back = back * shape[a] + u[a]; }
  sx_assert(back == k, "flattening gives the index back");
  sx_reach("unflatten");
}
// Reshaping a view: if strides are returned they address the same elements in
// the same order; strides are returned whenever such strides exist.
static void factor(int64_t n, V &s, int left, const char *nm) {
  if (!left) { s.push_back(n); return; }
  int64_t d = sx_pick(nm, 1, n);
  if (n % d) { sx_assume(0); return; }
  s.push_back(d); factor(n / d, s, left - 1, nm);
}
SX_TEST(reshape) {
  int r1 = (int)sx_pick("rank1", 1, sx_thorough() ? 4 : 3), r2 = (int)sx_pick("rank2", 1, sx_thorough() ? 4 : 3);
  V s1, s2; int64_t n = 1;
  for (int i = 0; i < r1; ++i) { s1.push_back(sx_pick("dim", 1, 3)); n *= s1.back(); }
  if (n > 12) { sx_assume(0); return; }
  factor(n, s2, r2 - 1, "rdim");
  V st = canon(s1);
  auto out = reshapeStrides(s1, st, s2);
  uint64_t a[8], b[8]; bool exists = true;
  // the only candidate: unit index vectors determine the strides
  V cand;
  for (int d = 0; d < r2; ++d) {
    if (s2[d] == 1) { cand.push_back(0); continue; }
    int64_t flat = 1; for (int e = d + 1; e < r2; ++e) flat *= s2[e];
    unflat(s1, flat, a);
    int64_t p = 0; for (int e = 0; e < r1; ++e) p += (int64_t)a[e] * st[e];
    cand.push_back(p);
  }
  for (int64_t k = 0; k < n; ++k) {
    unflat(s1, k, a); unflat(s2, k, b);
    int64_t p = 0, q = 0, c = 0;
    for (int e = 0; e < r1; ++e) p += (int64_t)a[e] * st[e];
    if (out) {
      sx_assert((int)out->size() == r2, "one stride per dimension");
      for (int e = 0; e < r2; ++e) q += (int64_t)b[e] * (*out)[e];
      sx_assert(p == q, "reshaped strides address the same elements in the same order");
    } else {
      for (int e = 0; e < r2; ++e) c += (int64_t)b[e] * cand[e];
      exists = exists & (p == c);
    }
  }
  if (!out) { sx_assert(!exists, "strides are found whenever they exist"); sx_reach("cannot reshape"); }
  else { for (int e = 0; e < r2; ++e) if (s2[e] == 1) sx_assert((*out)[e] == 0, "dimensions of size one have stride zero"); sx_reach("reshaped"); }
}
SX_TEST(reshapeEmptyOrScalar) {
  V none; V one = {1, 1}; V z1 = {0, 2}, z2 = {3, 0};
  auto a = reshapeStrides(none, V(), one); sx_assert(a && a->size() == 2 && (*a)[0] == 0 && (*a)[1] == 0, "scalar to 1x1");
  auto b = reshapeStrides(one, V{0, 0}, none); sx_assert(b && b->empty(), "1x1 to scalar");
  auto c = reshapeStrides(z1, getDefaultStrides(z1), z2); sx_assert(c && c->size() == 2, "empty tensors");
  sx_reach("empty or scalar");
}
SX_TEST(expand) {
  V small = pickShape("dim", 0, 3, 1, 2); V st = canon(small);
  V big = small; int extra = (int)sx_pick("extra", 0, 2);
  for (auto &d : big) if (d == 1) d = sx_pick("bdim", 1, 3);
  for (int i = 0; i < extra; ++i) big.insert(big.begin(), sx_pick("edim", 1, 2));
  auto x = expandStrides(st, big);
  sx_assert(x.size() == big.size(), "one stride per dimension");
  uint64_t ix[8]; int64_t n = count(big);
  for (int64_t k = 0; k < n; ++k) {
    unflat(big, k, ix);
    int64_t p = 0, q = 0;
    for (size_t a = 0; a < big.size(); ++a) q += (int64_t)ix[a] * x[a];
    for (size_t a = 0; a < small.size(); ++a) p += (int64_t)(small[a] == 1 ? 0 : ix[a + extra]) * st[a];
    sx_assert(p == q, "expanded strides repeat the elements along broadcast dimensions");
  }
  sx_reach("expand");
}
SX_TEST(transpose) {
  int r = (int)sx_pick("rank", 0, sx_thorough() ? 5 : 4);
  SmallVector<uint64_t, 6> perm; V dims; bool used[6] = {};
  for (int i = 0; i < r; ++i) {
    uint64_t p = sx_pick("perm", 0, r - 1);
    if (used[p]) { sx_assume(0); return; }
    used[p] = true; perm.push_back(p); dims.push_back(sx_i64("dim"));
  }
  auto t = transposeDims(dims, perm), u = untransposeDims(dims, perm);
  sx_assert((int)t.size() == r && (int)u.size() == r, "rank is kept");
  for (int i = 0; i < r; ++i) {
    sx_assert(t[i] == dims[perm[i]], "dimension i of the transpose is dimension perm[i]");
    sx_assert(u[perm[i]] == dims[i], "untranspose is the inverse");
  }
  auto tu = untransposeDims(t, perm);
  for (int i = 0; i < r; ++i) sx_assert(tu[i] == dims[i], "untranspose undoes transpose");
  sx_reach("transpose");
}
// Unpacking into row-major order, for every element width and any contents.
template <typename T> static void restride() {
  V small = pickShape("dim", 0, 3, sx_thorough() ? 0 : 1, 2);
  int r = (int)small.size(), extra = (int)sx_pick("extra", 0, 1);
  int64_t n = count(small);
  T *src = (T *)malloc((n ? n : 1) * sizeof(T));
  sx_bytes(src, n * sizeof(T), "src");
  // a transposed and broadcast view
  SmallVector<uint64_t, 6> perm; bool rev = sx_pick("reverse", 0, 1);
  for (int i = 0; i < r; ++i) perm.push_back(rev ? r - 1 - i : i);
  auto st = transposeDims(getDefaultStrides(small), perm), shp = transposeDims(small, perm);
  V big(shp.begin(), shp.end());
  for (auto &d : big) if (d == 1) d = sx_pick("bdim", 1, 2);
  if (extra) big.insert(big.begin(), 2);
  int64_t m = count(big);
  T *dst = (T *)malloc((m ? m : 1) * sizeof(T));
  restrideArray<T>(big, st, ArrayRef<T>(src, n), MutableArrayRef<T>(dst, m));
  uint64_t ix[8];
  for (int64_t k = 0; k < m; ++k) {
    unflat(big, k, ix);
    int64_t p = 0;
    for (int a = 0; a < r; ++a) p += (int64_t)(shp[a] == 1 ? 0 : ix[a + extra]) * st[a];
    sx_assert(dst[k] == src[p], "unpacked element");
  }
  free(src); free(dst);
}
SX_TEST(restride1) { restride<uint8_t>(); sx_reach("restride1"); }
SX_TEST(restride2) { restride<uint16_t>(); sx_reach("restride2"); }
SX_TEST(restride4) { restride<uint32_t>(); sx_reach("restride4"); }
SX_TEST(restride8) { restride<uint64_t>(); sx_reach("restride8"); }
