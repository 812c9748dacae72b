// C21: debug inputs have the shapes, types and values that the signature, the
// overrides and the bounds prescribe, for every sequence of random draws.
#include "sx.h"
#include "OnnxMlirRuntime.h"
#include "src/Runtime/OMTensorHelper.hpp"
#include "src/Runtime/OMTensorListHelper.hpp"
#include "src/Support/SmallFPConversion.h"
#include <limits>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
using S = std::string;
template <class T> using V = std::vector<T>;
// ---- random draws: an arbitrary sequence per seed
static const int NSEED = 4, NDRAW = 24;
static int limit = NDRAW; // draws of a sequence: those needed and at most one rejected
static uint32_t table[NSEED][NDRAW]; static int have[NSEED], nseed, cur = -1, drawn, seedings, entropy;
static uint64_t seeds[NSEED];
extern "C" {
void om_seed(uint64_t s) {
  ++seedings; drawn = 0;
  for (int i = 0; i < nseed; ++i) if (seeds[i] == s) { cur = i; return; }
  sx_assert(nseed < NSEED, "few seeds");
  cur = nseed++; seeds[cur] = s;
}
uint32_t om_draw(void) {
  if (cur < 0) om_seed(~0ull);
  sx_assume(drawn < NDRAW && drawn < limit);
  if (drawn >= have[cur]) { table[cur][drawn] = sx_u32("draw"); have[cur] = drawn + 1; }
  return table[cur][drawn++];
}
uint32_t om_entropy(void) { return 1000 + (uint32_t)entropy++; }
}
// ---- types
struct Type { OM_DATA_TYPE t; const char *sig, *name; };
static const Type TYPES[] = {{ONNX_TYPE_FLOAT, "f32", "float32"}, {ONNX_TYPE_DOUBLE, "f64", "float64"}, {ONNX_TYPE_FLOAT16, "f16", "float16"}, {ONNX_TYPE_INT8, "i8", "int8"}, {ONNX_TYPE_UINT8, "ui8", "uint8"}, {ONNX_TYPE_INT16, "i16", "int16"}, {ONNX_TYPE_UINT16, "ui16", "uint16"}, {ONNX_TYPE_INT32, "i32", "int32"}, {ONNX_TYPE_UINT32, "ui32", "uint32"}, {ONNX_TYPE_INT64, "i64", "int64"}, {ONNX_TYPE_UINT64, "ui64", "uint64"}, {ONNX_TYPE_BOOL, "i1", "bool_"}, {ONNX_TYPE_STRING, "string", "str"}};
enum { NTYPES = 13, FLOATS = 3 };
static int64_t product(const V<int64_t> &s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
// The element is one the bounds allow; which: 1 low end, 2 high end.
template <class T> static int within(T v, T lo, T hi) { sx_assert((v >= lo) & (v <= hi), "values within the bounds"); return (v == lo) | (v == hi) << 1; }
static int element(OMTensor *t, int64_t i, double lo, double hi) {
  void *p = omTensorGetDataPtr(t);
  switch (omTensorGetDataType(t)) {
  case ONNX_TYPE_FLOAT: return within(((float *)p)[i], (float)lo, (float)hi);
  case ONNX_TYPE_DOUBLE: return within(((double *)p)[i], lo, hi);
  case ONNX_TYPE_FLOAT16: return within(om_f16_to_f32(((uint16_t *)p)[i]), om_f16_to_f32(om_f32_to_f16((float)lo)), om_f16_to_f32(om_f32_to_f16((float)hi)));
  case ONNX_TYPE_INT8: return within(((int8_t *)p)[i], (int8_t)lo, (int8_t)hi);
  case ONNX_TYPE_UINT8: return within(((uint8_t *)p)[i], (uint8_t)lo, (uint8_t)hi);
  case ONNX_TYPE_INT16: return within(((int16_t *)p)[i], (int16_t)lo, (int16_t)hi);
  case ONNX_TYPE_UINT16: return within(((uint16_t *)p)[i], (uint16_t)lo, (uint16_t)hi);
  case ONNX_TYPE_INT32: return within(((int32_t *)p)[i], (int32_t)lo, (int32_t)hi);
  case ONNX_TYPE_UINT32: return within(((uint32_t *)p)[i], (uint32_t)lo, (uint32_t)hi);
  case ONNX_TYPE_INT64: return within(((int64_t *)p)[i], (int64_t)lo, (int64_t)hi);
  case ONNX_TYPE_UINT64: return within(((uint64_t *)p)[i], (uint64_t)lo, (uint64_t)hi);
  case ONNX_TYPE_BOOL: { uint8_t b = ((uint8_t *)p)[i]; sx_assert(b <= 1, "a boolean is 0 or 1"); return within((int)b, (int)(lo > 0.5), (int)(hi > 0.5)); }
  case ONNX_TYPE_STRING: {
    const char *s = ((const char **)p)[i];
    char *end;
    long v = strtol(s, &end, 10);
    sx_assert(*s && !*end && std::to_string(v) == s, "a string is a decimal number");
    return within(v, (long)(int)lo, (long)(int)hi);
  }
  default: sx_assert(0, "type"); return 0;
  }
}
static void checkShape(OMTensor *t, OM_DATA_TYPE type, const V<int64_t> &shape) {
  sx_assert(t && omTensorGetDataType(t) == type, "type");
  sx_assert(omTensorGetRank(t) == (int64_t)shape.size() && omTensorGetNumElems(t) == product(shape), "shape");
  int64_t stride = 1;
  for (int i = (int)shape.size() - 1; i >= 0; --i) { sx_assert(omTensorGetShape(t)[i] == shape[i] && omTensorGetStrides(t)[i] == stride, "shape"); stride *= shape[i]; }
  sx_assert(omTensorGetOwning(t), "the tensor owns its data");
}
static const struct { double lo, hi; } FB[] = {{-0.1, 0.1}, {0, 1}, {-2.5, -2.5}, {0.25, 1024}}, SB[] = {{-10, 10}, {0, 1}, {5, 5}, {-128, 127}, {-1, 100}}, UB[] = {{0, 10}, {0, 255}, {7, 7}, {3, 5}};
static const struct { OM_DATA_TYPE t; double lo, hi; } WIDE[] = {{ONNX_TYPE_INT16, -32768, 32767}, {ONNX_TYPE_UINT16, 0, 65535}, {ONNX_TYPE_INT32, -2147483648.0, 2147483647.0}, {ONNX_TYPE_UINT32, 0, 4294967295.0}, {ONNX_TYPE_UINT32, 3000000000.0, 3000000007.0}, {ONNX_TYPE_INT64, -9007199254740992.0, 9007199254740992.0}, {ONNX_TYPE_INT64, -9223372036854775808.0, 4611686018427387904.0}, {ONNX_TYPE_UINT64, 0, 9007199254740992.0}, {ONNX_TYPE_UINT64, 9223372036854775808.0, 9223372036854779904.0}, {ONNX_TYPE_UINT64, 1, 18446744073709549568.0}, {ONNX_TYPE_BOOL, 0, 1}, {ONNX_TYPE_BOOL, 0.5, 0.75}, {ONNX_TYPE_BOOL, 0.6, 1}, {ONNX_TYPE_BOOL, 0, 0.5}};
static const V<int64_t> SHAPES[] = {{}, {2}, {1, 2}, {0}, {2, 0, 1}, {3}};
static int draws(OM_DATA_TYPE t) { return t == ONNX_TYPE_INT64 || t == ONNX_TYPE_UINT64 || t == ONNX_TYPE_DOUBLE ? 2 : 1; }
static void values(const Type &ty, const V<int64_t> &shape, double lo, double hi) {
  limit = (int)product(shape) * draws(ty.t) + draws(ty.t);
  OMTensor *t = omTensorCreateWithRandomData(shape, ty.t, lo, hi);
  checkShape(t, ty.t, shape);
  int64_t n = product(shape);
  for (int64_t i = 0; i < n; ++i) {
    int ends = element(t, i, lo, hi);
    if (!i && ty.t != ONNX_TYPE_STRING && (ty.t > ONNX_TYPE_FLOAT && ty.t <= ONNX_TYPE_INT64 || ty.t == ONNX_TYPE_BOOL || ty.t >= ONNX_TYPE_UINT32)) { if (ends & 1) sx_reach("low"); if (ends & 2) sx_reach("high"); }
  }
  if (ty.t == ONNX_TYPE_INT8 && n == 2 && lo < hi) { int8_t *p = (int8_t *)omTensorGetDataPtr(t); if (p[0] < p[1]) sx_reach("increasing"); if (p[0] > p[1]) sx_reach("decreasing"); }
  omTensorDestroy(t);
}
// Every element of a random tensor is within the bounds.
SX_TEST(random) {
  int k = (int)sx_pick("type", 0, NTYPES - 2);
  bool seeded = sx_pick("seeded", 0, 1);
  if (seeded) omDefineSeed(7, 1);
  int s = seeded ? (int)sx_pick("shape", 0, k == 2 ? 0 : sx_thorough() ? 5 : 4) : 0;
  auto *b = k < FLOATS ? FB : TYPES[k].sig[0] == 'u' ? (decltype(&FB[0]))UB : (decltype(&FB[0]))SB;
  int i = (int)sx_pick("bounds", 0, k == 11 ? 1 : TYPES[k].sig[0] == 'i' ? 4 : 3);
  values(TYPES[k], SHAPES[s], b[i].lo, b[i].hi);
}
SX_TEST(wide) {
  omDefineSeed(7, 1);
  auto &w = WIDE[sx_pick("bounds", 0, 13)];
  for (auto &t : TYPES) if (t.t == w.t) values(t, SHAPES[1], w.lo, w.hi);
}
SX_TEST(strings) {
  omDefineSeed(7, 1);
  static const int B[][2] = {{0, 5}, {-2, 1}, {9, 11}, {99, 99}};
  auto &b = B[sx_pick("bounds", 0, 3)];
  static const V<int64_t> N[] = {{}, {2}, {0}, {1, 1}};
  values(TYPES[12], N[sx_pick("shape", 0, 3)], b[0], b[1]);
}
// Any strings, packed.
SX_TEST(pack) {
  int n = (int)sx_pick("n", 0, 3);
  V<S> in;
  for (int i = 0; i < n; ++i) { S s((size_t)sx_pick("len", 0, 3), ' '); for (auto &c : s) { uint8_t b = sx_u8("c"); sx_assume(b != 0); c = (char)b; } in.push_back(s); }
  char **p = (char **)omTensorBuildStringBuffer(in);
  sx_assert(p != nullptr, "a buffer");
  for (int i = 0; i < n; ++i) {
    int bad = 0;
    for (size_t j = 0; j < in[i].size(); ++j) bad |= p[i][j] ^ in[i][j];
    sx_assert(!bad && !p[i][in[i].size()], "each string");
  }
  free(p);
}
static void checkSoz(OMTensor *t, const V<int64_t> &shape, int64_t count) {
  int64_t inner = shape.back(), rows = inner ? product(shape) / inner : 0;
  const char *p = (const char *)omTensorGetDataPtr(t);
  size_t w = (size_t)(omTensorGetBufferSize(t) / std::max<int64_t>(1, product(shape)));
  char one[8] = {0};
  switch (omTensorGetDataType(t)) {
  case ONNX_TYPE_FLOAT: { float f = 1; memcpy(one, &f, 4); break; }
  case ONNX_TYPE_DOUBLE: { double f = 1; memcpy(one, &f, 8); break; }
  default: one[0] = 1;
  }
  for (int64_t r = 0; r < rows; ++r) {
    int64_t ones = 0;
    bool ended = false;
    for (int64_t i = 0; i < inner; ++i) {
      const char *e = p + (r * inner + i) * w;
      char zero[8] = {0};
      int is1 = 1, is0 = 1;
      for (size_t j = 0; j < w; ++j) { is1 &= e[j] == one[j]; is0 &= e[j] == 0; }
      sx_assert(is1 | is0, "ones and zeros");
      if (is1) { sx_assert(!ended, "ones, then zeros"); ++ones; } else ended = true;
    }
    if (count >= 0) sx_assert(ones == std::min(count, inner), "number of ones");
    else { sx_assert(ones >= 1 && ones <= std::max<int64_t>(1, inner - 1), "number of ones"); if (inner == 4) { if (ones == 1) sx_reach("oneOne"); if (ones == 3) sx_reach("mostOnes"); if (r && ones == 2) sx_reach("rows"); } }
  }
}
SX_TEST(soz) {
  static const V<int64_t> N[] = {{4}, {2, 4}, {1}, {2, 2, 2}, {0}, {2, 0}, {0, 3}, {3, 1}};
  auto &shape = N[sx_pick("shape", 0, 7)];
  int k = (int)sx_pick("type", 0, NTYPES - 2);
  int64_t count = sx_pick("count", -1, 5);
  if (sx_pick("seeded", 0, 1)) omDefineSeed(7, 1);
  if (count < 0) { sx_assume(k == 0 || k == 3 || k == 9 || shape.size() == 1); }
  limit = (int)product(shape) / (int)std::max<int64_t>(1, shape.back()) + 1;
  OMTensor *t = omTensorCreateSozData(shape, TYPES[k].t, count);
  if (!t) { sx_assert(TYPES[k].t == ONNX_TYPE_FLOAT16, "every numeric type"); return; }
  checkShape(t, TYPES[k].t, shape);
  checkSoz(t, shape, count);
  omTensorDestroy(t);
  sx_reach("soz");
}
// The seed decides the values; without one they are fresh.
SX_TEST(seeds) {
  static const V<int64_t> N = {2};
  int mode = (int)sx_pick("mode", 0, 2);
  uint32_t seed = sx_thorough() ? 41 + (uint32_t)sx_pick("seed", 0, 1) : 41, used = 0;
  const OM_DATA_TYPE T[] = {ONNX_TYPE_INT16, ONNX_TYPE_FLOAT, ONNX_TYPE_UINT64};
  OM_DATA_TYPE ty = T[sx_pick("type", 0, 2)];
  if (mode == 0) { used = omDefineSeed(seed, 1); sx_assert(used == seed, "the given seed is used"); }
  if (mode == 1) { used = omDefineSeed(seed, 0); sx_assert(used >= 1000 && entropy == 1, "a fresh seed is used"); }
  limit = 4 * draws(ty) + 1;
  OMTensor *a = omTensorCreateWithRandomData(N, ty, 0, 100), *b = omTensorCreateWithRandomData(N, ty, 0, 100);
  if (mode == 2) sx_assert(entropy >= 1, "without a seed the values are fresh");
  else {
    sx_assert(seedings == 1, "seeded once");
    int r1 = drawn, r0 = cur;
    omDefineSeed(used, 1);
    OMTensor *c = omTensorCreateWithRandomData(N, ty, 0, 100), *d = omTensorCreateWithRandomData(N, ty, 0, 100);
    size_t w = (size_t)omTensorGetBufferSize(a);
    int diff = 0;
    for (size_t i = 0; i < w; ++i) diff |= ((char *)omTensorGetDataPtr(a))[i] ^ ((char *)omTensorGetDataPtr(c))[i], diff |= ((char *)omTensorGetDataPtr(b))[i] ^ ((char *)omTensorGetDataPtr(d))[i];
    sx_assert(!diff && cur == r0 && drawn == r1, "the same values for the same seed");
    sx_reach("again");
    omTensorDestroy(c); omTensorDestroy(d);
  }
  omTensorDestroy(a); omTensorDestroy(b);
}
// ---- signatures
static int sep;
static const char *gap() { return sep ? " " : ""; }
static S entryOf(const Type &t, const V<int64_t> &dims, int order) {
  S d = S("\"dims\"") + gap() + ":" + gap() + "[";
  for (size_t i = 0; i < dims.size(); ++i) d += (i ? S(gap()) + "," + gap() : S(gap())) + std::to_string(dims[i]);
  d += S(gap()) + "]";
  S ty = S("\"type\" : \"") + t.sig + "\"", name = "\"name\": \"type: [x, {y}]\"";
  if (order == 1) return "{" + d + gap() + "," + name + "," + ty + "}";
  return S("{ ") + ty + " , " + d + " , " + name + gap() + "}\n";
}
struct Input { const Type *t; V<int64_t> dims, want; double lo, hi; bool soz; int64_t count; };
static double low(const Type &t) { return t.t == ONNX_TYPE_FLOAT || t.t == ONNX_TYPE_DOUBLE || t.t == ONNX_TYPE_FLOAT16 ? -0.1 : t.sig[0] == 'i' && t.t != ONNX_TYPE_BOOL ? -10 : 0; }
static double high(const Type &t) { return t.t == ONNX_TYPE_FLOAT || t.t == ONNX_TYPE_DOUBLE || t.t == ONNX_TYPE_FLOAT16 ? 0.1 : t.t == ONNX_TYPE_BOOL ? 1 : t.t == ONNX_TYPE_STRING ? 63 : 10; }
static S signatureOf(const V<Input> &in) {
  S s = "[ ";
  for (size_t i = 0; i < in.size(); ++i) s += (i ? " , " : "") + entryOf(*in[i].t, in[i].dims, (int)i % 2);
  return s + "\n]";
}
static void needs(const V<Input> &in) {
  limit = 1;
  for (auto &i : in) limit += (int)product(i.want) * draws(i.t->t);
}
static void check(const V<Input> &in, OMTensorList *l) {
  sx_assert(l && omTensorListGetSize(l) == (int64_t)in.size(), "one tensor per input");
  for (size_t i = 0; i < in.size(); ++i) {
    OMTensor *t = omTensorListGetOmtByIndex(l, (int64_t)i);
    checkShape(t, in[i].t->t, in[i].want);
    if (in[i].soz) checkSoz(t, in[i].want, in[i].count);
    else for (int64_t k = 0; k < product(in[i].want); ++k) element(t, k, in[i].lo, in[i].hi);
  }
  omTensorListDestroy(l);
}
static Input input(const Type &t, V<int64_t> dims) { return {&t, dims, dims, low(t), high(t), false, 0}; }
// Types, shapes and default bounds; overridden bounds per type.
SX_TEST(signature) {
  omDefineSeed(3, 1);
  int k = (int)sx_pick("type", 0, NTYPES - 1);
  sep = (int)sx_pick("blanks", 0, 1);
  const Type &t = TYPES[k], &u = TYPES[k == 7 ? 9 : 7];
  V<Input> in = {input(t, k == 2 || k == 12 ? V<int64_t>{1} : V<int64_t>{2}), input(u, {})};
  int over = (int)sx_pick("override", 0, 3);
  bool lower = over & 1, upper = over >> 1;
  bool small = t.t == ONNX_TYPE_STRING;
  S lo, hi;
  if (lower) { lo = S("uint32:4, ") + t.name + ":" + (k < FLOATS ? "-0.0625" : "1"); in[0].lo = k < FLOATS ? -0.0625 : 1; }
  if (upper) { hi = S(k == 11 ? "bool" : t.name) + ":" + (k < FLOATS ? "0.03125" : k == 11 ? "0" : "3") + ",str:" + (small ? "3" : "9"); in[0].hi = k < FLOATS ? 0.03125 : k == 11 ? 0 : 3; }
  if (k == 11 && lower && upper) return; // in the wrong order
  sx_assume(!(small && !upper));
  S sig = signatureOf(in);
  needs(in);
  check(in, omTensorListCreateFromInputSignature(sig.c_str(), nullptr, nullptr, lower ? lo.c_str() : nullptr, upper ? hi.c_str() : ""));
  sx_reach("signature");
}
// Shape overrides.
SX_TEST(shapes) {
  omDefineSeed(3, 1);
  V<Input> in = {input(TYPES[3], {-1, 2}), input(TYPES[4], {1, -1}), input(TYPES[8], {2})};
  int n = (int)sx_pick("inputs", 1, 3);
  in.resize((size_t)n);
  V<V<int64_t>> over((size_t)n);
  S text;
  bool bad = false;
  int entries = (int)sx_pick("entries", 0, 2);
  for (int e = 0; e < entries; ++e) {
    int lo = (int)sx_pick("from", -1, n), hi = lo < 0 || lo >= n ? lo : (int)sx_pick("to", lo, e ? n - 1 : n);
    if (e) text += n % 2 ? ", " : ",";
    text += std::to_string(lo);
    if (hi != lo) text += "-" + std::to_string(hi);
    text += ":";
    bad |= lo >= n || hi >= n;
    V<int64_t> d;
    int64_t a = sx_pick("a", e ? 0 : -2, 2), b = e == 1 ? 1 : sx_pick("b", -1, 2);
    bad |= a < -1;
    if (sx_pick("two", 0, 1)) { d = {a, b}; text += std::to_string(a) + "x" + std::to_string(b); } else { d = {a}; text += std::to_string(a); }
    for (int i = 0; i < n; ++i) if (lo < 0 || (i >= lo && i <= hi)) over[(size_t)i] = d;
  }
  for (int i = 0; i < n && !bad; ++i)
    for (size_t d = 0; d < in[(size_t)i].dims.size(); ++d) {
      int64_t &w = in[(size_t)i].want[d], o = d < over[(size_t)i].size() ? over[(size_t)i][d] : -1;
      if (w >= 0 && o >= 0 && w != o) bad = true;
      if (w < 0) w = o;
      if (w < 0) bad = true;
    }
  S sig = signatureOf(in);
  OMTensorList *l = omTensorListCreateFromInputSignature(sig.c_str(), text.c_str(), "-1:val1");
  if (bad) { sx_assert(!l, "wrong or missing dimensions are refused"); sx_reach("refused"); return; }
  for (auto &i : in) i.lo = i.hi = 1;
  check(in, l);
  sx_reach("shaped");
}
// Values per input.
SX_TEST(infos) {
  omDefineSeed(3, 1);
  static const struct { const char *text; bool min, max; double lo, hi; bool soz; int64_t count; bool bad; } SPECS[] = {
    {"min1 max4", true, true, 1, 4, false, 0, false}, {"max4min-3.0", true, true, -3, 4, false, 0, false}, {"val2", true, true, 2, 2, false, 0, false}, {" max5 ", false, true, 0, 5, false, 0, false}, {"min5", true, false, 5, 0, false, 0, false}, {"min20", true, false, 20, 0, false, 0, false},
    {"soz2", false, false, 0, 0, true, 2, false}, {"soz-1", false, false, 0, 0, true, -1, false}, {"soz-2", false, false, 0, 0, true, 0, true}, {"min1 soz1", false, false, 0, 0, true, 0, true}, {"min", false, false, 0, 0, false, 0, true}, {"mid3", false, false, 0, 0, false, 0, true}, {"minx", false, false, 0, 0, false, 0, true}, {"min8 max3", true, true, 8, 3, false, 0, false}, {"min8 max3 val1", true, true, 1, 1, false, 0, false}};
  V<Input> in = {input(TYPES[7], {1}), input(TYPES[0], {1}), input(TYPES[3], {1, 2})};
  int n = (int)sx_pick("inputs", 1, 3);
  in.resize((size_t)n);
  bool bad = false;
  S text;
  int entries = (int)sx_pick("entries", 0, 2);
  for (int e = 0; e < entries; ++e) {
    static const int FEW[] = {2, 6, 9, 3};
    bool one = entries == 1 || sx_thorough();
    auto &s = SPECS[one ? sx_pick("spec", 0, 14) : FEW[sx_pick("spec", 0, e ? 2 : 1)]];
    int lo = (int)sx_pick("from", -1, one ? n : n - 1), hi = lo < 0 || lo >= n ? lo : one ? (int)sx_pick("to", lo, n - 1) : e ? n - 1 : lo;
    if (e) text += ", ";
    text += std::to_string(lo);
    if (hi != lo) text += " - " + std::to_string(hi);
    text += S(":") + s.text;
    bad |= s.bad || lo >= n;
    for (int i = 0; i < n; ++i) if (lo < 0 || (i >= lo && i <= hi)) { Input &x = in[(size_t)i]; x.lo = s.min ? s.lo : low(*x.t); x.hi = s.max ? s.hi : high(*x.t); x.soz = s.soz; x.count = s.count; }
  }
  for (auto &i : in) bad |= !i.soz && i.lo > i.hi;
  S sig = signatureOf(in);
  needs(in);
  OMTensorList *l = omTensorListCreateFromInputSignature(sig.c_str(), nullptr, text.c_str());
  if (bad) { sx_assert(!l, "wrong values are refused"); sx_reach("refused"); return; }
  check(in, l);
  sx_reach("valued");
}
// What is not a signature or names what cannot be made.
SX_TEST(malformed) {
  static const struct { const char *sig, *shape, *lo; } BAD[] = {{nullptr, nullptr, nullptr}, {"", nullptr, nullptr}, {"{}", nullptr, nullptr}, {"[ { \"dims\" : [2], \"name\" : \"x\" } ]", nullptr, nullptr}, {"[ { \"type\" : \"f33\", \"dims\" : [2] } ]", nullptr, nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [2 ", nullptr, nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [-1] } ]", nullptr, nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", "0", nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", "0:ax1", nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", "x:1", nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", "0:1:1", nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", nullptr, "float33:1"}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", nullptr, "float32"}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", nullptr, "float32:x"}, {"[ { \"type\" : \"complex64\", \"dims\" : [1] } ]", nullptr, nullptr}, {"[ { \"type\" : \"f32\", \"dims\" : [1] } ]", nullptr, "float32:3"}};
  auto &b = BAD[sx_pick("which", 0, 15)];
  memset(alloca(4096), 7, 4096); // the stack is not fresh
  int64_t live = sx_live_allocs();
  OMTensorList *l = omTensorListCreateFromInputSignature(b.sig, b.shape, nullptr, b.lo);
  sx_assert(!l, "refused");
  if (live >= 0) sx_assert(sx_live_allocs() == live, "nothing is left behind");
}
// Without memory there is no list, and nothing is left behind.
SX_TEST(noMemory) {
  omDefineSeed(3, 1);
  V<Input> in = {input(TYPES[3], {2}), input(TYPES[7], {1})};
  if (sx_pick("soz", 0, 1)) in[0].soz = true, in[0].count = 1;
  S sig = signatureOf(in);
  in[1].lo = in[1].hi = 1; if (!in[0].soz) in[0].lo = in[0].hi = 1;
  int64_t live = sx_live_allocs();
  sx_alloc_faults(1);
  OMTensorList *l = omTensorListCreateFromInputSignature(sig.c_str(), nullptr, in[0].soz ? "0:soz1,1:val1" : "-1:val1");
  sx_alloc_faults(0);
  if (l) { check(in, l); sx_reach("made"); } else sx_reach("noMemory");
  if (live >= 0) sx_assert(sx_live_allocs() == live, "nothing is left behind");
}
