// C07: small floating point conversions against an integer reference.
#include "rtdecl.h"
#include "src/Support/SmallFP.hpp"
using namespace onnx_mlir;
extern "C" uint16_t __truncdfhf2(double);
extern "C" uint16_t __truncsfhf2(float);
extern "C" uint16_t __gnu_f2h_ieee(float);
extern "C" float __extendhfsf2(uint16_t);
extern "C" float __gnu_h2f_ieee(uint16_t);
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static float flt(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double dbl(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static bool nan32(uint32_t u) { return (u & 0x7fffffffu) > 0x7f800000u; }
static bool nan16(uint16_t u) { return (u & 0x7fff) > 0x7c00; }
static bool nanb(uint16_t u) { return (u & 0x7fff) > 0x7f80; }
// Round the value m * 2^e (m < 2^60, sticky bit included) to an IEEE-like
// format with mb mantissa bits and exponent range [emin, emax] (of the leading
// one); the result has no sign; overflow gives infinity.
static uint32_t rne(uint64_t m, int e, int mb, int emin, int emax) {
  if (!m) return 0;
  int top = 63 - __builtin_clzll(m), lead = e + top; // value in [2^lead, 2^(lead+1))
  int ulp = (lead < emin ? emin : lead) - mb;        // weight of the last kept bit
  int sh = ulp - e;
  uint64_t q;
  if (sh <= 0) q = m << -sh;
  else if (sh > 62) q = 0;
  else {
    uint64_t rem = m & ((1ull << sh) - 1), half = 1ull << (sh - 1);
    q = m >> sh;
    if (rem > half || (rem == half && (q & 1))) ++q;
  }
  // q * 2^ulp with q <= 2^(mb+1)
  uint32_t r = (uint32_t)q + ((lead < emin ? 0u : (uint32_t)(lead - emin)) << mb);
  uint32_t inf = (uint32_t)(emax - emin + 2) << mb;
  return r > inf ? inf : r;
}
// f16 -> f32: every value.
SX_TEST(f16ToF32) {
  uint16_t h = sx_u16("h");
  int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
  uint32_t u = bits(om_f16_to_f32(h));
  if (e == 31) {
    if (m) { sx_assert(nan32(u), "f16 NaN stays NaN"); sx_reach("f16 nan"); }
    else sx_assert(u == (((uint32_t)s << 31) | 0x7f800000u), "f16 infinity");
  } else if (e) sx_assert(u == (((uint32_t)s << 31) | ((uint32_t)(e + 112) << 23) | ((uint32_t)m << 13)), "f16 normal widens exactly");
  else {
    if (!m) sx_assert(u == (uint32_t)s << 31, "f16 zero keeps its sign");
    else {
      int k = 0;
      for (int i = 9; i >= 0; --i) if (m >> i & 1) { k = i; break; }
      sx_assert(u == (((uint32_t)s << 31) | ((uint32_t)(k - 24 + 127) << 23) | (((uint32_t)m << (23 - k)) & 0x7fffff)), "f16 subnormal widens exactly");
      sx_reach("f16 subnormal");
    }
  }
}
// f32 -> f16: nearest, ties to even.
SX_TEST(f32ToF16) {
  uint32_t u = sx_u32("f");
  uint16_t h = om_f32_to_f16(flt(u));
  uint32_t e = (u >> 23) & 255, m = u & 0x7fffff;
  uint16_t s = (uint16_t)(u >> 31) << 15;
  if (e == 255) {
    if (m) { sx_assert(nan16(h), "f32 NaN becomes f16 NaN"); sx_reach("f32 nan"); }
    else sx_assert(h == (s | 0x7c00), "f32 infinity becomes f16 infinity");
  } else if (e >= 113) { // at least 2^-14
    uint32_t r = (m >> 13) + ((e - 112) << 10), rem = m & 0x1fff;
    r += rem > 0x1000 || (rem == 0x1000 && (r & 1));
    if (r > 0x7c00) r = 0x7c00;
    sx_assert(h == (s | r), "f32 to f16 rounds to nearest even (normal)");
    sx_reach("f32 normal");
  } else if (e >= 101) {
    uint32_t q = m | 0x800000, sh = 126 - e; // 14..25
    uint32_t r = q >> sh, rem = q & ((1u << sh) - 1), half = 1u << (sh - 1);
    r += rem > half || (rem == half && (r & 1));
    sx_assert(h == (s | r), "f32 to f16 rounds to nearest even (subnormal)");
    sx_reach("f32 subnormal result");
  } else sx_assert(h == s, "tiny f32 becomes a signed f16 zero");
}
SX_TEST(bf16) {
  uint16_t b = sx_u16("b");
  sx_assert(bits(om_bf16_to_f32(b)) == (uint32_t)b << 16, "bf16 widens exactly");
  uint32_t u = sx_u32("f");
  uint16_t r = om_f32_to_bf16(flt(u));
  if (nan32(u)) { sx_assert(nanb(r), "f32 NaN becomes bf16 NaN"); sx_reach("bf16 nan"); return; }
  uint32_t q = (u & 0x7fffffff) >> 16, rem = u & 0xffff;
  q += rem > 0x8000 || (rem == 0x8000 && (q & 1));
  sx_assert(r == ((u >> 31 << 15) | q), "f32 to bf16 rounds to nearest even");
}
// The names compilers call for half conversions.
SX_TEST(builtins) {
  uint16_t h = sx_u16("h"); uint32_t u = sx_u32("f");
  sx_assert(bits(__extendhfsf2(h)) == bits(om_f16_to_f32(h)) && bits(__gnu_h2f_ieee(h)) == bits(om_f16_to_f32(h)), "half extension helpers");
  sx_assert(__truncsfhf2(flt(u)) == om_f32_to_f16(flt(u)) && __gnu_f2h_ieee(flt(u)) == om_f32_to_f16(flt(u)), "half truncation helpers");
}
// f64 -> f16 rounds once.
SX_TEST(f64ToF16) {
  int e = (int)sx_pick("e", sx_thorough() ? 990 : 996, sx_thorough() ? 1045 : 1040);
  uint64_t m = sx_u64("m", 52), s = sx_u64("s", 1);
  uint16_t h = __truncdfhf2(dbl(s << 63 | (uint64_t)e << 52 | m));
  uint32_t r = rne(m | 1ull << 52, e - 1023 - 52, 10, -14, 15);
  sx_assert(h == (s << 15 | r), "f64 to f16 rounds to nearest even");
  sx_reach("f64");
}
SX_TEST(f64Special) {
  int e = (int)sx_range("e", 0, 2047);
  sx_assume(e < 990 || e > 1045);
  uint64_t m = sx_u64("m", 52), s = sx_u64("s", 1);
  uint16_t h = __truncdfhf2(dbl(s << 63 | (uint64_t)e << 52 | m));
  if (e == 2047 && m) sx_assert(nan16(h), "f64 NaN becomes f16 NaN");
  else sx_assert(h == (s << 15 | (e < 990 ? 0 : 0x7c00)), "f64 out of f16 range");
}
// The C++ value classes agree with the C conversions.
template <class F> static void cls(bool (*isnan_)(uint16_t), float (*up)(uint16_t), uint16_t (*down)(float)) {
  uint16_t a = sx_u16("a"), b = sx_u16("b");
  F x = F::bitcastFromUInt(a), y = F::bitcastFromUInt(b);
  sx_assert(x.bitcastToUInt() == a && F(x).bitcastToUInt() == a, "bit cast round trip");
  sx_assert(x.isNaN() == isnan_(a), "isNaN");
  sx_assert(bits(x.toFloat()) == bits(up(a)) && bits(static_cast<float>(x)) == bits(up(a)), "toFloat");
  bool eq = !isnan_(a) && !isnan_(b) && (a == b || ((a | b) & 0x7fff) == 0);
  sx_assert((x == y) == eq && (x != y) == !eq, "equality is numeric");
  uint32_t u = sx_u32("f");
  sx_assert(F::fromFloat(flt(u)).bitcastToUInt() == down(flt(u)) && F(flt(u)).bitcastToUInt() == down(flt(u)), "fromFloat");
  int16_t i = (int16_t)sx_u16("i");
  sx_assert(F(i).bitcastToUInt() == down((float)i), "from an integer");
}
SX_TEST(classF16) { cls<float_16>(nan16, om_f16_to_f32, om_f32_to_f16); sx_assert(bits(float_16::max) == bits(om_f16_to_f32(0x7bff)), "largest f16"); }
SX_TEST(classBF16) { cls<bfloat_16>(nanb, om_bf16_to_f32, om_f32_to_bf16); sx_assert(bits(bfloat_16::max) == bits(om_bf16_to_f32(0x7f7f)), "largest bf16"); }
SX_TEST(toInt) {
  uint16_t a = sx_u16("a");
  float_16 x = float_16::bitcastFromUInt(a);
  sx_assume((a & 0x7fff) < 0x7800); // |x| < 32768
  sx_assert(static_cast<int32_t>(x) == (int32_t)om_f16_to_f32(a) && static_cast<double>(x) == (double)om_f16_to_f32(a) && static_cast<bool>(x) == ((a & 0x7fff) != 0), "numeric casts go through float");
}
// 8-bit formats: value = (-1)^s 2^(e-bias) 1.m with the format's NaN/infinity.
struct F8 { int eb, mb, bias; bool fn, uz; };
enum { NUM, INF_, NAN_ };
static int dec8(F8 f, int v, double &out) {
  int s = v >> 7, e = (v >> f.mb) & ((1 << f.eb) - 1), m = v & ((1 << f.mb) - 1);
  if (f.uz) { if (v == 0x80) return NAN_; }
  else if (f.fn) { if ((v & 0x7f) == 0x7f) return NAN_; }
  else if (e == (1 << f.eb) - 1) { out = s ? -1 : 1; return m ? NAN_ : INF_; }
  double d = e ? (1 << f.mb) + m : m;
  int x = (e ? e : 1) - f.bias - f.mb;
  for (; x > 0; --x) d *= 2;
  for (; x < 0; ++x) d /= 2;
  out = s ? -d : d;
  return NUM;
}
template <class T> static void f8(F8 f) {
  int v = (int)sx_pick("v", 0, 255);
  double d = 0; int k = dec8(f, v, d);
  T x = T::bitcastFromUInt((uint8_t)v);
  sx_assert(x.bitcastToUInt() == v, "bit cast round trip");
  sx_assert(x.isNaN() == (k == NAN_), "isNaN");
  float g = x.toFloat();
  if (k == NAN_) { sx_assert(g != g, "NaN widens to NaN"); sx_assert(T::fromFloat(g).isNaN(), "NaN narrows to NaN"); sx_assert(!(x == x) && x != x, "NaN differs from itself"); return; }
  if (k == INF_) { sx_assert(bits(g) == (d < 0 ? 0xff800000u : 0x7f800000u), "infinity widens to infinity"); sx_assert(T::fromFloat(g).bitcastToUInt() == v, "infinity narrows to infinity"); return; }
  sx_assert(g == (float)d && (d != 0 || bits(g) >> 31 == (uint32_t)v >> 7), "finite value widens exactly");
  sx_assert((double)T::max >= d, "max is an upper bound");
  if (v == (f.uz ? 0x7f : f.fn ? 0x7e : 0x7b)) sx_assert((double)T::max == d, "max is the largest finite value");
  sx_assert(T::fromFloat(g).bitcastToUInt() == v && T(g).bitcastToUInt() == v && T((double)g).bitcastToUInt() == v, "widening then narrowing is the identity");
  // Rounding between this value and the next larger one in magnitude.
  double d2; int v2 = v + 1;
  if ((v & 0x7f) == 0x7f || dec8(f, v2, d2) != NUM) return;
  double mid = (d + d2) / 2, q1 = (d + mid) / 2, q3 = (d2 + mid) / 2;
  int even = (v & 1) ? v2 : v;
  sx_assert(T::fromFloat((float)mid).bitcastToUInt() == even, "ties round to even");
  if (q1 != 0 || !f.uz) sx_assert(T::fromFloat((float)q1).bitcastToUInt() == v, "rounds to the nearer neighbour (below)");
  sx_assert(T::fromFloat((float)q3).bitcastToUInt() == v2, "rounds to the nearer neighbour (above)");
  bool ig;
  llvm::APFloat a(mid * (1 + 1e-12));
  sx_assert(T::fromAPFloat(a).bitcastToUInt() == v2, "narrowing a double rounds once");
  sx_assert(x.toAPFloat().convertToFloat() == g, "toAPFloat");
}
SX_TEST(f8e4m3fn) { f8<float_8e4m3fn>({4, 3, 7, true, false}); }
SX_TEST(f8e4m3fnuz) { f8<float_8e4m3fnuz>({4, 3, 8, true, true}); }
SX_TEST(f8e5m2) { f8<float_8e5m2>({5, 2, 15, false, false}); }
SX_TEST(f8e5m2fnuz) { f8<float_8e5m2fnuz>({5, 2, 16, true, true}); }
