// C12: element types are one consistent vocabulary: ONNX numbers, C++ types,
// MLIR types, sizes; wide numbers carry every value of every type.
#include "sx.h"
#include "onnx-mlir/Runtime/OnnxDataType.h"
#include "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"
#include "src/Support/TypeUtilities.hpp"
#include "mlir/IR/Builders.h"
#include "mlir/IR/MLIRContext.h"
#include <functional>
#include <string.h>
using namespace onnx_mlir;
using mlir::Type; using llvm::APInt; using llvm::APFloat;
static mlir::MLIRContext *ctx;
__attribute__((constructor)) static void reg() { sx_set_init([] { ctx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED); }); }
// onnx.proto TensorProto.DataType
struct Row { int num; const char *name; int kind, bits; }; // kind 0 unsigned 1 signed 2 float
static const Row ROWS[] = {{1, "FLOAT", 2, 32}, {2, "UINT8", 0, 8}, {3, "INT8", 1, 8}, {4, "UINT16", 0, 16}, {5, "INT16", 1, 16}, {6, "INT32", 1, 32}, {7, "INT64", 1, 64},
  {9, "BOOL", 0, 1}, {10, "FLOAT16", 2, 16}, {11, "DOUBLE", 2, 64}, {12, "UINT32", 0, 32}, {13, "UINT64", 0, 64}, {16, "BFLOAT16", 2, 16},
  {17, "FLOAT8E4M3FN", 2, 8}, {18, "FLOAT8E4M3FNUZ", 2, 8}, {19, "FLOAT8E5M2", 2, 8}, {20, "FLOAT8E5M2FNUZ", 2, 8}};
#define ROW() const Row &r = ROWS[sx_pick("type", 0, 16)]
SX_TEST(vocabulary) {
  ROW();
  BType b = btypeOfOnnxDataType(r.num);
  sx_assert(onnxDataTypeOfBType(b) == r.num, "ONNX number round trip");
  Type t = mlirTypeOfBType(b, ctx);
  sx_assert(btypeOfMlirType(t) == b, "MLIR type round trip");
  sx_assert(isFloatBType(b) == (r.kind == 2) && mlir::isa<mlir::FloatType>(t) == (r.kind == 2), "float types");
  sx_assert(isIntBType(b) == (r.kind != 2) && mlir::isa<mlir::IntegerType>(t) == (r.kind != 2), "integer types");
  sx_assert(isIntOrFloatBType(b) && t.isIntOrFloat(), "all are int or float");
  sx_assert(isSignedIntBType(b) == (r.kind == 1) && isUnsignedIntBType(b) == (r.kind == 0), "signedness");
  sx_assert(t.isUnsignedInteger() == (r.kind == 0 && r.bits != 1) && !t.isSignedInteger(), "signed integers are signless in MLIR");
  sx_assert((int)bitwidthOfBType(b) == r.bits && (int)t.getIntOrFloatBitWidth() == r.bits, "bit width");
  sx_assert((int)bytewidthOfBType(b) == (r.bits + 7) / 8 && (int)getIntOrFloatByteWidth(t) == (r.bits + 7) / 8 && getEltSizeInBytes(t) == (r.bits + 7) / 8, "byte width");
  sx_assert(OM_DATA_TYPE_SIZE[r.num] == (r.bits + 7) / 8, "runtime size table");
  BType w = wideBTypeOfBType(b);
  sx_assert(w == (r.kind == 2 ? BType::DOUBLE : r.kind == 1 ? BType::INT64 : BType::UINT64), "wide type");
  if (r.kind == 1) sx_assert(btypeOfMlirType(mlir::IntegerType::get(ctx, r.bits, mlir::IntegerType::Signed)) == b, "explicitly signed integers");
  sx_reach("vocabulary");
}
#define FOR_TYPES(X) X(BOOL, bool, 9, "b") X(INT8, int8_t, 3, "a") X(UINT8, uint8_t, 2, "h") X(INT16, int16_t, 5, "s") X(UINT16, uint16_t, 4, "t") X(INT32, int32_t, 6, "i") X(UINT32, uint32_t, 12, "j") X(INT64, int64_t, 7, "l") X(UINT64, uint64_t, 13, "m") X(DOUBLE, double, 11, "d") X(FLOAT, float, 1, "f")
SX_TEST(runtimeTable) {
  sx_assert(ONNX_TYPE_UNDEFINED == 0 && ONNX_TYPE_STRING == 8 && ONNX_TYPE_COMPLEX64 == 14 && ONNX_TYPE_COMPLEX128 == 15, "numbers");
#define X(e, c, n, m) sx_assert(ONNX_TYPE_##e == n && (int)BType::e == n && OM_DATA_TYPE_SIZE[n] == sizeof(c) && toBType<c> == BType::e && OM_DATA_TYPE_CPP_TO_ONNX.at(m) == ONNX_TYPE_##e, #e);
  FOR_TYPES(X)
#undef X
  sx_assert(ONNX_TYPE_FLOAT16 == 10 && ONNX_TYPE_BFLOAT16 == 16 && ONNX_TYPE_FLOAT8E4M3FN == 17 && ONNX_TYPE_FLOAT8E4M3FNUZ == 18 && ONNX_TYPE_FLOAT8E5M2 == 19, "small floats");
  // FLOAT8E5M2FNUZ is 20 in ONNX, then UINT4 and INT4
  sx_assert(ONNX_TYPE_UINT4 == 21 && ONNX_TYPE_INT4 == 22 && OM_DATA_TYPE_SIZE[20] == 1 && OM_DATA_TYPE_SIZE[21] == 1 && OM_DATA_TYPE_SIZE[22] == 1, "four bit integers");
  sx_assert(OM_DATA_TYPE_SIZE[8] == sizeof(char *) && OM_DATA_TYPE_SIZE[14] == 8 && OM_DATA_TYPE_SIZE[15] == 16, "strings and complex numbers");
  sx_assert(!strcmp(OM_DATA_TYPE_NAME[1], "float") && !strcmp(OM_DATA_TYPE_NAME[7], "int64_t") && !strcmp(OM_DATA_TYPE_NAME[20], "FLOAT8E5M2FNUZ") && !strcmp(OM_DATA_TYPE_NAME[21], "UINT4") && !strcmp(OM_DATA_TYPE_NAME[22], "INT4"), "names");
  sx_reach("runtimeTable");
}
// Any value survives widening and narrowing, and converts like a C++ cast.
template <typename T> static T any() { T x; sx_bytes(&x, sizeof x, "x"); return x; }
template <> bool any<bool>() { return sx_u64("x", 1); }
template <typename T, BType B> static void wideInt() {
  T x = any<T>();
  WideNum w = WideNum::widen<B>(x);
  constexpr bool sg = std::is_signed_v<T>;
  if (sg) sx_assert(w.i64 == (int64_t)x, "widened value"); else sx_assert(w.u64 == (uint64_t)x, "widened value");
  sx_assert(w.template narrow<B>() == x, "narrowing gives the value back");
  sx_assert(w.template to<int64_t>(B) == (int64_t)x && w.template to<uint64_t>(B) == (uint64_t)x && w.template to<int8_t>(B) == (int8_t)x && w.template to<uint32_t>(B) == (uint32_t)x && w.template to<bool>(B) == (x != 0), "conversion to integers");
  sx_assert(w.template to<double>(B) == (double)x && w.template to<float>(B) == (float)x, "conversion to floats");
  APInt a = w.toAPInt(B);
  sx_assert(a.getBitWidth() == (std::is_same_v<T, bool> ? 1 : 8 * sizeof(T)), "APInt width");
  if (sg) sx_assert(a.getSExtValue() == (int64_t)x && WideNum::fromAPInt(a, true).i64 == (int64_t)x, "APInt round trip");
  else sx_assert(a.getZExtValue() == (uint64_t)x && WideNum::fromAPInt(a, false).u64 == (uint64_t)x, "APInt round trip");
  // any narrower or equal type read into this tag and back out
  int8_t y = any<int8_t>(); uint8_t z = any<uint8_t>();
  sx_assert(WideNum::from<int8_t>(BType::INT64, y).i64 == y && WideNum::from<uint8_t>(B, z).template to<uint8_t>(B) == z, "from other types");
}
SX_TEST(wideIntegers) {
  switch (sx_pick("type", 0, 8)) {
  case 0: wideInt<bool, BType::BOOL>(); break;
  case 1: wideInt<int8_t, BType::INT8>(); break;
  case 2: wideInt<uint8_t, BType::UINT8>(); break;
  case 3: wideInt<int16_t, BType::INT16>(); break;
  case 4: wideInt<uint16_t, BType::UINT16>(); break;
  case 5: wideInt<int32_t, BType::INT32>(); break;
  case 6: wideInt<uint32_t, BType::UINT32>(); break;
  case 7: wideInt<int64_t, BType::INT64>(); break;
  default: wideInt<uint64_t, BType::UINT64>();
  }
  sx_reach("wideIntegers");
}
static uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint32_t bitsOf(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
SX_TEST(wideFloats) {
  uint64_t u = sx_u64("d", 64); double d; memcpy(&d, &u, 8);
  bool nan = (u & ~(1ull << 63)) > 0x7ffull << 52;
  WideNum w = WideNum::widen<BType::DOUBLE>(d);
  sx_assert(bitsOf(w.dbl) == u && bitsOf(w.narrow<BType::DOUBLE>()) == u, "doubles are kept");
  uint32_t v = sx_u32("f"); float f; memcpy(&f, &v, 4);
  bool fnan = (v & 0x7fffffff) > 0x7f800000;
  WideNum x = WideNum::widen<BType::FLOAT>(f);
  float back = x.narrow<BType::FLOAT>();
  if (fnan) sx_assert((bitsOf(back) & 0x7fffffff) > 0x7f800000, "NaN stays NaN");
  else sx_assert(bitsOf(back) == v, "floats are kept");
  if (nan) sx_reach("nan"); else sx_reach("number");
}
template <typename T, BType B> static void wideSmall(int bits) {
  uint16_t u = sx_pick("u", 0, (1 << bits) - 1);
  T x = T::bitcastFromUInt((typename T::bitcasttype)u);
  WideNum w = WideNum::widen<B>(x);
  T y = w.template narrow<B>();
  if (x.isNaN()) sx_assert(y.isNaN() && w.dbl != w.dbl, "NaN stays NaN");
  else sx_assert(y.bitcastToUInt() == u && w.dbl == (double)x.toFloat(), "small floats are kept");
  APFloat a = w.toAPFloat(B);
  sx_assert(WideNum::fromAPFloat(a).dbl == w.dbl || x.isNaN(), "APFloat round trip");
  if (!x.isNaN()) sx_assert(a.bitcastToAPInt().getZExtValue() == u && a.getSizeInBits(a.getSemantics()) == (unsigned)bits, "APFloat bits");
}
SX_TEST(wideSmallFloats) {
  switch (sx_pick("type", 0, 3)) {
  case 0: wideSmall<float_8e4m3fn, BType::FLOAT8E4M3FN>(8); break;
  case 1: wideSmall<float_8e4m3fnuz, BType::FLOAT8E4M3FNUZ>(8); break;
  case 2: wideSmall<float_8e5m2, BType::FLOAT8E5M2>(8); break;
  default: wideSmall<float_8e5m2fnuz, BType::FLOAT8E5M2FNUZ>(8);
  }
  sx_reach("wideSmallFloats");
}
SX_TEST(wideHalf) { // every bit pattern, symbolically
  uint16_t u = sx_u16("u"); bool b = sx_pick("bf", 0, 1);
  if (b) { auto x = bfloat_16::bitcastFromUInt(u); auto w = WideNum::widen<BType::BFLOAT16>(x); auto y = w.narrow<BType::BFLOAT16>();
    sx_assert((u & 0x7fff) > 0x7f80 ? (y.bitcastToUInt() & 0x7fff) > 0x7f80 : y.bitcastToUInt() == u, "bfloat16 values are kept"); }
  else { auto x = float_16::bitcastFromUInt(u); auto w = WideNum::widen<BType::FLOAT16>(x); auto y = w.narrow<BType::FLOAT16>();
    sx_assert((u & 0x7fff) > 0x7c00 ? (y.bitcastToUInt() & 0x7fff) > 0x7c00 : y.bitcastToUInt() == u, "float16 values are kept"); }
  sx_reach("wideHalf");
}
SX_TEST(apFloats) {
  static const double V[] = {0, -0.0, 1, -2.5, 65504, 1e-8, 1e300, -3.4e38, 0.1, 5e-324};
  double d = V[sx_pick("v", 0, 9)];
  WideNum w = WideNum::widen<BType::DOUBLE>(d);
  sx_assert(bitsOf(w.toAPFloat(BType::DOUBLE).convertToDouble()) == bitsOf(d) && bitsOf(WideNum::fromAPFloat(APFloat(d)).dbl) == bitsOf(d), "double");
  sx_assert(bitsOf(w.toAPFloat(BType::FLOAT).convertToFloat()) == bitsOf((float)d) && bitsOf(WideNum::fromAPFloat(APFloat((float)d)).dbl) == bitsOf((double)(float)d), "float");
  sx_assert(w.toAPFloat(BType::FLOAT16).bitcastToAPInt().getZExtValue() == float_16(d).bitcastToUInt() && w.toAPFloat(BType::BFLOAT16).bitcastToAPInt().getZExtValue() == bfloat_16(d).bitcastToUInt(), "half precision");
  sx_reach("apFloats");
}
// Functions on wide numbers see the C++ value the element type stands for.
template <class OP, typename T> struct Fn;
struct Neg; struct Less; struct Sum;
template <typename T> struct Fn<Neg, T> { static T eval(T x) { return (T)-x; } };
template <typename T> struct Fn<Less, T> { static bool eval(T x, T y) { return x < y; } };
template <class OP, typename... T> using F = Fn<OP, T...>;
template <class OP, typename... T> struct G;
template <typename T> struct G<Less, T> { static bool eval(T x, T y) { return x < y; } };
template <typename T> struct G<Sum, T> { static T eval(T x, T y) { return x + y; } };
SX_TEST(wrapped) {
  ROW();
  Type t = mlirTypeOfBType((BType)r.num, ctx);
  auto lt = getWideNumWrappedTemplateFunction<G, Less>(t);
  auto add = getWideNumWrappedTemplateFunction<G, Sum>(t);
  WideNum a, b; a.u64 = b.u64 = 0;
  if (r.kind == 2) {
    a.dbl = (double)sx_range("a", -1000, 1000); b.dbl = (double)sx_range("b", -1000, 1000);
    sx_assert(lt(a, b).u64 == (uint64_t)(a.dbl < b.dbl) && add(a, b).dbl == a.dbl + b.dbl, "double functions");
    auto h = widenumWrapped<double, double>([](double x) { return x + 1; });
    sx_assert(h(a).dbl == a.dbl + 1, "wrapped lambda");
  } else if (r.bits == 1) {
    a.u64 = sx_u64("a", 1); b.u64 = sx_u64("b", 1);
    sx_assert(lt(a, b).u64 == (a.u64 < b.u64) && add(a, b).u64 == (a.u64 | b.u64), "bool functions");
    auto h = widenumWrapped<bool, bool>([](bool x) { return !x; });
    sx_assert(h(a).u64 == 1 - a.u64, "wrapped lambda");
  } else if (r.kind == 1) {
    a.i64 = sx_i64("a"); b.i64 = sx_i64("b");
    sx_assert(lt(a, b).u64 == (uint64_t)(a.i64 < b.i64), "signed functions");
    int64_t s; if (!__builtin_add_overflow(a.i64, b.i64, &s)) sx_assert(add(a, b).i64 == s, "signed functions");
    auto h = widenumWrapped<double, int64_t>([](int64_t x) { return x < 0 ? 1.5 : 2.5; });
    sx_assert(h(a).dbl == (a.i64 < 0 ? 1.5 : 2.5), "wrapped lambda");
  } else {
    a.u64 = sx_u64("a", 64); b.u64 = sx_u64("b", 64);
    sx_assert(lt(a, b).u64 == (uint64_t)(a.u64 < b.u64) && add(a, b).u64 == a.u64 + b.u64, "unsigned functions");
    auto h = widenumWrapped<uint64_t, uint64_t>([](uint64_t x) { return x / 2; });
    sx_assert(h(a).u64 == a.u64 / 2, "wrapped lambda");
  }
  sx_reach("wrapped");
}
// Shapes and sizes of types.
SX_TEST(typeSizes) {
  ROW(); int rank = (int)sx_pick("rank", 0, 3); int64_t d[3], n = 1;
  static const int64_t D[5] = {0, 1, 3, 70000, mlir::ShapedType::kDynamic};
  bool dyn = false;
  for (int i = 0; i < rank; ++i) { d[i] = D[sx_pick("d", 0, 4)]; if (d[i] == D[4]) dyn = true; else n *= d[i]; }
  Type e = mlirTypeOfBType((BType)r.num, ctx);
  auto t = mlir::RankedTensorType::get(llvm::ArrayRef<int64_t>(d, rank), e);
  sx_assert(getElementType(t) == e && getElementType(e) == e, "element type");
  sx_assert(isRankedShapedType(t) && !isRankedShapedType(e) && !isRankedShapedType(mlir::UnrankedTensorType::get(e)), "ranked");
  sx_assert(hasStaticShape(t) == !dyn && !hasStaticShape(e), "static shape");
  sx_assert(getRank(t) == rank && (int)getShape(t).size() == rank, "rank");
  for (int i = 0; i < rank; ++i) sx_assert(getShape(t)[i] == d[i] && getShape(t, i) == d[i] && getShape(t, i - rank) == d[i], "dimension, also counted from the end");
  if (rank == 0) sx_assert(getShape(t, 0) == 1 && getShape(t, -1) == 1, "a scalar has size one");
  sx_assert(getEltSizeInBytes(t) == (r.bits + 7) / 8, "element size");
  if (!dyn) sx_assert(getNumberOfElements(t) == n && getSizeInBytes(t) == n * ((r.bits + 7) / 8), "sizes");
  auto v = mlir::VectorType::get({2, 3}, mlir::Float32Type::get(ctx));
  sx_assert(getEltSizeInBytes(mlir::MemRefType::get({5}, v)) == 24, "vector elements");
  auto enc = mlir::RankedTensorType::get(llvm::ArrayRef<int64_t>(d, rank), e, mlir::UnitAttr::get(ctx));
  sx_assert(sameEncodingAttr(t, t) && sameEncodingAttr(enc, enc) && !sameEncodingAttr(t, enc) && !sameEncodingAttr(e, e), "encoding");
  sx_reach("typeSizes");
}
