// C22: element-wise operators, comparisons, logic and casts of compiled models.
#include "model.h"
#include "models_c22.h"
#define INTS "int8 int16 int32 int64"
// Broadcast X [N,2,1] against Z [M] where M is 1 or 3.
MODELT(intarith, 14, R"(g ($T[N,2,P] X, $T[M] Z) => ($T[A,B,C] Y0, $T[A,B,C] Y1, $T[A,B,C] Y2, $T[A,B,C] Y3, $T[A,B,C] Y4, $T[A,B,C] Y5)
  { Y0 = Add(X, Z) Y1 = Sub(X, Z) Y2 = Mul(X, Z) Y3 = Max(X, Z) Y4 = Min(Z, X) Y5 = Sum(X, Z, X) })", "int8 int16 int32 int64")
MODELT(cmp, 16, R"(g ($T[N,2,P] X, $T[M] Z) => (bool[A,B,C] Y0, bool[A,B,C] Y1, bool[A,B,C] Y2, bool[A,B,C] Y3, bool[A,B,C] Y4)
  { Y0 = Equal(X, Z) Y1 = Less(X, Z) Y2 = Greater(X, Z) Y3 = LessOrEqual(X, Z) Y4 = GreaterOrEqual(X, Z) })", "int8 int16 int32 int64 float double")
MODELT(intun, 14, R"(g ($T[N,9] X) => ($T[N,9] Y0, $T[N,9] Y1, $T[N,9] Y2, $T[N,9] Y3)
  { Y0 = Neg(X) Y1 = Abs(X) Y2 = Sign(X) Y3 = Relu(X) })", "int8 int16 int32 int64")
MODELT(intdiv, 14, R"(g ($T[N,2] X, $T[2] Z) => ($T[N,2] Y0, $T[N,2] Y1)
  { Y0 = Div(X, Z) Y1 = Mod(X, Z) })", "int8 int16 int32 int64")
MODELT(bits, 18, R"(g ($T[N,2] X, $T[2] Z) => ($T[N,2] Y0, $T[N,2] Y1, $T[N,2] Y2, $T[N,2] Y3)
  { Y0 = BitwiseAnd(X, Z) Y1 = BitwiseOr(X, Z) Y2 = BitwiseXor(X, Z) Y3 = BitwiseNot(X) })", "int8 int16 int32 int64")
MODELT(shift, 14, R"(g ($T[N,2] X, $T[2] Z) => ($T[N,2] Y0, $T[N,2] Y1) { Y0 = BitShift<direction="LEFT">(X, Z) Y1 = BitShift<direction="RIGHT">(X, Z) })", "uint8 uint16 uint32 uint64")
MODEL(logic, 14, R"(g (bool[N,2] X, bool[2] Z) => (bool[N,2] Y0, bool[N,2] Y1, bool[N,2] Y2, bool[N,2] Y3, bool[N,2] Y4)
  { Y0 = And(X, Z) Y1 = Or(X, Z) Y2 = Xor(X, Z) Y3 = Not(X) Y4 = Equal(X, Z) })")
MODELT(fparith, 14, R"(g ($T[N,2,P] X, $T[M] Z) => ($T[A,B,C] Y0, $T[A,B,C] Y1, $T[A,B,C] Y2, $T[A,B,C] Y3, $T[A,B,C] Y4, $T[A,B,C] Y5)
  { Y0 = Add(X, Z) Y1 = Sub(X, Z) Y2 = Mul(X, Z) Y3 = Div(X, Z) Y4 = Sum(X, Z, X) Y5 = Mean(X, Z) })", "float double")
MODELT(fpmax, 14, R"(g ($T[N,2,P] X, $T[M] Z) => ($T[A,B,C] Y0, $T[A,B,C] Y1, $T[A,B,C] Y2) { Y0 = Max(X, Z) Y1 = Min(X, Z) Y2 = PRelu(X, Z) })", "float double")
MODELT(fpun, 14, R"(g ($T[N,5] X) => ($T[N,5] Y0, $T[N,5] Y1, $T[N,5] Y2, $T[N,5] Y3, $T[N,5] Y4, $T[N,5] Y5)
  { Y0 = Neg(X) Y1 = Abs(X) Y2 = Relu(X) Y3 = Floor(X) Y4 = Ceil(X) Y5 = Sign(X) })", "float double")
MODELT(fpround, 14, R"(g ($T[N,2] X) => ($T[N,2] Y) { Y = Round(X) })", "float double")
MODELT(fpact, 16, R"(g ($T[N,5] X) => ($T[N,5] Y0, $T[N,5] Y1, $T[N,5] Y2, $T[N,5] Y3, $T[N,5] Y4, $T[N,5] Y5, $T[N,5] Y6)
  { Y0 = LeakyRelu<alpha=0.25>(X) Y1 = HardSigmoid<alpha=0.25, beta=0.5>(X) Y2 = Shrink<lambd=1.5, bias=0.5>(X) Y3 = ThresholdedRelu<alpha=2.0>(X)
    Y4 = Softsign(X) Y5 = Reciprocal(X) Y6 = Shrink<lambd=3.0>(X) })", "float double")
MODEL(hardswish, 14, R"(g (float[N,2] X) => (float[N,2] Y) { Y = HardSwish(X) })")
MODELT(fpclass, 20, R"(g ($T[N,2] X) => (bool[N,2] Y0, bool[N,2] Y1, bool[N,2] Y2, bool[N,2] Y3)
  { Y0 = IsNaN(X) Y1 = IsInf(X) Y2 = IsInf<detect_negative=0>(X) Y3 = IsInf<detect_positive=0>(X) })", "float double")
MODELT(fmod, 14, R"(g ($T[N,2] X, $T[2] Z) => ($T[N,2] Y) { Y = Mod<fmod=1>(X, Z) })", "float double")
MODELT(where, 16, R"(g (bool[N,1] K, $T[2] X, $T[N,2] Z) => ($T[N,2] Y) { Y = Where(K, X, Z) })", "int8 int16 int32 int64 float double bool")
MODELT(clip, 13, R"(g ($T[N,9] X, $T L, $T H) => ($T[N,9] Y0, $T[N,9] Y1, $T[N,9] Y2, $T[N,9] Y3) { Y0 = Clip(X, L, H) Y1 = Clip(X, L) Y2 = Clip(X, , H) Y3 = Clip(X) })", "int8 int16 int32 int64 float double")
MODELT(variadic, 13, R"(g ($T[N,1] X, $T[P] Z, $T W) => ($T[N,P] Y0, $T[N,P] Y1, $T[N,P] Y2, $T Y3) { Y0 = Max(X, Z, W) Y1 = Min(W, X, Z) Y2 = Sum(W, X, Z) Y3 = Sum(W) })", "int32 float")
MODEL(scalar, 13, R"(g (int32 X, int32[N] Z) => (int32[N] Y0, int32 Y1, bool[N] Y2, int32 Y3) { Y0 = Add(X, Z) Y1 = Mul(X, X) Y2 = Less(Z, X) Y3 = Neg(X) })")
MODEL(rank5, 13, R"(g (int32[A,1,B,1,C] X, int32[D,1,E] Z) => (int32[A,F,B,G,C] Y) { Y = Sub(X, Z) })")
MODEL(binarizer, 13, R"(g (float[N] X) => (float[N] Y) { Y = Binarizer<threshold=1.5>(X) })")
template <class T> static T wrapAdd(T a, T b) { return (T)((uint64_t)a + (uint64_t)b); }
template <class T> struct Bc { int o; Ten<T> X, Z; Shape s; };
template <class T> static Bc<T> shapes() {
  Bc<T> b; b.o = optLevel();
  int64_t P = sx_pick("P", 1, 2) == 1 ? 1 : 3, M = sx_pick("M", 1, 2) == 1 ? 1 : 3;
  b.X = Ten<T>({sx_pick("N", 0, 2), 2, P}); b.Z = Ten<T>({M});
  b.s = broadcast(b.X.s, b.Z.s);
  return b;
}
#define EACH(b, T) for (int64_t i = 0, n_ = b.s.size(); i < n_; ++i) { Ix ix_ = unlin(b.s, i); T x = b.X.bc(b.s, ix_), z = b.Z.bc(b.s, ix_); (void)x; (void)z;
template <class T> static void tArith() {
  Bc<T> b = shapes<T>();
  b.X.any("x"); b.Z.any("z");
  Ten<T> Y[6] = {b.s, b.s, b.s, b.s, b.s, b.s};
  EACH(b, T)
    Y[0][i] = wrapAdd(x, z); Y[1][i] = (T)((uint64_t)x - (uint64_t)z); Y[2][i] = (T)((uint64_t)x * (uint64_t)z);
    Y[3][i] = x > z ? x : z; Y[4][i] = x < z ? x : z; Y[5][i] = wrapAdd(wrapAdd(x, z), x);
  }
  Call c = run(intarith<T>(), b.o, b.X, b.Z);
  for (int k = 0; k < 6; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("integer arithmetic");
}
SX_TEST(arith8) { tArith<int8_t>(); }
SX_TEST(arith16) { tArith<int16_t>(); }
SX_TEST(arith32) { tArith<int32_t>(); }
SX_TEST(arith64) { tArith<int64_t>(); }
template <class T> static void anyNumber(Ten<T> &t, const char *n) { t.any(n); }
template <> void anyNumber(Ten<float> &t, const char *n) { t.any(n); for (int64_t i = 0; i < t.n; ++i) { uint32_t u = sx_u32(n); memcpy(&t.v[i], &u, 4); sx_assume((u & 0x7fffffff) <= 0x7f800000); } }
template <> void anyNumber(Ten<double> &t, const char *n) { t.any(n); for (int64_t i = 0; i < t.n; ++i) { uint64_t u = sx_u64(n, 64); memcpy(&t.v[i], &u, 8); sx_assume((u & 0x7fffffffffffffff) <= 0x7ff0000000000000); } }
template <class T> static void tCmp() {
  Bc<T> b = shapes<T>();
  anyNumber(b.X, "x"); anyNumber(b.Z, "z");
  Ten<bool> Y[5] = {b.s, b.s, b.s, b.s, b.s};
  EACH(b, T) Y[0][i] = x == z; Y[1][i] = x < z; Y[2][i] = x > z; Y[3][i] = x <= z; Y[4][i] = x >= z; }
  Call c = run(cmp<T>(), b.o, b.X, b.Z);
  for (int k = 0; k < 5; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("comparisons");
}
SX_TEST(cmp8) { tCmp<int8_t>(); }
SX_TEST(cmp16) { tCmp<int16_t>(); }
SX_TEST(cmp32) { tCmp<int32_t>(); }
SX_TEST(cmp64) { tCmp<int64_t>(); }
SX_TEST(cmpf) { tCmp<float>(); }
SX_TEST(cmpd) { tCmp<double>(); }
template <class T> static void tIntUn() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 2), 9}), Y[4] = {X.s, X.s, X.s, X.s};
  X.any("x");
  for (int64_t i = 0; i < X.n; ++i) {
    T x = X[i]; Y[0][i] = (T)(0 - (uint64_t)x); Y[1][i] = x < 0 ? Y[0][i] : x; Y[2][i] = x < 0 ? -1 : x > 0; Y[3][i] = x > 0 ? x : 0;
  }
  Call c = run(intun<T>(), o, X);
  for (int k = 0; k < 4; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("integer unary");
}
SX_TEST(un8) { tIntUn<int8_t>(); }
SX_TEST(un16) { tIntUn<int16_t>(); }
SX_TEST(un32) { tIntUn<int32_t>(); }
SX_TEST(un64) { tIntUn<int64_t>(); }
// Integer division rounds towards zero; Mod has the sign of the divisor.
template <class T> static void tDiv() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 1), 2}), Z({2}), Y[2] = {X.s, X.s};
  X.range("x", -20, 20); Z.range("z", -5, 5);
  for (int i = 0; i < 2; ++i) sx_assume(Z[i] != 0);
  for (int64_t i = 0; i < X.n; ++i) { T x = X[i], z = Z[i % 2]; T r = x % z; Y[0][i] = x / z; Y[1][i] = r != 0 && ((r < 0) != (z < 0)) ? r + z : r; }
  Call c = run(intdiv<T>(), o, X, Z);
  for (int k = 0; k < 2; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("integer division");
}
SX_TEST(div8) { tDiv<int8_t>(); }
SX_TEST(div16) { tDiv<int16_t>(); }
SX_TEST(div32) { tDiv<int32_t>(); }
SX_TEST(div64) { tDiv<int64_t>(); }
template <class T> static void tBits() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 2), 2}), Z({2}), Y[4] = {X.s, X.s, X.s, X.s};
  X.any("x"); Z.any("z");
  for (int64_t i = 0; i < X.n; ++i) { T x = X[i], z = Z[i % 2]; Y[0][i] = x & z; Y[1][i] = x | z; Y[2][i] = x ^ z; Y[3][i] = ~x; }
  Call c = run(bits<T>(), o, X, Z);
  for (int k = 0; k < 4; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("bit operators");
}
SX_TEST(bits8) { tBits<int8_t>(); }
SX_TEST(bits16) { tBits<int16_t>(); }
SX_TEST(bits32) { tBits<int32_t>(); }
SX_TEST(bits64) { tBits<int64_t>(); }
template <class T> static void tShift() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 2), 2}), Z({2}), Y[2] = {X.s, X.s};
  X.any("x"); Z.range("z", 0, 8 * sizeof(T) - 1);
  for (int64_t i = 0; i < X.n; ++i) { T x = X[i], z = Z[i % 2]; Y[0][i] = (T)(x << z); Y[1][i] = x >> z; }
  Call c = run(shift<T>(), o, X, Z);
  expect(c, 0, Y[0]); expect(c, 1, Y[1]);
  done(c);
  sx_reach("shifts");
}
SX_TEST(shift8) { tShift<uint8_t>(); }
SX_TEST(shift16) { tShift<uint16_t>(); }
SX_TEST(shift32) { tShift<uint32_t>(); }
SX_TEST(shift64) { tShift<uint64_t>(); }
SX_TEST(logic) {
  int o = optLevel();
  Ten<bool> X({sx_pick("N", 0, 2), 2}), Z({2}), Y[5] = {X.s, X.s, X.s, X.s, X.s};
  X.any("x"); Z.any("z");
  for (int64_t i = 0; i < X.n; ++i) { bool x = X[i], z = Z[i % 2]; Y[0][i] = x & z; Y[1][i] = x | z; Y[2][i] = x != z; Y[3][i] = !x; Y[4][i] = x == z; }
  Call c = run(logic, o, X, Z);
  for (int k = 0; k < 5; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("logic");
}
template <class T> static void tFp() {
  Bc<T> b = shapes<T>();
  b.X.range("x", -1000, 1000); b.Z.range("z", 0, 3);
  for (int64_t i = 0; i < b.Z.n; ++i) b.Z[i] = (T)(1 << sx_concrete((int64_t)b.Z[i])); // powers of two: every operation is exact
  Ten<T> Y[6] = {b.s, b.s, b.s, b.s, b.s, b.s};
  EACH(b, T) Y[0][i] = x + z; Y[1][i] = x - z; Y[2][i] = x * z; Y[3][i] = x / z; Y[4][i] = x + z + x; Y[5][i] = (x + z) / 2; }
  Call c = run(fparith<T>(), b.o, b.X, b.Z);
  for (int k = 0; k < 6; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("float arithmetic");
}
SX_TEST(arithf) { tFp<float>(); }
SX_TEST(arithd) { tFp<double>(); }
template <class T> static Bc<T> slopes() { // PRelu: the slope broadcasts to X, not the other way round
  Bc<T> b = shapes<T>();
  sx_assume(b.Z.n == 1 || b.X.s.d[2] == 3);
  return b;
}
template <class T> static void tMax() {
  Bc<T> b = slopes<T>();
  anyNumber(b.X, "x"); b.Z.range("z", -8, 8);
  Ten<T> Y[2] = {b.s, b.s};
  EACH(b, T) Y[0][i] = x > z ? x : z; Y[1][i] = x < z ? x : z; }
  Call c = run(fpmax<T>(), b.o, b.X, b.Z);
  expect(c, 0, Y[0]); expect(c, 1, Y[1]); ++c.used;
  done(c);
  sx_reach("float max");
}
SX_TEST(maxf) { tMax<float>(); }
SX_TEST(maxd) { tMax<double>(); }
template <class T> static void tPRelu() {
  Bc<T> b = slopes<T>();
  b.X.range("x", -100, 100); b.Z.range("z", -8, 8);
  Ten<T> Y(b.s);
  EACH(b, T) Y[i] = x < 0 ? x * z : x; }
  Call c = run(fpmax<T>(), b.o, b.X, b.Z);
  c.used = 2;
  expect(c, 2, Y);
  done(c);
}
SX_TEST(prelu) { tPRelu<float>(); }
template <class T> static void tUn() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 1), 5}), Y[6] = {X.s, X.s, X.s, X.s, X.s, X.s};
  for (int64_t i = 0; i < X.n; ++i) {
    int64_t q = sx_range("q", -1000, 1000), f = q >> 2, h = -(-q >> 2); // x = q/4
    X[i] = (T)q / 4; T x = X[i];
    Y[0][i] = -x; Y[1][i] = x < 0 ? -x : x; Y[2][i] = x < 0 ? 0 : x; Y[3][i] = (T)f; Y[4][i] = (T)h; Y[5][i] = (T)(q < 0 ? -1 : q > 0);
  }
  Call c = run(fpun<T>(), o, X);
  for (int k = 0; k < 6; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("float unary");
}
SX_TEST(unf) { tUn<float>(); }
SX_TEST(und) { tUn<double>(); }
template <class T> static void tRound() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 1), 2}), Y(X.s);
  for (int64_t i = 0; i < X.n; ++i) {
    int64_t q = sx_range("q", -1000, 1000), f = q >> 2, r = q & 3;
    X[i] = (T)q / 4; Y[i] = (T)(r < 2 || (r == 2 && !(f & 1)) ? f : f + 1);
  }
  Call c = run(fpround<T>(), o, X);
  expect(c, 0, Y);
  done(c);
  sx_reach("round");
}
SX_TEST(roundf) { tRound<float>(); }
SX_TEST(roundd) { tRound<double>(); }
template <class T> static void tAct() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 1), 5}), Y[7] = {X.s, X.s, X.s, X.s, X.s, X.s, X.s};
  for (int64_t i = 0; i < X.n; ++i) X[i] = (T)sx_range("x", -20, 20) / 2;
  int split = (int)sx_pick("divisions", 0, 1); // Softsign and Reciprocal on every quotient of a smaller range
  if (split) for (int64_t i = 0; i < X.n; ++i) X[i] = i ? (T)i / 2 : (T)sx_pick("x", -4, 4) / 2;
  for (int64_t i = 0; i < X.n; ++i) {
    T x = X[i], h = (T)0.25 * x + (T)0.5;
    Y[0][i] = x < 0 ? (T)0.25 * x : x; Y[1][i] = h < 0 ? 0 : h > 1 ? 1 : h; Y[2][i] = x < (T)-1.5 ? x + (T)0.5 : x > (T)1.5 ? x - (T)0.5 : 0;
    Y[3][i] = x > 2 ? x : 0; Y[4][i] = x / (1 + (x < 0 ? -x : x)); Y[5][i] = 1 / x; Y[6][i] = x < -3 || x > 3 ? x : 0;
  }
  Call c = run(fpact<T>(), o, X);
  for (int k = 0; k < 7; ++k) if (split == (k == 4 || k == 5)) expect(c, k, Y[k]); else ++c.used;
  done(c);
  sx_reach("activations");
}
SX_TEST(actf) { tAct<float>(); }
SX_TEST(actd) { tAct<double>(); }
template <class T, class U> static void tClass() {
  int o = optLevel();
  const int m = sizeof(T) == 4 ? 23 : 52; const U sg = (U)1 << (8 * sizeof(T) - 1), inf = sg - ((U)1 << m);
  Ten<T> X({sx_pick("N", 0, 2), 2}); Ten<bool> Y[4] = {X.s, X.s, X.s, X.s};
  for (int64_t i = 0; i < X.n; ++i) {
    U u = i == 0 ? (U)sx_u64("u", 8 * sizeof(U)) : (U)0xffc00000 << (sizeof(U) == 8 ? 32 : 0); memcpy(&X.v[i], &u, sizeof u);
    Y[0][i] = (u & ~sg) > inf; Y[1][i] = (u & ~sg) == inf; Y[2][i] = u == inf; Y[3][i] = u == (inf | sg);
  }
  Call c; c.nin = 0; c.used = 0; c.live = sx_live_allocs();
  addIn(c, X);
  for (int64_t i = 0; i < X.n; ++i) { memcpy((T *)c.data[0] + i, &X.v[i], sizeof(T)); memcpy((T *)c.keep[0] + i, &X.v[i], sizeof(T)); }
  invoke(fpclass<T>(), c, o);
  for (int k = 0; k < 4; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("classes of floats");
}
SX_TEST(classf) { tClass<float, uint32_t>(); }
SX_TEST(classd) { tClass<double, uint64_t>(); }
template <class T> static void tWhere() {
  int o = optLevel();
  Ten<bool> K({sx_pick("N", 0, 2), 1}); Ten<T> X({2}), Z({K.s.d[0], 2}), Y(Z.s);
  K.any("k"); anyNumber(X, "x"); anyNumber(Z, "z");
  for (int64_t i = 0; i < Y.n; ++i) Y[i] = K[i / 2] ? X[i % 2] : Z[i];
  Call c = run(where<T>(), o, K, X, Z);
  expect(c, 0, Y);
  done(c);
  sx_reach("where");
}
SX_TEST(where8) { tWhere<int8_t>(); }
SX_TEST(where16) { tWhere<int16_t>(); }
SX_TEST(where32) { tWhere<int32_t>(); }
SX_TEST(where64) { tWhere<int64_t>(); }
SX_TEST(wheref) { tWhere<float>(); }
SX_TEST(whered) { tWhere<double>(); }
SX_TEST(whereb) { tWhere<bool>(); }
template <class T> static void tClip() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 1), 9}), L{Shape()}, H{Shape()}, Y[4] = {X.s, X.s, X.s, X.s};
  anyNumber(X, "x"); L.range("l", -5, 5); H.range("h", -5, 5);
  for (int64_t i = 0; i < X.n; ++i) {
    T x = X[i], l = L[0], h = H[0], lo = x < l ? l : x;
    Y[0][i] = lo > h ? h : lo; Y[1][i] = lo; Y[2][i] = x > h ? h : x; Y[3][i] = x;
  }
  Call c = run(clip<T>(), o, X, L, H);
  for (int k = 0; k < 4; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("clip");
}
SX_TEST(clip8) { tClip<int8_t>(); }
SX_TEST(clip16) { tClip<int16_t>(); }
SX_TEST(clip32) { tClip<int32_t>(); }
SX_TEST(clip64) { tClip<int64_t>(); }
SX_TEST(clipf) { tClip<float>(); }
SX_TEST(clipd) { tClip<double>(); }
template <class T> static void tVariadic() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 0, 3), 1}), Z({sx_pick("P", 0, 3)}), W{Shape()};
  X.range("x", -1000, 1000); Z.range("z", -1000, 1000); W.range("w", -1000, 1000);
  Shape s = broadcast(X.s, Z.s);
  Ten<T> Y[3] = {s, s, s};
  for (int64_t i = 0; i < s.size(); ++i) {
    T x = X.bc(s, unlin(s, i)), z = Z.bc(s, unlin(s, i)), w = W[0], m = x > z ? x : z, k = x < z ? x : z;
    Y[0][i] = m > w ? m : w; Y[1][i] = k < w ? k : w; Y[2][i] = w + x + z;
  }
  Call c = run(variadic<T>(), o, X, Z, W);
  for (int k = 0; k < 3; ++k) expect(c, k, Y[k]);
  expect(c, 3, W);
  done(c);
  sx_reach("variadic");
}
SX_TEST(variadici) { tVariadic<int32_t>(); }
SX_TEST(variadicf) { tVariadic<float>(); }
SX_TEST(scalar) {
  int o = optLevel();
  Ten<int32_t> X{Shape()}, Z({sx_pick("N", 0, 3)}), A(Z.s), M{Shape()}, N{Shape()}; Ten<bool> L(Z.s);
  X.any("x"); Z.any("z");
  for (int64_t i = 0; i < Z.n; ++i) { A[i] = wrapAdd(X[0], Z[i]); L[i] = Z[i] < X[0]; }
  M[0] = (int32_t)((uint32_t)X[0] * (uint32_t)X[0]); N[0] = (int32_t)(0 - (uint32_t)X[0]);
  Call c = run(scalar, o, X, Z);
  expect(c, 0, A); expect(c, 1, M); expect(c, 2, L); expect(c, 3, N);
  done(c);
}
SX_TEST(rank5) {
  int o = optLevel();
  int64_t B = sx_pick("B", 1, 2), C = sx_pick("C", 1, 2), D = sx_pick("D", 1, 2), E = sx_pick("E", 1, 2);
  Ten<int32_t> X({sx_pick("A", 1, 2), 1, B, 1, C}), Z({D, 1, E});
  sx_assume(D == 1 || B == 1 || B == D); sx_assume(E == 1 || C == 1 || C == E);
  X.any("x"); Z.any("z");
  Shape s = broadcast(X.s, Z.s);
  Ten<int32_t> Y(s);
  for (int64_t i = 0; i < Y.n; ++i) Y[i] = (int32_t)((uint32_t)X.bc(s, unlin(s, i)) - (uint32_t)Z.bc(s, unlin(s, i)));
  Call c = run(rank5, o, X, Z);
  expect(c, 0, Y);
  done(c);
  sx_reach("rank 5");
}
SX_TEST(binarizer) {
  int o = optLevel();
  Ten<float> X({sx_pick("N", 0, 2)}), Y(X.s);
  X.range("x", -10, 10);
  for (int64_t i = 0; i < X.n; ++i) Y[i] = X[i] > 1.5f;
  Call c = run(binarizer, o, X);
  expect(c, 0, Y);
  done(c);
}
// Outputs that are the same value, views of it, an input or a constant: each is valid, and storage is freed once.
MODEL(shareOut, 13, R"(g (int32[A,2] X) => (int32[A,2] Y0, int32[A,2] Y1, int32[B] Y2, int32[A,2] Y3, int32[2] Y4, int32[1,A,2] Y5, int32[A,2] Y6) <int64[1] flat = {-1}, int32[2] k = {5, -7}, int64[1] ax = {0}>
  { Y0 = Add(X, X) Y1 = Add(X, X) Y2 = Reshape(Y0, flat) Y3 = Identity(X) Y4 = Identity(k) Y5 = Unsqueeze(X, ax) Y6 = Add(Y0, k) })")
SX_TEST(sharedOutputs) {
  int o = optLevel();
  Ten<int32_t> X({sx_pick("A", 0, 2), 2}), Y0(X.s), Y2({X.n}), Y4({2}), Y5({1, X.s.d[0], 2}), Y6(X.s);
  X.any("x");
  Y4[0] = 5; Y4[1] = -7;
  for (int64_t i = 0; i < X.n; ++i) { Y2[i] = Y0[i] = (int32_t)((uint32_t)X[i] * 2); Y5[i] = X[i]; Y6[i] = (int32_t)((uint32_t)Y0[i] + (uint32_t)Y4[i % 2]); }
  Call c = run(shareOut, o, X);
  expect(c, 0, Y0); expect(c, 1, Y0); expect(c, 2, Y2); expect(c, 3, X); expect(c, 4, Y4); expect(c, 5, Y5); expect(c, 6, Y6);
  done(c);
  sx_reach("shared outputs");
}
