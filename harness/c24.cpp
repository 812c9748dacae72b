// C24: contractions, reductions, windows and quantization in compiled models.
#include "model.h"
#include "models_c24.h"
typedef int32_t I;
typedef float F;
#define FOR(Y) for (int64_t i = 0; i < (Y).n; ++i)
MODELT(mm2, 13, R"(g ($T[A,3] X, $T[3,B] Z) => ($T[A,B] Y) { Y = MatMul(X, Z) })", "int32 int64 float double")
MODEL(mmk, 13, R"(g (int32[2,K] X, int32[K,2] Z) => (int32[2,2] Y) { Y = MatMul(X, Z) })")
MODEL(mmTile, 13, R"(g (float[4,8] X, float[8,8] Z) => (float[4,8] Y) { Y = MatMul(X, Z) })")
MODEL(mmTail, 13, R"(g (float[5,9] X, float[9,10] Z) => (float[5,10] Y) { Y = MatMul(X, Z) })")
MODEL(mmDyn, 13, R"(g (float[A,B] X, float[B,C] Z) => (float[A,C] Y) { Y = MatMul(X, Z) })")
MODEL(mmVec, 13, R"(g (int32[K] X, int32[K,2] Z, int32[2,K] W) => (int32[2] Y0, int32[2] Y1) { Y0 = MatMul(X, Z) Y1 = MatMul(W, X) })")
MODEL(mmBatch, 13, R"(g (int32[B,2,2] X, int32[2,3] Z, int32[B,2,1] W) => (int32[B,2,3] Y0, int32[B,2,1] Y1) { Y0 = MatMul(X, Z) Y1 = MatMul(X, W) })")
MODEL(mmBcast, 13, R"(g (int32[B,1,2,2] X, int32[3,2,1] Z) => (int32[B,3,2,1] Y) { Y = MatMul(X, Z) })")
MODELT(gemm, 13, R"(g ($T[A,3] X, $T[3,A] XT, $T[3,2] Z, $T[2,3] ZT, $T[2] C1, $T[A,1] C2, $T C3) => ($T[A,2] Y0, $T[A,2] Y1, $T[A,2] Y2, $T[A,2] Y3, $T[A,2] Y4)
  { Y0 = Gemm(X, Z, C1) Y1 = Gemm<transA=1>(XT, Z, C2) Y2 = Gemm<transB=1, alpha=2.0>(X, ZT, C3) Y3 = Gemm<transA=1, transB=1, beta=3.0>(XT, ZT, C1) Y4 = Gemm<alpha=-2.0, beta=0.0>(X, Z) })", "int32 float")
MODEL(mmInt, 13, R"(g (uint8[2,K] X, uint8[K,2] Z, uint8 XP, uint8 ZP) => (int32[2,2] Y0, int32[2,2] Y1, int32[2,2] Y2) { Y0 = MatMulInteger(X, Z) Y1 = MatMulInteger(X, Z, XP) Y2 = MatMulInteger(X, Z, XP, ZP) })")
MODEL(mmIntS, 13, R"(g (int8[2,K] X, int8[K,2] Z, int8[2] XP, int8[2] ZP) => (int32[2,2] Y0, int32[2,2] Y1) { Y0 = MatMulInteger(X, Z) Y1 = MatMulInteger(X, Z, XP, ZP) })")
template <class T> static void expectMM(Call &c, int k, const Ten<T> &X, const Ten<T> &Z) {
  int64_t M = X.s.d[0], K = X.s.d[1], N = Z.s.d[1];
  Ten<T> Y({M, N});
  for (int64_t m = 0; m < M; ++m) for (int64_t n = 0; n < N; ++n) { T a = 0; for (int64_t j = 0; j < K; ++j) a = a + X[m * K + j] * Z[j * N + n]; Y[m * N + n] = a; }
  expect(c, k, Y);
}
static inline int64_t coef(int64_t i) { return (i * 7 + 3) % 11 - 5; } // distinct small weights
template <class T> static void weights(Ten<T> &W, int64_t from = 0) { FOR(W) W[i] = (T)coef(i + from); }
// Generic concrete values with one or two symbolic elements, at every position in turn (for floats, whose
// sums the solver decides slowly).
template <class T> static void sparse(Ten<T> &X, const char *nm, int64_t lo, int64_t hi) {
  weights(X, 2);
  int64_t n = X.n; if (!n) return;
  int64_t p = sx_pick("position", 0, n < 7 ? n - 1 : 6); p = n < 7 ? p : p * (n - 1) / 6;
  X[p] = (T)sx_range(nm, lo, hi); if (n > 1) X[(p + n / 2) % n] = (T)sx_range(nm, lo, hi);
}
template <class T> static void some(Ten<T> &X, const char *nm, int64_t lo, int64_t hi) { X.range(nm, lo, hi); }
template <> void some(Ten<float> &X, const char *nm, int64_t lo, int64_t hi) { sparse(X, nm, lo, hi); }
template <> void some(Ten<double> &X, const char *nm, int64_t lo, int64_t hi) { sparse(X, nm, lo, hi); }
template <class T> static void tMM() {
  int o = optLevel();
  Ten<T> X({sx_pick("A", 0, 2), 3}), Z({3, sx_pick("B", 1, 2)});
  int side = sx_pick("symbolic side", 0, 1);
  if (side) { some(X, "x", -100, 100); weights(Z); } else { some(Z, "z", -100, 100); weights(X); }
  Call c = run(mm2<T>(), o, X, Z);
  expectMM(c, 0, X, Z);
  done(c);
  sx_reach("matmul");
}
SX_TEST(matmul32) { tMM<int32_t>(); }
SX_TEST(matmul64) { tMM<int64_t>(); }
SX_TEST(matmulf) { tMM<float>(); }
SX_TEST(matmuld) { tMM<double>(); }
SX_TEST(matmulProducts) { // both factors symbolic, wrapping
  int o = optLevel();
  int64_t K = sx_pick("K", 0, 2);
  Ten<I> X({2, K}), Z({K, 2});
  X.any("x"); Z.any("z");
  Call c = run(mmk, o, X, Z);
  expectMM(c, 0, X, Z);
  done(c);
  sx_reach("matmul products");
}
static void bigMM(const Model &m, int M, int K, int N) {
  int o = optLevel();
  Ten<F> X({M, K}), Z({K, N});
  if (sx_pick("symbolic side", 0, 1)) { sparse(X, "x", -8, 8); weights(Z); } else { sparse(Z, "z", -8, 8); weights(X); }
  Call c = run(m, o, X, Z);
  expectMM(c, 0, X, Z);
  done(c);
}
SX_TEST(matmulTile) { bigMM(mmTile, 4, 8, 8); sx_reach("matmul tile"); }
SX_TEST(matmulTail) { bigMM(mmTail, 5, 9, 10); sx_reach("matmul tail"); }
SX_TEST(matmulDynamic) { int a = sx_pick("A", 1, 5), b = sx_pick("B", 1, 2), c = sx_pick("C", 0, 1); bigMM(mmDyn, a, b == 1 ? 3 : 9, c ? 9 : 1); sx_reach("matmul dynamic"); }
SX_TEST(matmulVector) {
  int o = optLevel();
  int64_t K = sx_pick("K", 1, 3);
  Ten<I> X({K}), Z({K, 2}), W({2, K}), Y0({2}), Y1({2});
  X.any("x"); weights(Z); weights(W, 5);
  for (int64_t n = 0; n < 2; ++n) { Y0[n] = Y1[n] = 0; for (int64_t k = 0; k < K; ++k) { Y0[n] += X[k] * Z[k * 2 + n]; Y1[n] += W[n * K + k] * X[k]; } }
  Call c = run(mmVec, o, X, Z, W);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("matmul vector");
}
SX_TEST(matmulBatch) {
  int o = optLevel();
  int64_t B = sx_pick("B", 0, 3);
  Ten<I> X({B, 2, 2}), Z({2, 3}), W({B, 2, 1}), Y0({B, 2, 3}), Y1({B, 2, 1});
  X.any("x"); weights(Z); weights(W, 4);
  FOR(Y0) { Ix y = unlin(Y0.s, i); Y0[i] = 0; for (int64_t k = 0; k < 2; ++k) Y0[i] += X.at({y[0], y[1], k}) * Z.at({k, y[2]}); }
  FOR(Y1) { Ix y = unlin(Y1.s, i); Y1[i] = 0; for (int64_t k = 0; k < 2; ++k) Y1[i] += X.at({y[0], y[1], k}) * W.at({y[0], k, 0}); }
  Call c = run(mmBatch, o, X, Z, W);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("matmul batch");
}
SX_TEST(matmulBroadcast) {
  int o = optLevel();
  int64_t B = sx_pick("B", 0, 2);
  sx_context("MatMul broadcasting a batch dimension of size 1");
  Ten<I> X({B, 1, 2, 2}), Z({3, 2, 1}), Y({B, 3, 2, 1});
  X.any("x"); weights(Z);
  FOR(Y) { Ix y = unlin(Y.s, i); Y[i] = 0; for (int64_t k = 0; k < 2; ++k) Y[i] += X.at({y[0], 0, y[2], k}) * Z.at({y[1], k, 0}); }
  Call c = run(mmBcast, o, X, Z);
  expect(c, 0, Y);
  done(c);
}
template <class T> static void tGemm() {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2);
  Ten<T> X({A, 3}), XT({3, A}), Z({3, 2}), ZT({2, 3}), C1({2}), C2({A, 1}), C3{Shape()}, Y[5] = {Shape({A, 2}), Shape({A, 2}), Shape({A, 2}), Shape({A, 2}), Shape({A, 2})};
  some(X, "x", -50, 50); weights(Z);
  C1[0] = (T)sx_range("c", -50, 50); C1[1] = 7; C3[0] = C2[A - 1] = (T)sx_range("c", -50, 50); if (A > 1) C2[0] = -11;
  for (int64_t a = 0; a < A; ++a) for (int64_t k = 0; k < 3; ++k) XT[k * A + a] = X[a * 3 + k];
  for (int64_t k = 0; k < 3; ++k) for (int64_t n = 0; n < 2; ++n) ZT[n * 3 + k] = Z[k * 2 + n];
  FOR(Y[0]) {
    int64_t a = i / 2, n = i % 2; T s = 0;
    for (int64_t k = 0; k < 3; ++k) s = s + X[a * 3 + k] * Z[k * 2 + n];
    Y[0][i] = s + C1[n]; Y[1][i] = s + C2[a]; Y[2][i] = 2 * s + C3[0]; Y[3][i] = s + 3 * C1[n]; Y[4][i] = -2 * s;
  }
  Call c = run(gemm<T>(), o, X, XT, Z, ZT, C1, C2, C3);
  for (int k = 0; k < 5; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("gemm");
}
SX_TEST(gemm32) { tGemm<int32_t>(); }
SX_TEST(gemmf) { tGemm<float>(); }
SX_TEST(matmulIntegerU) {
  int o = optLevel();
  int64_t K = sx_pick("K", 1, 2);
  Ten<uint8_t> X({2, K}), Z({K, 2}), P{Shape()}, Q{Shape()};
  X.any("x"); Z.any("z"); P.any("p"); Q.any("q");
  Ten<I> Y[3] = {Shape({2, 2}), Shape({2, 2}), Shape({2, 2})};
  for (int y = 0; y < 3; ++y) FOR(Y[y]) { Y[y][i] = 0; for (int64_t k = 0; k < K; ++k) Y[y][i] += ((I)X[i / 2 * K + k] - (y > 0 ? (I)P[0] : 0)) * ((I)Z[k * 2 + i % 2] - (y > 1 ? (I)Q[0] : 0)); }
  Call c = run(mmInt, o, X, Z, P, Q);
  for (int y = 0; y < 3; ++y) expect(c, y, Y[y]);
  done(c);
  sx_reach("matmul integer");
}
SX_TEST(matmulIntegerS) {
  int o = optLevel();
  int64_t K = sx_pick("K", 1, 2);
  Ten<int8_t> X({2, K}), Z({K, 2}), P({2}), Q({2});
  X.any("x"); Z.any("z"); P.any("p"); Q.any("q");
  Ten<I> Y[2] = {Shape({2, 2}), Shape({2, 2})};
  for (int y = 0; y < 2; ++y) FOR(Y[y]) { Y[y][i] = 0; for (int64_t k = 0; k < K; ++k) Y[y][i] += ((I)X[i / 2 * K + k] - (y ? (I)P[i / 2] : 0)) * ((I)Z[k * 2 + i % 2] - (y ? (I)Q[i % 2] : 0)); }
  Call c = run(mmIntS, o, X, Z, P, Q);
  for (int y = 0; y < 2; ++y) expect(c, y, Y[y]);
  done(c);
  sx_reach("matmul integer per row and column");
}
// Reductions.
MODELT(red, 13, R"(g ($T[A,3,B] X) => ($T[1,1,1] Y0, $T[A,B] Y1, $T[A,3,1] Y2, $T Y3, $T[3] Y4, $T[1,3,1] Y5)
  <int64[1] m1 = {1}> { Y0 = ReduceSum(X) Y1 = ReduceSum<keepdims=0>(X, m1) Y2 = ReduceMax<axes=[-1]>(X) Y3 = ReduceMin<keepdims=0>(X) Y4 = ReduceMax<axes=[0,2], keepdims=0>(X) Y5 = ReduceMin<axes=[0,-1]>(X) })", "int32 int64 float")
MODEL(redInner, 13, R"(g (float[A,9] X) => (float[A] Y0, float[A,1] Y1, float[A] Y2, float[9] Y3) <int64[1] m1 = {-1}> { Y0 = ReduceSum<keepdims=0>(X, m1) Y1 = ReduceMax<axes=[1]>(X) Y2 = ReduceMin<axes=[1], keepdims=0>(X) Y3 = ReduceMax<axes=[0], keepdims=0>(X) })")
MODEL(redMisc, 13, R"(g (int32[A,2] X) => (int32[A] Y0, int32[A] Y1, int32[A] Y2, int32[2] Y3) { Y0 = ReduceProd<axes=[1], keepdims=0>(X) Y1 = ReduceL1<axes=[1], keepdims=0>(X) Y2 = ReduceSumSquare<axes=[1], keepdims=0>(X) Y3 = ReduceProd<axes=[0], keepdims=0>(X) })")
MODEL(redMean, 13, R"(g (float[A,4] X) => (float[A,1] Y0, float[4] Y1, float Y2) { Y0 = ReduceMean<axes=[1]>(X) Y1 = ReduceMean<axes=[0], keepdims=0>(X) Y2 = ReduceMean<keepdims=0>(X) })")
MODEL(redAxes, 18, R"(g (int32[A,3] X, int64[2] N) => (int32[A,3] Y0, int32[1,1] Y1, int32[P,Q] Y2) <int64[0] none = {}> { Y0 = ReduceSum<noop_with_empty_axes=1>(X, none) Y1 = ReduceMax(X) Y2 = ReduceSum(X, N) })")
MODELT(red8, 13, R"(g ($T[A,3] X) => ($T[A] Y0, $T[A] Y1) { Y0 = ReduceMax<axes=[1], keepdims=0>(X) Y1 = ReduceMin<axes=[1], keepdims=0>(X) })", "int8")
enum Red { SUM, MAX, MIN, PROD, L1, SSQ };
template <class T> static Ten<T> reduce(const Ten<T> &X, Red r, int axes, int keep) {
  Shape s, t; for (int a = 0; a < X.s.rank; ++a) { int64_t d = axes >> a & 1 ? 1 : X.s.d[a]; s.push(d); if (keep || !(axes >> a & 1)) t.push(d); }
  Ten<T> Y(s); Ten<bool> seen(s); FOR(Y) { Y[i] = r == PROD ? 1 : 0; seen[i] = false; }
  FOR(X) {
    Ix x = unlin(X.s, i); for (int a = 0; a < X.s.rank; ++a) if (axes >> a & 1) x[a] = 0;
    int64_t y = lin(s, x); T v = X[i];
    switch (r) {
    case SUM: Y[y] = (T)(Y[y] + v); break;
    case MAX: if (!seen[y] || v > Y[y]) Y[y] = v; break;
    case MIN: if (!seen[y] || v < Y[y]) Y[y] = v; break;
    case PROD: Y[y] = (T)(Y[y] * v); break;
    case L1: Y[y] = (T)(Y[y] + (v < 0 ? -v : v)); break;
    case SSQ: Y[y] = (T)(Y[y] + v * v); break;
    }
    seen[y] = true;
  }
  Y.s = t; return Y;
}
template <class T> static void fill(Ten<T> &X, const char *n) { X.any(n); }
template <> void fill(Ten<float> &X, const char *n) { sparse(X, n, -100, 100); }
template <class T> static void tRed() {
  int o = optLevel();
  Ten<T> X({sx_pick("A", 1, 2), 3, sx_pick("B", 1, 2)});
  int which = sx_pick("sums or extremes", 0, 1);
  if (which) fill(X, "x"); else { X.range("x", -4, 4); if (X.n > 4) for (int64_t i = 3; i < X.n; ++i) X[i] = (T)coef(i); }
  Call c = run(red<T>(), o, X);
  if (which) { expect(c, 0, reduce(X, SUM, 7, 1)); expect(c, 1, reduce(X, SUM, 2, 0)); c.used += 4; }
  else { c.used += 2; expect(c, 2, reduce(X, MAX, 4, 1)); expect(c, 3, reduce(X, MIN, 7, 0)); expect(c, 4, reduce(X, MAX, 5, 0)); expect(c, 5, reduce(X, MIN, 5, 1)); }
  done(c);
  sx_reach("reductions");
}
SX_TEST(reduce32) { tRed<int32_t>(); }
SX_TEST(reduce64) { tRed<int64_t>(); }
SX_TEST(reducef) { tRed<float>(); }
SX_TEST(reduceInner) {
  int o = optLevel();
  Ten<F> X({sx_pick("A", 0, 1) ? 5 : 1, 9});
  int s = sx_pick("where", 0, 2);
  weights(X); for (int k = 0; k < 3; ++k) X[(s * 3 + k * 10) % X.n] = (F)sx_range("x", -9, 9);
  Call c = run(redInner, o, X);
  expect(c, 0, reduce(X, SUM, 2, 0)); expect(c, 1, reduce(X, MAX, 2, 1)); expect(c, 2, reduce(X, MIN, 2, 0)); expect(c, 3, reduce(X, MAX, 1, 0));
  done(c);
  sx_reach("vectorized reductions");
}
SX_TEST(reduceMisc) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 1, 2), 2});
  X.any("x");
  Call c = run(redMisc, o, X);
  expect(c, 0, reduce(X, PROD, 2, 0)); expect(c, 1, reduce(X, L1, 2, 0)); expect(c, 2, reduce(X, SSQ, 2, 0)); expect(c, 3, reduce(X, PROD, 1, 0));
  done(c);
  sx_reach("products, norms");
}
SX_TEST(reduceMean) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2);
  Ten<F> X({A, 4}), Y0, Y1, Y2;
  sparse(X, "x", -100, 100);
  Y0 = reduce(X, SUM, 2, 1); FOR(Y0) Y0[i] = Y0[i] / 4;
  Y1 = reduce(X, SUM, 1, 0); FOR(Y1) Y1[i] = Y1[i] / (F)A;
  Y2 = reduce(X, SUM, 3, 0); Y2[0] = Y2[0] / (F)(4 * A);
  Call c = run(redMean, o, X);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  sx_reach("mean");
}
SX_TEST(reduceAxes) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 1, 2), 3}); Ten<int64_t> N({2});
  X.range("x", -5, 5);
  N[0] = sx_pick("n0", -2, 1); N[1] = sx_pick("n1", -2, 1);
  sx_assume((N[0] + 2) % 2 != (N[1] + 2) % 2);
  Call c = run(redAxes, o, X, N);
  expect(c, 0, X); expect(c, 1, reduce(X, MAX, 3, 1)); expect(c, 2, reduce(X, SUM, 3, 1));
  done(c);
  sx_reach("reductions with axes as input");
}
template <class T> static void tRed8() {
  int o = optLevel();
  Ten<T> X({sx_pick("A", 0, 2), 3});
  X.any("x");
  Call c = run(red8<T>(), o, X);
  expect(c, 0, reduce(X, MAX, 2, 0)); expect(c, 1, reduce(X, MIN, 2, 0));
  done(c);
  sx_reach("reductions of bytes");
}
SX_TEST(reduceI8) { tRed8<int8_t>(); }
MODELT(arg, 13, R"(g ($T[A,3] X) => (int64[1,3] Y0, int64[A] Y1, int64[A,1] Y2, int64[3] Y3, int64[A] Y4) { Y0 = ArgMax(X) Y1 = ArgMax<axis=-1, keepdims=0>(X) Y2 = ArgMin<axis=1>(X) Y3 = ArgMin<keepdims=0>(X) Y4 = ArgMax<axis=1, keepdims=0>(X) })", "int32 float")
template <class T> static Ten<int64_t> argm(const Ten<T> &X, int axis, int keep, int max) {
  int64_t R = X.s.d[0], C = X.s.d[1], n = axis ? R : C, m = axis ? C : R;
  Shape s; if (axis) { s.push(R); if (keep) s.push(1); } else { if (keep) s.push(1); s.push(C); }
  Ten<int64_t> Y(s);
  for (int64_t i = 0; i < n; ++i) {
    int64_t b = 0;
    for (int64_t k = 1; k < m; ++k) { T v = axis ? X[i * C + k] : X[k * C + i], w = axis ? X[i * C + b] : X[b * C + i]; if (max ? v > w : v < w) b = k; }
    Y[i] = b;
  }
  return Y;
}
template <class T> static void tArg() {
  int o = optLevel();
  Ten<T> X({sx_pick("A", 1, 2), 3});
  X.range("x", -3, 3);
  Call c = run(arg<T>(), o, X);
  expect(c, 0, argm(X, 0, 1, 1)); expect(c, 1, argm(X, 1, 0, 1)); expect(c, 2, argm(X, 1, 1, 0)); expect(c, 3, argm(X, 0, 0, 0)); expect(c, 4, argm(X, 1, 0, 1));
  done(c);
  sx_reach("arg max");
}
SX_TEST(arg32) { tArg<int32_t>(); }
SX_TEST(argf) { tArg<float>(); }
MODELT(cums, 14, R"(g ($T[A,3] X, int64 N) => ($T[A,3] Y0, $T[A,3] Y1, $T[A,3] Y2, $T[A,3] Y3) { Y0 = CumSum(X, N) Y1 = CumSum<exclusive=1>(X, N) Y2 = CumSum<reverse=1>(X, N) Y3 = CumSum<exclusive=1, reverse=1>(X, N) })", "int32 float")
template <class T> static void tCum() {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 3), ax = sx_pick("axis", -2, 1);
  Ten<T> X({A, 3}); Ten<int64_t> N{Shape()};
  fill(X, "x"); N[0] = ax;
  int a = (int)((ax + 2) % 2);
  Call c = run(cums<T>(), o, X, N);
  for (int k = 0; k < 4; ++k) {
    Ten<T> Y(X.s);
    FOR(Y) {
      Ix y = unlin(Y.s, i); T s = 0; int ex = k & 1, rev = k >> 1;
      for (int64_t j = 0; j < X.s.d[a]; ++j) { Ix x = y; x[a] = j; if (rev ? j > y[a] - (ex ? 0 : 1) : j < y[a] + (ex ? 0 : 1)) s = (T)(s + X.at(x)); }
      Y[i] = s;
    }
    expect(c, k, Y);
  }
  done(c);
  sx_reach("cumulative sum");
}
SX_TEST(cumsum32) { tCum<int32_t>(); }
SX_TEST(cumsumf) { tCum<float>(); }
MODEL(topk, 11, R"(g (int32[A,3] X, int64[1] K) => (int32[A,P] Y0, int64[A,P] Y1, int32[A,1] Y2, int64[A,1] Y3) <int64[1] one = {1}> { Y0, Y1 = TopK(X, K) Y2, Y3 = TopK<axis=1, largest=0>(X, one) })")
SX_TEST(topK) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2), n = sx_pick("k", 0, 3);
  Ten<I> X({A, 3}), Y0({A, n}), Y2({A, 1}); Ten<int64_t> K({1}), Y1({A, n}), Y3({A, 1});
  X.range("x", -3, 3); K[0] = n;
  for (int64_t a = 0; a < A; ++a) {
    int used[3] = {0, 0, 0};
    for (int64_t k = 0; k < n; ++k) { int b = -1; for (int j = 0; j < 3; ++j) if (!used[j] && (b < 0 || X[a * 3 + j] > X[a * 3 + b])) b = j; used[b] = 1; Y0[a * n + k] = X[a * 3 + b]; Y1[a * n + k] = b; }
  }
  Ten<int64_t> m = argm(X, 1, 1, 0);
  for (int64_t a = 0; a < A; ++a) { Y3[a] = m[a]; Y2[a] = X[a * 3 + sx_concrete(m[a])]; }
  Call c = run(topk, o, X, K);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, Y3);
  done(c);
  sx_reach("top k");
}
MODEL(hardmax, 13, R"(g (float[A,3] X) => (float[A,3] Y0, float[A,3] Y1) { Y0 = Hardmax(X) Y1 = Hardmax<axis=0>(X) })")
SX_TEST(hardMax) {
  int o = optLevel();
  Ten<F> X({sx_pick("A", 1, 2), 3});
  X.range("x", -3, 3);
  Ten<F> Y0(X.s), Y1(X.s); Ten<int64_t> r = argm(X, 1, 0, 1), q = argm(X, 0, 0, 1);
  FOR(X) { Y0[i] = r[i / 3] == i % 3 ? 1 : 0; Y1[i] = q[i % 3] == i / 3 ? 1 : 0; }
  Call c = run(hardmax, o, X);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("hardmax");
}
