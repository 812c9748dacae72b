// C26: rewriting a graph (canonicalization, decomposition, recomposition, constant
// propagation, shape simplification) keeps its meaning: models in the forms that trigger the rewritings.
#include "model.h"
#include "models_c26.h"
typedef int32_t I;
typedef uint32_t U;
typedef float F;
typedef int64_t L;
#define FOR(Y) for (int64_t i = 0; i < (Y).n; ++i)
static inline int64_t coef(int64_t i) { return (i * 7 + 3) % 11 - 5; }
template <class T> static void weights(Ten<T> &W, int64_t from = 0) { FOR(W) W[i] = (T)coef(i + from); }
template <class T> static void sparse(Ten<T> &X, const char *nm, int64_t lo, int64_t hi) {
  int64_t n = X.n; if (!n) return;
  int64_t p = sx_pick("position", 0, n < 7 ? n - 1 : 6); p = n < 7 ? p : p * (n - 1) / 6;
  X[p] = (T)sx_range(nm, lo, hi); if (n > 1) X[(p + n / 2) % n] = (T)sx_range(nm, lo, hi);
}
// Y[y] = X at the position perm selects: dimension k of Y is dimension p[k] of X.
template <class T> static Ten<T> transpose(const Ten<T> &X, std::initializer_list<int> perm) {
  int p[MAXR], r = 0; for (int x : perm) p[r++] = x;
  Shape s; for (int k = 0; k < r; ++k) s.push(X.s.d[p[k]]);
  Ten<T> Y(s);
  FOR(Y) { Ix y = unlin(s, i), x; for (int k = 0; k < r; ++k) x[p[k]] = y[k]; Y[i] = X.at(x); }
  return Y;
}
template <class T> static Ten<T> reshape(const Ten<T> &X, const Shape &s) { Ten<T> Y = X; Y.s = s; return Y; }
template <class T, class G> static Ten<T> map(const Ten<T> &X, G g) { Ten<T> Y(X.s); FOR(Y) Y[i] = g(X[i]); return Y; }
template <class T> static Ten<T> matmul(const Ten<T> &A, const Ten<T> &B) {
  Ten<T> Y({A.s.d[0], B.s.d[1]});
  FOR(Y) { Ix y = unlin(Y.s, i); T a = 0; for (int64_t k = 0; k < A.s.d[1]; ++k) a = a + A.at({y[0], k}) * B.at({k, y[1]}); Y[i] = a; }
  return Y;
}
template <class T> static Ten<T> plus(const Ten<T> &A, const Ten<T> &B) { Ten<T> Y(broadcast(A.s, B.s)); FOR(Y) { Ix y = unlin(Y.s, i); Y[i] = A.bc(Y.s, y) + B.bc(Y.s, y); } return Y; }
static I neg(I x) { return (I)(0u - (U)x); }
static I relu(I x) { return x < 0 ? 0 : x; }

MODEL(transposes, 13, R"(g (int32[2,A,3] X, int32[2,A,3] Z) => (int32[3,2,A] Y0, int32[2,A,3] Y1, int32[A,3,2] Y2, int32[B,2,3] Y3, int32[2,A,3] Y4, float[3,A,2] Y5) {
  T0 = Transpose<perm=[0,2,1]>(X) Y0 = Transpose<perm=[1,0,2]>(T0) T1 = Transpose<perm=[1,2,0]>(X) Y1 = Transpose<perm=[2,0,1]>(T1)
  N = Neg(T1) Y2 = Identity(N) U = Transpose<perm=[1,0,2]>(X) V = Transpose<perm=[1,0,2]>(Z) Y3 = Concat<axis=0>(U, V)
  R = Neg(T0) Y4 = Transpose<perm=[0,2,1]>(R) C = Cast<to=1>(T1) Y5 = Transpose<perm=[1,0,2]>(C) })")
SX_TEST(transposeChains) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2);
  Ten<I> X({2, A, 3}), Z({2, A, 3});
  X.range("x", -1000, 1000); Z.any("z");
  if (o == 2) sx_context("intermediate value over-computed by SIMD");
  Call c = run(transposes, o, X, Z);
  expect(c, 0, transpose(transpose(X, {0, 2, 1}), {1, 0, 2})); expect(c, 1, X);
  expect(c, 2, map(transpose(X, {1, 2, 0}), neg));
  Ten<I> U1 = transpose(X, {1, 0, 2}), V1 = transpose(Z, {1, 0, 2}), Y3({2 * A, 2, 3}); FOR(Y3) Y3[i] = i < U1.n ? U1[i] : V1[i - U1.n];
  expect(c, 3, Y3); expect(c, 4, map(X, neg));
  Ten<I> W = transpose(transpose(X, {1, 2, 0}), {1, 0, 2}); Ten<F> Y5(W.s); FOR(W) Y5[i] = (F)W[i];
  expect(c, 5, Y5);
  done(c);
  sx_reach("chains of transposes");
}
MODEL(reshapeR, 14, R"(g (int32[2,3,2] X, int32[A,3,4] Z) => (int32[12] Y0, int32[3,2,2] Y1, int32[2,3,2] Y2, int32[P,Q] Y3, int32[S,T] Y4, int32[2,6] Y5, int32[B,12] Y6)
  <int64[2] s0 = {6, 2}, int64[1] s1 = {-1}, int64[2] s2 = {3, 4}, int64[3] s3 = {0, 2, 2}, int64[3] s4 = {2, 3, 2}, int64[2] s5 = {-1, 4}, int64[2] s6 = {-1, 6}, int64[1] zero = {0}, int64[1] minus = {-1}, int64[1] one = {1}> {
  R0 = Reshape(X, s0) Y0 = Reshape(R0, s1) R1 = Reshape(X, s2) Y1 = Reshape(R1, s3) Y2 = Reshape(X, s4) R3 = Reshape(Z, s5) Y3 = Reshape(R3, s6)
  SH = Shape(Z) D = Gather(SH, zero) E = Concat<axis=0>(D, minus) Y4 = Reshape(Z, E) R5 = Unsqueeze(X, zero) R6 = Squeeze(R5, zero) Y5 = Flatten<axis=1>(R6)
  ND = Slice(SH, zero, one, zero) NE = Concat<axis=0>(ND, minus) Y6 = Reshape(Z, NE) })")
SX_TEST(reshapeChains) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2);
  Ten<I> X({2, 3, 2}), Z({A, 3, 4});
  X.any("x"); Z.any("z");
  if (!A) sx_context("reshaping a tensor without elements to an unknown size"); // -1 has no unique value
  sx_assume(A > 0);
  Call c = run(reshapeR, o, X, Z);
  expect(c, 0, reshape(X, {12})); expect(c, 1, reshape(X, {3, 2, 2})); expect(c, 2, X); expect(c, 3, reshape(Z, {2 * A, 6})); expect(c, 4, reshape(Z, {A, 12})); expect(c, 5, reshape(X, {2, 6})); expect(c, 6, reshape(Z, {A, 12}));
  done(c);
  sx_reach("chains of reshapes");
}
MODEL(squeezes, 13, R"(g (int32[2,1,A] X) => (int32[2,1,A] Y0, int32[2,1,A] Y1, int32[1,2,A] Y2, int32[2,A,1] Y3, float[2,1,A] Y4, float[2,1,A] Y5) <int64[1] one = {1}, int64[1] zero = {0}, int64[1] two = {2}, int64[1] last = {-2}> {
  S = Squeeze(X, one) Y0 = Unsqueeze(S, one) U = Unsqueeze(X, one) Y1 = Squeeze(U, one) Y2 = Unsqueeze(S, zero) U2 = Unsqueeze(X, zero) V2 = Squeeze(U2, two) Y3a = Squeeze(V2, zero) Y3 = Unsqueeze(Y3a, two)
  SC = Cast<to=1>(S) Y4 = Unsqueeze(SC, one) UC = Cast<to=1>(U) Y5 = Squeeze(UC, one) })")
MODEL(squeezeO, 11, R"(g (int32[2,1,A] X) => (int32[2,1,A] Y0, int32[2,1,A] Y1, int32[1,2,A] Y2, float[2,1,A] Y3) {
  S = Squeeze<axes=[1]>(X) Y0 = Unsqueeze<axes=[1]>(S) U = Unsqueeze<axes=[0,2]>(X) Y1 = Squeeze<axes=[0,2]>(U) Y2 = Unsqueeze<axes=[0]>(S) C = Cast<to=1>(S) Y3 = Unsqueeze<axes=[-2]>(C) })")
SX_TEST(squeezeChains) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 3);
  Ten<I> X({2, 1, A}); Ten<F> C({2, 1, A});
  X.range("x", -9000, 9000); FOR(X) C[i] = (F)X[i];
  if (sx_pick("opset", 0, 1)) {
    Call c = run(squeezes, o, X);
    expect(c, 0, X); expect(c, 1, X); expect(c, 2, reshape(X, {1, 2, A})); expect(c, 3, reshape(X, {2, A, 1})); expect(c, 4, C); expect(c, 5, C);
    done(c);
  } else {
    Call c = run(squeezeO, o, X);
    expect(c, 0, X); expect(c, 1, X); expect(c, 2, reshape(X, {1, 2, A})); expect(c, 3, C);
    done(c);
  }
  sx_reach("squeezes and unsqueezes");
}
MODEL(gemmF, 13, R"(g (float[2,2] X, float[2,3] W, float[3] B, float[2,1] C, float[2,3] D) => (float[2,3] Y0, float[2,3] Y1, float[2,3] Y2, float[2,3] Y3, float[2,3] Y4, float[2,3] Y5, float[2,3] Y6)
  <float[2,3] K = {1.0, -2.0, 3.0, 4.0, 0.5, -6.0}, float s = {2.0}, float[1] h = {0.5}> {
  M0 = MatMul(X, W) Y0 = Add(M0, B) M1 = MatMul(X, W) Y1 = Add(C, M1) G = Gemm<alpha=2.0>(X, W) Y2 = Add(G, D) M3 = MatMul(X, K) Y3 = Mul(M3, s) M4 = MatMul(X, K) Y4 = Div(M4, s) M5 = MatMul(X, K) Y5 = Mul(h, M5)
  M6 = MatMul(X, W) A6 = Add(M6, B) Y6 = Add(A6, M6) })")
SX_TEST(gemmFusion) {
  int o = optLevel();
  Ten<F> X({2, 2}), W({2, 3}), B({3}), C({2, 1}), D({2, 3}), K({2, 3});
  weights(X); weights(W, 4); weights(B, 2); weights(C, 1); weights(D, 3); K.set({1, -2, 3, 4, 0.5f, -6});
  switch (sx_pick("symbolic", 0, 3)) { case 0: sparse(X, "x", -40, 40); break; case 1: sparse(W, "w", -40, 40); break; case 2: sparse(B, "b", -40, 40); break; default: sparse(C, "c", -40, 40); sparse(D, "d", -40, 40); }
  Call c = run(gemmF, o, X, W, B, C, D);
  Ten<F> M = matmul(X, W), N = matmul(X, K);
  expect(c, 0, plus(M, B)); expect(c, 1, plus(M, C)); expect(c, 2, plus(map(M, [](F x) { return 2 * x; }), D));
  expect(c, 3, map(N, [](F x) { return 2 * x; })); expect(c, 4, map(N, [](F x) { return x / 2; })); expect(c, 5, map(N, [](F x) { return x / 2; }));
  expect(c, 6, plus(plus(M, B), M));
  done(c);
  sx_reach("fused products");
}
MODEL(gemmB, 13, R"(g (float[1,2] X, float[2,3] W, float[2,3] D) => (float[2,3] Y) { M = MatMul(X, W) Y = Add(M, D) })")
SX_TEST(gemmBroadcast) {
  int o = optLevel();
  Ten<F> X({1, 2}), W({2, 3}), D({2, 3});
  weights(X); weights(W, 4); weights(D, 3); sparse(D, "d", -40, 40);
  sx_context("product that is broadcast by the addition");
  Call c = run(gemmB, o, X, W, D);
  expect(c, 0, plus(matmul(X, W), D));
  done(c);
}
MODEL(matR, 13, R"(g (float[2,2,2] X, float[2,3] W) => (float[4,3] Y0, float[2,2,3] Y1) <int64[2] s = {4, 2}, int64[3] t = {2, 2, 3}> { R = Reshape(X, s) Y0 = MatMul(R, W) Y1 = Reshape(Y0, t) })")
SX_TEST(reshapedProduct) {
  int o = optLevel();
  Ten<F> X({2, 2, 2}), W({2, 3});
  weights(X); weights(W, 4); if (sx_pick("symbolic", 0, 1)) sparse(X, "x", -40, 40); else sparse(W, "w", -40, 40);
  Call c = run(matR, o, X, W);
  Ten<F> M = matmul(reshape(X, {4, 2}), W);
  expect(c, 0, M); expect(c, 1, reshape(M, {2, 2, 3}));
  done(c);
  sx_reach("product of a reshaped tensor");
}
// Convolutions with what follows them folded into their weights.
MODEL(convF, 13, R"(g (float[1,2,2,3] X) => (float[1,2,1,2] Y0, float[1,2,1,2] Y1, float[1,2,1,2] Y2, float[1,2,1,2] Y3, float[1,2,1,2] Y4, float[1,4,1,2] Y5)
  <float[2,2,2,2] K = {1.0,-2.0,3.0,0.0, 4.0,5.0,-1.0,2.0, -3.0,1.0,1.0,2.0, 0.0,-4.0,6.0,1.0}, float[2,2,2,2] J = {2.0,1.0,0.0,-1.0, 3.0,-3.0,1.0,1.0, 5.0,0.0,-2.0,1.0, 1.0,2.0,-5.0,4.0}, float[2] b = {3.0,-7.0}, float[2,1,1] e = {5.0, 9.0}, float[1,2,1,1] m = {2.0, -3.0}, float[2] bs = {2.0,-1.0}, float[2] bb = {1.0,4.0}, float[2] bm = {3.0,-2.0}, float[2] bv = {4.0, 0.25}, float[1,2,1,1] f = {1.0, -8.0}> {
  C0 = Conv(X, K) Y0 = Add(C0, e) C1 = Conv(X, K, b) Y1 = Add(f, C1) C2 = Conv(X, K) Y2 = Mul(C2, m) C3 = Conv(X, K, b) Y3 = BatchNormalization<epsilon=0.0>(C3, bs, bb, bm, bv)
  C4 = Conv(X, K) Y4 = BatchNormalization<epsilon=0.0>(C4, bs, bb, bm, bv) C5 = Conv(X, K) C6 = Conv(X, J) Y5 = Concat<axis=1>(C5, C6) })")
SX_TEST(convFusion) {
  int o = optLevel();
  Ten<F> X({1, 2, 2, 3}), K({2, 2, 2, 2}), J({2, 2, 2, 2});
  K.set({1, -2, 3, 0, 4, 5, -1, 2, -3, 1, 1, 2, 0, -4, 6, 1}); J.set({2, 1, 0, -1, 3, -3, 1, 1, 5, 0, -2, 1, 1, 2, -5, 4});
  weights(X); sparse(X, "x", -40, 40);
  auto conv = [&](const Ten<F> &W) { Ten<F> Y({1, 2, 1, 2}); FOR(Y) { F a = 0; for (int c = 0; c < 2; ++c) for (int h = 0; h < 2; ++h) for (int v = 0; v < 2; ++v) a = a + X.at({0, c, h, i % 2 + v}) * W.at({i / 2, c, h, v}); Y[i] = a; } return Y; };
  Ten<F> C = conv(K), D = conv(J), Y0(C.s), Y1(C.s), Y2(C.s), Y3(C.s), Y4(C.s), Y5({1, 4, 1, 2});
  FOR(C) {
    bool p = i / 2; F b = p ? -7 : 3;
    Y0[i] = C[i] + (p ? 9 : 5); Y1[i] = C[i] + b + (p ? -8 : 1); Y2[i] = C[i] * (p ? -3 : 2);
    Y3[i] = p ? (C[i] + b + 2) * 2 * -1 + 4 : (C[i] + b - 3) * 0.5f * 2 + 1; Y4[i] = p ? (C[i] + 2) * 2 * -1 + 4 : (C[i] - 3) * 0.5f * 2 + 1;
    Y5[i] = C[i]; Y5[i + 4] = D[i];
  }
  Call c = run(convF, o, X);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, Y3); expect(c, 4, Y4); expect(c, 5, Y5);
  done(c);
  sx_reach("fused convolutions");
}
MODEL(bnormR, 13, R"(g (float[2,2] X, float[1,2,2,1] Z) => (float[2,2] Y0, float[1,2,2,1] Y1) <float[2] bs = {2.0,-1.0}, float[2] bb = {1.0,4.0}, float[2] bm = {3.0,-2.0}, float[2] bv = {4.0, 0.25}> {
  Y0 = BatchNormalization<epsilon=0.0>(X, bs, bb, bm, bv) Y1 = BatchNormalization<epsilon=0.0>(Z, bs, bb, bm, bv) })")
SX_TEST(normalizationRewritten) {
  int o = optLevel();
  Ten<F> X({2, 2}), Z({1, 2, 2, 1}), Y0(X.s), Y1(Z.s);
  X.range("x", -100, 100); Z.range("z", -100, 100);
  FOR(X) Y0[i] = i % 2 ? (X[i] + 2) * 2 * -1 + 4 : (X[i] - 3) * 0.5f * 2 + 1;
  FOR(Z) Y1[i] = i / 2 ? (Z[i] + 2) * 2 * -1 + 4 : (Z[i] - 3) * 0.5f * 2 + 1;
  Call c = run(bnormR, o, X, Z);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("rewritten batch normalization");
}
MODEL(clips, 13, R"(g (int32[3] X, float[3] Z) => (int32[3] Y0, int32[3] Y1, int32[3] Y2, float[3] Y3, int32[3] Y4) <int32 a = {-5}, int32 b = {7}, int32 c = {-2}, int32 d = {9}, int32 e = {10}, float m = {-1.5}, float M = {2.5}, float n = {0.5}> {
  C0 = Clip(X, a, b) Y0 = Clip(C0, c, d) C1 = Clip(X, a) Y1 = Clip(C1, , b) C2 = Clip(X, , b) Y2 = Clip(C2, c) C3 = Clip(Z, m, M) Y3 = Clip(C3, n) C4 = Clip(X, d, e) Y4 = Clip(C4, a, b) })")
SX_TEST(clipChains) {
  int o = optLevel();
  Ten<I> X({3}); Ten<F> Z({3});
  X.any("x"); Z.any("z"); FOR(Z) sx_assume(Z[i] == Z[i]);
  auto cl = [](I lo, I hi) { return [lo, hi](I x) { x = x < lo ? lo : x; return x > hi ? hi : x; }; };
  Call c = run(clips, o, X, Z);
  expect(c, 0, map(map(X, cl(-5, 7)), cl(-2, 9))); expect(c, 1, map(X, cl(-5, 7))); expect(c, 2, map(X, cl(-2, 7)));
  expect(c, 3, map(Z, [](F x) { x = x < -1.5f ? -1.5f : x; x = x > 2.5f ? 2.5f : x; return x < 0.5f ? 0.5f : x; }));
  expect(c, 4, map(map(X, cl(9, 10)), cl(-5, 7)));
  done(c);
  sx_reach("chains of clips");
}
MODEL(clipD, 13, R"(g (int32[3] X) => (int32[3] Y) <int32 a = {0}, int32 b = {1}, int32 c = {2}, int32 d = {3}> { C0 = Clip(X, a, b) Y = Clip(C0, c, d) })")
SX_TEST(clipDisjoint) {
  int o = optLevel();
  Ten<I> X({3}), Y({3});
  X.any("x"); FOR(Y) Y[i] = 2;
  sx_context("clip to a range below the range of the next clip");
  Call c = run(clipD, o, X);
  expect(c, 0, Y);
  done(c);
}
// Constants gathered by reassociation; folding of everything that is constant.
MODEL(consts, 13, R"(g (int32[2,2] X, int32[2,2] Z) => (int32[2,2] Y0, int32[2,2] Y1, int32[2,2] Y2, int32[2,2] Y3, int32[2,2] Y4, int32[2,2] Y5, int32[2,2] Y6, int32[2,2] Y7)
  <int32 p = {5}, int32[2] q = {-3, 8}, int32[2,2] r = {1, 2, 3, 4}, int32[2,1] s = {7, -7}> {
  A0 = Add(X, p) Y0 = Add(A0, q) A1 = Add(p, X) B1 = Add(Z, q) Y1 = Add(A1, B1) A2 = Mul(q, X) Y2 = Mul(A2, s) S3 = Sub(X, r) Y3 = Sub(S3, p) S4 = Sub(p, X) Y4 = Sub(q, S4)
  A5 = Mul(X, p) B5 = Mul(Z, q) Y5 = Mul(A5, B5) N = Neg(X) Y6 = Add(N, r) D = Add(r, s) E = Mul(D, q) G = Sub(E, p) H = Transpose(G) Y7 = Add(X, H) })")
SX_TEST(constantsGathered) {
  int o = optLevel();
  Ten<I> X({2, 2}), Z({2, 2}), Y[8]; for (int k = 0; k < 8; ++k) Y[k] = X;
  X.any("x"); Z.any("z");
  const U q[2] = {(U)-3, 8}, s[2] = {7, (U)-7};
  for (int h = 0; h < 2; ++h) for (int v = 0; v < 2; ++v) {
    int i = h * 2 + v; U x = X[i], z = Z[i], r = i + 1, t = v * 2 + h + 1; // t: element of the transposed r
    Y[0][i] = (I)(x + 5 + q[v]); Y[1][i] = (I)(x + 5 + z + q[v]); Y[2][i] = (I)(q[v] * x * s[h]); Y[3][i] = (I)(x - r - 5); Y[4][i] = (I)(q[v] - (5 - x));
    Y[5][i] = (I)(x * 5 * (z * q[v])); Y[6][i] = (I)(r - x); Y[7][i] = (I)(x + (t + s[v]) * q[h] - 5);
  }
  Call c = run(consts, o, X, Z);
  for (int k = 0; k < 8; ++k) expect(c, k, Y[k]);
  done(c);
  sx_reach("constants gathered");
}
MODEL(shapesC, 13, R"(g (int32[A,3] X, int32[B,3] Z) => (int32[C,3] Y0, int64[2] Y1, int64 Y2, int32[A,3] Y3, int32[D,E,3] Y4, int64[1] Y5)
  <int64[1] zero = {0}, int64[1] one = {1}, int64[1] three = {3}, int64[2] minus = {-1, -1}, int64[1] two = {2}> {
  Y0 = Concat<axis=0>(X, Z) S0 = Shape(Y0) Y1 = Add(S0, S0) Y2 = Size(X) D0 = Gather<axis=0>(S0, zero) SX = Shape(X) DX = Gather<axis=0>(SX, zero) DD = Sub(D0, DX) BE = Add(DX, DD)
  Y3 = Slice(Y0, zero, DX, zero) T = Concat<axis=0>(one, BE, three) Y4 = Reshape(Y0, T) EQ = Equal(T, T) W = Mul(DX, two) Y5 = Div(W, two) })")
SX_TEST(shapeArithmetic) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2), B = sx_pick("B", A ? 0 : 1, 2), n = A + B; // a size of 0 in the shape of Reshape stands for the input's size
  Ten<I> X({A, 3}), Z({B, 3}), Y0({n, 3}), Y3({A, 3}); Ten<L> Y1({2}), Y2{Shape()}, Y5({1});
  X.any("x"); Z.any("z");
  FOR(Y0) Y0[i] = i < X.n ? X[i] : Z[i - X.n];
  FOR(Y3) Y3[i] = X[i];
  Y1.set({2 * n, 6}); Y2[0] = X.n; Y5[0] = A;
  Call c = run(shapesC, o, X, Z);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, Y3); expect(c, 4, reshape(Y0, {1, n, 3})); expect(c, 5, Y5);
  done(c);
  sx_reach("shape arithmetic");
}
MODEL(whereE, 13, R"(g (int32[A,2] X) => (int32[B,A,2] Y) <int64[3] minus = {-1, -1, -1}, int64[3] ones = {1, 1, 1}, int64[1] zero = {0}, int64[1] one = {1}> {
  S = Shape(X) A0 = Gather<axis=0>(S, zero) A1 = Gather<axis=0>(S, one) T = Concat<axis=0>(one, A0, A1) E = Equal(T, minus) W = Where(E, ones, T) Y = Expand(X, W) })")
SX_TEST(expandIdiom) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 0, 3), 2});
  X.any("x");
  Call c = run(whereE, o, X);
  expect(c, 0, reshape(X, {1, X.s.d[0], 2}));
  done(c);
  sx_reach("expansion to a computed shape");
}
// Reductions in terms of others, old forms of operators in terms of new ones.
MODELT(reduceR, 13, R"(g ($T[2,A,2] X) => ($T[2,1,2] Y0, $T[2,2] Y1, $T[A] Y2) { Y0 = ReduceL1<axes=[1]>(X) Y1 = ReduceSumSquare<axes=[-2], keepdims=0>(X) Y2 = ReduceSumSquare<axes=[0,2], keepdims=0>(X) })", "int32 int64")
template <class T> static void tReduce() {
  typedef typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type V;
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 3);
  Ten<T> X({2, A, 2}), Y0({2, 1, 2}), Y1({2, 2}), Y2({A});
  X.any("x");
  FOR(Y0) Y0[i] = Y1[i] = 0; FOR(Y2) Y2[i] = 0;
  FOR(X) { Ix x = unlin(X.s, i); V v = X[i]; int64_t k = x[0] * 2 + x[2]; Y0[k] = (T)((V)Y0[k] + (X[i] < 0 ? 0 - v : v)); Y1[k] = (T)((V)Y1[k] + v * v); Y2[x[1]] = (T)((V)Y2[x[1]] + v * v); }
  Call c = run(reduceR<T>(), o, X);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  sx_reach("reductions of absolute values and squares");
}
SX_TEST(reduce32) { tReduce<int32_t>(); }
SX_TEST(reduce64) { tReduce<int64_t>(); }
MODEL(old11, 11, R"(g (int32[2,A] X, float[2,3] Z) => (int32[B,C] Y0, int32[1,A] Y1, int32[1,A] Y2, int32[2,A] Y3, float[2,3] Y4, int32[2] Y5) <int64[4] p = {1, 0, 0, 2}, int32 v = {4}, float lo = {-1.0}, float hi = {1.0}> {
  Y0 = Pad(X, p, v) Y1, Y2 = Split<axis=0, split=[1,1]>(X) I = Identity(X) Y3 = Sum(I) Y4 = Clip(Z, lo, hi) Y5 = ReduceSum<axes=[1], keepdims=0>(X) })")
SX_TEST(oldOperators) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2);
  Ten<I> X({2, A}), Y0({3, A + 2}), Y1({1, A}), Y2({1, A}), Y5({2}); Ten<F> Z({2, 3});
  X.any("x"); Z.any("z"); FOR(Z) sx_assume(Z[i] == Z[i]);
  FOR(Y0) { Ix y = unlin(Y0.s, i); Y0[i] = y[0] >= 1 && y[1] < A ? X[(y[0] - 1) * A + y[1]] : 4; }
  FOR(Y1) { Y1[i] = X[i]; Y2[i] = X[A + i]; }
  FOR(Y5) { U s = 0; for (int64_t k = 0; k < A; ++k) s += (U)X[i * A + k]; Y5[i] = (I)s; }
  Call c = run(old11, o, X, Z);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, X);
  expect(c, 4, map(Z, [](F x) { x = x < -1 ? -1 : x; return x > 1 ? 1 : x; })); expect(c, 5, Y5);
  done(c);
  sx_reach("old operators");
}
MODEL(variadic, 13, R"(g (float[2,1] X, float[1,2] Z, float[2,2] W) => (float[2,1] Y0, float[2,2] Y1, float[2,2] Y2, float[2,2] Y3) { Y0 = Sum(X) Y1 = Sum(X, Z) Y2 = Sum(X, Z, W) Y3 = Sum(W, Z, X, W) })")
SX_TEST(sums) {
  int o = optLevel();
  Ten<F> X({2, 1}), Z({1, 2}), W({2, 2});
  X.range("x", -500, 500); Z.range("z", -500, 500); W.range("w", -500, 500);
  Call c = run(variadic, o, X, Z, W);
  expect(c, 0, X); expect(c, 1, plus(X, Z)); expect(c, 2, plus(plus(X, Z), W)); expect(c, 3, plus(plus(plus(W, Z), X), W));
  done(c);
  sx_reach("sums of several tensors");
}
MODEL(slices, 13, R"(g (int32[2,4] X, int32[2,1] Z) => (int32[2,4] Y0, int32[2,4] Y1, int32[2,2] Y2, int32[2,4] Y3, int32[2,2] Y4, int32[2,2] Y5, int32[2,9] Y6)
  <int64[1] a0 = {0}, int64[1] a1 = {1}, int64[1] two = {2}, int64[1] four = {4}, int64[1] three = {3}, int64[2] sh = {2, 4}> {
  S0 = Slice(X, a0, two, a1) S1 = Slice(X, two, four, a1) Y0 = Concat<axis=1>(S0, S1) Y1 = Concat<axis=1>(S1, S0) E = Expand(Z, sh) Y2 = Slice(E, a1, three, a1)
  R = Relu(X) P, Q = Split<axis=1>(R) Y3 = Concat<axis=1>(Q, P) P2, Q2 = Split<axis=1>(X) Y4 = Relu(P2) Y5 = Relu(Q2) C0 = Concat<axis=1>(X, Z) Y6 = Concat<axis=1>(C0, X) })")
SX_TEST(slicesAndConcats) {
  int o = optLevel();
  Ten<I> X({2, 4}), Z({2, 1}), Y1({2, 4}), Y2({2, 2}), Y3({2, 4}), Y4({2, 2}), Y5({2, 2}), Y6({2, 9});
  X.any("x"); Z.any("z");
  for (int h = 0; h < 2; ++h) {
    for (int v = 0; v < 4; ++v) { Y1[h * 4 + v] = X[h * 4 + (v + 2) % 4]; Y3[h * 4 + v] = relu(X[h * 4 + (v + 2) % 4]); }
    for (int v = 0; v < 2; ++v) { Y2[h * 2 + v] = Z[h]; Y4[h * 2 + v] = relu(X[h * 4 + v]); Y5[h * 2 + v] = relu(X[h * 4 + 2 + v]); }
    for (int v = 0; v < 9; ++v) Y6[h * 9 + v] = v < 4 ? X[h * 4 + v] : v == 4 ? Z[h] : X[h * 4 + v - 5];
  }
  Call c = run(slices, o, X, Z);
  expect(c, 0, X); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, Y3); expect(c, 4, Y4); expect(c, 5, Y5); expect(c, 6, Y6);
  done(c);
  sx_reach("slices and concatenations");
}
MODEL(casts, 13, R"(g (int32[2] X, int32[2] Z, int8[2] A, float[1,1,2,2] P) => (bool[2] Y0, int32[2] Y1, int8[2] Y2, float[4] Y3, float[1,1,2,2] Y4, float[1,1,1,1] Y5) <int64[1] z = {0}, int64[1] one = {1}> {
  CX = Cast<to=7>(X) CZ = Cast<to=7>(Z) Y0 = Less(CX, CZ) CI = Cast<to=6>(X) Y1 = Add(CI, Z) CA = Cast<to=6>(A) Y2 = Cast<to=3>(CA)
  FX = Cast<to=1>(A) FZ = Cast<to=1>(A) Y3 = Concat<axis=0>(FX, FZ) DR, MK = Dropout(P) Y4 = Identity(DR) RL = Relu(P) Y5 = MaxPool<kernel_shape=[2,2]>(RL) })")
SX_TEST(castsAndOthers) {
  int o = optLevel();
  Ten<I> X({2}), Z({2}); Ten<int8_t> A({2}); Ten<F> P({1, 1, 2, 2}), Y3({4}), Y5({1, 1, 1, 1}); Ten<bool> Y0({2});
  X.any("x"); Z.any("z"); A.any("a"); P.range("p", -3, 3);
  FOR(X) { Y0[i] = X[i] < Z[i]; Y3[i] = Y3[i + 2] = (F)A[i]; }
  Y5[0] = 0; FOR(P) Y5[0] = P[i] > Y5[0] ? P[i] : Y5[0];
  Ten<I> Y1(X.s); FOR(X) Y1[i] = (I)((U)X[i] + (U)Z[i]);
  Call c = run(casts, o, X, Z, A, P);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, A); expect(c, 3, Y3); expect(c, 4, P); expect(c, 5, Y5);
  done(c);
  sx_reach("casts");
}
MODEL(lessI, 13, R"(g (int32[2] X, int32[2] Z) => (bool[2] Y) { CX = Cast<to=1>(X) CZ = Cast<to=1>(Z) Y = Less(CX, CZ) })")
SX_TEST(lessOfRounded) {
  int o = optLevel();
  Ten<I> X({2}), Z({2}); Ten<bool> Y({2});
  X.any("x"); Z.any("z");
  bool big = false;
  FOR(X) { Y[i] = (F)X[i] < (F)Z[i]; big = big || X[i] > 1 << 24 || X[i] < -(1 << 24) || Z[i] > 1 << 24 || Z[i] < -(1 << 24); }
  if (big) sx_context("comparison of integers rounded to float");
  Call c = run(lessI, o, X, Z);
  expect(c, 0, Y);
  done(c);
  sx_reach("comparison of converted numbers");
}
MODEL(lessF, 13, R"(g (float[1] X, float[1] Z) => (bool[1] Y) { CX = Cast<to=6>(X) CZ = Cast<to=6>(Z) Y = Less(CX, CZ) })")
SX_TEST(lessOfTruncated) {
  int o = optLevel();
  Ten<F> X({1}), Z({1}); Ten<bool> Y({1});
  L x = sx_range("x", -40, 40), z = sx_range("z", -40, 40);
  X[0] = (F)x * 0.25f; Z[0] = (F)z * 0.25f; Y[0] = x / 4 < z / 4;
  if (x % 4 || z % 4) sx_context("comparison of numbers truncated to integers");
  Call c = run(lessF, o, X, Z);
  expect(c, 0, Y);
  done(c);
  sx_reach("comparison of truncated numbers");
}
MODEL(blocks, 13, R"(g (int32[1,4,2,2] X) => (int32[1,4,2,2] Y0, int32[1,4,2,2] Y1) { D = DepthToSpace<blocksize=2>(X) Y0 = SpaceToDepth<blocksize=2>(D) E = DepthToSpace<blocksize=2, mode="CRD">(X) Y1 = SpaceToDepth<blocksize=2>(E) })")
SX_TEST(blockChains) {
  int o = optLevel();
  Ten<I> X({1, 4, 2, 2});
  X.any("x");
  Call c = run(blocks, o, X);
  expect(c, 0, X); expect(c, 1, X); // with one channel both modes agree
  done(c);
  sx_reach("blocks");
}
// Recurrence in the other layout and with explicit lengths.
MODEL(rnnL, 14, R"(g (float[1,2,2] X, float[1,2,2] W, float[1,2,2] R) => (float[1,2,1,2] Y0, float[1,1,2] Y1, float[2,1,1,2] Y2) <int32[1] len = {2}> {
  Y0, Y1 = RNN<hidden_size=2, layout=1, activations=["Relu"]>(X, W, R) T = Transpose<perm=[1,0,2]>(X) Y2 = RNN<hidden_size=2, activations=["Relu"]>(T, W, R, , len) })")
SX_TEST(recurrenceLayout) {
  int o = optLevel();
  Ten<F> X({1, 2, 2}), W({1, 2, 2}), R({1, 2, 2}), Y0({1, 2, 1, 2}), Y1({1, 1, 2});
  weights(X); weights(W); weights(R, 3); if (sx_pick("symbolic", 0, 1)) sparse(X, "x", -20, 20); else sparse(W, "w", -3, 3);
  F h[2] = {0, 0};
  for (int t = 0; t < 2; ++t) {
    F n[2];
    for (int j = 0; j < 2; ++j) { F a = 0; for (int k = 0; k < 2; ++k) a = a + X[t * 2 + k] * W[j * 2 + k] + h[k] * R[j * 2 + k]; n[j] = a > 0 ? a : 0; }
    for (int j = 0; j < 2; ++j) Y0[t * 2 + j] = h[j] = n[j];
  }
  for (int j = 0; j < 2; ++j) Y1[j] = h[j];
  Call c = run(rnnL, o, X, W, R);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, reshape(Y0, {2, 1, 1, 2}));
  done(c);
  sx_reach("recurrence in both layouts");
}
