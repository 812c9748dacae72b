// C25: windows (convolution, pooling, resizing), quantization, recurrence and control flow in compiled models.
#include "model.h"
#include "models_c25.h"
typedef int32_t I;
typedef float F;
#define FOR(Y) for (int64_t i = 0; i < (Y).n; ++i)
static inline int64_t coef(int64_t i) { return (i * 7 + 3) % 11 - 5; }
static inline int64_t tiny(int64_t i) { return (i * 5 + 2) % 7 % 3 - 1; }
template <class T> static void weights(Ten<T> &W, int64_t from = 0) { FOR(W) W[i] = (T)coef(i + from); }
// Concrete values with one or two symbolic elements, at up to 7 places in turn.
template <class T> static void sparse(Ten<T> &X, const char *nm, int64_t lo, int64_t hi, bool two = true) {
  int64_t n = X.n; if (!n) return;
  int64_t p = sx_pick("position", 0, n < 7 ? n - 1 : 6); p = n < 7 ? p : p * (n - 1) / 6;
  X[p] = (T)sx_range(nm, lo, hi); if (two && n > 1) X[(p + n / 2) % n] = (T)sx_range(nm, lo, hi);
}
struct Win { int64_t k[2], p[4], s[2], d[2]; };
static int64_t outDim(const Win &w, int a, int64_t in, bool ceil = false) { int64_t e = in + w.p[a] + w.p[a + 2] - (w.d[a] * (w.k[a] - 1) + 1); return (ceil ? (e + w.s[a] - 1) / w.s[a] : e / w.s[a]) + 1; }
// Convolution of X [N,C,H,W] by K [M,C/g,kh,kw].
template <class T> static Ten<T> conv(const Ten<T> &X, const Ten<T> &K, const Ten<T> *B, Win w, int64_t g) {
  w.k[0] = K.s.d[2]; w.k[1] = K.s.d[3];
  int64_t M = K.s.d[0], CG = K.s.d[1];
  Ten<T> Y({X.s.d[0], M, outDim(w, 0, X.s.d[2]), outDim(w, 1, X.s.d[3])});
  FOR(Y) {
    Ix y = unlin(Y.s, i); T a = B ? (*B)[y[1]] : (T)0;
    for (int64_t c = 0; c < CG; ++c) for (int64_t h = 0; h < w.k[0]; ++h) for (int64_t v = 0; v < w.k[1]; ++v) {
      int64_t r = y[2] * w.s[0] - w.p[0] + h * w.d[0], q = y[3] * w.s[1] - w.p[1] + v * w.d[1];
      if (r < 0 || q < 0 || r >= X.s.d[2] || q >= X.s.d[3]) continue;
      a = a + X.at({y[0], y[1] / (M / g) * CG + c, r, q}) * K.at({y[1], c, h, v});
    }
    Y[i] = a;
  }
  return Y;
}
template <class T> static void operands(Ten<T> &X, Ten<T> &W, Ten<T> &B) {
  weights(X, 2); weights(W); weights(B, 6);
  switch (sx_pick("symbolic operand", 0, 2)) { case 0: sparse(X, "x", -40, 40); break; case 1: sparse(W, "w", -40, 40); break; default: B[B.n - 1] = (T)sx_range("b", -1000, 1000); }
}
MODEL(convs, 13, R"(g (float[N,2,3,A] X, float[2,2,2,2] W, float[2] C) => (float[N,2,P0,Q0] Y0, float[N,2,P1,Q1] Y1, float[N,2,P2,Q2] Y2, float[N,2,P3,Q3] Y3)
  { Y0 = Conv(X, W) Y1 = Conv<pads=[1,0,1,2]>(X, W, C) Y2 = Conv<strides=[2,1], kernel_shape=[2,2]>(X, W, C) Y3 = Conv<dilations=[2,2], pads=[1,1,1,1], strides=[1,2]>(X, W) })")
MODEL(convsD, 13, R"(g (float[N,2,3,A] X, float[2,2,2,2] W, float[2] C) => (float[N,2,P0,Q0] Y0, float[N,2,P1,Q1] Y1, float[N,2,P2,Q2] Y2, float[N,2,P3,Q3] Y3)
  { Y0 = Conv(X, W) Y1 = Conv<pads=[1,0,1,2]>(X, W, C) Y2 = Conv<strides=[2,1], kernel_shape=[2,2]>(X, W, C) Y3 = Conv<dilations=[2,2], pads=[1,1,1,1], strides=[1,2]>(X, W) })", "--disable-conv-to-matmul")
static void convolutionOf(const Model &m) {
  int o = optLevel();
  Ten<F> X({sx_pick("N", 1, 2), 2, 3, sx_pick("A", 3, 4)}), W({2, 2, 2, 2}), B({2});
  operands(X, W, B);
  Call c = run(m, o, X, W, B);
  expect(c, 0, conv(X, W, (Ten<F> *)0, {{}, {0, 0, 0, 0}, {1, 1}, {1, 1}}, 1));
  expect(c, 1, conv(X, W, &B, {{}, {1, 0, 1, 2}, {1, 1}, {1, 1}}, 1));
  expect(c, 2, conv(X, W, &B, {{}, {0, 0, 0, 0}, {2, 1}, {1, 1}}, 1));
  expect(c, 3, conv(X, W, (Ten<F> *)0, {{}, {1, 1, 1, 1}, {1, 2}, {2, 2}}, 1));
  done(c);
}
SX_TEST(convolution) { convolutionOf(convs); sx_reach("convolution"); }
SX_TEST(convolutionDirect) { convolutionOf(convsD); sx_reach("direct convolution"); }
MODEL(convG, 13, R"(g (float[1,4,3,3] X, float[4,2,2,2] W, float[4,1,2,2] V, float[4] C) => (float[1,4,2,2] Y0, float[1,4,3,2] Y1, float[1,4,3,2] Y2) { Y0 = Conv<group=2>(X, W, C) Y1 = Conv<group=4, pads=[1,0,0,0]>(X, V, C) Y2 = Conv<group=2, dilations=[2,2], pads=[1,0,1,1]>(X, W) })")
SX_TEST(convolutionGroups) {
  int o = optLevel();
  Ten<F> X({1, 4, 3, 3}), W({4, 2, 2, 2}), V({4, 1, 2, 2}), B({4});
  operands(X, W, B); weights(V, 3); V[13] = (F)sx_range("v", -9, 9);
  Call c = run(convG, o, X, W, V, B);
  expect(c, 0, conv(X, W, &B, {{}, {0, 0, 0, 0}, {1, 1}, {1, 1}}, 2));
  expect(c, 1, conv(X, V, &B, {{}, {1, 0, 0, 0}, {1, 1}, {1, 1}}, 4));
  expect(c, 2, conv(X, W, (Ten<F> *)0, {{}, {1, 0, 1, 1}, {1, 1}, {2, 2}}, 2));
  done(c);
  sx_reach("grouped convolution");
}
MODEL(convA, 13, R"(g (float[1,1,4,5] X, float[1,1,2,3] W) => (float[1,1,4,5] Y0, float[1,1,4,5] Y1, float[1,1,3,3] Y2, float[1,1,2,3] Y3, float[1,1,2,3] Y4)
  { Y0 = Conv<auto_pad="SAME_UPPER">(X, W) Y1 = Conv<auto_pad="SAME_LOWER">(X, W) Y2 = Conv<auto_pad="VALID">(X, W) Y3 = Conv<auto_pad="SAME_UPPER", strides=[2,2]>(X, W) Y4 = Conv<auto_pad="SAME_LOWER", strides=[2,2]>(X, W) })")
SX_TEST(convolutionAutoPad) {
  int o = optLevel();
  Ten<F> X({1, 1, 4, 5}), W({1, 1, 2, 3}), B({1});
  operands(X, W, B);
  Call c = run(convA, o, X, W);
  Ten<F> *n = 0;
  expect(c, 0, conv(X, W, n, {{}, {0, 1, 1, 1}, {1, 1}, {1, 1}}, 1)); expect(c, 1, conv(X, W, n, {{}, {1, 1, 0, 1}, {1, 1}, {1, 1}}, 1));
  expect(c, 2, conv(X, W, n, {{}, {0, 0, 0, 0}, {1, 1}, {1, 1}}, 1));
  expect(c, 3, conv(X, W, n, {{}, {0, 1, 0, 1}, {2, 2}, {1, 1}}, 1)); expect(c, 4, conv(X, W, n, {{}, {0, 1, 0, 1}, {2, 2}, {1, 1}}, 1));
  done(c);
  sx_reach("automatic padding");
}
MODEL(conv1d, 13, R"(g (float[N,2,A] X, float[2,2,3] W, float[2] C) => (float[N,2,P] Y0, float[N,2,Q] Y1) { Y0 = Conv<pads=[2,1]>(X, W, C) Y1 = Conv<strides=[3], pads=[1,1]>(X, W, C) })")
MODEL(conv11, 13, R"(g (float[N,3,2,A] X, float[2,3,1,1] W, float[2] C) => (float[N,2,2,A] Y0, float[N,2,2,A] Y1) { Y0 = Conv(X, W) Y1 = Conv(X, W, C) })")
SX_TEST(convolution1d) {
  int o = optLevel();
  int64_t N = sx_pick("N", 1, 2), A = sx_pick("A", 1, 4);
  Ten<F> X({N, 2, A}), W({2, 2, 3}), B({2});
  operands(X, W, B);
  Ten<F> X2 = X, W2 = W; X2.s = {N, 2, 1, A}; W2.s = {2, 2, 1, 3};
  Ten<F> Y0 = conv(X2, W2, &B, {{}, {0, 2, 0, 1}, {1, 1}, {1, 1}}, 1), Y1 = conv(X2, W2, &B, {{}, {0, 1, 0, 1}, {1, 3}, {1, 1}}, 1);
  Y0.s = {N, 2, Y0.s.d[3]}; Y1.s = {N, 2, Y1.s.d[3]};
  Call c = run(conv1d, o, X, W, B);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("1-d convolution");
}
SX_TEST(convolution1x1) {
  int o = optLevel();
  Ten<F> X({sx_pick("N", 1, 2), 3, 2, sx_pick("A", 1, 2)}), W({2, 3, 1, 1}), B({2});
  operands(X, W, B);
  Call c = run(conv11, o, X, W, B);
  Win w{{}, {0, 0, 0, 0}, {1, 1}, {1, 1}};
  expect(c, 0, conv(X, W, (Ten<F> *)0, w, 1)); expect(c, 1, conv(X, W, &B, w, 1));
  done(c);
  sx_reach("1x1 convolution");
}
MODEL(convT, 13, R"(g (float[1,2,2,3] X, float[2,1,2,2] W, float[1] C) => (float[1,1,3,4] Y0, float[1,1,4,6] Y1, float[1,1,4,6] Y2, float[1,1,3,5] Y3)
  { Y0 = ConvTranspose(X, W, C) Y1 = ConvTranspose<strides=[2,2]>(X, W) Y2 = ConvTranspose<strides=[2,2], output_padding=[1,1], pads=[1,1,0,0]>(X, W, C) Y3 = ConvTranspose<dilations=[1,2]>(X, W) })")
SX_TEST(convolutionTranspose) {
  int o = optLevel();
  Ten<F> X({1, 2, 2, 3}), W({2, 1, 2, 2}), B({1});
  operands(X, W, B);
  struct { int64_t s[2], p[2], d[2], o[2]; bool b; } cfg[4] = {{{1, 1}, {0, 0}, {1, 1}, {3, 4}, true}, {{2, 2}, {0, 0}, {1, 1}, {4, 6}, false}, {{2, 2}, {1, 1}, {1, 1}, {4, 6}, true}, {{1, 1}, {0, 0}, {1, 2}, {3, 5}, false}};
  Call c = run(convT, o, X, W, B);
  for (int k = 0; k < 4; ++k) {
    Ten<F> Y({1, 1, cfg[k].o[0], cfg[k].o[1]});
    FOR(Y) Y[i] = cfg[k].b ? B[0] : 0;
    FOR(X) { Ix x = unlin(X.s, i); for (int64_t h = 0; h < 2; ++h) for (int64_t v = 0; v < 2; ++v) {
      int64_t r = x[2] * cfg[k].s[0] + h * cfg[k].d[0] - cfg[k].p[0], q = x[3] * cfg[k].s[1] + v * cfg[k].d[1] - cfg[k].p[1];
      if (r >= 0 && q >= 0 && r < Y.s.d[2] && q < Y.s.d[3]) Y.at({0, 0, r, q}) = Y.at({0, 0, r, q}) + X[i] * W.at({x[1], 0, h, v});
    } }
    expect(c, k, Y);
  }
  done(c);
  sx_reach("transposed convolution");
}
// Pooling.
template <class T> static Ten<T> maxPool(const Ten<T> &X, Win w, bool ceil) {
  Ten<T> Y({X.s.d[0], X.s.d[1], outDim(w, 0, X.s.d[2], ceil), outDim(w, 1, X.s.d[3], ceil)});
  FOR(Y) {
    Ix y = unlin(Y.s, i); bool any = false;
    for (int64_t h = 0; h < w.k[0]; ++h) for (int64_t v = 0; v < w.k[1]; ++v) {
      int64_t r = y[2] * w.s[0] - w.p[0] + h * w.d[0], q = y[3] * w.s[1] - w.p[1] + v * w.d[1];
      if (r < 0 || q < 0 || r >= X.s.d[2] || q >= X.s.d[3]) continue;
      T x = X.at({y[0], y[1], r, q}); Y[i] = any && !(x > Y[i]) ? Y[i] : x; any = true;
    }
  }
  return Y;
}
MODELT(maxP, 13, R"(g ($T[N,1,A,3] X) => ($T[N,1,P0,Q0] Y0, $T[N,1,P1,Q1] Y1, $T[N,1,P2,Q2] Y2, $T[N,1,P3,Q3] Y3)
  { Y0 = MaxPool<kernel_shape=[2,2]>(X) Y1 = MaxPool<kernel_shape=[2,2], pads=[1,1,1,1], strides=[2,2]>(X) Y2 = MaxPool<kernel_shape=[3,2], pads=[1,0,1,0], strides=[2,1], ceil_mode=1>(X) Y3 = MaxPool<kernel_shape=[2,1], dilations=[2,1]>(X) })", "int8 float")
template <class T> static void tMaxPool() {
  int o = optLevel();
  Ten<T> X({sx_pick("N", 1, 2), 1, sx_pick("A", 3, 4), 3});
  weights(X);
  int64_t from = sx_pick("from", 0, 2) * (X.n - 3) / 2;
  for (int64_t i = from; i < from + 3; ++i) X[i] = (T)sx_range("x", -128, 127);
  Call c = run(maxP<T>(), o, X);
  expect(c, 0, maxPool(X, {{2, 2}, {0, 0, 0, 0}, {1, 1}, {1, 1}}, false)); expect(c, 1, maxPool(X, {{2, 2}, {1, 1, 1, 1}, {2, 2}, {1, 1}}, false));
  expect(c, 2, maxPool(X, {{3, 2}, {1, 0, 1, 0}, {2, 1}, {1, 1}}, true)); expect(c, 3, maxPool(X, {{2, 1}, {0, 0, 0, 0}, {1, 1}, {2, 1}}, false));
  done(c);
  sx_reach("max pooling");
}
SX_TEST(maxPool8) { tMaxPool<int8_t>(); }
SX_TEST(maxPoolf) { tMaxPool<float>(); }
MODEL(avgP, 13, R"(g (float[1,1,A,3] X) => (float[1,1,P0,Q0] Y0, float[1,1,P1,Q1] Y1, float[1,1,P2,Q2] Y2, float[1,1,1,1] Y3)
  { Y0 = AveragePool<kernel_shape=[2,2]>(X) Y1 = AveragePool<kernel_shape=[2,2], pads=[1,1,1,1], strides=[2,2]>(X) Y2 = AveragePool<kernel_shape=[2,2], pads=[1,0,0,1], count_include_pad=1>(X) Y3 = GlobalMaxPool(X) })")
SX_TEST(averagePool) {
  int o = optLevel();
  Ten<F> X({1, 1, sx_pick("A", 2, 4), 3});
  weights(X); sparse(X, "x", -100, 100);
  Call c = run(avgP, o, X);
  Win w[3] = {{{2, 2}, {0, 0, 0, 0}, {1, 1}, {1, 1}}, {{2, 2}, {1, 1, 1, 1}, {2, 2}, {1, 1}}, {{2, 2}, {1, 0, 0, 1}, {1, 1}, {1, 1}}};
  for (int k = 0; k < 3; ++k) {
    Ten<F> Y({1, 1, outDim(w[k], 0, X.s.d[2]), outDim(w[k], 1, X.s.d[3])});
    FOR(Y) {
      Ix y = unlin(Y.s, i); F a = 0; int64_t n = 0;
      for (int64_t h = 0; h < 2; ++h) for (int64_t v = 0; v < 2; ++v) {
        int64_t r = y[2] * w[k].s[0] - w[k].p[0] + h, q = y[3] * w[k].s[1] - w[k].p[1] + v;
        if (r < 0 || q < 0 || r >= X.s.d[2] || q >= X.s.d[3]) continue;
        a = a + X.at({0, 0, r, q}); ++n;
      }
      Y[i] = a / (F)(k == 2 ? 4 : n);
    }
    expect(c, k, Y);
  }
  Ten<F> G({1, 1, 1, 1}); G[0] = X[0]; FOR(X) G[0] = X[i] > G[0] ? X[i] : G[0];
  expect(c, 3, G);
  done(c);
  sx_reach("average pooling");
}
MODEL(bnorm, 15, R"(g (float[N,2,A] X, float[2] S, float[2] B, float[2] M, float[2] V) => (float[N,2,A] Y) { Y = BatchNormalization<epsilon=0.0>(X, S, B, M, V) })")
SX_TEST(batchNormalization) {
  int o = optLevel();
  Ten<F> X({sx_pick("N", 1, 2), 2, sx_pick("A", 1, 2)}), S({2}), B({2}), M({2}), V({2});
  weights(X); weights(S); weights(B, 3); weights(M, 5); V[0] = 4; V[1] = 0.0625f;
  int w = sx_pick("symbolic", 0, 3); if (w == 0) sparse(X, "x", -100, 100); else sparse(w == 1 ? S : w == 2 ? B : M, "p", -100, 100);
  Ten<F> Y(X.s);
  FOR(Y) { int64_t ch = unlin(Y.s, i)[1]; Y[i] = (X[i] - M[ch]) * (ch ? 4.0f : 0.5f) * S[ch] + B[ch]; }
  Call c = run(bnorm, o, X, S, B, M, V);
  expect(c, 0, Y);
  done(c);
  sx_reach("batch normalization");
}
// Quantization. Values are multiples of 1/2, so that ties occur.
MODELT(quant, 13, R"(g (float[A] X, float S, $T Z) => ($T[A] Y0, float[A] Y1) { Y0 = QuantizeLinear(X, S, Z) Y1 = DequantizeLinear(Y0, S, Z) })", "uint8 int8")
static int64_t halfEven(int64_t n) { int64_t q = n >> 1; return n & 1 ? q + (q & 1) : q; } // n / 2 rounded
template <class T> static void tQuant() {
  int o = optLevel();
  int64_t lo = (T)-1 < 0 ? -128 : 0, hi = lo + 255, A = sx_pick("A", 0, 9), zp = sx_pick("zero point", 0, 1) ? lo + 7 : lo + 200;
  A = A < 3 ? A : 9;
  Ten<F> X({A}), S{Shape()}, Y1({A}); Ten<T> Z{Shape()}, Y0({A});
  S[0] = sx_pick("scale", 0, 1) ? 4.0f : 0.25f; Z[0] = (T)zp;
  for (int64_t i = 0; i < A; ++i) {
    int64_t n = sx_range("n", -700, 700), q = halfEven(n) + zp;
    X[i] = (F)n * 0.5f * S[0]; q = q < lo ? lo : q > hi ? hi : q; Y0[i] = (T)q; Y1[i] = (F)(q - zp) * S[0];
  }
  Call c = run(quant<T>(), o, X, S, Z);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("quantization");
}
SX_TEST(quantizeU) { tQuant<uint8_t>(); }
SX_TEST(quantizeS) { tQuant<int8_t>(); }
MODEL(dynQuant, 13, R"(g (float[A] X) => (uint8[A] Y, float S, uint8 Z) { Y, S, Z = DynamicQuantizeLinear(X) })")
SX_TEST(dynamicQuantize) {
  int o = optLevel();
  int64_t lo = sx_pick("lo", 0, 2) * 51 - 51, hi = lo + 255, A = sx_pick("A", 0, 1) ? 3 : 9, at = sx_pick("at", 0, 2);
  if (lo > 0) { lo = 0; hi = 255; }
  Ten<F> X({A}), S{Shape()}; Ten<uint8_t> Y({A}), Z{Shape()};
  FOR(X) X[i] = 3;
  X[at] = (F)hi; X[(at + 1) % A] = (F)lo;
  int64_t n = sx_range("n", 2 * lo + 1, 2 * hi - 1); X[(at + 2) % A] = (F)n * 0.5f;
  FOR(Y) Y[i] = (uint8_t)(3 - lo);
  Y[at] = 255; Y[(at + 1) % A] = 0; Y[(at + 2) % A] = (uint8_t)(halfEven(n) - lo > 255 ? 255 : halfEven(n) - lo);
  S[0] = 1; Z[0] = (uint8_t)-lo;
  Call c = run(dynQuant, o, X);
  expect(c, 0, Y); expect(c, 1, S); expect(c, 2, Z);
  done(c);
  sx_reach("dynamic quantization");
}
MODEL(qmm, 13, R"(g (uint8[A,2] X, float XS, uint8 XZ, uint8[2,2] W, float WS, uint8 WZ, float YS, uint8 YZ) => (uint8[A,2] Y) { Y = QLinearMatMul(X, XS, XZ, W, WS, WZ, YS, YZ) })")
SX_TEST(quantizedMatMul) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2);
  Ten<uint8_t> X({A, 2}), W({2, 2}), Y({A, 2}), XZ{Shape()}, WZ{Shape()}, YZ{Shape()}; Ten<F> XS{Shape()}, WS{Shape()}, YS{Shape()};
  FOR(X) X[i] = (uint8_t)(40 + 13 * i); FOR(W) W[i] = (uint8_t)(90 + 31 * i);
  int big = sx_pick("out of range", 0, 1), at = sx_pick("at", 0, A * 4 - 1); // which operand, which element
  (at < A * 2 ? X[at] : W[at - A * 2]) = sx_u8("byte");
  XZ[0] = 50; WZ[0] = 128; YZ[0] = 100; XS[0] = 0.5f; WS[0] = 0.25f; YS[0] = big ? 0.5f : 4;
  bool over = false; int sh = big ? 2 : 5;
  FOR(Y) {
    int64_t s = 0; for (int64_t k = 0; k < 2; ++k) s += ((int64_t)X[i / 2 * 2 + k] - 50) * ((int64_t)W[k * 2 + i % 2] - 128);
    int64_t q = s >> sh, r = s & ((1 << sh) - 1), half = 1 << (sh - 1); q += r > half || (r == half && (q & 1)); q += 100; over = over || q < 0 || q > 255; Y[i] = (uint8_t)(q < 0 ? 0 : q > 255 ? 255 : q);
  }
  if (o == 2) { sx_assume(!over); sx_context("QLinearMatMul over-computed by SIMD"); } else if (over) sx_context("QLinearMatMul result out of range");
  Call c = run(qmm, o, X, XS, XZ, W, WS, WZ, YS, YZ);
  expect(c, 0, Y);
  done(c);
  sx_reach("quantized product");
}
// Resizing by the nearest neighbour.
MODEL(resz, 13, R"(g (int32[1,1,2,A] X) => (int32[1,1,4,P0] Y0, int32[1,1,4,P1] Y1, int32[1,1,4,P2] Y2, int32[1,1,1,P3] Y3) <float[4] up = {1.0, 1.0, 2.0, 2.0}, float[4] down = {1.0, 1.0, 0.5, 0.5}>
  { Y0 = Resize<coordinate_transformation_mode="asymmetric", nearest_mode="floor">(X, , up) Y1 = Resize<coordinate_transformation_mode="half_pixel", nearest_mode="round_prefer_floor">(X, , up) Y2 = Resize<coordinate_transformation_mode="half_pixel", nearest_mode="ceil">(X, , up)
    Y3 = Resize<coordinate_transformation_mode="half_pixel", nearest_mode="round_prefer_ceil">(X, , down) })")
SX_TEST(resizeNearest) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 4);
  Ten<I> X({1, 1, 2, A});
  X.any("x");
  Call c = run(resz, o, X);
  for (int k = 0; k < 4; ++k) {
    double f = k == 3 ? 0.5 : 2; Ten<I> Y({1, 1, (int64_t)(2 * f), (int64_t)floor(A * f)});
    FOR(Y) {
      Ix y = unlin(Y.s, i); int64_t x[2];
      for (int a = 0; a < 2; ++a) {
        double v = k == 0 ? y[2 + a] / f : (y[2 + a] + 0.5) / f - 0.5, r = k == 0 ? floor(v) : k == 1 ? ceil(v - 0.5) : k == 2 ? ceil(v) : floor(v + 0.5);
        x[a] = r < 0 ? 0 : r > X.s.d[2 + a] - 1 ? X.s.d[2 + a] - 1 : (int64_t)r;
      }
      Y[i] = X.at({0, 0, x[0], x[1]});
    }
    expect(c, k, Y);
  }
  done(c);
  sx_reach("resize");
}
// Recurrence, with activations whose values are exact.
static F relu(F x) { return x > 0 ? x : 0; }
MODEL(rnn, 14, R"(g (float[2,1,2] X, float[2,2,2] W, float[2,2,2] R, float[2,4] B, float[2,1,2] H, float[1,2,2] W1, float[1,2,2] R1) => (float[2,2,1,2] Y0, float[2,1,2] Y1, float[2,1,1,2] Y2, float[1,1,2] Y3, float[2,1,1,2] Y4, float[1,1,2] Y5)
  { Y0, Y1 = RNN<hidden_size=2, direction="bidirectional", activations=["Relu","Relu"]>(X, W, R, B, , H) Y2, Y3 = RNN<hidden_size=2, activations=["Relu"]>(X, W1, R1) Y4, Y5 = RNN<hidden_size=2, direction="reverse", activations=["Relu"]>(X, W1, R1) })")
static void rnnDir(const Ten<F> &X, const Ten<F> &W, const Ten<F> &R, const Ten<F> *B, const Ten<F> *H0, int d, int D, int dir, Ten<F> &Y, Ten<F> &YH) {
  F h[2]; for (int j = 0; j < 2; ++j) h[j] = H0 ? (*H0)[dir * 2 + j] : 0;
  for (int t = 0; t < 2; ++t) {
    int s = d ? 1 - t : t; F n[2];
    for (int j = 0; j < 2; ++j) { F a = B ? (*B)[dir * 4 + j] + (*B)[dir * 4 + 2 + j] : 0; for (int k = 0; k < 2; ++k) a = a + X[s * 2 + k] * W[dir * 4 + j * 2 + k] + h[k] * R[dir * 4 + j * 2 + k]; n[j] = relu(a); }
    for (int j = 0; j < 2; ++j) Y[(s * D + dir) * 2 + j] = h[j] = n[j];
  }
  for (int j = 0; j < 2; ++j) YH[dir * 2 + j] = h[j];
}
template <class T> static void small(Ten<T> &W, int64_t from) { FOR(W) W[i] = (T)tiny(i + from); }
SX_TEST(recurrentNet) {
  int o = optLevel();
  Ten<F> X({2, 1, 2}), W({2, 2, 2}), R({2, 2, 2}), B({2, 4}), H({2, 1, 2}), W1({1, 2, 2}), R1({1, 2, 2}), Y0({2, 2, 1, 2}), Y1({2, 1, 2}), Y2({2, 1, 1, 2}), Y3({1, 1, 2}), Y4({2, 1, 1, 2}), Y5({1, 1, 2});
  weights(X); weights(W); weights(R, 3); weights(B, 5); weights(H, 1); weights(W1, 4); weights(R1, 7);
  switch (sx_pick("symbolic", 0, 3)) { case 0: sparse(X, "x", -20, 20); break; case 1: sparse(W, "w", -3, 3); break; case 2: sparse(B, "b", -20, 20); break; default: sparse(H, "h", -20, 20); }
  rnnDir(X, W, R, &B, &H, 0, 2, 0, Y0, Y1); rnnDir(X, W, R, &B, &H, 1, 2, 1, Y0, Y1);
  rnnDir(X, W1, R1, 0, 0, 0, 1, 0, Y2, Y3); rnnDir(X, W1, R1, 0, 0, 1, 1, 0, Y4, Y5);
  Call c = run(rnn, o, X, W, R, B, H, W1, R1);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, Y3); expect(c, 4, Y4); expect(c, 5, Y5);
  done(c);
  sx_reach("RNN");
}
MODEL(gru, 14, R"(g (float[2,1,2] X, float[1,6,2] W, float[1,6,2] R, float[1,12] B, float[1,1,2] H) => (float[2,1,1,2] Y0, float[1,1,2] Y1, float[2,1,1,2] Y2, float[1,1,2] Y3)
  { Y0, Y1 = GRU<hidden_size=2, activations=["Relu","Relu"]>(X, W, R, B, , H) Y2, Y3 = GRU<hidden_size=2, activations=["Relu","Relu"], linear_before_reset=1, direction="reverse">(X, W, R, B, , H) })")
SX_TEST(gatedRecurrentUnit) {
  int o = optLevel();
  Ten<F> X({2, 1, 2}), W({1, 6, 2}), R({1, 6, 2}), B({1, 12}), H({1, 1, 2}), Y[2] = {Shape({2, 1, 1, 2}), Shape({2, 1, 1, 2})}, YH[2] = {Shape({1, 1, 2}), Shape({1, 1, 2})};
  small(X, 0); small(W, 1); small(R, 4); small(B, 3); small(H, 2); X[1] = 2; H[0] = 3;
  switch (sx_pick("symbolic", 0, 2)) { case 0: sparse(X, "x", -2, 2); break; case 1: sparse(B, "b", -2, 2); break; default: sparse(H, "h", -3, 3); }
  for (int v = 0; v < 2; ++v) {
    F h[2] = {H[0], H[1]};
    for (int t = 0; t < 2; ++t) {
      int s = v ? 1 - t : t; F z[2], r[2], g[2];
      auto lin = [&](int j) { return X[s * 2] * W[j * 2] + X[s * 2 + 1] * W[j * 2 + 1]; };
      for (int j = 0; j < 2; ++j) {
        z[j] = relu(lin(j) + (h[0] * R[j * 2] + h[1] * R[j * 2 + 1]) + (B[j] + B[6 + j]));
        r[j] = relu(lin(2 + j) + (h[0] * R[(2 + j) * 2] + h[1] * R[(2 + j) * 2 + 1]) + (B[2 + j] + B[8 + j]));
      }
      for (int j = 0; j < 2; ++j) {
        F a; const int q = (4 + j) * 2;
        if (v) a = r[j] * (h[0] * R[q] + h[1] * R[q + 1] + B[10 + j]) + B[4 + j]; else a = r[0] * h[0] * R[q] + r[1] * h[1] * R[q + 1] + (B[10 + j] + B[4 + j]);
        g[j] = relu(lin(4 + j) + a);
      }
      for (int j = 0; j < 2; ++j) Y[v][s * 2 + j] = h[j] = (1 - z[j]) * g[j] + z[j] * h[j];
    }
    for (int j = 0; j < 2; ++j) YH[v][j] = h[j];
  }
  Call c = run(gru, o, X, W, R, B, H);
  expect(c, 0, Y[0]); expect(c, 1, YH[0]); expect(c, 2, Y[1]); expect(c, 3, YH[1]);
  done(c);
  sx_reach("GRU");
}
MODEL(lstm, 14, R"(g (float[2,1,2] X, float[1,8,2] W, float[1,8,2] R, float[1,16] B, float[1,1,2] H, float[1,1,2] C, float[1,6] P) => (float[2,1,1,2] Y0, float[1,1,2] Y1, float[1,1,2] Y2, float[2,1,1,2] Y3, float[1,1,2] Y4, float[1,1,2] Y5)
  { Y0, Y1, Y2 = LSTM<hidden_size=2, activations=["Relu","Relu","Relu"]>(X, W, R, B, , H, C, P) Y3, Y4, Y5 = LSTM<hidden_size=2, activations=["Relu","Relu","Relu"], direction="reverse">(X, W, R) })")
SX_TEST(longShortTermMemory) {
  int o = optLevel();
  Ten<F> X({2, 1, 2}), W({1, 8, 2}), R({1, 8, 2}), B({1, 16}), H({1, 1, 2}), C({1, 1, 2}), P({1, 6}), Y[2] = {Shape({2, 1, 1, 2}), Shape({2, 1, 1, 2})}, YH[2] = {Shape({1, 1, 2}), Shape({1, 1, 2})}, YC[2] = {Shape({1, 1, 2}), Shape({1, 1, 2})};
  small(X, 0); small(W, 1); small(R, 4); small(B, 3); small(H, 2); small(C, 5); small(P, 1); X[1] = 2; C[0] = 2;
  for (int q = 0; q < 8; ++q) B[q] = B[q] + 2;  // keeps the gates open
  switch (sx_pick("symbolic", 0, 3)) { case 0: sparse(X, "x", -2, 2, false); break; case 1: sparse(B, "b", -2, 2, false); break; case 2: sparse(C, "c", -2, 2, false); break; default: sparse(P, "p", -2, 2, false); }
  for (int v = 0; v < 2; ++v) {
    F h[2], m[2]; for (int j = 0; j < 2; ++j) { h[j] = v ? 0 : H[j]; m[j] = v ? 0 : C[j]; }
    for (int t = 0; t < 2; ++t) {
      int s = v ? 1 - t : t; F n[2];
      auto lin = [&](int g, int j) { int q = g * 2 + j; F a = X[s * 2] * W[q * 2] + X[s * 2 + 1] * W[q * 2 + 1] + (h[0] * R[q * 2] + h[1] * R[q * 2 + 1]); return v ? a : a + (B[q] + B[8 + q]); };
      for (int j = 0; j < 2; ++j) {
        F a = lin(0, j), f = lin(2, j), b = lin(1, j);
        if (!v) { a = a + P[j] * m[j]; f = f + P[4 + j] * m[j]; }
        F ct = relu(f) * m[j] + relu(a) * relu(lin(3, j));
        if (!v) b = b + P[2 + j] * ct;
        n[j] = relu(b) * relu(ct); m[j] = ct;
      }
      for (int j = 0; j < 2; ++j) Y[v][s * 2 + j] = h[j] = n[j];
    }
    for (int j = 0; j < 2; ++j) { YH[v][j] = h[j]; YC[v][j] = m[j]; }
  }
  Call c = run(lstm, o, X, W, R, B, H, C, P);
  for (int v = 0; v < 2; ++v) { expect(c, 3 * v, Y[v]); expect(c, 3 * v + 1, YH[v]); expect(c, 3 * v + 2, YC[v]); }
  done(c);
  sx_reach("LSTM");
}
// Control flow.
MODEL(ifs, 13, R"(g (bool C, bool D, int32[A] X) => (int32[A] Y0, int32[B] Y1, int32[A] Y2) <int64[1] z = {0}, int64[1] one = {1}> {
  Y0 = If (C) <then_branch = t () => (int32[A] T) { T = Add(X, X) }, else_branch = e () => (int32[A] E) { E = Neg(X) }>
  Y1 = If (C) <then_branch = t1 () => (int32[P] T1) { T1 = Concat<axis=0>(X, X) }, else_branch = e1 () => (int32[Q] E1) { E1 = Identity(X) }>
  Y2 = If (C) <then_branch = t2 () => (int32[A] T2) { T2 = If (D) <then_branch = t3 () => (int32[A] T3) { T3 = Mul(X, X) }, else_branch = e3 () => (int32[A] E3) { E3 = Identity(Y0) }> }, else_branch = e2 () => (int32[A] E2) { E2 = Abs(X) }> })")
SX_TEST(conditional) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2); bool cb = sx_pick("condition", 0, 1), d = sx_pick("inner", 0, 1);
  Ten<bool> C{Shape()}, D{Shape()}; C[0] = cb; D[0] = d;
  Ten<I> X({A}), Y0({A}), Y1({cb ? 2 * A : A}), Y2({A});
  X.any("x");
  FOR(Y0) Y0[i] = (I)(cb ? 2u * (uint32_t)X[i] : 0u - (uint32_t)X[i]);
  FOR(Y1) Y1[i] = X[i % A];
  FOR(Y2) Y2[i] = cb ? d ? (I)((uint32_t)X[i] * (uint32_t)X[i]) : Y0[i] : X[i] < 0 ? (I)(0u - (uint32_t)X[i]) : X[i];
  Call c = run(ifs, o, C, D, X);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  sx_reach("if");
}
MODEL(loops, 13, R"(g (int64 M, bool C, int32[2] X) => (int32[2] Y0, int32[N,2] Y1) {
  Y0, Y1 = Loop (M, C, X) <body = b (int64 i, bool c, int32[2] v) => (bool c2, int32[2] v2, int32[2] s) { c2 = Identity(c) j = Cast<to=6>(i) w = Add(v, v) v2 = Add(w, j) s = Sub(v2, X) }> })")
SX_TEST(loop) {
  int o = optLevel();
  int64_t m = sx_pick("trips", 0, 3); bool go = sx_pick("condition", 0, 1); int64_t n = go ? m : 0;
  Ten<int64_t> M{Shape()}; Ten<bool> C{Shape()}; M[0] = m; C[0] = go;
  Ten<I> X({2}), Y0({2}), Y1({n, 2});
  X.any("x");
  for (int j = 0; j < 2; ++j) { uint32_t v = X[j]; for (int64_t k = 0; k < n; ++k) { v = 2 * v + (uint32_t)k; Y1[k * 2 + j] = (I)(v - (uint32_t)X[j]); } Y0[j] = (I)v; }
  if (!go) sx_context("Loop whose condition is false from the start");
  Call c = run(loops, o, M, C, X);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("loop");
}
MODEL(whiles, 13, R"(g (int64 M, int32 X, int32 L) => (int32 Y0) <bool t = {1}> {
  Y0 = Loop (M, t, X) <body = b (int64 i, bool c, int32 v) => (bool c2, int32 v2) { v2 = Add(v, v) c2 = Less(v2, L) }> })")
SX_TEST(whileLoop) {
  int o = optLevel();
  int64_t m = sx_pick("trips", 0, 3);
  Ten<int64_t> M{Shape()}; Ten<I> X{Shape()}, L{Shape()}, Y{Shape()};
  M[0] = m; X.any("x"); L.any("l");
  uint32_t v = X[0]; bool go = true;
  for (int64_t k = 0; k < m && go; ++k) { v = 2 * v; go = (I)v < L[0]; }
  Y[0] = (I)v;
  if (!m) sx_context("while loop of no iterations");
  Call c = run(whiles, o, M, X, L);
  expect(c, 0, Y);
  done(c);
  sx_reach("while");
}
MODEL(scans, 13, R"(g (int32[2] H, int32[3,2] X) => (int32[2] Y0, int32[3,2] Y1) {
  Y0, Y1 = Scan (H, X) <num_scan_inputs=1, body = b (int32[2] st, int32[2] x) => (int32[2] st2, int32[2] o) { st2 = Add(st, x) o = Sub(st2, st) }> })")
SX_TEST(scan) {
  int o = optLevel();
  Ten<I> H({2}), X({3, 2}), Y0({2}), Y1({3, 2});
  H.any("h"); X.any("x");
  for (int j = 0; j < 2; ++j) { uint32_t s = H[j]; for (int k = 0; k < 3; ++k) { s += (uint32_t)X[k * 2 + j]; Y1[k * 2 + j] = X[k * 2 + j]; } Y0[j] = (I)s; }
  Call c = run(scans, o, H, X);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("scan");
}
MODEL(eins, 13, R"(g (float[2,2] X, float[2,3] W) => (float[2,3] Y0, float[2,2] Y1, float[2] Y2, float[2,2,3] Y3) { Y0 = Einsum<equation="ij,jk->ik">(X, W) Y1 = Einsum<equation="ij->ji">(X) Y2 = Einsum<equation="ij->i">(X) Y3 = Einsum<equation="ij,jk->ijk">(X, W) })")
SX_TEST(einsum) {
  int o = optLevel();
  const int64_t A = 2;
  Ten<F> X({A, 2}), W({2, 3}), Y0({A, 3}), Y1({2, A}), Y2({A}), Y3({A, 2, 3});
  weights(X); weights(W);
  if (sx_pick("symbolic", 0, 1)) sparse(X, "x", -50, 50); else sparse(W, "w", -50, 50);
  for (int64_t a = 0; a < A; ++a) {
    Y2[a] = X[a * 2] + X[a * 2 + 1];
    for (int64_t k = 0; k < 3; ++k) Y0[a * 3 + k] = X[a * 2] * W[k] + X[a * 2 + 1] * W[3 + k];
    for (int64_t j = 0; j < 2; ++j) { Y1[j * A + a] = X[a * 2 + j]; for (int64_t k = 0; k < 3; ++k) Y3[(a * 2 + j) * 3 + k] = X[a * 2 + j] * W[j * 3 + k]; }
  }
  Call c = run(eins, o, X, W);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, Y3);
  done(c);
  sx_reach("einsum");
}
