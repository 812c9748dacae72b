// C23: operators of compiled models that rearrange, select or replicate data.
#include "model.h"
#include "models_c23.h"
MODELT(transpose3, 13, R"(g ($T[A,B,C] X) => ($T[D0,D1,D2] Y0, $T[D3,D4,D5] Y1, $T[E0,E1,E2] Y2, $T[E3,E4,E5] Y3, $T[F0,F1,F2] Y4, $T[F3,F4,F5] Y5)
  { Y0 = Transpose<perm=[0,1,2]>(X) Y1 = Transpose<perm=[0,2,1]>(X) Y2 = Transpose<perm=[1,0,2]>(X)
    Y3 = Transpose<perm=[1,2,0]>(X) Y4 = Transpose<perm=[2,0,1]>(X) Y5 = Transpose(X) })", "int8 int16 int32 int64 bool")
MODEL(transpose4, 13, R"(g (int32[A,2,B,3] X) => (int32[D0,D1,D2,D3] Y0, int32[E0,E1,E2,E3] Y1, int32[F0,F1,F2,F3] Y2, int32[G0,G1,G2,G3] Y3)
  { Y0 = Transpose<perm=[0,2,1,3]>(X) Y1 = Transpose<perm=[0,3,1,2]>(X) Y2 = Transpose<perm=[2,3,0,1]>(X) Y3 = Transpose<perm=[1,0,3,2]>(X) })")
MODEL(reshapes, 13, R"(g (int32[A,2,B] X) => (int32[P0,P1] Y0, int32[Q0,Q1,Q2] Y1, int32[R0] Y2, int32[S0,S1] Y3, int32[T0,T1] Y4, int32[U0,U1] Y5, int32[V0,V1,V2,V3,V4] Y6)
  <int64[2] c0 = {0, -1}, int64[3] c1 = {-1, 1, 2}, int64[1] c2 = {-1}, int64[2] ax = {0, -2}>
  { Y0 = Reshape(X, c0) Y1 = Reshape(X, c1) Y2 = Reshape(X, c2) Y3 = Flatten<axis=2>(X) Y4 = Flatten<axis=-2>(X) Y5 = Flatten<axis=0>(X) Y6 = Unsqueeze(X, ax) })")
MODEL(reshapeDyn, 13, R"(g (int32[A,B] X, int64[3] S) => (int32[P,Q,R] Y) { Y = Reshape(X, S) })")
MODEL(squeeze, 13, R"(g (int32[1,A,1,B] X, int32[1,3,1] Z) => (int32[A,B] Y0, int32[1,A,B] Y1, int32[3] Y2) <int64[2] a0 = {0, -2}, int64[1] a1 = {2}>
  { Y0 = Squeeze(X, a0) Y1 = Squeeze(X, a1) Y2 = Squeeze(Z) })")
MODELT(concat, 13, R"(g ($T[A,B] X, $T[A,C] Z, $T[A,1] W, $T[C,B] V) => ($T[A,D] Y0, $T[E,B] Y1) { Y0 = Concat<axis=-1>(X, Z, W) Y1 = Concat<axis=0>(V, X) })", "int8 int16 int32 int64 bool")
MODEL(concat3, 13, R"(g (int32[2,A,2] X, int32[2,B,2] Z) => (int32[2,C,2] Y) { Y = Concat<axis=1>(X, Z, X) })")
MODEL(splitEq, 13, R"(g (int32[A,B] X) => (int32[P,B] Y0, int32[Q,B] Y1) { Y0, Y1 = Split<axis=0>(X) })")
MODEL(splitSz, 13, R"(g (int32[A,6] X) => (int32[A,P] Y0, int32[A,Q] Y1, int32[A,R] Y2) <int64[3] s = {1, 3, 2}> { Y0, Y1, Y2 = Split<axis=-1>(X, s) })")
MODEL(split18, 18, R"(g (int32[A,5] X) => (int32[A,P] Y0, int32[A,Q] Y1, int32[A,R] Y2) { Y0, Y1, Y2 = Split<axis=1, num_outputs=3>(X) })")
MODEL(sliceC, 13, R"(g (int32[A,5] X) => (int32[P0,P1] Y0, int32[Q0,Q1] Y1, int32[R0,R1] Y2, int32[S0,S1] Y3)
  <int64[2] s0 = {1, 1}, int64[2] e0 = {1000, -1}, int64[2] st0 = {1, 2}, int64[2] ax = {0, 1}, int64[1] s1 = {-1}, int64[1] e1 = {-9223372036854775807}, int64[1] st1 = {-1}, int64[1] ax1 = {-1},
   int64[1] s2 = {-2}, int64[1] e2 = {9223372036854775807}, int64[1] ax0 = {0}, int64[1] s3 = {3}, int64[1] e3 = {0}, int64[1] st3 = {-2}>
  { Y0 = Slice(X, s0, e0, ax, st0) Y1 = Slice(X, s1, e1, ax1, st1) Y2 = Slice(X, s2, e2, ax0) Y3 = Slice(X, s3, e3, ax1, st3) })")
MODEL(sliceD, 13, R"(g (int32[A,3] X, int64[1] S, int64[1] E) => (int32[P,3] Y0, int32[A,Q] Y1) <int64[1] a0 = {0}, int64[1] a1 = {1}, int64[1] st = {-1}>
  { Y0 = Slice(X, S, E, a0) Y1 = Slice(X, S, E, a1, st) })")
MODEL(sliceS, 13, R"(g (int32[5] X, int64[1] S, int64[1] E, int64[1] T) => (int32[P] Y) <int64[1] a0 = {0}> { Y = Slice(X, S, E, a0, T) })")
MODEL(gather, 13, R"(g (int32[A,3] X, int64[B,2] I, int32[B] J, int64 K) => (int32[B,2,3] Y0, int32[A,B] Y1, int32[3] Y2) { Y0 = Gather(X, I) Y1 = Gather<axis=-1>(X, J) Y2 = Gather<axis=0>(X, K) })")
MODEL(gatherEl, 13, R"(g (int32[A,3] X, int64[B,2] I, int64[2,B] J) => (int32[B,2] Y0, int32[2,B] Y1) { Y0 = GatherElements(X, I) Y1 = GatherElements<axis=1>(X, J) })")
MODEL(gatherNd, 13, R"(g (int32[A,3,2] X, int64[B,2] I, int64[B,1] J, int64[A,B,1] K) => (int32[B,2] Y0, int32[B,3,2] Y1, int32[A,B,2] Y2) { Y0 = GatherND(X, I) Y1 = GatherND(X, J) Y2 = GatherND<batch_dims=1>(X, K) })")
MODEL(scatterEl, 16, R"(g (int32[A,3] X, int64[1,2] I, int32[1,2] U) => (int32[A,3] Y0, int32[A,3] Y1) { Y0 = ScatterElements(X, I, U) Y1 = ScatterElements<axis=1>(X, I, U) })")
MODEL(scatterNd, 13, R"(g (int32[A,3] X, int64[1,2,2] I, int32[1,2] U, int64[2,1] J, int32[2,3] V) => (int32[A,3] Y0, int32[A,3] Y1) { Y0 = ScatterND(X, I, U) Y1 = ScatterND(X, J, V) })")
MODEL(scatterNdLast, 13, R"(g (int32[A,3] X, int64[2,2] I, int32[2] U) => (int32[A,3] Y0) { Y0 = ScatterND(X, I, U) })")
MODEL(padC, 13, R"(g (int32[A,3] X, int32 V) => (int32[P0,P1] Y0, int32[Q0,Q1] Y1, int32[R0,R1] Y2, int32[S0,S1] Y3, int32[T0,T1] Y4)
  <int64[4] p = {1, 2, 0, 1}, int64[4] q = {0, 1, 2, 1}, int64[4] r = {1, 2, 1, 2}>
  { Y0 = Pad(X, p, V) Y1 = Pad(X, q, V) Y2 = Pad<mode="edge">(X, p) Y3 = Pad<mode="reflect">(X, r) Y4 = Pad(X, p) })")
MODEL(padNeg, 13, R"(g (int32[A,3] X, int64[4] P) => (int32[P0,P1] Y0) { Y0 = Pad(X, P) })")
MODEL(padEdgeNeg, 13, R"(g (int32[A,3] X, int64[4] P) => (int32[P0,P1] Y0) { Y0 = Pad<mode="edge">(X, P) })")
MODEL(padD, 13, R"(g (int32[A,3] X, int64[4] P) => (int32[P0,P1] Y0, int32[Q0,Q1] Y1) { Y0 = Pad(X, P) Y1 = Pad<mode="edge">(X, P) })")
MODEL(tile, 13, R"(g (int32[A,2] X, int64[2] R) => (int32[P0,P1] Y0, int32[Q0,Q1] Y1) <int64[2] c = {2, 3}> { Y0 = Tile(X, c) Y1 = Tile(X, R) })")
MODEL(expand, 13, R"(g (int32[A,1,2] X, int64[3] S, int64[4] T) => (int32[P0,P1,P2] Y0, int32[Q0,Q1,Q2,Q3] Y1, int32[R0,R1,R2] Y2) <int64[2] c = {3, 1}> { Y0 = Expand(X, S) Y1 = Expand(X, T) Y2 = Expand(X, c) })")
MODEL(cofs, 13, R"(g (int64[2] S) => (int32[P,Q] Y0, float[R,S] Y1) { Y0 = ConstantOfShape<value=int32[1]{7}>(S) Y1 = ConstantOfShape(S) })")
MODEL(d2s, 13, R"(g (int32[A,8,B,2] X, int32[A,1,4,4] Z) => (int32[P0,P1,P2,P3] Y0, int32[Q0,Q1,Q2,Q3] Y1, int32[R0,R1,R2,R3] Y2)
  { Y0 = DepthToSpace<blocksize=2>(X) Y1 = DepthToSpace<blocksize=2, mode="CRD">(X) Y2 = SpaceToDepth<blocksize=2>(Z) })")
MODEL(d2sStatic, 13, R"(g (int32[1,8,2,2] X, int32[1,1,4,4] Z) => (int32[P0,P1,P2,P3] Y0, int32[Q0,Q1,Q2,Q3] Y1, int32[R0,R1,R2,R3] Y2)
  { Y0 = DepthToSpace<blocksize=2>(X) Y1 = DepthToSpace<blocksize=2, mode="CRD">(X) Y2 = SpaceToDepth<blocksize=2>(Z) })")
MODEL(s2d, 13, R"(g (int32[1,2,4,2] Z) => (int32[R0,R1,R2,R3] Y) { Y = SpaceToDepth<blocksize=2>(Z) })")
MODEL(compress, 13, R"(g (int32[A,3] X, bool[C] K, bool[3] L) => (int32[P,3] Y0, int32[A,Q] Y1, int32[R] Y2) { Y0 = Compress<axis=0>(X, K) Y1 = Compress<axis=-1>(X, L) Y2 = Compress(X, K) })")
MODEL(revseq, 13, R"(g (int32[3,A,2] X, int64[A] L, int64[3] M) => (int32[3,A,2] Y0, int32[3,A,2] Y1) { Y0 = ReverseSequence<time_axis=0, batch_axis=1>(X, L) Y1 = ReverseSequence<time_axis=1, batch_axis=0>(X, M) })")
MODEL(trilu, 14, R"(g (int32[2,A,B] X, int64 K) => (int32[2,A,B] Y0, int32[2,A,B] Y1, int32[2,A,B] Y2) { Y0 = Trilu(X, K) Y1 = Trilu<upper=0>(X, K) Y2 = Trilu(X) })")
MODEL(onehot, 13, R"(g (int64[A] I, int64 D, int32[2] V) => (int32[A,P] Y0, int32[P,A] Y1) { Y0 = OneHot(I, D, V) Y1 = OneHot<axis=0>(I, D, V) })")
MODEL(nonzero, 13, R"(g (int32[A,2] X, bool[3] B) => (int64[2,P] Y0, int64[1,Q] Y1) { Y0 = NonZero(X) Y1 = NonZero(B) })")
MODEL(rangeOp, 13, R"(g (int64 S, int64 L, int64 D, float F, float G, float H) => (int64[P] Y0, float[Q] Y1) { Y0 = Range(S, L, D) Y1 = Range(F, G, H) })")
MODEL(shapeOf, 15, R"(g (int32[A,2,B] X) => (int64[3] Y0, int64[2] Y1, int64[P] Y2, int64 Y3, int32[A,2,B] Y4) { Y0 = Shape(X) Y1 = Shape<start=1>(X) Y2 = Shape<start=-3, end=-1>(X) Y3 = Size(X) Y4 = Identity(X) })")
typedef int32_t I;
static Shape sh(std::initializer_list<int64_t> l) { return Shape(l); }
#define FOR(Y) for (int64_t i = 0; i < (Y).n; ++i)
template <class T> static Ten<T> perm(const Ten<T> &X, std::initializer_list<int> p) {
  Shape s; for (int a : p) s.push(X.s.d[a]);
  Ten<T> Y(s);
  FOR(Y) { Ix y = unlin(s, i), x; int k = 0; for (int a : p) x[a] = y[k++]; Y[i] = X.at(x); }
  return Y;
}
template <class T> static Ten<T> as(const Ten<T> &X, const Shape &s) { Ten<T> Y(s); FOR(Y) Y[i] = X[i]; return Y; }
template <class T> static void tTranspose() {
  int o = optLevel();
  Ten<T> X({sx_pick("A", 0, 2), sx_pick("B", 1, 3), sx_pick("C", 1, 2)});
  X.any("x");
  Call c = run(transpose3<T>(), o, X);
  expect(c, 0, X); expect(c, 1, perm(X, {0, 2, 1})); expect(c, 2, perm(X, {1, 0, 2})); expect(c, 3, perm(X, {1, 2, 0}));
  expect(c, 4, perm(X, {2, 0, 1})); expect(c, 5, perm(X, {2, 1, 0}));
  done(c);
  sx_reach("transpose");
}
SX_TEST(transpose8) { tTranspose<int8_t>(); }
SX_TEST(transpose16) { tTranspose<int16_t>(); }
SX_TEST(transpose32) { tTranspose<int32_t>(); }
SX_TEST(transpose64) { tTranspose<int64_t>(); }
SX_TEST(transposeb) { tTranspose<bool>(); }
SX_TEST(transpose4d) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 0, 2), 2, sx_pick("B", 0, 3), 3});
  X.any("x");
  Call c = run(transpose4, o, X);
  expect(c, 0, perm(X, {0, 2, 1, 3})); expect(c, 1, perm(X, {0, 3, 1, 2})); expect(c, 2, perm(X, {2, 3, 0, 1})); expect(c, 3, perm(X, {1, 0, 3, 2}));
  done(c);
}
SX_TEST(reshape) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 3), B = sx_pick("B", 1, 3);
  Ten<I> X({A, 2, B});
  X.any("x");
  Call c = run(reshapes, o, X);
  expect(c, 0, as(X, {A, 2 * B})); expect(c, 1, as(X, {A * B, 1, 2})); expect(c, 2, as(X, {A * B * 2})); expect(c, 3, as(X, {A * 2, B}));
  expect(c, 4, as(X, {A, 2 * B})); expect(c, 5, as(X, {1, A * 2 * B})); expect(c, 6, as(X, {1, A, 2, 1, B}));
  done(c);
  sx_reach("reshape");
}
SX_TEST(reshapeRuntime) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 3), B = sx_pick("B", 1, 4), n = A * B;
  Ten<I> X({A, B}); Ten<int64_t> S({3});
  X.any("x");
  Shape s = {0, 0, 0}; int inf = -1; int64_t known = 1;
  for (int k = 0; k < 3; ++k) {
    S[k] = sx_pick("s", -1, 4);
    if (S[k] == -1) { sx_assume(inf < 0); inf = k; } else { s.d[k] = S[k] ? S[k] : k < 2 ? X.s.d[k] : 0; known *= s.d[k]; }
  }
  sx_assume(S[2] != 0); // copying a dimension that the input does not have is invalid
  if (inf >= 0) { sx_assume(n % known == 0); s.d[inf] = n / known; } else sx_assume(known == n);
  Call c = run(reshapeDyn, o, X, S);
  expect(c, 0, as(X, s));
  done(c);
  sx_reach("reshape at run time");
}
SX_TEST(squeeze) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2), B = sx_pick("B", 1, 2);
  Ten<I> X({1, A, 1, B}), Z({1, 3, 1});
  X.any("x"); Z.any("z");
  Call c = run(squeeze, o, X, Z);
  expect(c, 0, as(X, {A, B})); expect(c, 1, as(X, {1, A, B})); expect(c, 2, as(Z, {3}));
  done(c);
}
template <class T> static Ten<T> cat(std::initializer_list<Ten<T>> l, int ax) {
  Shape s = l.begin()->s; s.d[ax] = 0;
  for (const Ten<T> &t : l) s.d[ax] += t.s.d[ax];
  Ten<T> Y(s); int64_t off = 0;
  for (const Ten<T> &t : l) { FOR(t) { Ix x = unlin(t.s, i); x[ax] += off; Y.at(x) = t[i]; } off += t.s.d[ax]; }
  return Y;
}
template <class T> static void tConcat() {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2), B = sx_pick("B", 0, 2), C = sx_pick("C", 0, 2);
  Ten<T> X({A, B}), Z({A, C}), W({A, 1}), V({C, B});
  X.any("x"); Z.any("z"); W.any("w"); V.any("v");
  Call c = run(concat<T>(), o, X, Z, W, V);
  expect(c, 0, cat({X, Z, W}, 1)); expect(c, 1, cat({V, X}, 0));
  done(c);
  sx_reach("concat");
}
SX_TEST(concat8) { tConcat<int8_t>(); }
SX_TEST(concat16) { tConcat<int16_t>(); }
SX_TEST(concat32) { tConcat<int32_t>(); }
SX_TEST(concat64) { tConcat<int64_t>(); }
SX_TEST(concatb) { tConcat<bool>(); }
SX_TEST(concat3d) {
  int o = optLevel();
  Ten<I> X({2, sx_pick("A", 0, 2), 2}), Z({2, sx_pick("B", 0, 2), 2});
  X.any("x"); Z.any("z");
  Call c = run(concat3, o, X, Z);
  expect(c, 0, cat({X, Z, X}, 1));
  done(c);
}
static Ten<I> cut(const Ten<I> &X, int ax, int64_t from, int64_t n, int64_t step = 1) {
  Shape s = X.s; s.d[ax] = n;
  Ten<I> Y(s);
  FOR(Y) { Ix x = unlin(s, i); x[ax] = from + x[ax] * step; Y[i] = X.at(x); }
  return Y;
}
SX_TEST(split) {
  int o = optLevel();
  int64_t A = 2 * sx_pick("A", 0, 2);
  Ten<I> X({A, sx_pick("B", 1, 2)});
  X.any("x");
  Call c = run(splitEq, o, X);
  expect(c, 0, cut(X, 0, 0, A / 2)); expect(c, 1, cut(X, 0, A / 2, A / 2));
  done(c);
  Ten<I> Z({sx_pick("A", 0, 2), 6}), W({Z.s.d[0], 5});
  Z.any("z"); W.any("w");
  Call d = run(splitSz, o, Z);
  expect(d, 0, cut(Z, 1, 0, 1)); expect(d, 1, cut(Z, 1, 1, 3)); expect(d, 2, cut(Z, 1, 4, 2));
  done(d);
  Call e = run(split18, o, W);
  expect(e, 0, cut(W, 1, 0, 2)); expect(e, 1, cut(W, 1, 2, 2)); expect(e, 2, cut(W, 1, 4, 1));
  done(e);
  sx_reach("split");
}
// Start and number of elements of a slice of a dimension (ONNX Slice).
static int64_t clampTo(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
static int64_t sliceN(int64_t dim, int64_t s, int64_t e, int64_t st, int64_t *from) {
  if (s < 0) s += dim; if (e < 0) e += dim;
  if (st > 0) { s = clampTo(s, 0, dim); e = clampTo(e, 0, dim); *from = s; return e > s ? (e - s + st - 1) / st : 0; }
  s = clampTo(s, 0, dim - 1); e = clampTo(e, -1, dim - 1); *from = s; return s > e ? (s - e - st - 1) / -st : 0;
}
static Ten<I> sl(const Ten<I> &X, int ax, int64_t s, int64_t e, int64_t st) { int64_t f, n = sliceN(X.s.d[ax], s, e, st, &f); return cut(X, ax, f, n, st); }
SX_TEST(sliceConst) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 0, 3), 5});
  X.any("x");
  Call c = run(sliceC, o, X);
  expect(c, 0, sl(sl(X, 0, 1, 1000, 1), 1, 1, -1, 2)); expect(c, 1, sl(X, 1, -1, -1000, -1)); expect(c, 2, sl(X, 0, -2, 1000, 1)); expect(c, 3, sl(X, 1, 3, 0, -2));
  done(c);
  sx_reach("slice by constants");
}
SX_TEST(sliceRuntime) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 0, 3), 3}); Ten<int64_t> S({1}), E({1});
  X.any("x"); S.range("s", -6, 6); E.range("e", -6, 6);
  Call c = run(sliceD, o, X, S, E);
  int64_t s = sx_concrete(S[0]), e = sx_concrete(E[0]);
  expect(c, 0, sl(X, 0, s, e, 1)); expect(c, 1, sl(X, 1, s, e, -1));
  done(c);
  sx_reach("slice at run time");
}
SX_TEST(sliceFar) { // bounds far beyond the dimension, the extremes included
  int o = optLevel();
  static const int64_t far[] = {INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 1LL << 40, -(1LL << 40)};
  Ten<I> X({2, 3}); Ten<int64_t> S({1}), E({1});
  X.any("x");
  int w = (int)sx_pick("which", 0, 1);
  int64_t f = far[sx_pick("far", 0, 5)], n = sx_range("near", -4, 4);
  n = sx_concrete(n);
  S[0] = w ? f : n; E[0] = w ? n : f;
  Call c = run(sliceD, o, X, S, E);
  expect(c, 0, sl(X, 0, S[0], E[0], 1)); expect(c, 1, sl(X, 1, S[0], E[0], -1));
  done(c);
}
SX_TEST(sliceStep) {
  int o = optLevel();
  Ten<I> X({5}); Ten<int64_t> S({1}), E({1}), T({1});
  X.any("x"); S.range("s", -7, 7); E.range("e", -7, 7); T[0] = sx_pick("t", -3, 3);
  sx_assume(T[0] != 0);
  Call c = run(sliceS, o, X, S, E, T);
  expect(c, 0, sl(X, 0, sx_concrete(S[0]), sx_concrete(E[0]), T[0]));
  done(c);
  sx_reach("slice with a run-time step");
}
static int64_t norm(int64_t i, int64_t n) { return i < 0 ? i + n : i; }
template <class T> static Ten<T> &idx(Ten<T> &t, const char *nm, int64_t n) { // any valid index of a dimension of n
  for (int64_t i = 0; i < t.n; ++i) t[i] = (T)sx_concrete(sx_range(nm, -n, n - 1));
  return t;
}
SX_TEST(gather) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2), B = sx_pick("B", 0, 1);
  Ten<I> X({A, 3}); Ten<int64_t> Ii({B, 2}), K{Shape()}; Ten<I> J({B});
  X.any("x"); idx(Ii, "i", A); idx(J, "j", 3); idx(K, "k", A);
  Ten<I> Y0({B, 2, 3}), Y1({A, B}), Y2({3});
  FOR(Y0) { Ix y = unlin(Y0.s, i); Y0[i] = X.at({norm(Ii.at({y[0], y[1]}), A), y[2]}); }
  FOR(Y1) { Ix y = unlin(Y1.s, i); Y1[i] = X.at({y[0], norm(J.at({y[1]}), 3)}); }
  FOR(Y2) Y2[i] = X.at({norm(K[0], A), i});
  Call c = run(gather, o, X, Ii, J, K);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  sx_reach("gather");
}
SX_TEST(gatherElements) {
  int o = optLevel();
  int64_t A = sx_pick("A", 2, 3), B = sx_pick("B", 0, 1);
  Ten<I> X({A, 3}); Ten<int64_t> P({B, 2}), Q({2, B});
  X.any("x"); idx(P, "p", A); idx(Q, "q", 3);
  Ten<I> Y0(P.s), Y1(Q.s);
  FOR(Y0) { Ix y = unlin(Y0.s, i); Y0[i] = X.at({norm(P[i], A), y[1]}); }
  FOR(Y1) { Ix y = unlin(Y1.s, i); Y1[i] = X.at({y[0], norm(Q[i], 3)}); }
  Call c = run(gatherEl, o, X, P, Q);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("gather elements");
}
static void gatherNDs(int neg) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2), B = 1;
  Ten<I> X({A, 3, 2}); Ten<int64_t> P({B, 2}), Q({B, 1}), R({A, B, 1});
  X.any("x"); int lo = neg ? 1 : 0;
  P[0] = sx_pick("p0", -A * lo, A - 1); P[1] = sx_pick("p1", -3 * lo, 2); Q[0] = sx_pick("q0", -A * lo, A - 1);
  for (int k = 0; k < A; ++k) R[k] = sx_pick("r", neg ? -1 : 0, neg ? 0 : 2);
  if (neg) { int m = P[0] < 0 || P[1] < 0 || Q[0] < 0; for (int k = 0; k < A; ++k) m |= R[k] < 0; sx_assume(m); sx_context("GatherND with a negative index"); }
  Ten<I> Y0({B, 2}), Y1({B, 3, 2}), Y2({A, B, 2});
  FOR(Y0) Y0[i] = X.at({norm(P[0], A), norm(P[1], 3), i});
  FOR(Y1) { Ix y = unlin(Y1.s, i); Y1[i] = X.at({norm(Q[0], A), y[1], y[2]}); }
  FOR(Y2) { Ix y = unlin(Y2.s, i); Y2[i] = X.at({y[0], norm(R[y[0]], 3), y[2]}); }
  Call c = run(gatherNd, o, X, P, Q, R);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  if (!neg) sx_reach("gather nd");
}
SX_TEST(gatherND) { gatherNDs(0); }
SX_TEST(gatherNDNegative) { gatherNDs(1); }
SX_TEST(scatterElements) {
  int o = optLevel();
  int64_t A = sx_pick("A", 2, 3);
  Ten<I> X({A, 3}), U({1, 2}); Ten<int64_t> P({1, 2});
  X.any("x"); U.any("u"); idx(P, "p", 2);
  Ten<I> Y0 = X, Y1 = X;
  sx_assume(norm(P[0], 3) != norm(P[1], 3));
  for (int64_t k = 0; k < 2; ++k) { Y0.at({norm(P[k], A), k}) = U[k]; Y1.at({0, norm(P[k], 3)}) = U[k]; }
  Call c = run(scatterEl, o, X, P, U);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("scatter elements");
}
static void scatterNDs(int neg) {
  int o = optLevel();
  int64_t A = sx_pick("A", 2, 3);
  Ten<I> X({A, 3}), U({1, 2}), V({2, 3}); Ten<int64_t> P({1, 2, 2}), Q({2, 1});
  X.any("x"); U.any("u"); V.any("v");
  int lo = neg ? 1 : 0, m = 0;
  for (int k = 0; k < 2; ++k) { P[2 * k] = sx_pick("r", -A * lo, A - 1); P[2 * k + 1] = k ? sx_pick("c", -3 * lo, 2) : 1; Q[k] = k ? sx_pick("q", -A * lo, A - 1) : 0; }
  for (int k = 0; k < 4; ++k) m |= P[k] < 0 || Q[k / 2] < 0;
  if (neg) { sx_assume(m); sx_context("ScatterND with a negative index"); }
  sx_assume(norm(P[0], A) != norm(P[2], A) || norm(P[1], 3) != norm(P[3], 3)); sx_assume(norm(Q[0], A) != norm(Q[1], A));
  Ten<I> Y0 = X, Y1 = X;
  for (int k = 0; k < 2; ++k) { Y0.at({norm(P[2 * k], A), norm(P[2 * k + 1], 3)}) = U[k]; for (int j = 0; j < 3; ++j) Y1.at({norm(Q[k], A), j}) = V[3 * k + j]; }
  Call c = run(scatterNd, o, X, P, U, Q, V);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  if (!neg) sx_reach("scatter nd");
}
SX_TEST(scatterND) { scatterNDs(0); }
SX_TEST(scatterNDNegative) { scatterNDs(1); }
SX_TEST(scatterNDLastDim) {
  int o = optLevel();
  Ten<I> X({2, 3}), U({2}); Ten<int64_t> P({2, 2});
  X.any("x"); U.any("u");
  for (int k = 0; k < 2; ++k) { P[2 * k] = sx_pick("r", 0, 1); P[2 * k + 1] = sx_pick("c", 0, 2); }
  sx_assume(P[0] != P[2] || P[1] != P[3]);
  sx_context("ScatterND with indices.shape[-1] different from rank(indices) - 1");
  Ten<I> Y0 = X;
  for (int k = 0; k < 2; ++k) Y0.at({P[2 * k], P[2 * k + 1]}) = U[k];
  Call c = run(scatterNdLast, o, X, P, U);
  expect(c, 0, Y0);
  done(c);
}
enum PadMode { CONST, EDGE, REFLECT };
static Ten<I> pad(const Ten<I> &X, const int64_t *p, PadMode m, I v) {
  Shape s; for (int a = 0; a < X.s.rank; ++a) s.push(X.s.d[a] + p[a] + p[a + X.s.rank]);
  Ten<I> Y(s);
  FOR(Y) {
    Ix y = unlin(s, i); int in = 1;
    for (int a = 0; a < s.rank; ++a) {
      int64_t q = y[a] - p[a], n = X.s.d[a];
      if (q < 0 || q >= n) { if (m == CONST) in = 0; else if (m == EDGE) q = clampTo(q, 0, n - 1); else q = q < 0 ? -q : 2 * (n - 1) - q; }
      y[a] = q;
    }
    Y[i] = in ? X.at(y) : v;
  }
  return Y;
}
SX_TEST(padConst) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 2, 3), 3}), V{Shape()};
  X.any("x"); V.any("v");
  const int64_t p[] = {1, 2, 0, 1}, q[] = {0, 1, 2, 1}, r[] = {1, 2, 1, 2};
  Call c = run(padC, o, X, V);
  expect(c, 0, pad(X, p, CONST, V[0])); expect(c, 1, pad(X, q, CONST, V[0])); expect(c, 2, pad(X, p, EDGE, 0)); expect(c, 3, pad(X, r, REFLECT, 0)); expect(c, 4, pad(X, p, CONST, 0));
  done(c);
  sx_reach("pad");
}
SX_TEST(padRuntime) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 1, 2), 3}); Ten<int64_t> P({4});
  X.any("x");
  P[0] = sx_pick("p0", 0, 2); P[1] = sx_pick("p1", 0, 2); P[2] = sx_pick("p2", 0, 1); P[3] = sx_pick("p3", 0, 1);
  Call c = run(padD, o, X, P);
  expect(c, 0, pad(X, P.v, CONST, 0)); expect(c, 1, pad(X, P.v, EDGE, 0));
  done(c);
  sx_reach("pad at run time");
}
static void negPads(int edge) {
  int o = optLevel();
  Ten<I> X({2, 3}); Ten<int64_t> P({4});
  X.any("x");
  P[0] = sx_pick("p0", -1, 1); P[1] = sx_pick("p1", -1, 1); P[2] = sx_pick("p2", -1, 0); P[3] = sx_pick("p3", -1, 1);
  sx_assume(P[0] < 0 || P[1] < 0 || P[2] < 0 || P[3] < 0);
  if (!edge) sx_context("Pad in constant mode with a negative pad");
  Call c = run(edge ? padEdgeNeg : padNeg, o, X, P);
  expect(c, 0, pad(X, P.v, edge ? EDGE : CONST, 0));
  done(c);
}
SX_TEST(padNegative) { negPads(0); }
SX_TEST(padEdgeNegative) { negPads(1); }
static Ten<I> tiled(const Ten<I> &X, const int64_t *r) {
  Shape s; for (int a = 0; a < X.s.rank; ++a) s.push(X.s.d[a] * r[a]);
  Ten<I> Y(s);
  FOR(Y) { Ix y = unlin(s, i); for (int a = 0; a < s.rank; ++a) y[a] %= X.s.d[a]; Y[i] = X.at(y); }
  return Y;
}
SX_TEST(tile) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 1, 2), 2}); Ten<int64_t> R({2});
  X.any("x"); R[0] = sx_pick("r0", 0, 3); R[1] = sx_pick("r1", 0, 3);
  const int64_t k[] = {2, 3};
  Call c = run(tile, o, X, R);
  expect(c, 0, tiled(X, k)); expect(c, 1, tiled(X, R.v));
  done(c);
  sx_reach("tile");
}
static Ten<I> ex(const Ten<I> &X, const Shape &t) { Shape s = broadcast(X.s, t); Ten<I> Y(s); FOR(Y) Y[i] = X.bc(s, unlin(s, i)); return Y; }
SX_TEST(expand) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 3);
  Ten<I> X({A, 1, 2}); Ten<int64_t> S({3}), T({4});
  X.any("x");
  Shape s = {A == 1 ? sx_pick("s0", 1, 2) : sx_pick("s0", 0, 1) ? A : 1, sx_pick("s1", 1, 3), sx_pick("s2", 1, 2)}, t = {sx_pick("t", 1, 2), s.d[0], s.d[1], 1};
  for (int k = 0; k < 3; ++k) S[k] = s.d[k];
  for (int k = 0; k < 4; ++k) T[k] = t.d[k];
  Call c = run(expand, o, X, S, T);
  expect(c, 0, ex(X, s)); expect(c, 1, ex(X, t)); expect(c, 2, ex(X, {3, 1}));
  done(c);
  sx_reach("expand");
}
SX_TEST(constantOfShape) {
  int o = optLevel();
  Ten<int64_t> S({2});
  S[0] = sx_pick("s0", 0, 3); S[1] = sx_pick("s1", 0, 3);
  Ten<I> Y0({S[0], S[1]}); Ten<float> Y1(Y0.s);
  FOR(Y0) { Y0[i] = 7; Y1[i] = 0; }
  Call c = run(cofs, o, S);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
}
static Ten<I> spaceToDepth(const Ten<I> &Z) {
  int64_t C = Z.s.d[1];
  Ten<I> Y({Z.s.d[0], 4 * C, Z.s.d[2] / 2, Z.s.d[3] / 2});
  FOR(Y) { Ix y = unlin(Y.s, i); int64_t b = y[1] / C; Y[i] = Z.at({y[0], y[1] % C, y[2] * 2 + b / 2, y[3] * 2 + b % 2}); }
  return Y;
}
SX_TEST(spaceDepthChannels) {
  int o = optLevel();
  Ten<I> Z({1, 2, 4, 2});
  Z.any("z");
  sx_context("SpaceToDepth with more than one channel");
  Call c = run(s2d, o, Z);
  expect(c, 0, spaceToDepth(Z));
  done(c);
}
static void depthSpaces(int dyn) {
  int o = optLevel();
  int64_t A = dyn ? sx_pick("A", 0, 1) : 1, B = dyn ? sx_pick("B", 1, 2) : 2;
  if (dyn) sx_context("DepthToSpace or SpaceToDepth with dynamic dimensions");
  Ten<I> X({A, 8, B, 2}), Z({A, 1, 4, 4});
  X.any("x"); Z.any("z");
  Ten<I> Y0({A, 2, 2 * B, 4}), Y1(Y0.s), Y2 = spaceToDepth(Z);
  FOR(Y0) {
    Ix y = unlin(Y0.s, i); int64_t bh = y[2] % 2, bw = y[3] % 2;
    Y0[i] = X.at({y[0], (bh * 2 + bw) * 2 + y[1], y[2] / 2, y[3] / 2});
    Y1[i] = X.at({y[0], y[1] * 4 + bh * 2 + bw, y[2] / 2, y[3] / 2});
  }
  Call c = run(dyn ? d2s : d2sStatic, o, X, Z);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  if (!dyn) sx_reach("depth to space");
}
SX_TEST(depthSpace) { depthSpaces(0); }
SX_TEST(depthSpaceDynamic) { depthSpaces(1); }
SX_TEST(compress) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2), C = sx_pick("C", 0, A);
  Ten<I> X({A, 3}); Ten<bool> K({C}), L({3});
  X.any("x"); K.any("k"); L.any("l");
  Call c = run(compress, o, X, K, L);
  int64_t ks = 0, ls = 0; int64_t kp[3], lp[3];
  for (int64_t i = 0; i < C; ++i) if (sx_concrete(K[i])) kp[ks++] = i;
  for (int64_t i = 0; i < 3; ++i) if (sx_concrete(L[i])) lp[ls++] = i;
  Ten<I> Y0({ks, 3}), Y1({A, ls}), Y2({ks});
  FOR(Y0) Y0[i] = X.at({kp[i / 3], i % 3});
  FOR(Y1) Y1[i] = X.at({i / ls, lp[i % ls]});
  FOR(Y2) Y2[i] = X[kp[i]];
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  sx_reach("compress");
}
SX_TEST(reverseSequence) {
  int o = optLevel();
  int64_t A = sx_pick("A", 1, 2);
  Ten<I> X({3, A, 2}); Ten<int64_t> L({A}), M({3});
  X.any("x");
  for (int i = 0; i < A; ++i) L[i] = sx_pick("l", 0, 3);
  for (int i = 0; i < 3; ++i) M[i] = sx_pick("m", 0, A);
  Ten<I> Y0(X.s), Y1(X.s);
  FOR(X) {
    Ix x = unlin(X.s, i), y = x, z = x; int64_t t = x[0], b = x[1];
    if (t < L[b]) y[0] = L[b] - 1 - t;
    Y0[i] = X.at(y);
    if (b < M[t]) z[1] = M[t] - 1 - b;
    Y1[i] = X.at(z);
  }
  Call c = run(revseq, o, X, L, M);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("reverse sequence");
}
SX_TEST(trilu) {
  int o = optLevel();
  Ten<I> X({2, sx_pick("A", 0, 3), sx_pick("B", 1, 3)}); Ten<int64_t> K{Shape()};
  X.any("x"); K[0] = sx_pick("k", -4, 4);
  Ten<I> Y0(X.s), Y1(X.s), Y2(X.s);
  FOR(X) { Ix x = unlin(X.s, i); int64_t d = x[2] - x[1]; Y0[i] = d >= K[0] ? X[i] : 0; Y1[i] = d <= K[0] ? X[i] : 0; Y2[i] = d >= 0 ? X[i] : 0; }
  Call c = run(trilu, o, X, K);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2);
  done(c);
  sx_reach("trilu");
}
SX_TEST(oneHot) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 2), D = sx_pick("D", 1, 3);
  Ten<int64_t> J({A}), Dd{Shape()}; Ten<I> V({2});
  J.range("j", -4, 4); Dd[0] = D; V.any("v");
  Ten<I> Y0({A, D}), Y1({D, A});
  for (int64_t a = 0; a < A; ++a) for (int64_t d = 0; d < D; ++d) { int64_t j = J[a]; bool hit = j >= -D && j < D && (j < 0 ? j + D : j) == d; Y0.at({a, d}) = Y1.at({d, a}) = hit ? V[1] : V[0]; }
  Call c = run(onehot, o, J, Dd, V);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("one hot");
}
SX_TEST(nonZero) {
  int o = optLevel();
  Ten<I> X({sx_pick("A", 0, 2), 2}); Ten<bool> B({3});
  X.any("x"); B.any("b");
  int64_t n = 0, m = 0, p[4], q[3];
  FOR(X) if (X[i] != 0) p[n++] = i;
  FOR(B) if (B[i]) q[m++] = i;
  Ten<int64_t> Y0({2, n}), Y1({1, m});
  for (int64_t k = 0; k < n; ++k) { Y0.at({0, k}) = p[k] / 2; Y0.at({1, k}) = p[k] % 2; }
  for (int64_t k = 0; k < m; ++k) Y1[k] = q[k];
  for (int64_t k = 1; k < n; ++k) if (p[k] % 2 < p[k - 1] % 2) sx_context("NonZero with nonzero elements further left in a later row");
  Call c = run(nonzero, o, X, B);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("non zero");
}
SX_TEST(range) {
  int o = optLevel();
  Ten<int64_t> S{Shape()}, L{Shape()}, D{Shape()}; Ten<float> F{Shape()}, G{Shape()}, H{Shape()};
  int64_t s = sx_pick("s", -2, 3), l = sx_pick("l", -3, 4), d = sx_pick("d", -3, 3);
  sx_assume(d != 0);
  S[0] = s; L[0] = l; D[0] = d; F[0] = (float)s / 2; G[0] = (float)l / 2; H[0] = (float)d / 2;
  int64_t n = d > 0 ? (l > s ? (l - s + d - 1) / d : 0) : (s > l ? (s - l - d - 1) / -d : 0);
  Ten<int64_t> Y0({n}); Ten<float> Y1({n});
  FOR(Y0) { Y0[i] = s + i * d; Y1[i] = (float)(s + i * d) / 2; }
  if (d > 0 ? l - s <= -d : s - l <= d) sx_context("Range whose limit lies behind its start");
  Call c = run(rangeOp, o, S, L, D, F, G, H);
  expect(c, 0, Y0); expect(c, 1, Y1);
  done(c);
  sx_reach("range");
}
SX_TEST(shape) {
  int o = optLevel();
  int64_t A = sx_pick("A", 0, 3), B = sx_pick("B", 0, 3);
  Ten<I> X({A, 2, B}); Ten<int64_t> Y0({3}), Y1({2}), Y2({2}), Y3{Shape()};
  X.any("x"); Y0.set({A, 2, B}); Y1.set({2, B}); Y2.set({A, 2}); Y3[0] = A * 2 * B;
  Call c = run(shapeOf, o, X);
  expect(c, 0, Y0); expect(c, 1, Y1); expect(c, 2, Y2); expect(c, 3, Y3); expect(c, 4, X);
  done(c);
  sx_reach("shape");
}
