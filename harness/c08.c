// C08: the Resize run-time routine interpolates as ONNX prescribes
// (half_pixel coordinates, edge clamping, nearest = round_prefer_floor).
#include "rtdecl.h"
void Resize_Scales(OMTensor *out, OMTensor *data, OMTensor *scales, char *mode, char *nearest_mode);
void Resize_Size(OMTensor *out, OMTensor *data, OMTensor *size, char *mode, char *nearest_mode);
#define MAXN 64
typedef struct { int rank; int64_t in[5], out[5]; int64_t nin, nout; } Geo;
static void finish(Geo *g) { g->nin = g->nout = 1; for (int i = 0; i < g->rank; ++i) { g->nin *= g->in[i]; g->nout *= g->out[i]; } }
static void run(const Geo *g, const char *mode, int bySize, float *in, float *out) {
  int64_t rs[1] = {g->rank}, size[5]; float sc[5];
  for (int i = 0; i < g->rank; ++i) { size[i] = g->out[i]; sc[i] = (float)g->out[i] / (float)g->in[i]; }
  OMTensor *ti = omTensorCreate(in, g->in, g->rank, ONNX_TYPE_FLOAT), *to = omTensorCreate(out, g->out, g->rank, ONNX_TYPE_FLOAT);
  OMTensor *ts = bySize ? omTensorCreate(size, rs, 1, ONNX_TYPE_INT64) : omTensorCreate(sc, rs, 1, ONNX_TYPE_FLOAT);
  int64_t before = sx_live_allocs();
  if (bySize) Resize_Size(to, ti, ts, (char *)mode, (char *)"round_prefer_floor"); else Resize_Scales(to, ti, ts, (char *)mode, (char *)"round_prefer_floor");
  sx_assert(sx_live_allocs() == before, "no memory is leaked");
  for (int i = 0; i < g->rank; ++i) sx_assert(bySize ? size[i] == g->out[i] : sc[i] == (float)g->out[i] / (float)g->in[i], "size and scales are not modified");
  omTensorDestroy(ti); omTensorDestroy(to); omTensorDestroy(ts);
}
static int64_t clampi(int64_t i, int64_t n) { return i < 0 ? 0 : i >= n ? n - 1 : i; }
static int64_t floordiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
// Coordinates of output o on an axis: numerator and denominator of the source position.
static void pos(const Geo *g, int ax, int64_t o, int64_t *base, int64_t *num, int64_t *den) {
  int64_t n = (2 * o + 1) * g->in[ax] - g->out[ax], d = 2 * g->out[ax]; // (o+.5)*in/out - .5
  *base = floordiv(n, d); *num = n - *base * d; *den = d;
}
static void split(const Geo *g, int64_t lin, int64_t *ix) { for (int a = g->rank - 1; a >= 0; --a) { ix[a] = lin % g->out[a]; lin /= g->out[a]; } }
static int64_t lin(const Geo *g, const int64_t *ix) { int64_t l = 0; for (int a = 0; a < g->rank; ++a) l = l * g->in[a] + ix[a]; return l; }
static void nearestCheck(const Geo *g, int bySize) {
  float in[MAXN], keep[MAXN], out[MAXN];
  for (int i = 0; i < g->nin; ++i) keep[i] = in[i] = (float)sx_range("x", -100000, 100000) / 8;
  run(g, "nearest", bySize, in, out);
  for (int64_t o = 0; o < g->nout; ++o) {
    int64_t ix[5], src[5];
    split(g, o, ix);
    for (int a = 0; a < g->rank; ++a) { int64_t b, n, d; pos(g, a, ix[a], &b, &n, &d); src[a] = clampi(2 * n <= d ? b : b + 1, g->in[a]); }
    sx_assert(out[o] == keep[lin(g, src)], "nearest picks the nearest source element, the lower of two");
  }
  for (int i = 0; i < g->nin; ++i) sx_assert(in[i] == keep[i], "input is not modified");
}
// Positions whose fraction is exactly one half in real arithmetic, while the
// scale is not exact in floating point, may round either way.
static int exactTies(int64_t in, int64_t out) {
  if ((out & (out - 1)) == 0 && (in & (in - 1)) == 0) return 1;
  if (out % in == 0 || in == out) return 1;
  for (int64_t o = 0; o < out; ++o) { int64_t n = (2 * o + 1) * in - out, d = 2 * out, f = n - floordiv(n, d) * d; if (2 * f == d || f == 0) return 0; }
  return 1;
}
SX_TEST(nearestAxis) {
  Geo g = {4, {1, 1, 1, 1}, {1, 1, 1, 1}};
  int ax = (int)sx_pick("axis", 0, 3);
  g.in[ax] = sx_pick("in", 1, sx_thorough() ? 4 : 3); g.out[ax] = sx_pick("out", 1, sx_thorough() ? 9 : 6);
  if (!exactTies(g.in[ax], g.out[ax])) return;
  finish(&g);
  int bs = (int)sx_pick("bySize", 0, 1);
  if (!bs && (int64_t)(((float)g.out[ax] / (float)g.in[ax]) * g.in[ax]) != g.out[ax]) return;
  nearestCheck(&g, bs);
  sx_reach("nearest axis");
}
SX_TEST(nearest2d) {
  Geo g = {4, {1, 2, 2, 2}, {1, 2, 4, 4}};
  int k = (int)sx_pick("k", 0, 2);
  if (k == 1) { g.in[2] = 4; g.out[2] = 2; }
  if (k == 2) { g.out[1] = 1; g.in[3] = 4; g.out[3] = 2; }
  finish(&g);
  nearestCheck(&g, (int)sx_pick("bySize", 0, 1));
  sx_reach("nearest 2d");
}
// Linear and cubic: small integer data, scales that are powers of two, so that
// every intermediate value is exact and the result is independent of the
// order of evaluation. Fixed point with `unit` = den^k.
static int64_t wlin(int64_t k, int64_t num, int64_t den) { return k == 0 ? den - num : num; } // over den
static int64_t cube(int64_t x, int64_t d, int far) { // Keys kernel, A=-3/4, x/d in [0,1) near, [1,2) far; over 4 d^3
  return far ? -3 * x * x * x + 15 * x * x * d - 24 * x * d * d + 12 * d * d * d : 5 * x * x * x - 9 * x * x * d + 4 * d * d * d;
}
static int64_t wcub(int64_t k, int64_t num, int64_t den) {
  return k == 0 ? cube(num + den, den, 1) : k == 1 ? cube(num, den, 0) : k == 2 ? cube(den - num, den, 0) : cube(2 * den - num, den, 1);
}
static void interp(const Geo *g, int cubic, int bySize, int lim) {
  float in[MAXN], out[MAXN]; int64_t v[MAXN];
  for (int i = 0; i < g->nin; ++i) { v[i] = sx_range("v", -lim, lim); in[i] = (float)v[i]; }
  run(g, cubic ? "cubic" : bySize ? "linear" : "linear_onnx" , bySize, in, out);
  int nc = cubic ? 4 : 2;
  for (int64_t o = 0; o < g->nout; ++o) {
    int64_t ix[5], acc = 0, unit = 1;
    split(g, o, ix);
    int64_t base[5], num[5], den[5];
    for (int a = 0; a < g->rank; ++a) { pos(g, a, ix[a], &base[a], &num[a], &den[a]); while (num[a] % 2 == 0 && den[a] % 2 == 0) { num[a] /= 2; den[a] /= 2; } if (!num[a]) den[a] = 1; unit *= cubic ? 4 * den[a] * den[a] * den[a] : den[a]; }
    int64_t tot = 1; for (int a = 0; a < g->rank; ++a) tot *= nc;
    for (int64_t c = 0; c < tot; ++c) {
      int64_t w = 1, src[5], r = c;
      for (int a = 0; a < g->rank; ++a) { int64_t k = r % nc; r /= nc; w *= cubic ? wcub(k, num[a], den[a]) : wlin(k, num[a], den[a]); src[a] = clampi(base[a] + k - (cubic ? 1 : 0), g->in[a]); }
      if (w) acc += w * v[lin(g, src)];
    }
    sx_assert((double)out[o] * (double)unit == (double)acc, cubic ? "cubic interpolation value" : "linear interpolation value");
  }
}
SX_TEST(linear) {
  Geo g = {4, {1, 1, 1, 1}, {1, 1, 1, 1}};
  int ax = (int)sx_pick("axis", 0, 3);
  static const int64_t IO[6][2] = {{2, 4}, {3, 6}, {2, 1}, {4, 2}, {1, 4}, {2, 8}};
  int k = (int)sx_pick("k", 0, sx_thorough() ? 5 : 4);
  g.in[ax] = IO[k][0]; g.out[ax] = IO[k][1];
  finish(&g);
  interp(&g, 0, (int)sx_pick("bySize", 0, 1), 100);
  sx_reach("linear");
}
SX_TEST(linear2d) {
  Geo g = {4, {1, 1, 2, 2}, {1, 1, 4, 4}};
  if (sx_pick("k", 0, sx_thorough() ? 1 : 0)) { g.in[1] = g.out[1] = 2; g.in[2] = 1; g.out[2] = 2; }
  finish(&g);
  interp(&g, 0, (int)sx_pick("bySize", 0, 1), 8);
  sx_reach("linear 2d");
}
SX_TEST(cubic) {
  Geo g = {4, {1, 1, 1, 1}, {1, 1, 1, 1}};
  int ax = (int)sx_pick("axis", 2, 3);
  static const int64_t IO[5][2] = {{2, 4}, {4, 2}, {3, 6}, {5, 10}, {1, 2}};
  int k = (int)sx_pick("k", 0, sx_thorough() ? 4 : 2);
  g.in[ax] = IO[k][0]; g.out[ax] = IO[k][1];
  finish(&g);
  interp(&g, 1, (int)sx_pick("bySize", 0, 1), 8);
  sx_reach("cubic");
}
// Other ranks.
SX_TEST(ranks) {
  int r = (int)sx_pick("rank", 1, 5);
  Geo g = {r, {1, 1, 1, 1, 1}, {1, 1, 1, 1, 1}};
  g.in[r - 1] = 2; g.out[r - 1] = 4;
  if (r > 1) { g.in[r - 2] = 2; g.out[r - 2] = 1; }
  finish(&g);
  if (sx_pick("nearest", 0, 1)) nearestCheck(&g, 1); else interp(&g, 0, 0, 8);
  if (r == 5) sx_reach("rank 5");
}
