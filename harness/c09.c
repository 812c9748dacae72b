// C09: random generators: range, count, dependence on the seed, mean and scale.
#include "rtdecl.h"
#include <math.h>
void get_random_normal_value_f64(double *result, long long size, double mean, double scale, double seed);
void get_random_normal_value_f32(float *result, long long size, float mean, float scale, float seed);
OMTensor *run_uniform_random(OMTensor *, float low, float high, float seed);
// Stand-in for the C library's generator: an arbitrary sequence per seed.
#define NSEED 3
#define NDRAW 16
static uint32_t table[NSEED][NDRAW]; static int have[NSEED]; static unsigned seeds[NSEED]; static int nseed, cur = -1, drawn, total;
void __wrap_srand(unsigned s) {
  drawn = 0;
  for (int i = 0; i < nseed; ++i) if (seeds[i] == s) { cur = i; return; }
  cur = nseed++; seeds[cur] = s;
}
int __wrap_rand(void) {
  sx_assert(cur >= 0, "the generator is seeded before it is used");
  sx_assume(drawn < NDRAW);
  if (drawn >= have[cur]) { table[cur][drawn] = (uint32_t)sx_u64("rand", 31); have[cur] = drawn + 1; }
  ++total;
  return (int)table[cur][drawn++];
}
// Elementary functions: any value of their range, the same for the same call.
static double logs[NDRAW], coss[NDRAW]; static int nl, nc;
static int replayLib; // second run: hand out the values of the first
double __wrap_log(double x) {
  sx_assert(x > 0 && x <= 1, "logarithm of a value in (0, 1]");
  if (replayLib) return logs[nl++];
  static const double V[3] = {-2, -0.125, -8}; // square roots are exact
  return logs[nl++] = V[sx_pick("log", 0, sx_thorough() ? 2 : 1)];
}
double __wrap_cos(double x) {
  sx_assert(x >= 0 && x <= 6.2832, "angle within one turn");
  if (replayLib) return coss[nc++];
  return coss[nc++] = (double)sx_range("cos", -16, 16) / 16;
}
SX_TEST(uniformF32) {
  static const float L[4] = {0, -1, 0.5f, -1000}, H[4] = {1, 1, 0.75f, 3000};
  int k = (int)sx_pick("k", 0, 3), n = (int)sx_pick("n", 0, 2);
  float seed = (float)sx_pick("seed", 0, 1), out[3] = {-7777, -7777, -7777}, two[3];
  int64_t d[1] = {n};
  OMTensor *t = omTensorCreate(out, d, 1, ONNX_TYPE_FLOAT), *u = omTensorCreate(two, d, 1, ONNX_TYPE_FLOAT);
  sx_assert(run_uniform_random(t, L[k], H[k], seed) == t, "the output tensor is returned");
  for (int i = 0; i < n; ++i) sx_assert(out[i] >= L[k] && out[i] <= H[k], "uniform float value within its bounds");
  sx_assert(out[n] == -7777, "exactly the requested number of values");
  sx_assert(run_uniform_random(u, L[k], H[k], seed) == u, "the output tensor is returned");
  for (int i = 0; i < n; ++i) sx_assert(out[i] == two[i], "the seed determines the values");
  if (n == 2) {
    if (out[0] != out[1]) sx_reach("distinct draws");
    float a = out[0]; seed += 40; run_uniform_random(u, L[k], H[k], seed);
    if (two[0] != a) sx_reach("another seed gives other values");
  }
  omTensorDestroy(t); omTensorDestroy(u);
}
SX_TEST(uniformF64) {
  static const float L[3] = {0, -1, -1000}, H[3] = {1, 3, 3096};
  int k = (int)sx_pick("k", 0, 2), n = (int)sx_pick("n", 0, 2);
  float seed = (float)sx_pick("seed", 0, 1); double out[3] = {-7777, -7777, -7777}, two[3];
  int64_t d[1] = {n};
  OMTensor *t = omTensorCreate(out, d, 1, ONNX_TYPE_DOUBLE), *u = omTensorCreate(two, d, 1, ONNX_TYPE_DOUBLE);
  sx_assert(run_uniform_random(t, L[k], H[k], seed) == t, "the output tensor is returned");
  for (int i = 0; i < n; ++i) {
    sx_assert(out[i] >= L[k] && out[i] <= H[k], "uniform double value within its bounds");
    sx_assert(out[i] == L[k] + (double)table[0][i] / 2147483648.0 * (H[k] - L[k]), "uniform double value scales the draw");
  }
  sx_assert(out[n] == -7777, "exactly the requested number of values");
  run_uniform_random(u, L[k], H[k], seed);
  for (int i = 0; i < n; ++i) sx_assert(out[i] == two[i], "the seed determines the values");
  if (n == 2) sx_reach("uniform double");
  omTensorDestroy(t); omTensorDestroy(u);
}
SX_TEST(uniformOther) {
  int dt = (int)sx_pick("dtype", 0, NT - 1);
  if (dt == ONNX_TYPE_FLOAT || dt == ONNX_TYPE_DOUBLE) return;
  int64_t d[1] = {2}; uint64_t buf[4] = {1, 2, 3, 4};
  OMTensor *t = omTensorCreate(buf, d, 1, (OM_DATA_TYPE)dt);
  sx_assert(run_uniform_random(t, 0, 1, 0) == NULL, "other element types are refused");
  sx_assert(buf[0] == 1 && buf[1] == 2 && buf[2] == 3 && buf[3] == 4, "and left alone");
  sx_reach("uniform other");
  omTensorDestroy(t);
}
// Normal values: mean + scale * z, where z depends on the seed only.
SX_TEST(normalF64) {
  int n = (int)sx_pick("n", 0, 2);
  double z[3] = {-7777, -7777, -7777}, v[3] = {0}, seed = (double)sx_pick("seed", 0, 2);
  get_random_normal_value_f64(z, n, 0, 1, seed);
  sx_assert(z[n] == -7777, "exactly the requested number of values");
  int used = total;
  nl = nc = 0; replayLib = 1;
  double mean = (double)sx_pick("mean", -1, 1) * 3.5, scale = (double)sx_pick("scale", 0, 2);
  get_random_normal_value_f64(v, n, mean, scale, seed);
  sx_assert(total == 2 * used, "the number of draws depends on the size only");
  for (int i = 0; i < n; ++i) { sx_assert(v[i] == z[i] * scale + mean, "normal value is mean plus scale times z, z determined by the seed"); sx_assert(z[i] >= -44 && z[i] <= 44, "z is finite"); }
  if (n == 2) { if (z[0] != z[1]) sx_reach("distinct normal draws"); }
}
SX_TEST(normalF32) {
  int n = (int)sx_pick("n", 0, 2);
  float z[3] = {-7777, -7777, -7777}, v[3] = {0}, seed = (float)sx_pick("seed", 0, 2);
  get_random_normal_value_f32(z, n, 0, 1, seed);
  sx_assert(z[n] == -7777, "exactly the requested number of values");
  int used = total;
  nl = nc = 0; replayLib = 1;
  float mean = (float)sx_pick("mean", -1, 1) * 3.5f, scale = (float)sx_pick("scale", 0, 2);
  get_random_normal_value_f32(v, n, mean, scale, seed);
  sx_assert(total == 2 * used, "the number of draws depends on the size only");
  for (int i = 0; i < n; ++i) { sx_assert(v[i] == z[i] * scale + mean, "normal float value is mean plus scale times z, z determined by the seed"); sx_assert(z[i] >= -44 && z[i] <= 44, "z is finite"); }
  if (n == 2) sx_reach("normal float");
}
