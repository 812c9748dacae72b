// C06: the category tables built at compile time and the lookup done at run
// time agree: every key finds its own index, anything else stays in range.
#include "rtdecl.h"
#include "src/Conversion/ONNXToKrnl/PerfectHash.hpp"
#include <string>
extern "C" uint64_t find_index_str(const char *str, const int32_t G[], const int32_t V[], int32_t dictSize);
extern "C" uint64_t find_index_i64(int64_t val, const int32_t G[], const int32_t V[], int32_t dictSize);
using namespace onnx_mlir;
static bool less(const char *a, const char *b) { return strcmp(a, b) < 0; }
static void strDict(char keys[][8], int n, const char *other) {
  std::map<llvm::StringRef, int32_t> m;
  for (int i = 0; i < n; ++i) m[llvm::StringRef(keys[i])] = i;
  PerfectHash<llvm::StringRef, int32_t> ph(m);
  sx_assert((int)ph.getG().size() == n && (int)ph.getV().size() == n, "table size is the dictionary size");
  for (int i = 0; i < n; ++i)
    sx_assert(find_index_str(keys[i], ph.getG().data(), ph.getV().data(), n) == (uint64_t)i, "string key finds its own index");
  if (other) sx_assert(find_index_str(other, ph.getG().data(), ph.getV().data(), n) < (uint64_t)n, "unknown string stays in range");
}
// Up to two strings of arbitrary bytes.
SX_TEST(strings) {
  int n = (int)sx_pick("n", 1, sx_thorough() ? 2 : 1);
  char k[2][8] = {};
  for (int i = 0; i < n; ++i) { int len = (int)sx_pick("len", 1, n == 1 || (i == 0 && sx_thorough()) ? 2 : 1); for (int j = 0; j < len; ++j) { k[i][j] = (char)sx_u8("c"); sx_assume(k[i][j] != 0); } }
  if (n == 2) sx_assume(strcmp(k[0], k[1]) != 0);
  strDict(k, n, nullptr);
  if (n == 2) sx_reach("thorough:two strings");
}
// Larger dictionaries: fixed words and one arbitrary key.
SX_TEST(words) {
  static const char *W[7] = {"cat", "dog", "cow", "horse", "a", "c", "e"};
  int n = (int)sx_pick("n", 2, sx_thorough() ? 7 : 4), start = (int)sx_pick("start", 0, sx_thorough() ? 3 : 1);
  char k[8][8] = {};
  for (int i = 1; i < n; ++i) strcpy(k[i], W[(start + i - 1) % 7]);
  int len = (int)sx_pick("len", 0, sx_thorough() ? 2 : 1);
  for (int j = 0; j < len; ++j) { k[0][j] = (char)sx_u8("c"); sx_assume(k[0][j] != 0); }
  for (int j = 1; j < n; ++j) sx_assume(strcmp(k[0], k[j]) != 0);
  strDict(k, n, nullptr);
  sx_reach("words");
}
// A string that is in no dictionary still maps into the table.
SX_TEST(unknown) {
  static const char *W[4] = {"cat", "dog", "cow", "horse"};
  int n = (int)sx_pick("n", 1, 4);
  char k[4][8] = {}, other[4] = {};
  for (int i = 0; i < n; ++i) strcpy(k[i], W[i]);
  int len = (int)sx_pick("len", 0, sx_thorough() ? 2 : 1);
  for (int j = 0; j < len; ++j) other[j] = (char)sx_u8("o");
  strDict(k, n, other);
  sx_reach("unknown string");
}
static void intDict(const int64_t *k, int n, const int64_t *other) {
  std::map<int64_t, int32_t> m;
  for (int i = 0; i < n; ++i) m[k[i]] = i;
  PerfectHash<int64_t, int32_t> ph(m);
  for (int i = 0; i < n; ++i)
    sx_assert(find_index_i64(k[i], ph.getG().data(), ph.getV().data(), n) == (uint64_t)i, "integer key finds its own index");
  if (other) sx_assert(find_index_i64(*other, ph.getG().data(), ph.getV().data(), n) < (uint64_t)n, "unknown integer stays in range");
}
static const int64_t F[8] = {INT64_MIN, 1, INT64_MAX, -1000000000000000000ll, -1000000000000000001ll, 7, 3, 4294967296ll};
// Fixed integers, also extreme ones, and one arbitrary small one.
SX_TEST(ints) {
  int n = (int)sx_pick("n", 1, sx_thorough() ? 5 : 3), start = (int)sx_pick("start", 0, sx_thorough() ? 4 : n == 3 ? 0 : 2);
  int64_t k[8];
  k[0] = sx_range("k", sx_thorough() ? -99 : -12, sx_thorough() ? 999 : 20);
  for (int i = 1; i < n; ++i) k[i] = F[start + i - 1];
  for (int i = 1; i < n; ++i) sx_assume(k[0] != k[i]);
  intDict(k, n, nullptr);
  if (n > 2) sx_reach("ints");
}
SX_TEST(intExtremes) {
  int a = (int)sx_pick("a", 0, 5), b = (int)sx_pick("b", a + 1, 6), c = (int)sx_pick("c", b + 1, 7);
  int64_t k[3] = {F[a], F[b], F[c]};
  intDict(k, 3, nullptr);
  sx_reach("extremes");
}
SX_TEST(unknownInt) {
  int n = (int)sx_pick("n", 1, 4);
  int64_t o = sx_range("o", sx_thorough() ? -999 : -20, sx_thorough() ? 9999 : 120);
  intDict(F, n, &o);
  sx_reach("unknown integer");
}
