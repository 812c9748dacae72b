// Instrumented stand-ins for C library functions whose native versions read
// symbolic memory.  Linked with -Wl,--wrap=<name> in the symbolic build only;
// the replay build uses the real C library.
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#define W(x) __wrap_##x
size_t W(strlen)(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t W(strnlen)(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int W(strcmp)(const char *a, const char *b) {
  for (size_t i = 0;; ++i) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int W(strncmp)(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; ++i) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
int W(memcmp)(const void *a, const void *b, size_t n) {
  const unsigned char *p = a, *q = b;
  for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
  return 0;
}
int W(bcmp)(const void *a, const void *b, size_t n) {
  const unsigned char *p = a, *q = b; unsigned d = 0;
  for (size_t i = 0; i < n; ++i) d |= p[i] ^ q[i];
  return d;
}
void *W(memchr)(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
void *W(memrchr)(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n);
  return 0;
}
char *W(strchr)(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *W(strrchr)(const char *s, int c) { const char *r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *W(strstr)(const char *h, const char *n) {
  for (;; ++h) { size_t i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return (char *)h; if (!*h) return 0; }
}
char *W(strcpy)(char *d, const char *s) { size_t i = 0; for (; s[i]; ++i) d[i] = s[i]; d[i] = 0; return d; }
char *W(strncpy)(char *d, const char *s, size_t n) {
  size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d;
}
char *W(strcat)(char *d, const char *s) { size_t n = 0; while (d[n]) ++n; W(strcpy)(d + n, s); return d; }
char *W(strncat)(char *d, const char *s, size_t n) { size_t k = 0, i = 0; while (d[k]) ++k; for (; i < n && s[i]; ++i) d[k + i] = s[i]; d[k + i] = 0; return d; }
void *__wrap_malloc(size_t);
char *W(strdup)(const char *s) { size_t n = 0; while (s[n]) ++n; char *p = __wrap_malloc(n + 1); if (p) for (size_t i = 0; i <= n; ++i) p[i] = s[i]; return p; }
char *W(strndup)(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; char *p = __wrap_malloc(n + 1); if (p) { for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; } return p; }
int W(isspace)(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int W(isdigit)(int c) { return c >= '0' && c <= '9'; }
int W(isupper)(int c) { return c >= 'A' && c <= 'Z'; }
int W(islower)(int c) { return c >= 'a' && c <= 'z'; }
int W(isalpha)(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int W(isalnum)(int c) { return W(isalpha)(c) || W(isdigit)(c); }
int W(isxdigit)(int c) { return W(isdigit)(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int W(isprint)(int c) { return c >= 32 && c < 127; }
int W(ispunct)(int c) { return c > 32 && c < 127 && !W(isalnum)(c); }
int W(tolower)(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int W(toupper)(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

static unsigned long long sto(const char *s, char **e, int base, int isSigned) {
  const char *p = s; int neg = 0, any = 0, over = 0;
  while (W(isspace)((unsigned char)*p)) ++p;
  if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && W(isxdigit)((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0, lim = isSigned ? (neg ? 1ULL << 63 : LLONG_MAX) : ULLONG_MAX;
  for (;; ++p) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    any = 1;
    if (over) continue;
    if (v > (lim - d) / base) { over = 1; continue; }
    v = v * base + d;
  }
  if (e) *e = (char *)(any ? p : s);
  if (over) { errno = ERANGE; return lim; }
  return neg ? 0 - v : v;
}
long W(strtol)(const char *s, char **e, int b) { return (long)sto(s, e, b, 1); }
long long W(strtoll)(const char *s, char **e, int b) { return (long long)sto(s, e, b, 1); }
unsigned long W(strtoul)(const char *s, char **e, int b) { return sto(s, e, b, 0); }
unsigned long long W(strtoull)(const char *s, char **e, int b) { return sto(s, e, b, 0); }
long W(__isoc23_strtol)(const char *s, char **e, int b) { return (long)sto(s, e, b, 1); }
long long W(__isoc23_strtoll)(const char *s, char **e, int b) { return (long long)sto(s, e, b, 1); }
unsigned long W(__isoc23_strtoul)(const char *s, char **e, int b) { return sto(s, e, b, 0); }
unsigned long long W(__isoc23_strtoull)(const char *s, char **e, int b) { return sto(s, e, b, 0); }
int W(atoi)(const char *s) { return (int)sto(s, 0, 10, 1); }
long W(atol)(const char *s) { return (long)sto(s, 0, 10, 1); }
long long W(atoll)(const char *s) { return (long long)sto(s, 0, 10, 1); }

// Insertion sort is a legal qsort (the order of equal elements is unspecified).
void W(qsort_r)(void *b, size_t n, size_t w, int (*c)(const void *, const void *, void *), void *a) {
  char *p = b, *t = __wrap_malloc(w ? w : 1);
  void __wrap_free(void *);
  for (size_t i = 1; i < n; ++i) {
    for (size_t k = 0; k < w; ++k) t[k] = p[i * w + k];
    size_t j = i;
    while (j > 0 && c(p + (j - 1) * w, t, a) > 0) { for (size_t k = 0; k < w; ++k) p[j * w + k] = p[(j - 1) * w + k]; --j; }
    for (size_t k = 0; k < w; ++k) p[j * w + k] = t[k];
  }
  __wrap_free(t);
}
static int q0(const void *a, const void *b, void *c) { return ((int (*)(const void *, const void *))c)(a, b); }
void W(qsort)(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { W(qsort_r)(b, n, w, q0, (void *)c); }
void *W(bsearch)(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) {
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t m = (lo + hi) / 2; int r = c(k, (const char *)b + m * w); if (!r) return (void *)((const char *)b + m * w); if (r < 0) hi = m; else lo = m + 1; }
  return 0;
}
// Text output is not observable in these harnesses.
__attribute__((weak)) int W(printf)(const char *f, ...) { return 0; }
__attribute__((weak)) int W(fprintf)(FILE *f, const char *s, ...) { return 0; }
__attribute__((weak)) int W(vfprintf)(FILE *f, const char *s, va_list a) { return 0; }
__attribute__((weak)) int W(puts)(const char *s) { return 0; }
__attribute__((weak)) int W(fputs)(const char *s, FILE *f) { return 0; }
__attribute__((weak)) int W(putchar)(int c) { return c; }
__attribute__((weak)) int W(fputc)(int c, FILE *f) { return c; }
__attribute__((weak)) size_t W(fwrite)(const void *p, size_t s, size_t n, FILE *f) { return n; }
__attribute__((weak)) int W(fflush)(FILE *f) { return 0; }

// std::_Hash_bytes(const void*, size_t, size_t): murmur, as in libstdc++ (64 bit).
static size_t smix(size_t v) { return v ^ (v >> 47); }
size_t W(_ZSt11_Hash_bytesPKvmm)(const void *ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const unsigned char *buf = ptr; size_t al = len & ~(size_t)7, hash = seed ^ (len * mul);
  for (size_t i = 0; i < al; i += 8) {
    size_t w = 0; for (int k = 7; k >= 0; --k) w = (w << 8) + buf[i + k];
    hash ^= smix(w * mul) * mul; hash *= mul;
  }
  if (len & 7) { size_t w = 0; for (int k = (int)(len & 7) - 1; k >= 0; --k) w = (w << 8) + buf[al + k]; hash ^= w; hash *= mul; }
  hash = smix(hash) * mul; return smix(hash);
}
// snprintf(buf, n, "<one integer conversion>", v) for symbolic v (used through
// a macro in harness builds of the units that hash decimal strings).
int sx_fmt_i64(char *buf, size_t n, long long v) {
  char t[24]; int k = 0, neg = v < 0; unsigned long long u = neg ? 0ULL - (unsigned long long)v : (unsigned long long)v;
  do { t[k++] = '0' + (char)(u % 10); u /= 10; } while (u);
  if (neg) t[k++] = '-';
  for (int i = 0; i < k; ++i) if ((size_t)i + 1 < n) buf[i] = t[k - 1 - i];
  if (n) buf[(size_t)k < n ? (size_t)k : n - 1] = 0;
  return k;
}

// llvm::SmallVectorBase<Size_T>::grow_pod(FirstEl, MinSize, TSize): the library
// version would copy elements without their shadow.
#define GROW(name, S)                                                          \
  struct sv_##S { void *begin; S size, cap; };                                 \
  void W(name)(struct sv_##S *v, void *first, size_t min, size_t ts) {         \
    size_t nc = 2 * (size_t)v->cap + 1; if (nc < min) nc = min;                \
    void *p;                                                                   \
    if (v->begin == first) { p = malloc(nc * ts); __builtin_memcpy(p, v->begin, (size_t)v->size * ts); } \
    else p = realloc(v->begin, nc * ts);                                       \
    v->begin = p; v->cap = (S)nc;                                              \
  }
typedef unsigned int u32t; typedef unsigned long u64t;
GROW(_ZN4llvm15SmallVectorBaseIjE8grow_podEPvmm, u32t)
GROW(_ZN4llvm15SmallVectorBaseImE8grow_podEPvmm, u64t)
#define MFG(name, S)                                                           \
  void *W(name)(struct sv_##S *v, void *first, size_t min, size_t ts, size_t *newcap) { \
    size_t nc = 2 * (size_t)v->cap + 1; if (nc < min) nc = min;                \
    *newcap = nc; return malloc(nc * ts);                                      \
  }
MFG(_ZN4llvm15SmallVectorBaseIjE13mallocForGrowEPvmmRm, u32t)
MFG(_ZN4llvm15SmallVectorBaseImE13mallocForGrowEPvmmRm, u64t)
void *W(_ZN4llvm15allocate_bufferEmm)(size_t n, size_t al) { return malloc(n); }
void W(_ZN4llvm17deallocate_bufferEPvmm)(void *p, size_t n, size_t al) { free(p); }

// Rounding to integer (round to nearest even mode); values out of range give
// LLONG_MIN as on x86-64.
static long long toll(double r) { return r >= -9223372036854775808.0 && r < 9223372036854775808.0 ? (long long)r : (-9223372036854775807LL - 1); }
long long W(llrint)(double x) { return toll(__builtin_rint(x)); }
long W(lrint)(double x) { return toll(__builtin_rint(x)); }
long long W(llrintf)(float x) { return toll(__builtin_rintf(x)); }
long W(lrintf)(float x) { return toll(__builtin_rintf(x)); }
long long W(llround)(double x) { return toll(__builtin_round(x)); }
long W(lround)(double x) { return toll(__builtin_round(x)); }
long long W(llroundf)(float x) { return toll(__builtin_roundf(x)); }
long W(lroundf)(float x) { return toll(__builtin_roundf(x)); }
#define CLS(f, T, U, INF)                                                                                              \
  int W(__isnan##f)(T x) { U u; __builtin_memcpy(&u, &x, sizeof u); return (U)(u << 1) > (U)((U)(INF) << 1); }         \
  int W(__isinf##f)(T x) { U u; __builtin_memcpy(&u, &x, sizeof u); return (U)(u << 1) != (U)((U)(INF) << 1) ? 0 : u >> (8 * sizeof u - 1) ? -1 : 1; } \
  int W(isnan##f)(T x) { U u; __builtin_memcpy(&u, &x, sizeof u); return (U)(u << 1) > (U)((U)(INF) << 1); }           \
  int W(isinf##f)(T x) { U u; __builtin_memcpy(&u, &x, sizeof u); return (U)(u << 1) != (U)((U)(INF) << 1) ? 0 : u >> (8 * sizeof u - 1) ? -1 : 1; }
CLS(f, float, uint32_t, 0x7f800000)
CLS(, double, uint64_t, 0x7ff0000000000000)
