// Native implementation of sx.h: replays one concrete input vector against the
// real code (built with AddressSanitizer, no symbolic instrumentation).
#include "sx.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <new>
#include <vector>
#define API extern "C" __attribute__((visibility("default")))
struct In { std::string name; uint64_t val; };
struct T { std::string n; sx_testfn f; };
static std::vector<In> *ins; static size_t pos; static std::vector<T> *tests; static void (*initFn)(void);
static bool on = false; static long live = 0;
// Live/freed block table (open addressing, no allocation through the wrapped family).
static const size_t TB = 1 << 20; static void **tp; static signed char *ts;
static size_t slot(void *p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 44; h &= TB - 1; while (tp[h] && tp[h] != p) h = (h + 1) & (TB - 1); return h; }
static void *note(void *p) { if (on && p) { size_t s = slot(p); tp[s] = p; ts[s] = 1; live++; } return p; }
static void drop(void *p) { if (p && tp) { size_t s = slot(p); if (tp[s] && ts[s] == 1) { ts[s] = 0; live--; } } }
static uint64_t next(const char *name, uint64_t dflt) {
  if (pos >= ins->size()) return pos++, dflt;
  if ((*ins)[pos].name != name) { fprintf(stderr, "SX-REPLAY input %zu is '%s', harness asked for '%s'\n", pos, (*ins)[pos].name.c_str(), name); _exit(4); }
  return (*ins)[pos++].val;
}
API uint64_t sx_u64(const char *n, int bits) { uint64_t v = next(n, 0); return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
API int64_t sx_range(const char *n, int64_t lo, int64_t hi) { return lo + (int64_t)next(n, 0); }
API int64_t sx_pick(const char *n, int64_t lo, int64_t hi) { return (int64_t)next(n, (uint64_t)lo); }
API void sx_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = next((std::string(name) + "[" + std::to_string(i) + "]").c_str(), 0); }
API void sx_assume(int c) { if (!c) { fprintf(stderr, "SX-REPLAY assumption does not hold\n"); _exit(3); } }
API void sx_assert_(int c, const char *m) { if (!c) { fprintf(stderr, "SX-VIOLATION %s\n", m); fflush(stderr); _exit(1); } }
API void sx_reach(const char *) {}
API int sx_is_replay(void) { return 1; }
API int64_t sx_live_allocs(void) { return live; }
API int sx_block_live(const void *p) { if (!tp) return -1; size_t s = slot((void *)p); return tp[s] ? ts[s] : -1; }
API int64_t sx_concrete(int64_t v) { return v; }
API int sx_thorough(void) { const char *e = getenv("SX_TIER"); return e && !strcmp(e, "thorough"); }
API void sx_context(const char *) {}
API void sx_log(const char *f, ...) { va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); }
API void sx_register(const char *n, sx_testfn f) { if (!tests) tests = new std::vector<T>; tests->push_back({n, f}); }
API void sx_set_init(void (*f)(void)) { initFn = f; }
static bool faults = false;
API void sx_alloc_faults(int f) { faults = f; }
static bool fails() { return on && faults && sx_pick("allocfail", 0, 1); }
API void *__wrap_malloc(size_t n) { return fails() ? nullptr : note(malloc(n)); }
API void *__wrap_calloc(size_t a, size_t b) { return fails() ? nullptr : note(calloc(a, b)); }
API void __wrap_free(void *p) { drop(p); free(p); }
API void *__wrap_realloc(void *p, size_t n) { drop(p); return note(realloc(p, n)); }
API int __wrap_posix_memalign(void **o, size_t a, size_t n) { int r = posix_memalign(o, a, n); if (!r) note(*o); return r; }
API void *__wrap_aligned_alloc(size_t a, size_t n) { return note(aligned_alloc(a, n)); }
API char *__wrap_strdup(const char *s) { return (char *)note(strdup(s)); }
API char *__wrap_strndup(const char *s, size_t n) { return (char *)note(strndup(s, n)); }
API void *__wrap__Znwm(size_t n) { return note(::operator new(n)); }
API void *__wrap__Znam(size_t n) { return note(::operator new[](n)); }
API void *__wrap__ZnwmSt11align_val_t(size_t n, size_t a) { return note(::operator new(n, (std::align_val_t)a)); }
API void *__wrap__ZnwmRKSt9nothrow_t(size_t n, void *) { return note(::operator new(n, std::nothrow)); }
API void *__wrap__ZnamRKSt9nothrow_t(size_t n, void *) { return note(::operator new[](n, std::nothrow)); }
API void __wrap__ZdlPv(void *p) { drop(p); ::operator delete(p); }
API void __wrap__ZdlPvm(void *p, size_t n) { drop(p); ::operator delete(p); }
API void __wrap__ZdlPvSt11align_val_t(void *p, size_t a) { drop(p); ::operator delete(p, (std::align_val_t)a); }
API void __wrap__ZdlPvmSt11align_val_t(void *p, size_t, size_t a) { drop(p); ::operator delete(p, (std::align_val_t)a); }
API void __wrap__ZdaPv(void *p) { drop(p); ::operator delete[](p); }
API void __wrap__ZdaPvm(void *p, size_t n) { drop(p); ::operator delete[](p); }
API void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) { fprintf(stderr, "SX-ABORT assertion failed: %s (%s:%u)\n", e, f, l); fflush(stderr); _exit(5); }
API int sx_main(int argc, char **argv) {
  // usage: replay TEST INPUTS   (INPUTS: one "<value> <name>" per line)
  if (argc < 3) return 2;
  ins = new std::vector<In>;
  FILE *f = fopen(argv[2], "r"); if (!f) return 2;
  char line[1024];
  while (fgets(line, sizeof line, f)) { char *sp = strchr(line, ' '); if (!sp) continue; std::string nm = sp + 1; while (!nm.empty() && nm.back() == '\n') nm.pop_back(); ins->push_back({nm, strtoull(line, nullptr, 10)}); }
  fclose(f);
  tp = (void **)calloc(TB, sizeof(void *)); ts = (signed char *)calloc(TB, 1);
  if (initFn) initFn();
  for (auto &t : *tests) if (t.n == argv[1]) {
    alarm(60); on = true;
    try { t.f(); } catch (...) { fprintf(stderr, "SX-ABORT uncaught exception\n"); _exit(5); }
    fprintf(stderr, "SX-REPLAY test completed without a violation\n"); fflush(stderr); _exit(0);
  }
  return 2;
}
