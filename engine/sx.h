// Harness API shared by the symbolic build (libsxrt) and the native replay
// build (sxreplay.cpp).  A harness is a set of SX_TEST bodies; every value
// obtained from sx_* input functions is a symbolic variable (or, for sx_pick, a
// case split over a small range), and every sx_assert is decided by the solver
// for all values of those variables that follow the current path.
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sx_u64(const char *name, int bits);           // arbitrary bits-wide value
int64_t sx_range(const char *name, int64_t lo, int64_t hi); // arbitrary in [lo,hi]
int64_t sx_pick(const char *name, int64_t lo, int64_t hi);  // case split, concrete
void sx_bytes(void *p, size_t n, const char *name);    // arbitrary memory contents
void sx_assume(int cond);
void sx_assert_(int cond, const char *msg);
void sx_reach(const char *label);                      // non-vacuity witness
int sx_is_replay(void);
int64_t sx_live_allocs(void);  // live heap blocks allocated by instrumented code (replay: mallinfo-free -1)
int64_t sx_concrete(int64_t v);                        // split over all feasible values
int sx_block_live(const void *p);   // 1: start of a live heap block, 0: freed, -1: unknown
void sx_alloc_faults(int on);         // malloc/calloc may fail (case split per call)
int sx_thorough(void);               // 1 in the thorough tier
void sx_log(const char *fmt, ...);
void sx_context(const char *c);       // named in every violation from here on; 0 clears it
typedef void (*sx_testfn)(void);
void sx_register(const char *name, sx_testfn f);
void sx_set_init(void (*f)(void));
#ifdef __cplusplus
}
#endif
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
#define SX_CAT2(a, b) a##b
#define SX_CAT(a, b) SX_CAT2(a, b)
#define SX_TEST(n)                                                             \
  static void sx_test_##n(void);                                               \
  __attribute__((constructor)) static void sx_reg_##n(void) {                  \
    sx_register(#n, sx_test_##n);                                              \
  }                                                                            \
  static void sx_test_##n(void)
static inline uint8_t sx_u8(const char *n) { return (uint8_t)sx_u64(n, 8); }
static inline uint16_t sx_u16(const char *n) { return (uint16_t)sx_u64(n, 16); }
static inline uint32_t sx_u32(const char *n) { return (uint32_t)sx_u64(n, 32); }
static inline int64_t sx_i64(const char *n) { return (int64_t)sx_u64(n, 64); }
static inline int32_t sx_i32(const char *n) { return (int32_t)sx_u64(n, 32); }
static inline float sx_f32(const char *n) { union { uint32_t u; float f; } x; x.u = sx_u32(n); return x.f; }
static inline double sx_f64(const char *n) { union { uint64_t u; double f; } x; x.u = sx_u64(n, 64); return x.f; }
#endif
