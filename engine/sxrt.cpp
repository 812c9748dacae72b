// Runtime of the symbolic executor: expression DAG, shadow memory, checked heap,
// path exploration (one forked process per path) and the SMT back end (Z3).
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>
#include "sx.h"

#define API extern "C" __attribute__((visibility("default")))
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

enum : unsigned {
  OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
  OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  OP_FADD = 32, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FMIN, OP_FMAX, OP_FCOPYSIGN,
  OP_UMIN = 48, OP_UMAX, OP_SMIN, OP_SMAX, OP_UADDSAT, OP_SADDSAT, OP_USUBSAT, OP_SSUBSAT,
  OP_UADDO, OP_SADDO, OP_USUBO, OP_SSUBO, OP_UMULO, OP_SMULO,
  // internal
  OP_CONST = 80, OP_VAR, OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_NOT, OP_ITE,
  OP_CONCAT, OP_EXTRACT, OP_ZEXT, OP_SEXT,
  OP_FPTRUNC, OP_FPEXT, OP_FPTOUI, OP_FPTOSI, OP_UITOFP, OP_SITOFP,
  OP_FOEQ, OP_FOLT, OP_FOLE, OP_FUNO, OP_FSQRT, OP_FRND /*aux=mode*/, OP_FFMA, OP_CLZ, OP_CTZ, OP_POP
};
enum : unsigned { C_TRUNC = 1, C_ZEXT, C_SEXT, C_FPTRUNC, C_FPEXT, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP };
enum : unsigned {
  U_FNEG = 1, U_FABS, U_BSWAP, U_CTPOP, U_CTLZ, U_CTTZ, U_FSQRT, U_FFLOOR, U_FCEIL,
  U_FTRUNC, U_FRINT, U_FROUND, U_BITREV, U_ABS, U_FROUNDEVEN
};

// ---------------------------------------------------------------- engine heap
// The engine and Z3 allocate from a region of their own, so that solving does
// not move the blocks the code under test gets from the ordinary heap (sibling
// paths must see the same addresses).
static const u64 EH_BASE = 0x300000000000ULL, EH_SIZE = 1ULL << 38;
static u64 ehTop; static bool ehOn = false; static volatile int ehLock;
static void *ehFreeList[48];
static inline bool inEH(u64 a) { return a - EH_BASE < EH_SIZE; }
static void *ehAlloc(size_t n) {
  unsigned c = 5; while ((1ULL << c) < n + 16) ++c;
  while (__sync_lock_test_and_set(&ehLock, 1)) ;
  void *r = ehFreeList[c];
  if (r) ehFreeList[c] = *(void **)r;
  else {
    if (!ehTop) { void *p = mmap((void *)EH_BASE, EH_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)EH_BASE) _exit(3); ehTop = EH_BASE; }
    r = (void *)(ehTop + 16); ehTop += 1ULL << c;
    ((u64 *)r)[-1] = c;
  }
  __sync_lock_release(&ehLock);
  return r;
}
static void ehFree(void *p) {
  unsigned c = ((u64 *)p)[-1];
  while (__sync_lock_test_and_set(&ehLock, 1)) ;
  *(void **)p = ehFreeList[c]; ehFreeList[c] = p;
  __sync_lock_release(&ehLock);
}
struct EngineHeap { bool old; EngineHeap() : old(ehOn) { ehOn = true; } ~EngineHeap() { ehOn = old; } };
// Containers of this library (not exported, see the version script in run.py).
void *operator new(size_t n) { return ehAlloc(n); }
void *operator new(size_t n, std::align_val_t) { return ehAlloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
struct VarSet { std::vector<u32> v; };
struct Expr {
  unsigned op; unsigned w; u64 val; u32 aux; u32 id;
  Expr *k[3];
  VarSet *vars;
  Z3_ast bv, fp;
  bool hasFP; // contains floating point
  bool heavy; // contains division or several multiplications: bit-blast at once
};

// ---------------------------------------------------------------- globals
API Expr *__sx_args[64]; API void *__sx_callee; API Expr *__sx_retv[64]; API void *__sx_retfn;
Expr *__sx_args[64]; void *__sx_callee; Expr *__sx_retv[64]; void *__sx_retfn;
static Expr *zeroArr[64];
static bool active = false; // inside a path
static bool inRt = false;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

// ---------------------------------------------------------------- path state & shm
struct Var { std::string name; unsigned w; u64 val; Z3_ast ast; };
struct Stats {
  u64 decisions, queries, sat, unsat, unknown, obligations, obUnknown, concretize, concValues, unsupported,
      nativeSym, capHit, fpQueries, exprs, diverged, dropped;
  double solver_s;
};
struct Shm {
  volatile int status; // 0 running 1 done 2 assume-fail 3 crash 4 diverged 5 fatal
  volatile u32 nitems; volatile u64 used;
  Stats st;
  volatile u32 nviol; volatile u64 vused;
  volatile u32 nlabel;
  char labels[64][48];
  volatile u32 nnative; u64 natives[256];
  char msg[1024];
  u64 inputUsed; // final input (for samples)
  char data[1];
};
static const size_t SHM_SIZE = 24u << 20, VIOL_OFF = 20u << 20, INP_OFF = 22u << 20;
static Shm *shm;
static std::vector<Var> vars;
static std::vector<u64> seedVals;
static u32 bound; static u64 expectHash;
static u32 ndec; static u64 curHash;
static std::vector<Expr *> PC;
static std::unordered_map<Expr *, bool> known;
static int optConcCap = 300;
static unsigned optQueryMs = 20000;
static bool optVerbose = false;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- expressions
struct KeyHash { size_t operator()(const Expr *e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ULL ^ e->w; h = h * 31 + e->aux;
  if (e->op == OP_CONST) h = h * 1099511628211ULL + e->val;
  for (auto *c : e->k) h = (h ^ (c ? c->id : 0)) * 1099511628211ULL; return h ^ (h >> 29); } };
struct KeyEq { bool operator()(const Expr *a, const Expr *b) const {
  return a->op == b->op && a->w == b->w && a->aux == b->aux && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] &&
         (a->op != OP_CONST || a->val == b->val); } };
static std::unordered_set<Expr *, KeyHash, KeyEq> *cons;
static u32 nextExpr = 1;
static VarSet emptyVars;

static VarSet *joinVars(VarSet *a, VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end())) return a;
  if (std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end())) return b;
  auto *r = new VarSet;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r->v));
  return r;
}
static Expr *intern(unsigned op, unsigned w, u64 val, u32 aux, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
  Expr t{op, w, val & mask(w), aux, 0, {a, b, c}, nullptr, nullptr, nullptr, false};
  auto it = cons->find(&t);
  if (it != cons->end()) return *it;
  Expr *e = new Expr(t);
  e->id = nextExpr++;
  e->vars = &emptyVars;
  for (auto *x : e->k) if (x) { e->vars = joinVars(e->vars, x->vars); e->hasFP |= x->hasFP; e->heavy |= x->heavy; }
  if ((op >= OP_FADD && op <= OP_FMAX) || (op >= OP_FPTRUNC && op <= OP_FFMA)) e->hasFP = true;
  if ((op >= OP_UDIV && op <= OP_SREM) || (op == OP_MUL && w > 16)) e->heavy = true;
  cons->insert(e);
  if (shm) shm->st.exprs++;
  return e;
}
static Expr *K(u64 v, unsigned w) { return intern(OP_CONST, w, v, 0); }
static bool isK(Expr *e) { return e->op == OP_CONST; }
static Expr *mkNot(Expr *a);
static Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
static Expr *mkConcat(Expr *hi, Expr *lo);
static Expr *mkZext(Expr *a, unsigned w);
static Expr *mkSext(Expr *a, unsigned w);

static u64 clzv(u64 v, unsigned w) { if (!v) return w; return __builtin_clzll(v) - (64 - w); }
static u64 ctzv(u64 v, unsigned w) { if (!v) return w; return __builtin_ctzll(v); }

static u64 evalBin(unsigned op, unsigned w, u64 a, u64 b) {
  u64 m = mask(w); a &= m; b &= m;
  i64 sa = sx(a, w), sb = sx(b, w);
  switch (op) {
  case OP_ADD: return (a + b) & m; case OP_SUB: return (a - b) & m; case OP_MUL: return (a * b) & m;
  case OP_UDIV: return b ? a / b : m; case OP_UREM: return b ? a % b : a;
  case OP_SDIV: return b ? (sb == -1 ? (0 - a) & m : (u64)(sa / sb) & m) : (sa < 0 ? 1 : m);
  case OP_SREM: return b ? (sb == -1 ? 0 : (u64)(sa % sb) & m) : a;
  case OP_SHL: return b >= w ? 0 : (a << b) & m; case OP_LSHR: return b >= w ? 0 : a >> b;
  case OP_ASHR: return (u64)(sa >> (b >= w ? 63 : b)) & m;
  case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
  }
  abort();
}
static Expr *mkBin(unsigned op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (isK(a) && isK(b)) return K(evalBin(op, w, a->val, b->val), w);
  u64 m = mask(w);
  bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR;
  if (comm && isK(a)) std::swap(a, b);
  if (isK(b)) {
    u64 c = b->val;
    switch (op) {
    case OP_ADD: if (!c) return a;
      if (a->op == OP_ADD && isK(a->k[1])) return mkBin(OP_ADD, a->k[0], K(a->k[1]->val + c, w));
      break;
    case OP_SUB: if (!c) return a; return mkBin(OP_ADD, a, K(0 - c, w));
    case OP_MUL: if (c == 1) return a; if (!c) return b;
      if ((c & (c - 1)) == 0 && a->op != OP_MUL) return mkBin(OP_SHL, a, K(__builtin_ctzll(c), w));
      break;
    case OP_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return mkBin(OP_LSHR, a, K(__builtin_ctzll(c), w)); break;
    case OP_UREM: if (c && (c & (c - 1)) == 0) return mkBin(OP_AND, a, K(c - 1, w)); break;
    case OP_SDIV: if (c == 1) return a; break;
    case OP_SHL: if (!c) return a; if (c >= w) return K(0, w);
      return mkConcat(mkExtract(a, 0, w - c), K(0, c));
    case OP_LSHR: if (!c) return a; if (c >= w) return K(0, w);
      return mkZext(mkExtract(a, c, w - c), w);
    case OP_ASHR: if (!c) return a; if (c >= w) c = w - 1;
      return mkSext(mkExtract(a, c, w - c), w);
    case OP_AND: if (!c) return b; if (c == m) return a;
      if ((c & (c + 1)) == 0) { unsigned n = __builtin_ctzll(~c); return mkZext(mkExtract(a, 0, n), w); }
      if (a->op == OP_AND && isK(a->k[1])) return mkBin(OP_AND, a->k[0], K(a->k[1]->val & c, w));
      { // contiguous mask in the middle
        unsigned lo = __builtin_ctzll(c); u64 s = c >> lo;
        if (lo && (s & (s + 1)) == 0) { unsigned n = s == ~0ULL ? 64 : __builtin_ctzll(~s);
          return mkZext(mkConcat(mkExtract(a, lo, n), K(0, lo)), w); } }
      break;
    case OP_OR: if (!c) return a; if (c == m) return b; break;
    case OP_XOR: if (!c) return a; if (w == 1) return mkNot(a);
      if (a->op == OP_XOR && isK(a->k[1])) return mkBin(OP_XOR, a->k[0], K(a->k[1]->val ^ c, w));
      break;
    }
  }
  if (isK(a)) {
    if ((op == OP_SHL || op == OP_LSHR || op == OP_UDIV || op == OP_UREM) && a->val == 0 && (op == OP_SHL || op == OP_LSHR)) return a;
  }
  if (a == b) {
    if (op == OP_AND || op == OP_OR) return a;
    if (op == OP_XOR || op == OP_SUB) return K(0, w);
  }
  if (op == OP_OR && a->op == OP_ZEXT && b->op == OP_CONCAT && isK(b->k[1]) && b->k[1]->val == 0 && a->k[0]->w <= b->k[1]->w)
    return mkConcat(b->k[0], mkZext(a->k[0], b->k[1]->w));
  if (op == OP_OR && b->op == OP_ZEXT && a->op == OP_CONCAT && isK(a->k[1]) && a->k[1]->val == 0 && b->k[0]->w <= a->k[1]->w)
    return mkConcat(a->k[0], mkZext(b->k[0], a->k[1]->w));
  auto shlForm = [](Expr *x) { // x * 2^k is kept as concat(extract(x, 0, w-k), 0_k)
    return x->op == OP_CONCAT && isK(x->k[1]) && x->k[1]->val == 0 && x->k[0]->op == OP_EXTRACT && x->k[0]->aux == 0 && x->k[0]->k[0]->w == x->w;
  };
  if (((op == OP_MUL || op == OP_ADD) && (a->op == op || b->op == op)) ||
      (op == OP_MUL && (shlForm(a) || shlForm(b)))) {
    // Associative-commutative normal form: leaves sorted by id, constant last.
    Expr *lv[24]; unsigned n = 0; bool ok = true; u64 c = op == OP_MUL ? 1 : 0;
    Expr *st[48]; unsigned sp = 0; st[sp++] = a; st[sp++] = b;
    while (sp) {
      Expr *x = st[--sp];
      if (x->op == op) { if (sp + 2 > 48) { ok = false; break; } st[sp++] = x->k[0]; st[sp++] = x->k[1]; }
      else if (op == OP_MUL && shlForm(x)) { c = (c << x->k[1]->w) & m; st[sp++] = x->k[0]->k[0]; }
      else if (isK(x)) c = op == OP_MUL ? (c * x->val) & m : (c + x->val) & m;
      else { if (n == 24) { ok = false; break; } lv[n++] = x; }
    }
    if (ok) {
      std::sort(lv, lv + n, [](Expr *x, Expr *y) { return x->id < y->id; });
      if (op == OP_MUL && c == 0) return K(0, w);
      if (n == 1) { if (op == OP_MUL ? c == 1 : c == 0) return lv[0];
        if (op == OP_MUL && (c & (c - 1)) == 0) return mkConcat(mkExtract(lv[0], 0, w - __builtin_ctzll(c)), K(0, __builtin_ctzll(c))); }
      Expr *r = lv[0];
      for (unsigned i = 1; i < n; ++i) r = intern(op, w, evalBin(op, w, r->val, lv[i]->val), 0, r, lv[i]);
      if (op == OP_MUL ? c != 1 : c != 0) {
        Expr *kc = K(c, w);
        r = intern(op, w, evalBin(op, w, r->val, c), 0, r, kc);
      }
      return r;
    }
  }
  if (comm && !isK(b) && a->id > b->id) std::swap(a, b);
  return intern(op, w, evalBin(op, w, a->val, b->val), 0, a, b);
}
static Expr *mkCmp(unsigned op, Expr *a, Expr *b) {
  unsigned w = a->w; u64 v;
  switch (op) {
  case OP_EQ: v = a->val == b->val; break;
  case OP_ULT: v = a->val < b->val; break; case OP_ULE: v = a->val <= b->val; break;
  case OP_SLT: v = sx(a->val, w) < sx(b->val, w); break; default: v = sx(a->val, w) <= sx(b->val, w); break;
  }
  if (isK(a) && isK(b)) return K(v, 1);
  if (a == b) return K(op == OP_EQ || op == OP_ULE || op == OP_SLE, 1);
  if (op == OP_EQ) {
    if (isK(a)) std::swap(a, b);
    if (isK(b)) {
      if (w == 1) return b->val ? a : mkNot(a);
      if (a->op == OP_ZEXT) {
        if (b->val >> a->k[0]->w) return K(0, 1);
        return mkCmp(OP_EQ, a->k[0], K(b->val, a->k[0]->w));
      }
      if (a->op == OP_SEXT) {
        if ((u64)(sx(b->val & mask(a->k[0]->w), a->k[0]->w)) != (u64)sx(b->val, w)) return K(0, 1);
        return mkCmp(OP_EQ, a->k[0], K(b->val, a->k[0]->w));
      }
      if (a->op == OP_ADD && isK(a->k[1])) return mkCmp(OP_EQ, a->k[0], K(b->val - a->k[1]->val, w));
      if (a->op == OP_XOR && isK(a->k[1])) return mkCmp(OP_EQ, a->k[0], K(b->val ^ a->k[1]->val, w));
      if (a->op == OP_CONCAT && isK(a->k[1])) {
        if ((b->val & mask(a->k[1]->w)) != a->k[1]->val) return K(0, 1);
        return mkCmp(OP_EQ, a->k[0], K(b->val >> a->k[1]->w, a->k[0]->w));
      }
      if (a->op == OP_ITE && isK(a->k[1]) && isK(a->k[2])) {
        bool t = a->k[1]->val == b->val, f = a->k[2]->val == b->val;
        if (t && f) return K(1, 1); if (!t && !f) return K(0, 1);
        return t ? a->k[0] : mkNot(a->k[0]);
      }
    } else if (a->id > b->id) std::swap(a, b);
  }
  if (op == OP_ULT || op == OP_ULE) {
    if (a->op == OP_ZEXT && isK(b)) {
      unsigned n = a->k[0]->w;
      if (b->val >> n) return K(1, 1);
      return mkCmp(op, a->k[0], K(b->val, n));
    }
    if (b->op == OP_ZEXT && isK(a)) {
      unsigned n = b->k[0]->w;
      if (a->val >> n) return K(0, 1);
      return mkCmp(op, K(a->val, n), b->k[0]);
    }
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
    if (op == OP_ULT && isK(b) && b->val == 0) return K(0, 1);
    if (op == OP_ULT && isK(b) && b->val == 1) return mkCmp(OP_EQ, a, K(0, w));
    if (op == OP_ULE && isK(b) && b->val == mask(w)) return K(1, 1);
  }
  if ((op == OP_SLT || op == OP_SLE)) {
    if (a->op == OP_ZEXT && isK(b)) {
      if (sx(b->val, w) < 0) return K(0, 1);
      return mkCmp(op == OP_SLT ? OP_ULT : OP_ULE, a, b);
    }
    if (b->op == OP_ZEXT && isK(a)) {
      if (sx(a->val, w) < 0) return K(1, 1);
      return mkCmp(op == OP_SLT ? OP_ULT : OP_ULE, a, b);
    }
    if (a->op == OP_ZEXT && b->op == OP_ZEXT) return mkCmp(op == OP_SLT ? OP_ULT : OP_ULE, a, b);
  }
  return intern(op, 1, v, 0, a, b);
}
static Expr *mkNot(Expr *a) {
  if (isK(a)) return K(!a->val, 1);
  if (a->op == OP_NOT) return a->k[0];
  if (a->op == OP_ULT) return mkCmp(OP_ULE, a->k[1], a->k[0]);
  if (a->op == OP_ULE) return mkCmp(OP_ULT, a->k[1], a->k[0]);
  if (a->op == OP_SLT) return mkCmp(OP_SLE, a->k[1], a->k[0]);
  if (a->op == OP_SLE) return mkCmp(OP_SLT, a->k[1], a->k[0]);
  return intern(OP_NOT, 1, !a->val, 0, a);
}
static Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isK(c)) return c->val ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isK(a) && isK(b)) return a->val ? c : mkNot(c);
    if (isK(a)) return a->val ? mkBin(OP_OR, c, b) : mkBin(OP_AND, mkNot(c), b);
    if (isK(b)) return b->val ? mkBin(OP_OR, mkNot(c), a) : mkBin(OP_AND, c, a);
  }
  if (c->op == OP_NOT) return mkIte(c->k[0], b, a);
  return intern(OP_ITE, a->w, c->val ? a->val : b->val, 0, c, a, b);
}
static Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isK(a)) return K(a->val >> lo, w);
  switch (a->op) {
  case OP_EXTRACT: return mkExtract(a->k[0], lo + a->aux, w);
  case OP_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case OP_ZEXT: {
    unsigned n = a->k[0]->w;
    if (lo + w <= n) return mkExtract(a->k[0], lo, w);
    if (lo >= n) return K(0, w);
    return mkZext(mkExtract(a->k[0], lo, n - lo), w);
  }
  case OP_SEXT: {
    unsigned n = a->k[0]->w;
    if (lo + w <= n) return mkExtract(a->k[0], lo, w);
    if (lo < n) return mkSext(mkExtract(a->k[0], lo, n - lo), w);
    break;
  }
  case OP_AND: case OP_OR: case OP_XOR:
    return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case OP_ITE: if (isK(a->k[1]) || isK(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
  case OP_ADD: case OP_SUB: case OP_MUL:
    if (lo == 0 && w >= 8) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  }
  return intern(OP_EXTRACT, w, a->val >> lo, lo, a);
}
static Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) abort();
  if (isK(hi) && isK(lo)) return K((hi->val << lo->w) | lo->val, w);
  if (isK(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->k[0], lo->aux, w);
  if (lo->op == OP_CONCAT && hi->op == OP_EXTRACT && lo->k[0]->op == OP_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  if (lo->op == OP_CONCAT && isK(hi) && isK(lo->k[0]))
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  if (hi->op == OP_ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
  // the bytes of a selected value, put together again
  if (hi->op == OP_ITE && lo->op == OP_ITE && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  // sign-extension patterns: concat(sext-hi part, lo)
  if (hi->op == OP_SEXT && lo->op == OP_EXTRACT && hi->k[0] == lo->k[0]) {}
  return intern(OP_CONCAT, w, (hi->val << lo->w) | lo->val, 0, hi, lo);
}
static Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K(a->val, w);
  if (a->op == OP_ZEXT) return mkZext(a->k[0], w);
  return intern(OP_ZEXT, w, a->val, 0, a);
}
static Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K((u64)sx(a->val, a->w), w);
  if (a->op == OP_SEXT) return mkSext(a->k[0], w);
  if (a->op == OP_ZEXT) return mkZext(a->k[0], w);
  return intern(OP_SEXT, w, (u64)sx(a->val, a->w), 0, a);
}

// ---- floating point (values are IEEE bit patterns)
static float f32(u64 v) { u32 u = (u32)v; float f; memcpy(&f, &u, 4); return f; }
static double f64(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static u64 b32(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static u64 b64(double f) { u64 u; memcpy(&u, &f, 8); return u; }
static bool isNaNBits(u64 v, unsigned w) {
  return w == 32 ? (v & 0x7fffffffu) > 0x7f800000u : (v & 0x7fffffffffffffffULL) > 0x7ff0000000000000ULL; }
static u64 qbit(unsigned w) { return w == 32 ? 0x400000ULL : 0x8000000000000ULL; }
static u64 dnan(unsigned w) { return w == 32 ? 0xffc00000ULL : 0xfff8000000000000ULL; }

template <class T> static T fop(unsigned op, T a, T b) {
  switch (op) { case OP_FADD: return a + b; case OP_FSUB: return a - b; case OP_FMUL: return a * b; case OP_FDIV: return a / b;
  case OP_FREM: return std::fmod(a, b); case OP_FMIN: return std::fmin(a, b); case OP_FMAX: return std::fmax(a, b); }
  abort();
}
static Expr *mkFCmp(unsigned op, Expr *a, Expr *b);
static Expr *mkFBin(unsigned op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (op == OP_FCOPYSIGN) return mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1));
  u64 v;
  if (isNaNBits(a->val, w) && op < OP_FMIN) v = a->val | qbit(w);
  else if (isNaNBits(b->val, w) && op < OP_FMIN) v = b->val | qbit(w);
  else {
    v = w == 32 ? b32(fop<float>(op, f32(a->val), f32(b->val))) : b64(fop<double>(op, f64(a->val), f64(b->val)));
    if (isNaNBits(v, w) && op < OP_FMIN) v = dnan(w);
  }
  if (isK(a) && isK(b)) return K(v, w);
  if (op == OP_FMIN || op == OP_FMAX) { // the other operand when one is NaN; of two equal zeros, the one the concrete run returned
    Expr *lt = op == OP_FMIN ? mkFCmp(OP_FOLT, a, b) : mkFCmp(OP_FOLT, b, a), *le = op == OP_FMIN ? mkFCmp(OP_FOLE, a, b) : mkFCmp(OP_FOLE, b, a);
    Expr *r = mkIte(mkFCmp(OP_FUNO, a, a), b, mkIte(mkFCmp(OP_FUNO, b, b), a, mkIte(lt, a, b)));
    if (r->val != v) r = mkIte(mkFCmp(OP_FUNO, a, a), b, mkIte(mkFCmp(OP_FUNO, b, b), a, mkIte(le, a, b)));
    if (r->val == v) return r;
  }
  return intern(op, w, v, 0, a, b);
}
// ---------------------------------------------------------------- exact fixed-point view
// A floating-point expression whose value is provably iv * 2^e for an integer
// expression iv small enough to be exact (no operation on the way rounded) is
// compared and converted in integer arithmetic. The sign of zero is not part
// of this view, so it is used for comparisons and conversions only.
struct Rng { bool ok; i64 lo, hi; };
static std::unordered_map<Expr *, Rng> *rngMemo;
static std::unordered_map<u32, u64> *varSpan; // largest value of a range variable
static Rng rangeOf(Expr *e) { // signed range of the value, as an e->w bit number
  if (isK(e)) return {true, sx(e->val, e->w), sx(e->val, e->w)};
  auto it = rngMemo->find(e); if (it != rngMemo->end()) return it->second;
  typedef __int128 I;
  I lo = e->w >= 64 ? INT64_MIN : -((I)1 << (e->w - 1)), hi = e->w >= 64 ? INT64_MAX : ((I)1 << (e->w - 1)) - 1;
  Rng full{true, (i64)lo, (i64)hi}, r = full;
  auto fit = [&](I a, I b) { r = a < lo || b > hi ? full : Rng{true, (i64)a, (i64)b}; };
  (*rngMemo)[e] = full;
  switch (e->op) {
  case OP_VAR: { auto v = varSpan->find(e->aux); if (v != varSpan->end()) fit(0, v->second); break; }
  case OP_ZEXT: {
    Expr *k = e->k[0]; Rng c = rangeOf(k);
    if (k->op == OP_VAR && varSpan->count(k->aux)) fit(0, (I)(*varSpan)[k->aux]);
    else if (c.lo >= 0) r = c; else fit(0, ((I)1 << k->w) - 1);
    break; }
  case OP_SEXT: r = rangeOf(e->k[0]); break;
  case OP_EXTRACT: { Rng c = rangeOf(e->k[0]); fit((I)(c.lo >> e->aux), (I)(c.hi >> e->aux)); break; }
  case OP_ADD: case OP_SUB: case OP_MUL: {
    Rng a = rangeOf(e->k[0]), b = rangeOf(e->k[1]);
    if (e->op == OP_ADD) fit((I)a.lo + b.lo, (I)a.hi + b.hi);
    else if (e->op == OP_SUB) fit((I)a.lo - b.hi, (I)a.hi - b.lo);
    else { I p[4] = {(I)a.lo * b.lo, (I)a.lo * b.hi, (I)a.hi * b.lo, (I)a.hi * b.hi}; fit(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); }
    break; }
  case OP_SHL: if (isK(e->k[1]) && e->k[1]->val < 40) { Rng a = rangeOf(e->k[0]); fit((I)a.lo << e->k[1]->val, (I)a.hi << e->k[1]->val); } break;
  case OP_CONCAT: { Rng a = rangeOf(e->k[0]); unsigned lw = e->k[1]->w; I ones = ((I)1 << lw) - 1; fit((I)a.lo << lw, ((I)a.hi << lw) + (isK(e->k[1]) ? (I)e->k[1]->val : ones)); break; }
  case OP_ASHR: if (isK(e->k[1]) && e->k[1]->val < e->w) { Rng a = rangeOf(e->k[0]); r = {true, a.lo >> e->k[1]->val, a.hi >> e->k[1]->val}; } break;
  case OP_ITE: { Rng a = rangeOf(e->k[1]), b = rangeOf(e->k[2]); r = {true, std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
  }
  return (*rngMemo)[e] = r;
}
struct Fix { bool ok; Expr *iv; int e; u64 bound; };
static std::unordered_map<Expr *, Fix> *fixMemo;
static Fix noFix() { return {false, nullptr, 0, 0}; }
static Fix mkFix(Expr *iv, int e, unsigned w, bool rounded = true) {
  Rng r = rangeOf(iv);
  u64 b = std::max<u64>(r.lo < 0 ? 0 - (u64)r.lo : r.lo, r.hi < 0 ? 0 - (u64)r.hi : r.hi);
  if ((rounded && b > (1ULL << (w == 32 ? 24 : 53))) || e < -60 || e > 60) return noFix();
  return {true, iv, e, b};
}
static Fix alignFix(Fix a, int e) { // same value with a smaller exponent
  if (a.e == e) return a;
  int d = a.e - e;
  if (d > 60 || (a.bound >> (61 - d))) return noFix();
  a.iv = mkBin(OP_SHL, a.iv, K(d, 64)); a.e = e; a.bound <<= d; return a;
}
static Expr *mkFCmp(unsigned op, Expr *a, Expr *b);
static Fix fixOf(Expr *e) {
  unsigned w = e->w;
  if (w != 32 && w != 64) return noFix();
  if (isK(e)) {
    double d = w == 32 ? f32(e->val) : f64(e->val);
    if (!(std::fabs(d) <= 1e15)) return noFix();
    if (d == 0) return {true, K(0, 64), 0, 0};
    int x; double m = std::frexp(d, &x); i64 n = (i64)std::ldexp(m, 53); x -= 53;
    while (!(n & 1)) { n /= 2; ++x; }
    if (x < -60 || x > 60) return noFix();
    return {true, K((u64)n, 64), x, (u64)(n < 0 ? -n : n)};
  }
  auto it = fixMemo->find(e); if (it != fixMemo->end()) return it->second;
  Fix r = noFix(), a, b;
  switch (e->op) {
  case OP_SITOFP: r = mkFix(mkSext(e->k[0], 64), 0, w); break;
  case OP_UITOFP: if (e->k[0]->w < 64) r = mkFix(mkZext(e->k[0], 64), 0, w); else if (rangeOf(e->k[0]).lo >= 0) r = mkFix(e->k[0], 0, w); break;
  case OP_FPEXT: r = fixOf(e->k[0]); break;
  case OP_FPTRUNC: a = fixOf(e->k[0]); if (a.ok && a.bound <= 1ULL << 24) r = a; break;
  case OP_FMUL: a = fixOf(e->k[0]); if (a.ok) { b = fixOf(e->k[1]); if (b.ok) r = mkFix(mkBin(OP_MUL, a.iv, b.iv), a.e + b.e, w); } break;
  case OP_FDIV: if (isK(e->k[1])) { b = fixOf(e->k[1]); if (b.ok && b.bound == 1) { a = fixOf(e->k[0]); if (a.ok) r = mkFix(sx(b.iv->val, 64) > 0 ? a.iv : mkBin(OP_SUB, K(0, 64), a.iv), a.e - b.e, w); } } break;
  case OP_FADD: case OP_FSUB:
    a = fixOf(e->k[0]); if (!a.ok) break;
    b = fixOf(e->k[1]); if (!b.ok) break;
    if (a.bound == 0) a.e = b.e; else if (b.bound == 0) b.e = a.e;
    a = alignFix(a, std::min(a.e, b.e)); if (!a.ok) break;
    b = alignFix(b, a.e); if (!b.ok) break;
    r = mkFix(mkBin(e->op == OP_FADD ? OP_ADD : OP_SUB, a.iv, b.iv), a.e, w); break;
  case OP_AND: if (isK(e->k[1]) && e->k[1]->val == mask(w - 1)) { a = fixOf(e->k[0]); if (a.ok) r = mkFix(mkIte(mkCmp(OP_SLT, a.iv, K(0, 64)), mkBin(OP_SUB, K(0, 64), a.iv), a.iv), a.e, w); } break;
  case OP_XOR: if (isK(e->k[1]) && e->k[1]->val == 1ULL << (w - 1)) { a = fixOf(e->k[0]); if (a.ok) r = mkFix(mkBin(OP_SUB, K(0, 64), a.iv), a.e, w); } break;
  case OP_ITE:
    a = fixOf(e->k[1]); if (!a.ok) break;
    b = fixOf(e->k[2]); if (!b.ok) break;
    if (a.bound == 0) a.e = b.e; else if (b.bound == 0) b.e = a.e;
    a = alignFix(a, std::min(a.e, b.e)); if (!a.ok) break;
    b = alignFix(b, a.e); if (!b.ok) break;
    r = mkFix(mkIte(e->k[0], a.iv, b.iv), a.e, w); break;
  case OP_FRND:
    a = fixOf(e->k[0]); if (!a.ok) break;
    if (a.e >= 0) r = a;
    else if (e->aux == U_FFLOOR) r = mkFix(mkBin(OP_ASHR, a.iv, K(-a.e, 64)), 0, w);
    else if (e->aux == U_FCEIL) r = mkFix(mkBin(OP_ASHR, mkBin(OP_ADD, a.iv, K((1ULL << -a.e) - 1, 64)), K(-a.e, 64)), 0, w);
    else if (e->aux == U_FROUNDEVEN || e->aux == U_FRINT) { // to nearest, ties to even
      Expr *sh = K(-a.e, 64), *odd = mkBin(OP_AND, mkBin(OP_ASHR, a.iv, sh), K(1, 64));
      r = mkFix(mkBin(OP_ASHR, mkBin(OP_ADD, a.iv, mkBin(OP_ADD, odd, K((1ULL << (-a.e - 1)) - 1, 64))), sh), 0, w);
    }
    else if (e->aux == U_FTRUNC) r = mkFix(mkIte(mkCmp(OP_SLT, a.iv, K(0, 64)), mkBin(OP_ASHR, mkBin(OP_ADD, a.iv, K((1ULL << -a.e) - 1, 64)), K(-a.e, 64)), mkBin(OP_ASHR, a.iv, K(-a.e, 64))), 0, w);
    break;
  }
  return (*fixMemo)[e] = r;
}
// Linear normal form over 64-bit expressions, to settle equalities syntactically.
static bool linear(Expr *e, u64 c, std::map<u32, std::pair<Expr *, u64>> &t, u64 &k, int &fuel) {
  if (--fuel < 0) return false;
  if (isK(e)) { k += c * e->val; return true; }
  if (e->op == OP_ADD) return linear(e->k[0], c, t, k, fuel) && linear(e->k[1], c, t, k, fuel);
  if (e->op == OP_SUB) return linear(e->k[0], c, t, k, fuel) && linear(e->k[1], 0 - c, t, k, fuel);
  if (e->op == OP_MUL && isK(e->k[1])) return linear(e->k[0], c * e->k[1]->val, t, k, fuel);
  if (e->op == OP_MUL && isK(e->k[0])) return linear(e->k[1], c * e->k[0]->val, t, k, fuel);
  if (e->op == OP_SHL && isK(e->k[1]) && e->k[1]->val < 64) return linear(e->k[0], c << e->k[1]->val, t, k, fuel);
  // Narrow terms only occur under a coefficient that shifts their upper bits out.
  if (e->op == OP_CONCAT && isK(e->k[1]) && e->w + __builtin_ctzll(c ? c : 1ULL << 63) >= 64) {
    k += c * e->k[1]->val;
    return linear(e->k[0], c << e->k[1]->w, t, k, fuel);
  }
  e = mkZext(e->op == OP_ZEXT ? e->k[0] : e, 64);
  auto &x = t[e->id]; x.first = e; x.second += c; return true;
}
static void confirmEqual(Expr *x, Expr *y); // solver's verdict on an equality the normal form settled
static Expr *fixCmp(unsigned op, Expr *a, Expr *b) { // null: not comparable this way
  if (!rngMemo) return nullptr;
  auto inf = [](Expr *e) { return isK(e) && std::isinf(e->w == 32 ? f32(e->val) : f64(e->val)) ? (e->val >> (e->w - 1) & 1 ? -1 : 1) : 0; };
  int ia = inf(a), ib = inf(b); // a finite value against an infinity
  if (ia && fixOf(b).ok) return K((op == OP_FOLT || op == OP_FOLE) && ia < 0, 1);
  if (ib && fixOf(a).ok) return K((op == OP_FOLT || op == OP_FOLE) && ib > 0, 1);
  Fix x = fixOf(a), y = fixOf(b);
  auto out = [&](Expr *e, const Fix &f) { // a constant beyond every value of the other side
    double d = isK(e) ? e->w == 32 ? f32(e->val) : f64(e->val) : 0;
    return std::fabs(d) > std::ldexp((double)f.bound, f.e) * 1.01 ? d < 0 ? -1 : 1 : 0;
  };
  if (x.ok && !y.ok && out(b, x)) return K((op == OP_FOLT || op == OP_FOLE) && out(b, x) > 0, 1);
  if (y.ok && !x.ok && out(a, y)) return K((op == OP_FOLT || op == OP_FOLE) && out(a, y) < 0, 1);
  if (!x.ok || !y.ok) return nullptr;
  if (op == OP_FUNO) return K(0, 1);
  if (x.bound == 0) x.e = y.e; else if (y.bound == 0) y.e = x.e;
  x = alignFix(x, std::min(x.e, y.e)); if (!x.ok) return nullptr;
  y = alignFix(y, x.e); if (!y.ok) return nullptr;
  Rng rx = rangeOf(x.iv), ry = rangeOf(y.iv); // disjoint ranges decide an order
  if (op != OP_FOEQ && (op == OP_FOLT ? rx.hi < ry.lo : rx.hi <= ry.lo)) return K(1, 1);
  if (op != OP_FOEQ && (op == OP_FOLT ? rx.lo >= ry.hi : rx.lo > ry.hi)) return K(0, 1);
  if (op == OP_FOEQ) {
    std::map<u32, std::pair<Expr *, u64>> t; u64 k = 0; int fuel = 4000;
    if (linear(x.iv, 1, t, k, fuel) && linear(y.iv, ~0ULL, t, k, fuel)) {
      Expr *sum = nullptr;
      for (auto &[id, p] : t) if (p.second) { Expr *m = mkBin(OP_MUL, p.first, K(p.second, 64)); sum = sum ? mkBin(OP_ADD, sum, m) : m; }
      if (!sum) { if (k == 0) confirmEqual(x.iv, y.iv); return K(k == 0, 1); }
      return mkCmp(OP_EQ, sum, K(0 - k, 64));
    }
  }
  return mkCmp(op == OP_FOEQ ? OP_EQ : op == OP_FOLT ? OP_SLT : OP_SLE, x.iv, y.iv);
}
// A NaN quieted by a round trip through the wider type compares like itself.
static Expr *unquiet(Expr *e) {
  if (e->op == OP_ITE && e->k[1]->op == OP_OR && e->k[1]->k[0] == e->k[2] && isK(e->k[1]->k[1]) && e->k[1]->k[1]->val == (e->w == 32 ? 1ULL << 22 : 1ULL << 51) &&
      e->k[0] == mkFCmp(OP_FUNO, e->k[2], e->k[2])) return e->k[2];
  return e;
}
static bool plainBits(Expr *e) { return !(e->op >= OP_FADD && e->op <= OP_FMAX) && !(e->op >= OP_FPTRUNC && e->op <= OP_FFMA) && !(e->op == OP_ITE && e->hasFP); }
static Expr *mkFCmp(unsigned op, Expr *a, Expr *b) { // FOEQ FOLT FOLE FUNO
  unsigned w = a->w; u64 v;
  a = unquiet(a); b = unquiet(b);
  if (w == 64 && a->op == OP_FPEXT && b->op == OP_FPEXT) return mkFCmp(op, a->k[0], b->k[0]);
  double x = w == 32 ? f32(a->val) : f64(a->val), y = w == 32 ? f32(b->val) : f64(b->val);
  v = op == OP_FOEQ ? x == y : op == OP_FOLT ? x < y : op == OP_FOLE ? x <= y : (std::isnan(x) || std::isnan(y));
  if (isK(a) && isK(b)) return K(v, 1);
  if (Expr *f = fixCmp(op, a, b)) { if (f->val != v) { fprintf(stderr, "[sx] fixed-point view disagrees\n"); _exit(3); } return f; }
  if (op == OP_FUNO) {
    auto nan1 = [&](Expr *e) { // pure bit-vector formulation
      if (isK(e)) return K(isNaNBits(e->val, w), 1);
      if (e->op == OP_FPEXT) { e = e->k[0]; }
      Expr *abs = mkExtract(e, 0, e->w - 1);
      return mkCmp(OP_ULT, K(e->w == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL, e->w - 1), abs);
    };
    bool pa = a->op < OP_FADD || a->op > OP_FMAX, pb = b->op < OP_FADD || b->op > OP_FMAX;
    if (pa && pb) return a == b ? nan1(a) : mkBin(OP_OR, nan1(a), nan1(b));
  }
  if (op != OP_FUNO && plainBits(a) && plainBits(b)) { // pure bit-vector formulation: compare signed magnitudes
    auto key = [&](Expr *e) {
      Expr *mag = mkBin(OP_AND, e, K(mask(w - 1), w));
      return mkIte(mkCmp(OP_SLT, e, K(0, w)), mkBin(OP_SUB, K(0, w), mag), mag);
    };
    auto num = [&](Expr *e) { return mkCmp(OP_ULE, mkBin(OP_AND, e, K(mask(w - 1), w)), K(w == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL, w)); };
    Expr *r = mkCmp(op == OP_FOEQ ? OP_EQ : op == OP_FOLT ? OP_SLT : OP_SLE, key(a), key(b));
    r = mkBin(OP_AND, mkBin(OP_AND, num(a), num(b)), r);
    if (r->val != v) { fprintf(stderr, "[sx] bit-vector view of a float comparison disagrees\n"); _exit(3); }
    return r;
  }
  return intern(op, 1, v, 0, a, b);
}

// ---------------------------------------------------------------- Z3 lowering
static Z3_context ctx;
static Z3_sort sortBV[65], sortF32, sortF64;
static Z3_ast RNE, RTZ, RTP, RTN, RNA;
static void z3err(Z3_context c, Z3_error_code e) {
  if (shm) { snprintf(shm->msg, sizeof shm->msg, "z3 error: %s", Z3_get_error_msg(c, e)); shm->status = 5; }
  fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); _exit(3);
}
static Z3_sort bvs(unsigned w) { if (!sortBV[w]) sortBV[w] = Z3_mk_bv_sort(ctx, w); return sortBV[w]; }
static Z3_sort fps(unsigned w) { return w == 32 ? sortF32 : sortF64; }
static void initZ3() {
  EngineHeap eh;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // asts live until the path process exits
  Z3_set_error_handler(ctx, z3err);
  sortF32 = Z3_mk_fpa_sort_32(ctx); sortF64 = Z3_mk_fpa_sort_64(ctx);
  RNE = Z3_mk_fpa_rne(ctx); RTZ = Z3_mk_fpa_rtz(ctx); RTP = Z3_mk_fpa_rtp(ctx); RTN = Z3_mk_fpa_rtn(ctx); RNA = Z3_mk_fpa_rna(ctx);
}
static Z3_ast bvk(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }
static Z3_ast low(Expr *e);
static Z3_ast lowFP(Expr *e);
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, bvk(1, 1), bvk(0, 1)); }
static std::unordered_map<Expr *, Z3_ast> *boolMemo;
// lower a width-1 expression as Bool
static Z3_ast lowB(Expr *e) {
  auto it = boolMemo->find(e);
  if (it != boolMemo->end()) return it->second;
  Z3_ast r;
  switch (e->op) {
  case OP_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case OP_NOT: r = Z3_mk_not(ctx, lowB(e->k[0])); break;
  case OP_EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(ctx, lowB(e->k[0]), lowB(e->k[1])); else r = Z3_mk_eq(ctx, low(e->k[0]), low(e->k[1])); break;
  case OP_ULT: r = Z3_mk_bvult(ctx, low(e->k[0]), low(e->k[1])); break;
  case OP_ULE: r = Z3_mk_bvule(ctx, low(e->k[0]), low(e->k[1])); break;
  case OP_SLT: r = Z3_mk_bvslt(ctx, low(e->k[0]), low(e->k[1])); break;
  case OP_SLE: r = Z3_mk_bvsle(ctx, low(e->k[0]), low(e->k[1])); break;
  case OP_AND: { Z3_ast a[2] = {lowB(e->k[0]), lowB(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
  case OP_OR: { Z3_ast a[2] = {lowB(e->k[0]), lowB(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
  case OP_XOR: r = Z3_mk_xor(ctx, lowB(e->k[0]), lowB(e->k[1])); break;
  case OP_ITE: r = Z3_mk_ite(ctx, lowB(e->k[0]), lowB(e->k[1]), lowB(e->k[2])); break;
  case OP_FOEQ: r = Z3_mk_fpa_eq(ctx, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FOLT: r = Z3_mk_fpa_lt(ctx, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FOLE: r = Z3_mk_fpa_leq(ctx, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, lowFP(e->k[0])), Z3_mk_fpa_is_nan(ctx, lowFP(e->k[1]))}; r = Z3_mk_or(ctx, 2, a); break; }
  default: r = Z3_mk_eq(ctx, low(e), bvk(1, 1));
  }
  (*boolMemo)[e] = r;
  return r;
}
static Z3_ast lowFP(Expr *e) {
  if (e->fp) return e->fp;
  Z3_ast r = nullptr; unsigned w = e->w;
  switch (e->op) {
  case OP_FADD: r = Z3_mk_fpa_add(ctx, RNE, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FSUB: r = Z3_mk_fpa_sub(ctx, RNE, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FMUL: r = Z3_mk_fpa_mul(ctx, RNE, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FDIV: r = Z3_mk_fpa_div(ctx, RNE, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FMIN: r = Z3_mk_fpa_min(ctx, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FMAX: r = Z3_mk_fpa_max(ctx, lowFP(e->k[0]), lowFP(e->k[1])); break;
  case OP_FSQRT: r = Z3_mk_fpa_sqrt(ctx, RNE, lowFP(e->k[0])); break;
  case OP_FRND: { Z3_ast m = e->aux == U_FFLOOR ? RTN : e->aux == U_FCEIL ? RTP : e->aux == U_FTRUNC ? RTZ : e->aux == U_FROUND ? RNA : RNE;
    r = Z3_mk_fpa_round_to_integral(ctx, m, lowFP(e->k[0])); break; }
  case OP_FFMA: r = Z3_mk_fpa_fma(ctx, RNE, lowFP(e->k[0]), lowFP(e->k[1]), lowFP(e->k[2])); break;
  case OP_FPTRUNC: case OP_FPEXT: r = Z3_mk_fpa_to_fp_float(ctx, RNE, lowFP(e->k[0]), fps(w)); break;
  case OP_SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, RNE, low(e->k[0]), fps(w)); break;
  case OP_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, RNE, low(e->k[0]), fps(w)); break;
  case OP_ITE: if (e->hasFP) { r = Z3_mk_ite(ctx, lowB(e->k[0]), lowFP(e->k[1]), lowFP(e->k[2])); break; } [[fallthrough]];
  default: r = Z3_mk_fpa_to_fp_bv(ctx, low(e), fps(w));
  }
  return e->fp = r;
}
static Z3_ast ors(Z3_ast a, u64 k, unsigned w) { return Z3_mk_bvor(ctx, a, bvk(k, w)); }
static Z3_ast low(Expr *e) {
  if (e->bv) return e->bv;
  Z3_ast r = nullptr; unsigned w = e->w;
  auto A = [&](int i) { return low(e->k[i]); };
  switch (e->op) {
  case OP_CONST: r = bvk(e->val, w); break;
  case OP_VAR: {
    Var &v = vars[e->aux];
    if (!v.ast) { char n[32]; snprintf(n, sizeof n, "v%u", e->aux); v.ast = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bvs(w)); }
    r = v.ast; break;
  }
  case OP_ADD: r = Z3_mk_bvadd(ctx, A(0), A(1)); break; case OP_SUB: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
  case OP_MUL: r = Z3_mk_bvmul(ctx, A(0), A(1)); break; case OP_UDIV: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
  case OP_SDIV: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break; case OP_UREM: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
  case OP_SREM: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break; case OP_SHL: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
  case OP_LSHR: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break; case OP_ASHR: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
  case OP_AND: if (w == 1) { r = b2bv(lowB(e)); break; } r = Z3_mk_bvand(ctx, A(0), A(1)); break;
  case OP_OR: if (w == 1) { r = b2bv(lowB(e)); break; } r = Z3_mk_bvor(ctx, A(0), A(1)); break;
  case OP_XOR: if (w == 1) { r = b2bv(lowB(e)); break; } r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
  case OP_EQ: case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE: case OP_NOT:
  case OP_FOEQ: case OP_FOLT: case OP_FOLE: case OP_FUNO: r = b2bv(lowB(e)); break;
  case OP_ITE: r = Z3_mk_ite(ctx, lowB(e->k[0]), A(1), A(2)); break;
  case OP_CONCAT: r = Z3_mk_concat(ctx, A(0), A(1)); break;
  case OP_EXTRACT: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, A(0)); break;
  case OP_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->k[0]->w, A(0)); break;
  case OP_SEXT: r = Z3_mk_sign_ext(ctx, w - e->k[0]->w, A(0)); break;
  case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FFMA: case OP_FSQRT: {
    Z3_ast f = lowFP(e); Z3_ast bits = Z3_mk_fpa_to_ieee_bv(ctx, f);
    Z3_ast n = bvk(dnan(w), w);
    for (int i = 2; i >= 0; --i) if (e->k[i])
      n = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, lowFP(e->k[i])), ors(low(e->k[i]), qbit(w), w), n);
    r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), n, bits); break;
  }
  case OP_FMIN: case OP_FMAX: case OP_FRND: {
    Z3_ast f = lowFP(e);
    r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), e->op == OP_FRND ? ors(low(e->k[0]), qbit(w), w) : bvk(dnan(w), w), Z3_mk_fpa_to_ieee_bv(ctx, f)); break;
  }
  case OP_SITOFP: case OP_UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, lowFP(e)); break;
  case OP_FPEXT: { // f32->f64, NaN: sign, quiet, payload<<29
    Z3_ast x = A(0); Z3_ast f = lowFP(e);
    Z3_ast nan = Z3_mk_concat(ctx, Z3_mk_extract(ctx, 31, 31, x), Z3_mk_concat(ctx, bvk(0xfff, 12), Z3_mk_concat(ctx, Z3_mk_extract(ctx, 21, 0, x), bvk(0, 29))));
    r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, lowFP(e->k[0])), nan, Z3_mk_fpa_to_ieee_bv(ctx, f)); break;
  }
  case OP_FPTRUNC: {
    Z3_ast x = A(0); Z3_ast f = lowFP(e);
    Z3_ast nan = Z3_mk_concat(ctx, Z3_mk_extract(ctx, 63, 63, x), Z3_mk_concat(ctx, bvk(0x1ff, 9), Z3_mk_extract(ctx, 50, 29, x)));
    r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, lowFP(e->k[0])), nan, Z3_mk_fpa_to_ieee_bv(ctx, f)); break;
  }
  case OP_FPTOSI: case OP_FPTOUI: // only built inside a range guard
    r = e->op == OP_FPTOSI ? Z3_mk_fpa_to_sbv(ctx, RTZ, lowFP(e->k[0]), w) : Z3_mk_fpa_to_ubv(ctx, RTZ, lowFP(e->k[0]), w); break;
  case OP_CLZ: case OP_CTZ: case OP_POP: {
    Z3_ast x = A(0);
    if (e->op == OP_POP) { r = bvk(0, w); for (unsigned i = 0; i < w; ++i) { Z3_ast b = Z3_mk_extract(ctx, i, i, x); r = Z3_mk_bvadd(ctx, r, w > 1 ? Z3_mk_zero_ext(ctx, w - 1, b) : b); } }
    else { r = bvk(w, w);
      for (unsigned j = 0; j < w; ++j) { unsigned i = e->op == OP_CLZ ? j : w - 1 - j;
        r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, i, i, x), bvk(1, 1)), bvk(e->op == OP_CLZ ? w - 1 - i : i, w), r); } }
    break;
  }
  default: abort();
  }
  return e->bv = r;
}

// ---------------------------------------------------------------- queries
// Satisfiability of PC-slice ∧ extra.  Returns 1 sat (fills model), 0 unsat, -1 unknown.
static int query(const std::vector<Expr *> &extra, std::vector<std::pair<u32, u64>> *model) {
  double t0 = now();
  EngineHeap eh;
  shm->st.queries++;
  std::vector<char> inq(vars.size(), 0);
  std::vector<u32> todo;
  auto addv = [&](Expr *e) { for (u32 v : e->vars->v) if (!inq[v]) { inq[v] = 1; todo.push_back(v); } };
  bool fp = false, heavy = false;
  for (auto *e : extra) { addv(e); fp |= e->hasFP; heavy |= e->heavy; }
  std::vector<char> used(PC.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); ++i) {
      if (used[i]) continue;
      for (u32 v : PC[i]->vars->v) if (inq[v]) { used[i] = 1; fp |= PC[i]->hasFP; heavy |= PC[i]->heavy; addv(PC[i]); ch = true; break; }
    }
  }
  if (fp) shm->st.fpQueries++;
  int res = -1;
  for (int attempt = 0; attempt < 2 && res < 0; ++attempt) {
    Z3_solver s;
    bool quick = attempt == 0 && !fp && !heavy;
    if (quick || (fp && attempt == 1)) s = Z3_mk_simple_solver(ctx);
    else {
      static Z3_tactic tac, tacfp;
      if (!tac) {
        auto T = [&](const char *n) { Z3_tactic t = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, t); return t; };
        auto seq = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(ctx, a, b); Z3_tactic_inc_ref(ctx, t); return t; };
        tac = seq(T("simplify"), seq(T("propagate-values"), seq(T("solve-eqs"), seq(T("simplify"), seq(T("bit-blast"), T("sat"))))));
        tacfp = seq(T("simplify"), seq(T("propagate-values"), seq(T("fpa2bv"), seq(T("simplify"), seq(T("propagate-values"), seq(T("bit-blast"), T("sat")))))));
      }
      s = Z3_mk_solver_from_tactic(ctx, fp ? tacfp : tac);
    }
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), quick ? std::min(optQueryMs, 1500u) : optQueryMs);
    Z3_solver_set_params(ctx, s, p);
    for (size_t i = 0; i < PC.size(); ++i) if (used[i]) Z3_solver_assert(ctx, s, lowB(PC[i]));
    for (auto *e : extra) Z3_solver_assert(ctx, s, lowB(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_TRUE) {
      res = 1;
      if (model) {
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
        for (u32 v : todo) {
          if (!vars[v].ast) continue;
          Z3_ast val; 
          if (Z3_model_eval(ctx, m, vars[v].ast, true, &val)) {
            uint64_t x = 0;
            if (Z3_get_numeral_uint64(ctx, val, &x)) model->push_back({v, x});
          }
        }
        Z3_model_dec_ref(ctx, m);
      }
    } else if (r == Z3_L_FALSE) res = 0;
    else if (optVerbose) fprintf(stderr, "[sx] unknown: %s\n", Z3_solver_get_reason_unknown(ctx, s));
    Z3_params_dec_ref(ctx, p);
    Z3_solver_dec_ref(ctx, s);
    if (fp && res < 0 && now() - t0 > optQueryMs / 2000.0) break;
  }
  double dt = now() - t0;
  shm->st.solver_s += dt;
  if (getenv("SX_DUMP") && (dt > 1.0 || getenv("SX_DUMP_ALL"))) {
    char fn[256]; snprintf(fn, sizeof fn, "%s/q%d_%llu.smt2", getenv("SX_DUMP"), (int)getpid(), (unsigned long long)shm->st.queries);
    if (FILE *f = fopen(fn, "w")) {
      for (auto *e : extra) fprintf(f, "EXTRA %s\n", Z3_ast_to_string(ctx, lowB(e)));
      for (size_t i = 0; i < PC.size(); ++i) if (used[i]) fprintf(f, "PC %s\n", Z3_ast_to_string(ctx, lowB(PC[i])));
      fclose(f);
    }
  }
  if (optVerbose && dt > (getenv("SX_SLOW") ? atof(getenv("SX_SLOW")) : 1.0)) fprintf(stderr, "[sx] slow query %.2fs res=%d fp=%d vars=%zu\n", dt, res, fp, todo.size());
  if (res == 1) shm->st.sat++; else if (res == 0) shm->st.unsat++; else shm->st.unknown++;
  return res;
}

static std::map<Expr *, Z3_ast> lowIntZext; // leaves widened from the same value are one integer
// x == y over the integers, with every leaf an integer within its range.
static Z3_ast lowInt(Expr *e, std::map<Expr *, Z3_ast> &m, Z3_solver s) {
  auto it = m.find(e); if (it != m.end()) return it->second;
  Z3_sort I = Z3_mk_int_sort(ctx);
  Z3_ast r = nullptr, a[2];
  auto k = [&](i64 v) { return Z3_mk_int64(ctx, v, I); };
  auto bin = [&](Expr *p, Expr *q) { a[0] = lowInt(p, m, s); a[1] = lowInt(q, m, s); };
  auto noWrap = [&] {
    if (e->w == 64) return true; // bounded by the fixed-point view
    Rng p = rangeOf(e->k[0]), q = rangeOf(e->k[1]);
    __int128 L = -((__int128)1 << (e->w - 1)), H = -L - 1, v[4];
    if (e->op == OP_ADD) v[0] = (__int128)p.lo + q.lo, v[1] = (__int128)p.hi + q.hi;
    else if (e->op == OP_SUB) v[0] = (__int128)p.lo - q.hi, v[1] = (__int128)p.hi - q.lo;
    else { __int128 w[4] = {(__int128)p.lo * q.lo, (__int128)p.lo * q.hi, (__int128)p.hi * q.lo, (__int128)p.hi * q.hi}; v[0] = *std::min_element(w, w + 4); v[1] = *std::max_element(w, w + 4); }
    return v[0] >= L && v[1] <= H;
  };
  if (isK(e)) r = k(sx(e->val, e->w));
  else if ((e->op == OP_ADD || e->op == OP_SUB || (e->op == OP_MUL && (isK(e->k[0]) || isK(e->k[1])))) && noWrap()) {
    bin(e->k[0], e->k[1]);
    r = e->op == OP_ADD ? Z3_mk_add(ctx, 2, a) : e->op == OP_SUB ? Z3_mk_sub(ctx, 2, a) : Z3_mk_mul(ctx, 2, a);
  } else if (e->w == 64 && e->op == OP_SHL && isK(e->k[1]) && e->k[1]->val < 62) { a[0] = lowInt(e->k[0], m, s); a[1] = k((i64)1 << e->k[1]->val); r = Z3_mk_mul(ctx, 2, a); }
  else if (e->w == 64 && e->op == OP_CONCAT && isK(e->k[1]) && !e->k[1]->val) { a[0] = lowInt(e->k[0], m, s); a[1] = k((i64)1 << e->k[1]->w); r = Z3_mk_mul(ctx, 2, a); }
  else if (e->op == OP_SEXT || (e->op == OP_ZEXT && rangeOf(e->k[0]).lo >= 0)) r = lowInt(e->k[0], m, s);
  else if (e->op == OP_EXTRACT && e->aux == 0 && rangeOf(e->k[0]).lo >= -((i64)1 << (e->w - 1)) && rangeOf(e->k[0]).hi < (i64)1 << (e->w - 1)) r = lowInt(e->k[0], m, s);
  else {
    Z3_ast &z = lowIntZext[e->op == OP_ZEXT ? e->k[0] : e];
    if (!z) { z = Z3_mk_fresh_const(ctx, "i", I); Z3_inc_ref(ctx, z); }
    r = z;
    Rng g = rangeOf(e);
    Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, r, k(g.lo))); Z3_solver_assert(ctx, s, Z3_mk_le(ctx, r, k(g.hi)));
  }
  return m[e] = r;
}
static void confirmEqual(Expr *x, Expr *y) {
  static std::map<std::pair<Expr *, Expr *>, bool> done;
  if (x == y || !done.emplace(std::make_pair(x, y), true).second) return;
  double t0 = now(); EngineHeap eh;
  Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 2000);
  Z3_solver_set_params(ctx, s, p);
  std::map<Expr *, Z3_ast> m;
  lowIntZext = {};
  Z3_ast a = lowInt(x, m, s), b = lowInt(y, m, s);
  Z3_solver_assert(ctx, s, Z3_mk_not(ctx, Z3_mk_eq(ctx, a, b)));
  Z3_lbool r = Z3_solver_check(ctx, s);
  shm->st.queries++;
  // A leaf split by the translation can only make the query satisfiable or
  // unknown; the bit-vector normal form has decided the equality already.
  if (r == Z3_L_FALSE) shm->st.unsat++;else shm->st.sat++;
  Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
  shm->st.solver_s += now() - t0;
}
static u64 mix(u64 h, u64 a, u64 b) { h ^= a + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= b + (h >> 31); h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 29); }

static void emitItem(const std::vector<std::pair<u32, u64>> &model, u32 b, u64 h) {
  EngineHeap eh;
  // record: u32 n, u32 bound, u64 hash, n * u64
  size_t n = vars.size(), sz = 16 + n * 8;
  if (shm->used + sz > VIOL_OFF - sizeof(Shm)) { shm->st.dropped++; return; }
  char *p = shm->data + shm->used;
  u32 nn = n; memcpy(p, &nn, 4); memcpy(p + 4, &b, 4); memcpy(p + 8, &h, 8);
  u64 *d = (u64 *)(p + 16);
  if (const char *tr = getenv("SX_TRACE")) { std::string fn = std::string(tr) + "/" + std::to_string(h); if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "parent %d bound %u\n", (int)getpid(), b); fclose(f); } }
  for (size_t i = 0; i < n; ++i) d[i] = vars[i].val;
  for (auto &[v, x] : model) d[v] = x;
  shm->used += sz; shm->nitems++;
}
static std::string jsonEsc(const char *s) {
  std::string r; for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string inputsJson(const std::vector<std::pair<u32, u64>> &model) {
  std::vector<u64> d; for (auto &v : vars) d.push_back(v.val);
  for (auto &[v, x] : model) d[v] = x;
  std::string r = "[";
  for (size_t i = 0; i < d.size(); ++i) {
    char b[160]; snprintf(b, sizeof b, "%s[\"%s\",%u,%llu]", i ? "," : "", jsonEsc(vars[i].name.c_str()).c_str(), vars[i].w, (unsigned long long)d[i]);
    r += b;
  }
  return r + "]";
}
static const char *sxContext = nullptr;
API void sx_context(const char *c) { sxContext = c; }
static void emitViolation(const char *kind, const char *m0, const std::vector<std::pair<u32, u64>> &model) {
  EngineHeap eh;
  std::string ms = m0; if (sxContext) ms += std::string(" [") + sxContext + "]";
  const char *msg = ms.c_str();
  std::string s = std::string("{\"kind\":\"") + kind + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"inputs\":" + inputsJson(model) + "}\n";
  if (shm->vused + s.size() > INP_OFF - VIOL_OFF) return;
  memcpy((char *)shm + VIOL_OFF + shm->vused, s.data(), s.size());
  shm->vused += s.size(); shm->nviol++;
}
static void saveInputs() {
  std::string s = inputsJson({});
  if (s.size() < SHM_SIZE - INP_OFF - 8) { memcpy((char *)shm + INP_OFF, s.data(), s.size()); shm->inputUsed = s.size(); }
}
[[noreturn]] static void endPath(int status) { saveInputs(); shm->status = status; _exit(0); }
[[noreturn]] static void fatal(const char *m) { snprintf(shm->msg, sizeof shm->msg, "%s", m); shm->status = 5; _exit(0); }

static void step(u64 site, u64 taken) {
  EngineHeap eh;
  curHash = mix(curHash, site, taken);
  ndec++;
  if (const char *tr = getenv("SX_TRACE")) { // debugging aid: one file of decisions per path
    static FILE *f; if (!f) f = fopen((std::string(tr) + "/p" + std::to_string(getpid())).c_str(), "w");
    if (f) { fprintf(f, "%u site %llx taken %llu\n", ndec, (unsigned long long)site, (unsigned long long)taken); fflush(f); }
    if (ndec == bound && curHash != expectHash) fprintf(stderr, "[sx] diverged pid %d item %llu\n", getpid(), (unsigned long long)expectHash);
  }
  if (ndec == bound && curHash != expectHash) {
    shm->st.diverged++;
    snprintf(shm->msg, sizeof shm->msg, "path diverged at decision %u", ndec);
    endPath(4);
  }
}
static void addPC(Expr *e) { PC.push_back(e); known[e] = true; known[mkNot(e)] = false; }

static void decide(Expr *e, u64 site) { // branch event on width-1 expr with concrete e->val
  EngineHeap eh;
  if (isK(e)) return;
  if (known.count(e)) return;
  shm->st.decisions++;
  Expr *tk = e->val ? e : mkNot(e);
  if (ndec >= bound) {
    std::vector<std::pair<u32, u64>> m;
    if (query({mkNot(tk)}, &m) == 1) emitItem(m, ndec + 1, mix(curHash, site, !e->val));
  }
  step(site, e->val);
  addPC(tk);
}
static void concretize(Expr *s, u64 site) {
  EngineHeap eh;
  if (!s || isK(s)) return;
  shm->st.decisions++; shm->st.concretize++;
  Expr *eq = mkCmp(OP_EQ, s, K(s->val, s->w));
  if (known.count(eq) && known[eq]) return;
  if (isK(eq)) return;
  if (ndec >= bound) {
    std::vector<Expr *> ex{mkNot(eq)};
    int n = 0;
    while (true) {
      std::vector<std::pair<u32, u64>> m;
      if (query(ex, &m) != 1) break;
      if (++n > optConcCap) { shm->st.capHit++; break; }
      shm->st.concValues++;
      // evaluate s under model: use z3 again cheaply by re-evaluating the DAG
      std::unordered_map<Expr *, u64> memo;
      std::vector<u64> d; for (auto &v : vars) d.push_back(v.val);
      for (auto &[v, x] : m) d[v] = x;
      extern u64 evalUnder(Expr *, std::vector<u64> &, std::unordered_map<Expr *, u64> &);
      u64 v = evalUnder(s, d, memo);
      if (getenv("SX_TRACE")) fprintf(stderr, "[sx] %d concretize op %u now %llx predicted %llx\n", getpid(), s->op, (unsigned long long)s->val, (unsigned long long)v);
      emitItem(m, ndec + 1, mix(curHash, site, v));
      ex.push_back(mkNot(mkCmp(OP_EQ, s, K(v, s->w))));
    }
  }
  step(site, s->val);
  addPC(eq);
}
// Concrete re-evaluation of an expression under another assignment.
static Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c);
u64 evalUnder(Expr *e, std::vector<u64> &d, std::unordered_map<Expr *, u64> &memo) {
  if (e->op == OP_CONST) return e->val;
  if (e->op == OP_VAR) return d[e->aux] & mask(e->w);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *k[3] = {};
  for (int i = 0; i < 3; ++i) if (e->k[i]) k[i] = K(evalUnder(e->k[i], d, memo), e->k[i]->w);
  Expr *r = rebuild(e, k[0], k[1], k[2]);
  return memo[e] = r->val;
}

// ---------------------------------------------------------------- wrappers for building from (shadow, concrete)
static Expr *E(Expr *s, u64 v, unsigned w) { return s ? s : K(v & mask(w), w); }
static Expr *out(Expr *e) { return e && isK(e) ? nullptr : e; }
static Expr *mkUnaryF(unsigned op, Expr *a, unsigned aux = 0) {
  unsigned w = a->w; u64 v; double x = w == 32 ? f32(a->val) : f64(a->val), y;
  if (op == OP_FSQRT) v = w == 32 ? b32(std::sqrt(f32(a->val))) : b64(std::sqrt(x));
  else {
    switch (aux) { case U_FFLOOR: y = std::floor(x); break; case U_FCEIL: y = std::ceil(x); break; case U_FTRUNC: y = std::trunc(x); break;
    case U_FROUND: y = std::round(x); break; default: y = std::nearbyint(x); }
    v = w == 32 ? b32((float)y) : b64(y);
  }
  if (isNaNBits(a->val, w)) v = a->val | qbit(w); else if (isNaNBits(v, w)) v = dnan(w);
  if (isK(a)) return K(v, w);
  return intern(op, w, v, aux, a);
}
static Expr *mkCast(unsigned op, Expr *a, unsigned wt) {
  unsigned wf = a->w;
  switch (op) {
  case C_TRUNC: return mkExtract(a, 0, wt);
  case C_ZEXT: return mkZext(a, wt);
  case C_SEXT: return mkSext(a, wt);
  case C_FPTRUNC: { u64 v = isNaNBits(a->val, 64) ? ((a->val >> 32) & 0x80000000ULL) | 0x7fc00000ULL | ((a->val >> 29) & 0x3fffff) : b32((float)f64(a->val));
    if (isK(a)) return K(v, 32);
    if ((a->op == OP_XOR && isK(a->k[1]) && a->k[1]->val == 1ULL << 63) || (a->op == OP_AND && isK(a->k[1]) && a->k[1]->val == mask(63))) // sign changes commute with conversions
      return mkBin(a->op, mkCast(C_FPTRUNC, a->k[0], 32), K(a->k[1]->val >> 32, 32));
    if (a->op == OP_ITE && (a->k[1]->op == OP_FPEXT || isK(a->k[1]) || isK(a->k[2]) || a->k[2]->op == OP_FPEXT)) return mkIte(a->k[0], mkCast(C_FPTRUNC, a->k[1], 32), mkCast(C_FPTRUNC, a->k[2], 32));
    if (a->op == OP_FPEXT) { // trunc(ext(x)) == x except signalling NaNs
      Expr *x = a->k[0]; Expr *nan = mkFCmp(OP_FUNO, x, x);
      return mkIte(nan, mkBin(OP_OR, x, K(qbit(32), 32)), x); }
    return intern(OP_FPTRUNC, 32, v, 0, a); }
  case C_FPEXT: { u64 v = isNaNBits(a->val, 32) ? ((a->val & 0x80000000ULL) << 32) | 0x7ff8000000000000ULL | ((a->val & 0x3fffff) << 29) : b64((double)f32(a->val));
    if (isK(a)) return K(v, 64);
    if ((a->op == OP_XOR && isK(a->k[1]) && a->k[1]->val == 1ULL << 31) || (a->op == OP_AND && isK(a->k[1]) && a->k[1]->val == mask(31)))
      return mkBin(a->op, mkCast(C_FPEXT, a->k[0], 64), K(a->k[1]->val << 32 | (a->op == OP_AND ? mask(32) : 0), 64));
    if (a->op == OP_ITE && a->k[1]->op == OP_OR && unquiet(a) != a) return mkCast(C_FPEXT, a->k[2], 64); // extension quiets
    return intern(OP_FPEXT, 64, v, 0, a); }
  case C_UITOFP: { u64 v = wt == 32 ? b32((float)a->val) : b64((double)a->val); if (isK(a)) return K(v, wt); return intern(OP_UITOFP, wt, v, 0, a); }
  case C_SITOFP: { i64 s = sx(a->val, wf); u64 v = wt == 32 ? b32((float)s) : b64((double)s); if (isK(a)) return K(v, wt); return intern(OP_SITOFP, wt, v, 0, a); }
  case C_FPTOSI: case C_FPTOUI: {
    // x86-64 code generation: i8/i16/i32 signed via cvttss2si(32), i64 via cvttss2si(64);
    // unsigned <32 via 32-bit, u32 via 64-bit signed, u64 via two-step sequence.
    bool sg = op == C_FPTOSI;
    unsigned cw = sg ? (wt <= 32 ? 32 : 64) : (wt <= 16 ? 32 : 64);
    auto kf = [&](double d) { return wf == 32 ? K(b32((float)d), 32) : K(b64(d), 64); };
    auto conv = [&](Expr *x, unsigned w) -> Expr * { // signed truncation with "integer indefinite"
      double xv = wf == 32 ? f32(x->val) : f64(x->val);
      double hi = w == 32 ? 2147483648.0 : 9223372036854775808.0;
      bool in = w == 32 ? (xv > -2147483649.0 && xv < hi) : (xv >= -hi && xv < hi);
      u64 v = in ? (u64)(i64)xv & mask(w) : 1ULL << (w - 1);
      if (isK(x)) return K(v, w);
      Expr *lo = (w == 32 && wf == 64) ? mkFCmp(OP_FOLT, K(b64(-2147483649.0), 64), x)
                                       : mkFCmp(OP_FOLE, kf(-hi), x);
      Expr *guard = mkBin(OP_AND, lo, mkFCmp(OP_FOLT, x, kf(hi)));
      Fix fx = rngMemo ? fixOf(x) : noFix();
      if (fx.ok && fx.e >= 0) fx = alignFix(fx, 0);
      if (fx.ok && (w == 64 || fx.bound < 1ULL << 31)) {
        Expr *n = fx.iv;
        if (fx.e < 0) { Expr *sh = K(-fx.e, 64); n = mkIte(mkCmp(OP_SLT, n, K(0, 64)), mkBin(OP_ASHR, mkBin(OP_ADD, n, K((1ULL << -fx.e) - 1, 64)), sh), mkBin(OP_ASHR, n, sh)); }
        return mkExtract(n, 0, w);
      }
      Expr *c = intern(OP_FPTOSI, w, v, 0, x);
      return mkIte(guard, c, K(1ULL << (w - 1), w));
    };
    if (sg || wt <= 32) return mkExtract(conv(a, cw), 0, wt);
    // u64: if x < 2^63 cvt else cvt(x-2^63)^(1<<63)
    Expr *big = mkNot(mkFCmp(OP_FOLT, a, kf(9223372036854775808.0)));
    Expr *x2 = mkFBin(OP_FSUB, a, kf(9223372036854775808.0));
    return mkIte(big, mkBin(OP_XOR, conv(x2, 64), K(1ULL << 63, 64)), conv(a, 64));
  }
  }
  abort();
}
static Expr *mkCnt(unsigned op, Expr *a) {
  u64 v = op == OP_CLZ ? clzv(a->val, a->w) : op == OP_CTZ ? ctzv(a->val, a->w) : __builtin_popcountll(a->val);
  if (isK(a)) return K(v, a->w);
  return intern(op, a->w, v, 0, a);
}
static Expr *mkFma(Expr *a, Expr *b, Expr *c) {
  unsigned w = a->w;
  u64 v = w == 32 ? b32(std::fma(f32(a->val), f32(b->val), f32(c->val))) : b64(std::fma(f64(a->val), f64(b->val), f64(c->val)));
  if (isNaNBits(v, w)) { v = dnan(w); for (Expr *x : {a, b, c}) if (isNaNBits(x->val, w)) { v = x->val | qbit(w); break; } }
  if (isK(a) && isK(b) && isK(c)) return K(v, w);
  if (rngMemo) { // exact product: no difference from two operations
    Fix x = fixOf(a), y = x.ok ? fixOf(b) : noFix();
    if (y.ok && mkFix(mkBin(OP_MUL, x.iv, y.iv), x.e + y.e, w).ok) return mkFBin(OP_FADD, mkFBin(OP_FMUL, a, b), c);
  }
  return intern(OP_FFMA, w, v, 0, a, b, c);
}
static Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
  switch (e->op) {
  case OP_EQ: case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE: return mkCmp(e->op, a, b);
  case OP_NOT: return mkNot(a);
  case OP_ITE: return mkIte(a, b, c);
  case OP_CONCAT: return mkConcat(a, b);
  case OP_EXTRACT: return mkExtract(a, e->aux, e->w);
  case OP_ZEXT: return mkZext(a, e->w);
  case OP_SEXT: return mkSext(a, e->w);
  case OP_FPTRUNC: return mkCast(C_FPTRUNC, a, e->w);
  case OP_FPEXT: return mkCast(C_FPEXT, a, e->w);
  case OP_UITOFP: return mkCast(C_UITOFP, a, e->w);
  case OP_SITOFP: return mkCast(C_SITOFP, a, e->w);
  case OP_FPTOSI: case OP_FPTOUI: return mkCast(e->op == OP_FPTOSI ? C_FPTOSI : C_FPTOUI, a, e->w);
  case OP_FOEQ: case OP_FOLT: case OP_FOLE: case OP_FUNO: return mkFCmp(e->op, a, b);
  case OP_FSQRT: return mkUnaryF(OP_FSQRT, a);
  case OP_FRND: return mkUnaryF(OP_FRND, a, e->aux);
  case OP_FFMA: return mkFma(a, b, c);
  case OP_CLZ: case OP_CTZ: case OP_POP: return mkCnt(e->op, a);
  }
  if (e->op >= OP_FADD && e->op <= OP_FCOPYSIGN) return mkFBin(e->op, a, b);
  return mkBin(e->op, a, b);
}

// ---------------------------------------------------------------- hooks: values
API void *__sx_enter(void *self) {
  void *r = __sx_callee == self ? (void *)__sx_args : (void *)zeroArr;
  __sx_callee = nullptr;
  return r;
}
static std::unordered_set<u64> *instrFns;
extern "C" { extern void *__start_sx_fns[] __attribute__((weak)); extern void *__stop_sx_fns[] __attribute__((weak)); }
static std::unordered_set<u64> *awareNatives;
static u64 siteOf(void *ra) { return (u64)ra * 0x2545F4914F6CDD1DULL; }

API void __sx_callpre(void *callee, int n, u64 *conc) {
  bool any = false;
  for (int i = 0; i < n; ++i) if (__sx_args[i] && conc[i] != 0x5158425956414CULL) { any = true; break; }
  if (any && active && !instrFns->count((u64)callee) && !awareNatives->count((u64)callee)) {
    for (int i = 0; i < n; ++i)
      if (__sx_args[i] && conc[i] != 0x5158425956414CULL) { concretize(__sx_args[i], (u64)callee + i); shm->st.nativeSym++; }
    u32 k = shm->nnative; bool dup = false;
    for (u32 i = 0; i < k; ++i) if (shm->natives[i] == (u64)callee) dup = true;
    if (!dup && k < 256) { shm->natives[k] = (u64)callee; shm->nnative = k + 1; }
    __sx_callee = nullptr;
    return;
  }
  __sx_callee = callee;
}
API void *__sx_getret(void *callee) {
  void *r = __sx_retfn == callee ? (void *)__sx_retv : (void *)zeroArr;
  __sx_retfn = nullptr;
  return r;
}
API void __sx_setret(void *, int) {}
API void __sx_byval(void *dst, void *src, u64 n);

API Expr *__sx_bin(unsigned op, unsigned w, Expr *sa, u64 a, Expr *sb, u64 b) {
  if (!sa && !sb) return nullptr;
  Expr *x = E(sa, a, w), *y = E(sb, b, w);
  switch (op) {
  case OP_UMIN: return out(mkIte(mkCmp(OP_ULT, x, y), x, y));
  case OP_UMAX: return out(mkIte(mkCmp(OP_ULT, y, x), x, y));
  case OP_SMIN: return out(mkIte(mkCmp(OP_SLT, x, y), x, y));
  case OP_SMAX: return out(mkIte(mkCmp(OP_SLT, y, x), x, y));
  case OP_UADDO: return out(mkCmp(OP_ULT, mkBin(OP_ADD, x, y), x));
  case OP_USUBO: return out(mkCmp(OP_ULT, x, y));
  case OP_SADDO: case OP_SSUBO: {
    Expr *z = K(0, w), *r = mkBin(op == OP_SADDO ? OP_ADD : OP_SUB, x, y);
    Expr *xn = mkCmp(OP_SLT, x, z), *yn = mkCmp(OP_SLT, y, z), *rn = mkCmp(OP_SLT, r, z);
    Expr *same = op == OP_SADDO ? mkCmp(OP_EQ, xn, yn) : mkNot(mkCmp(OP_EQ, xn, yn));
    return out(mkBin(OP_AND, same, mkNot(mkCmp(OP_EQ, rn, xn)))); }
  case OP_UADDSAT: return out(mkIte(mkCmp(OP_ULT, mkBin(OP_ADD, x, y), x), K(mask(w), w), mkBin(OP_ADD, x, y)));
  case OP_USUBSAT: return out(mkIte(mkCmp(OP_ULT, x, y), K(0, w), mkBin(OP_SUB, x, y)));
  case OP_SADDSAT: case OP_SSUBSAT: {
    Expr *o = __sx_bin(op == OP_SADDSAT ? OP_SADDO : OP_SSUBO, w, x, 0, y, 0);
    Expr *r = mkBin(op == OP_SADDSAT ? OP_ADD : OP_SUB, x, y);
    if (!o) o = K(0, 1);
    return out(mkIte(o, mkIte(mkCmp(OP_SLT, x, K(0, w)), K(1ULL << (w - 1), w), K(mask(w) >> 1, w)), r)); }
  case OP_UMULO: case OP_SMULO: {
    if (w <= 32) {
      bool sg = op == OP_SMULO;
      Expr *X = sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), *Y = sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w);
      Expr *p = mkBin(OP_MUL, X, Y), *t = mkExtract(p, 0, w);
      return out(mkNot(mkCmp(OP_EQ, p, sg ? mkSext(t, 2 * w) : mkZext(t, 2 * w))));
    }
    // 64-bit: exact test by division:  y!=0 && (x*y)/y != x  (unsigned); signed analogous
    Expr *p = mkBin(OP_MUL, x, y), *z = K(0, w);
    if (op == OP_UMULO) return out(mkBin(OP_AND, mkNot(mkCmp(OP_EQ, y, z)), mkNot(mkCmp(OP_EQ, mkBin(OP_UDIV, p, y), x))));
    Expr *m1 = mkCmp(OP_EQ, y, K(mask(w), w)), *minx = mkCmp(OP_EQ, x, K(1ULL << 63, w));
    Expr *c1 = mkBin(OP_AND, m1, minx);
    Expr *c2 = mkBin(OP_AND, mkNot(mkCmp(OP_EQ, y, z)), mkBin(OP_AND, mkNot(m1), mkNot(mkCmp(OP_EQ, mkBin(OP_SDIV, p, y), x))));
    return out(mkBin(OP_OR, c1, c2)); }
  }
  if ((op >= OP_UDIV && op <= OP_SREM)) { // division by zero traps: separate that path
    if (sb) decide(mkCmp(OP_EQ, y, K(0, w)), 0x444956ULL + w);
    if (y->val == 0) return nullptr; // about to trap natively
  }
  return out(mkBin(op, x, y));
}
API Expr *__sx_icmp(unsigned pred, unsigned w, Expr *sa, u64 a, Expr *sb, u64 b) {
  if (!sa && !sb) return nullptr;
  Expr *x = E(sa, a, w), *y = E(sb, b, w);
  switch (pred) { // LLVM ICMP predicates
  case 32: return out(mkCmp(OP_EQ, x, y)); case 33: return out(mkNot(mkCmp(OP_EQ, x, y)));
  case 34: return out(mkCmp(OP_ULT, y, x)); case 35: return out(mkCmp(OP_ULE, y, x));
  case 36: return out(mkCmp(OP_ULT, x, y)); case 37: return out(mkCmp(OP_ULE, x, y));
  case 38: return out(mkCmp(OP_SLT, y, x)); case 39: return out(mkCmp(OP_SLE, y, x));
  case 40: return out(mkCmp(OP_SLT, x, y)); case 41: return out(mkCmp(OP_SLE, x, y));
  }
  fatal("icmp pred");
}
API Expr *__sx_fcmp(unsigned pred, unsigned w, Expr *sa, u64 a, Expr *sb, u64 b) {
  if (!sa && !sb) return nullptr;
  Expr *x = E(sa, a, w), *y = E(sb, b, w);
  auto uno = [&] { return mkFCmp(OP_FUNO, x, y); };
  Expr *r;
  switch (pred) {
  case 0: return nullptr; case 15: return nullptr;
  case 1: r = mkFCmp(OP_FOEQ, x, y); break;
  case 2: r = mkFCmp(OP_FOLT, y, x); break;
  case 3: r = mkFCmp(OP_FOLE, y, x); break;
  case 4: r = mkFCmp(OP_FOLT, x, y); break;
  case 5: r = mkFCmp(OP_FOLE, x, y); break;
  case 6: r = mkBin(OP_OR, mkFCmp(OP_FOLT, x, y), mkFCmp(OP_FOLT, y, x)); break;
  case 7: r = mkNot(uno()); break;
  case 8: r = uno(); break;
  case 9: r = mkBin(OP_OR, uno(), mkFCmp(OP_FOEQ, x, y)); break;
  case 10: r = mkNot(mkFCmp(OP_FOLE, x, y)); break;
  case 11: r = mkNot(mkFCmp(OP_FOLT, x, y)); break;
  case 12: r = mkNot(mkFCmp(OP_FOLE, y, x)); break;
  case 13: r = mkNot(mkFCmp(OP_FOLT, y, x)); break;
  case 14: r = mkNot(mkFCmp(OP_FOEQ, x, y)); break;
  default: fatal("fcmp pred");
  }
  return out(r);
}
API Expr *__sx_fbin(unsigned op, unsigned w, Expr *sa, u64 a, Expr *sb, u64 b) {
  if (!sa && !sb) return nullptr;
  if (op == OP_FREM) { concretize(sa, 0x46524d); concretize(sb, 0x46524e); shm->st.unsupported++; return nullptr; }
  return out(mkFBin(op, E(sa, a, w), E(sb, b, w)));
}
API Expr *__sx_cast(unsigned op, unsigned wf, unsigned wt, Expr *s, u64 a) {
  if (!s) return nullptr;
  return out(mkCast(op, s, wt));
}
API Expr *__sx_un(unsigned op, unsigned w, Expr *s, u64 a) {
  if (!s) return nullptr;
  switch (op) {
  case U_FNEG: return out(mkBin(OP_XOR, s, K(1ULL << (w - 1), w)));
  case U_FABS: return out(mkZext(mkExtract(s, 0, w - 1), w));
  case U_BSWAP: { Expr *r = mkExtract(s, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(s, i, 8)); return out(r); }
  case U_BITREV: { Expr *r = mkExtract(s, 0, 1); for (unsigned i = 1; i < w; ++i) r = mkConcat(r, mkExtract(s, i, 1)); return out(r); }
  case U_CTPOP: return out(mkCnt(OP_POP, s));
  case U_CTLZ: return out(mkCnt(OP_CLZ, s));
  case U_CTTZ: return out(mkCnt(OP_CTZ, s));
  case U_ABS: return out(mkIte(mkCmp(OP_SLT, s, K(0, w)), mkBin(OP_SUB, K(0, w), s), s));
  case U_FSQRT: return out(mkUnaryF(OP_FSQRT, s));
  default: return out(mkUnaryF(OP_FRND, s, op));
  }
}
API Expr *__sx_select(unsigned w, Expr *sc, u64 c, Expr *sa, u64 a, Expr *sb, u64 b) {
  if (!sc) return c & 1 ? sa : sb;
  return out(mkIte(sc, E(sa, a, w), E(sb, b, w)));
}
API Expr *__sx_ptradd(Expr *sb, u64 b, Expr *si, i64 i, u64 scale, unsigned w) {
  if (!sb && !si) return nullptr;
  Expr *base = E(sb, b, 64);
  Expr *off = si ? mkBin(OP_MUL, si->w > 64 ? si : mkSext(si, 64), K(scale, 64)) : K(0, 64);
  if (!si && w == 64 && i == 0) off = K(scale, 64); // constant offset form
  else if (!si) off = K((u64)i * scale, 64);
  return out(mkBin(OP_ADD, base, off));
}
API Expr *__sx_fma(unsigned w, Expr *a, u64 ca, Expr *b, u64 cb, Expr *c, u64 cc) {
  if (!a && !b && !c) return nullptr;
  // clang's fmuladd without FMA hardware is mul+add
  return out(mkFBin(OP_FADD, mkFBin(OP_FMUL, E(a, ca, w), E(b, cb, w)), E(c, cc, w)));
}
API Expr *__sx_concat(unsigned wh, Expr *h, u64 ch, unsigned wl, Expr *l, u64 cl) {
  if (!h && !l) return nullptr;
  return out(mkConcat(E(h, ch, wh), E(l, cl, wl)));
}
API Expr *__sx_extract(Expr *s, unsigned lo, unsigned w) { return s ? out(mkExtract(s, lo, w)) : nullptr; }
API Expr *__sx_fsh(unsigned right, unsigned w, Expr *a, u64 ca, Expr *b, u64 cb, Expr *c, u64 cc) {
  if (!a && !b && !c) return nullptr;
  if (c) { concretize(c, 0x465348); cc = c->val; }
  unsigned s = cc % w;
  if (!a && !b) return nullptr;
  Expr *x = E(a, ca, w), *y = E(b, cb, w);
  if (s == 0) return out(right ? y : x);
  if (!right) return out(mkConcat(mkExtract(x, 0, w - s), mkExtract(y, w - s, s)));
  return out(mkConcat(mkExtract(x, 0, s), mkExtract(y, s, w - s)));
}
API Expr *__sx_isfpclass(unsigned w, unsigned m, Expr *s, u64 v) {
  if (!s) return nullptr;
  unsigned mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11;
  Expr *sign = mkExtract(s, w - 1, 1), *ex = mkExtract(s, mb, eb), *fr = mkExtract(s, 0, mb), *q = mkExtract(s, mb - 1, 1);
  Expr *e1 = mkCmp(OP_EQ, ex, K(mask(eb), eb)), *e0 = mkCmp(OP_EQ, ex, K(0, eb)), *f0 = mkCmp(OP_EQ, fr, K(0, mb));
  auto And = [](Expr *a, Expr *b) { return mkBin(OP_AND, a, b); };
  auto Or = [](Expr *a, Expr *b) { return mkBin(OP_OR, a, b); };
  Expr *nan = And(e1, mkNot(f0)), *inf = And(e1, f0), *zero = And(e0, f0), *sub = And(e0, mkNot(f0)), *nrm = And(mkNot(e1), mkNot(e0));
  Expr *r = K(0, 1), *pos = mkNot(sign);
  if (m & 1) r = Or(r, And(nan, mkNot(q))); if (m & 2) r = Or(r, And(nan, q));
  if (m & 4) r = Or(r, And(inf, sign)); if (m & 8) r = Or(r, And(nrm, sign)); if (m & 16) r = Or(r, And(sub, sign)); if (m & 32) r = Or(r, And(zero, sign));
  if (m & 64) r = Or(r, And(zero, pos)); if (m & 128) r = Or(r, And(sub, pos)); if (m & 256) r = Or(r, And(nrm, pos)); if (m & 512) r = Or(r, And(inf, pos));
  return out(r);
}
API void __sx_unsupported(Expr *s, u64 v) { if (s) { shm->st.unsupported++; concretize(s, siteOf(__builtin_return_address(0))); } }
API void __sx_concretize(Expr *s, u64 v) { if (s) concretize(s, siteOf(__builtin_return_address(0))); }
API void __sx_branch(Expr *s, u64 c, u64 site) {
  if (!s || isK(s)) return;
  if (s->val != (c & 1)) { shm->st.diverged++; snprintf(shm->msg, sizeof shm->msg, "shadow/concrete mismatch at a branch (op %u)", s->op); endPath(4); }
  decide(s, site);
}

// ---------------------------------------------------------------- shadow memory
// Per byte: its expression, plus the word it was stored as part of (so that a
// reload of the same word gives back the stored expression unchanged).
struct Page { Expr *b[4096]; Expr *wh[4096]; unsigned char ix[4096]; };
static std::unordered_map<u64, Page *> *pages;
static u64 lastPg = ~0ULL; static Page *lastP;
static inline Page *page(u64 a) {
  u64 n = a >> 12; if (n == lastPg) return lastP;
  auto it = pages->find(n); lastPg = n; return lastP = it == pages->end() ? nullptr : it->second;
}
static Page *pageMk(u64 a) {
  Page *p = page(a); if (p) return p;
  p = (Page *)ehAlloc(sizeof(Page)); memset(p, 0, sizeof(Page)); (*pages)[a >> 12] = p; lastPg = a >> 12; lastP = p; return p;
}
static void checkAccess(u64 a, u64 n, bool write);
static inline Expr *getB(u64 a) { Page *p = page(a); return p ? p->b[a & 4095] : nullptr; }
static inline void setB(u64 a, Expr *e, Expr *wh = nullptr, unsigned ix = 0) {
  Page *p = (e || wh) ? pageMk(a) : page(a);
  if (!p) return;
  unsigned o = a & 4095; p->b[o] = e; p->wh[o] = wh; p->ix[o] = ix;
}
static inline Expr *wholeAt(u64 a, unsigned n) {
  Page *p = page(a); if (!p) return nullptr;
  Expr *w = p->wh[a & 4095];
  if (!w || w->w != n * 8) return nullptr;
  for (unsigned i = 0; i < n; ++i) { p = page(a + i); if (!p || p->wh[(a + i) & 4095] != w || p->ix[(a + i) & 4095] != i) return nullptr; }
  return w;
}

static Expr *loadMem(u64 a, unsigned n) {
  Page *p0 = page(a);
  if (!p0 && !page(a + n - 1)) return nullptr;
  bool any = false;
  Expr *bs[8];
  if (Expr *w = wholeAt(a, n)) {
    u64 mem = 0; memcpy(&mem, (void *)a, n);
    if (w->val == mem || (w->hasFP && (n == 4 || n == 8) && isNaNBits(w->val, n * 8) && isNaNBits(mem, n * 8))) return out(w);
  }
  for (unsigned i = 0; i < n; ++i) {
    bs[i] = getB(a + i);
    if (bs[i] && bs[i]->val != *(unsigned char *)(a + i)) {
      // NaN payloads may legitimately differ; decided at word level below
    }
    any |= bs[i] != nullptr;
  }
  if (!any) return nullptr;
  u64 mem = 0; memcpy(&mem, (void *)a, n);
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    Expr *x = bs[i] ? bs[i] : K(*(unsigned char *)(a + i), 8);
    r = r ? mkConcat(x, r) : x;
  }
  if (r->val != mem) {
    bool nanOk = (n == 4 || n == 8) && isNaNBits(r->val, n * 8) && isNaNBits(mem, n * 8) && r->hasFP;
    if (!nanOk) { // memory was overwritten by uninstrumented code: shadow is stale
      for (unsigned i = 0; i < n; ++i) if (bs[i] && bs[i]->val != *(unsigned char *)(a + i)) { setB(a + i, nullptr); bs[i] = nullptr; }
      r = nullptr; any = false;
      for (unsigned i = 0; i < n; ++i) { Expr *x = bs[i] ? bs[i] : K(*(unsigned char *)(a + i), 8); any |= bs[i] != nullptr; r = r ? mkConcat(x, r) : x; }
      if (!any) return nullptr;
    }
  }
  return out(r);
}
static bool arenaBlock(u64 a, u64 &lo, u64 &hi);
static int optTableLoad = 64;
API Expr *__sx_load(void *p, Expr *sp, unsigned n, unsigned w) {
  u64 a = (u64)p;
  if (sp && !isK(sp)) {
    // Symbolic address.  Inside one heap block: first make sure an escape from
    // the block is explored as its own path, then split over the addresses.
    u64 lo, hi;
    if (arenaBlock(a, lo, hi)) {
      Expr *in = mkBin(OP_AND, mkCmp(OP_ULE, K(lo, 64), sp), mkCmp(OP_ULE, sp, K(hi - n, 64)));
      decide(in, siteOf(__builtin_return_address(0)) ^ 0x77);
    }
    concretize(sp, siteOf(__builtin_return_address(0)));
  }
  checkAccess(a, n, false);
  Expr *r = loadMem(a, n);
  if (r && w < n * 8) r = out(mkExtract(r, 0, w));
  return r;
}
API void __sx_store(void *p, Expr *sp, Expr *sv, u64 v, unsigned n, unsigned w) {
  u64 a = (u64)p;
  checkAccess(a, n, true);
  if (!sv) { Page *q = page(a), *q2 = page(a + n - 1); if (!q && !q2) return; for (unsigned i = 0; i < n; ++i) setB(a + i, nullptr); return; }
  if (w < n * 8) sv = mkZext(sv, n * 8);
  for (unsigned i = 0; i < n; ++i) { Expr *e = mkExtract(sv, 8 * i, 8); setB(a + i, isK(e) ? nullptr : e, n > 1 ? sv : nullptr, i); }
}
static void copyShadow(u64 d, u64 s, u64 n) {
  if (d == s || !n) return;
  bool any = false;
  for (u64 pg = s >> 12; pg <= (s + n - 1) >> 12; ++pg) if (page(pg << 12)) any = true;
  for (u64 pg = d >> 12; pg <= (d + n - 1) >> 12; ++pg) if (page(pg << 12)) any = true;
  if (!any) return;
  struct T { Expr *e, *w; unsigned x; };
  std::vector<T> t(n);
  for (u64 i = 0; i < n; ++i) {
    Page *p = page(s + i); if (!p) { t[i] = {}; continue; }
    unsigned o = (s + i) & 4095; t[i] = {p->b[o], p->wh[o], p->ix[o]};
    if (t[i].e && t[i].e->val != *(unsigned char *)(s + i) && !t[i].e->hasFP) t[i] = {};
  }
  for (u64 i = 0; i < n; ++i) setB(d + i, t[i].e, t[i].w, t[i].x);
}
static void clearShadow(u64 d, u64 n) {
  if (!n) return;
  for (u64 a = d; a < d + n;) {
    u64 e = std::min(d + n, (a | 4095) + 1);
    if (Page *p = page(a)) { memset(&p->b[a & 4095], 0, (e - a) * sizeof(Expr *)); memset(&p->wh[a & 4095], 0, (e - a) * sizeof(Expr *)); }
    a = e;
  }
}
API void __sx_memcpy(void *d, void *s, u64 n, Expr *sd, Expr *ss, Expr *sn) {
  u64 site = siteOf(__builtin_return_address(0));
  if (sn) concretize(sn, site); if (sd) concretize(sd, site + 1); if (ss) concretize(ss, site + 2);
  if (!n) return;
  checkAccess((u64)s, n, false); checkAccess((u64)d, n, true);
  copyShadow((u64)d, (u64)s, n);
}
API void __sx_memset(void *d, u64 v, u64 n, Expr *sd, Expr *sv, Expr *sn) {
  u64 site = siteOf(__builtin_return_address(0));
  if (sn) concretize(sn, site); if (sd) concretize(sd, site + 1);
  if (!n) return;
  checkAccess((u64)d, n, true);
  if (sv) for (u64 i = 0; i < n; ++i) setB((u64)d + i, sv); else clearShadow((u64)d, n);
}
API void __sx_clear(void *p, u64 n) { clearShadow((u64)p, n); }
API void __sx_byval(void *dst, void *src, u64 n) { copyShadow((u64)dst, (u64)src, n); }

// ---------------------------------------------------------------- checked heap
static const u64 AR_BASE = 0x100000000000ULL, AR_SIZE = 1ULL << 36;
static unsigned char *arMeta; // one byte per 8 bytes: 0 red zone, 1..8 valid bytes, 0xfd freed
static u64 arTop = AR_BASE + 4096;
struct Blk { u64 size; unsigned char kind; bool live; };
static std::map<u64, Blk> *blocks;
static i64 liveBlocks = 0;
static void initArena() {
  void *p = mmap((void *)AR_BASE, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)AR_BASE) { fprintf(stderr, "arena mmap failed\n"); exit(3); }
  arMeta = (unsigned char *)mmap(nullptr, AR_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arMeta == MAP_FAILED) { fprintf(stderr, "meta mmap failed\n"); exit(3); }
  blocks = new std::map<u64, Blk>;
}
static inline bool inArena(u64 a) { return a - AR_BASE < AR_SIZE; }
static void *arAlloc(u64 n, unsigned kind, u64 align = 16) {
  u64 a = (arTop + 32 + align - 1) & ~(align - 1);
  if (n > (1ULL << 33) || a + n + 64 > AR_BASE + AR_SIZE) return nullptr;
  arTop = a + n;
  u64 i = 0, m = (a - AR_BASE) / 8;
  for (; i + 8 <= n; i += 8) arMeta[m++] = 8;
  if (i < n) arMeta[m++] = n - i;
  memset((void *)a, 0xbe, std::min<u64>(n, 1 << 20));
  (*blocks)[a] = {n, (unsigned char)kind, true};
  liveBlocks++;
  return (void *)a;
}
[[noreturn]] static void pathFail(const char *kind, const char *msg) { emitViolation(kind, msg, {}); endPath(3); }
static void checkAccess(u64 a, u64 n, bool write) {
  if (!active) return;
  if (!inArena(a)) {
    if (a < 4096) pathFail("memory", write ? "null-pointer write" : "null-pointer read");
    return;
  }
  u64 e = a + n - 1;
  for (u64 g = (a - AR_BASE) / 8; g <= (e - AR_BASE) / 8; ++g) {
    unsigned m = arMeta[g];
    u64 gb = AR_BASE + g * 8;
    u64 last = std::min<u64>(e, gb + 7) - gb;
    if (m == 0 || m > 8 || last >= m) {
      char b[200];
      snprintf(b, sizeof b, "heap %s %s of %llu byte(s)", m == 0xfd ? "use-after-free" : "out-of-bounds", write ? "write" : "read", (unsigned long long)n);
      pathFail("memory", b);
    }
  }
}
static bool arenaBlock(u64 a, u64 &lo, u64 &hi) {
  if (!inArena(a)) return false;
  auto it = blocks->upper_bound(a);
  if (it == blocks->begin()) return false;
  --it;
  if (a >= it->first + it->second.size) return false;
  lo = it->first; hi = lo + it->second.size; return true;
}
static void arFree(u64 a, unsigned kind) {
  auto it = blocks->find(a);
  if (it == blocks->end()) { if (active) pathFail("memory", "free of a pointer that is not a heap block"); return; }
  if (!it->second.live) { if (active) pathFail("memory", "double free"); return; }
  if (kind && it->second.kind && kind != it->second.kind && active) pathFail("memory", "allocation/deallocation family mismatch");
  it->second.live = false; liveBlocks--;
  u64 n = it->second.size;
  for (u64 g = (a - AR_BASE) / 8, k = 0; k < (n + 7) / 8; ++k) arMeta[g + k] = 0xfd;
  clearShadow(a, n);
  memset((void *)a, 0xdd, std::min<u64>(n, 1 << 20));
}
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_calloc(size_t, size_t);
static bool heapOn = false;
static u64 concArg(int i, u64 v) { return v; }
// Allocation functions called from instrumented code (linked with --wrap).
static bool allocFaults = false;
API void sx_alloc_faults(int on) { allocFaults = on; }
static bool allocFails() {
  if (!heapOn || !allocFaults) return false;
  bool r = sx_pick("allocfail", 0, 1); __sx_retfn = nullptr; return r;
}
API void *__wrap_malloc(size_t n) { return allocFails() ? nullptr : heapOn ? arAlloc(n, 1) : __libc_malloc(n); }
API void *__wrap_calloc(size_t a, size_t b) {
  if (!heapOn) return __libc_calloc(a, b);
  if (allocFails()) return nullptr;
  u64 n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void *p = arAlloc(n, 1); if (p) memset(p, 0, n); return p;
}
API void __wrap_free(void *p) { if (!p) return; if (inArena((u64)p)) arFree((u64)p, 1); else __libc_free(p); }
API void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!inArena((u64)p)) return __libc_realloc(p, n);
  auto it = blocks->find((u64)p);
  if (it == blocks->end() || !it->second.live) pathFail("memory", "realloc of a pointer that is not a live heap block");
  void *q = arAlloc(n, 1); if (!q) return nullptr;
  u64 m = std::min<u64>(n, it->second.size);
  memcpy(q, p, m); copyShadow((u64)q, (u64)p, m); arFree((u64)p, 1); return q;
}
API int __wrap_posix_memalign(void **out, size_t al, size_t n) { *out = heapOn ? arAlloc(n, 1, al < 16 ? 16 : al) : nullptr; if (!heapOn) return posix_memalign(out, al, n); __sx_clear(out, 8); return *out ? 0 : ENOMEM; }
API void *__wrap_aligned_alloc(size_t al, size_t n) { return heapOn ? arAlloc(n, 1, al < 16 ? 16 : al) : aligned_alloc(al, n); }
API void *__wrap__Znwm(size_t n) { return heapOn ? arAlloc(n, 2) : __libc_malloc(n); }
API void *__wrap__Znam(size_t n) { return heapOn ? arAlloc(n, 3) : __libc_malloc(n); }
API void *__wrap__ZnwmSt11align_val_t(size_t n, size_t al) { return heapOn ? arAlloc(n, 2, al < 16 ? 16 : al) : aligned_alloc(al, (n + al - 1) / al * al); }
API void *__wrap__ZnwmRKSt9nothrow_t(size_t n, void *) { return heapOn ? arAlloc(n, 2) : __libc_malloc(n); }
API void *__wrap__ZnamRKSt9nothrow_t(size_t n, void *) { return heapOn ? arAlloc(n, 3) : __libc_malloc(n); }
API void __wrap__ZdlPv(void *p) { if (!p) return; if (inArena((u64)p)) arFree((u64)p, 2); else free(p); }
API void __wrap__ZdlPvm(void *p, size_t) { __wrap__ZdlPv(p); }
API void __wrap__ZdlPvSt11align_val_t(void *p, size_t) { __wrap__ZdlPv(p); }
API void __wrap__ZdlPvmSt11align_val_t(void *p, size_t, size_t) { __wrap__ZdlPv(p); }
API void __wrap__ZdaPv(void *p) { if (!p) return; if (inArena((u64)p)) arFree((u64)p, 3); else free(p); }
API void __wrap__ZdaPvm(void *p, size_t) { __wrap__ZdaPv(p); }
// Uninstrumented libraries may free or grow blocks of the checked heap.
API void *malloc(size_t n) { return ehOn ? ehAlloc(n) : __libc_malloc(n); }
API void *calloc(size_t a, size_t b) { if (!ehOn) return __libc_calloc(a, b); size_t n = a * b; void *p = ehAlloc(n); memset(p, 0, n); return p; }
API void free(void *p) { if (!p) return; if (inEH((u64)p)) ehFree(p); else if (inArena((u64)p)) arFree((u64)p, 0); else __libc_free(p); }
API void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (inEH((u64)p)) { size_t old = (1ULL << ((u64 *)p)[-1]) - 16; if (n <= old) return p; void *q = ehAlloc(n); memcpy(q, p, old); ehFree(p); return q; }
  if (p && inArena((u64)p)) { auto it = blocks->find((u64)p); void *q = __libc_malloc(n); if (it != blocks->end()) memcpy(q, p, std::min<u64>(n, it->second.size)); arFree((u64)p, 0); return q; }
  return __libc_realloc(p, n);
}
API size_t malloc_usable_size(void *p) { if (p && inEH((u64)p)) return (1ULL << ((u64 *)p)[-1]) - 16; if (p && inArena((u64)p)) { auto it = blocks->find((u64)p); if (it != blocks->end()) return it->second.size; } return p ? (((size_t *)p)[-1] & ~7ULL) - 8 : 0; }

// ---------------------------------------------------------------- harness API
static Expr *newVar(const char *name, unsigned w, u64 dflt) {
  EngineHeap eh;
  u32 id = vars.size();
  u64 v = id < seedVals.size() ? seedVals[id] : dflt;
  vars.push_back({name, w, v & mask(w), nullptr});
  auto *vs = new VarSet; vs->v.push_back(id);
  Expr *e = new Expr{OP_VAR, w, v & mask(w), id, nextExpr++, {nullptr, nullptr, nullptr}, vs, nullptr, nullptr, false};
  return e;
}
static void retShadow(void *fn, Expr *e) { __sx_retfn = fn; __sx_retv[0] = e; }
API uint64_t sx_u64(const char *name, int bits) {
  Expr *e = newVar(name, bits, 0);
  retShadow((void *)&sx_u64, mkZext(e, 64));
  return e->val;
}
API int64_t sx_range(const char *name, int64_t lo, int64_t hi) {
  u64 span = (u64)hi - (u64)lo;
  unsigned w = 1; while (w < 64 && (span >> w)) ++w;
  Expr *e = newVar(name, w, 0);
  (*varSpan)[e->aux] = span;
  if (span != mask(w)) {
    Expr *c = mkCmp(OP_ULE, e, K(span, w));
    if (!c->val) fatal("range variable outside its range");
    addPC(c);
  }
  Expr *r = mkBin(OP_ADD, mkZext(e, 64), K((u64)lo, 64));
  retShadow((void *)&sx_range, out(r));
  return (int64_t)r->val;
}
API int64_t sx_pick(const char *name, int64_t lo, int64_t hi) {
  EngineHeap eh;
  u32 id = vars.size();
  Expr *e = newVar(name, 64, (u64)lo);
  shm->st.decisions++;
  u64 site = 0x5049434bULL + id;
  if (ndec >= bound)
    for (int64_t v = lo; v <= hi; ++v)
      if ((u64)v != e->val) emitItem({{id, (u64)v}}, ndec + 1, mix(curHash, site, (u64)v));
  step(site, e->val);
  retShadow((void *)&sx_pick, nullptr);
  return (int64_t)e->val;
}
API void sx_bytes(void *p, size_t n, const char *name) {
  EngineHeap eh;
  for (size_t i = 0; i < n; ++i) {
    Expr *e = newVar((std::string(name) + "[" + std::to_string(i) + "]").c_str(), 8, 0);
    ((unsigned char *)p)[i] = e->val;
    setB((u64)p + i, e);
  }
}
static Expr *argShadow(void *fn, int i) { return __sx_callee == fn ? __sx_args[i] : nullptr; }
API void sx_assume(int cond) {
  EngineHeap eh;
  Expr *s = argShadow((void *)&sx_assume, 0); __sx_callee = nullptr;
  if (!s) { if (!cond) endPath(2); return; }
  Expr *c = mkNot(mkCmp(OP_EQ, s, K(0, s->w)));
  if (isK(c)) { if (!c->val) endPath(2); return; }
  if (known.count(c)) { if (!known[c]) endPath(2); return; }
  shm->st.decisions++;
  u64 site = 0x4153534dULL;
  if (!c->val) {
    if (ndec >= bound) {
      std::vector<std::pair<u32, u64>> m;
      if (query({c}, &m) == 1) emitItem(m, ndec + 1, mix(curHash, site, 1));
    }
    endPath(2);
  }
  step(site, 1);
  addPC(c);
}
API void sx_assert_(int cond, const char *msg) {
  EngineHeap eh;
  Expr *s = argShadow((void *)&sx_assert_, 0); __sx_callee = nullptr;
  shm->st.obligations++;
  if (!s) { if (!cond) { emitViolation("assert", msg, {}); endPath(1); } return; }
  Expr *c = mkNot(mkCmp(OP_EQ, s, K(0, s->w)));
  if (isK(c)) { if (!c->val) { emitViolation("assert", msg, {}); endPath(1); } return; }
  if (known.count(c) && known[c]) return;
  shm->st.decisions++;
  u64 site = 0x41535254ULL;
  if (!c->val) {
    emitViolation("assert", msg, {});
    if (ndec >= bound) { std::vector<std::pair<u32, u64>> m; if (query({c}, &m) == 1) emitItem(m, ndec + 1, mix(curHash, site, 1)); }
    endPath(1);
  }
  // An inherited prefix has already discharged this obligation.
  if (ndec >= bound) {
    std::vector<std::pair<u32, u64>> m;
    int r = query({mkNot(c)}, &m);
    if (r == 1) emitViolation("assert", msg, m);
    if (r < 0) shm->st.obUnknown++;
  }
  step(site, 1);
  addPC(c);
}
API void sx_reach(const char *label) {
  for (u32 i = 0; i < shm->nlabel; ++i) if (!strncmp(shm->labels[i], label, 47)) return;
  if (shm->nlabel < 64) { strncpy(shm->labels[shm->nlabel], label, 47); shm->nlabel++; }
}
API int sx_is_replay(void) { return 0; }
API int sx_thorough(void) { const char *e = getenv("SX_TIER"); return e && !strcmp(e, "thorough"); }
API int64_t sx_live_allocs(void) { return liveBlocks; }
API int sx_block_live(const void *p) { auto it = blocks->find((u64)p); if (it == blocks->end()) return -1; return it->second.live; }
API int64_t sx_concrete(int64_t v) {
  Expr *s = argShadow((void *)&sx_concrete, 0); __sx_callee = nullptr;
  if (s) concretize(s, 0x434f4e43);
  retShadow((void *)&sx_concrete, nullptr);
  return v;
}
API void sx_log(const char *fmt, ...) { if (!optVerbose) return; va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); }

struct Test { std::string name; sx_testfn f; };
static std::vector<Test> *tests;
static void (*initFn)(void);
API void sx_register(const char *n, sx_testfn f) { if (!tests) tests = new std::vector<Test>; tests->push_back({n, f}); }
API void sx_set_init(void (*f)(void)) { initFn = f; }

// ---------------------------------------------------------------- scheduler
struct Item { std::vector<u64> vals; u32 bound; u64 hash; };
static void crashHandler(int sig) {
  if (shm && shm->status == 0) {
    char b[64]; snprintf(b, sizeof b, "process terminated by signal %d (%s)", sig, sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic trap" : sig == SIGALRM ? "hang" : "signal");
    if (sig == SIGALRM && shm->st.solver_s > 5) { shm->st.dropped++; shm->status = 4; strcpy(shm->msg, "path time limit, spent in the solver"); _exit(0); }
    if (active) { active = false; emitViolation(sig == SIGALRM ? "hang" : "crash", b, {}); }
    saveInputs(); shm->status = 3;
  }
  _exit(0);
}
static void installHandlers() {
  static char stk[1 << 16];
  stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = crashHandler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
}
API void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  char b[600]; const char *base = strrchr(file, '/'); snprintf(b, sizeof b, "assertion failed: %s (%s)", e, base ? base + 1 : file);
  pathFail("abort", b);
}
static void runPath(const Item &it, const Test &t, Shm *s, unsigned hangS) {
  shm = s; seedVals = it.vals; bound = it.bound; expectHash = it.hash;
  ndec = 0; curHash = 0x1234;
  if (!optVerbose) { int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); if (!getenv("SX_STDERR")) dup2(fd, 2); }
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  installHandlers();
  alarm(hangS);
  ehOn = false; heapOn = true; active = true;
  try { t.f(); }
  catch (...) { active = false; ehOn = true; emitViolation("crash", "uncaught exception", {}); endPath(3); }
  active = false;
  endPath(1);
}
__attribute__((constructor)) static void earlyInit() {
  cons = new std::unordered_set<Expr *, KeyHash, KeyEq>; pages = new std::unordered_map<u64, Page *>; boolMemo = new std::unordered_map<Expr *, Z3_ast>;
  rngMemo = new std::unordered_map<Expr *, Rng>; varSpan = new std::unordered_map<u32, u64>; fixMemo = new std::unordered_map<Expr *, Fix>;
  instrFns = new std::unordered_set<u64>; awareNatives = new std::unordered_set<u64>;
}
int main_impl(int argc, char **argv) {
  unsigned workers = 8; double budget = 600; std::string outF = "/dev/stdout", only; u64 maxPaths = 2000000; unsigned hangS = 60; unsigned maxViol = 3;
  double perTest = 1e9; std::string single; size_t samplesN = 3; std::vector<std::string> ignoreMsgs;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--workers") workers = std::stoul(nx()); else if (a == "--budget") budget = std::stod(nx());
    else if (a == "--out") outF = nx(); else if (a == "--tests") only = "," + nx() + ","; else if (a == "--max-paths") maxPaths = std::stoull(nx());
    else if (a == "--hang") hangS = std::stoul(nx()); else if (a == "--query-ms") optQueryMs = std::stoul(nx()); else if (a == "-v") optVerbose = true;
    else if (a == "--conc-cap") optConcCap = std::stoi(nx()); else if (a == "--per-test") perTest = std::stod(nx()); else if (a == "--max-viol") maxViol = std::stoul(nx());
    else if (a == "--ignore") ignoreMsgs.push_back(nx());
    else if (a == "--list") { for (auto &t : *tests) printf("%s\n", t.name.c_str()); return 0; }
  }
  FILE *out = fopen(outF.c_str(), "w");
  if (!out) { perror("out"); return 3; }
  void **b = (void **)dlsym(RTLD_DEFAULT, "__sx_fns_begin"), **e = (void **)dlsym(RTLD_DEFAULT, "__sx_fns_end");
  if (b && e) { void **p = *(void ***)b, **q = *(void ***)e; for (; p < q; ++p) if (*p) instrFns->insert((u64)*p); }
  for (void *p : {(void *)&sx_assume, (void *)&sx_assert_, (void *)&sx_concrete}) awareNatives->insert((u64)p);
  initArena(); initZ3();
  if (initFn) initFn();
  ehOn = true; // the scheduler must not disturb the ordinary heap either
  double T0 = now();
  std::vector<Shm *> slots(workers);
  for (auto &s : slots) s = (Shm *)mmap(nullptr, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  fprintf(out, "{\"instrumented\":%zu,\"tests\":[", instrFns->size());
  int fatalSeen = 0;
  // All tests share the workers: each has its own queue of unexplored prefixes
  // and free workers take from the tests in turn, so a test that needs more than
  // the time left cannot starve the others.
  struct TS {
    Test *t; std::deque<Item> q; Stats st{}; u64 paths = 0, assumeFail = 0, crashed = 0, diverged = 0, nviol = 0, picked = 0; u32 nrun = 0;
    std::set<std::string> labels, natives, vmsgs; std::vector<std::string> viols, samples; std::string fatalMsg, divMsg;
    bool stop = false, timedOut = false; u64 ignored = 0; unsigned lost = 0; double busyS = 0, doneAt = 0;
  };
  std::vector<TS> ts;
  for (auto &t : *tests) if (only.empty() || only.find("," + t.name + ",") != std::string::npos) { ts.emplace_back(); ts.back().t = &t; ts.back().q.push_back({{}, 0, 0}); }
  struct Run { int sl; size_t ti; double t0; };
  std::map<pid_t, Run> running; std::vector<char> busy(workers, 0); size_t rr = 0;
  { // paths still running a little after the budget is spent are abandoned
    struct sigaction sa{}; sa.sa_handler = [](int) {}; sigaction(SIGALRM, &sa, nullptr);
    struct itimerval tv{}; tv.it_value.tv_sec = (time_t)budget + 3; tv.it_interval.tv_sec = 1; setitimer(ITIMER_REAL, &tv, nullptr);
  }
  for (;;) {
    while (running.size() < workers) {
      size_t k = 0, ti = 0; bool found = false;
      for (; k < ts.size(); ++k) { ti = (rr + k) % ts.size(); if (!ts[ti].stop && !ts[ti].q.empty()) { found = true; break; } }
      if (!found) break;
      rr = ti + 1;
      TS &T = ts[ti];
      int sl = 0; while (busy[sl]) ++sl;
      // depth-first mostly; every 4th pick breadth-first
      Item it; if (T.picked++ % 4 == 3) { it = std::move(T.q.front()); T.q.pop_front(); } else { it = std::move(T.q.back()); T.q.pop_back(); }
      Shm *s = slots[sl]; memset(s, 0, sizeof(Shm));
      fflush(out);
      pid_t p = fork();
      if (p == 0) { runPath(it, *T.t, s, hangS); }
      if (p < 0) { usleep(20000); T.q.push_back(std::move(it)); break; }
      busy[sl] = 1; running[p] = {sl, ti, now()}; T.nrun++;
    }
    if (running.empty()) break;
    int wst; pid_t p = waitpid(-1, &wst, 0);
    if (p < 0 && errno == EINTR) { for (auto &r : running) kill(r.first, SIGKILL); continue; }
    if (p < 0) break;
    auto rit = running.find(p); if (rit == running.end()) continue;
    Run run = rit->second; int sl = run.sl; TS &T = ts[run.ti]; running.erase(rit); busy[sl] = 0; T.nrun--;
    T.busyS += now() - run.t0; T.doneAt = now() - T0;
    Shm *s = slots[sl];
    T.paths++;
    if (s->status == 0) { T.crashed++; T.lost++; } // died without a record (SIGKILL, OOM)
    if (s->status == 2) T.assumeFail++;
    if (s->status == 3) T.crashed++;
    if (s->status == 4) { T.diverged++; T.divMsg = s->msg; }
    if (s->status == 5) { T.fatalMsg = s->msg; fatalSeen++; }
    char *d = s->data;
    for (u32 i = 0; i < s->nitems; ++i) { u32 n, bd; u64 h; memcpy(&n, d, 4); memcpy(&bd, d + 4, 4); memcpy(&h, d + 8, 8); Item it; it.vals.assign((u64 *)(d + 16), (u64 *)(d + 16) + n); it.bound = bd; it.hash = h; T.q.push_back(std::move(it)); d += 16 + 8ull * n; }
    Stats &x = s->st, &st = T.st;
    st.decisions += x.decisions; st.queries += x.queries; st.sat += x.sat; st.unsat += x.unsat; st.unknown += x.unknown; st.obligations += x.obligations; st.obUnknown += x.obUnknown;
    st.concretize += x.concretize; st.concValues += x.concValues; st.unsupported += x.unsupported; st.nativeSym += x.nativeSym; st.capHit += x.capHit; st.fpQueries += x.fpQueries; st.exprs += x.exprs; st.solver_s += x.solver_s; st.dropped += x.dropped;
    for (u32 i = 0; i < s->nlabel; ++i) T.labels.insert(s->labels[i]);
    for (u32 i = 0; i < s->nnative; ++i) { Dl_info di; char bf[64]; if (dladdr((void *)s->natives[i], &di) && di.dli_sname) T.natives.insert(di.dli_sname); else { snprintf(bf, 64, "%p", (void *)s->natives[i]); T.natives.insert(bf); } }
    if (s->nviol) {
      std::string v((char *)s + VIOL_OFF, s->vused); size_t pos = 0;
      while (pos < v.size()) { size_t nl = v.find('\n', pos); std::string one = v.substr(pos, nl - pos); pos = nl + 1;
        size_t mi = one.find("\"inputs\""); std::string key = one.substr(0, mi);
        bool ign = false; for (auto &g : ignoreMsgs) if (key.find(g) != std::string::npos) { ign = true; T.ignored++; }
        if (ign) { if (T.viols.size() < 64 && T.vmsgs.insert(key).second) T.viols.push_back(one); continue; }
        T.nviol++; if (T.viols.size() < 64 && (T.vmsgs.insert(key).second || T.viols.size() < 6)) T.viols.push_back(one); }
      if (T.nviol >= maxViol) T.stop = true;
    }
    if (s->inputUsed && T.samples.size() < samplesN && s->status == 1) T.samples.push_back(std::string((char *)s + INP_OFF, s->inputUsed));
    bool over = now() - T0 > budget;
    for (auto &U : ts) {
      if (&U != &T && !over && !fatalSeen) continue;
      if (over || U.paths >= maxPaths || U.busyS > perTest) { if (!U.q.empty() || U.nrun) U.timedOut = true; U.stop = true; }
      if (fatalSeen) U.stop = true;
      if (U.stop) U.q.clear();
    }
    if (optVerbose && T.paths % 1000 == 0) fprintf(stderr, "[sx] %s paths=%llu queue=%zu viol=%llu\n", T.t->name.c_str(), (unsigned long long)T.paths, T.q.size(), (unsigned long long)T.nviol);
  }
  bool firstT = true;
  for (auto &T : ts) {
    Stats &st = T.st;
    bool complete = !T.timedOut && !T.nviol && !fatalSeen && st.unknown == 0 && st.capHit == 0 && T.diverged == 0 && st.dropped == 0 && T.lost == 0;
    fprintf(out, "%s{\"test\":\"%s\",\"complete\":%s,\"timed_out\":%s,\"paths\":%llu,\"assume_fail\":%llu,\"crashed\":%llu,\"diverged\":%llu,\"decisions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"obligations\":%llu,\"ob_unknown\":%llu,\"concretize\":%llu,\"conc_values\":%llu,\"unsupported\":%llu,\"native_sym\":%llu,\"cap_hit\":%llu,\"fp_queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"lost\":%u,\"dropped\":%llu,",
        firstT ? "" : ",\n", T.t->name.c_str(), complete ? "true" : "false", T.timedOut ? "true" : "false", (unsigned long long)T.paths, (unsigned long long)T.assumeFail, (unsigned long long)T.crashed, (unsigned long long)T.diverged, (unsigned long long)st.decisions, (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.obligations, (unsigned long long)st.obUnknown, (unsigned long long)st.concretize, (unsigned long long)st.concValues, (unsigned long long)st.unsupported, (unsigned long long)st.nativeSym, (unsigned long long)st.capHit, (unsigned long long)st.fpQueries, st.solver_s, T.busyS, T.lost, (unsigned long long)st.dropped);
    auto arr = [&](const char *n, auto &c, bool quote) { fprintf(out, "\"%s\":[", n); bool f = true; for (auto &x : c) { fprintf(out, quote ? "%s\"%s\"" : "%s%s", f ? "" : ",", quote ? jsonEsc(x.c_str()).c_str() : x.c_str()); f = false; } fprintf(out, "]"); };
    arr("labels", T.labels, true); fprintf(out, ","); arr("natives", T.natives, true); fprintf(out, ","); arr("violations", T.viols, false); fprintf(out, ","); arr("samples", T.samples, false);
    fprintf(out, ",\"n_violations\":%llu,\"fatal\":\"%s\",\"diverge_msg\":\"%s\"}", (unsigned long long)T.nviol, jsonEsc(T.fatalMsg.c_str()).c_str(), jsonEsc(T.divMsg.c_str()).c_str());
    firstT = false;
  }
  fprintf(out, "],\"wall_s\":%.3f}\n", now() - T0);
  fclose(out);
  return fatalSeen ? 3 : 0;
}
API int sx_main(int argc, char **argv) { return main_impl(argc, argv); }
