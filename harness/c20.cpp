// C20: an execution session loads a compiled model with its own constants, calls
// its functions, hands tensors over, and reports every failure while leaving
// the process as it was.
#include "sx.h"
#include <errno.h>
#include <functional>
#include <setjmp.h>
#include <string>
#include <string.h>
#include <vector>
#define private public
#define protected public
#include "src/Runtime/ExecutionSession.hpp"
#undef private
#undef protected
#include "src/Runtime/OMTensorListHelper.hpp"
using namespace onnx_mlir;
using S = std::string;
static bool same(const S &a, const S &b) {
  if (a.size() != b.size()) return false;
  int d = 0;
  for (size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i];
  return !d;
}
// ---- environment
static S envValue; static bool envSet;
extern "C" {
char *__real_getenv(const char *);
char *__wrap_getenv(const char *n) { return strcmp(n, "OM_CONSTANT_PATH") ? __real_getenv(n) : envSet ? (char *)envValue.c_str() : nullptr; }
int __wrap_setenv(const char *n, const char *v, int over) { sx_assert(!strcmp(n, "OM_CONSTANT_PATH"), "only OM_CONSTANT_PATH is set"); if (!envSet || over) envValue = v, envSet = true; return 0; }
int __wrap_unsetenv(const char *n) { sx_assert(!strcmp(n, "OM_CONSTANT_PATH"), "only OM_CONSTANT_PATH is unset"); envSet = false; return 0; }
int __wrap_strcasecmp(const char *a, const char *b) {
  for (;; ++a, ++b) {
    uint8_t x = (uint8_t)*a, y = (uint8_t)*b;
    x |= (uint8_t)(((x >= 'A') & (x <= 'Z')) << 5);
    y |= (uint8_t)(((y >= 'A') & (y <= 'Z')) << 5);
    if (x != y) return (int)x - (int)y;
    if (!x) return 0;
  }
}
}
// ---- libraries
struct Lib {
  S path;
  std::vector<std::pair<S, void *>> symbols;
  int open = 0, opens = 0;
  bool envAtOpen = false;
  S envValueAtOpen;
};
static Lib libs[2];
static bool canOpen;
static Lib *libOf(void *h) { sx_assert((h == &libs[0]) | (h == &libs[1]), "only a handle of a library is used"); Lib *l = (Lib *)h; sx_assert(l->open > 0, "only an open library is used"); return l; }
extern "C" {
void *__wrap_dlopen(const char *p, int flags) {
  sx_assert((flags & (RTLD_LAZY | RTLD_NOW)) != 0, "flags of dlopen");
  for (auto &l : libs) if (canOpen && same(l.path, p)) { ++l.open; ++l.opens; l.envAtOpen = envSet; l.envValueAtOpen = envValue; return &l; }
  errno = ENOENT;
  return nullptr;
}
void *__real_dlsym(void *, const char *);
void *__wrap_dlsym(void *h, const char *name) {
  if ((h == RTLD_NEXT) | (h == RTLD_DEFAULT)) return __real_dlsym(h, name); // of the sanitizer
  Lib *l = libOf(h);
  S n = name;
  for (auto &s : l->symbols) if (same(s.first, n)) return s.second;
  errno = ENOENT;
  return nullptr;
}
int __wrap_dlclose(void *h) { --libOf(h)->open; return 0; }
}
// ---- signals
static struct sigaction actions[65];
static bool modelSignals;
extern "C" int __real_sigaction(int, const struct sigaction *, struct sigaction *);
extern "C" int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *old) {
  if (!modelSignals) return __real_sigaction(sig, a, old);
  if (sig < 1 || sig > 64) { errno = EINVAL; return -1; }
  if (old) *old = actions[sig];
  if (a) actions[sig] = *a;
  return 0;
}
static void deliver(int sig) {
  sigset_t set, now;
  sigemptyset(&set); sigaddset(&set, sig);
  sigprocmask(SIG_BLOCK, nullptr, &now);
  sx_assert(sig == SIGABRT || !sigismember(&now, sig), "the signal of a crash is not blocked");
  sigprocmask(SIG_BLOCK, &set, nullptr);
  sx_assert(actions[sig].sa_handler != SIG_DFL && actions[sig].sa_handler != SIG_IGN, "the signal of a crash is caught");
  actions[sig].sa_handler(sig);
  sx_assert(0, "the handler does not return to the crash");
}
// ---- a model: what its entry points do
static OMTensorList *given; static OMTensor *givenIn[3]; static int64_t givenSize;
static int calls[3], prints, nOut, failErrno, crash;
static OMTensor *outs[3]; static OMTensorList *outList;
static OMTensor *tensor() { int64_t shape[1] = {2}; return omTensorCreateEmpty(shape, 1, ONNX_TYPE_FLOAT); }
static OMTensorList *entry(int k, OMTensorList *in) {
  ++calls[k];
  sx_alloc_faults(0);
  sx_assert(in != nullptr, "the inputs reach the model");
  if (given) sx_assert(in == given, "the list of inputs reaches the model");
  sx_assert(omTensorListGetSize(in) == givenSize, "number of inputs");
  for (int64_t i = 0; i < givenSize; ++i) sx_assert(omTensorListGetOmtByIndex(in, i) == givenIn[i], "inputs");
  if (crash) deliver(crash);
  if (nOut < 0) { errno = failErrno; return nullptr; }
  for (int i = 0; i < nOut; ++i) outs[i] = tensor();
  errno = ERANGE; // left over from something harmless
  return outList = omTensorListCreate(outs, nOut);
}
static OMTensorList *entryA(OMTensorList *in) { return entry(0, in); }
static OMTensorList *entryB(OMTensorList *in) { return entry(1, in); }
static OMTensorList *decoy(OMTensorList *) { sx_assert(0, "another model is run"); return nullptr; }
static const char *NAMES[] = {"run_main_graph_m", "run_b_m", nullptr};
static const char **queryM(int64_t *n) { if (n) *n = 2; return NAMES; }
static const char **queryDecoy(int64_t *n) { if (n) *n = 0; return nullptr; }
static const char *inSig(const char *e) { return !strcmp(e, NAMES[0]) ? "in A" : !strcmp(e, NAMES[1]) ? "in B" : "in ?"; }
static const char *outSig(const char *e) { return !strcmp(e, NAMES[0]) ? "out A" : !strcmp(e, NAMES[1]) ? "out B" : "out ?"; }
static const char *sigDecoy(const char *) { return "another model"; }
static const char *info() { return "{\"info\"}"; }
static const char *infoDecoy() { return "another model"; }
static void print() { ++prints; }
// What fillInputDebug passes on.
static int seeds, lastSeed, lastHas; static const char *filled[5]; static bool fillFails;
void omDefineSeed(unsigned int s, unsigned int has) { ++seeds; lastSeed = (int)s; lastHas = (int)has; }
OMTensorList *omTensorListCreateFromInputSignature(const char *sig, const char *a, const char *b, const char *c, const char *d, bool) {
  filled[0] = !strcmp(sig, "in A") ? "A" : !strcmp(sig, "in B") ? "B" : "?"; filled[1] = a; filled[2] = b; filled[3] = c; filled[4] = d;
  return fillFails ? nullptr : omTensorListCreate(nullptr, 0);
}
// Names of entry points, whatever type they are returned as.
static S nameAt(const S *p, int i) { return p[i]; }
static S nameAt(const char *const *p, int i) { return p[i]; }
template <class F> static int raises(F f, S *what = nullptr) {
  try { f(); } catch (const ExecutionSessionException &e) { if (what) *what = e.what(); return 1; } catch (...) { return 2; }
  return 0;
}
enum { QUERY, IN, OUT, ENTRY, INFO, PRINT };
static const char *BASE[] = {"omQueryEntryPoints", "omInputSignature", "omOutputSignature", "run_main_graph", "omCompilationInfo", "omInstrumentPrint"};
static void *GOOD[] = {(void *)queryM, (void *)inSig, (void *)outSig, (void *)entryA, (void *)info, (void *)print};
static void *BAD[] = {(void *)queryDecoy, (void *)sigDecoy, (void *)sigDecoy, (void *)decoy, (void *)infoDecoy, nullptr};
static void *const GARBAGE = (void *)0x5a5a5a5a5a5a5a5a;
// A library with the functions in mask, under their names for the tag.
static void make(Lib &l, const S &path, const S &suffix, int mask) {
  l.path = path; l.symbols.clear(); l.open = l.opens = 0;
  for (int i = 0; i < 6; ++i) {
    if (i != PRINT && !suffix.empty()) l.symbols.emplace_back(BASE[i], BAD[i]);
    if (mask >> i & 1) l.symbols.emplace_back(BASE[i] + (i == PRINT ? S() : suffix), GOOD[i]);
  }
}
// Sessions start in memory that was used before.
struct Slot {
  alignas(16) unsigned char mem[sizeof(ExecutionSession)];
  Slot() { memset(mem, 0x5a, sizeof mem); }
  ExecutionSession *at() { return (ExecutionSession *)mem; }
};
static const struct { const char *path, *dir, *tag; } PATHS[] = {{"model.so", nullptr, "model"}, {"./Model.so", ".", "model"}, {"/a/b.c/My.Net.so", "/a/b.c", "my.net"}, {"/X", "/", "x"}, {"d/.so", "d", ".so"}, {"a b/None.so", "a b", "none"}};
// Whether it can be loaded, and what is left when it cannot.
SX_TEST(load) {
  auto &p = PATHS[sx_pick("path", 0, 5)];
  S tag, suffix;
  switch (sx_pick("tag", 0, 2)) {
  case 0: suffix = strcmp(p.tag, "none") ? S("_") + p.tag : S(); break; // from the name of the file
  case 1: tag = "NoNe"; for (auto &c : tag) { uint8_t b = (uint8_t)c; if (sx_u64("upper", 1)) b ^= 0x20; c = (char)b; } break;
  case 2: { int n = (int)sx_pick("n", 1, 2 + sx_thorough()); for (int i = 0; i < n; ++i) { uint8_t b = sx_u8("c"); sx_assume(b != 0); tag += (char)b; } suffix = "_" + tag; break; }
  }
  int mask = (int)sx_pick("symbols", 0, 6); // which is missing, if any
  mask = mask == 6 ? 63 : 63 & ~(1 << mask);
  envSet = sx_pick("env", 0, 1);
  bool hadEnv = envSet;
  envValue = "/preset";
  canOpen = sx_pick("canOpen", 0, 1);
  bool byDefault = sx_pick("default", 0, 1), constructed = sx_pick("constructed", 0, 1);
  make(libs[0], p.path, suffix, mask);
  make(libs[1], "other.so", "_other", 63);
  bool good = canOpen && (mask & 7) == 7 && (!byDefault || (mask & 8));
  Slot slot;
  int threw;
  if (constructed) threw = raises([&] { new (slot.mem) ExecutionSession(p.path, tag, byDefault); });
  else { new (slot.mem) ExecutionSession; threw = raises([&] { slot.at()->loadModel(p.path, tag, byDefault); }); }
  sx_assert(threw == !good, "a model is loaded exactly when it has what is needed");
  sx_assert(envSet == hadEnv && (!hadEnv || envValue == "/preset"), "the environment is left as it was");
  if (canOpen) {
    sx_assert(libs[0].opens == 1, "opened once");
    sx_assert(libs[0].envAtOpen == (hadEnv || p.dir), "OM_CONSTANT_PATH while loading");
    if (libs[0].envAtOpen) { const S &v = libs[0].envValueAtOpen; S d = hadEnv ? "/preset" : p.dir; sx_assert(v == d || v + "/" == d, "directory of the constants"); }
  }
  ExecutionSession &s = *slot.at();
  if (!good) {
    sx_assert(libs[0].open == 0, "a model that cannot be used is closed");
    if (!constructed) {
      sx_assert(raises([&] { s.inputSignature(); }) == 1 && raises([&] { s.run((OMTensorList *)nullptr); }) == 1 && raises([&] { s.setEntryPoint("run_main_graph"); }) == 1, "a session without a model refuses to work");
      if (sx_pick("again", 0, 1)) {
        canOpen = true;
        sx_assert(raises([&] { s.loadModel("other.so", "", true); }) == 0, "another model can be loaded after a failure");
        sx_assert(s.inputSignature() == "in ?" && s.getSharedLibPath() == "other.so", "the other model is used");
        sx_reach("loadedAfterFailure");
      }
      s.~ExecutionSession();
    }
    sx_assert(libs[0].open == 0 && libs[1].open == 0, "closed once");
    sx_reach("notLoaded");
    return;
  }
  sx_assert(errno == 0, "no error");
  sx_assert(s.getSharedLibPath() == p.path, "path of the model");
  sx_assert(libs[0].open == 1, "the model stays open");
  sx_assert(raises([&] { s.loadModel("other.so"); }) == 1 && libs[1].opens == 0, "only one model per session");
  sx_assert(s.compilationInfo() == (mask >> INFO & 1 ? "{\"info\"}" : "{}"), "compilation info");
  int before = prints;
  s.printInstrumentation();
  sx_assert(prints - before == (mask >> PRINT & 1), "instrumentation");
  sx_assert((raises([&] { s.outputSignature(); }) == 1) == !byDefault, "an entry point is needed");
  givenSize = 0; given = nullptr; crash = 0; nOut = 0;
  int ran = raises([&] { s.run(std::vector<OMTensorUniquePtr>()); });
  sx_assert(ran == !byDefault, "runs the default entry point");
  if (byDefault) sx_assert(calls[0] == 1, "runs the model's entry point"), sx_reach("loaded");
  s.~ExecutionSession();
  sx_assert(libs[0].open == 0, "closed with the session");
}
// A session of two entry points.
static const int ERRORS[] = {EPERM, ENOMEM, EHWPOISON};
static int fate(bool all) { // what the next run does
  crash = 0; failErrno = 0;
  nOut = all ? (int)sx_pick("outputs", -1, 2) : sx_pick("works", 0, 1) ? 1 : -1;
  if (nOut < 0) failErrno = all ? ERRORS[sx_pick("errno", 0, 2)] : ENOMEM;
  return nOut;
}
static void forgetInputs() { given = nullptr; givenSize = 0; }
static bool mentions(const S &text, int number, const char *name) { return text.find(std::to_string(number)) != S::npos && text.find(name) != S::npos; }
SX_TEST(history) {
  envSet = false; canOpen = true;
  make(libs[0], "/p/m.so", "_m", 63);
  libs[0].symbols.emplace_back("run_b_m", (void *)entryB);
  Slot slot;
  bool byDefault = sx_pick("default", 0, 1);
  ExecutionSession &s = *new (slot.mem) ExecutionSession("/p/m.so", "", byDefault);
  int current = byDefault ? 0 : -1; // -1: none
  bool unsure = false;              // a request for a missing entry point may keep or drop the current one
  int steps = 3 + sx_thorough();
  for (int i = 0; i < steps; ++i) {
    int before[2] = {calls[0], calls[1]}, printed = prints;
    S error;
    bool mustWork = current >= 0 && !unsure;
    auto check = [&](int threw) { sx_assert(mustWork ? threw == 0 : current < 0 ? threw == 1 : threw <= 1, "works exactly with an entry point"); return !threw; };
    int step = (int)sx_pick("step", 0, 7);
    switch (step) {
    case 0: s.setEntryPoint("run_main_graph_m"); current = 0; unsure = false; sx_assert(errno == 0, "no error"); break;
    case 1: s.setEntryPoint("run_b_m"); current = 1; unsure = false; break;
    case 2: sx_assert(raises([&] { s.setEntryPoint("missing_m"); }) == 1, "a missing entry point is refused"); unsure = true; current = -2; break;
    case 3: {
      S in, out;
      int threw = raises([&] { in = s.inputSignature(); out = s.outputSignature(); });
      if (current == -2) { sx_assert(threw <= 1, "refused"); break; }
      if (check(threw)) { sx_assert(in == (current ? "in B" : "in A") && out == (current ? "out B" : "out A"), "signatures of the entry point"); sx_reach("signature"); }
      break;
    }
    case 4: {
      int64_t n = -1;
      auto *names = s.queryEntryPoints(&n);
      sx_assert(n == 2 && names, "number of entry points");
      sx_assert(nameAt(names, 0) == NAMES[0] && nameAt(names, 1) == NAMES[1], "names of the entry points");
      break;
    }
    case 5: case 6: { // run on a vector, or on a list
      bool list = step == 5;
      bool all = i == steps - 1;
      int k = all ? (int)sx_pick("inputs", 0, 2) : 1;
      std::vector<OMTensorUniquePtr> in, out;
      for (int j = 0; j < k; ++j) { givenIn[j] = tensor(); if (!list) in.emplace_back(givenIn[j], omTensorDestroy); }
      givenSize = k;
      given = list ? omTensorListCreate(givenIn, k) : nullptr;
      fate(all);
      OMTensorList *got = nullptr;
      int threw = raises([&] { if (list) got = s.run(given); else out = s.run(std::move(in)); }, &error);
      int after = calls[0] + calls[1] - before[0] - before[1];
      if (current == -2 || current == -1) sx_assert(threw == 1 && after == 0, "nothing is run without an entry point");
      else {
        sx_assert(calls[current] - before[current] == 1 && after == 1, "the entry point is run once");
        sx_assert(threw == (nOut < 0), "failure is reported");
        if (nOut < 0) { sx_assert(mentions(error, failErrno, strerror(failErrno)), "reason of the failure"); sx_assert(prints == printed, "nothing printed"); sx_reach("failed"); }
        else {
          sx_assert(prints == printed + 1, "instrumentation printed once");
          sx_assert(errno == 0, "no error");
          if (list) { sx_assert(got == outList && omTensorListGetSize(got) == nOut, "the model's outputs"); omTensorListDestroy(got); }
          else { sx_assert((int)out.size() == nOut, "number of outputs"); for (int j = 0; j < nOut; ++j) sx_assert(out[j].get() == outs[j] && sx_block_live(outs[j]), "the model's outputs"); out.clear(); }
          for (int j = 0; j < nOut; ++j) sx_assert(!sx_block_live(outs[j]), "outputs belong to the caller");
          sx_assert(!sx_block_live(outList), "the list of outputs is released");
          sx_reach(list ? "ranList" : "ranVector");
        }
      }
      if (list) { for (int j = 0; j < k; ++j) sx_assert(sx_block_live(givenIn[j]), "inputs stay the caller's"); omTensorListDestroy(given); }
      else { in.clear(); for (int j = 0; j < k; ++j) sx_assert(!sx_block_live(givenIn[j]), "inputs are released"); }
      forgetInputs();
      break;
    }
    case 7: {
      static const char *A = "0:2", *B = "0:val1", *C = "f32:0", *D = "f32:1";
      int seed = sx_i32("seed");
      fillFails = sx_pick("fails", 0, 1);
      int seedsBefore = seeds;
      OMTensorList *l = nullptr;
      int threw = raises([&] { l = s.fillInputDebug(A, B, C, D, seed); });
      if (current == -1 || current == -2) { sx_assert(threw == 1, "inputs need an entry point"); break; }
      sx_assert(threw == fillFails && (threw || l), "inputs or an error");
      sx_assert(filled[0][0] == (current ? 'B' : 'A') && filled[1] == A && filled[2] == B && filled[3] == C && filled[4] == D, "inputs after the signature of the entry point");
      sx_assert(seeds - seedsBefore == (seed >= 0) && (seed < 0 || (lastSeed == seed && lastHas)), "seed");
      omTensorListDestroy(l);
      sx_reach("filled");
      break;
    }
    }
  }
  s.~ExecutionSession();
  sx_assert(libs[0].open == 0, "closed");
}
// Crashes of the model.
static void other1(int) {}
static void other2(int) {}
static const int SIGNALS[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
SX_TEST(crashes) {
  envSet = false; canOpen = true;
  make(libs[0], "/p/m.so", "_m", 63);
  Slot slot;
  modelSignals = true;
  ExecutionSession &s = *new (slot.mem) ExecutionSession("/p/m.so");
  for (int k = 1; k < 65; ++k) { actions[k].sa_handler = k % 3 == 0 ? SIG_DFL : k % 3 == 1 ? other1 : other2; actions[k].sa_flags = SA_RESTART; sigemptyset(&actions[k].sa_mask); sigaddset(&actions[k].sa_mask, k); }
  struct sigaction before[65];
  memcpy(before, actions, sizeof actions);
  sigset_t mask, now;
  sigemptyset(&mask); sigaddset(&mask, SIGUSR1);
  if (sx_pick("masked", 0, 1)) sigprocmask(SIG_SETMASK, &mask, nullptr);
  sigprocmask(SIG_BLOCK, nullptr, &mask);
  int rounds = (int)sx_pick("rounds", 1, 2 + sx_thorough());
  for (int i = 0; i < rounds; ++i) {
    bool guard = true;
    int how = (int)sx_pick("how", 0, 2);
    nOut = how == 1 ? -1 : (int)i; failErrno = how == 1 ? rounds == 1 ? (int)sx_range("errno", 1, 133) : ERRORS[sx_pick("errno", 0, 2)] : 0;
    crash = how == 2 ? SIGNALS[sx_pick("signal", 0, 4)] : 0;
    if (!crash) guard = sx_pick("guard", 0, 1);
    givenIn[0] = tensor(); givenSize = 1; given = omTensorListCreate(givenIn, 1);
    int called = calls[0], printed = prints;
    S error;
    OMTensorList *got = nullptr;
    int threw = raises([&] { got = s.runDebug(given, guard); }, &error);
    sx_assert(calls[0] == called + 1, "run once");
    sx_assert(threw == (how != 0), "a crash or failure is reported");
    for (int k = 1; k < 65; ++k)
      sx_assert(actions[k].sa_handler == before[k].sa_handler && actions[k].sa_flags == before[k].sa_flags && !memcmp(&actions[k].sa_mask, &before[k].sa_mask, sizeof(sigset_t)), "signal handlers are restored");
    sigprocmask(SIG_BLOCK, nullptr, &now);
    for (int k = 1; k < 65; ++k) sx_assert(sigismember(&now, k) == sigismember(&mask, k), "the signal mask is restored");
    if (how == 2) { sx_assert(mentions(error, crash, strsignal(crash)), "the signal is named"); sx_reach("crashed"); }
    if (how == 1) { sx_assert(mentions(error, failErrno, strerror(failErrno)), "reason of the failure"); sx_reach("failed"); }
    if (how == 0) { sx_assert(got == outList && prints == printed + 1 && errno == 0, "outputs"); omTensorListDestroy(got); sx_reach("ran"); }
    sx_assert(sx_block_live(givenIn[0]), "inputs stay the caller's");
    omTensorListDestroy(given);
  }
  s.~ExecutionSession();
  sx_assert(libs[0].open == 0, "closed");
}
// Without memory for the list of inputs nothing is run.
SX_TEST(noMemory) {
  envSet = false; canOpen = true;
  make(libs[0], "/p/m.so", "_m", 63);
  Slot slot;
  ExecutionSession &s = *new (slot.mem) ExecutionSession("/p/m.so");
  int k = (int)sx_pick("inputs", 0, 2);
  std::vector<OMTensorUniquePtr> in, out;
  for (int j = 0; j < k; ++j) { givenIn[j] = tensor(); in.emplace_back(givenIn[j], omTensorDestroy); }
  givenSize = k; nOut = 0; crash = 0;
  sx_alloc_faults(1);
  int threw = raises([&] { out = s.run(std::move(in)); });
  sx_alloc_faults(0);
  sx_assert(threw <= 1 && calls[0] == !threw, "without memory nothing is run");
  if (threw) sx_reach("noMemory");
  in.clear();
  for (int j = 0; j < k; ++j) sx_assert(!sx_block_live(givenIn[j]), "inputs are released");
  s.~ExecutionSession();
}
// A session without a model can be made and destroyed.
SX_TEST(empty) {
  Slot slot;
  ExecutionSession &s = *new (slot.mem) ExecutionSession;
  int64_t n;
  sx_assert(raises([&] { s.queryEntryPoints(&n); }) == 1 && raises([&] { s.compilationInfo(); }) == 1 && raises([&] { s.printInstrumentation(); }) == 1 && raises([&] { s.outputSignature(); }) == 1, "refused");
  sx_assert(raises([&] { s.runDebug(nullptr, true); }) == 1 && raises([&] { s.run(std::vector<OMTensorUniquePtr>()); }) == 1, "refused");
  sx_assert(s.getSharedLibPath().empty(), "no path");
  s.~ExecutionSession();
}
