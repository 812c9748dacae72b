// C10: instrumentation: tag encoding, and the report printed for a history of points.
#include "rtdecl.h"
#include "onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <sys/time.h>
void OMInstrumentPoint(const char *opName, int64_t tag, const char *nodeName);
void OMInstrumentPointInit(int64_t tag, const char *info);
void omInstrumentPrint(void);
FILE *getInstrumentFile(bool);
extern const char *OMCurrentOpName, *OMCurrentNodeName; extern int64_t OMCurrentTag;
// ---- tag encoding: what is set is what is read back, other fields untouched
SX_TEST(tags) {
  uint64_t x = 0, f = sx_u64("flags", 5), ol = sx_u64("oplen", 6), nl = sx_u64("nodelen", 9);
  INIT_INSTRUMENT(x);
  if (f & 1) SET_INSTRUMENT_BEFORE_OP(x);
  if (f & 2) SET_INSTRUMENT_AFTER_OP(x);
  if (f & 4) SET_INSTRUMENT_REPORT_TIME(x);
  if (f & 8) SET_INSTRUMENT_REPORT_MEMORY(x);
  if (f & 16) SET_INSTRUMENT_INIT(x);
  SET_INSTRUMENT_OP_NAME_LEN(x, ol);
  SET_INSTRUMENT_NODE_NAME_LEN(x, nl);
  for (int k = 0; k < 2; ++k) {
    sx_assert(!!IS_INSTRUMENT_BEFORE_OP(x) == !!(f & 1) && !!IS_INSTRUMENT_AFTER_OP(x) == !!(f & 2), "before/after flags read back");
    sx_assert(!!IS_INSTRUMENT_REPORT_TIME(x) == !!(f & 4) && !!IS_INSTRUMENT_REPORT_MEMORY(x) == !!(f & 8) && !!IS_INSTRUMENT_INIT(x) == !!(f & 16), "report flags read back");
    sx_assert(GET_INSTRUMENT_OP_NAME_LEN(x) == ol && GET_INSTRUMENT_NODE_NAME_LEN(x) == nl, "name lengths read back");
    sx_assert(x == (f | ol << 8 | nl << 24), "documented layout");
    CLEAR_INSTRUMENT_BEFORE_OP(x); CLEAR_INSTRUMENT_AFTER_OP(x); f &= ~3ull;
  }
  sx_reach("tags");
}
// ---- environment of the run time
static const char *envNo, *envNoTime, *envNoMem, *envFile;
char *__wrap_getenv(const char *n) {
  if (!strcmp(n, "ONNX_MLIR_NO_INSTRUMENT")) return (char *)envNo;
  if (!strcmp(n, "ONNX_MLIR_NO_INSTRUMENT_TIME")) return (char *)envNoTime;
  if (!strcmp(n, "ONNX_MLIR_NO_INSTRUMENT_MEMORY")) return (char *)envNoMem;
  if (!strcmp(n, "ONNX_MLIR_INSTRUMENT_FILE")) return (char *)envFile;
  return NULL;
}
static long nowUs = 100999990; static long steps[64]; static int nstep;
int __wrap_gettimeofday(struct timeval *tv, void *tz) { nowUs += steps[nstep++ % 3]; tv->tv_sec = nowUs / 1000000; tv->tv_usec = nowUs % 1000000; return 0; }
static char theFile[8]; // identity of the opened file
static int opened;
FILE *__wrap_fopen(const char *name, const char *mode) { sx_assert(!strcmp(name, "report.txt") && mode[0] == 'a', "the report file is opened for appending"); ++opened; return (FILE *)theFile; }
static FILE *thePipe(void) { return (FILE *)(theFile + 4); }
FILE *__wrap_popen(const char *c, const char *m) { sx_assert(!strncmp(c, "ps ", 3), "memory is measured with ps"); return thePipe(); }
char *__wrap_fgets(char *s, int n, FILE *f) { sx_assert(f == thePipe(), "reads the pipe"); strcpy(s, " 4242\n"); return s; }
int __wrap_fgetc(FILE *f) { return -1; }
int __wrap_feof(FILE *f) { return 1; }
int __wrap_pclose(FILE *f) { return 0; }
int __wrap_fflush(FILE *f) { return 0; }
// ---- captured output, one buffer for standard output, one for the file
static char out[2][1 << 11]; static size_t len[2];
static int which(FILE *f) { sx_assert(f == stdout || f == (FILE *)theFile, "writes to standard output or the report file"); return f != stdout; }
static long lines[2]; // written lines, also those that no longer fit
static void put(int w, const char *s, size_t n) { for (size_t i = 0; i < n; ++i) lines[w] += s[i] == '\n'; if (len[w] + n >= sizeof out[0]) n = 0; memcpy(out[w] + len[w], s, n); len[w] += n; out[w][len[w]] = 0; }
static void putNum(int w, long v, int width, int zero) {
  char b[24]; int k = 24; int neg = v < 0; unsigned long u = neg ? -(unsigned long)v : v;
  do b[--k] = '0' + u % 10; while (u /= 10);
  while (24 - k < width) b[--k] = zero ? '0' : ' ';
  if (neg) b[--k] = '-';
  put(w, b + k, 24 - k);
}
static int vput(int w, const char *f, va_list ap) {
  for (; *f; ++f) {
    if (*f != '%') { put(w, f, 1); continue; }
    int zero = 0, width = 0, l = 0; ++f;
    if (*f == '0') { zero = 1; ++f; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    while (*f == 'l' || *f == 'z' || *f == 'j') { l = 1; ++f; }
    if (*f == 's') { const char *s = va_arg(ap, const char *); put(w, s, strlen(s)); }
    else if (*f == 'd' || *f == 'i' || *f == 'u') putNum(w, l ? va_arg(ap, long) : va_arg(ap, int), width, zero);
    else if (*f == 'c') { char c = va_arg(ap, int); put(w, &c, 1); }
    else put(w, f, 1);
  }
  return 1;
}
int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vput(which(f), fmt, ap); va_end(ap); return 1; }
int __wrap_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vput(0, fmt, ap); va_end(ap); return 1; }
int __wrap_fputs(const char *s, FILE *f) { put(which(f), s, strlen(s)); return 1; }
int __wrap_puts(const char *s) { put(0, s, strlen(s)); put(0, "\n", 1); return 1; }
int __wrap_fputc(int c, FILE *f) { char x = c; put(which(f), &x, 1); return c; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { put(which(f), p, s * n); return n; }
// ---- the expected report
static char want[1 << 11]; static size_t wl;
static void w(const char *s) { size_t n = strlen(s); memcpy(want + wl, s, n + 1); wl += n; }
static void wn(long v, int width) { char b[24]; int k = 23; b[k] = 0; do b[--k] = '0' + v % 10; while (v /= 10); while (23 - k < width) b[--k] = '0'; w(b + k); }
static int started; static const char *info;
static void header(void) { if (started) return; started = 1; w("==START-REPORT==\n"); if (info) { w("==COMPILE-INFO-REPORT==, "); w(info); w("\n"); } }
static const char *OPS[2] = {"onnx.Add|tail", "krnl.X|t"}, *NODES[2] = {"node0|tail", "n1"};
static const int OPL[2] = {8, 6}, NODEL[2] = {5, 2};
static void name(const char *s, int n) { char b[32]; memcpy(b, s, n); b[n] = 0; w(b); }
static struct { int op, before; long t; } q[16]; static int nq; static long t0, tp;
static void queueTime(int op, int before, long t) { q[nq].op = op; q[nq].before = before; q[nq].t = t; ++nq; }
static void flushWant(void) {
  if (nq) header();
  for (int i = 0; i < nq; ++i) {
    w("==PERF-REPORT==, "); name(OPS[q[i].op], OPL[q[i].op]); w(", "); name(NODES[q[i].op], NODEL[q[i].op]); w(q[i].before ? ", before, " : ", after, ");
    long a = q[i].t - tp, b = q[i].t - t0; tp = q[i].t;
    wn(a / 1000000, 0); w("."); wn(a % 1000000, 6); w(", "); wn(b / 1000000, 0); w("."); wn(b % 1000000, 6); w("\n");
  }
  nq = 0;
}
static void setSteps(void) { static const long S[3][3] = {{1, 999999, 7}, {1500000, 3, 250}, {12, 0, 2000000}}; int k = (int)sx_pick("steps", 0, sx_thorough() ? 2 : 1); for (int i = 0; i < 3; ++i) steps[i] = S[k][i]; }
static void check(int toFile) {
  sx_assert(!strcmp(out[toFile], want), "the report says what happened");
  sx_assert(len[!toFile] == 0, "nothing is written elsewhere");
}
// A run of points, then the report.
static void history(int n, int viaInit, int noTime, int noMem, int no, int toFile, int pairsOnly) {
  envNo = no ? "1" : NULL; envNoTime = noTime ? "1" : NULL; envNoMem = noMem ? "1" : NULL; envFile = toFile ? "report.txt" : NULL;
  if (viaInit) { info = "{info}"; OMInstrumentPointInit(0, info); t0 = tp = nowUs; }
  int lastOp = 0;
  for (int i = 0; i < n; ++i) {
    int f = (int)sx_range("flags", 0, 7); // before?, time?, memory?
    int op = (int)sx_pick("op", 0, 1), before = f & 1;
    if (pairsOnly) { before = !(i & 1); if (!before) op = lastOp; lastOp = op; }
    uint64_t tag = (before ? 1 : 2) | ((f & 2) ? 4 : 0) | ((f & 4) ? 8 : 0) | (uint64_t)OPL[op] << 8 | (uint64_t)NODEL[op] << 24;
    int init = i == 0 && !viaInit;
    if (init) tag |= 16;
    OMInstrumentPoint(OPS[op], (int64_t)tag, NODES[op]);
    sx_assert(OMCurrentOpName == OPS[op] && OMCurrentNodeName == NODES[op] && OMCurrentTag == (int64_t)tag, "the current point is published");
    if (init) t0 = tp = (f & 2) && !noTime && !no ? nowUs - steps[(nstep + 2) % 3] : nowUs;
    if ((f & 2) && !noTime && !no) queueTime(op, before, nowUs);
    if ((f & 4) && !noMem && !no) { header(); w("==MEM-REPORT==, "); name(OPS[op], OPL[op]); w(", "); name(NODES[op], NODEL[op]); w(before ? ", before" : ", after"); w(",  4242\n"); }
  }
  omInstrumentPrint();
  flushWant();
  check(toFile);
  size_t l = len[toFile];
  omInstrumentPrint();
  sx_assert(len[toFile] == l, "printing again adds nothing");
}
SX_TEST(report) { setSteps(); history(sx_thorough() ? 4 : 3, (int)sx_pick("viaInit", 0, 1), 0, 0, 0, 0, 0); if (nq == 0 && len[0] > 100) sx_reach("report"); }
SX_TEST(environment) {
  setSteps();
  int no = (int)sx_pick("no", 0, 1), nt = (int)sx_pick("noTime", 0, 1), nm = (int)sx_pick("noMem", 0, 1), f = (int)sx_pick("file", 0, 1);
  history(2, (int)sx_pick("viaInit", 0, 1), nt, nm, no, f, 1);
  if (no) { sx_assert(len[0] == 0 && len[1] == 0 && opened == 0, "nothing is written or opened when disabled"); sx_reach("disabled"); }
  else if (f) { sx_assert(opened == 1, "the file is opened once"); if (len[1]) sx_reach("file report"); }
}
// Two runs one after the other are reported separately.
SX_TEST(twoRuns) {
  setSteps();
  history(2, 1, 0, 0, 0, 0, 1);
  started = 0; info = NULL; 
  history(2, (int)sx_pick("viaInit", 0, 1), 0, 0, 0, 0, 1);
  sx_reach("two runs");
}
// More points than the buffer holds: nothing is lost.
SX_TEST(overflow) {
  for (int i = 0; i < 3; ++i) steps[i] = 1;
  OMInstrumentPointInit(0, NULL);
  long n = 8192 + (long)sx_pick("extra", -1, 2);
  for (long i = 0; i < n; ++i) { int op = (int)(i & 1); OMInstrumentPoint(OPS[op], 1 | 4 | (int64_t)OPL[op] << 8 | (int64_t)NODEL[op] << 24, NODES[op]); }
  sx_reach("overflow");
  omInstrumentPrint();
  sx_assert(lines[0] == n + 1, "one header and one line per point, also when the buffer overflows");
}
