// C18: a command runs the program with exactly its arguments, in the requested
// directory, with its output in the requested file, and reports how it ended.
#include "fork.h"
#include "src/Compiler/Command.hpp"
#include "src/Compiler/CommandUtils.hpp"
#include <stdarg.h>
#include <sys/stat.h>
using namespace onnx_mlir;
using om_fork::World; using om_fork::Process;
using S = std::string; using V = std::vector<S>;
static bool same(const S &a, const S &b) {
  if (a.size() != b.size()) return false;
  int d = 0;
  for (size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i];
  return !d;
}
static bool same(const V &a, const V &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
static S arg(int lo, int hi) { // no NUL bytes: arguments are C strings
  S s((int)sx_pick("len", lo, hi), 'x');
  for (auto &c : s) { uint8_t b = sx_u8("c"); sx_assume(b != 0); c = (char)b; }
  return s;
}
static S out; // what is printed
static void put(const char *f, va_list ap) {
  for (; *f; ++f) {
    if (*f != '%') { out += *f; continue; }
    ++f;
    if (*f == 's') out += va_arg(ap, const char *);
    else if (*f == 'd') out += std::to_string(va_arg(ap, int));
    else if (*f == 'c') out += (char)va_arg(ap, int);
    else out += *f;
  }
}
extern "C" {
int __wrap_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); put(f, ap); va_end(ap); return 1; }
int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap, f); put(f, ap); va_end(ap); return 1; }
int __wrap_fputs(const char *s, FILE *) { out += s; return 1; }
int __wrap_fputc(int c, FILE *) { out += (char)c; return c; }
int __wrap_putc(int c, FILE *) { out += (char)c; return c; }
int __wrap_putchar(int c) { out += (char)c; return c; }
int __wrap_puts(const char *s) { out += s; out += '\n'; return 1; }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *) { out.append((const char *)p, s * n); return n; }
int __wrap_fflush(FILE *) { return 0; }
}
static S top;
__attribute__((constructor)) static void reg() { sx_set_init([] { top = om_fork::here(); mkdir("sub", 0755); mkdir("sub/two", 0755); }); }
static const struct { const char *path, *base; } PATHS[] = {{"onnx-mlir", "onnx-mlir"}, {"/opt/bin/tool.x", "tool.x"}, {"./a", "a"}, {"../x y/run", "run"}};
static int execError, waitStatus;
static int runs(Process &, int *status) { *status = waitStatus; return execError; }
// Arguments are those appended, in order, without the empty ones.
SX_TEST(arguments) {
  auto &p = PATHS[sx_pick("path", 0, 3)];
  Command c(p.path);
  V want = {p.base};
  int n = (int)sx_pick("steps", 0, 2 + sx_thorough());
  for (int i = 0; i < n; ++i) {
    int k = (int)sx_pick("step", 0, 2);
    if (k == 0) { S a = arg(0, 2); Command &r = c.appendStr(a); sx_assert(&r == &c, "chaining"); if (!a.empty()) want.push_back(a); }
    else if (k == 1) { V l; for (int64_t j = sx_pick("n", 0, 2); j > 0; --j) l.push_back(arg(0, 1)); c.appendList(l); for (auto &a : l) if (!a.empty()) want.push_back(a); }
    else { c.resetArgs(); want.resize(1); }
  }
  sx_assert(same(c.getArgs(), want), "arguments");
  Command moved(std::move(c));
  sx_assert(same(moved.getArgs(), want), "arguments of a moved command");
  World w;
  w.onExec = runs;
  execError = 0;
  waitStatus = 0;
  withForks(w, [&] { sx_assert(moved.exec() == 0, "success"); });
  sx_assert(w.procs.size() == 1 && w.procs[0].executed, "one program executed");
  sx_assert(same(w.procs[0].path, p.path) && same(w.procs[0].argv, want), "program and arguments");
  sx_reach(n ? "some" : "none");
}
// A line of the command, each argument recoverable.
SX_TEST(print) {
  auto &p = PATHS[sx_pick("path", 0, 3)];
  Command c(p.path, sx_pick("verbose", 0, 1));
  V args;
  for (int64_t n = sx_pick("n", 0, 2); n > 0; --n) args.push_back(arg(1, n == 1 ? 2 : 1));
  c.appendList(args);
  static const char *const DIRS[] = {"", "/tmp", "a b"};
  S dir = DIRS[sx_pick("dir", 0, 2)], want = "[" + dir + "] " + p.path + ": " + p.base;
  for (auto &a : args) {
    want += ' ';
    for (char ch : a) {
      switch (ch) {
      case '"': want += "\\\""; break;
      case '\\': want += "\\\\"; break;
      case '\n': want += "\\n"; break;
      case '\t': want += "\\t"; break;
      case '\r': want += "\\r"; break;
      default: want += ch;
      }
    }
  }
  out.clear();
  c.print(sx_pick("null", 0, 1) ? nullptr : stdout, dir);
  sx_assert(same(out, want + "\n"), "printed command");
  sx_reach("print");
}
// Every way the child can end.
static const struct { int sig; const char *name; } SIGS[] = {{SIGSEGV, "SIGSEGV"}, {SIGABRT, "SIGABRT"}, {SIGILL, "SIGILL"}, {SIGFPE, "SIGFPE"}, {SIGBUS, "SIGBUS"}, {SIGKILL, "SIGKILL"}, {SIGTERM, "SIGTERM"}, {SIGINT, "SIGINT"}};
SX_TEST(exec) {
  World w;
  w.onExec = runs;
  static const char *const DIRS[] = {"", "sub", "sub/two", "/", "missing"};
  int d = (int)sx_pick("dir", 0, 4), how = (int)sx_pick("how", 0, 5);
  S dir = DIRS[d], log = sx_pick("log", 0, 1) ? "log.txt" : "";
  if (d == 1 && sx_pick("absolute", 0, 1)) dir = top + "/sub";
  S where = d == 0 ? top : d == 3 ? "/" : top + "/" + DIRS[d];
  execError = 0;
  int code = 0, sig = 0;
  bool core = false;
  if (how == 0) { code = sx_u8("code"); waitStatus = code << 8; }
  else if (how == 1) { sig = (int)sx_concrete(sx_u64("sig", 7)); sx_assume(sig >= 1 && sig <= 64); sx_assume(d < 2 || sig < 4); core = sx_u64("core", 1); waitStatus = sig | (core ? 0x80 : 0); }
  else if (how == 2) { execError = sx_u8("errno"); sx_assume(execError >= 1 && execError <= 40); code = execError == ENOENT ? CommandNotFound : execError == EACCES ? CommandNotExecutable : CommandExecutionFailed; }
  else if (how == 3) { w.failFork = true; }
  else if (how == 4) { w.interrupts = 1 + (int)sx_pick("interrupts", 0, 1); code = sx_u8("code"); waitStatus = code << 8; }
  else { w.waitFails = true; }
  bool verbose = sx_pick("verbose", 0, 1);
  Command c("/opt/bin/tool", verbose);
  S a = how == 0 ? arg(0, 2) : S("x");
  c.appendStr("-v").appendStr(a);
  if (!log.empty()) c.redirectExecStreams(log);
  int got = -1;
  S error;
  bool threw = false;
  out.clear();
  withForks(w, [&] {
    try { got = c.exec(dir); } catch (const CommandException &e) { threw = true; error = e.what(); }
  });
  sx_assert(om_fork::here() == top, "working directory restored");
  if (d == 4) { sx_assert(threw && w.procs.empty(), "a missing directory is reported and nothing is run"); sx_reach("noDirectory"); return; }
  if (how == 3) { sx_assert(threw && w.procs.empty(), "failure to fork is reported"); sx_reach("noFork"); return; }
  sx_assert(w.procs.size() == 1, "one child");
  Process &p = w.procs[0];
  V want = {"tool", "-v"};
  if (!a.empty()) want.push_back(a);
  sx_assert(same(p.path, "/opt/bin/tool") && same(p.argv, want), "program and arguments");
  sx_assert(same(p.cwd, where), "working directory of the program");
  sx_assert(p.redirected == !log.empty(), "redirection");
  if (p.redirected) sx_assert(same(p.logFile, log) && (p.logFlags & O_ACCMODE) != O_RDONLY && (p.logFlags & O_CREAT) && (p.logFlags & O_TRUNC), "log file");
  if (verbose) sx_assert(out.size() > 10, "a verbose command is printed");
  if (how == 0 || how == 4) { sx_assert(!threw && p.executed && got == code, "exit code"); sx_reach(how ? "interrupted" : "exited"); }
  if (how == 1) {
    sx_assert(threw && error.find("/opt/bin/tool") != S::npos, "termination by a signal is reported");
    S name = std::to_string(sig);
    for (auto &s : SIGS) if (s.sig == sig) name = s.name;
    sx_assert(error.find(name) != S::npos, "name of the signal");
    sx_assert((error.find("core dumped") != S::npos) == core, "core dump");
    sx_reach("killed");
  }
  if (how == 2) {
    sx_assert(!p.executed && !threw && got == code && p.exitCode == code, "a program that cannot be started is reported by its code");
    sx_assert(!p.handlers, "the failed child does not run the parent's exit handlers");
    sx_reach("notStarted");
  }
  if (how == 5) { sx_assert(threw, "a lost child is reported"); sx_reach("lost"); }
}
SX_TEST(construct) {
  bool threw = false;
  S p = arg(0, 2);
  for (auto &c : p) c = (char)sx_concrete((uint8_t)c == '/' ? '/' : 'a');
  try { Command c(p); S want = p; size_t k = want.rfind('/'); if (k != S::npos) want = want.substr(k + 1); V a = c.getArgs(); sx_assert(a.size() == 1 && same(a[0], want), "name of the program"); } catch (const CommandException &) { threw = true; }
  sx_assert(threw == p.empty(), "an empty path is refused");
  sx_reach(threw ? "refused" : "named");
}
