// A model of processes for code that forks, executes a program and waits for
// it: fork returns 0 first, the code runs as the child until it executes a
// program or terminates, then fork returns again, in the parent, with the stack
// and registers as they were.  Nothing is started, opened or closed for real.
#pragma once
#include "sx.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
namespace om_fork {
struct Fd { int file = -1; bool open = false; }; // -1: inherited
struct Process {
  std::string path, cwd;       // what was executed, and where
  std::vector<std::string> argv;
  bool executed = false;
  bool handlers = false;       // terminated through exit(): runs the parent's handlers and flushes its buffers
  int exitCode = -1;
  bool redirected = false;     // stdout and stderr lead to the file logFile, truncated
  std::string logFile;
  int logFlags = 0;
  int waited = 0;
};
struct World {
  bool child = false, failFork = false;
  int interrupts = 0;          // waitpid is interrupted this often
  bool waitFails = false;      // waitpid fails for good
  std::vector<Process> procs;
  std::vector<std::string> files;
  Fd fds[16];
  int lastStatus = 0;
  int strayClose = 0;
  // Decides what an executed program does: 0 and a wait status, or an errno.
  int (*onExec)(Process &, int *status) = nullptr;
};
static World *world;
enum { PID = 4321 };
extern "C" {
struct Saved { void *rbx, *rbp, *r12, *r13, *r14, *r15, *rsp, *ra; };
__attribute__((used)) struct Saved om_saved;
__attribute__((used)) char *om_top, *om_copy;
#define RAW __attribute__((disable_sanitizer_instrumentation, no_sanitize("address"), noinline, used))
RAW void om_save_stack() {
  size_t n = om_top - (char *)om_saved.rsp;
  for (size_t i = 0; i < n; i++) ((volatile char *)om_copy)[i] = ((char *)om_saved.rsp)[i];
}
RAW void om_restore_stack() {
  size_t n = om_top - (char *)om_saved.rsp;
  for (size_t i = 0; i < n; i++) ((volatile char *)om_saved.rsp)[i] = om_copy[i];
}
long om_fork_model(void);
void om_fork_again(long pid) __attribute__((noreturn));
void __asan_handle_no_return(void) __attribute__((weak));
}
asm(R"(
.text
.globl om_fork_model
om_fork_model:
  movq %rbx, om_saved(%rip)
  movq %rbp, om_saved+8(%rip)
  movq %r12, om_saved+16(%rip)
  movq %r13, om_saved+24(%rip)
  movq %r14, om_saved+32(%rip)
  movq %r15, om_saved+40(%rip)
  leaq 8(%rsp), %rax
  movq %rax, om_saved+48(%rip)
  movq (%rsp), %rax
  movq %rax, om_saved+56(%rip)
  subq $8, %rsp
  call om_save_stack
  addq $8, %rsp
  xorl %eax, %eax
  ret
.globl om_fork_again
om_fork_again:
  movq %rdi, %rbx
  movq om_saved+48(%rip), %rsp
  subq $4096, %rsp
  andq $-16, %rsp
  call om_restore_stack
  movq %rbx, %rax
  movq om_saved(%rip), %rbx
  movq om_saved+8(%rip), %rbp
  movq om_saved+16(%rip), %r12
  movq om_saved+24(%rip), %r13
  movq om_saved+32(%rip), %r14
  movq om_saved+40(%rip), %r15
  movq om_saved+48(%rip), %rsp
  jmpq *om_saved+56(%rip)
)");
static std::string here() { char b[4096]; return getcwd(b, sizeof b) ? b : ""; }
// The child has ended or become another program: the parent goes on.
__attribute__((noinline)) static void childEnds() {
  world->child = false;
  for (auto &f : world->fds) f = Fd();
  if (__asan_handle_no_return) __asan_handle_no_return();
  om_fork_again(PID);
}
__attribute__((noinline)) static void leave(int code, bool handlers) {
  Process &p = world->procs.back();
  p.handlers = handlers;
  p.exitCode = code;
  world->lastStatus = (code & 0xff) << 8;
  childEnds();
}
__attribute__((noinline)) static int execute(const char *path, char *const *argv) {
  Process &p = world->procs.back();
  sx_assert(world->child, "only the child executes the program");
  p.path = path;
  p.argv.clear();
  for (char *const *a = argv; *a; ++a) p.argv.push_back(*a);
  p.cwd = here();
  Fd &o = world->fds[1], &e = world->fds[2];
  p.redirected = o.open && e.open && o.file >= 0 && o.file == e.file;
  sx_assert(p.redirected || (!o.open && !e.open), "stdout and stderr lead to the same place");
  int status = 0, err = world->onExec(p, &status);
  if (err) { errno = err; return -1; }
  p.executed = true;
  world->lastStatus = status;
  childEnds();
  return -1;
}
} // namespace om_fork
using om_fork::world;
extern "C" {
long __wrap_fork(void);
int om_begin_fork(void) { // 1: fork fails
  sx_assert(!world->child, "the child does not fork");
  if (world->failFork) { errno = EAGAIN; return 1; }
  world->procs.emplace_back();
  world->child = true;
  return 0;
}
int __wrap_execvp(const char *p, char *const *a) { return om_fork::execute(p, a); }
int __wrap_execv(const char *p, char *const *a) { return om_fork::execute(p, a); }
int __wrap_open(const char *path, int flags, int mode) {
  if (!world->child) { errno = EACCES; return -1; }
  world->files.push_back(path);
  int fd = 3;
  while (world->fds[fd].open) ++fd;
  world->fds[fd].open = true;
  world->fds[fd].file = (int)world->files.size() - 1;
  om_fork::Process &p = world->procs.back();
  p.logFile = path;
  p.logFlags = flags;
  return fd;
}
int __wrap_dup2(int from, int to) {
  if (from < 0 || from >= 16 || to < 0 || to >= 16 || !world->child) { errno = EBADF; return -1; }
  world->fds[to] = world->fds[from];
  return to;
}
int __wrap_close(int fd) {
  if (!world->child || fd < 0 || fd >= 16 || (!world->fds[fd].open && fd > 2)) { ++world->strayClose; errno = EBADF; return -1; }
  if (fd <= 2) world->fds[fd].open = true, world->fds[fd].file = -2 - fd;
  else world->fds[fd] = om_fork::Fd();
  return 0;
}
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (world && world->child) om_fork::leave(c, true); __real_exit(c); }
void __wrap__exit(int c) { if (world && world->child) om_fork::leave(c, false); __real__exit(c); }
void __wrap__Exit(int c) { __wrap__exit(c); }
int __wrap_waitpid(int pid, int *status, int) {
  sx_assert(!world->child, "the parent waits");
  if (world->interrupts > 0) { --world->interrupts; errno = EINTR; return -1; }
  if (pid != om_fork::PID || world->procs.empty() || world->procs.back().waited || world->waitFails) { errno = ECHILD; return -1; }
  world->procs.back().waited = 1;
  if (status) *status = world->lastStatus;
  return pid;
}
}
// fork: record, then return twice.
asm(R"(
.globl __wrap_fork
__wrap_fork:
  subq $8, %rsp
  call om_begin_fork
  addq $8, %rsp
  testl %eax, %eax
  jz om_fork_model
  movq $-1, %rax
  ret
)");
// Runs f with everything below its frame remembered across a fork.
template <typename F> __attribute__((noinline)) static void withForks(om_fork::World &w, F f) {
  char here;
  world = &w;
  om_fork::om_top = (char *)__builtin_frame_address(0);
  om_fork::om_copy = (char *)malloc(1 << 20);
  f();
  free(om_fork::om_copy);
  world = nullptr;
}
#define FORK_WRAPS_DOC "fork execvp execv waitpid open dup2 close exit _exit _Exit"
