// C11: loading, addressing and unloading of external constant files.
#include "sx.h"
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
bool omLoadConstantData(void **constAddr, char *fname, int64_t size, int64_t isLE);
void omGetExternalConstantAddr(void **outputAddr, void **baseAddr, int64_t offset);
bool omUnloadConstantData(void **constAddr, int64_t size);
#define MAXF 6
// ---- a file system with up to two files
static struct { const char *path; int64_t size; unsigned char *data; int canOpen; } files[2];
static const char *base; static int envQueries;
static int fdOpen[4], fdFile[4], nfd, opens, closes; static int64_t fdPos[4];
static int failMmap, failOpen, failRead, shortReads;
static struct { void *p; size_t n; int file; } maps[8]; static int nmaps, mapped;
char *__wrap_getenv(const char *n) { ++envQueries; return !strcmp(n, "OM_CONSTANT_PATH") ? (char *)base : NULL; }
int __wrap_open(const char *p, int flags, ...) {

  sx_assert((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "the constant file is opened for reading only");
  for (int f = 0; f < 2; ++f) if (files[f].path && !strcmp(files[f].path, p)) {
    if (failOpen) break;
    fdFile[nfd] = f; fdPos[nfd] = 0; fdOpen[nfd] = 1; ++opens; return 100 + nfd++;
  }
  errno = ENOENT; return -1;
}
static int ix(int fd) { sx_assert(fd >= 100 && fd < 100 + nfd && fdOpen[fd - 100], "only an open file is used"); return fd - 100; }
int __wrap_close(int fd) { fdOpen[ix(fd)] = 0; ++closes; return 0; }
static int fill(int fd, struct stat *st) { memset(st, 0, sizeof *st); st->st_size = files[fdFile[ix(fd)]].size; st->st_mode = S_IFREG | 0444; return 0; }
int __wrap_fstat(int fd, struct stat *st) { return fill(fd, st); }
int __wrap_fstat64(int fd, struct stat *st) { return fill(fd, st); }
int __wrap___fxstat(int v, int fd, struct stat *st) { return fill(fd, st); }
off_t __wrap_lseek(int fd, off_t o, int w) { int i = ix(fd); return fdPos[i] = w == SEEK_SET ? o : w == SEEK_CUR ? fdPos[i] + o : files[fdFile[i]].size + o; }
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) {
  int i = ix(fd);
  sx_assert(o == 0 && (prot & PROT_READ), "the file is mapped from its start for reading");
  if (failMmap) { errno = ENOMEM; return MAP_FAILED; }
  maps[nmaps].p = files[fdFile[i]].data; maps[nmaps].n = n; maps[nmaps].file = fdFile[i]; ++mapped;
  return maps[nmaps++].p;
}
int __wrap_munmap(void *p, size_t n) {
  for (int i = nmaps; i-- > 0;) if (maps[i].p == p) { sx_assert(maps[i].n == n, "the whole mapping is released"); maps[i].p = NULL; --mapped; return 0; }
  sx_assert(0, "only a mapping is released"); return -1;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  int i = ix(fd);
  if (failRead && --failRead == 0) { errno = EIO; return -1; }
  int64_t left = files[fdFile[i]].size - fdPos[i];
  if (left <= 0) return 0;
  if ((int64_t)n > left) n = left;
  if (shortReads && n > 1) n = sx_pick("read", 1, (int64_t)n);
  memcpy(b, files[fdFile[i]].data + fdPos[i], n); fdPos[i] += n; return n;
}
static unsigned char content[2][MAXF];
static void setup(int withBase) {
  for (int f = 0; f < 2; ++f) {
    files[f].path = withBase ? (f ? "/some/dir/b.bin" : "/some/dir/a.constants.bin") : (f ? "b.bin" : "a.constants.bin");
    files[f].data = malloc(MAXF); files[f].size = sx_range("filesize", 0, 4);
    sx_bytes(content[f], MAXF, "content"); memcpy(files[f].data, content[f], MAXF);
  }
  base = withBase ? "/some/dir" : NULL;
}
static void done(void) { free(files[0].data); free(files[1].data); }
SX_TEST(load) {
  int withBase = (int)sx_pick("base", 0, 1);
  setup(withBase);
  int64_t size = sx_range("size", -1, 4), le = (int64_t)sx_u64("littleEndian", 1);
  int which = (int)sx_pick("file", 0, 2); // 2: a file that is not there
  int fault = (int)sx_pick("fault", 0, 2);
  failOpen = fault == 1;
#ifdef MALLOC_PATH
  failRead = fault == 2 ? (int)sx_pick("readFault", 1, 3) : 0; shortReads = 1; int wasRead = failRead;
#else
  failMmap = fault == 2;
#endif
  void *addr[2] = {NULL, (void *)0x77};
  char name[20]; strcpy(name, which == 0 ? "a.constants.bin" : which == 1 ? "b.bin" : "c.bin");
  int64_t before = sx_live_allocs();
  bool ok = omLoadConstantData(addr, name, size, le);
  sx_assert(opens == closes, "every opened file is closed again");
  sx_assert(addr[1] == (void *)0x77, "nothing beyond the address is written");
  bool want = size > 0 && le && which < 2 && !failOpen && files[which].size >= size;
#ifdef MALLOC_PATH
  if (want && wasRead && ok) want = failRead > 0; // the failing call was not reached
  if (want && wasRead && !ok) want = failRead > 0;
#else
  want = want && !failMmap;
#endif
  sx_assert(ok == want, "loading succeeds exactly when the file can be opened, has the native byte order and holds the requested bytes");
  if (ok) {
    sx_assert(addr[0] != NULL && !memcmp(addr[0], content[which], size), "the loaded bytes are those of the file");
    // loading again does nothing
    int o = opens; void *a = addr[0];
    sx_assert(omLoadConstantData(addr, name, size, le) && addr[0] == a && opens == o, "loading again keeps the data");
    sx_assert(omUnloadConstantData(addr, size), "unloading reports success");
    sx_reach(withBase ? "loaded from OM_CONSTANT_PATH" : "loaded from the current directory");
  } else {
    sx_assert(addr[0] == NULL, "after a failed load there is no data");
    sx_assert(!omUnloadConstantData(addr, size), "nothing to unload");
    sx_reach("load failed");
  }
  sx_assert(mapped == 0 && sx_live_allocs() == before, "no mapping or memory is left behind");
  done();
}
// Histories over two constants, in any order.
SX_TEST(history) {
  int withBase = (int)sx_pick("base", 0, 1);
  setup(withBase); files[0].size = 3; files[1].size = 2;
  void *addr[2] = {NULL, NULL}; int loaded[2] = {0, 0};
  static char *NM[2] = {"a.constants.bin", "b.bin"};
  int64_t before = sx_live_allocs();
  int n = sx_thorough() ? 6 : 5;
  for (int s = 0; s < n; ++s) {
    int k = (int)sx_pick("which", 0, 1);
    if (sx_pick("op", 0, 1)) {
      sx_assert(omLoadConstantData(&addr[k], NM[k], files[k].size, 1), "load");
      loaded[k] = 1;
    } else {
      sx_assert(omUnloadConstantData(&addr[k], files[k].size) == loaded[k], "unload succeeds exactly for loaded constants");
      loaded[k] = 0;
    }
    sx_assert(opens == closes, "files are closed");
    for (int j = 0; j < 2; ++j) if (loaded[j]) sx_assert(!memcmp(addr[j], content[j], files[j].size), "loaded constants stay intact");
#ifndef MALLOC_PATH
    sx_assert(mapped == loaded[0] + loaded[1], "one mapping per loaded constant");
#else
    sx_assert(sx_live_allocs() == before + loaded[0] + loaded[1], "one buffer per loaded constant");
#endif
  }
  for (int j = 0; j < 2; ++j) if (loaded[j]) omUnloadConstantData(&addr[j], files[j].size);
  sx_assert(mapped == 0 && sx_live_allocs() == before, "no mapping or memory is left behind");
  sx_reach("history");
  done();
}
SX_TEST(nulls) {
  void *p = NULL, *q = NULL;
  sx_assert(!omLoadConstantData(NULL, "a", 1, 1), "null address");
  sx_assert(!omUnloadConstantData(NULL, 1), "null address");
  omGetExternalConstantAddr(NULL, &p, 1); omGetExternalConstantAddr(&p, NULL, 1);
  sx_assert(p == NULL, "null output or base leaves the output alone");
  sx_reach("nulls");
}
SX_TEST(address) {
  char *b = (char *)(uintptr_t)sx_u64("base", 48), *o = (char *)(uintptr_t)sx_u64("out", 48);
  int64_t off = sx_i64("offset");
  void *basep = b, *outp = o;
  omGetExternalConstantAddr(&outp, &basep, off);
  sx_assert(basep == b, "the base is unchanged");
  if (o) { sx_assert(outp == o, "an address computed before is kept"); sx_reach("kept"); }
  else { sx_assert((uintptr_t)outp == (uintptr_t)b + (uint64_t)off, "address is base plus offset"); sx_reach("computed"); }
}
