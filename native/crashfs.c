/* LD_PRELOAD shim: numbers the file system operations under one directory and fails at a chosen one.
   crashfs_arm(prefix, at, mode): mode 1 the process ends before operation `at`, 2 it ends after half of that write,
   3 that operation and all later ones fail with ENOSPC, 0 only counts and logs. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[4096];
static long at = -1, count = 0;
static int mode = -1;
static char mine[65536];
static char logbuf[1 << 20];
static size_t loglen = 0;

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

void crashfs_arm(const char *p, long a, int m) {
  snprintf(prefix, sizeof prefix, "%s", p);
  at = a; mode = m; count = 0; loglen = 0;
}
long crashfs_count(void) { return count; }
const char *crashfs_log(void) { logbuf[loglen] = 0; return logbuf; }

static int under(const char *p) {
  return mode >= 0 && p && prefix[0] && strncmp(p, prefix, strlen(prefix)) == 0;
}
static void note(const char *op, const char *p) {
  if (mode == 0 && loglen + 600 < sizeof logbuf)
    loglen += snprintf(logbuf + loglen, 600, "%s %s\n", op, p ? p : "");
}
/* returns 1 if the operation must fail with ENOSPC, 2 if half of it must be done */
static int event(const char *op, const char *p) {
  long me = count++;
  note(op, p);
  if (mode == 1 && me == at) _exit(77);
  if (mode == 2 && me == at) return 2;
  if (mode == 3 && me >= at) { errno = ENOSPC; return 1; }
  return 0;
}
static int writing(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

static void fdpath(int fd, char *buf, size_t n) {
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t r = readlink(l, buf, n - 1); buf[r > 0 ? r : 0] = 0;
}
#define OPEN(NAME, CALL, PATH) \
  { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int w = under(PATH) && writing(flags); \
    if (w) { int e = event("open", PATH); if (e == 1) return -1; } \
    int fd = CALL; \
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = w; \
    return fd; }
int open(const char *path, int flags, ...) OPEN(open, REAL(open)(path, flags, m), path)
int open64(const char *path, int flags, ...) OPEN(open64, REAL(open64)(path, flags, m), path)
int openat(int d, const char *path, int flags, ...) OPEN(openat, REAL(openat)(d, path, flags, m), path)
int openat64(int d, const char *path, int flags, ...) OPEN(openat64, REAL(openat64)(d, path, flags, m), path)

ssize_t write(int fd, const void *buf, size_t n) {
  if (mode >= 0 && fd >= 0 && fd < (int)sizeof mine && mine[fd]) {
    int e = event("write", mode == 0 ? ({ static char b[512]; fdpath(fd, b, sizeof b); b; }) : "");
    if (e == 1) return -1;
    if (e == 2) { size_t h = n / 2; const char *q = buf; while (h) { ssize_t r = REAL(write)(fd, q, h); if (r <= 0) break; q += r; h -= r; } _exit(77); }
  }
  return REAL(write)(fd, buf, n);
}
int close(int fd) {
  if (mode >= 0 && fd >= 0 && fd < (int)sizeof mine && mine[fd]) {
    int e = event("close", mode == 0 ? ({ static char b[512]; fdpath(fd, b, sizeof b); b; }) : "");
    mine[fd] = 0;
    if (e == 2) _exit(77);
  }
  return REAL(close)(fd);
}
#define TWO(NAME, P, ...) if (under(P)) { int e = event(#NAME, P); if (e == 1) return -1; if (e == 2) _exit(77); } return REAL(NAME)(__VA_ARGS__);
int rename(const char *a, const char *b) { TWO(rename, b, a, b) }
int renameat(int x, const char *a, int y, const char *b) { TWO(renameat, b, x, a, y, b) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { TWO(renameat2, b, x, a, y, b, f) }
int link(const char *a, const char *b) { TWO(link, b, a, b) }
int linkat(int x, const char *a, int y, const char *b, int f) { TWO(linkat, b, x, a, y, b, f) }
int symlink(const char *a, const char *b) { TWO(symlink, b, a, b) }
int symlinkat(const char *a, int y, const char *b) { TWO(symlinkat, b, a, y, b) }
int mkdir(const char *a, mode_t m) { TWO(mkdir, a, a, m) }
int mkdirat(int x, const char *a, mode_t m) { TWO(mkdirat, a, x, a, m) }
int unlink(const char *a) { TWO(unlink, a, a) }
int unlinkat(int x, const char *a, int f) { TWO(unlinkat, a, x, a, f) }
int rmdir(const char *a) { TWO(rmdir, a, a) }
int truncate(const char *a, off_t n) { TWO(truncate, a, a, n) }
int ftruncate(int fd, off_t n) {
  if (mode >= 0 && fd >= 0 && fd < (int)sizeof mine && mine[fd]) { int e = event("ftruncate", ""); if (e == 1) return -1; if (e == 2) _exit(77); }
  return REAL(ftruncate)(fd, n);
}
