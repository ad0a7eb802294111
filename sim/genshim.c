// Loaded into the interpreter that runs the source generator: the system calls that touch files below the scratch
// directory meet the faults of the plan, nothing can be written outside of it, and time, process number and random
// bytes are those of the plan.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "genshim.h"

static struct GenShm* S;
static struct GenShm none;
static char root[PATH_MAX];
static size_t rootLen;
static unsigned char mine[1024];  // descriptors open for writing below the scratch directory

__attribute__((constructor)) static void init(void) {
  S = &none;
  memset(&none, 0, sizeof none);
  none.f.crash = none.f.crashcall = none.f.enospc = none.f.weio = none.f.open = none.f.close = -1;
  const char* r = getenv("GENSHIM_ROOT");
  const char* fd = getenv("GENSHIM_FD");
  if (!r || !fd) return;
  strncpy(root, r, sizeof root - 1);
  rootLen = strlen(root);
  int n = atoi(fd);
  void* m = mmap(0, sizeof(struct GenShm), PROT_READ | PROT_WRITE, MAP_SHARED, n, 0);
  if (m == MAP_FAILED) _exit(97);
  S = m;
  syscall(SYS_close, n);
  unsetenv("LD_PRELOAD"); unsetenv("GENSHIM_ROOT"); unsetenv("GENSHIM_FD");
}
static void note(uint64_t a, uint64_t b) { S->hash = (S->hash ^ (a * 1000003 + b)) * 1099511628211ull; S->hash ^= S->hash >> 29; }
static void die(void) { S->fired |= GF_CRASH; syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
// a call that changes files: may be the one at which the process dies
static void step(int kind) { if (S->f.crashcall >= 0 && S->calls == S->f.crashcall) die(); S->calls++; note(1, (uint64_t)kind); }

static int absolute(int dir, const char* p, char* out) {
  char b[2 * PATH_MAX];
  if (*p == '/') snprintf(b, sizeof b, "%s", p);
  else {
    char c[PATH_MAX];
    if (dir == AT_FDCWD) { if (syscall(SYS_getcwd, c, sizeof c) < 0) return -1; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dir); ssize_t n = syscall(SYS_readlink, l, c, sizeof c - 1); if (n < 0) return -1; c[n] = 0; }
    snprintf(b, sizeof b, "%s/%s", c, p);
  }
  char* o = out; *o = 0;
  for (char* s = b; *s;) {
    while (*s == '/') ++s;
    char* e = s; while (*e && *e != '/') ++e;
    size_t n = (size_t)(e - s);
    if (n == 0) break;
    if (n == 1 && *s == '.') { }
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/') { } *o = 0; }
    else { if ((size_t)(o - out) + n + 2 > PATH_MAX) return -1; *o++ = '/'; memcpy(o, s, n); o += n; *o = 0; }
    s = e;
  }
  return 0;
}
static int inside(int dir, const char* p) {
  char a[PATH_MAX];
  if (!rootLen) return 1;
  return absolute(dir, p, a) == 0 && !strncmp(a, root, rootLen) && (a[rootLen] == '/' || !a[rootLen]);
}
// a change of something outside
static int refuse(int dir, const char* p) {
  char a[PATH_MAX];
  if (absolute(dir, p, a) || strncmp(a, "/dev/", 5)) { S->fired |= GF_OUTSIDE; snprintf(S->outside, sizeof S->outside, "%s", a); }
  errno = EROFS;
  return -1;
}
static int isDev(int dir, const char* p) { char a[PATH_MAX]; return absolute(dir, p, a) == 0 && !strncmp(a, "/dev/", 5); }
static int doOpen(int dir, const char* p, int fl, mode_t m) {
  int w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
  if (rootLen && (w || inside(dir, p))) {
    if (!inside(dir, p)) { if (!isDev(dir, p)) return refuse(dir, p); }
    else if (w) {
      step(1);
      int k = S->opens++;
      if (S->f.open >= 0 && (k == S->f.open || (S->f.openall && k > S->f.open))) { S->fired |= GF_OPEN; errno = S->f.openerr; return -1; }
    }
  }
  int r = (int)syscall(SYS_openat, dir, p, fl, m);
  if (r >= 0 && r < (int)sizeof mine) mine[r] = w && rootLen && inside(dir, p);
  return r;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char* p, int fl, ...) { MODE return doOpen(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { MODE return doOpen(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { MODE return doOpen(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { MODE return doOpen(d, p, fl, m); }
int creat(const char* p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static long room(long n) {  // how much of a transfer is done, or -1
  struct GenFaults* f = &S->f;
  if (f->eintr > 0 && ++S->transfers % f->eintr == 0) { S->fired |= GF_EINTR; errno = EINTR; return -1; }
  if (f->wchunk > 0) {
    long c = f->wchunk;
    if (f->vary) c = 1 + (long)(((uint64_t)f->vary * 6364136223846793005ull + (uint64_t)++S->chunks * 1442695040888963407ull >> 33) % (uint64_t)c);
    if (n > c) { n = c; S->fired |= GF_SHORT; }
  }
  if (f->crash >= 0 && S->bytes + n >= f->crash) return f->crash - S->bytes;
  if (f->enospc >= 0 && S->bytes + n > f->enospc) { S->fired |= GF_FULL; if (S->bytes >= f->enospc) { errno = ENOSPC; return -1; } return f->enospc - S->bytes; }
  if (f->weio >= 0 && S->bytes + n > f->weio) { S->fired |= GF_EIO; if (S->bytes >= f->weio) { errno = EIO; return -1; } return f->weio - S->bytes; }
  return n;
}
static void wrote(long n) {
  if (n > 0) S->bytes += n;
  note(2, (uint64_t)n);
  if (S->f.crash >= 0 && S->bytes >= S->f.crash) die();
}
static int ours(int fd) { return fd >= 0 && fd < (int)sizeof mine && mine[fd]; }
ssize_t write(int fd, const void* b, size_t n) {
  if (!ours(fd)) return syscall(SYS_write, fd, b, n);
  step(2);
  long k = room((long)n);
  if (k < 0) return -1;
  k = k ? syscall(SYS_write, fd, b, k) : 0;
  wrote(k);
  return k;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
static ssize_t doPwrite(int fd, const void* b, size_t n, off_t o) {
  if (!ours(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  step(2);
  long k = room((long)n);
  if (k < 0) return -1;
  k = k ? syscall(SYS_pwrite64, fd, b, k, o) : 0;
  wrote(k);
  return k;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return doPwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return doPwrite(fd, b, n, o); }
int close(int fd) {
  int m = ours(fd);
  if (m) { step(3); mine[fd] = 0; }
  int r = (int)syscall(SYS_close, fd);
  if (m && S->f.close >= 0 && S->closes++ == S->f.close) { S->fired |= GF_CLOSE; errno = EIO; return -1; }
  return r;
}
static int passes(int dir, const char* p, int kind) { if (!inside(dir, p)) return refuse(dir, p); step(kind); return 0; }
int rename(const char* a, const char* b) { return passes(AT_FDCWD, a, 4) || passes(AT_FDCWD, b, 4) ? -1 : (int)syscall(SYS_rename, a, b); }
int renameat(int d, const char* a, int e, const char* b) { return passes(d, a, 4) || passes(e, b, 4) ? -1 : (int)syscall(SYS_renameat, d, a, e, b); }
int renameat2(int d, const char* a, int e, const char* b, unsigned fl) { return passes(d, a, 4) || passes(e, b, 4) ? -1 : (int)syscall(SYS_renameat2, d, a, e, b, fl); }
int unlink(const char* p) { return passes(AT_FDCWD, p, 5) ? -1 : (int)syscall(SYS_unlink, p); }
int unlinkat(int d, const char* p, int fl) { return passes(d, p, 5) ? -1 : (int)syscall(SYS_unlinkat, d, p, fl); }
int rmdir(const char* p) { return passes(AT_FDCWD, p, 5) ? -1 : (int)syscall(SYS_rmdir, p); }
int mkdir(const char* p, mode_t m) { return passes(AT_FDCWD, p, 6) ? -1 : (int)syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char* p, mode_t m) { return passes(d, p, 6) ? -1 : (int)syscall(SYS_mkdirat, d, p, m); }
int link(const char* a, const char* b) { return passes(AT_FDCWD, a, 7) || passes(AT_FDCWD, b, 7) ? -1 : (int)syscall(SYS_link, a, b); }
int linkat(int d, const char* a, int e, const char* b, int fl) { return passes(d, a, 7) || passes(e, b, 7) ? -1 : (int)syscall(SYS_linkat, d, a, e, b, fl); }
int symlink(const char* a, const char* b) { return passes(AT_FDCWD, b, 7) ? -1 : (int)syscall(SYS_symlink, a, b); }
int symlinkat(const char* a, int e, const char* b) { return passes(e, b, 7) ? -1 : (int)syscall(SYS_symlinkat, a, e, b); }
int truncate(const char* p, off_t n) { return passes(AT_FDCWD, p, 8) ? -1 : (int)syscall(SYS_truncate, p, n); }
int truncate64(const char* p, off_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { if (ours(fd)) step(8); return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int chmod(const char* p, mode_t m) { return passes(AT_FDCWD, p, 9) ? -1 : (int)syscall(SYS_chmod, p, m); }
int fchmodat(int d, const char* p, mode_t m, int fl) { return passes(d, p, 9) ? -1 : (int)syscall(SYS_fchmodat, d, p, m); }
int chown(const char* p, uid_t u, gid_t g) { return passes(AT_FDCWD, p, 9) ? -1 : (int)syscall(SYS_chown, p, u, g); }
int lchown(const char* p, uid_t u, gid_t g) { return passes(AT_FDCWD, p, 9) ? -1 : (int)syscall(SYS_lchown, p, u, g); }
int fchownat(int d, const char* p, uid_t u, gid_t g, int fl) { return passes(d, p, 9) ? -1 : (int)syscall(SYS_fchownat, d, p, u, g, fl); }
int utimensat(int d, const char* p, const struct timespec t[2], int fl) { return p && passes(d, p, 9) ? -1 : (int)syscall(SYS_utimensat, d, p, t, fl); }
int mknod(const char* p, mode_t m, dev_t d) { return passes(AT_FDCWD, p, 6) ? -1 : (int)syscall(SYS_mknod, p, m, d); }
int mkfifo(const char* p, mode_t m) { return passes(AT_FDCWD, p, 6) ? -1 : (int)syscall(SYS_mknod, p, m | S_IFIFO, 0); }
// other programs and other processes are out of reach
int execve(const char* p, char* const a[], char* const e[]) { errno = EACCES; return -1; }
int execv(const char* p, char* const a[]) { errno = EACCES; return -1; }
int execvp(const char* p, char* const a[]) { errno = EACCES; return -1; }
int system(const char* c) { return c ? 127 << 8 : 0; }
int posix_spawn(pid_t* p, const char* f, const void* a, const void* b, char* const v[], char* const e[]) { return EACCES; }
int posix_spawnp(pid_t* p, const char* f, const void* a, const void* b, char* const v[], char* const e[]) { return EACCES; }
int kill(pid_t p, int s) { if (p == getpid() || p == (pid_t)syscall(SYS_getpid)) return (int)syscall(SYS_kill, syscall(SYS_getpid), s); errno = EPERM; return -1; }

// ---------------------------------------------------------------- surroundings
pid_t getpid(void) { return S->f.pid ? (pid_t)S->f.pid : (pid_t)syscall(SYS_getpid); }
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!S->f.now) return (int)syscall(SYS_clock_gettime, c, t);
  uint64_t k = 1000ull * (uint64_t)++S->readings;
  t->tv_sec = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? S->f.now : S->f.now % 1000000) + (time_t)(k / 1000000000);
  t->tv_nsec = (long)(k % 1000000000);
  return 0;
}
time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval* v, void* z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
ssize_t getrandom(void* b, size_t n, unsigned fl) {
  for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)(((uint64_t)S->f.entropy + (uint64_t)++S->randoms) * 6364136223846793005ull >> 56);
  return (ssize_t)n;
}
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
