#include "simos.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <set>
#include <streambuf>

#define EXPORT extern "C" __attribute__((visibility("default")))
template <class F> static F real_(const char* n) { void* p = dlsym(RTLD_NEXT, n); return (F)p; }
#define REAL(name) ([]() { static auto f = real_<decltype(&::name)>(#name); return f; }())

using simheap::Scope;

// ================================================================== disk
namespace simfs {
bool active = false;
bool allowRace = false;
bool countOnly = false;
void (*onCrash)() = nullptr;
void (*atCall)() = nullptr;
bool (*onBlock)() = nullptr;
int owner = 0;
struct Lock { uint64_t ino; int owner, fd; bool excl; };
static std::vector<Lock>* locks;   // advisory locks of simulated processes that run at the same time
struct Inode { std::string data; uint64_t lines = 0, bytes = 0; int64_t mtime; uint64_t no; static uint64_t made; Inode() : mtime(simclk::real), no(++made) {} };
uint64_t Inode::made;
typedef std::shared_ptr<Inode> InodeP;
struct Open { InodeP ino; size_t off = 0; bool rd = false, wr = false, app = false; FILE* fp = nullptr; };
static std::map<std::string, InodeP>* files;
static std::map<int, Open>* fds;
static std::map<FILE*, int>* fps;
static Disk* snap;
static std::set<std::string>* denied;
static std::set<std::string>* dirs;
static Faults F;
static Fired R;
static uint64_t xfer, closes, varyState;
static const int BASE = 0x40000000;
static int nextFd = BASE;
static void ensure() {
  if (!files) { Scope s; files = new std::map<std::string, InodeP>; fds = new std::map<int, Open>; fps = new std::map<FILE*, int>; snap = new Disk; denied = new std::set<std::string>; dirs = new std::set<std::string>; }
}
void reset() { ensure(); Scope s; files->clear(); fds->clear(); fps->clear(); denied->clear(); *dirs = {"d", "dir", "dir/sub", "tmp", "var", "var/tmp"}; F = Faults(); R = Fired(); nextFd = BASE; active = true; }
Disk disk() { Scope s; Disk d; for (auto& f : *files) d[f.first] = countOnly ? fmt("%llu", (unsigned long long)f.second->lines) : f.second->data; return d; }
std::string pack() {
  Scope s;
  std::string o;
  auto u64 = [&](uint64_t v) { o.append((const char*)&v, 8); };
  auto str = [&](const std::string& x) { u64(x.size()); o += x; };
  u64(files->size());
  for (auto& f : *files) { str(f.first); u64(f.second->no); u64((uint64_t)f.second->mtime); str(f.second->data); }
  u64(dirs->size());
  for (auto& d : *dirs) str(d);
  u64(locks ? locks->size() : 0);
  if (locks) for (auto& l : *locks) { u64(l.ino); u64((uint64_t)l.owner); u64((uint64_t)l.fd); u64(l.excl); }
  return o;
}
void unpack(const char* p, size_t n) {
  Scope s;
  const char* e = p + n;
  auto u64 = [&]() { uint64_t v; if (p + 8 > e) harnessError("bad packed disk"); memcpy(&v, p, 8); p += 8; return v; };
  auto str = [&]() { uint64_t k = u64(); if (k > (uint64_t)(e - p)) harnessError("bad packed disk"); std::string x(p, k); p += k; return x; };
  std::map<uint64_t, InodeP> known;
  for (auto& f : *files) known[f.second->no] = f.second;
  for (auto& f : *fds) known[f.second.ino->no] = f.second.ino;
  files->clear(); dirs->clear();
  for (uint64_t k = u64(); k; --k) {
    std::string name = str();
    uint64_t no = u64();
    auto i = known.find(no);
    InodeP q = i == known.end() ? std::make_shared<Inode>() : i->second;
    q->no = no; q->mtime = (int64_t)u64(); q->data = str();
    known[no] = q;
    (*files)[name] = q;
  }
  for (uint64_t k = u64(); k; --k) dirs->insert(str());
  if (!locks) locks = new std::vector<Lock>;
  locks->clear();
  for (uint64_t k = u64(); k; --k) { Lock l; l.ino = u64(); l.owner = (int)u64(); l.fd = (int)u64(); l.excl = u64(); locks->push_back(l); }
}
void unlockAll(int fd) {
  if (!locks) return;
  Scope s;
  for (size_t i = locks->size(); i--; ) if ((*locks)[i].owner == owner && (fd < 0 || (*locks)[i].fd == fd)) locks->erase(locks->begin() + (long)i);
}
void ownInodes(uint64_t base) { Inode::made = base; }
void setDisk(const Disk& d) {
  Scope s;
  std::map<std::string, InodeP> n;
  for (auto& f : d) {
    auto i = files->find(f.first);
    if (i != files->end() && i->second->data == f.second) { n[f.first] = i->second; continue; }
    auto p = std::make_shared<Inode>(); p->data = f.second; n[f.first] = p;
  }
  files->swap(n);
}
bool exists(const std::string& p) { return files->count(p) != 0; }
std::string content(const std::string& p) { auto i = files->find(p); return i == files->end() ? std::string() : i->second->data; }
void setContent(const std::string& p, const std::string& d) { Scope s; auto n = std::make_shared<Inode>(); n->data = d; (*files)[p] = n; }
void remove(const std::string& p) { files->erase(p); }
void deny(const std::string& p) { Scope s; denied->insert(p); }
int openFiles() { return (int)fds->size(); }
void begin(const Faults& f) { F = f; R = Fired(); xfer = closes = 0; varyState = (uint64_t)f.vary; Scope s; snap->clear(); }
Fired end() {
  Fired r = R;
  if (r.crash && !onCrash) setDisk(*snap);
  F = Faults();
  return r;
}
Faults parseFaults(const Line& l) {
  Faults f;
  f.wchunk = l.num("wchunk", 0); f.rchunk = l.num("rchunk", 0); f.vary = l.num("vary", 0); f.eintr = l.num("eintr", 0); f.ro = l.num("ro", 0);
  f.enospc = l.num("enospc", -1); f.weio = l.num("weio", -1); f.reio = l.num("reio", -1); f.crash = l.num("crash", -1);
  f.crashcall = l.num("crashcall", -1); f.open = l.num("open", -1); f.openall = l.num("openall", 0); f.openerr = l.num("openerr", EACCES);
  f.close = l.num("close", -1);
  return f;
}
static void doCrash() {
  if (R.crash) return;
  R.crash = true; count("fault.crash"); ev("crash", R.wbytes);
  if (onCrash) onCrash();
  Scope s; *snap = disk();
}
static void call(const char* what) {  // every file system call
  if (atCall) atCall();
  if (F.crashcall >= 0 && R.calls == F.crashcall) doCrash();
  R.calls++;
  simclk::stall(10000);
  shm->trace = mix64(shm->trace ^ hashBytes(what, strlen(what)));
  simsched::point(2);
}
// the code under test reaches nothing real: only system files can be read
static bool simulated(const char* p, bool change = true) {
  if (!active || !p) return false;
  if (p[0] != '/' || !strncmp(p, "/sim/", 5)) return true;
  if (simheap::harness) return false;
  static const char* sys[] = {"/dev/", "/proc/", "/sys/", "/usr/", "/lib", "/etc/"};
  for (const char* x : sys) if (!strncmp(p, x, strlen(x))) return change && x != sys[0];
  return true;
}
std::string norm(const std::string& p) {
  size_t i = !p.compare(0, 5, "/sim/") ? 5 : 0;
  bool root = i == 0 && !p.empty() && p[0] == '/';
  std::vector<std::string> c;
  bool slash = false;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    slash = j != std::string::npos;
    if (!slash) j = p.size();
    std::string w = p.substr(i, j - i);
    i = j + 1;
    if (w.empty() || w == ".") { slash = true; continue; }
    if (w == ".." && !c.empty() && c.back() != "..") { c.pop_back(); slash = true; continue; }
    c.push_back(w);
  }
  std::string s = root ? "/" : "";
  for (size_t k = 0; k < c.size(); ++k) s += (k ? "/" : "") + c[k];
  if (slash && !c.empty()) s += "/";
  return s;
}
static bool isDir(std::string p) {
  while (!p.empty() && p.back() == '/') p.pop_back();
  if (p.empty() || dirs->count(p)) return true;
  auto i = files->lower_bound(p + "/");
  return i != files->end() && !i->first.compare(0, p.size() + 1, p + "/");
}
static long limit(long chunk) {
  if (!F.vary) return chunk;
  varyState = mix64(varyState);
  return 1 + (long)(varyState % (uint64_t)chunk);
}
// a failing call that is repeated for ever
static uint64_t failedInRow;
static int failed() { int e = errno; if (++failedInRow > 100000) violation("hang.endless_retry", "a failing call is repeated for ever"); errno = e; return -1; }
static int doOpen(const char* path, int flags) {
  Scope sc;
  call("open");
  std::string p = norm(path);
  long n = R.opens++;
  if (F.open >= 0 && (n == F.open || (F.openall && n > F.open))) {
    R.open = true; count("fault.open_fails"); ev("open!", n, F.openerr);
    errno = (int)F.openerr; return failed();
  }
  if (denied->count(p)) { R.open = true; count("fault.open_fails"); ev("open!", n, EACCES); errno = EACCES; return failed(); }
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (wr && F.ro) { R.ro = true; count("fault.read_only"); ev("open!", n, EROFS); errno = EROFS; return failed(); }
  auto i = files->find(p);
  if (!*path || !p.compare(0, 6, "nodir/")) { errno = ENOENT; ev("open?", 1); return failed(); }
  if (p.empty() || p.back() == '/' || (i == files->end() && isDir(p))) { errno = EISDIR; ev("open?", 1); return failed(); }
  if (i == files->end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; ev("open?", 2); return failed(); }
    (*files)[p] = std::make_shared<Inode>();
    i = files->find(p);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (wr && (flags & O_TRUNC)) { i->second->data.clear(); i->second->lines = 0; i->second->mtime = simclk::real; }
  failedInRow = 0;
  int fd = nextFd++;
  Open o; o.ino = i->second; o.rd = (flags & O_ACCMODE) != O_WRONLY; o.wr = wr; o.app = (flags & O_APPEND) != 0;
  (*fds)[fd] = o;
  ev("open", hashBytes(p.data(), p.size()), wr);
  return fd;
}
static Open* get(int fd) { auto i = fds->find(fd); return i == fds->end() ? nullptr : &i->second; }
static bool intr() {
  ++xfer;
  if (F.eintr && xfer % (uint64_t)F.eintr == 0) { R.eintr = true; count("fault.interrupted_transfer"); ev("eintr"); errno = EINTR; return true; }
  return false;
}
static ssize_t doWrite(int fd, const void* b, size_t n) {
  Scope sc;
  call("write");
  Open* o = get(fd);
  if (!o || !o->wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (intr()) return -1;
  size_t m = n;
  if (F.wchunk > 0) m = std::min<size_t>(m, (size_t)limit(F.wchunk));
  auto budget = [&](long at, bool& flag, int err, const char* cn) -> bool {  // true: fail now
    if (at < 0) return false;
    if (R.wbytes >= at) { if (!flag) count(cn); flag = true; errno = err; ev(cn, R.wbytes); return true; }
    m = std::min<size_t>(m, (size_t)(at - R.wbytes));
    return false;
  };
  if (budget(F.enospc, R.enospc, ENOSPC, "fault.disk_full")) return failed();
  if (budget(F.weio, R.weio, EIO, "fault.write_error")) return failed();
  if (F.crash >= 0 && !R.crash && R.wbytes >= F.crash) doCrash();
  if (F.crash >= 0 && !R.crash) m = std::min<size_t>(m, (size_t)(F.crash - R.wbytes));
  if (m < n) { R.shortw = true; count("fault.short_write"); }
  if (countOnly) { for (size_t i = 0; i < m; ++i) o->ino->lines += ((const char*)b)[i] == '\n'; o->ino->bytes += m; o->off += m; R.wbytes += (long)m; if (o->ino->bytes > (256u << 20)) violation("hang.endless_file", "a file of more than 256 MB was written"); return (ssize_t)m; }
  if (o->app) o->off = o->ino->data.size();
  std::string& d = o->ino->data;
  if (d.size() < o->off + m) d.resize(o->off + m);
  memcpy(&d[o->off], b, m);
  o->ino->mtime = simclk::real;
  if (d.size() > (256u << 20)) violation("hang.endless_file", "a file of more than 256 MB was written");
  o->off += m;
  R.wbytes += (long)m; failedInRow = 0;
  evBytes("write", b, m); shm->trace = mix64(shm->trace ^ m);
  return (ssize_t)m;
}
static ssize_t doRead(int fd, void* b, size_t n) {
  Scope sc;
  call("read");
  Open* o = get(fd);
  if (!o || !o->rd) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (intr()) return -1;
  std::string& d = o->ino->data;
  size_t avail = o->off < d.size() ? d.size() - o->off : 0;
  size_t m = std::min(n, avail);
  if (F.rchunk > 0) m = std::min<size_t>(m, (size_t)limit(F.rchunk));
  if (F.reio >= 0) {
    if (R.rbytes >= F.reio) { if (!R.reio) count("fault.read_error"); R.reio = true; errno = EIO; ev("reio", R.rbytes); return failed(); }
    m = std::min<size_t>(m, (size_t)(F.reio - R.rbytes));
  }
  if (m < std::min(n, avail)) { R.shortr = true; count("fault.short_read"); }
  memcpy(b, d.data() + o->off, m);
  o->off += m;
  R.rbytes += (long)m;
  if (m) failedInRow = 0; else failed();   // at the end of the file again
  ev("read", m, hashBytes(b, m)); shm->trace = mix64(shm->trace ^ (m + 7));
  return (ssize_t)m;
}
static int doClose(int fd) {
  Scope sc;
  call("close");
  Open* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  if (o->fp) fps->erase(o->fp);
  unlockAll(fd);
  fds->erase(fd);
  ev("close");
  if (F.close >= 0 && (long)closes++ == F.close) { R.close = true; count("fault.close_fails"); errno = EIO; return -1; }
  return 0;
}
static off_t doSeek(int fd, off_t off, int wh) {
  Scope sc;
  call("seek");
  Open* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->off : (off_t)o->ino->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->off = (size_t)(base + off);
  return (off_t)o->off;
}
static void fillStat(struct stat* st, const Inode* i) {  // no inode: a directory
  memset(st, 0, sizeof *st);
  st->st_dev = 42; st->st_nlink = 1; st->st_blksize = 4096;
  st->st_mode = i ? S_IFREG | 0644 : S_IFDIR | 0755; st->st_ino = i ? i->no : 1;
  if (!i) return;
  st->st_size = (off_t)i->data.size(); st->st_blocks = (blkcnt_t)((i->data.size() + 511) / 512);
  st->st_mtim.tv_sec = i->mtime / 1000000000; st->st_mtim.tv_nsec = i->mtime % 1000000000;
  st->st_ctim = st->st_atim = st->st_mtim;
}
static int doStat(const char* p, struct stat* st) {
  Scope s; call("stat");
  std::string q = norm(p);
  auto i = files->find(q);
  if (i != files->end()) { fillStat(st, i->second.get()); return 0; }
  if (*p && isDir(q)) { fillStat(st, nullptr); return 0; }
  errno = ENOENT; return -1;
}
// FILE* of the C library on a simulated descriptor
// (the C library itself continues after short writes; interrupted calls are restarted)
static ssize_t ckRead(void* c, char* b, size_t n) { ssize_t r; while ((r = doRead((int)(intptr_t)c, b, n)) < 0 && errno == EINTR) {} return r; }
static ssize_t ckWrite(void* c, const char* b, size_t n) {
  size_t done = 0;
  while (done < n) { ssize_t r = doWrite((int)(intptr_t)c, b + done, n - done); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; done += (size_t)r; }
  return (ssize_t)done;
}
static int ckSeek(void* c, off64_t* off, int wh) { off_t r = doSeek((int)(intptr_t)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ckClose(void* c) { return doClose((int)(intptr_t)c); }
static FILE* wrap(int fd, const char* mode) {
  Scope sc;
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
  (*fds)[fd].fp = f;
  (*fps)[f] = fd;
  return f;
}
static int modeFlags(const char* m) {
  int f = strchr(m, '+') ? O_RDWR : (*m == 'r' ? O_RDONLY : O_WRONLY);
  if (*m == 'w') f |= O_CREAT | O_TRUNC;
  if (*m == 'a') f |= O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
}  // namespace simfs
using namespace simfs;

EXPORT FILE* fopen(const char* p, const char* m) {
  if (!simulated(p, *m != 'r' || strchr(m, '+'))) return REAL(fopen)(p, m);
  int fd = doOpen(p, modeFlags(m));
  return fd < 0 ? nullptr : wrap(fd, m);
}
EXPORT FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
EXPORT FILE* fdopen(int fd, const char* m) noexcept { if (fd >= BASE) return wrap(fd, m); return REAL(fdopen)(fd, m); }
EXPORT int fileno(FILE* f) noexcept {
  if (fps) { auto i = fps->find(f); if (i != fps->end()) return i->second; }
  return REAL(fileno)(f);
}
EXPORT int open(const char* p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  if (!simulated(p, (fl & O_ACCMODE) != O_RDONLY)) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  return doOpen(p, fl);
}
EXPORT int open64(const char* p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  if (!simulated(p, (fl & O_ACCMODE) != O_RDONLY)) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  return doOpen(p, fl);
}
EXPORT int openat(int dfd, const char* p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  if ((dfd != AT_FDCWD && *p != '/') || !simulated(p, (fl & O_ACCMODE) != O_RDONLY)) return (int)syscall(SYS_openat, dfd, p, fl, mode);
  return doOpen(p, fl);
}
EXPORT int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT ssize_t write(int fd, const void* b, size_t n) { return fd >= BASE ? doWrite(fd, b, n) : (ssize_t)syscall(SYS_write, fd, b, n); }
EXPORT ssize_t read(int fd, void* b, size_t n) { return fd >= BASE ? doRead(fd, b, n) : (ssize_t)syscall(SYS_read, fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fd < BASE) return (ssize_t)syscall(SYS_writev, fd, v, c);
  std::string all;
  { Scope s; for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len); }
  ssize_t r = doWrite(fd, all.data(), all.size());
  { Scope s; std::string().swap(all); }
  return r;
}
EXPORT ssize_t readv(int fd, const struct iovec* v, int c) {
  if (fd < BASE) return (ssize_t)syscall(SYS_readv, fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; ++i) { ssize_t r = doRead(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return tot ? tot : -1; tot += r; if ((size_t)r < v[i].iov_len) break; }
  return tot;
}
EXPORT ssize_t pread(int fd, void* b, size_t n, off_t o) { if (fd < BASE) return (ssize_t)syscall(SYS_pread64, fd, b, n, o); Open* f = get(fd); size_t s = f->off; f->off = (size_t)o; ssize_t r = doRead(fd, b, n); f->off = s; return r; }
EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (fd < BASE) return (ssize_t)syscall(SYS_pwrite64, fd, b, n, o); Open* f = get(fd); size_t s = f->off; f->off = (size_t)o; ssize_t r = doWrite(fd, b, n); f->off = s; return r; }
EXPORT off_t lseek(int fd, off_t o, int w) noexcept { return fd >= BASE ? doSeek(fd, o, w) : (off_t)syscall(SYS_lseek, fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
EXPORT int close(int fd) { return fd >= BASE ? doClose(fd) : (int)syscall(SYS_close, fd); }
EXPORT int fsync(int fd) { if (fd >= BASE) { call("fsync"); return 0; } return (int)syscall(SYS_fsync, fd); }
EXPORT int fdatasync(int fd) { if (fd >= BASE) { call("fsync"); return 0; } return (int)syscall(SYS_fdatasync, fd); }
EXPORT int ftruncate(int fd, off_t n) noexcept { if (fd < BASE) return (int)syscall(SYS_ftruncate, fd, n); Scope s; call("ftruncate"); Open* o = get(fd); o->ino->data.resize((size_t)n); return 0; }
EXPORT int truncate(const char* p, off_t n) noexcept { if (!simulated(p)) return (int)syscall(SYS_truncate, p, n); Scope s; call("truncate"); auto i = files->find(norm(p)); if (i == files->end()) { errno = ENOENT; return -1; } i->second->data.resize((size_t)n); return 0; }
EXPORT int fstat(int fd, struct stat* st) noexcept { if (fd < BASE) return (int)syscall(SYS_fstat, fd, st); Open* o = get(fd); if (!o) { errno = EBADF; return -1; } fillStat(st, o->ino.get()); return 0; }
EXPORT int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
EXPORT int stat(const char* p, struct stat* st) noexcept {
  if (!simulated(p, false)) return (int)syscall(SYS_stat, p, st);
  return doStat(p, st);
}
EXPORT int stat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*)st); }
EXPORT int lstat(const char* p, struct stat* st) noexcept { return stat(p, st); }
EXPORT int access(const char* p, int m) noexcept {
  if (!simulated(p, false)) return (int)syscall(SYS_access, p, m);
  Scope s; call("access"); if (files->count(norm(p)) || isDir(norm(p))) return 0; errno = ENOENT; return -1;
}
EXPORT int rename(const char* a, const char* b) noexcept {
  if (!simulated(a) && !simulated(b)) return (int)syscall(SYS_rename, a, b);
  Scope s; call("rename"); auto i = files->find(norm(a)); if (i == files->end()) { errno = ENOENT; return -1; }
  InodeP p = i->second; files->erase(i); (*files)[norm(b)] = p; ev("rename"); return 0;
}
EXPORT int unlink(const char* p) noexcept {
  if (!simulated(p)) return (int)syscall(SYS_unlink, p);
  Scope s; call("unlink"); if (files->erase(norm(p))) { ev("unlink"); return 0; } errno = ENOENT; return -1;
}
EXPORT int renameat(int, const char* a, int, const char* b) noexcept { return rename(a, b); }
EXPORT int mkdir(const char* p, mode_t m) noexcept {
  if (!simulated(p)) return (int)syscall(SYS_mkdir, p, m);
  Scope s; call("mkdir"); std::string q = norm(p);
  while (!q.empty() && q.back() == '/') q.pop_back();
  if (files->count(q) || isDir(q)) { errno = EEXIST; return -1; }
  if (!q.compare(0, 6, "nodir/")) { errno = ENOENT; return -1; }
  dirs->insert(q); return 0;
}
// the rest of the file system interface
EXPORT int fstatat(int d, const char* p, struct stat* st, int fl) noexcept { if (d >= BASE || ((fl & AT_EMPTY_PATH) && !*p)) return fstat(d, st); if ((d != AT_FDCWD && *p != '/') || !simulated(p, false)) return (int)syscall(SYS_newfstatat, d, p, st, fl); return doStat(p, st); }
EXPORT int fstatat64(int d, const char* p, struct stat64* st, int fl) noexcept { return fstatat(d, p, (struct stat*)st, fl); }
EXPORT int lstat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*)st); }
EXPORT int statx(int d, const char* p, int fl, unsigned mask, struct statx* x) noexcept {
  bool mine = d >= BASE || ((d == AT_FDCWD || *p == '/') && simulated(p, false));
  if (!mine) return (int)syscall(SYS_statx, d, p, fl, mask, x);
  struct stat st;
  if (d >= BASE ? fstat(d, &st) : doStat(p, &st)) return -1;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_mode = (uint16_t)st.st_mode; x->stx_size = (uint64_t)st.st_size; x->stx_ino = st.st_ino; x->stx_nlink = 1; x->stx_blksize = 4096; x->stx_blocks = (uint64_t)st.st_blocks;
  x->stx_mtime.tv_sec = st.st_mtim.tv_sec; x->stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec; x->stx_ctime = x->stx_atime = x->stx_mtime;
  return 0;
}
EXPORT int faccessat(int d, const char* p, int m, int fl) noexcept { if ((d != AT_FDCWD && *p != '/') || !simulated(p, false)) return (int)syscall(SYS_faccessat, d, p, m, fl); return access(p, m); }
EXPORT int euidaccess(const char* p, int m) noexcept { return access(p, m); }
EXPORT int eaccess(const char* p, int m) noexcept { return access(p, m); }
EXPORT int rmdir(const char* p) noexcept {
  if (!simulated(p)) return (int)syscall(SYS_rmdir, p);
  Scope s; call("rmdir"); std::string q = norm(p);
  while (!q.empty() && q.back() == '/') q.pop_back();
  auto i = files->lower_bound(q + "/");
  if (i != files->end() && !i->first.compare(0, q.size() + 1, q + "/")) { errno = ENOTEMPTY; return -1; }
  if (dirs->erase(q)) return 0;
  errno = ENOENT; return -1;
}
EXPORT int unlinkat(int d, const char* p, int fl) noexcept { if ((d != AT_FDCWD && *p != '/') || !simulated(p)) return (int)syscall(SYS_unlinkat, d, p, fl); return fl & AT_REMOVEDIR ? rmdir(p) : unlink(p); }
EXPORT int link(const char* a, const char* b) noexcept {
  if (!simulated(a) && !simulated(b)) return (int)syscall(SYS_link, a, b);
  Scope s; call("link"); auto i = files->find(norm(a)); if (i == files->end()) { errno = ENOENT; return -1; }
  if (files->count(norm(b))) { errno = EEXIST; return -1; }
  (*files)[norm(b)] = i->second; return 0;
}
EXPORT int linkat(int, const char* a, int, const char* b, int) noexcept { return link(a, b); }
EXPORT int symlink(const char* a, const char* b) noexcept { if (!simulated(b)) return (int)syscall(SYS_symlink, a, b); errno = EPERM; return -1; }
EXPORT int symlinkat(const char* a, int, const char* b) noexcept { return symlink(a, b); }
EXPORT int renameat2(int, const char* a, int, const char* b, unsigned fl) noexcept { if ((fl & 1) && simulated(b)) { Scope s; if (files->count(norm(b))) { errno = EEXIST; return -1; } } return rename(a, b); }
EXPORT int mkdirat(int, const char* p, mode_t m) noexcept { return mkdir(p, m); }
static int known(const char* p) { struct stat st; return doStat(p, &st); }
EXPORT int chmod(const char* p, mode_t m) noexcept { return simulated(p) ? known(p) : (int)syscall(SYS_chmod, p, m); }
EXPORT int fchmod(int fd, mode_t m) noexcept { return fd >= BASE ? 0 : (int)syscall(SYS_fchmod, fd, m); }
EXPORT int fchmodat(int, const char* p, mode_t m, int) noexcept { return chmod(p, m); }
EXPORT int chown(const char* p, uid_t u, gid_t g) noexcept { return simulated(p) ? known(p) : (int)syscall(SYS_chown, p, u, g); }
EXPORT int fchown(int fd, uid_t u, gid_t g) noexcept { return fd >= BASE ? 0 : (int)syscall(SYS_fchown, fd, u, g); }
EXPORT int lchown(const char* p, uid_t u, gid_t g) noexcept { return chown(p, u, g); }
static int setTime(const char* p, const struct timespec* t) {  // modification time
  Scope s; call("utime"); auto i = files->find(norm(p)); if (i == files->end()) { errno = ENOENT; return -1; }
  i->second->mtime = t ? t->tv_sec * 1000000000ll + t->tv_nsec : simclk::real; return 0;
}
EXPORT int utimensat(int d, const char* p, const struct timespec t[2], int fl) noexcept { if (!p || !simulated(p)) return (int)syscall(SYS_utimensat, d, p, t, fl); return setTime(p, t ? t + 1 : nullptr); }
EXPORT int futimens(int fd, const struct timespec t[2]) noexcept { if (fd < BASE) return (int)syscall(SYS_utimensat, fd, nullptr, t, 0); Open* o = get(fd); if (!o) { errno = EBADF; return -1; } o->ino->mtime = t ? t[1].tv_sec * 1000000000ll + t[1].tv_nsec : simclk::real; return 0; }
EXPORT int utimes(const char* p, const struct timeval t[2]) noexcept { if (!simulated(p)) return (int)syscall(SYS_utimes, p, t); struct timespec x = {t ? t[1].tv_sec : 0, t ? t[1].tv_usec * 1000 : 0}; return setTime(p, t ? &x : nullptr); }
EXPORT int utime(const char* p, const struct utimbuf* t) noexcept { if (!simulated(p)) return (int)syscall(SYS_utime, p, t); struct timespec x = {t ? t->modtime : 0, 0}; return setTime(p, t ? &x : nullptr); }
EXPORT ssize_t readlink(const char* p, char* b, size_t n) noexcept { if (!simulated(p, false)) return (ssize_t)syscall(SYS_readlink, p, b, n); errno = known(p) ? ENOENT : EINVAL; return -1; }
EXPORT char* realpath(const char* p, char* out) noexcept {
  if (!simulated(p, false)) return REAL(realpath)(p, out);
  if (known(p)) return nullptr;
  Scope s; std::string q = norm(p); if (q.empty() || q[0] != '/') q = "/sim/" + q;
  if (!out) out = (char*)malloc(q.size() + 1); return strcpy(out, q.c_str());
}
EXPORT char* getcwd(char* b, size_t n) noexcept {
  if (!active || simheap::harness) return REAL(getcwd)(b, n);
  if (b && n < 5) { errno = ERANGE; return nullptr; }
  if (!b) b = (char*)malloc(std::max<size_t>(n, 5));
  return strcpy(b, "/sim");
}
EXPORT int chdir(const char* p) noexcept { if (!active || simheap::harness) return (int)syscall(SYS_chdir, p); errno = EACCES; return -1; }
// locks exclude other simulated processes (onBlock lets them go on); parts of a file are not distinguished
static int doLock(int fd, bool excl, bool wait, bool test = false) {
  Scope s;
  call("lock");
  Open* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  if (!onBlock) return 0;
  for (;;) {
    bool busy = false;
    if (locks) for (auto& l : *locks) if (l.ino == o->ino->no && l.owner != owner && (excl || l.excl)) busy = true;
    if (!busy) break;
    count("mesh.lock_busy");
    if (!wait) { errno = EAGAIN; return -1; }
    if (!onBlock()) violation("hang.lock", "programs that run at the same time wait for each other");
    o = get(fd);
  }
  if (test) return 0;
  if (!locks) locks = new std::vector<Lock>;
  unlockAll(fd);
  locks->push_back({o->ino->no, owner, fd, excl});
  return 0;
}
static int doUnlock(int fd) { Scope s; call("lock"); unlockAll(fd); return 0; }
EXPORT int flock(int fd, int op) noexcept { if (fd < BASE) return (int)syscall(SYS_flock, fd, op); return op & LOCK_UN ? doUnlock(fd) : doLock(fd, op & LOCK_EX, !(op & LOCK_NB)); }
EXPORT int lockf(int fd, int op, off_t n) { if (fd < BASE) return REAL(lockf)(fd, op, n); return op == F_ULOCK ? doUnlock(fd) : doLock(fd, true, op == F_LOCK, op == F_TEST); }
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); void* arg = va_arg(a, void*); va_end(a);
  if (fd < BASE) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  Open* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return (o->rd ? o->wr ? O_RDWR : O_RDONLY : O_WRONLY) | (o->app ? O_APPEND : 0);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { errno = EMFILE; return -1; }
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) { short t = ((struct flock*)arg)->l_type; return t == F_UNLCK ? doUnlock(fd) : doLock(fd, t == F_WRLCK, cmd == F_SETLKW || cmd == F_OFD_SETLKW); }
  if (cmd == F_GETLK || cmd == F_OFD_GETLK) { struct flock* l = (struct flock*)arg; if (!doLock(fd, l->l_type == F_WRLCK, false, true)) l->l_type = F_UNLCK; return 0; }
  return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void* arg = va_arg(a, void*); va_end(a); return fcntl(fd, cmd, arg); }
EXPORT int posix_fadvise(int fd, off_t o, off_t n, int x) noexcept { return fd >= BASE ? 0 : REAL(posix_fadvise)(fd, o, n, x); }
EXPORT int posix_fallocate(int fd, off_t o, off_t n) {
  if (fd < BASE) return REAL(posix_fallocate)(fd, o, n);
  Scope s; call("fallocate"); Open* f = get(fd); if (!f) return EBADF;
  if (F.enospc >= 0 && R.wbytes + n > F.enospc) { R.enospc = true; count("fault.disk_full"); return ENOSPC; }
  if (f->ino->data.size() < (size_t)(o + n)) f->ino->data.resize((size_t)(o + n)); return 0;
}
EXPORT int fallocate(int fd, int m, off_t o, off_t n) { if (fd < BASE) return (int)syscall(SYS_fallocate, fd, m, o, n); int e = posix_fallocate(fd, o, n); if (e) { errno = e; return -1; } return 0; }
EXPORT ssize_t sendfile(int out, int in, off_t* off, size_t n) noexcept { if (out < BASE && in < BASE) return (ssize_t)syscall(SYS_sendfile, out, in, off, n); errno = EINVAL; return -1; }
EXPORT ssize_t copy_file_range(int in, off64_t* a, int out, off64_t* b, size_t n, unsigned fl) { if (out < BASE && in < BASE) return (ssize_t)syscall(SYS_copy_file_range, in, a, out, b, n, fl); errno = EXDEV; return -1; }
EXPORT void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t off) noexcept {
  if (fd < BASE) return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, off);
  Scope s; call("mmap"); Open* o = get(fd);
  if (!o || ((fl & MAP_SHARED) && (pr & PROT_WRITE))) { errno = o ? ENODEV : EBADF; return MAP_FAILED; }
  char* p = (char*)syscall(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (fl & MAP_FIXED), -1, 0);
  if (p == (char*)MAP_FAILED) return p;
  const std::string& d = o->ino->data;
  if ((size_t)off < d.size()) memcpy(p, d.data() + off, std::min(n, d.size() - (size_t)off));
  mprotect(p, n, pr);
  return p;
}
EXPORT FILE* freopen(const char* p, const char* m, FILE* f) {
  if (!p || !simulated(p, *m != 'r' || strchr(m, '+'))) return REAL(freopen)(p, m, f);
  errno = EPERM; return nullptr;
}
EXPORT FILE* freopen64(const char* p, const char* m, FILE* f) { return freopen(p, m, f); }
// directories
namespace simfs { struct Dir { uint64_t tag; std::vector<std::string> names; size_t at; struct dirent e; }; }
EXPORT DIR* opendir(const char* p) {
  if (!simulated(p, false)) return REAL(opendir)(p);
  Scope s; call("opendir"); std::string q = norm(p);
  while (!q.empty() && q.back() == '/') q.pop_back();
  if (!isDir(q)) { errno = files->count(q) ? ENOTDIR : ENOENT; return nullptr; }
  if (!q.empty()) q += "/";
  Dir* d = new Dir(); d->tag = 0x53494d444952ull;
  std::set<std::string> n = {".", ".."};
  for (auto& f : *files) if (!f.first.compare(0, q.size(), q)) { std::string r = f.first.substr(q.size()); n.insert(r.substr(0, r.find('/'))); }
  d->names.assign(n.begin(), n.end());
  return (DIR*)d;
}
EXPORT struct dirent* readdir(DIR* x) {
  Dir* d = (Dir*)x;
  if (d->tag != 0x53494d444952ull) return REAL(readdir)(x);
  if (d->at >= d->names.size()) return nullptr;
  memset(&d->e, 0, sizeof d->e);
  d->e.d_ino = d->at + 1; d->e.d_type = DT_UNKNOWN; snprintf(d->e.d_name, sizeof d->e.d_name, "%s", d->names[d->at++].c_str());
  return &d->e;
}
EXPORT struct dirent64* readdir64(DIR* x) { return (struct dirent64*)readdir(x); }
EXPORT int closedir(DIR* x) { Dir* d = (Dir*)x; if (d->tag != 0x53494d444952ull) return REAL(closedir)(x); Scope s; delete d; return 0; }
// nothing outside is started or stopped by the code under test
EXPORT int system(const char* c) { if (!active || simheap::harness) return REAL(system)(c); ev("system"); return -1; }
EXPORT FILE* popen(const char* c, const char* m) { if (!active || simheap::harness) return REAL(popen)(c, m); ev("popen"); errno = EAGAIN; return nullptr; }
EXPORT int kill(pid_t p, int sg) noexcept { if (!active || simheap::harness) return (int)syscall(SYS_kill, p, sg); ev("kill"); errno = EPERM; return -1; }
EXPORT unsigned sleep(unsigned n) { if (!active) return REAL(sleep)(n); simclk::stall(n * 1000000000ll); if (simfs::onBlock) simfs::onBlock(); simsched::point(3); return 0; }
EXPORT int usleep(unsigned n) { if (!active) return REAL(usleep)(n); simclk::stall(n * 1000ll); if (simfs::onBlock) simfs::onBlock(); simsched::point(3); return 0; }
EXPORT int nanosleep(const struct timespec* t, struct timespec* r) { if (!active) return (int)syscall(SYS_nanosleep, t, r); simclk::stall(t->tv_sec * 1000000000ll + t->tv_nsec); if (simfs::onBlock) simfs::onBlock(); simsched::point(3); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) { if (!active) return (int)syscall(SYS_clock_nanosleep, c, fl, t, r); if (!fl) nanosleep(t, r); return 0; }
static int simMkstemp(char* t, int suffix) {
  static unsigned n;
  size_t l = strlen(t);
  if (l < 6 + (size_t)suffix) { errno = EINVAL; return -1; }
  for (;;) {
    char b[8]; snprintf(b, sizeof b, "%06u", n++ % 1000000);
    memcpy(t + l - 6 - (size_t)suffix, b, 6);
    int fd = doOpen(t, O_RDWR | O_CREAT | O_EXCL);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
}
EXPORT char* mkdtemp(char* t) noexcept { size_t l = strlen(t); if (l < 6) { errno = EINVAL; return nullptr; } memcpy(t + l - 6, "simdir", 6); return mkdir(t, 0700) ? nullptr : t; }
EXPORT int mkstemp(char* t) { return simMkstemp(t, 0); }
EXPORT int mkstemp64(char* t) { return simMkstemp(t, 0); }
EXPORT int mkostemp(char* t, int) { return simMkstemp(t, 0); }
EXPORT FILE* tmpfile(void) { char t[] = "/sim/tmpXXXXXX"; int fd = simMkstemp(t, 0); if (fd < 0) return nullptr; FILE* f = wrap(fd, "w+"); unlink(t); return f; }
EXPORT int remove(const char* p) noexcept { if (!simulated(p)) return REAL(remove)(p); return unlink(p); }
EXPORT int ioctl(int fd, unsigned long rq, ...) noexcept {
  va_list a; va_start(a, rq); void* arg = va_arg(a, void*); va_end(a);
  if (fd < BASE) return (int)syscall(SYS_ioctl, fd, rq, arg);
  Open* o = get(fd);
  if (rq == FIONREAD && o) { size_t n = o->ino->data.size(); *(int*)arg = (int)(o->off < n ? n - o->off : 0); return 0; }
  errno = ENOTTY; return -1;
}
EXPORT int poll(struct pollfd* p, nfds_t n, int t) {
  if (n != 1 || p[0].fd < BASE) return (int)syscall(SYS_poll, p, n, t);
  p[0].revents = p[0].events; return 1;
}

// ================================================================== clocks
namespace simclk {
bool active = false;
int64_t perRead, perAlloc, mono, real, proc;
uint64_t reads;
std::vector<int64_t>* readings;
int64_t (*afterRead)(uint64_t);
static int64_t cpu[64];
static int me() { int s = simsched::self(); return s < 0 ? 0 : s; }
void reset() { for (auto& c : cpu) c = 1000000; mono = 5000000000ll; real = 1700000000000000000ll + g_procNo * 1370000000ll; proc = 1000000; perRead = perAlloc = 0; reads = 0; active = true; }
void setThreadCpu(int t, int64_t ns) { cpu[t] = ns; }
int64_t threadCpu(int t) { return cpu[t]; }
void work(int64_t ns) { cpu[me()] += ns; mono += ns; real += ns; proc += ns; shm->simns += (uint64_t)ns; }
void stall(int64_t ns) { mono += ns; real += ns; shm->simns += (uint64_t)ns; }
void stepReal(int64_t ns) { real += ns; }
static void conv(int64_t ns, struct timespec* t) { int64_t s = ns / 1000000000, n = ns % 1000000000; if (n < 0) { n += 1000000000; --s; } t->tv_sec = s; t->tv_nsec = n; }
}
EXPORT int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (!simclk::active) return (int)syscall(SYS_clock_gettime, c, t);
  simsched::point(3);
  int64_t v;
  if (c < 0) c = c & 4 ? CLOCK_THREAD_CPUTIME_ID : CLOCK_PROCESS_CPUTIME_ID;  // clock of a given thread or process
  switch (c) {
    case CLOCK_THREAD_CPUTIME_ID: v = simclk::cpu[simclk::me()]; break;
    case CLOCK_PROCESS_CPUTIME_ID: v = simclk::proc; break;
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = simclk::real; break;
    default: v = simclk::mono;
  }
  simclk::conv(v, t);
  ev("clock", (uint64_t)c, (uint64_t)v);
  if (simclk::readings && c == CLOCK_THREAD_CPUTIME_ID) { Scope sc; simclk::readings->push_back(v); }
  if (simclk::afterRead) simclk::work(simclk::afterRead(simclk::reads));
  simclk::reads++;
  if (simclk::perRead) simclk::work(simclk::perRead);
  return 0;
}
EXPORT int gettimeofday(struct timeval* t, void*) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t* t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
EXPORT clock_t clock(void) noexcept { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
EXPORT clock_t times(struct tms* t) noexcept {
  if (!simclk::active) return (clock_t)syscall(SYS_times, t);
  struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s);
  memset(t, 0, sizeof *t); t->tms_utime = s.tv_sec * 100 + s.tv_nsec / 10000000;
  return simclk::mono / 10000000;
}
EXPORT int timespec_get(struct timespec* t, int b) noexcept { if (b != TIME_UTC) return 0; clock_gettime(CLOCK_REALTIME, t); return b; }
EXPORT int getrusage(__rusage_who_t who, struct rusage* r) noexcept {
  if (!simclk::active) return (int)syscall(SYS_getrusage, who, r);
  memset(r, 0, sizeof *r);
  int64_t v = who == 1 ? simclk::cpu[simclk::me()] : simclk::proc;
  r->ru_utime.tv_sec = v / 1000000000; r->ru_utime.tv_usec = v % 1000000000 / 1000;
  return 0;
}

// ================================================================== entropy and identity
namespace simrand { static uint64_t drawn; static uint64_t next() { ev("entropy", drawn); return mix64(0xE17209 + ((uint64_t)g_procNo << 32) + drawn++); } }
EXPORT unsigned int simRandomDevice(void*) asm("_ZNSt13random_device9_M_getvalEv");
EXPORT unsigned int simRandomDevice(void*) { return (unsigned)simrand::next(); }
EXPORT ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)simrand::next(); return (ssize_t)n; }
EXPORT int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
EXPORT pid_t getpid(void) noexcept { return 4242 + 7 * g_procNo; }
EXPORT pid_t getppid(void) noexcept { return 4100; }
EXPORT pid_t gettid(void) noexcept { return getpid() + 1 + simsched::self(); }

// ================================================================== heap
namespace simheap {
thread_local int harness = 1;   // threads start inside the simulator
static long failAt = -1, allocs; static bool sticky, fired, on; static long liveBlocks;
void begin(long f, bool s) { failAt = f; sticky = s; allocs = 0; fired = false; on = true; }
Result end() { Result r = {allocs, fired}; on = false; failAt = -1; return r; }
long live() { return liveBlocks; }
struct Hdr { uint64_t tag; uint64_t size; };
// Blocks of the code under test come from a region of their own, so that
// their addresses and what is left in freed ones depend on the run alone.
static const size_t ARENA = 1536u << 20;
static char* arena; static size_t used; static void* freed[512];
void initArena() {
  arena = (char*)mmap((void*)0x200000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) { arena = nullptr; }
}
std::pair<uintptr_t, uintptr_t> inUse() { return {(uintptr_t)arena, (uintptr_t)arena + used}; }
void moveArena(int procNo) { if (used == 0) used = (size_t)(procNo % 64) * 4112; }
static unsigned sizeClass(size_t& n) {
  if (n <= 1024) { n = (n + 15) & ~(size_t)15; return (unsigned)(n / 16); }
  unsigned b = 10; while ((n - 1) >> (b + 1)) ++b;       // 2^b < n <= 2^(b+1)
  size_t q = (size_t)1 << (b - 2), k = (n - ((size_t)1 << b) + q - 1) / q;
  n = ((size_t)1 << b) + k * q;
  return 64 + (b - 10) * 4 + (unsigned)k;
}
static Hdr* take(size_t n) {
  unsigned c = sizeClass(n);
  if (c < 512 && freed[c]) { Hdr* h = (Hdr*)freed[c]; freed[c] = *(void**)(h + 1); return h; }
  if (!arena || n > ARENA - used) return nullptr;
  Hdr* h = (Hdr*)(arena + used); used += n; return h;
}
static bool giveBack(Hdr* h) {
  if (!arena || (char*)h < arena || (char*)h >= arena + ARENA) return false;
  size_t n = h->size + sizeof(Hdr), m = std::min<size_t>(h->size, 4096);
  unsigned c = sizeClass(n);
  memset(h + 1, 0xDD, m);
  *(void**)(h + 1) = freed[c]; freed[c] = h;
  return true;
}
static void* get(size_t n) {
  bool mine = harness == 0;
  if (mine) {
    if (simclk::perAlloc) simclk::work(simclk::perAlloc);
    if (on) {
      long k = allocs++;
      if (failAt >= 0 && (k == failAt || (sticky && k > failAt))) { if (!fired) count("fault.out_of_memory"); fired = true; ev("nomem", (uint64_t)k); return nullptr; }
    }
  }
  if (n < 8) n = 8;
  if (n > (1ull << 40)) return nullptr;
  Hdr* h = mine ? take(n + sizeof(Hdr)) : nullptr;
  if (!h) h = (Hdr*)malloc(n + sizeof(Hdr));
  if (!h) return nullptr;
  h->tag = mine ? 0x5355543153555431ull : 0x48524e3148524e31ull;
  h->size = n;
  if (mine) { ++liveBlocks; memset(h + 1, g_fill, n); }
  return h + 1;
}
static void put(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->tag == 0x5355543153555431ull) --liveBlocks;
  else if (h->tag != 0x48524e3148524e31ull) violation("heap.bad_free", "delete of a block that was not allocated or was already freed");
  h->tag = 0xdeaddeaddeaddeadull;
  if (!giveBack(h)) free(h);
}
}
void* operator new(size_t n) { void* p = simheap::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = simheap::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simheap::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simheap::get(n); }
void operator delete(void* p) noexcept { simheap::put(p); }
void operator delete[](void* p) noexcept { simheap::put(p); }
void operator delete(void* p, size_t) noexcept { simheap::put(p); }
void operator delete[](void* p, size_t) noexcept { simheap::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simheap::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simheap::put(p); }

// ================================================================== threads
namespace simsched {
uint64_t maxSteps = 20000000;
void (*onAccess)(const void*, size_t, bool) = nullptr;
struct Thr { int id; int go; bool done; bool waiting; std::function<void()> fn; pthread_t th; uint64_t steps; };
static std::vector<Thr*> T;
static __thread Thr* me_ = nullptr;
static __thread int inSched = 0, inSig = 0;
static bool on = false, recStat = false;
static uint64_t step_, spins;
static std::vector<Switch> SW; static size_t swi;
static std::vector<Signal> SG; static size_t sgi;
static std::vector<int> order_;
static int mainGo;
static std::vector<std::pair<uintptr_t, uintptr_t>> statics;
void setStaticRange(const std::vector<std::pair<uintptr_t, uintptr_t>>& v) { statics = v; }
static std::pair<uintptr_t, uintptr_t> watched;
void watchWrites(uintptr_t lo, uintptr_t hi) { watched = {lo, hi}; }
int self() { return me_ ? me_->id : -1; }
uint64_t steps() { return step_; }
static void fwait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void handover(Thr* to) {  // give the baton away and wait for it
  Thr* m = me_;
  shm->trace = mix64(shm->trace ^ (m->steps * 64 + (uint64_t)m->id * 8 + (uint64_t)to->id));
  ev("switch", (uint64_t)m->id, (uint64_t)to->id, step_);
  count("sched.switches");
  fwake(&to->go);
  fwait(&m->go);
}
static void* body(void* a) {
  Thr* t = (Thr*)a;
  me_ = t; simheap::harness = 1;
  fwait(&t->go);
  t->fn();
  ++inSched;
  t->done = true;
  ev("done", (uint64_t)t->id, step_);
  Thr* nxt = nullptr;
  for (int i : order_) if (!T[i]->done) { nxt = T[i]; break; }
  if (nxt) fwake(&nxt->go); else fwake(&mainGo);
  return nullptr;
}
static void blocked() {  // the running thread cannot proceed
  if (!on || !me_) return;
  if (++spins > 200000) violation("deadlock", "threads wait for each other forever");
  ++inSched;
  int n = (int)T.size();
  for (int k = 1; k < n; ++k) { Thr* t = T[(me_->id + k) % n]; if (!t->done) { handover(t); break; } }
  --inSched;
}
void point(int, const void* addr, size_t size, bool write) {
  if (!on || !me_ || inSched) return;
  if (addr && onAccess && simheap::harness == 0) { ++inSched; onAccess(addr, size, write); --inSched; }
  ++inSched;
  simheap::Scope hs;
  uint64_t s = step_++;
  me_->steps++; spins = 0;
  if (s > maxSteps) violation("hang.steps", "no end after %llu steps", (unsigned long long)s);
  if (recStat && addr) {
    uintptr_t a = (uintptr_t)addr;
    for (auto& r : statics) if (a >= r.first && a < r.second) { if (shm->nstat < sizeof shm->stat / sizeof shm->stat[0]) shm->stat[shm->nstat++] = s; break; }
    if (write && a >= watched.first && a < watched.second && shm->nstat < sizeof shm->stat / sizeof shm->stat[0]) shm->stat[shm->nstat++] = s;
  }
  while (swi < SW.size() && SW[swi].step <= s) {
    uint32_t to = SW[swi++].to;
    std::vector<Thr*> r;
    for (Thr* t : T) if (!t->done && t != me_) r.push_back(t);
    if (r.empty()) break;
    handover(r[to % r.size()]);
    break;
  }
  --inSched;
  if (!inSig && sgi < SG.size() && SG[sgi].step <= s) {
    Signal g = SG[sgi++];
    inSig = 1;
    count("fault.signal"); ev("signal", (uint64_t)me_->id, s);
    shm->trace = mix64(shm->trace ^ (me_->steps * 64 + 63));
    g.fn();
    inSig = 0;
  }
}
void run(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& sw, const std::vector<Signal>& sig, const std::vector<int>* order, bool rs) {
  simheap::Scope sc;
  T.clear(); SW = sw; SG = sig; swi = sgi = 0; step_ = 0; spins = 0; recStat = rs; mainGo = 0;
  order_.clear();
  if (order) order_ = *order; else for (size_t i = 0; i < bodies.size(); ++i) order_.push_back((int)i);
  for (size_t i = 0; i < bodies.size(); ++i) { Thr* t = new Thr{(int)i, 0, false, false, bodies[i], 0, 0}; T.push_back(t); }
  if (T.empty()) return;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (Thr* t : T) if (pthread_create(&t->th, &at, body, t)) harnessError("pthread_create failed");
  on = true;
  fwake(&T[order_[0]]->go);
  fwait(&mainGo);
  on = false;
  for (Thr* t : T) pthread_join(t->th, nullptr);
  shm->steps += step_;
  for (Thr* t : T) delete t;
  T.clear();
}
}  // namespace simsched
using simsched::point;

// compiler instrumentation of memory accesses (-fsanitize=thread)
#define TSACC(n, sz) \
  EXPORT void __tsan_read##n(void* p) { point(1, p, sz, false); } \
  EXPORT void __tsan_write##n(void* p) { point(1, p, sz, true); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { point(1, p, sz, false); } \
  EXPORT void __tsan_unaligned_write##n(void* p) { point(1, p, sz, true); } \
  EXPORT void __tsan_volatile_read##n(void* p) { point(1, p, sz, false); } \
  EXPORT void __tsan_volatile_write##n(void* p) { point(1, p, sz, true); }
TSACC(1, 1) TSACC(2, 2) TSACC(4, 4) TSACC(8, 8) TSACC(16, 16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { point(1, p, n, false); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { point(1, p, n, true); }
EXPORT void __tsan_vptr_update(void** p, void*) { point(1, p, 8, true); }
EXPORT void __tsan_vptr_read(void** p) { point(1, p, 8, false); }
EXPORT void __tsan_func_entry(void*) { point(0); }
EXPORT void __tsan_func_exit(void) { point(0); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void __tsan_atomic_thread_fence(int) { point(1); __sync_synchronize(); }
EXPORT void __tsan_atomic_signal_fence(int) {}
#define TSAT(B, T) \
  EXPORT T __tsan_atomic##B##_load(const volatile T* a, int) { point(1, (const void*)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int) { point(1, (const void*)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { point(1, (const void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
TSAT(8, unsigned char) TSAT(16, unsigned short) TSAT(32, unsigned int) TSAT(64, unsigned long)

// one-time initialisation and locks: a waiting thread hands the baton on
EXPORT int __cxa_guard_acquire(long long int* g) {
  unsigned char* b = (unsigned char*)g;
  point(1, g, 1, false);
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    if (simsched::self() < 0) return 1;
    simsched::blocked();
  }
}
EXPORT void __cxa_guard_release(long long int* g) { unsigned char* b = (unsigned char*)g; point(1, g, 1, true); b[0] = 1; b[1] = 0; }
EXPORT void __cxa_guard_abort(long long int* g) { ((unsigned char*)g)[1] = 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!simsched::on || simsched::self() < 0) return REAL(pthread_mutex_lock)(m);
  point(1);
  int r;
  while ((r = REAL(pthread_mutex_trylock)(m)) == EBUSY) simsched::blocked();
  return r;
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)(void)) {
  point(1, o, 4, false);
  for (;;) {
    if (*o == 2) return 0;
    if (*o == 0) { *o = 1; f(); *o = 2; return 0; }
    if (simsched::self() < 0) return 0;
    simsched::blocked();
  }
}

// ================================================================== schedules
void genSchedule(Rng& r, PlanText& out, unsigned nthreads) {
  if (nthreads < 2) return;
  switch (r.below(6)) {
    case 0: out.push_back(fmt("swgen mode=few d=%d seed=%llu", (int)r.range(1, 3), (unsigned long long)r.next())); break;
    case 1: out.push_back(fmt("swgen mode=few d=%d seed=%llu", (int)r.range(2, 8), (unsigned long long)r.next())); break;
    case 2: out.push_back(fmt("swgen mode=dense d=%d seed=%llu", (int)r.range(2, 40), (unsigned long long)r.next())); break;
    case 3: out.push_back(fmt("swgen mode=cluster d=%d seed=%llu", (int)r.range(2, 12), (unsigned long long)r.next())); break;
    default: out.push_back(fmt("swgen mode=static d=%d seed=%llu", (int)r.range(1, 6), (unsigned long long)r.next())); break;
  }
}
std::vector<simsched::Switch> makeSchedule(const std::vector<Line>& plan, uint64_t steps, const std::vector<uint64_t>& stat, unsigned nthreads) {
  simheap::Scope hs;
  std::vector<simsched::Switch> sw;
  (void)nthreads;
  for (auto& l : plan) {
    if (l.cmd == "sw") sw.push_back({l.unum("step"), (uint32_t)l.unum("to")});
    if (l.cmd == "swgen") {
      Rng r(l.unum("seed"));
      std::string m = l.str("mode");
      int d = (int)l.num("d", 1);
      uint64_t n = steps ? steps : 1;
      if (m == "dense") {
        for (uint64_t s = r.below((uint64_t)d); s < n + n / 4 && sw.size() < 3000; s += 1 + r.below(2 * (uint64_t)d)) sw.push_back({s, (uint32_t)r.below(16)});
      } else if (m == "cluster") {
        uint64_t c = r.below(n);
        for (int i = 0; i < d; ++i) { sw.push_back({c, (uint32_t)r.below(16)}); c += 1 + r.below(12); }
      } else if (m == "static" && !stat.empty()) {
        for (int i = 0; i < d; ++i) { uint64_t s = stat[r.below(stat.size())] + r.below(3); sw.push_back({s, (uint32_t)r.below(16)}); if (r.chance(1, 2)) sw.push_back({s + 1 + r.below(60), (uint32_t)r.below(16)}); }
      } else {
        for (int i = 0; i < d; ++i) sw.push_back({r.below(n + 1), (uint32_t)r.below(16)});
      }
    }
  }
  std::stable_sort(sw.begin(), sw.end(), [](const simsched::Switch& a, const simsched::Switch& b) { return a.step < b.step; });
  shm->nsw = 0;
  for (auto& s : sw) if (shm->nsw < sizeof shm->sw / sizeof shm->sw[0]) { shm->sw[shm->nsw].step = s.step; shm->sw[shm->nsw].to = s.to; shm->nsw++; }
  return sw;
}

// ================================================================== code under test
static std::string buildDir() { const char* d = getenv("SIM_BUILD"); return d ? d : "/verif/build/cur"; }
static void* lib(const std::string& f) {
  void* h = dlopen((buildDir() + "/" + f).c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) harnessError("cannot load %s: %s", f.c_str(), dlerror());
  return h;
}
static const SutApi* loadApi(const char* f, bool noteStatics) {
  simheap::Scope hs;
  void* h = lib(f);
  auto fn = (const SutApi* (*)())dlsym(h, "sut_api");
  if (!fn) harnessError("no sut_api in %s", f);
  if (noteStatics) {
    struct Q { std::string f; std::vector<std::pair<uintptr_t, uintptr_t>> r; } q;
    q.f = f;
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* a) {
      Q* q = (Q*)a;
      if (!i->dlpi_name || !strstr(i->dlpi_name, q->f.c_str())) return 0;
      for (int k = 0; k < i->dlpi_phnum; ++k) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) q->r.push_back({i->dlpi_addr + p.p_vaddr, i->dlpi_addr + p.p_vaddr + p.p_memsz}); }
      return 0;
    }, &q);
    simsched::setStaticRange(q.r);
  }
  return fn();
}
EXPORT void (*sim_early)(const SutApi*);
void (*sim_early)(const SutApi*) = nullptr;
const SutApi* sutEarly(void (*f)(const SutApi*)) {
  sim_early = f;
  const SutApi* a = loadApi("libsut_early.so", false);
  sim_early = nullptr;
  return a;
}
const SutApi* sutPlain() { static const SutApi* a = loadApi("libsut_plain.so", false); return a; }
const SutApi* sutInstr() { static const SutApi* a = loadApi("libsut_instr.so", true); return a; }
void* toolMain(const char* n) {
  simheap::Scope hs;
  void* h = lib(std::string("tool_") + n + ".so");
  void* m = dlsym(h, "main");
  if (!m) harnessError("no main in %s", n);
  return m;
}
namespace {
void screenFailed() { simheap::Scope h; static bool said; if (!said) count("fault.screen_fails"); said = true; }
struct Sink : std::streambuf {
  std::string s; bool keep = true; long failAt = -1;
  bool full(std::streamsize n) const { return failAt >= 0 && (long)s.size() + n > failAt; }
  int overflow(int c) override { if (full(1)) { screenFailed(); return EOF; } if (keep && c != EOF) { simheap::Scope h; s.push_back((char)c); } return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { if (full(n)) { screenFailed(); n = failAt - (long)s.size(); } if (keep) { simheap::Scope h; s.append(p, (size_t)n); } return n; }
};
}
static Sink* mute_;
// what the code under test shows with the C library goes the same way
static ssize_t ckShow(void*, const char* b, size_t n) { std::streambuf* s = std::cout.rdbuf(); return s ? (ssize_t)std::max<std::streamsize>(0, s->sputn(b, (std::streamsize)n)) : (ssize_t)n; }
void ownStdio() {
  simheap::Scope h;
  cookie_io_functions_t io = {nullptr, ckShow, nullptr, nullptr};
  FILE* f = fopencookie(nullptr, "w", io);
  setvbuf(f, nullptr, _IONBF, 0);
  stdout = f;
}
void muteStdout() { simheap::Scope h; if (!mute_) { mute_ = new Sink; mute_->keep = false; } std::cout.rdbuf(mute_); std::cerr.rdbuf(mute_); }
std::string captureStdout(const std::function<void()>& f) {
  simheap::Scope h;
  Sink s;
  std::streambuf* old = std::cout.rdbuf(&s);
  std::ios keep(nullptr), fresh(nullptr);
  keep.copyfmt(std::cout);
  std::cout.copyfmt(fresh);
  std::cout.clear();
  f();
  std::cout.copyfmt(keep);
  std::cout.rdbuf(old);
  return s.s;
}
static Sink* tap_;
static std::streambuf* untap_;
void tapStdout(long failAt) {
  simheap::Scope h;
  tap_ = new Sink;
  tap_->failAt = failAt;
  untap_ = std::cout.rdbuf(tap_);
  std::ios fresh(nullptr);
  std::cout.copyfmt(fresh);
  std::cout.clear();
}
size_t tapped() { return tap_ ? tap_->s.size() : 0; }
std::string untapStdout() {
  simheap::Scope h;
  std::string s = tap_->s;
  std::cout.clear();
  std::cout.rdbuf(untap_);
  std::ios fresh(nullptr);
  std::cout.copyfmt(fresh);
  delete tap_;
  tap_ = nullptr;
  return s;
}
