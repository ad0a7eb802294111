// Generator world: the script that writes the source of the array function library, run by the real interpreter in a
// scratch directory whose system calls meet the faults of the plan (sim/genshim.c).  Property P26.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include "genshim.h"
#include "simos.h"

typedef long long ll;
typedef std::map<std::string, std::string> Files;   // directories have the content "/"

// ---------------------------------------------------------------- scratch directory
static std::string root;
static std::string slurp(const std::string& p) {
  std::string r;
  int fd = (int)syscall(SYS_open, p.c_str(), O_RDONLY | O_NOFOLLOW, 0);
  if (fd < 0) return r;
  char b[65536];
  for (long n; (n = syscall(SYS_read, fd, b, sizeof b)) > 0;) r.append(b, (size_t)n);
  syscall(SYS_close, fd);
  return r;
}
static void spill(const std::string& p, const std::string& s) {
  int fd = (int)syscall(SYS_open, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_NOFOLLOW, 0644);
  if (fd < 0 || syscall(SYS_write, fd, s.data(), s.size()) != (long)s.size()) harnessError("cannot write in the scratch directory");
  syscall(SYS_close, fd);
}
static void list(const std::string& d, const std::string& rel, Files& out) {
  DIR* dp = opendir(d.c_str());
  if (!dp) return;
  while (struct dirent* e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n, r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (syscall(SYS_lstat, p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { out[r] = "/"; list(p, r, out); }
    else out[r] = "=" + slurp(p);
  }
  closedir(dp);
}
static Files snapshot() { Files f; list(root, "", f); return f; }
static void wipe() {
  if (root.size() < 10 || root.find("/g-") == std::string::npos) harnessError("no scratch directory");
  Files f = snapshot();
  for (auto i = f.rbegin(); i != f.rend(); ++i) syscall(i->second == "/" ? SYS_rmdir : SYS_unlink, (root + "/" + i->first).c_str());
  syscall(SYS_rmdir, root.c_str());
}
static const std::vector<std::string> DIRS = {"w", "out", "out/deep", "d e", "sources_100%d", "h\xc3\xb6he"};
static const char* TARGET = "vdtMath_signatures.cc";
static void setUp() {
  const char* s = getenv("SIM_SCRATCH");
  if (!s || !*s) harnessError("no scratch directory");
  char real[4096];
  if (!realpath(s, real)) harnessError("no scratch directory");
  root = fmt("%s/g-%d", real, (int)syscall(SYS_getpid));
  wipe();
  syscall(SYS_mkdir, root.c_str(), 0755);
  for (auto& d : DIRS) syscall(SYS_mkdir, (root + "/" + d).c_str(), 0755);
  syscall(SYS_mkdir, (root + "/tmp").c_str(), 0755);
  // other files that nobody may touch
  for (auto& d : DIRS) { spill(root + "/" + d + "/vdtMath.h", "// not yours\n"); spill(root + "/" + d + "/vdtMath_signatures.h", ""); spill(root + "/" + d + "/vdtMath_signatures.cc.orig", "old\n"); }
}

// ---------------------------------------------------------------- one run of the script
struct Result { int status = 0, sig = 0; GenShm r; };
static std::string script() {
  const char* r = getenv("SIM_REPO");
  return std::string(r ? r : "/repo") + "/src/signatures_generator.py";
}
static Result runScript(const std::vector<std::string>& args, const std::string& cwd, const std::vector<std::string>& env, int mask, const GenFaults& f) {
  int fd = (int)syscall(SYS_memfd_create, "gen", 0);
  if (fd < 0 || ftruncate(fd, sizeof(GenShm))) harnessError("no memory file");
  GenShm* m = (GenShm*)mmap(nullptr, sizeof(GenShm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) harnessError("no memory file");
  m->f = f; m->hash = 99;
  const char* lib = getenv("SIM_SHIM");
  std::vector<std::string> e = env, a = {"python3", "-S", "-B", script()};
  a.insert(a.end(), args.begin(), args.end());
  e.push_back(std::string("LD_PRELOAD=") + (lib ? lib : ""));
  e.push_back("GENSHIM_ROOT=" + root);
  e.push_back(fmt("GENSHIM_FD=%d", fd));
  e.push_back(std::string("PATH=") + (getenv("PATH") ? getenv("PATH") : "/usr/bin:/bin"));
  e.push_back("HOME=" + root + "/tmp"); e.push_back("TMPDIR=" + root + "/tmp");
  pid_t p = fork();
  if (p < 0) harnessError("fork failed");
  if (p == 0) {
    std::vector<char*> av, ev;
    for (auto& s : a) av.push_back(&s[0]);
    for (auto& s : e) ev.push_back(&s[0]);
    av.push_back(nullptr); ev.push_back(nullptr);
    if (syscall(SYS_chdir, (root + "/" + cwd).c_str())) _exit(98);
    umask((mode_t)mask);
    int n = (int)syscall(SYS_open, "/dev/null", O_RDWR, 0);
    dup2(n, 0); dup2(n, 1); if (!g_verbose) dup2(n, 2);
    execvpe("python3", av.data(), ev.data());
    _exit(98);
  }
  int st;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) harnessError("waitpid failed");
  Result r;
  if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.status = WEXITSTATUS(st);
  memcpy(&r.r, m, sizeof r.r);
  munmap(m, sizeof(GenShm)); syscall(SYS_close, fd);
  if (r.status == 97 || r.status == 98) harnessError("the interpreter could not be started");
  if (r.sig == SIGXCPU) violation("hang.cpu", "the generator does not end");
  if (r.sig == SIGALRM) raise(SIGALRM);
  return r;
}
static GenFaults noFaults() { GenFaults f; memset(&f, 0, sizeof f); f.crash = f.crashcall = f.enospc = f.weio = f.open = f.close = -1; return f; }

struct GenWorld : World {
  std::string ref[2];
  void init(const std::string&) override {
    setUp();
    for (int p = 0; p < 2; ++p) {
      GenFaults f = noFaults();
      f.pid = 4242; f.now = 1700000000; f.entropy = 5;
      Files before = snapshot();
      Result r = runScript(p ? std::vector<std::string>{"-p"} : std::vector<std::string>{}, "w", {"LC_ALL=C", "PYTHONHASHSEED=0", "TZ=UTC"}, 022, f);
      if (r.status || r.sig) harnessError("the generator fails in an empty directory (status %d, signal %d)", r.status, r.sig);
      std::string t = root + "/w/" + TARGET;
      ref[p] = slurp(t);
      if (ref[p].empty()) harnessError("the generator wrote nothing in an empty directory");
      syscall(SYS_unlink, t.c_str());
      setUp();
    }
    wipe();
  }
  void gen(const std::string&, uint64_t seed, int, uint64_t index, PlanText& out) override {
    Rng r(mix64(seed * 26 + 26) ^ mix64(index * 2 + 1));
    int n = (int)r.range(1, 5);
    std::vector<std::string> dirs;
    for (int k = (int)r.range(1, 2); k; --k) dirs.push_back(r.chance(1, 2) ? "w" : r.pick(DIRS));
    std::string last = dirs[0];
    for (int i = 0; i < n; ++i) {
      if (r.chance(1, 2)) {
        static const char* kinds[] = {"part", "long", "other", "same", "empty", "foreign", "gone", "zeros", "changed"};
        static const char* times[] = {"", " mt=1000000000", " mt=4000000000", " mt=0"};
        out.push_back(fmt("left dir=%s kind=%s at=%llu pre=%d%s", enc(r.pick(dirs)).c_str(), kinds[r.below(9)], (unsigned long long)r.below(1ull << 40), (int)r.below(2), times[r.below(4)]));
      }
      std::string d = r.pick(dirs), f;
      bool final = i == n - 1;
      if (!final && r.chance(1, 12)) d = "missing";
      if (final) d = last;
      if (i == 0 && d != "missing") last = d;
      if (r.chance(1, 2)) f += fmt(" wchunk=%d", (int)(r.chance(1, 3) ? 1 + r.below(40) : 1 + r.below(9000))) + (r.chance(1, 2) ? fmt(" vary=%d", (int)r.range(1, 1000000)) : std::string());
      if (r.chance(1, 4)) f += fmt(" eintr=%d", (int)r.range(2, 5));
      if (!final && r.chance(3, 4)) switch (r.below(8)) {
        case 0: case 1: f += fmt(" crashat=%llu", (unsigned long long)r.below(1ull << 40)); break;
        case 2: f += fmt(" crashcall=%d", (int)r.below(8)); break;
        case 3: case 4: f += fmt(" enospcat=%llu", (unsigned long long)r.below(1ull << 40)); break;
        case 5: f += fmt(" weioat=%llu", (unsigned long long)r.below(1ull << 40)); break;
        case 6: f += fmt(" open=%d openall=%d openerr=%d", (int)r.below(2), (int)r.below(2), (int)r.pick(std::vector<int>{EACCES, EMFILE, ENOSPC, EROFS})); break;
        case 7: f += " close=0"; break;
      }
      static const char* locs[] = {"C", "C.UTF-8", "POSIX", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE"};
      static const char* zones[] = {"UTC", "Asia/Tokyo", "America/New_York"};
      out.push_back(fmt("gen dir=%s p=%d form=%d cwd=%s hs=%d loc=%s tz=%s now=%lld pid=%d ent=%d um=%d", enc(d).c_str(), (int)r.below(2), (int)r.below(4), enc(r.pick(DIRS)).c_str(), (int)(r.chance(1, 2) ? 0 : r.range(1, 4000000)), locs[r.below(6)], zones[r.below(3)],
                        (ll)r.range(1, 4000000000ll), (int)r.range(2, 4000000), (int)r.below(1000000), (int)r.pick(std::vector<int>{022, 077, 0, 027})) + f);
    }
  }
  void exec(const std::string&, const std::vector<Line>& plan) override {
    setUp();
    std::set<std::string> loose;   // left by runs that failed, may come and go
    bool dirty = false;
    for (auto& l : plan) {
      std::string dir = dec(l.str("dir", "w")), rel = dir + "/" + TARGET, t = root + "/" + rel;
      if (dir != "missing" && std::find(DIRS.begin(), DIRS.end(), dir) == DIRS.end()) continue;
      if (l.cmd == "left" && dir != "missing") {
        std::string k = l.str("kind"), c = ref[l.num("pre") & 1];
        uint64_t at = l.unum("at");
        if (k == "part") c.resize(at % c.size());
        else if (k == "long") { std::string x = c; for (uint64_t i = 0; i < 1 + at % 4; ++i) c += x; }
        else if (k == "empty") c.clear();
        else if (k == "foreign") c = "int main(){}\n";
        else if (k == "zeros") std::fill(c.begin() + (long)(at % c.size()), c.end(), '\0');
        else if (k == "changed") c[at % c.size()] ^= 1;
        if (k == "gone") syscall(SYS_unlink, t.c_str()); else spill(t, c);
        if (k != "gone" && l.has("mt")) { struct timespec ts[2] = {{(time_t)l.num("mt"), 0}, {(time_t)l.num("mt"), 0}}; syscall(SYS_utimensat, AT_FDCWD, t.c_str(), ts, 0); }
        ev("left", hashBytes(c.data(), c.size()), k.size());
        count(("leftover." + k).c_str());
        dirty = true;
        continue;
      }
      if (l.cmd != "gen") continue;
      int p = (int)l.num("p") & 1;
      std::string cwd = dec(l.str("cwd", "w"));
      if (std::find(DIRS.begin(), DIRS.end(), cwd) == DIRS.end()) cwd = "w";
      std::vector<std::string> args;
      std::string up = cwd == "out/deep" ? "../../" : "../";
      switch (l.num("form") & 3) {
        case 0: if (dir != "missing") { cwd = dir; break; }
        case 1: args = {"-o", up + dir}; break;
        case 2: args = {"-o" + up + dir + "/"}; break;
        case 3: args = {"-o", root + "/" + dir}; break;
      }
      if (p) args.insert(l.num("pid") & 1 ? args.begin() : args.end(), "-p");
      uint64_t size = ref[p].size();
      GenFaults f = noFaults();
      f.wchunk = l.num("wchunk"); f.vary = l.num("vary"); f.eintr = l.num("eintr");
      if (l.has("crashat")) f.crash = (long)(l.unum("crashat") % (size + 1));
      if (l.has("enospcat")) f.enospc = (long)(l.unum("enospcat") % (size + 1));
      if (l.has("weioat")) f.weio = (long)(l.unum("weioat") % (size + 1));
      f.crashcall = l.num("crashcall", -1); f.open = l.num("open", -1); f.openall = l.num("openall"); f.openerr = (int)l.num("openerr", EACCES); f.close = l.num("close", -1);
      f.now = l.num("now", 1700000000); f.pid = l.num("pid", 77); f.entropy = l.num("ent");
      Files before = snapshot();
      Result r = runScript(args, cwd, {"LC_ALL=" + l.str("loc", "C"), "TZ=" + l.str("tz", "UTC"), "PYTHONHASHSEED=" + l.str("hs", "0")}, (int)l.num("um", 022), f);
      Files after = snapshot();
      int hard = r.r.fired & (GF_CRASH | GF_FULL | GF_EIO | GF_OPEN | GF_CLOSE);
      if (dir == "missing" && !before.count(dir)) { hard |= 1 << 20; count("fault.missing_directory"); }
      shm->trace = mix64(shm->trace ^ r.r.hash ^ (uint64_t)(r.r.fired << 8) ^ (uint64_t)p);
      static const struct { int bit; const char* name; } names[] = {{GF_CRASH, "fault.crash"}, {GF_FULL, "fault.disk_full"}, {GF_EIO, "fault.write_error"}, {GF_OPEN, "fault.open_fails"}, {GF_CLOSE, "fault.close_fails"}, {GF_SHORT, "fault.short_write"}, {GF_EINTR, "fault.interrupted_transfer"}};
      for (auto& n : names) if (r.r.fired & n.bit) count(n.name);
      std::string got = after.count(rel) ? after[rel].substr(1) : "";
      std::string shown = got;
      for (size_t k; (k = shown.find(root)) != std::string::npos;) shown.replace(k, root.size(), "@");
      ev("gen", (uint64_t)(r.status * 256 + r.sig), (uint64_t)r.r.fired, hashBytes(shown.data(), shown.size()));
      if ((r.r.fired & GF_OUTSIDE) && !hard) violation("gen.outside", "the generator tried to change %s", strncmp(r.r.outside, root.c_str(), root.size()) ? r.r.outside : r.r.outside + root.size());
      if (!(hard & GF_CRASH) && r.sig) violation("gen.died", "the generator died with signal %d", r.sig);
      bool ok = !r.sig && !r.status, whole = after.count(rel) && got == ref[p];
      if (!hard && !ok) violation("gen.failed", "nothing failed, but the generator ended with status %d", r.status);
      if (ok && !whole) {
        size_t k = 0; while (k < got.size() && k < size && got[k] == ref[p][k]) ++k;
        violation(hard ? "gen.silent" : "gen.content", "the generator ended with success%s, but its file (%zu bytes) is not that of a first run (%zu bytes), first difference at byte %zu", hard ? " in spite of a failure" : "", got.size(), (size_t)size, k);
      }
      for (auto& x : before) if (x.first != rel && !loose.count(x.first)) {
        if (!after.count(x.first)) violation("gen.other_file", "the generator removed %s", x.first.c_str());
        if (after[x.first] != x.second) violation("gen.other_file", "the generator changed %s", x.first.c_str());
      }
      for (auto& x : after) if (x.first != rel && !before.count(x.first)) {
        if (hard) loose.insert(x.first);
        else if (!loose.count(x.first)) violation("gen.other_file", "the generator left a new file %s", x.first.c_str());
      }
      count(ok ? "gen.succeeded" : r.sig ? "gen.killed" : "gen.reported_failure");
      if (ok && dirty) { count("gen.over_leftovers"); shm->nontrivial = 1; }
      if (!ok) dirty = true;
    }
    wipe();
  }
};
World* genWorld() { static GenWorld w; return &w; }
