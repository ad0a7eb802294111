// Tool world: the programs of the project as simulated processes.
// Properties P14 (response benchmark), P15 (comparison), P16 (performance),
// P24 (all of them on a screen that fails), P27 (all of them in one directory),
// P29 (at the same time).
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <regex>
#include <set>
#include <sstream>
#include "diag.h"

typedef int (*Main)(int, char**);
typedef long long ll;

// ---------------------------------------------------------------- processes
struct Proc {
  Main fn; std::vector<std::string> argv;
  simfs::Faults faults; std::vector<std::string> denied;
  simfs::Disk in;
  bool clock = false, countOnly = false;
  long screen = -1;       // the screen fails after this many characters
  // results
  bool ended = false, crashed = false; int ret = 0; std::string died, out; simfs::Disk disk; simfs::Fired fired; long wbytes = 0, calls = 0;
  std::vector<int64_t> readings;
  void results(In& in);
};
static Proc* cur_;
static std::string* capture_;
static std::vector<int64_t> readings_;
static void report(int how, int ret, const std::string& why, const std::string& out) {
  simheap::Scope hs;
  simfs::Fired f = simfs::end();
  Out o;
  o.u64((uint64_t)how); o.u64((uint64_t)ret); o.str(why); o.str(out);
  o.u64(f.failed()); o.u64((uint64_t)f.wbytes); o.u64((uint64_t)f.calls);
  simfs::Disk d = simfs::disk();
  o.u64(d.size());
  for (auto& x : d) { o.str(x.first); o.str(x.second); }
  o.u64(readings_.size());
  if (!readings_.empty()) o.raw(readings_.data(), readings_.size() * 8);
}
static void (*reported_)();   // if set, called when the results of a process are complete
static void body(void* a) {
  Proc* p = (Proc*)a;
  cur_ = p;
  if (!reported_) { simfs::reset(); simfs::setDisk(p->in); }
  simfs::countOnly = p->countOnly;
  for (auto& d : p->denied) simfs::deny(d);
  simfs::onCrash = []() { report(1, 0, "", ""); if (reported_) reported_(); simExit(); };
  readings_.clear();
  if (p->clock) simclk::readings = &readings_;
  std::vector<char*> av;
  std::vector<std::string> args = p->argv;
  for (auto& s : args) av.push_back(&s[0]);
  av.push_back(nullptr);
  simfs::begin(p->faults);
  std::string why;
  int ret = 0;
  auto go = [&]() {
    simheap::SutScope s;
    try { ret = p->fn((int)args.size(), av.data()); }
    catch (const std::exception& e) { simheap::Scope h; why = fmt("an exception escaped: %s", e.what()); }
    catch (...) { simheap::Scope h; why = "an unknown exception escaped"; }
  };
  std::string out;
  if (p->screen >= 0) { tapStdout(p->screen); go(); out = untapStdout(); }
  else out = captureStdout(go);
  report(0, ret, why, out);
  if (reported_) reported_();
}
static void runProc(Proc& p) {
  int sig = 0;
  std::vector<unsigned char> b = forked(body, &p, &sig, true);
  if (sig || b.empty()) { p.died = sig > 0 ? fmt("signal %d", sig) : fmt("exit with status %d", -sig); if (sig == SIGXCPU || sig == SIGKILL) violation("hang.cpu", "the program does not end"); return; }
  In in(b);
  p.results(in);
}
void Proc::results(In& in) {
  uint64_t how = in.u64();
  ret = (int)in.u64(); died = in.str(); out = in.str();
  ended = how == 0 && died.empty(); crashed = how == 1;
  in.u64(); wbytes = (long)in.u64(); calls = (long)in.u64();
  for (uint64_t n = in.u64(); n; --n) { std::string k = in.str(); disk[k] = in.str(); }
  readings.resize(in.u64());
  for (auto& r : readings) r = (int64_t)in.u64();
}

// Several simulated processes on one disk.  One of them runs at a time; before
// chosen file system calls it hands the disk over to another one.
struct Mesh {
  int turn; unsigned n; int done[4];
  uint64_t step, nsw, next, blocked; struct { uint64_t at; uint32_t to; } sw[4096];
  size_t outlen[4], len;
  unsigned char out[4][24u << 20];
  char disk[64u << 20];
};
static Mesh* mesh_;
static int me_ = -1;
static void waitTurn() { for (;;) { int t = __atomic_load_n(&mesh_->turn, __ATOMIC_ACQUIRE); if (t == me_) break; syscall(SYS_futex, &mesh_->turn, FUTEX_WAIT, t, nullptr, nullptr, 0); } }
static void give(int to) { __atomic_store_n(&mesh_->turn, to, __ATOMIC_RELEASE); syscall(SYS_futex, &mesh_->turn, FUTEX_WAKE, 100, nullptr, nullptr, 0); }
static void putDisk() { std::string d = simfs::pack(); if (d.size() > sizeof mesh_->disk) harnessError("disk too large"); memcpy(mesh_->disk, d.data(), d.size()); mesh_->len = d.size(); }
static int another(uint32_t k) {   // another process that has not ended, or -1
  std::vector<int> r;
  for (unsigned i = 0; i < mesh_->n; ++i) if ((int)i != me_ && !mesh_->done[i]) r.push_back((int)i);
  return r.empty() ? -1 : r[k % r.size()];
}
static void meshCall() {
  simheap::Scope hs;
  uint64_t s = mesh_->step++;
  if (mesh_->next >= mesh_->nsw || mesh_->sw[mesh_->next].at > s) return;
  uint32_t k = mesh_->sw[mesh_->next].to;
  while (mesh_->next < mesh_->nsw && mesh_->sw[mesh_->next].at <= s) ++mesh_->next;
  int to = another(k);
  if (to < 0) return;
  ev("process", (uint64_t)me_, (uint64_t)to, s); count("mesh.switches");
  shm->trace = mix64(shm->trace ^ (s * 16 + (uint64_t)to));
  putDisk();
  give(to); waitTurn();
  simfs::unpack(mesh_->disk, mesh_->len);
}
static bool meshBlock() {   // this process waits for another one
  simheap::Scope hs;
  if (++mesh_->blocked > 20000) return false;
  int to = another((uint32_t)(mesh_->blocked / 3));
  if (to < 0) return false;
  ev("process.waits", (uint64_t)me_, (uint64_t)to, mesh_->step); count("mesh.waits");
  putDisk();
  give(to); waitTurn();
  simfs::unpack(mesh_->disk, mesh_->len);
  return true;
}
static void meshDone() {
  simheap::Scope hs;
  simfs::atCall = nullptr; simfs::onBlock = nullptr;
  simfs::unlockAll(-1);
  if (shm->outlen > sizeof mesh_->out[0]) harnessError("results of a process too large");
  memcpy(mesh_->out[me_], shm->out, shm->outlen); mesh_->outlen[me_] = shm->outlen;
  shm->outlen = 0;
  putDisk();
  mesh_->done[me_] = 1;
  ev("process.end", (uint64_t)me_, mesh_->step);
  give(another(0));
  simExit();
}
static void runProcs(std::vector<Proc>& ps, const simfs::Disk& in, const std::vector<std::pair<uint64_t, uint32_t>>& sw, simfs::Disk& after) {
  simheap::Scope hs;
  if (!mesh_) { void* m = mmap(nullptr, sizeof(Mesh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) harnessError("no memory for several processes"); mesh_ = (Mesh*)m; }
  simfs::reset(); simfs::setDisk(in);
  shm->outlen = 0;
  mesh_->n = (unsigned)std::min<size_t>(4, ps.size()); mesh_->step = mesh_->next = mesh_->blocked = 0; mesh_->nsw = 0;
  for (auto& s : sw) if (mesh_->nsw < 4096) { mesh_->sw[mesh_->nsw].at = s.first; mesh_->sw[mesh_->nsw++].to = s.second; }
  putDisk();
  mesh_->turn = -2;
  std::vector<pid_t> pid;
  for (unsigned i = 0; i < mesh_->n; ++i) {
    mesh_->done[i] = 0; mesh_->outlen[i] = 0;
    int no = ++shm->procs;
    pid_t p = fork();
    if (p < 0) harnessError("fork failed");
    if (p == 0) {
      g_procNo = no; simheap::moveArena(no); simclk::real += no * 1370000000ll; simclk::mono += no * 770000000ll;
      me_ = (int)i;
      waitTurn();
      simfs::reset(); simfs::ownInodes((uint64_t)(i + 1) << 40);
      simfs::unpack(mesh_->disk, mesh_->len);
      simfs::atCall = meshCall; simfs::onBlock = meshBlock; simfs::owner = (int)i + 1; reported_ = meshDone;
      body(&ps[i]);
      _exit(0);
    }
    pid.push_back(p);
  }
  give(0);
  for (size_t left = pid.size(); left; --left) {
    int st;
    pid_t p;
    while ((p = waitpid(-1, &st, 0)) < 0) if (errno != EINTR) harnessError("waitpid failed");
    size_t i = 0; while (i < pid.size() && pid[i] != p) ++i;
    if (i == pid.size()) { ++left; continue; }
    pid[i] = 0;
    if (mesh_->done[i] && shm->status < 2) continue;
    for (auto q : pid) if (q) { kill(q, SIGKILL); waitpid(q, nullptr, 0); }
    if (shm->status >= 2) _exit(0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) raise(SIGALRM);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) violation("hang.cpu", "a program does not end while others run");
    violation("mesh.died", "%s died while other tools were running: %s %d", ps[i].argv[0].c_str(), WIFSIGNALED(st) ? "signal" : "exit with status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  }
  for (unsigned i = 0; i < mesh_->n; ++i) { std::vector<unsigned char> b(mesh_->out[i], mesh_->out[i] + mesh_->outlen[i]); In q(b); ps[i].results(q); }
  simfs::unpack(mesh_->disk, mesh_->len);
  after = simfs::disk();
}
static std::vector<std::string> linesOf(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
static std::vector<std::string> wordsOf(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (i >> l) v.push_back(l); return v; }
static bool number(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789+-.naif") == std::string::npos; }
static std::string joined(const std::vector<std::string>& w, size_t from = 0) { std::string s; for (size_t i = from; i < w.size(); ++i) s += (i > from ? " " : "") + w[i]; return s; }
static std::string unsignedNan(std::string s) { size_t k; while ((k = s.find("-nan")) != std::string::npos) s.erase(k, 1); return s; }

// options in any order, with short or long names
struct Opt { const char *s, *l; std::string v; };
static std::vector<std::string> cmdLine(const char* tool, std::vector<Opt> o, uint64_t how) {
  if (how) { Rng r(how); for (size_t i = o.size(); i-- > 1;) std::swap(o[i], o[r.below(i + 1)]); }
  std::vector<std::string> a = {tool};
  for (size_t i = 0; i < o.size(); ++i) a.push_back(std::string((mix64(how) >> i) & 1 && how ? o[i].l : o[i].s) + "=" + o[i].v);
  return a;
}
static std::vector<std::string> benchArgs(const Line& l) {
  std::vector<Opt> o = {{"-n", "--nick", l.str("nick")}};
  if (l.num("size") != 50000) o.push_back({"-s", "--size", l.str("size")});   // the default otherwise
  return cmdLine("vdtArithmBenchmark", o, l.unum("opt"));
}
static std::vector<std::string> compArgs(const Line& l, const std::string& R, const std::string& T) { return cmdLine("vdtArithmComparison", {{"-n", "--nick", l.str("nick")}, {"-R", "--reference", R}, {"-T", "--test", T}}, l.unum("opt")); }

// ---------------------------------------------------------------- names
static const char* const BASES[] = {"Identity", "Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt", "Inverse",
  "Fast_Exp", "Fast_Log", "Fast_Sin", "Fast_Cos", "Fast_Tan", "Fast_Tanh", "Fast_Asin", "Fast_Acos", "Fast_Atan", "Fast_Isqrt", "Fast_Inv", "Fast_Apr_Isqrt", "Fast_Apr_Inv"};
static const char* const SUFFIX[] = {"", "f", "v", "fv"};
static std::vector<std::string> names(bool identity2D) {
  std::vector<std::string> v;
  for (auto s : SUFFIX) {
    for (auto b : BASES) v.push_back(std::string(b) + s);
    v.push_back(std::string("Atan2") + s);
    v.push_back(std::string("Fast_Atan2") + s);
    if (identity2D) v.push_back(std::string("Identity2D") + s);
  }
  return v;
}
// the function behind a name, or null
static const SutFun* funOf(const std::string& n) {
  std::string l;
  for (char c : n) l += (char)tolower(c);
  size_t k;
  if ((k = l.find("_apr_")) != std::string::npos) l.replace(k, 5, "_approx_");
  if (!l.compare(0, 7, "inverse")) l = "inv" + l.substr(7);
  const SutApi* a = sutPlain();
  for (int i = 0; i < a->nfun; ++i) if (l == a->funs[i].name) return &a->funs[i];
  for (int i = 0; i < a->nfun; ++i) if (l == std::string(a->funs[i].name) + "v") return &a->funs[i];
  return nullptr;
}

struct ToolWorld : World {
  Main fn = nullptr, tools[3];
  Cal cal1, cal2;
  std::string prop_;
  void init(const std::string& p) override {
    muteStdout();
    prop_ = p;
    if (p == "P24" || p == "P27" || p == "P29") { tools[0] = (Main)toolMain("vdtArithmBenchmark"); tools[1] = (Main)toolMain("vdtArithmComparison"); tools[2] = (Main)toolMain("vdtPerfBenchmark"); sutPlain(); return; }
    fn = (Main)toolMain(p == "P14" ? "vdtArithmBenchmark" : p == "P15" ? "vdtArithmComparison" : "vdtPerfBenchmark");
    if (p != "P16") sutPlain();
  }
  static std::string nickOf(Rng& r, bool dirs = true) {
    static const char* const n[] = {"a", "b", "run1", "run1__Exp", "run", "x.y", "a__Sin__response.txt", "libm-1", "A_b", "nick", "Atan2", "v=2", "dir/run", "dir/sub/Fast_1"};
    return n[r.below(dirs ? 14 : 12)];
  }
  void gen(const std::string& prop, uint64_t seed, int tier, uint64_t index, PlanText& out) override {
    Rng r(mix64(seed * 1000003 + index) ^ hashBytes(prop.data(), prop.size()));
    if (prop == "P24") {
      int tool = (int)r.below(3);
      gen(fmt("P%d", 14 + tool), r.next(), tier, index, out);
      // several failures of the same run; most of them inside the text
      std::string at;
      for (int i = 0, e = (int)r.range(1, 3); i < e; ++i) out.push_back(fmt("screen tool=%d at=%d", tool, r.chance(1, 6) ? 0 : (int)r.below(1000000)));
      return;
    }
    if (prop == "P27") { genChain(r, out); return; }
    if (prop == "P29") { genMesh(r, out); return; }
    if (prop == "P14") {
      std::string nick = nickOf(r);
      // one run with more records than 16 bits count
      if (index % 4096 == 8 && (tier || index < 4096)) { out.push_back(fmt("cfg nick=%s size=%d fill=%d opt=%d big=50000", nick.c_str(), (int)r.range(1, 9), (int)r.below(256), (int)r.below(100))); return; }
      if (index % 4096 == 7 && (tier || index < 4096)) { out.push_back(fmt("cfg nick=%s size=%d fill=%d opt=%d big=%d", nick.c_str(), (int)r.range(1, 9), (int)r.below(256), (int)r.below(100), (int)(65536 + r.below(3000)))); return; }
      int size = (int)(r.chance(1, 12) ? 0 : r.chance(1, 6) ? r.range(20, 400) : r.chance(1, 150) ? r.range(1000, 4200) : r.range(1, 12));
      size = (int)r.special((uint64_t)size);
      out.push_back(fmt("cfg nick=%s size=%d fill=%d opt=%d", nick.c_str(), size, (int)r.below(256), (int)r.below(100)));
      for (int i = 0, e = (int)r.below(4); i < e; ++i) out.push_back(fmt("other nick=%s what=%d vseed=%llu", nickOf(r).c_str(), (int)r.below(120), (unsigned long long)r.below(1000)));
      for (int i = 0, e = (int)r.range(1, 4); i < e; ++i) {
        std::string f;
        switch (r.below(7)) {
          case 0: f = ""; break;
          case 1: case 2: f = fmt(" crashat=%d", (int)r.below(1000000)); break;
          case 3: f = fmt(" crashcallat=%d", (int)r.below(1000000)); break;
          case 4: f = fmt(" enospcat=%d", (int)r.below(1000000)); break;
          case 5: f = fmt(" weioat=%d", (int)r.below(1000000)); break;
          default: f = fmt(" openfail=%d openall=%d", (int)r.below(108), (int)r.below(2));
        }
        if (r.chance(1, 4)) f += fmt(" wchunk=%d vary=%d", 1 + (int)r.below(500), (int)r.below(100));
        bool same = r.chance(3, 4);
        out.push_back(fmt("run nick=%s size=%d opt=%d", same ? nick.c_str() : nickOf(r).c_str(), r.chance(3, 4) ? size : (int)r.below(30), (int)r.below(100)) + f);
      }
    } else if (prop == "P15") {
      out.push_back(fmt("cfg nick=%s fill=%d stale=%d opt=%d", nickOf(r, false).c_str(), (int)r.below(256), (int)r.below(2), (int)r.below(100)) + (r.chance(1, 3) ? fmt(" wchunk=%d vary=%d", 1 + (int)r.below(300), (int)r.below(100)) : std::string()) + (r.chance(1, 3) ? fmt(" rchunk=%d", 1 + (int)r.below(300)) : std::string()) + (r.chance(1, 4) ? fmt(" eintr=%d", (int)r.range(2, 9)) : std::string()));
      static const char* const b[] = {"Exp", "Log", "Sin", "Cos", "Tan", "Asin", "Inv", "Apr_Inv", "Isqrt", "Atan2", "Atan", "Identity"};
      int bad = (int)r.below(3);   // none, few, many
      int many = r.chance(1, 30), huge = r.chance(1, 60), lots = index % 1024 == 9;
      if (lots) many = huge = 0;
      for (int i = 0, e = (int)(lots ? r.range(250, 300) : many ? r.range(7, 40) : r.range(1, 6)); i < e; ++i) {
        int isd = (int)r.below(2);
        std::string base = b[r.below(12)];
        std::string suf = std::string(isd ? "" : "f") + (r.chance(1, 4) ? "v" : "");
        const char* pre[] = {"", "Fast_", "VC_"};
        std::string p1 = base == "Apr_Inv" ? "Fast_" : pre[r.below(3)], p2 = base == "Apr_Inv" ? "Fast_" : pre[r.below(3)];
        int rn = (int)r.below(many ? 30 : 3), tn = 3 + (int)r.below(many ? 30 : 3);
        if (lots) { rn = i; tn = 1000 + i; }
        std::string miss = "none";
        if (bad && r.chance((unsigned)bad, 4)) { const char* m[] = {"ref", "test", "refdeny", "testdeny", "refempty", "refhead", "refcut", "testcut", "bothcut"}; miss = m[r.below(9)]; }
        out.push_back(fmt("pair rs=%d ts=%d ref=%s%s%s test=%s%s%s rn=%d tn=%d isd=%d n=%d vseed=%llu plain=%d miss=%s at=%d", (int)r.below(10), (int)r.below(10), p1.c_str(), base.c_str(), suf.c_str(), p2.c_str(), base.c_str(), suf.c_str(), rn, tn, isd, (int)(huge && i == 0 ? (r.chance(1, 3) ? r.range(65530, 65540) : r.range(1000, 9000)) : lots ? r.range(1, 3) : r.chance(1, 8) ? r.special(r.range(40, 300)) : r.range(1, 20)), (unsigned long long)r.below(1ull << 40), (int)r.below(2), miss.c_str(), (int)r.below(1000000)));
      }
      if (r.chance(1, 3)) for (int i = 0, e = (int)r.range(1, 4); i < e; ++i) out.push_back(fmt("more what=%d of=%d with=%d", (int)r.below(6), (int)r.below(8), (int)r.below(8)));
    } else {
      static const char* const pats[] = {"", ".*", "Fast_.*", ".*f", ".*v", ".*fv", "Exp", "Fast_Expf?v?", "(Sin|Cos)f?", "Nothing", ".*Atan2.*", "Identity.*", "[A-C].*", "Fast_Apr_.*", "Fast_[^A].*", "Tanh?", "I.*2Df?v?",
        "exp", "fast_.*", "(sin|Cos)f?", "[a-c].*", ".*F", "^Exp.*", ".*v$", "\\w*Log\\w*", "(Fast_)?A?(sin|cos|tan)f?v?", "(Fast_)?A?(Sin|Cos|Tan)f?v?", "Exp|", "Fast_Exp(?!f).*", "[^_]*", ".{4}", "Fast_...", "Sin.?.?", "xp", "Fast_"};
      std::string pat;
      if (r.chance(2, 3)) pat = pats[r.below(sizeof pats / sizeof *pats)];
      else { auto v = names(true); for (int i = 0, e = (int)r.range(1, 4); i < e; ++i) pat += (i ? "|" : "") + v[r.below(v.size())]; }
      int size = (int)r.range(1, r.chance(1, 6) ? 300 : 8), reps = (int)r.range(size == 1 ? 2 : 1, r.chance(1, 6) ? 60 : 6);
      if (r.chance(1, 250)) {   // more than 16 bits count
        auto v = names(true); pat = v[r.below(v.size())];
        if (r.chance(1, 2)) { size = (int)r.range(65530, 66000); reps = (int)r.range(1, 2); } else { reps = (int)r.range(65530, 66000); size = (int)r.range(1, 2); }
      }
      else if (r.chance(1, 30)) { auto v = names(true); pat = v[r.below(v.size())] + (r.chance(1, 2) ? "v?" : ""); reps = (int)r.range(61, 6000); size = (int)r.range(1, 3); }
      else if (r.chance(1, 100)) { auto v = names(true); pat = v[r.below(v.size())]; reps = 150; size = (int)(r.chance(1, 6) ? 50000 : r.range(1, 50)); }   // defaults
      if (reps != 150) { size = (int)r.special((uint64_t)size); reps = (int)r.special((uint64_t)reps); }
      std::string f;
      switch (r.below(6)) {
        case 0: f = fmt(" open=0 openerr=%d", (int)(r.chance(1, 2) ? 13 : 28)); break;
        case 1: f = fmt(" enospcat=%d", (int)r.below(1000000)); break;
        case 2: f = fmt(" weioat=%d", (int)r.below(1000000)); break;
        case 3: f = fmt(" wchunk=%d vary=%d eintr=%d", 1 + (int)r.below(200), (int)r.below(100), (int)r.range(2, 9)); break;
        case 4: f = " close=0"; break;
        default: break;
      }
      out.push_back(fmt("cfg opt=%d nick=%s size=%d reps=%d pat=%s pseed=%llu span=%d cpu=%lld stale=%d", (int)r.below(100), nickOf(r).c_str(), size, reps, enc(pat).c_str(), (unsigned long long)r.below(1ull << 40), (int)r.below(6), (ll)r.below(100000000000000ull), (int)r.below(2)) + f + (r.chance(1, 4) ? fmt(" min=%d", -(int)r.below(100)) : std::string()) + (r.chance(1, 4) ? fmt(" max=%d", 1 + (int)r.below(100)) : std::string()));
    }
  }

  // -------------------------------------------------------------- P27
  static void genChain(Rng& r, PlanText& out) {
    std::string nick = nickOf(r), cnick = nickOf(r, false);
    int size = (int)(r.chance(1, 10) ? r.range(20, 150) : r.range(1, 10));
    static const char* const pats[] = {"Exp", "Fast_.*", ".*fv", "(Sin|Cos)f?", ".*Atan2.*", "Nothing", ""};
    out.push_back(fmt("cfg nick=%s cnick=%s size=%d fill=%d opt=%d psize=%d reps=%d pat=%s pseed=%llu span=%d cpu=%lld", nick.c_str(), cnick.c_str(), (int)r.special((uint64_t)size), (int)r.below(256), (int)r.below(100), (int)r.range(2, 6), (int)r.range(1, 4), enc(pats[r.below(7)]).c_str(), (unsigned long long)r.below(1ull << 40), (int)r.below(6), (ll)r.below(100000000000000ull)));
    static const char* const b[] = {"Exp", "Log", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Isqrt", "Tanh", "Atan2"};
    for (int i = 0, e = (int)(r.chance(1, 10) ? r.range(7, 30) : r.range(1, 6)); i < e; ++i) {
      std::string base = b[r.below(11)], f = r.chance(1, 2) ? "f" : "";
      const char *p1 = r.chance(1, 4) ? "Fast_" : "", *p2 = r.chance(3, 4) ? "Fast_" : "";
      if (r.chance(1, 20)) p2 = "VC_";   // there is no such file
      out.push_back(fmt("cmp ref=%s%s%s%s test=%s%s%s%s", p1, base.c_str(), f.c_str(), r.chance(1, 4) ? "v" : "", p2, base.c_str(), f.c_str(), r.chance(1, 4) ? "v" : ""));
    }
    for (int i = 0, e = (int)r.below(3); i < e; ++i) out.push_back(fmt("other nick=%s what=%d vseed=%llu", nickOf(r).c_str(), (int)r.below(130), (unsigned long long)r.below(1000)));
    if (r.chance(1, 2)) out.push_back(fmt("run tool=0 nick=%s cnick=%s size=%d", nick.c_str(), cnick.c_str(), size));
    for (int i = 0, e = (int)r.range(1, 4); i < e; ++i) {
      std::string f;
      switch (r.below(8)) {
        case 0: f = ""; break;
        case 1: case 2: f = fmt(" crashat=%d", (int)r.below(1000000)); break;
        case 3: f = fmt(" crashcallat=%d", (int)r.below(1000000)); break;
        case 4: f = fmt(" enospcat=%d", (int)r.below(1000000)); break;
        case 5: f = fmt(" weioat=%d", (int)r.below(1000000)); break;
        case 6: f = fmt(" reioat=%d", (int)r.below(1000000)); break;
        default: f = fmt(" openfail=%d openall=%d", (int)r.below(r.chance(1, 2) ? 8 : 108), (int)r.below(2));
      }
      if (r.chance(1, 4)) f += fmt(" wchunk=%d vary=%d", 1 + (int)r.below(500), (int)r.below(100));
      int tool = r.chance(1, 2) ? 1 : r.chance(2, 3) ? 0 : 2;
      bool same = r.chance(3, 4);
      out.push_back(fmt("run tool=%d nick=%s cnick=%s size=%d", tool, same ? nick.c_str() : nickOf(r).c_str(), same ? cnick.c_str() : nickOf(r, false).c_str(), r.chance(3, 4) ? size : (int)r.range(1, 30)) + f);
    }
    if (r.chance(2, 3)) out.push_back(r.chance(1, 2) ? fmt("bad deny=%d", (int)r.below(8)) : fmt("bad %s=%d", r.chance(1, 2) ? "enospcat" : "weioat", (int)r.below(1000000)));
  }
  void p27(const std::vector<Line>& plan) {
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "cfg") cfg = &l;
    if (!cfg) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    static const char* const toolName[] = {"vdtArithmBenchmark", "vdtArithmComparison", "vdtPerfBenchmark"};
    if (cfg->unum("psize") * cfg->unum("reps") < 2) return;
    const std::vector<std::string> all = names(false);
    auto prep = [&](int tool, const Line& l, const simfs::Disk& in) {
      Proc p; p.fn = tools[tool]; p.in = in;
      Line x = *cfg;
      x.kv["nick"] = l.str(tool == 1 ? "cnick" : "nick");
      if (tool == 0) { x.kv["size"] = fmt("%llu", (unsigned long long)std::min<uint64_t>(400, l.unum("size"))); p.argv = benchArgs(x); }
      else if (tool == 2) { x.kv["size"] = cfg->str("psize"); p.argv = perfArgs(x); }
      else {
        std::string R, T;
        for (auto& c : plan) if (c.cmd == "cmp") { R += (R.empty() ? "" : ",") + l.str("nick") + "__" + c.str("ref") + "__response.txt"; T += (T.empty() ? "" : ",") + l.str("nick") + "__" + c.str("test") + "__response.txt"; }
        p.argv = compArgs(x, R, T);
      }
      return p;
    };
    auto go = [&](Proc& p, int tool, const char* when) {
      simclk::reset();
      pseed = cfg->unum("pseed"); span = (int)cfg->num("span");
      simclk::setThreadCpu(0, cfg->num("cpu")); simclk::afterRead = after;
      runProc(p);
      simclk::afterRead = nullptr;
      if (!p.ended && !p.crashed) violation("chain.died", "%s died %s: %s", toolName[tool], when, p.died.c_str());
    };
    // the files that a run may write
    auto owns = [&](int tool, const Line& l, const std::string& f) {
      if (tool == 1) { std::string e = "comparison__" + l.str("cnick") + "__"; return !f.compare(0, e.size(), e); }
      if (tool == 2) return f == l.str("nick") + "__performance_benchmark.txt";
      for (auto& n : all) if (f == l.str("nick") + "__" + n + "__response.txt") return true;
      return false;
    };
    simfs::Disk foreign;
    auto untouched = [&](int tool, const Line& l, const simfs::Disk& before, const simfs::Disk& after, const simfs::Disk& known) {
      for (auto& x : before) {
        if (owns(tool, l, x.first) || !(known.count(x.first) || foreign.count(x.first))) continue;
        auto i = after.find(x.first);
        if (i == after.end() || i->second != x.second) violation("chain.foreign", "%s (nickname %s) %s %s", toolName[tool], l.str(tool == 1 ? "cnick" : "nick").c_str(), i == after.end() ? "removed" : "changed", x.first.c_str());
      }
    };
    bool pairs = false;
    for (auto& l : plan) if (l.cmd == "cmp") pairs = true;
    // the first time, in an empty directory
    Proc g[3]; simfs::Disk clean;
    for (int t = 0; t < 3; ++t) {
      if (t == 1 && !pairs) continue;
      g[t] = prep(t, *cfg, clean);
      simfs::Disk before = clean;
      go(g[t], t, "in an empty directory");
      clean = g[t].disk;
      untouched(t, *cfg, before, clean, before);
    }
    // a comparison file that cannot be written
    for (auto& l : plan) if (l.cmd == "bad" && pairs) {
      Proc p = prep(1, *cfg, g[0].disk);
      std::vector<std::string> outs;
      for (auto& x : g[1].disk) if (!g[0].disk.count(x.first)) outs.push_back(x.first);
      std::string denied;
      if (l.has("deny")) { if (outs.empty()) continue; denied = outs[l.unum("deny") % outs.size()]; p.denied.push_back(denied); }
      if (l.has("enospcat")) p.faults.enospc = (long)((double)l.num("enospcat") * 1e-6 * (double)g[1].wbytes);
      if (l.has("weioat")) p.faults.weio = (long)((double)l.num("weioat") * 1e-6 * (double)g[1].wbytes);
      go(p, 1, "when it could not write");
      if (p.out != g[1].out) violation("chain.table", "the table changes when a comparison file cannot be written");
      size_t wanted = 0;
      for (auto& c : plan) if (c.cmd == "cmp") ++wanted;
      for (auto& f : outs) {
        if (denied.empty() && wanted > outs.size()) break;   // a name written twice may still hold what was written first
        auto i = p.disk.find(f);
        if (denied.empty() ? i != p.disk.end() && g[1].disk[f].compare(0, i->second.size(), i->second) : f != denied && (i == p.disk.end() || i->second != g[1].disk[f])) violation("chain.comparison", "%s is wrong when another comparison file cannot be written", f.c_str());
      }
      for (auto& x : g[0].disk) if (!p.disk.count(x.first) || p.disk[x.first] != x.second) violation("chain.foreign", "a comparison that could not write changed %s", x.first.c_str());
      count(denied.empty() ? "chain.bad_write" : "chain.bad_open");
    }
    // disturbed runs
    simfs::Disk disk;
    for (auto& l : plan) if (l.cmd == "other") {
      uint64_t w = l.unum("what");
      std::string f = w < all.size() ? l.str("nick") + "__" + all[w] + "__response.txt" : w < 115 ? l.str("nick") + "__performance_benchmark.txt" : w < 122 ? "comparison__" + l.str("nick") + "__Exp.txt" : "notes.txt";
      Rng r(l.unum("vseed"));
      std::string c; for (uint64_t i = r.below(2000); i; --i) c += (char)(32 + r.below(90));
      disk[f] = c;
    }
    foreign = disk;
    for (auto& l : plan) if (l.cmd == "run") {
      int t = (int)(l.unum("tool") % 3);
      if (t == 1 && !pairs) continue;
      Proc p = prep(t, l, disk);
      p.faults = simfs::parseFaults(l);
      auto at = [&](const char* k, long total, long& f) { if (l.has(k)) f = (long)((double)l.num(k) * 1e-6 * (double)total); };
      at("crashat", g[t].wbytes, p.faults.crash); at("crashcallat", g[t].calls, p.faults.crashcall); at("enospcat", g[t].wbytes, p.faults.enospc); at("weioat", g[t].wbytes, p.faults.weio);
      at("reioat", 100 + 80 * std::min<long>(400, l.num("size")), p.faults.reio);
      if (l.has("openfail")) { p.faults.open = l.num("openfail"); p.faults.openerr = 13; }
      go(p, t, "in a disturbed run or over leftovers");
      untouched(t, l, disk, p.disk, clean);
      disk = p.disk;
      count(fmt("chain.%s.%s", p.crashed ? "killed" : "finished", t == 0 ? "bench" : t == 1 ? "comp" : "perf").c_str());
      shm->trace = mix64(shm->trace ^ disk.size() ^ (uint64_t)p.wbytes * 13 ^ (uint64_t)t << 20);
    }
    // undisturbed, over everything that was left
    simfs::Disk left = disk;
    for (int t = 0; t < 3; ++t) {
      if (t == 1 && !pairs) continue;
      Proc p = prep(t, *cfg, disk);
      go(p, t, "over leftovers");
      untouched(t, *cfg, disk, p.disk, clean);
      for (auto& x : p.disk) if (!disk.count(x.first) && !clean.count(x.first)) violation("chain.rerun", "%s left the additional file %s", toolName[t], x.first.c_str());
      disk = p.disk;
      if (p.out != g[t].out) violation("chain.screen", "%s shows another text than in an empty directory", toolName[t]);
      if (p.ret != g[t].ret) violation("chain.screen", "%s ends with status %d instead of %d", toolName[t], p.ret, g[t].ret);
    }
    for (auto& x : clean) {
      auto i = disk.find(x.first);
      if (i == disk.end()) violation("chain.rerun", "%s is missing after the last runs", x.first.c_str());
      if (i->second != x.second) violation("chain.rerun", "%s differs from that of the first runs (%zu and %zu bytes)", x.first.c_str(), i->second.size(), x.second.size());
      if (left.count(x.first) && left[x.first] != x.second) count("chain.leftover_replaced");
    }
    shm->nontrivial = counterValue("chain.leftover_replaced") > 0;
  }

  // -------------------------------------------------------------- P29
  static void genMesh(Rng& r, PlanText& out) {
    static const char* const pats[] = {"Exp", "Fast_.*", ".*fv", "(Sin|Cos)f?", ".*Atan2.*", "Nothing", ""};
    out.push_back(fmt("cfg fill=%d opt=%d psize=%d reps=%d pat=%s pseed=%llu span=%d cpu=%lld pre=%s psz=%d", (int)r.below(256), (int)r.below(100), (int)r.range(2, 6), (int)r.range(1, 4), enc(pats[r.below(7)]).c_str(), (unsigned long long)r.below(1ull << 40), (int)r.below(6), (ll)r.below(100000000000000ull), r.chance(2, 3) ? "old" : "", (int)r.range(1, 12)));
    static const char* const b[] = {"Exp", "Log", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Isqrt", "Tanh", "Atan2"};
    for (int i = 0, e = (int)r.range(1, 5); i < e; ++i) {
      std::string base = b[r.below(11)], f = r.chance(1, 2) ? "f" : "";
      out.push_back(fmt("cmp ref=%s%s%s%s test=%s%s%s%s", r.chance(1, 4) ? "Fast_" : "", base.c_str(), f.c_str(), r.chance(1, 4) ? "v" : "", r.chance(3, 4) ? "Fast_" : "", base.c_str(), f.c_str(), r.chance(1, 4) ? "v" : ""));
    }
    for (int i = 0, e = (int)r.below(3); i < e; ++i) out.push_back(fmt("other nick=%s what=%d vseed=%llu", nickOf(r).c_str(), (int)r.below(130), (unsigned long long)r.below(1000)));
    int n = (int)r.range(2, 3);
    bool one = r.chance(1, 3); int t1 = (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      std::string f;
      if (r.chance(1, 4)) switch (r.below(5)) {
        case 0: f = fmt(" crashat=%d", (int)r.below(1000000)); break;
        case 1: f = fmt(" crashcallat=%d", (int)r.below(1000000)); break;
        case 2: f = fmt(" enospcat=%d", (int)r.below(1000000)); break;
        case 3: f = fmt(" weioat=%d", (int)r.below(1000000)); break;
        default: f = fmt(" openfail=%d openall=%d", (int)r.below(108), (int)r.below(2));
      }
      if (r.chance(1, 4)) f += fmt(" wchunk=%d vary=%d", 1 + (int)r.below(500), (int)r.below(100));
      out.push_back(fmt("proc tool=%d nick=%s cnick=%s of=%d size=%d", one ? t1 : r.chance(1, 2) ? 0 : (int)r.below(3), nickOf(r).c_str(), nickOf(r, false).c_str(), (int)(r.chance(1, 2) ? r.below(2) : 9), (int)(r.chance(1, 10) ? r.range(20, 100) : r.range(1, 8))) + f);
    }
    if (r.chance(1, 2)) out.push_back(fmt("dense d=%d seed=%llu", (int)(r.chance(1, 3) ? r.range(1, 4) : r.range(2, 60)), (unsigned long long)r.below(1ull << 40)));
    else for (int i = 0, e = (int)r.range(1, 8); i < e; ++i) out.push_back(fmt("at ppm=%d to=%d", (int)r.below(1000000), (int)r.below(6)));
  }
  void p29(const std::vector<Line>& plan) {
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "cfg") cfg = &l;
    if (!cfg) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    static const char* const toolName[] = {"vdtArithmBenchmark", "vdtArithmComparison", "vdtPerfBenchmark"};
    if (cfg->unum("psize") * cfg->unum("reps") < 2) return;
    const std::vector<std::string> all = names(false);
    auto clock = [&]() { simclk::reset(); pseed = cfg->unum("pseed"); span = (int)cfg->num("span"); simclk::setThreadCpu(0, cfg->num("cpu")); simclk::afterRead = after; };
    // what was there before
    simfs::Disk disk;
    for (auto& l : plan) if (l.cmd == "other") {
      uint64_t w = l.unum("what");
      std::string f = w < all.size() ? l.str("nick") + "__" + all[w] + "__response.txt" : w < 115 ? l.str("nick") + "__performance_benchmark.txt" : w < 122 ? "comparison__" + l.str("nick") + "__Exp.txt" : "notes.txt";
      Rng r(l.unum("vseed"));
      std::string c; for (uint64_t i = r.below(2000); i; --i) c += (char)(32 + r.below(90));
      disk[f] = c;
    }
    std::string pre = cfg->str("pre");
    if (!pre.empty()) {
      Line x = *cfg; x.kv["nick"] = pre; x.kv["size"] = cfg->str("psz");
      Proc p; p.fn = tools[0]; p.in = disk; p.argv = benchArgs(x);
      clock(); runProc(p); simclk::afterRead = nullptr;
      if (!p.ended) violation("mesh.died", "an undisturbed run died: %s", p.died.c_str());
      disk = p.disk;
    }
    // the runs; no two of the same tool have the same nickname
    struct Q { int tool; std::string nick; const Line* l; bool loose; };
    std::vector<Q> q;
    std::vector<Proc> alone, both;
    bool pairs = false;
    for (auto& l : plan) if (l.cmd == "cmp") pairs = true;
    uint64_t calls = 0;
    for (auto& l : plan) if (l.cmd == "proc" && q.size() < 4) {
      Q x; x.tool = (int)(l.unum("tool") % 3); x.l = &l; x.loose = false;
      if (x.tool == 1 && !pairs) continue;
      x.nick = l.str(x.tool == 1 ? "cnick" : "nick");
      for (auto& o : q) if (o.tool == x.tool && o.nick == x.nick) x.nick += fmt("%d", (int)q.size());
      if (x.nick == pre) x.nick += "er";
      Line a = *cfg; a.kv["nick"] = x.nick;
      Proc p; p.fn = tools[x.tool]; p.in = disk;
      if (x.tool == 0) { a.kv["size"] = fmt("%llu", (unsigned long long)std::min<uint64_t>(400, l.unum("size"))); p.argv = benchArgs(a); }
      else if (x.tool == 2) { a.kv["size"] = cfg->str("psize"); p.argv = perfArgs(a); }
      else {
        // files that are complete, or those of a benchmark that is running
        std::string from = pre.empty() ? "none" : pre;
        size_t k = (size_t)l.unum("of");
        if (k < q.size() && q[k].tool == 0) { from = q[k].nick; x.loose = true; }
        std::string R, T;
        for (auto& c : plan) if (c.cmd == "cmp") { R += (R.empty() ? "" : ",") + from + "__" + c.str("ref") + "__response.txt"; T += (T.empty() ? "" : ",") + from + "__" + c.str("test") + "__response.txt"; }
        p.argv = compArgs(a, R, T);
      }
      clock(); runProc(p); simclk::afterRead = nullptr;
      if (!p.ended) violation("mesh.died", "%s died when it ran alone: %s", toolName[x.tool], p.died.c_str());
      calls += (uint64_t)p.calls;
      Proc b; b.fn = p.fn; b.argv = p.argv; b.faults = simfs::parseFaults(l);
      auto at = [&](const char* key, long total, long& f) { if (l.has(key)) f = (long)((double)l.num(key) * 1e-6 * (double)total); };
      at("crashat", p.wbytes, b.faults.crash); at("crashcallat", p.calls, b.faults.crashcall); at("enospcat", p.wbytes, b.faults.enospc); at("weioat", p.wbytes, b.faults.weio);
      if (l.has("openfail")) { b.faults.open = l.num("openfail"); b.faults.openerr = 13; }
      q.push_back(x); alone.push_back(p); both.push_back(b);
    }
    if (q.size() < 2) return;
    std::vector<std::pair<uint64_t, uint32_t>> sw;
    for (auto& l : plan) {
      if (l.cmd == "at") sw.push_back({(uint64_t)((double)l.num("ppm") * 1e-6 * (double)calls), (uint32_t)l.unum("to")});
      if (l.cmd == "dense") { Rng r(l.unum("seed")); uint64_t d = std::max<uint64_t>(1, l.unum("d")); for (uint64_t s = 1 + r.below(d); s < calls + calls / 4; s += 1 + r.below(2 * d)) sw.push_back({s, (uint32_t)r.below(6)}); }
    }
    std::stable_sort(sw.begin(), sw.end(), [](const std::pair<uint64_t, uint32_t>& a, const std::pair<uint64_t, uint32_t>& b) { return a.first < b.first; });
    simfs::Disk end;
    clock(); runProcs(both, disk, sw, end); simclk::afterRead = nullptr;
    auto owns = [&](const Q& x, const std::string& f) {
      if (x.tool == 1) { std::string e = "comparison__" + x.nick + "__"; return !f.compare(0, e.size(), e); }
      if (x.tool == 2) return f == x.nick + "__performance_benchmark.txt";
      for (auto& n : all) if (f == x.nick + "__" + n + "__response.txt") return true;
      return false;
    };
    std::set<std::string> free;   // files of disturbed runs
    for (size_t i = 0; i < q.size(); ++i) {
      Proc &a = alone[i], &b = both[i];
      bool disturbed = b.crashed || q[i].l->has("enospcat") || q[i].l->has("weioat") || q[i].l->has("openfail");
      if (!b.ended && !b.crashed) violation("mesh.died", "%s died while other tools were running: %s", toolName[q[i].tool], b.died.c_str());
      if (disturbed || q[i].loose) {
        for (auto& f : end) if (owns(q[i], f.first)) free.insert(f.first);
        for (auto& f : a.disk) if (owns(q[i], f.first)) free.insert(f.first);
        for (auto& f : disk) if (owns(q[i], f.first)) free.insert(f.first);
        count(disturbed ? "mesh.disturbed" : "mesh.reads_running");
        continue;
      }
      if (b.out != a.out) violation("mesh.screen", "%s shows another text while other tools are running", toolName[q[i].tool]);
      if (b.ret != a.ret) violation("mesh.screen", "%s ends with status %d instead of %d while other tools are running", toolName[q[i].tool], b.ret, a.ret);
      count(fmt("mesh.compared.%s", q[i].tool == 0 ? "bench" : q[i].tool == 1 ? "comp" : "perf").c_str());
    }
    // every file is that of the run that writes it, or the one that was there before
    simfs::Disk want = disk;
    for (size_t i = 0; i < q.size(); ++i) for (auto& f : alone[i].disk) { auto k = disk.find(f.first); if (k == disk.end() || k->second != f.second) want[f.first] = f.second; }
    for (auto& f : want) {
      if (free.count(f.first)) continue;
      auto k = end.find(f.first);
      if (k == end.end()) violation("mesh.files", "%s is missing after the tools ran at the same time", f.first.c_str());
      if (k->second != f.second) violation("mesh.files", "%s differs from that of the run alone (%zu and %zu bytes)", f.first.c_str(), k->second.size(), f.second.size());
    }
    if (!counterValue("mesh.disturbed")) for (auto& f : end) if (!want.count(f.first) && !free.count(f.first)) violation("mesh.files", "the tools left the additional file %s", f.first.c_str());
    shm->nontrivial = counterValue("mesh.switches") > 0;
  }

  // -------------------------------------------------------------- P14
  void p14(const std::vector<Line>& plan) {
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "cfg") cfg = &l;
    if (!cfg) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    auto args = benchArgs;
    Proc g; g.fn = fn; g.argv = args(*cfg);
    runProc(g);
    if (!g.ended) violation("tool.died", "an undisturbed run died: %s", g.died.c_str());
    std::string nick = cfg->str("nick");
    size_t size = cfg->unum("size");
    // one complete file per function form
    simfs::reset();
    simfs::setDisk(g.disk);
    std::set<std::string> expected;
    for (auto& n : names(false)) {
      std::string f = nick + "__" + n + "__response.txt";
      expected.insert(f);
      if (!g.disk.count(f)) violation("bench.missing", "no file %s", f.c_str());
    }
    for (auto& x : g.disk) {
      std::string pre = nick + "__", post = "__response.txt";
      const std::string& f = x.first;
      if (f.size() < pre.size() + post.size() || f.compare(0, pre.size(), pre) || f.compare(f.size() - post.size(), post.size(), post)) continue;
      std::string n = f.substr(pre.size(), f.size() - pre.size() - post.size());
      const SutFun* sf = funOf(n);
      if (!sf) { count("bench.unknown_function"); continue; }
      int kind = sf->arity == 2 ? K_R2 : K_R1;
      SutObj* o; { simheap::SutScope s; o = sutPlain()->load(kind, sf->isd, f.c_str()); }
      Data d = snapshot(o, kind, sf->isd, "");
      { simheap::SutScope s; delete o; }
      if (d.n() != size || !d.bad.empty()) violation("bench.records", "%s holds %zu records instead of %zu %s", f.c_str(), d.n(), size, d.bad.c_str());
      for (size_t i = 0; i < size; ++i) {
        uint64_t a = d.col[0][i], b = sf->arity == 2 ? d.col[1][i] : 0, got = d.col.back()[i], want = sf->scalar(a, b);
        if (got != want && !(isNanBits(got, sf->isd) && isNanBits(want, sf->isd))) violation("bench.output", "%s: record %zu: output %llx for input %llx instead of %llx", f.c_str(), i, (unsigned long long)got, (unsigned long long)a, (unsigned long long)want);
      }
      count("bench.files_verified");
    }
    if (cfg->has("big")) {   // the number of records is right for a large one, too
      Line b = *cfg; b.kv["size"] = cfg->str("big");
      Proc big; big.fn = fn; big.argv = args(b); big.countOnly = true;
      runProc(big);
      if (!big.ended) violation("tool.died", "an undisturbed run of size %s died: %s", cfg->str("big").c_str(), big.died.c_str());
      for (auto& n : names(false)) {
        std::string f = nick + "__" + n + "__response.txt";
        uint64_t small = (uint64_t)std::count(g.disk[f].begin(), g.disk[f].end(), '\n');
        if (small < size) { count("bench.no_lines"); continue; }
        uint64_t got = big.disk.count(f) ? strtoull(big.disk[f].c_str(), nullptr, 10) : 0;
        if (got != small - size + cfg->unum("big")) violation("bench.records", "%s of size %s has %llu lines, that of size %zu has %llu", f.c_str(), cfg->str("big").c_str(), (unsigned long long)got, size, (unsigned long long)small);
        count("bench.large_files");
      }
    }
    // the disturbed runs
    simfs::Disk disk;
    auto allNames = names(false);
    for (auto& l : plan) if (l.cmd == "other") {
      std::string f = l.str("nick") + "__" + (l.unum("what") < allNames.size() ? allNames[l.unum("what")] + "__response.txt" : "performance_benchmark.txt");
      Rng r(l.unum("vseed"));
      std::string c; for (uint64_t i = r.below(2000); i; --i) c += (char)(32 + r.below(90));
      disk[f] = c;
    }
    const simfs::Disk initial = disk;
    auto belongs = [&](const std::string& f, const std::string& n) { for (auto& x : allNames) if (f == n + "__" + x + "__response.txt") return true; return false; };
    auto untouched = [&](const simfs::Disk& before, const simfs::Disk& after, const std::string& n, const char* what) {
      auto foreign = [&](const std::string& f) { const std::string e = "__response.txt"; return !belongs(f, n) && (initial.count(f) || (f.size() > e.size() && !f.compare(f.size() - e.size(), e.size(), e))); };
      for (auto& x : before) if (foreign(x.first)) { auto i = after.find(x.first); if (i == after.end() || i->second != x.second) violation("bench.foreign", "%s with nickname %s changed %s", what, n.c_str(), x.first.c_str()); }
      for (auto& x : after) if (!before.count(x.first) && !belongs(x.first, n) && !g.disk.count(x.first)) { count("bench.extra_file"); if (x.first.compare(0, n.size(), n)) violation("bench.foreign", "%s with nickname %s made %s", what, n.c_str(), x.first.c_str()); }
    };
    for (auto& l : plan) if (l.cmd == "run") {
      Proc p; p.fn = fn; p.argv = args(l); p.in = disk; p.faults = simfs::parseFaults(l);
      auto at = [&](const char* k, long total, long& f) { if (l.has(k)) f = (long)((double)l.num(k) * 1e-6 * (double)total); };
      at("crashat", g.wbytes, p.faults.crash); at("crashcallat", g.calls, p.faults.crashcall); at("enospcat", g.wbytes, p.faults.enospc); at("weioat", g.wbytes, p.faults.weio);
      if (l.has("openfail")) { p.faults.open = l.num("openfail"); p.faults.openerr = 13; }
      runProc(p);
      if (!p.ended && !p.crashed) { count("bench.run_died"); if (p.disk.empty()) continue; }
      untouched(disk, p.disk, l.str("nick"), "a disturbed run");
      disk = p.disk;
      count(p.crashed ? "bench.crashed_run" : "bench.finished_run");
      shm->trace = mix64(shm->trace ^ disk.size() ^ (uint64_t)p.wbytes * 13);
    }
    Proc p; p.fn = fn; p.argv = args(*cfg); p.in = disk;
    runProc(p);
    if (!p.ended) violation("tool.died", "an undisturbed run after disturbed ones died: %s", p.died.c_str());
    untouched(disk, p.disk, nick, "the last run");
    for (auto& x : g.disk) {
      auto i = p.disk.find(x.first);
      if (i == p.disk.end()) violation("bench.rerun", "%s is missing after the last run", x.first.c_str());
      if (i->second != x.second) violation("bench.rerun", "%s differs from that of a first run (%zu and %zu bytes)", x.first.c_str(), i->second.size(), x.second.size());
      if (disk.count(x.first) && disk[x.first] != x.second) count("bench.leftover_replaced");
    }
    for (auto& x : p.disk) if (!g.disk.count(x.first) && !disk.count(x.first)) violation("bench.rerun", "the last run left the additional file %s", x.first.c_str());
    if (p.out != g.out) count("bench.screen_differs");
    shm->nontrivial = counterValue("bench.crashed_run") + counterValue("fault.disk_full") + counterValue("fault.write_error") + counterValue("fault.open_fails") > 0;
  }

  // -------------------------------------------------------------- P15
  struct Table : SutCb {   // a function with given results
    const std::vector<uint64_t>* o; size_t i = 0;
    uint64_t value(uint64_t, uint64_t) override { return (*o)[i++ % o->size()]; }
    void arrayCall(uint64_t) override {}
  };
  struct Pair {
    std::string rf, tf, rn, tn, base; int isd = 0, kind = K_R1; bool skip = false, intact = false; std::string why;
    std::string row; Data comp;
    // what the tool did with this pair alone
    std::string outFile, outText; std::string line;
  };
  // nicknames of runs; the files of some are in a directory
  static std::string fileOf(const char* kind, int number, int style, const std::string& fn) {
    static const char* const pre[] = {"", "", "", "", "dir/", "Atan2-", "fast_", "Atan2", "dir/sub/Exp.", "x=y-"};
    return fmt("%s%s%d__%s__response.txt", pre[style % 10], kind, number, fn.c_str());
  }
  void p15(const std::vector<Line>& plan) {
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "cfg") cfg = &l;
    if (!cfg) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    simfs::reset();
    const SutApi* api = sutPlain();
    Cal cal[2] = {calibrate(api, K_R1, 1), calibrate(api, K_R2, 1)};
    simfs::reset();
    std::vector<Pair> pairs;
    std::vector<std::string> denied;
    // what the tool shall do with a pair
    auto expect = [&](Pair& p, Made& m, bool cut) {
      if (cut) {
        Data d[2];
        for (int k = 0; k < 2; ++k) { SutObj* o; { simheap::SutScope s; o = api->load(p.kind, p.isd, (k ? p.tf : p.rf).c_str()); } d[k] = snapshot(o, p.kind, p.isd, ""); simheap::SutScope s; delete o; }
        if (d[0].n() != d[1].n()) { p.skip = true; p.why = fmt("%zu and %zu records", d[0].n(), d[1].n()); }
        else { m.n = d[0].n(); m.a = d[0].col[0]; m.b = d[0].col[1]; m.o1 = d[0].col.back(); m.o2 = d[1].col.back(); count("pair.cut_compared"); }
      }
      if (!p.skip) {
        SutObj* o; { simheap::SutScope s; o = construct(api, m, "Qname"); }
        p.comp = snapshot(o, m.kind, p.isd, "Qname");
        std::string row = captureStdout([&]() { simheap::SutScope s; o->stats(true); });
        { simheap::SutScope s; delete o; }
        auto w = wordsOf(unsignedNan(row));
        size_t k = 0;
        while (k < w.size() && w[k].find("Qname") == std::string::npos) ++k;
        p.row = joined(w, k + 1);       // maximum, minimum, mean and RMS
        if (p.row.empty()) count("pair.row_unparsed");
        // the same from the records themselves
        long mx = -1, mn = 1000; double sum = 0, sum2 = 0;
        for (size_t i = 0; i < m.n; ++i) {
          long c = 0;
          for (uint64_t d = m.o1[i] > m.o2[i] ? m.o1[i] - m.o2[i] : m.o2[i] - m.o1[i]; d; d >>= 1) ++c;
          mx = std::max(mx, c); mn = std::min(mn, c); sum += (double)c; sum2 += (double)(c * c);
          auto v = wordsOf(i < p.comp.lines.size() ? p.comp.lines[i] : "");
          if (!v.empty() && number(v.back()) && atol(v.back().c_str()) != c) violation("pair.count", "a comparison of %llx and %llx counts %s differing bits instead of %ld", (unsigned long long)m.o1[i], (unsigned long long)m.o2[i], v.back().c_str(), c);
        }
        long rx, rn2; int used = 0;
        double N = (double)m.n, mean = sum / N, var = m.n == 1 ? -1 : (sum2 - N * mean * mean) / (N - 1);
        if (m.n && sscanf(p.row.c_str(), "%ld %ld %n", &rx, &rn2, &used) == 2 && used) {
          // a wide RMS follows the mean without a blank
          std::string t = p.row.substr((size_t)used);
          size_t dot = t.find('.');
          double gm = dot == std::string::npos ? -99 : atof(t.substr(0, dot + 3).c_str()), gv = dot == std::string::npos ? -99 : atof(t.substr(dot + 3).c_str());
          if (rx != mx || rn2 != mn || fabs(gm - mean) > 0.0051 || fabs(gv - var) > 0.0051 + 1e-9 * fabs(var)) violation("pair.statistics", "a comparison of %zu records shows '%s' for maximum %ld, minimum %ld, mean %g and RMS %g", m.n, row.c_str(), mx, mn, mean, var);
          count("pair.statistics_verified");
        } else if (m.n) count("pair.row_unparsed");
      }
    };
    for (auto& l : plan) if (l.cmd == "pair") {
      Pair p;
      p.isd = (int)l.num("isd");
      std::string rn = l.str("ref"), tn = l.str("test"), miss = l.str("miss", "none");
      p.base = rn.substr(rn.find('_') + 1);
      bool two = rn.find("Atan2") != std::string::npos;
      p.kind = two ? K_R2 : K_R1;
      size_t n = std::max<uint64_t>(1, l.unum("n"));
      p.rn = rn; p.tn = tn;
      p.rf = fileOf("r", (int)l.num("rn"), (int)l.unum("rs"), rn);
      p.tf = fileOf("t", (int)l.num("tn"), (int)l.unum("ts"), tn);
      bool used = false;
      for (auto& q : pairs) if (q.rf == p.rf || q.tf == p.tf) used = true;
      if (used) continue;
      Made m = prepare(l, two ? K_C2 : K_C1, p.isd, n);
      for (int k = 0; k < 2; ++k) {
        Table t; t.o = k ? &m.o2 : &m.o1;
        simheap::SutScope s;
        SutObj* o = api->resp(p.kind, p.isd, 0, (k ? tn : rn).c_str(), m.a.data(), m.b.data(), n, &t);
        o->save((k ? p.tf : p.rf).c_str());
        delete o;
      }
      std::string rc = simfs::content(p.rf), tc = simfs::content(p.tf);
      double at = (double)l.num("at") * 1e-6;
      size_t head = 0;
      for (int i = 0; i < cal[two].header; ++i) { head = rc.find('\n', head); if (head == std::string::npos) break; ++head; }
      if (head == std::string::npos || !cal[two].ok) head = 0;
      bool cut = false;
      if (miss == "ref") { simfs::remove(p.rf); p.skip = true; }
      else if (miss == "test") { simfs::remove(p.tf); p.skip = true; }
      else if (miss == "refdeny") { denied.push_back(p.rf); p.skip = true; }
      else if (miss == "testdeny") { denied.push_back(p.tf); p.skip = true; }
      else if (miss == "refempty") { simfs::setContent(p.rf, ""); p.skip = true; }
      else if (miss == "refhead" && head) { simfs::setContent(p.rf, rc.substr(0, (size_t)(at * (double)head))); p.skip = true; }
      else if (miss == "refcut" && head) { simfs::setContent(p.rf, rc.substr(0, head + (size_t)(at * (double)(rc.size() - head)))); cut = true; }
      else if (miss == "testcut") { simfs::setContent(p.tf, tc.substr(0, (size_t)(at * (double)tc.size()))); cut = true; }
      else if (miss == "bothcut" && head) { simfs::setContent(p.rf, rc.substr(0, head + (size_t)(at * (double)(rc.size() - head)))); size_t th = head + tc.size() - rc.size(); simfs::setContent(p.tf, tc.substr(0, th + (size_t)(at * (double)(tc.size() - th)))); cut = true; }
      if (miss != "none") count(("pair." + miss).c_str());
      p.intact = !p.skip && !cut;
      expect(p, m, cut);
      pairs.push_back(p);
    }
    // files used more than once
    for (auto& l : plan) if (l.cmd == "more" && !pairs.empty()) {
      const Pair a = pairs[l.unum("of") % pairs.size()], b = pairs[l.unum("with") % pairs.size()];
      if (!a.intact || !b.intact || a.kind != b.kind || a.isd != b.isd) continue;
      Pair p; p.isd = a.isd; p.kind = a.kind; p.intact = true;
      auto take = [&](const std::string& rf, const std::string& rn, const std::string& tf, const std::string& tn) { p.rf = rf; p.rn = rn; p.tf = tf; p.tn = tn; };
      switch (l.unum("what") % 6) {
        case 0: take(a.rf, a.rn, a.rf, a.rn); break;
        case 1: take(a.tf, a.tn, a.tf, a.tn); break;
        case 2: take(a.tf, a.tn, a.rf, a.rn); break;
        case 3: take(a.rf, a.rn, a.tf, a.tn); break;
        case 4: take(a.rf, a.rn, b.tf, b.tn); break;
        default: take(a.rf, a.rn, b.rf, b.rn);
      }
      p.base = p.rn.substr(p.rn.find('_') + 1);
      Made m; m.kind = a.kind == K_R2 ? K_C2 : K_C1; m.isd = a.isd;
      expect(p, m, true);
      count("pair.files_again");
      pairs.push_back(p);
    }
    if (pairs.empty()) return;
    simfs::Disk start = simfs::disk();
    auto run = [&](const std::vector<size_t>& which, const simfs::Disk& in, bool faults) {
      Proc p; p.fn = fn; p.in = in; p.denied = denied;
      std::string R, T;
      for (size_t i : which) { R += (R.empty() ? "" : ",") + pairs[i].rf; T += (T.empty() ? "" : ",") + pairs[i].tf; }
      p.argv = compArgs(*cfg, R, T);
      if (faults) p.faults = simfs::parseFaults(*cfg);
      runProc(p);
      if (!p.ended) violation("tool.died", "the comparison of %zu pairs died: %s", which.size(), p.died.c_str());
      return p;
    };
    auto rows = [](const std::string& out) {
      std::vector<std::string> v;
      for (auto& l : linesOf(unsignedNan(out))) { auto w = wordsOf(l); bool ok = w.size() >= 4; for (size_t i = w.size() >= 3 ? w.size() - 3 : 0; ok && i < w.size(); ++i) ok = number(w[i]); if (ok) v.push_back(joined(w)); }
      return v;
    };
    // every pair alone
    for (size_t i = 0; i < pairs.size(); ++i) {
      Pair& q = pairs[i];
      Proc p = run({i}, start, true);
      std::vector<std::string> fresh;
      for (auto& x : p.disk) if (!start.count(x.first)) fresh.push_back(x.first); else if (start[x.first] != x.second) violation("pair.foreign", "the comparison changed %s", x.first.c_str());
      for (auto& x : start) if (!p.disk.count(x.first)) violation("pair.foreign", "the comparison removed %s", x.first.c_str());
      auto rw = rows(p.out);
      if (q.skip) {
        if (!fresh.empty() || !rw.empty()) violation("pair.not_skipped", "pair %s / %s (%s) gave %s", q.rf.c_str(), q.tf.c_str(), q.why.c_str(), fresh.empty() ? rw[0].c_str() : fresh[0].c_str());
        if (p.out.find(q.rf) == std::string::npos && p.out.find(q.tf) == std::string::npos) violation("pair.silent", "pair %s / %s was skipped without a report: '%s'", q.rf.c_str(), q.tf.c_str(), p.out.c_str());
        count("pair.skipped");
        continue;
      }
      if (fresh.size() != 1) violation("pair.files", "pair %s / %s gave %zu files", q.rf.c_str(), q.tf.c_str(), fresh.size());
      if (rw.size() != 1) violation("pair.rows", "pair %s / %s gave %zu rows: '%s'", q.rf.c_str(), q.tf.c_str(), rw.size(), p.out.c_str());
      q.outFile = fresh[0]; q.outText = p.disk[fresh[0]]; q.line = rw[0];
      if (q.outFile.find(q.base) == std::string::npos || q.outFile.find(cfg->str("nick")) == std::string::npos) violation("pair.name", "pair %s / %s gave the file %s", q.rf.c_str(), q.tf.c_str(), q.outFile.c_str());
      if (!q.row.empty() && (rw[0].size() <= q.row.size() || rw[0].compare(rw[0].size() - q.row.size() - 1, std::string::npos, " " + q.row))) violation("pair.row", "row '%s' does not agree with a direct comparison (%s)", rw[0].c_str(), q.row.c_str());
      if (rw[0].find(q.base) == std::string::npos) violation("pair.name", "row '%s' does not name %s", rw[0].c_str(), q.base.c_str());
      simfs::reset(); simfs::setDisk(p.disk);
      int ck = q.kind == K_R2 ? K_C2 : K_C1;
      SutObj* o; { simheap::SutScope s; o = api->load(ck, q.isd, q.outFile.c_str()); }
      Data d = snapshot(o, ck, q.isd, "From " + q.outFile);
      { simheap::SutScope s; delete o; }
      std::string diff = d.n() != q.comp.n() ? fmt("%zu records instead of %zu", d.n(), q.comp.n()) : diffData(q.comp, d, d.n());
      if (diff.empty() && unsignedNan(d.stats) != unsignedNan(q.comp.stats)) diff = fmt("statistics '%s' instead of '%s'", d.stats.c_str(), q.comp.stats.c_str());
      if (!diff.empty()) violation("pair.file", "%s does not agree with a direct comparison: %s", q.outFile.c_str(), diff.c_str());
      count("pair.compared");
    }
    for (size_t i = 0; i < pairs.size(); ++i) for (size_t j = 0; j < i; ++j) if (!pairs[i].skip && !pairs[j].skip && pairs[i].outFile == pairs[j].outFile && pairs[i].base != pairs[j].base) violation("pair.name", "pairs of %s and %s give the same file %s", pairs[i].base.c_str(), pairs[j].base.c_str(), pairs[i].outFile.c_str());
    // all together
    simfs::Disk in = start;
    if (cfg->num("stale")) for (auto& q : pairs) if (!q.skip) in[q.outFile] = q.outText + q.outText.substr(0, q.outText.size() / 2) + "left over";
    std::vector<size_t> all;
    simfs::Disk want = start;
    std::vector<std::string> wantRows;
    for (size_t i = 0; i < pairs.size(); ++i) { all.push_back(i); if (!pairs[i].skip) { want[pairs[i].outFile] = pairs[i].outText; wantRows.push_back(pairs[i].line); } }
    Proc p = run(all, in, true);
    for (auto& x : want) { auto i = p.disk.find(x.first); if (i == p.disk.end()) violation("list.file", "%s is missing after the comparison of the list", x.first.c_str()); if (i->second != x.second) violation("list.file", "%s differs from that of its pair alone", x.first.c_str()); }
    for (auto& x : p.disk) if (!want.count(x.first)) violation("list.file", "additional file %s", x.first.c_str());
    auto got = rows(p.out);
    if (got != wantRows) violation("list.rows", "%zu rows instead of %zu, or other rows than those of the pairs alone: '%s'", got.size(), wantRows.size(), p.out.c_str());
    for (auto& q : pairs) if (q.skip && p.out.find(q.rf) == std::string::npos && p.out.find(q.tf) == std::string::npos) violation("pair.silent", "pair %s / %s was skipped in the list without a report", q.rf.c_str(), q.tf.c_str());
    count("list.compared");
    if (counterValue("pair.skipped") && counterValue("pair.compared")) count("list.mixed");
    for (auto& q : pairs) shm->trace = mix64(shm->trace ^ hashBytes(q.rf.data(), q.rf.size()) ^ hashBytes(q.outText.data(), q.outText.size()) ^ (uint64_t)q.skip);
    shm->nontrivial = counterValue("pair.compared") > 0;
  }

  // -------------------------------------------------------------- P16
  static uint64_t pseed; static int span;
  static int64_t after(uint64_t i) {
    Rng r(mix64(pseed + i * 7919));
    switch (span) {
      case 0: return (int64_t)r.below(50);
      case 1: return (int64_t)r.below(100000);
      case 2: return 999999000 + (int64_t)r.below(2000);
      case 3: return (int64_t)r.below(20000000000ll);
      case 4: return i % 2 ? (int64_t)r.below(5000000000ll) : 1000 + (int64_t)r.below(100);   // much time outside
      default: return 12345;
    }
  }
  static std::vector<std::string> perfArgs(const Line& cfg) {
    std::string pat = dec(cfg.str("pat", "%"));
    std::vector<Opt> o = {{"-n", "--nick", cfg.str("nick")}};
    if (cfg.num("size") != 50000) o.push_back({"-s", "--size", fmt("%llu", (unsigned long long)std::max<uint64_t>(1, cfg.unum("size")))});   // the default otherwise
    if (cfg.num("reps") != 150) o.push_back({"-r", "--repetitions", fmt("%llu", (unsigned long long)std::max<uint64_t>(1, cfg.unum("reps")))});
    if (!pat.empty()) o.push_back({"-p", "--pattern", pat});
    if (cfg.has("min")) o.push_back({"-m", "--pool_min", cfg.str("min")});
    if (cfg.has("max")) o.push_back({"-M", "--pool_max", cfg.str("max")});
    return cmdLine("vdtPerfBenchmark", o, cfg.unum("opt"));
  }
  void p16(const std::vector<Line>& plan) {
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "cfg") cfg = &l;
    if (!cfg) return;
    std::string nick = cfg->str("nick"), pat = dec(cfg->str("pat", "%"));
    uint64_t size = std::max<uint64_t>(1, cfg->unum("size")), reps = std::max<uint64_t>(1, cfg->unum("reps"));
    if (size * reps < 2) return;
    pseed = cfg->unum("pseed"); span = (int)cfg->num("span");
    std::string report = nick + "__performance_benchmark.txt";
    simfs::Disk in;
    in["somebody.txt"] = "else";
    if (cfg->num("stale")) in[report] = std::string(20000, 'x');
    auto run = [&](const simfs::Faults& f) {
      Proc p; p.fn = fn; p.in = in; p.faults = f; p.clock = true;
      p.argv = perfArgs(*cfg);
      simclk::reset();
      simclk::setThreadCpu(0, cfg->num("cpu"));
      simclk::afterRead = after;
      runProc(p);
      simclk::afterRead = nullptr;
      if (!p.ended) violation("tool.died", "the performance tool died: %s", p.died.c_str());
      return p;
    };
    auto fnLines = [](const std::string& s) { std::vector<std::string> v; for (auto& l : linesOf(s)) if (!l.compare(0, 9, "Function ")) v.push_back(l); return v; };
    Proc p = run(simfs::Faults());
    std::vector<std::string> screen = fnLines(p.out), file = linesOf(p.disk[report]);
    if (!p.disk.count(report)) violation("perf.report", "no report file");
    if (file != screen) violation("perf.report", "the report file has %zu lines and the screen %zu, or they differ", file.size(), screen.size());
    // which functions
    std::regex re(pat.empty() ? std::string(".*") : pat);
    std::map<std::string, int> seen;
    const size_t nread = p.readings.size(), nlines = screen.size();
    bool exact = nread == 4 * reps * nlines;
    if (!exact) count("perf.clock_pattern_unknown");
    // mean and error of m passes whose readings start at the given one
    struct Value { long double mean, err, slack; };
    auto value = [&](size_t from, uint64_t m) {
      long double t = 0, S = 0, N = (long double)(size * m);
      for (uint64_t q = 0; q < m; ++q) { size_t i = from + 2 * q; long double d = (long double)(p.readings[i + 1] - p.readings[i]); t += d; S += d * d; }
      long double v = S - t * t / N;
      return Value{t / N, v > 0 ? sqrtl(v / (N - 1)) / sqrtl(N) : 0, sqrtl(1e-12L * S / (N - 1) / N)};
    };
    auto meanFits = [](const Value& x, double avg) { return fabsl(avg - x.mean) <= 0.0051L + 1e-9L * x.mean; };
    auto errFits = [](const Value& x, double err) { return fabsl(err - x.err) <= 0.0051L + 1e-9L * x.err + x.slack; };
    // the layout of the readings fits another number of passes, but no other explanation
    uint64_t other = !exact && nlines && nread % (4 * nlines) == 0 ? nread / nlines / 4 : 0;
    bool fitsOther = other && size * other > 1, fitsMeasured = nread == 2 * reps * nlines;
    for (size_t k = 0; k < screen.size(); ++k) {
      auto w = wordsOf(screen[k]);
      double avg, err;
      size_t c = screen[k].find(" : ");
      if (w.size() < 2 || c == std::string::npos || sscanf(screen[k].c_str() + c + 3, "%lf +- %lf", &avg, &err) != 2) violation("perf.line", "strange line '%s'", screen[k].c_str());
      const std::string& n = w[1];
      if (++seen[n] > 1) violation("perf.twice", "%s was measured twice", n.c_str());
      if (!std::regex_match(n, re)) violation("perf.unselected", "%s was measured, but does not match %s", n.c_str(), pat.c_str());
      if (fitsOther) { Value x = value(4 * other * k + 2 * other, other); if (!meanFits(x, avg) || !errFits(x, err)) fitsOther = false; }
      if (fitsMeasured) { Value x = value(2 * reps * k, reps); if (!meanFits(x, avg) || !errFits(x, err)) fitsMeasured = false; }
      if (exact) {
        Value x = value(4 * reps * k + 2 * reps, reps);
        if (!meanFits(x, avg)) violation("perf.mean", "'%s' although the mean is %.4Lf", screen[k].c_str(), x.mean);
        if (!errFits(x, err)) violation("perf.error", "'%s' although the error is %.4Lf", screen[k].c_str(), x.err);
        count("perf.lines_verified");
      }
    }
    if (fitsOther && !fitsMeasured) violation("perf.passes", "%llu repetitions were asked for, %llu made", (unsigned long long)reps, (unsigned long long)other);
    for (auto& n : names(true)) if (std::regex_match(n, re) && !seen.count(n)) violation("perf.missing", "%s matches %s, but was not measured", n.c_str(), pat.c_str());
    // with failures
    simfs::Faults f = simfs::parseFaults(*cfg);
    auto at = [&](const char* k, long& x) { if (cfg->has(k)) x = (long)((double)cfg->num(k) * 1e-6 * (double)p.wbytes); };
    at("enospcat", f.enospc); at("weioat", f.weio);
    if (f.any()) {
      Proc q = run(f);
      if (q.out != p.out) violation("perf.screen", "a failure of the report file changes the screen");
      bool lost = f.enospc >= 0 || f.weio >= 0 || f.open >= 0;
      if (!lost && q.disk[report] != p.disk[report]) violation("perf.report", "the report is not complete after split or interrupted transfers");
      if (lost && f.open < 0 && p.disk[report].compare(0, q.disk[report].size(), q.disk[report])) violation("perf.report", "the report is not a leading part after a write failure");
      if (q.disk["somebody.txt"] != "else") violation("perf.foreign", "another file changed");
      count("perf.faulty_run");
    }
    if (p.disk["somebody.txt"] != "else") violation("perf.foreign", "another file changed");
    shm->trace = mix64(shm->trace ^ hashBytes(pat.data(), pat.size()) ^ size * 7 ^ reps * 1001 ^ (uint64_t)span << 40);
    shm->nontrivial = screen.size() > 0;
  }
  // -------------------------------------------------------------- P24
  void p24(const std::vector<Line>& plan) {
    const Line* cfg = nullptr; const Line* first = nullptr;
    for (auto& l : plan) { if (l.cmd == "cfg") cfg = &l; if (l.cmd == "screen" && !first) first = &l; }
    if (!cfg || !first) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    int tool = (int)(first->unum("tool") % 3);
    Proc base; base.fn = tools[tool];
    if (tool == 0) base.argv = benchArgs(*cfg);
    else if (tool == 2) {
      if (std::max<uint64_t>(1, cfg->unum("size")) * std::max<uint64_t>(1, cfg->unum("reps")) < 2) return;
      base.argv = perfArgs(*cfg); pseed = cfg->unum("pseed"); span = (int)cfg->num("span");
    } else {
      std::string R, T;
      std::set<std::string> used;
      for (auto& l : plan) if (l.cmd == "pair") {
        std::string rn = l.str("ref"), tn = l.str("test"), miss = l.str("miss", "none");
        bool two = rn.find("Atan2") != std::string::npos;
        int isd = (int)l.num("isd");
        size_t n = std::max<uint64_t>(1, l.unum("n"));
        std::string rf = fileOf("r", (int)l.num("rn"), (int)l.unum("rs"), rn), tf = fileOf("t", (int)l.num("tn"), (int)l.unum("ts"), tn);
        if (used.count(rf) || used.count(tf)) continue;
        used.insert(rf); used.insert(tf);
        Made m = prepare(l, two ? K_C2 : K_C1, isd, n);
        for (int k = 0; k < 2; ++k) {
          Table t; t.o = k ? &m.o2 : &m.o1;
          simheap::SutScope s;
          SutObj* o = sutPlain()->resp(two ? K_R2 : K_R1, isd, 0, (k ? tn : rn).c_str(), m.a.data(), m.b.data(), n, &t);
          o->save((k ? tf : rf).c_str());
          delete o;
        }
        if (miss.find("ref") != std::string::npos && miss != "refcut") simfs::remove(rf);
        if (miss.find("test") != std::string::npos) simfs::remove(tf);
        R += (R.empty() ? "" : ",") + rf; T += (T.empty() ? "" : ",") + tf;
      }
      if (R.empty()) return;
      base.argv = compArgs(*cfg, R, T);
      base.in = simfs::disk();
    }
    auto run = [&](long screen) {
      Proc p = base; p.screen = screen;
      simclk::reset();
      if (tool == 2) { simclk::setThreadCpu(0, cfg->num("cpu")); simclk::afterRead = after; }
      runProc(p);
      simclk::afterRead = nullptr;
      if (!p.ended) violation("screen.died", "%s died%s: %s", base.argv[0].c_str(), screen < 0 ? "" : " when the screen failed", p.died.c_str());
      return p;
    };
    Proc g = run(-1);
    for (auto& l : plan) if (l.cmd == "screen") {
      long at = (long)((double)l.num("at") * 1e-6 * (double)(g.out.size() + 1));
      Proc p = run(at);
      if (p.ret != g.ret) violation("screen.status", "%s ends with status %d instead of %d when the screen fails", base.argv[0].c_str(), p.ret, g.ret);
      for (auto& x : g.disk) {
        auto i = p.disk.find(x.first);
        if (i == p.disk.end()) violation("screen.file", "%s is missing when the screen of %s fails after %ld of %zu characters", x.first.c_str(), base.argv[0].c_str(), at, g.out.size());
        if (i->second != x.second) violation("screen.file", "%s has %zu instead of %zu bytes, or other ones, when the screen of %s fails after %ld of %zu characters", x.first.c_str(), i->second.size(), x.second.size(), base.argv[0].c_str(), at, g.out.size());
      }
      for (auto& x : p.disk) if (!g.disk.count(x.first)) violation("screen.file", "there is an additional file %s when the screen of %s fails", x.first.c_str(), base.argv[0].c_str());
      if (g.out.compare(0, p.out.size(), p.out)) violation("screen.text", "the text of %s before the screen failed differs from that of an undisturbed run", base.argv[0].c_str());
      count(fmt("screen.tool%d", tool).c_str());
      count("screen.files_compared", g.disk.size());
      shm->trace = mix64(shm->trace ^ (uint64_t)at * 31 ^ g.out.size());
    }
    shm->nontrivial = counterValue("fault.screen_fails") > 0 && !g.disk.empty();
  }
  void exec(const std::string& prop, const std::vector<Line>& plan) override {
    simheap::Scope hs;
    simfs::reset();
    simclk::reset();
    if (prop == "P14") p14(plan); else if (prop == "P15") p15(plan); else if (prop == "P24") p24(plan); else if (prop == "P27") p27(plan); else if (prop == "P29") p29(plan); else p16(plan);
  }
};
uint64_t ToolWorld::pseed; int ToolWorld::span;
World* toolWorld() { static ToolWorld w; return &w; }
