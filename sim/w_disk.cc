// Disk world: histories of creating, saving, loading and re-saving diagnostic
// objects on a simulated disk with faults.  Properties P01-P06, P17,
// P25 and P30-P32.
#include <cmath>
#include <iostream>
#include <locale>
#include <memory>
#include <new>
#include <sstream>
#include <errno.h>
#include <locale.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "simos.h"
#include "values.h"
#include "diag.h"

static const char* kindName[] = {"pool", "pool2", "oldpool", "resp", "resp2", "oldresp", "comp", "comp2", "oldcomp"};
static bool isPool(int k) { return k <= K_P1OLD; }


// ---------------------------------------------------------- language settings
struct LangPunct : std::numpunct<char> {
  char sep, point; std::string group;
  LangPunct(char s, char p, const std::string& g) : sep(s), point(p), group(g) {}
  char do_thousands_sep() const override { return sep; }
  char do_decimal_point() const override { return point; }
  std::string do_grouping() const override { return group; }
  std::string do_truename() const override { return "1"; }
};
struct LangType : std::ctype<char> {   // a program that treats commas as blanks, or a blank as a letter
  mask tab[table_size];
  explicit LangType(int k) : std::ctype<char>(tab) {
    std::copy(classic_table(), classic_table() + table_size, tab);
    if (k == 1) tab[(unsigned char)','] |= space; else tab[(unsigned char)' '] &= (mask)~space;
  }
};
struct Lang { std::locale l; const char* env; bool wide; };   // settings of the program, and what the user asks for
static Lang makeLang(uint64_t k) {
  static const char seps[] = {',', '.', ' ', '\'', '_', '0'}, points[] = {'.', ',', '.'};
  static const char* groups[] = {"\3", "\3\2", "\1", "\2", "\4", "\177", "", "\1\2"};
  Rng r(k);
  char sep = seps[r.below(6)], point = points[r.below(3)];
  std::locale l(std::locale::classic(), new LangPunct(sep, point == sep ? (sep == ',' ? '.' : ',') : point, groups[r.below(8)]));
  if (r.chance(1, 3)) l = std::locale(l, new LangType((int)r.range(1, 2)));
  static const char* const envs[] = {nullptr, nullptr, "C.UTF-8", "de_DE.UTF-8", "xx_YY", ""};
  const char* env = envs[r.below(6)];
  return Lang{l, env, r.chance(1, 3)};
}
// the settings hold for what the library does, not for the simulator
struct InLang {
  const Lang* l; std::string c; locale_t t;
  static const char* name() { return setlocale(LC_ALL, nullptr); }
  explicit InLang(const Lang* x) : l(x) {
    if (!l) return;
    simheap::Scope h;
    std::locale::global(l->l);
    if (l->env) setenv("LC_ALL", l->env, 1);
    if (l->wide) setlocale(LC_ALL, "C.UTF-8");   // if there is one
    c = name(); t = uselocale((locale_t)0);
  }
  ~InLang() {
    if (!l) return;
    simheap::Scope h;
    bool same = std::locale() == l->l && c == name() && uselocale((locale_t)0) == t;
    std::locale::global(std::locale::classic());
    unsetenv("LC_ALL");
    setlocale(LC_ALL, "C");
    if (!same) violation("lang.changed", "the library changed the language settings of the program");
  }
};
// rounding direction (two bits), tiny results and tiny arguments taken as zero
struct InMode {
  int mode; unsigned csr; unsigned short x87;
  static unsigned getCsr() { unsigned v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v; }
  static void setCsr(unsigned v) { __asm__ volatile("ldmxcsr %0" : : "m"(v)); }
  static unsigned short getX87() { unsigned short v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
  static void setX87(unsigned short v) { __asm__ volatile("fldcw %0" : : "m"(v)); }
  explicit InMode(int m) : mode(m) {
    if (mode < 0) return;
    csr = getCsr(); x87 = getX87();
    setCsr((csr & ~0xe040u) | (unsigned)(mode & 3) << 13 | (mode & 4 ? 0x8000u : 0) | (mode & 8 ? 0x40u : 0));
    setX87((unsigned short)((x87 & ~0xc00) | (mode & 3) << 10));
  }
  ~InMode() {
    if (mode < 0) return;
    bool same = ((getCsr() & ~0x3fu) == ((csr & ~0xe07fu) | (unsigned)(mode & 3) << 13 | (mode & 4 ? 0x8000u : 0) | (mode & 8 ? 0x40u : 0))) && getX87() == (unsigned short)((x87 & ~0xc00) | (mode & 3) << 10);
    setCsr(csr); setX87(x87);
    if (!same) { simheap::Scope h; violation("mode.changed", "the library changed the floating-point mode of the thread"); }
  }
};

// ------------------------------------------------------------------ generation
static std::string benign(Rng& r, uint64_t n) {
  std::string s;
  uint64_t lo = n > 3000 ? 200 : 1;
  auto chunk = [&]() -> uint64_t { static const uint64_t c[] = {1, 2, 3, 5, 7, 16, 19, 61, 100, 511, 1000, 4096, 8190}; return std::max(lo, c[r.below(13)]); };
  if (r.chance(1, 2)) s += fmt(" wchunk=%llu", (unsigned long long)chunk());
  if (r.chance(1, 2)) s += fmt(" rchunk=%llu", (unsigned long long)chunk());
  if (r.chance(1, 3)) s += fmt(" vary=%llu", (unsigned long long)(1 + r.below(1000000)));
  if (r.chance(1, 3)) s += fmt(" eintr=%d", (int)r.range(2, 6));
  return s;
}
static std::string genName(Rng& r, bool any) {
  static const std::vector<std::string> m = {"", "Exp", "Fast_Exp", "a b", "x=y", "%d %s", "__", "0x12 0x13", "\t", "Function Name = z", "#", "\\n", "\xc3\xa9", "vs", "RMS = 1", "1/2 3 4"};
  static const std::vector<std::string> f = {"", " ", "1.5", "# Fcn", "3f800000 40000000", "0", "-", "nan", "a ", "\t", "\\", "From a.txt", "x\r", "0x1p3"};
  if (any && r.chance(1, 4)) return r.pick(f);
  std::string s = "Qz" + r.pick(m);
  if (r.chance(1, 20)) s += std::string((size_t)r.range(20, 300), 'w');
  return s + "zQ";
}
static uint64_t genSize(Rng& r, int kind, int tier) {
  uint64_t x = r.below(1000);
  if (x < 400) return r.below(9);
  if (x < 700) return r.special(9 + r.below(60));
  if (x < 900) return r.special(60 + r.below(600));
  if (x < 960) { static const uint64_t b[] = {127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2049}; return b[r.below(13)]; }
  if (x < 990) return r.special(700 + r.below(2500));
  if (x == 990 && kind <= K_R1OLD && r.chance(1, 3)) { static const uint64_t b[] = {100000, 131071, 131072, 131073, 200000, 262145}; return b[r.below(6)]; }
  if (x < 990 + (tier ? 6u : 4u)) { static const uint64_t b[] = {65535, 65536, 65537, 66000}; return b[r.below(4)]; }
  return 4095 + r.below(3);
}
static void genNew(Rng& r, PlanText& out, int id, int kind, int isd, uint64_t n, bool plain) {
  if (isPool(kind)) {
    double lo, hi, lo2, hi2;
    auto rg = [&](double& a, double& b) {
      double mx = isd ? 1.7e308 : 3.4e38, mn = isd ? 4.9e-324 : 1.4e-45;
      switch (r.below(9)) {
        case 0: a = -5000; b = 5000; break;
        case 1: a = 0; b = 1; break;
        case 2: a = -mx; b = mx; break;
        case 3: a = -100 * mn; b = 100 * mn; break;
        case 4: a = 1e-5; b = 5000; break;
        case 5: a = b = (double)r.range(-3, 3); break;
        case 6: a = -1e10; b = -1e9; break;
        case 7: a = -0.0; b = 0.0; break;
        default: a = -r.unit() * 1e3; b = r.unit() * 1e6;
      }
    };
    rg(lo, hi); rg(lo2, hi2);
    out.push_back(fmt("new id=%d kind=%d isd=%d n=%llu seed=%lld lo=%.17g hi=%.17g lo2=%.17g hi2=%.17g", id, kind, isd, (unsigned long long)n, (long long)(r.chance(1, 4) ? (int32_t)r.next() : (int32_t)r.range(0, 5)), lo, hi, lo2, hi2));
  } else
    out.push_back(fmt("new id=%d kind=%d isd=%d n=%llu vseed=%llu plain=%d arr=%d name=%s", id, kind, isd, (unsigned long long)n, (unsigned long long)r.below(1ull << 40), plain ? 1 : 0, (int)r.below(2), enc(genName(r, kind < K_C1)).c_str()));
}
static const std::vector<std::string>& paths() {
  static const std::vector<std::string> p = {"a.txt", "b.txt", "c", "d/e.txt", "/sim/f f.txt", "g%1.txt", "From.txt", "-R=h,i.txt", "./j.txt", "k\xc3\xa9.txt", "m" + std::string(180, 'm') + ".txt", "dir/sub/n.txt"};
  return p;
}
// another name of the same file
static std::string alias(Rng& r, const std::string& p) {
  if (!r.chance(1, 6) || !p.compare(0, 6, "nodir/")) return p;
  std::string q = simfs::norm(p);
  switch (r.below(6)) {
    case 0: return "./" + q;
    case 1: return "d/../" + q;
    case 2: return ".//" + q;
    case 3: return "/sim/" + q;
    case 4: return "dir/sub/../.././" + q;
    default: return q;
  }
}

// a name made from that of another file
static std::string related(Rng& r, const std::string& p) {
  size_t sl = p.rfind('/'), dot = p.rfind('.');
  if (dot != std::string::npos && (dot <= (sl == std::string::npos ? 0 : sl + 1))) dot = std::string::npos;
  std::string dir = sl == std::string::npos ? "" : p.substr(0, sl + 1), base = p.substr(dir.size());
  if (base.size() > 200) return p;
  switch (r.below(6)) {   // none that a program would take for a scratch file
    case 0: return p + ".bak";
    case 1: return p + "2";
    case 2: return p + ".old";
    case 3: return dir + "copy_" + base;
    case 4: return dot == std::string::npos ? p + ".txt" : p.substr(0, dot);
    default: return dot == std::string::npos ? p + ".dat" : p.substr(0, dot) + ".dat";
  }
}

struct DiskWorld : World {
  std::map<int, Cal> cals;
  // in a process of its own, so that the first use of the library is that of the plan
  void init(const std::string&) override {
    simheap::Scope hs;
    const SutApi* a = sutPlain();
    muteStdout();
    int was = shm->status;
    Out out;
    out.reset();
    pid_t child = fork();
    if (child < 0) return;
    if (child == 0) {
      alarm(100);
      int n = open("/dev/null", O_WRONLY); dup2(n, 2);
      simfs::reset(); simclk::reset();
      for (int k = 0; k < K_COUNT; ++k) for (int d = 0; d < 2; ++d) {
        Cal c = calibrate(a, k, d);
        out.u64(c.ok); out.u64((uint64_t)c.header); out.u64((uint64_t)c.tokens);
        for (int i : c.at) out.u64((uint64_t)(int64_t)i);
        out.str(c.emptyStats);
      }
      _exit(0);
    }
    int st = 1;
    while (waitpid(child, &st, 0) < 0) if (errno != EINTR) break;
    std::vector<unsigned char> buf(shm->out, shm->out + shm->outlen);
    shm->outlen = 0; shm->status = was;
    if (st != 0) return;   // calibrated when needed
    In in(buf);
    for (int k = 0; k < K_COUNT; ++k) for (int d = 0; d < 2; ++d) {
      Cal c;
      c.ok = in.u64() != 0; c.header = (int)in.u64(); c.tokens = (int)in.u64();
      for (int& i : c.at) i = (int)(int64_t)in.u64();
      c.emptyStats = in.str();
      cals[k * 2 + d] = c;
    }
  }
  void gen(const std::string& prop, uint64_t seed, int tier, uint64_t index, PlanText& out) override {
    if (prop == "P04" && threadWorld() && index % 5 == 4) { threadWorld()->gen(prop, seed, tier, index, out); return; }
    Rng r(mix64(seed * 1000003 + index) ^ hashBytes(prop.data(), prop.size()));
    int p = atoi(prop.c_str() + 1);
    out.push_back(fmt("cfg fill=%d", (int)r.below(256)));
    std::vector<int> kinds;
    if (p == 1) kinds = {K_P1, K_P2, K_P1OLD};
    else if (p == 2) kinds = {K_R1, K_R2, K_R1OLD};
    else if (p == 3) kinds = {K_C1, K_C2, K_C1OLD};
    else kinds = {K_P1, K_P2, K_P1OLD, K_R1, K_R2, K_R1OLD, K_C1, K_C2, K_C1OLD};
    // swarm: a subset of the kinds, of the paths and of the fault kinds per run
    std::vector<int> ks; for (int k : kinds) if (r.chance(1, 2)) ks.push_back(k);
    if (ks.empty()) ks.push_back(r.pick(kinds));
    std::vector<std::string> ps; for (auto& x : paths()) if (r.chance(1, 4)) ps.push_back(x);
    if (ps.empty()) ps.push_back(r.pick(paths()));
    bool useBenign = r.chance(1, 2), plain = r.chance(1, 4);
    unsigned sw = (unsigned)r.next();
    struct O { int kind, isd; bool file; std::string src; uint64_t n; };
    struct Fl { int kind, isd; uint64_t n; };
    std::map<int, O> objs;
    std::map<std::string, Fl> fs;
    int nid = 0;
    int ops = (int)r.range(p == 5 || p == 25 ? 6 : 3, p == 4 ? 12 : p == 17 ? 8 : p == 5 || p == 25 ? 20 : 14);
    if (p == 17 && r.chance(1, 4)) {  // a measurement
      for (int i = 0; i < 3; ++i) out.push_back(fmt("perf form=%d isd=%d n=%d reps=%d nomem=%d sticky=%d", (int)r.below(4), (int)r.below(2), (int)r.range(1, 40), (int)r.range(1, 6), (int)(r.chance(1, 2) ? r.below(8) : r.below(40)), (int)r.below(2)));
    }
    if (p == 17 && r.chance(1, 8))  // showing where functions differ
      for (int i = 0; i < 3; ++i) out.push_back(fmt("funcs form=%d isd=%d n=%d nomem=%d sticky=%d", (int)r.below(6), (int)r.below(2), (int)r.range(1, 9), (int)(r.chance(1, 2) ? r.below(8) : r.below(60)), (int)r.below(2)));
    auto nomem = [&]() -> std::string {
      if (p != 17 || !r.chance(2, 3)) return "";
      return fmt(" nomem=%d sticky=%d", (int)(r.chance(1, 2) ? r.below(6) : r.below(36)), (int)r.below(2));
    };
    if (p == 30) {   // functions that throw or use the library
      for (int i = 0, e = (int)r.range(2, 7); i < e; ++i) {
        std::string f;
        unsigned what = (unsigned)r.below(5);
        if (r.chance(2, 3)) f += fmt(" throwat=%llu tag=%d", (unsigned long long)(r.chance(1, 3) ? r.below(3) : r.below(1ull << 40)), (int)r.below(1000));
        PlanText t;
        if (what != 1 && r.chance(1, 2)) {
          genNew(r, t, 0, r.pick(kinds), (int)r.below(2), r.chance(1, 30) ? 4096 + r.below(900) : r.chance(1, 4) ? r.below(300) : r.below(20), plain);
          f += fmt(" innerat=%llu in=%s", (unsigned long long)(r.chance(1, 3) ? r.below(3) : r.below(1ull << 40)), enc("in" + t[0].substr(3) + (r.chance(1, 3) ? fmt(" throwat=%llu tag=7", (unsigned long long)r.below(1ull << 40)) : "")).c_str());
          t.clear();
        }
        switch (what) {
          case 0: out.push_back(fmt("call form=%d isd=%d n=%d reps=%d", (int)r.below(4), (int)r.below(2), (int)(r.chance(1, 20) ? 4095 + r.below(900) : r.range(1, 40)), (int)r.range(1, 6)) + f); break;
          case 1: out.push_back(fmt("calldiff form=%d isd=%d n=%d", (int)r.below(6), (int)r.below(2), (int)r.range(1, 9)) + f); break;
          default:
            genNew(r, t, nid, r.pick(std::vector<int>{K_R1, K_R2, K_R1OLD}), (int)r.below(2), r.chance(1, 30) ? 4095 + r.below(900) : r.chance(1, 4) ? r.below(400) : r.range(1, 30), plain);
            out.push_back(t[0] + f);
            if (r.chance(1, 2)) { out.push_back(fmt("save id=%d path=%s", nid, enc(r.pick(ps)).c_str())); }
            if (r.chance(1, 4)) out.push_back(fmt("copy id=%d from=%d", nid + 50, nid));
            ++nid;
        }
      }
      return;
    }
    uint64_t big = 0;
    if ((p <= 3 || p == 5 || p == 6 || p == 25) && r.chance(1, p == 3 || p == 6 ? 100 : 50)) {  // the same thing many times
      uint64_t x = r.below(1000), times = x < 500 ? r.range(10, 140) : x < 800 ? r.range(256, 700) : x < 940 ? r.range(1024, 2200) : x < 990 ? r.range(4096, 6000) : x < 998 ? r.range(10000, 17000) : 65530 + r.below(600);
      int k = r.pick(ks), isd = (int)r.below(2);
      PlanText t;
      genNew(r, t, 900, k, isd, times > 3000 ? r.below(3) : r.below(12), plain);
      std::string f;
      if (p == 6) switch (r.below(5)) {
        case 0: f = fmt(" open=0 openerr=%d", (int)(r.chance(1, 2) ? 13 : 24)); break;
        case 1: f = fmt(" enospcat=%llu", (unsigned long long)r.below(1ull << 40)); break;
        case 2: f = fmt(" weioat=%llu", (unsigned long long)r.below(1ull << 40)); break;
        case 3: f = fmt(" close=%d", (int)r.below(2)); break;
        default: f = fmt(" reioat=%llu", (unsigned long long)r.below(1ull << 40)); break;
      }
      out.push_back("rep" + t[0].substr(3) + fmt(" times=%llu mode=%d okevery=%d path=%s", (unsigned long long)times, p == 5 ? 2 : p == 25 ? 3 : (int)r.below(3), (int)r.pick(std::vector<int>{2, 3, 10, 100, 300}), enc(r.pick(ps)).c_str()) + f);
    }
    if (p != 4 && p != 6 && p != 17 && r.chance(1, 8))   // the first thing to load is not there
      out.push_back(fmt("load id=800 kind=%d isd=%d path=missing.txt", r.pick(ks), (int)r.below(2)));
    for (int i = 0; i < ops; ++i) {
      unsigned what = (unsigned)r.below(10);
      if (objs.empty() && fs.empty()) what = 0;
      if (!objs.empty() && r.chance(p == 25 ? 4 : p == 5 || p == 17 || p == 31 || p == 32 ? 1 : 0, 12)) {
        auto it = objs.begin(); std::advance(it, (long)r.below(objs.size()));
        O o = it->second;
        out.push_back(fmt("copy id=%d from=%d", nid, it->first) + nomem());
        objs[nid++] = o;
        continue;
      }
      if (p == 25 && !objs.empty() && r.chance(1, 6)) {
        auto it = objs.begin(); std::advance(it, (long)r.below(objs.size()));
        if (r.chance(1, 2)) out.push_back(fmt("add id=%d vseed=%llu k=%d", it->first, (unsigned long long)r.below(1ull << 40), (int)r.range(1, 5)));
        else { out.push_back(fmt("drop id=%d", it->first)); objs.erase(it); }
        continue;
      }
      if (what < 2 || objs.empty()) {
        if (!fs.empty() && objs.empty() && r.chance(1, 2)) goto load;
        int k = r.pick(ks), isd = (int)r.below(2);
        uint64_t n = genSize(r, k, tier);
        if (n == 0 && p == 5) n = 1 + r.below(6);
        if (n > 3000 && (big || p == 17 || p == 5 || p == 25)) n %= 500;
        if (n > 70000 && p > 2) n %= 500;
        if (n > 3000) ++big;
        if (p == 17) n %= 300;
        genNew(r, out, nid, k, isd, n, plain);
        out.back() += nomem();
        objs[nid++] = {k, isd, false, "", n};
      } else if (what < 6) {
        auto it = objs.begin(); std::advance(it, (long)r.below(objs.size()));
        if (p == 5 && !it->second.file && r.chance(2, 3)) for (auto k = objs.begin(); k != objs.end(); ++k) if (k->second.file) { it = k; if (r.chance(1, 2)) break; }
        std::string path = r.pick(ps);
        if ((p == 5 || p == 25) && it->second.file && r.chance(1, 2)) path = it->second.src;
        else if (it->second.file && norm(path) == norm(it->second.src) && p != 5 && p != 25) continue;
        if (r.chance(1, 8)) path = related(r, it->second.file ? it->second.src : path);
        std::string f = useBenign ? benign(r, it->second.n) : "";
        if (p == 4 && r.chance(3, 4)) {
          switch ((r.below(4) + sw) % 4) {
            case 0: case 1: f += fmt(" crashat=%llu", (unsigned long long)r.below(1ull << 40)); break;
            case 2: f += fmt(" enospcat=%llu", (unsigned long long)r.below(1ull << 40)); break;
            case 3: f += fmt(" weioat=%llu", (unsigned long long)r.below(1ull << 40)); break;
          }
          if (r.chance(1, 12)) f += fmt(" crashcall=%d", (int)r.below(6));
        }
        if ((p == 6 && r.chance(1, 2)) || (p == 25 && r.chance(1, 8))) {
          switch (r.below(8)) {
            case 7: f += " ro=1"; break;
            case 0: f += fmt(" open=%d openerr=%d", (int)r.below(2), (int)(r.chance(1, 2) ? 13 : 24)); break;
            case 1: f += " open=0 openall=1 openerr=24"; break;
            case 2: f += fmt(" enospcat=%llu", (unsigned long long)r.below(1ull << 40)); break;
            case 3: f += fmt(" weioat=%llu", (unsigned long long)r.below(1ull << 40)); break;
            case 4: f += fmt(" close=%d", (int)r.below(2)); break;
            case 5: f += fmt(" reioat=%llu", (unsigned long long)r.below(1ull << 40)); break;
            case 6: path = "nodir/x.txt"; break;
          }
        }
        f += nomem();
        path = alias(r, path);
        out.push_back(fmt("save id=%d path=%s%s", it->first, enc(path).c_str(), f.c_str()));
        if (p == 6 && r.chance(1, 2)) out.push_back(fmt("save id=%d path=%s", it->first, enc(path == "nodir/x.txt" ? ps[0] : path).c_str()));
        if (path != "nodir/x.txt") fs[norm(path)] = {it->second.kind, it->second.isd, it->second.n};
        else if (p == 6) { /* nothing there */ }
      } else if (what < 9) {
      load:
        if (fs.empty()) continue;
        auto it = fs.begin(); std::advance(it, (long)r.below(fs.size()));
        std::string path = alias(r, it->first);
        std::string f = useBenign ? benign(r, it->second.n) : "";
        if (p == 4 && r.chance(1, 4)) out.push_back(r.chance(1, 2) ? fmt("cut path=%s by=%d", enc(path).c_str(), (int)r.range(1, 60)) : fmt("cut path=%s at=%llu", enc(path).c_str(), (unsigned long long)r.below(1ull << 40)));
        if (p == 6 && r.chance(1, 2)) {
          switch (r.below(5)) {
            case 0: f += fmt(" open=0 openerr=%d", (int)(r.chance(1, 2) ? 13 : 24)); break;
            case 1: case 2: f += fmt(" reioat=%llu", (unsigned long long)r.below(1ull << 40)); break;
            case 3: path = r.chance(1, 2) ? "missing.txt" : "nodir/y.txt"; break;
            case 4: f += " close=0"; break;
          }
        }
        if (p == 6 && r.chance(1, 12)) out.push_back(fmt("del path=%s", enc(path).c_str()));
        if (p != 17 && r.chance(1, 12)) f += " ro=1";   // a medium that cannot be written
        f += nomem();
        out.push_back(fmt("load id=%d kind=%d isd=%d path=%s%s", nid, it->second.kind, it->second.isd, enc(path).c_str(), f.c_str()));
        objs[nid++] = {it->second.kind, it->second.isd, true, path, it->second.n};
        if (p != 4 && p != 17 && r.chance(1, 8) && it->second.n <= 3000) {  // something else of the same kind and size takes the place of what was just read
          genNew(r, out, nid, it->second.kind, it->second.isd, it->second.n, plain);
          out.push_back(fmt("save id=%d path=%s", nid, enc(it->first).c_str()));
          objs[nid++] = {it->second.kind, it->second.isd, false, "", it->second.n};
          out.push_back(fmt("load id=%d kind=%d isd=%d path=%s", nid, it->second.kind, it->second.isd, enc(alias(r, it->first)).c_str()));
          objs[nid++] = {it->second.kind, it->second.isd, true, it->first, it->second.n};
          continue;
        }
        if (p == 6 && r.chance(1, 2)) { out.push_back(fmt("load id=%d kind=%d isd=%d path=%s", nid, it->second.kind, it->second.isd, enc(it->first).c_str())); objs[nid++] = {it->second.kind, it->second.isd, true, it->first, it->second.n}; }
      } else if (r.chance(1, 2)) {
        auto it = objs.begin(); std::advance(it, (long)r.below(objs.size()));
        out.push_back(fmt("drop id=%d", it->first));
        objs.erase(it);
      } else {
        auto it = objs.begin(); std::advance(it, (long)r.below(objs.size()));
        out.push_back(fmt("chk id=%d", it->first));
      }
    }
    // everything that was saved is read at least once
    for (auto& f : fs) out.push_back(fmt("load id=%d kind=%d isd=%d path=%s%s", nid++, f.second.kind, f.second.isd, enc(f.first).c_str(), useBenign ? benign(r, f.second.n).c_str() : ""));
    if (p == 32)
      for (auto& l : out) if (l.compare(0, 3, "cfg") && r.chance(2, 3)) l += fmt(" mode=%d", (int)r.below(16));
    if (p == 31) {   // few settings per run, changed between the operations
      std::vector<uint64_t> ls; for (int i = (int)r.range(1, 3); i > 0; --i) ls.push_back(r.below(1ull << 40));
      for (auto& l : out) if (l.compare(0, 3, "cfg") && r.chance(2, 3)) l += fmt(" lang=%llu", (unsigned long long)r.pick(ls));
    }
  }

  // ---------------------------------------------------------------- execution
  struct ObjM { SutObj* o; int kind, isd; Data d; bool file; std::string src; std::string name; int family = 0; bool grown = false; };
  struct FileM { int kind, isd; Data d; bool exact; bool loose; };  // loose: memory ran out during the save, any leading part is legal
  std::map<int64_t, ObjM> objs;
  std::map<std::string, FileM> files;
  const SutApi* api;
  int p;
  std::unique_ptr<Lang> set;   // of the current operation
  int mode = -1;

  const Cal& cal(int kind, int isd) {
    int key = kind * 2 + isd;
    if (!cals.count(key)) {
      simfs::Disk keep = simfs::disk();
      cals[key] = calibrate(api, kind, isd);
      simfs::setDisk(keep);
    }
    return cals[key];
  }
  void checkObj(const ObjM& o, const char* when) {
    Data now = snapshot(o.o, o.kind, o.isd, o.name);
    std::string why = diffData(o.d, now, o.d.n());
    if (!why.empty() || now.n() != o.d.n()) violation("object.changed", "%s: a %s in memory changed: %s", when, kindName[o.kind], why.c_str());
  }
  void checkAll(const char* when, size_t limit) { for (auto& o : objs) if (o.second.d.n() <= limit) checkObj(o.second, when); }
  int families = 0;
  // the copies and the original of an object that just changed or went away
  void checkFamily(int family, int64_t but, const char* when) {
    if (!family) return;
    for (auto& o : objs) if (o.second.family == family && o.first != but) { checkObj(o.second, when); count("copy.checked"); }
  }
  void dropObj(std::map<int64_t, ObjM>::iterator i) { { simheap::SutScope s; delete i->second.o; } objs.erase(i); }
  static std::string norm(const std::string& s) { return simfs::norm(s); }

  void exec(const std::string& prop, const std::vector<Line>& plan) override {
    simheap::Scope hs;
    for (auto& l : plan) if (l.cmd == "thread") { threadWorld()->init(prop); threadWorld()->exec(prop, plan); return; }
    api = sutPlain();
    p = atoi(prop.c_str() + 1);
    if (p == 17 || p == 30) cals.clear();   // what the library keeps since its first use is not lost
    simfs::reset();
    simclk::reset();
    long base = simheap::live();
    bool leakWatch = false;
    for (auto& l : plan) {
      ev(l.cmd.c_str(), 0);
      shm->trace = mix64(shm->trace ^ hashBytes(l.cmd.data(), l.cmd.size()) ^ l.unum("kind") * 77 ^ l.unum("isd") * 131);
      set.reset(l.has("lang") ? new Lang(makeLang(l.unum("lang"))) : nullptr);
      if (set) count("fault.language_settings");
      mode = p == 32 ? (int)l.num("mode", -1) : -1;
      if (mode >= 0 && l.cmd != "new") { count("fault.floating_point_mode"); ev("mode", (uint64_t)mode); }
      if (l.cmd == "cfg") g_fill = (unsigned char)l.num("fill", 0xA5);
      else if (l.cmd == "new") opNew(l, leakWatch);
      else if (l.cmd == "save") opSave(l, leakWatch);
      else if (l.cmd == "load") opLoad(l, leakWatch);
      else if (l.cmd == "rep") opRep(l, leakWatch);
      else if (l.cmd == "perf" || l.cmd == "funcs") opPerf(l);
      else if (l.cmd == "call" || l.cmd == "calldiff") opCall(l);
      else if (l.cmd == "chk") { auto i = objs.find(l.num("id")); if (i != objs.end()) checkObj(i->second, "later"); }
      else if (l.cmd == "drop") { auto i = objs.find(l.num("id")); if (i != objs.end()) { int fm = i->second.family; dropObj(i); checkFamily(fm, -1, "after the destruction of its copy or original"); } }
      else if (l.cmd == "copy") opCopy(l, leakWatch);
      else if (l.cmd == "add") opAdd(l);
      else if (l.cmd == "del") { std::string q = norm(dec(l.str("path"))); simfs::remove(q); files.erase(q); count("op.delete"); }
      else if (l.cmd == "cut") {
        std::string q = norm(dec(l.str("path")));
        if (!simfs::exists(q) || !files.count(q)) continue;
        std::string c = simfs::content(q);
        size_t keep = l.has("by") ? (c.size() > l.unum("by") ? c.size() - l.unum("by") : 0) : l.unum("at") % (c.size() + 1);
        if (keep >= c.size()) continue;
        simfs::setContent(q, c.substr(0, keep));
        files[q].exact = false;
        count("fault.file_lost_its_end");
        ev("cut", keep);
      }
    }
    set.reset();
    checkAll("at the end", 1u << 20);
    while (!objs.empty()) dropObj(objs.begin());
    if (simfs::openFiles()) violation("open.files", "%d files still open at the end", simfs::openFiles());
    if (leakWatch && simheap::live() != base) violation("alloc.leak", "%ld blocks of memory lost after a failed allocation", simheap::live() - base);
    bool nt = false;
    switch (p) {
      case 1: case 2: case 3: nt = counterValue("read.back.records") > 0; break;
      case 4: nt = counterValue("read.torn") > 0; break;
      case 5: nt = counterValue("read.resaved") > 0; break;
      case 6: nt = counterValue("op.failed") > 0; break;
      case 25: nt = counterValue("copy.checked") > 0; break;
      case 17: nt = counterValue("fault.out_of_memory") > 0; break;
      case 32: nt = counterValue("fault.floating_point_mode") > 0 && counterValue("read.back.records") > 0; break;
      case 31: nt = counterValue("lang.same_content") > 0 && counterValue("read.back.records") > 0; break;
      case 30: nt = counterValue("fault.function_throws") + counterValue("call.inner") > 0; break;
    }
    shm->nontrivial = nt ? 1 : 0;
  }

  // resolves fault positions given modulo the size of the transfer
  simfs::Faults faults(const Line& l, const std::function<size_t()>& wsize, size_t rsize) {
    simfs::Faults f = simfs::parseFaults(l);
    if (l.has("crashat") || l.has("enospcat") || l.has("weioat")) {
      size_t n = wsize();
      if (l.has("crashat")) f.crash = (long)(l.unum("crashat") % (n + 1));
      if (l.has("enospcat")) f.enospc = (long)(l.unum("enospcat") % (n + 1));
      if (l.has("weioat")) f.weio = (long)(l.unum("weioat") % (n + 1));
    }
    if (l.has("reioat")) f.reio = (long)(l.unum("reioat") % (rsize + 1));
    return f;
  }
  void heapBegin(const Line& l) { simheap::begin(l.num("nomem", -1), l.num("sticky", 0) != 0); }

  // the same operations many times, in one process
  void opRep(const Line& l, bool& watch) {
    Line ok = l, bad = l, made = l;
    for (const char* k : {"open", "enospcat", "weioat", "close", "reioat"}) { ok.kv.erase(k); made.kv.erase(k); }
    int mode = (int)l.num("mode");
    int64_t okEvery = std::max<int64_t>(1, l.num("okevery", 1));
    Line ld = ok, ldBad = bad;
    ld.kv["id"] = ldBad.kv["id"] = "901";
    Line cp = ok; cp.kv["from"] = "900"; cp.kv["id"] = "902";
    std::string a = l.str("path"), b = enc("rep.txt");
    for (uint64_t i = 0; i < l.unum("times"); ++i) {
      if (i == 0 || mode == 1) {
        if (i) { made.kv["seed"] = fmt("%lld", (long long)(int32_t)(l.num("seed") + (int64_t)i)); made.kv["vseed"] = fmt("%llu", (unsigned long long)(l.unum("vseed") + i)); }
        opNew(made, watch);
      }
      bool good = i % (uint64_t)okEvery == 0;
      if (mode == 2 && i) {          // a generation: loaded and saved again, now and then in place
        ld.kv["path"] = a; opLoad(ld, watch);
        if (i % 3) std::swap(a, b);
        Line s = good ? ok : bad; s.kv["id"] = "901"; s.kv["path"] = a;
        opSave(s, watch);
        if (!good) { s = ok; s.kv["id"] = "901"; s.kv["path"] = a; opSave(s, watch); if (!files.count(norm(dec(a))) || !files[norm(dec(a))].exact) return; }
        ld.kv["path"] = a; opLoad(ld, watch);
        continue;
      }
      if (mode == 3 && i) {          // copies come and go
        opCopy(cp, watch);
        auto it = objs.find(i % 2 ? 900 : 902);
        if (it == objs.end()) return;
        Line s = ok; s.kv["id"] = i % 2 ? "900" : "902"; opSave(s, watch);
        dropObj(it);
        if (i % 2) { auto c = objs.find(902); if (c != objs.end()) { ObjM m = c->second; objs.erase(c); objs[900] = m; } }
        checkFamily(objs[900].family, -1, "after the destruction of its copy or original");
        continue;
      }
      opSave(good ? ok : bad, watch);
      opLoad(good ? ld : i % 2 ? ldBad : ld, watch);
    }
    count("op.repeated", l.unum("times"));
    for (int64_t id : {900, 901, 902}) { auto i = objs.find(id); if (i != objs.end()) dropObj(i); }
  }

  void opPerf(const Line& l) {
    struct Cb : SutCb { uint64_t calls = 0; uint64_t value(uint64_t a, uint64_t) override { if (calls++ % 5 == 0) needMemory(); return a; } void arrayCall(uint64_t) override {} } cb;
    size_t n = l.unum("n");
    int isd = (int)l.num("isd");
    bool funcs = l.cmd == "funcs";
    if (funcs && !api->funcDiff) return;
    const char* what = funcs ? "showing function differences" : "a measurement";
    std::vector<uint64_t> a(n, numBits(1.5, isd));
    long before = simheap::live();
    for (int round = 0; round < 2; ++round) {
      SutPerf* o = nullptr;
      bool oom = false;
      if (round == 0) heapBegin(l); else simheap::begin(-1, false);
      { simheap::SutScope s; try { if (funcs) api->funcDiff(isd, (int)l.num("form"), "funcs", a.data(), a.data(), n, &cb, &cb); else o = api->perf(isd, (int)l.num("form"), "perf", a.data(), a.data(), n, (uint32_t)l.num("reps"), &cb); } catch (const std::bad_alloc&) { oom = true; } }
      simheap::Result hr = simheap::end();
      if (oom && !hr.fired) violation("alloc.exception", "%s reported lack of memory although there was enough", what);
      { simheap::SutScope s; delete o; }
      if (simheap::live() != before) violation("alloc.leak", "%s that ran out of memory lost %ld blocks", what, simheap::live() - before);
      if (!hr.fired) break;
    }
    count(funcs ? "op.funcs" : "op.perf");
  }

  // what a function handed to the library does with the library itself
  void opInner(const Line& l) {
    int kind = (int)l.num("kind"), isd = (int)l.num("isd");
    if (kind < 0 || kind >= K_COUNT) return;
    cal(kind, isd);
    const std::string path = "inner.txt", name = dec(l.str("name"));
    long before = simheap::live();
    Made mk = prepare(l, kind, isd, l.unum("n"));
    arm(mk.fn.get(), l, mk.n);
    SutObj* o = attempt(mk, name);
    Data d = snapshot(o, kind, isd, name);
    std::string why = verifyMade(mk, d, cal(kind, isd));
    if (!why.empty()) violation("inner.wrong", "a %s (%s, %zu records) made by a function that was called by the library is wrong: %s", kindName[kind], isd ? "double" : "float", mk.n, why.c_str());
    SutObj* q;
    { simheap::SutScope s; o->save(path.c_str()); q = api->load(kind, isd, path.c_str()); }
    Data e = snapshot(q, kind, isd, "From " + path);
    why = e.n() != d.n() ? fmt("%zu records instead of %zu", e.n(), d.n()) : diffData(d, e, d.n());
    if (!why.empty()) violation("inner.wrong", "a %s (%s, %zu records) saved and loaded by a function that was called by the library is wrong: %s", kindName[kind], isd ? "double" : "float", mk.n, why.c_str());
    { simheap::SutScope s; delete o; delete q; }
    simfs::remove(path);
    if (simheap::live() != before) violation("call.leak", "objects used by a function that was called by the library lost %ld blocks", simheap::live() - before);
    count("call.inner");
  }
  void arm(HashFn* f, const Line& l, uint64_t total) {
    if (!f) return;
    f->calls = 0; f->fired = false;
    f->throwAt = l.has("throwat") && total ? (long)(l.unum("throwat") % total) : -1; f->tag = l.num("tag");
    if (l.has("in") && total) { Line in = parsePlan({dec(l.str("in"))})[0]; f->innerAt = (long)(l.unum("innerat") % total); f->inner = [this, in]() { opInner(in); }; }
  }
  // calls the library with a function that may throw; what was thrown must arrive
  template <class F> bool passed(HashFn& f, const char* what, F go) {
    bool thrown = false;
    long got = -1;
    { simheap::SutScope s;
      try { go(); }
      catch (const Thrown& t) { got = t.tag; thrown = t.tag % 4 == 0; }
      catch (const ThrownDomain& t) { got = t.tag; thrown = t.tag % 4 == 1; }
      catch (const ThrownRuntime& t) { got = t.tag; thrown = t.tag % 4 == 2; }
      catch (long t) { got = t; thrown = t % 4 == 3; }
      catch (...) { simheap::Scope h; violation("call.exception", "%s: an exception of another type arrived", what); } }
    if (got >= 0 && (!thrown || !f.fired || got != f.tag)) violation("call.exception", "%s: another exception arrived than the one that was thrown", what);
    if (f.fired && !thrown) violation("call.swallowed", "%s: the exception thrown by the function did not reach the caller", what);
    if (thrown) count("fault.function_throws");
    if (simfs::openFiles()) violation("open.files", "%s: %d files are open", what, simfs::openFiles());
    return !thrown;
  }
  SutObj* attempt(const Made& mk, const std::string& name) {
    SutObj* o = nullptr;
    if (!mk.fn) { simheap::SutScope s; return construct(api, mk, name); }
    long before = simheap::live();
    if (passed(*mk.fn, "a new response", [&]() { o = construct(api, mk, name); })) return o;
    if (simheap::live() != before) violation("call.leak", "a new %s whose function threw lost %ld blocks", kindName[mk.kind], simheap::live() - before);
    mk.fn->throwAt = -1; mk.fn->calls = 0; mk.fn->innerAt = -1; mk.fn->fired = false;
    simheap::SutScope s;
    return construct(api, mk, name);
  }
  void opCall(const Line& l) {
    size_t n = l.unum("n");
    int isd = (int)l.num("isd"), form = (int)l.num("form");
    uint32_t reps = (uint32_t)std::max<int64_t>(1, l.num("reps", 1));
    bool funcs = l.cmd == "calldiff";
    if (!n || (funcs && !api->funcDiff)) return;
    const char* what = funcs ? "showing function differences" : "a measurement";
    std::vector<uint64_t> a, b;
    Rng r(l.unum("n") * 77 + 5);
    for (size_t i = 0; i < n; ++i) { a.push_back(plainBits(r.next(), isd)); b.push_back(plainBits(r.next(), isd)); }
    if (l.has("in")) { Line in = parsePlan({dec(l.str("in"))})[0]; cal((int)(in.unum("kind") % K_COUNT), (int)in.num("isd")); }
    // the text, and how the program shows numbers afterwards
    auto shown = [&](const std::function<void()>& go, std::string& own) {
      std::string t = captureStdout([&]() { go(); std::cout << '\1' << 1.0 / 3 << " " << 255 << " " << 1e10f << std::endl; });
      size_t k = t.rfind('\1');
      own = k == std::string::npos ? "nothing" : t.substr(k + 1);
      return t.substr(0, k);
    };
    auto once = [&](HashFn& f, HashFn& g) {
      if (funcs) { api->funcDiff(isd, form, "Qfn", a.data(), b.data(), n, &f, &g); return; }
      SutPerf* o = api->perf(isd, form, "Qfn", a.data(), b.data(), n, reps, &f);
      delete o;
    };
    HashFn f, g; f.isd = g.isd = isd; f.plain = g.plain = true; f.seed = 1; g.seed = 2;
    std::string m0, m1, t0 = shown([&]() { simheap::SutScope s; once(f, g); }, m0);
    uint64_t fc = f.calls, gc = g.calls;
    if (!fc) return;
    long before = simheap::live();
    HashFn f1 = f, g1 = g;
    f1.calls = g1.calls = 0;
    arm(&f1, l, fc);
    bool whole = true;
    std::string t1 = shown([&]() { whole = passed(f1, what, [&]() { once(f1, g1); }); }, m1);
    if (simheap::live() != before) violation("call.leak", "%s with a function that throws or uses the library lost %ld blocks", what, simheap::live() - before);
    if (m1 != m0) violation("call.format", "after %s with a function that throws or uses the library the program shows '%s' instead of '%s'", what, m1.c_str(), m0.c_str());
    if (whole && (f1.calls != fc || g1.calls != gc)) violation("call.count", "%s with a function that uses the library evaluated it %llu times instead of %llu", what, (unsigned long long)f1.calls, (unsigned long long)fc);
    if (whole && funcs && !l.has("in") && t1 != t0) violation("call.text", "%s twice gave different texts", what);
    f.calls = g.calls = 0;
    std::string t2 = shown([&]() { simheap::SutScope s; once(f, g); }, m1);
    if (f.calls != fc || g.calls != gc) violation("call.count", "%s after one with a function that throws or uses the library evaluated it %llu times instead of %llu", what, (unsigned long long)f.calls, (unsigned long long)fc);
    if (funcs && t2 != t0) violation("call.text", "%s after one with a function that throws or uses the library gave another text", what);
    checkAll("after a function that threw or used the library", 400);
    count(funcs ? "call.funcs" : "call.perf");
  }

  void opNew(const Line& l, bool& watch) {
    int kind = (int)l.num("kind"), isd = (int)l.num("isd");
    size_t n = l.unum("n");
    if (kind < 0 || kind >= K_COUNT) return;
    ObjM m; m.kind = kind; m.isd = isd; m.file = false; m.o = nullptr;
    m.name = dec(l.str("name"));
    Made mk = prepare(l, kind, isd, n);
    if (mk.fn && p == 17) mk.fn->allocates = true;
    if (p == 30 && mk.fn) { arm(mk.fn.get(), l, kind < K_C1 ? n : 0); if (l.has("in")) { Line in = parsePlan({dec(l.str("in"))})[0]; cal((int)(in.unum("kind") % K_COUNT), (int)in.num("isd")); } cal(kind, isd); }
    long before = simheap::live();
    heapBegin(l);
    bool oom = false;
    if (p == 30) { m.o = attempt(mk, m.name); checkAll("after a function that threw or used the library", 400); }
    else { InLang in(set.get()); simheap::SutScope s; try { m.o = construct(api, mk, m.name); } catch (const std::bad_alloc&) { oom = true; } }
    simheap::Result hr = simheap::end();
    if (oom) {
      if (!hr.fired) violation("alloc.exception", "creating a %s reported lack of memory although there was enough", kindName[kind]);
      if (simheap::live() != before) violation("alloc.leak", "creating a %s that ran out of memory lost %ld blocks", kindName[kind], simheap::live() - before);
      checkAll("after a failed allocation", 400);
      return;
    }
    if (hr.fired) watch = true;
    m.d = snapshot(m.o, kind, isd, m.name);
    std::string why = verifyMade(mk, m.d, cal(kind, isd));
    if (!why.empty()) violation("created.wrong", "a new %s (%s, %zu records) is wrong: %s", kindName[kind], isd ? "double" : "float", n, why.c_str());
    count("op.new"); count("records.created", n);
    auto old = objs.find(l.num("id"));
    if (old != objs.end()) dropObj(old);
    objs[l.num("id")] = m;
  }

  void opCopy(const Line& l, bool& watch) {
    auto it = objs.find(l.num("from"));
    if (it == objs.end() || objs.count(l.num("id"))) return;
    if (!it->second.family) it->second.family = ++families;
    ObjM m = it->second;
    m.o = nullptr;
    long before = simheap::live();
    heapBegin(l);
    bool oom = false;
    { InLang in(set.get()); simheap::SutScope s; InMode im(mode); try { m.o = it->second.o->copy(); } catch (const std::bad_alloc&) { oom = true; } }
    simheap::Result hr = simheap::end();
    if (oom) {
      if (!hr.fired) violation("alloc.exception", "copying a %s reported lack of memory although there was enough", kindName[m.kind]);
      if (simheap::live() != before) violation("alloc.leak", "copying a %s that ran out of memory lost %ld blocks", kindName[m.kind], simheap::live() - before);
      checkAll("after a failed allocation", 400);
      return;
    }
    if (hr.fired) watch = true;
    checkObj(m, "right after it was made as a copy");
    count("op.copy");
    objs[l.num("id")] = m;
    if (m.d.n() <= 400) checkFamily(m.family, l.num("id"), "after it was copied");
  }
  void opAdd(const Line& l) {
    auto it = objs.find(l.num("id"));
    if (it == objs.end() || it->second.d.comp || it->second.d.col.size() < 2) return;
    ObjM& m = it->second;
    Rng r(l.unum("vseed"));
    for (int64_t k = std::min<int64_t>(20, l.num("k", 1)); k > 0; --k) {
      uint64_t a = weirdBits(r.next(), m.isd), b = weirdBits(r.next(), m.isd), o = weirdBits(r.next(), m.isd);
      bool done; { InLang in(set.get()); simheap::SutScope s; InMode im(mode); done = m.o->add(a, b, o); }
      if (!done) return;
      m.d.col[0].push_back(a);
      if (m.d.col.size() > 2) m.d.col[1].push_back(b);
      m.d.col.back().push_back(o);
      m.grown = true;
    }
    count("op.add");
    checkObj(m, "after records were added to it");
    checkFamily(m.family, it->first, "after records were added to its copy or original");
  }

  void compareDisk(const simfs::Disk& before, const std::string& target, const char* what, bool nothingNew) {
    simfs::Disk now = simfs::disk();
    if (nothingNew) for (auto& f : now) if (f.first != target && !before.count(f.first)) violation("other.file", "%s left another file behind (%s)", what, f.first.c_str());
    for (auto& f : before) {
      if (f.first == target || !files.count(f.first)) continue;   // files of its own that a save left behind may go
      auto i = now.find(f.first);
      if (i == now.end()) violation("other.file", "%s removed another file (%s)", what, f.first.c_str());
      if (i->second != f.second) violation("other.file", "%s changed another file (%s)", what, f.first.c_str());
    }
  }

  // an object and a copy of it in the same state save the same bytes
  void compareTwin(const ObjM& m, int64_t id) {
    if (!m.family || m.d.n() > 2000) return;
    for (auto& o : objs) {
      const ObjM& t = o.second;
      if (t.family != m.family || o.first == id || t.d.n() != m.d.n() || t.d.stats != m.d.stats || !diffData(m.d, t.d, m.d.n()).empty()) continue;
      simfs::Disk keep = simfs::disk();
      simfs::begin(simfs::Faults());
      { simheap::SutScope s; m.o->save("probe.one"); t.o->save("probe.two"); }
      simfs::end();
      bool same = simfs::content("probe.one") == simfs::content("probe.two");
      simfs::setDisk(keep);
      if (!same) violation("copy.content", "a %s %s and its copy save different content", m.file ? "loaded" : "new", kindName[m.kind]);
      count("copy.same_content");
      return;
    }
  }
  void opSave(const Line& l, bool& watch) {
    auto it = objs.find(l.num("id"));
    if (it == objs.end()) return;
    ObjM& m = it->second;
    std::string path = dec(l.str("path")), key = norm(path);
    size_t rsize = 0;
    if (p == 25) compareTwin(m, it->first);
    if (m.file && m.grown) { count("op.skipped_source_changed"); return; }
    if (m.file) {  // a loaded object is saved by copying its file
      auto s = files.find(norm(m.src));
      bool ok = s != files.end() && s->second.exact && s->second.kind == m.kind && s->second.isd == m.isd && s->second.d.n() == m.d.n() && s->second.d.stats == m.d.stats && diffData(m.d, s->second.d, m.d.n()).empty();
      if (!ok) { count("op.skipped_source_changed"); return; }
      rsize = simfs::content(norm(m.src)).size();
    }
    simfs::Faults f = faults(l, [&]() {
      simfs::Disk keep = simfs::disk();
      simfs::begin(simfs::Faults());
      { simheap::SutScope s; m.o->save("probe.size"); }
      simfs::end();
      size_t n = simfs::content("probe.size").size();
      simfs::setDisk(keep);
      return n;
    }, rsize);
    simfs::Disk before = simfs::disk();
    bool existed = before.count(key) != 0;
    bool inplace = m.file && norm(m.src) == key;
    long live = simheap::live();
    heapBegin(l);
    simfs::begin(f);
    bool oom = false;
    {
      InLang in(set.get());
      simheap::SutScope s;
      InMode im(mode);
      try { m.o->save(path.c_str()); }
      catch (const std::bad_alloc&) { oom = true; }
      catch (const std::exception& e) { simheap::Scope h; violation("save.exception", "saving a %s threw an exception: %s", kindName[m.kind], e.what()); }
    }
    int left = simfs::openFiles();
    simfs::Fired fr = simfs::end();
    simheap::Result hr = simheap::end();
    if (oom && !hr.fired) violation("alloc.exception", "saving a %s reported lack of memory although there was enough", kindName[m.kind]);
    if (left) violation("open.files", "saving a %s left %d files open", kindName[m.kind], left);
    if (oom && simheap::live() != live) violation("alloc.leak", "saving a %s that ran out of memory lost %ld blocks", kindName[m.kind], simheap::live() - live);
    if (hr.fired) { watch = true; }
    bool nodir = !key.compare(0, 6, "nodir/");
    bool failed = fr.failed() || fr.ro || hr.fired || nodir;
    // a save that could not open its file has nothing to leave behind
    bool onlyOpen = (fr.open || nodir) && !fr.enospc && !fr.weio && !fr.reio && !fr.crash && !fr.ro && !hr.fired;
    compareDisk(before, key, fr.crash ? "an interrupted save" : "a save", (!failed || onlyOpen) && !fr.close);
    count("op.save");
    if (failed) count("op.failed");
    if (inplace) count("op.save_in_place");
    FileM nf; nf.kind = m.kind; nf.isd = m.isd; nf.d = m.d; nf.exact = !failed && !fr.close; nf.loose = hr.fired;
    if (!simfs::exists(key)) {
      if (!failed && !fr.close) violation("save.missing", "a save without failures left no file");
      if (existed && !fr.crash) violation("save.removed", "a failed save removed the old file");
      files.erase(key);
    } else if ((failed || fr.close) && existed && simfs::content(key) == before[key]) {
      // nothing happened to the old file
    } else {
      if (m.file) nf.d.resaved = true;
      files[key] = nf;
    }
    if (p == 31 && set && nf.exact && simfs::exists(key) && !inplace) {   // the settings do not show in the file
      simfs::Disk keep = simfs::disk();
      simfs::begin(simfs::Faults());
      { simheap::SutScope s; m.o->save("probe.one"); }
      simfs::end();
      bool same = simfs::content("probe.one") == simfs::content(key);
      simfs::setDisk(keep);
      if (!same) violation("lang.content", "a %s %s saved under other language settings has another content", m.file ? "loaded" : "new", kindName[m.kind]);
      count("lang.same_content");
    }
    if (failed && !fr.crash) checkAll("after a failed save", 400);
    if (fr.crash) { // the process is gone
      while (!objs.empty()) dropObj(objs.begin());
    } else {
      checkObjSmall(m);
      if (m.d.n() <= 400) checkFamily(m.family, it->first, "after its copy or original was saved");
    }
  }
  void checkObjSmall(const ObjM& m) { if (m.d.n() <= 400) checkObj(m, "after saving it"); }

  void opLoad(const Line& l, bool& watch) {
    int kind = (int)l.num("kind"), isd = (int)l.num("isd");
    std::string path = dec(l.str("path")), key = norm(path);
    auto fi = files.find(key);
    bool present = fi != files.end() && simfs::exists(key);
    if (present && (fi->second.kind != kind || fi->second.isd != isd)) { count("op.skipped_other_kind"); return; }
    std::string content = present ? simfs::content(key) : std::string();
    simfs::Faults f = faults(l, []() { return (size_t)0; }, content.size());
    const Cal& c = cal(kind, isd);
    simfs::Disk before = simfs::disk();
    ObjM m; m.kind = kind; m.isd = isd; m.file = true; m.src = path; m.name = "From " + path; m.o = nullptr;
    long live = simheap::live();
    heapBegin(l);
    simfs::begin(f);
    bool oom = false;
    {
      InLang in(set.get());
      simheap::SutScope s;
      InMode im(mode);
      try { m.o = api->load(kind, isd, path.c_str()); }
      catch (const std::bad_alloc&) { oom = true; }
      catch (const std::exception& e) { simheap::Scope h; violation("load.exception", "loading a %s threw an exception: %s", kindName[kind], e.what()); }
    }
    int left = simfs::openFiles();
    simfs::Fired fr = simfs::end();
    simheap::Result hr = simheap::end();
    if (left) violation("open.files", "loading a %s left %d files open", kindName[kind], left);
    compareDisk(before, "", "a load", true);
    count("op.load");
    if (oom) {
      if (!hr.fired) violation("alloc.exception", "loading a %s reported lack of memory although there was enough", kindName[kind]);
      if (simheap::live() != live) violation("alloc.leak", "loading a %s that ran out of memory lost %ld blocks", kindName[kind], simheap::live() - live);
      checkAll("after a failed allocation", 400);
      return;
    }
    if (hr.fired) watch = true;
    m.d = snapshot(m.o, kind, isd, m.name);
    if (!m.d.bad.empty()) violation("torn.unpaired", "a loaded %s holds incomplete records: %s", kindName[kind], m.d.bad.c_str());
    size_t got = m.d.n();
    bool clean = !fr.failed() && !hr.fired;
    if (!present || fr.open) {
      count("read.missing"); if (fr.open) count("op.failed");
      if (got) violation("load.invented", "loading a file that cannot be opened gave %zu records", got);
      if (m.d.stats != c.emptyStats) violation("load.stats", "loading a file that cannot be opened gave statistics: %s", m.d.stats.c_str());
    } else {
      FileM& fm = fi->second;
      size_t lo, hi = fm.d.n();
      bool statsFree = false;
      if (!clean) { lo = 0; statsFree = true; count("op.failed"); }
      else if (fm.exact) lo = hi;
      else if (fm.loose) { lo = 0; statsFree = true; }
      else {
        long whole = wholeRecords(c, content);
        if (whole < 0) { lo = 0; count("calibration.fallback"); } else { lo = std::min<size_t>(hi, (size_t)whole); hi = std::min(hi, lo + 1); }
        statsFree = lo == 0;
        count("read.torn"); count(fmt("read.torn.%s", kindName[kind]).c_str());
      }
      if (got < lo) violation(fm.exact ? "lost.records" : "torn.lost", "loading a %s (%s, %zu saved, %zu completely on disk) gave only %zu records", kindName[kind], isd ? "double" : "float", fm.d.n(), lo, got);
      if (got > hi) violation("torn.invented", "loading a %s (%s, %zu saved, at most %zu on disk) gave %zu records", kindName[kind], isd ? "double" : "float", fm.d.n(), hi, got);
      std::string why = diffData(fm.d, m.d, got);
      if (!why.empty()) violation(fm.exact ? "wrong.records" : "torn.wrong", "loading a %s (%s, %zu saved, %zu loaded) gave other values: %s", kindName[kind], isd ? "double" : "float", fm.d.n(), got, why.c_str());
      if (m.d.stats != fm.d.stats && !(statsFree && m.d.stats == c.emptyStats)) violation(fm.exact ? "wrong.stats" : "torn.stats", "loading a %s gave other statistics: '%s' instead of '%s'", kindName[kind], m.d.stats.c_str(), fm.d.stats.c_str());
      if (clean) {
        count("read.back"); count("read.back.records", got);
        if (fm.d.resaved && got) count("read.resaved");
        bool rs = fm.d.resaved;
        fm.d = m.d; fm.d.resaved = rs; fm.exact = true; fm.loose = false;
      }
    }
    auto old = objs.find(l.num("id"));
    if (old != objs.end()) dropObj(old);
    objs[l.num("id")] = m;
    if (!clean) checkAll("after a failed load", 400);
    if (fr.crash) while (!objs.empty()) dropObj(objs.begin());
  }
};
World* diskWorld() { static DiskWorld w; return &w; }
