// Print world: what the diagnostics show on the screen does not depend on what
// was shown before.  Property P23.
#include <algorithm>
#include <cmath>
#include <iostream>
#include <sstream>
#include "diag.h"

static std::string without(std::string s, const std::string& name) {
  size_t k = 0;
  while (!name.empty() && (k = s.find(name, k)) != std::string::npos) { s.replace(k, name.size(), "@"); ++k; }
  std::string r;   // a shorter name may be padded
  for (char c : s) { if (c == ' ' && !r.empty() && r.back() == ' ') continue; r += c; }
  return r;
}

struct PrintWorld : World {
  void init(const std::string&) override { sutPlain(); muteStdout(); }
  void gen(const std::string& prop, uint64_t seed, int tier, uint64_t index, PlanText& out) override {
    (void)tier;
    Rng r(mix64(seed * 1000003 + index) ^ hashBytes(prop.data(), prop.size()));
    out.push_back(fmt("cfg fill=%d", (int)r.below(256)));
    bool plain = r.chance(1, 2);
    int id = 0, files = 0;
    struct O { int id, kind; };
    std::vector<O> objs;
    std::vector<int> perfs, timers;
    struct F { std::string path; int kind, isd, of; };
    std::vector<F> fs;
    auto size = [&]() { return r.chance(1, 12) ? (int)r.range(20, 120) : (int)r.below(5); };
    auto to = [&]() { return r.chance(1, 3) ? r.chance(1, 2) ? " to=0" : " to=1" : ""; };
    for (int i = 0, e = (int)r.range(3, 16); i < e; ++i) {
      unsigned w = (unsigned)r.below(16);
      if (objs.empty() || w < 2) {
        int k = (int)r.below(K_COUNT), isd = (int)r.below(2);
        if (k <= K_P1OLD) out.push_back(fmt("new id=%d kind=%d isd=%d n=%d seed=%d lo=%g hi=%g lo2=-1 hi2=1", id, k, isd, size(), (int)r.below(100), r.chance(1, 2) ? -1.0 : -5000.0, r.chance(1, 2) ? 1.0 : 1e9));
        else out.push_back(fmt("new id=%d kind=%d isd=%d n=%d vseed=%llu plain=%d arr=%d name=Qn%dz", id, k, isd, size(), (unsigned long long)r.below(1ull << 40), (int)plain, (int)r.below(2), id));
        objs.push_back({id++, k});
      } else if (w < 8) {
        auto& o = r.pick(objs);
        out.push_back(fmt("show id=%d how=%s", o.id, o.kind >= K_C1 ? (r.chance(1, 3) ? "table" : r.chance(1, 2) ? "stats" : "print") : "print"));
      } else if (w < 9) {
        auto& o = r.pick(objs);
        std::string path = fmt("f%d.txt", files++);
        out.push_back(fmt("save id=%d path=%s", o.id, path.c_str()));
        for (auto& l : out) { Line x = parsePlan({l})[0]; if ((x.cmd == "new" || x.cmd == "load") && x.num("id") == o.id) { fs.push_back({path, o.kind, (int)x.num("isd"), o.id}); break; } }
      } else if (w < 11) {
        if (fs.empty()) continue;
        auto& f = r.pick(fs);
        out.push_back(fmt("load id=%d kind=%d isd=%d path=%s of=%d", id, f.kind, f.isd, f.path.c_str(), f.of));
        out.push_back(fmt("show id=%d how=print", id));
        objs.push_back({id++, f.kind});
      } else if (w < 12) {
        if (perfs.empty() || r.chance(1, 3)) { out.push_back(fmt("perf id=%d isd=%d form=%d n=%d reps=%d ns=%lld", id, (int)r.below(2), (int)r.below(4), (int)r.range(2, 5), (int)r.range(1, 4), (long long)(r.chance(1, 4) ? r.below(10000000000000ull) : r.chance(1, 6) ? 0 : r.below(100000)))); perfs.push_back(id++); }
        out.push_back(fmt("show id=%d how=perf scale=%g%s", r.pick(perfs), r.chance(1, 2) ? 1. : r.unit() * 1000, to()));
      } else if (w < 13) {
        if (timers.empty() || r.chance(1, 3)) { out.push_back(fmt("timer id=%d ns=%lld", id, (long long)r.below(100000000000ull))); timers.push_back(id++); }
        out.push_back(fmt("show id=%d how=timer", r.pick(timers)));
      } else if (w < 14) out.push_back(fmt("show how=funcs form=%d isd=%d n=%d vseed=%llu", (int)r.below(6), (int)r.below(2), (int)r.below(4), (unsigned long long)r.below(1ull << 40)));
      else if (w < 15) out.push_back(r.chance(1, 4) ? std::string("show how=info") : fmt("show how=bits isd=%d vseed=%llu id2=%d", (int)r.below(2), (unsigned long long)r.below(1ull << 40), (int)r.below(2)));
      else if (r.chance(1, 3)) out.push_back(fmt("fmt base=%d flags=%d prec=%d fill=%d punct=%d", (int)r.below(3), (int)r.below(256), (int)r.below(12), (int)(r.chance(1, 2) ? 32 : 33 + r.below(20)), (int)r.below(4)));
      else if (r.chance(1, 4)) out.push_back(fmt("show how=hex isd=%d vseed=%llu to=%d", (int)r.below(2), (unsigned long long)r.below(1ull << 40), (int)r.below(2)));
      else out.push_back(fmt("show how=own vseed=%llu%s", (unsigned long long)r.below(1ull << 40), to()));
    }
    for (auto& l : out) if (!l.compare(0, 5, "show ") && r.chance(1, 250)) l += fmt(" times=%d", (int)r.special(r.range(100, r.chance(1, 4) ? 3000 : 400)));
  }

  struct Obj { SutObj* o = nullptr; SutPerf* p = nullptr; SutTimer* t = nullptr; int kind = 0, isd = 0; std::string name; };
  struct Fn : SutCb {
    int isd; uint64_t seed; int64_t ns = 0;
    uint64_t value(uint64_t a, uint64_t b) override { simheap::Scope s; simclk::work(ns); return plainBits(mix64(a ^ mix64(b + seed)), isd); }
    void arrayCall(uint64_t) override {}
  };
  struct Run {
    std::map<int64_t, Obj> objs;
    std::ostringstream side[2];   // other streams of the program
    // everything but showing
    void prepareOp(const Line& l) {
      const SutApi* api = sutPlain();
      int64_t id = l.num("id");
      int kind = (int)l.num("kind"), isd = (int)l.num("isd");
      if (kind < 0 || kind >= K_COUNT) return;
      if ((l.cmd == "new" || l.cmd == "load" || l.cmd == "perf" || l.cmd == "timer") && objs.count(id)) return;
      if (l.cmd == "new") {
        Obj x; x.kind = kind; x.isd = isd; x.name = dec(l.str("name"));
        Made m = prepare(l, kind, isd, std::min<uint64_t>(2000, l.unum("n")));
        { simheap::SutScope s; x.o = construct(api, m, x.name); }
        objs[id] = x;
      } else if (l.cmd == "load") {
        std::string path = dec(l.str("path"));
        if (!simfs::exists(path)) return;
        Obj x; x.kind = kind; x.isd = isd; x.name = "From " + path;
        { simheap::SutScope s; x.o = api->load(kind, isd, path.c_str()); }
        objs[id] = x;
      } else if (l.cmd == "save") {
        if (objs.count(id) && objs[id].o) { std::string path = dec(l.str("path")); simheap::SutScope s; objs[id].o->save(path.c_str()); }
      } else if (l.cmd == "perf") {
        Obj x; Fn f; f.isd = isd; f.seed = 1; f.ns = l.num("ns");
        uint64_t n = std::max<uint64_t>(2, std::min<uint64_t>(50, l.unum("n")));
        std::vector<uint64_t> a(n, numBits(1.5, isd));
        { simheap::SutScope s; x.p = api->perf(isd, (int)(l.unum("form") % 4), "perf", a.data(), a.data(), n, (uint32_t)std::max<int64_t>(1, l.num("reps")), &f); }
        objs[id] = x;
      } else if (l.cmd == "timer") {
        Obj x;
        { simheap::SutScope s; x.t = api->timer(); x.t->start(); }
        simclk::work(l.num("ns"));
        { simheap::SutScope s; x.t->stop(); }
        objs[id] = x;
      }
    }
    // the program's own way of showing numbers
    struct Punct : std::numpunct<char> {
      char do_decimal_point() const override { return ','; }
      char do_thousands_sep() const override { return '\''; }
      std::string do_grouping() const override { return "\3"; }
    };
    static void format(const Line& l) {
      using std::ios;
      int f = (int)l.num("flags"), b = (int)l.num("base");
      std::cout.flags((b == 0 ? ios::dec : b == 1 ? ios::hex : ios::oct) | (f & 1 ? ios::showpos : ios::fmtflags()) | (f & 2 ? ios::uppercase : ios::fmtflags()) | (f & 4 ? ios::showbase : ios::fmtflags()) | (f & 8 ? ios::boolalpha : ios::fmtflags()) | (f & 16 ? ios::left : f & 32 ? ios::internal : ios::fmtflags()) | (f & 64 ? ios::fixed : f & 128 ? ios::scientific : ios::fmtflags()));
      std::cout.precision((std::streamsize)l.num("prec")); std::cout.fill((char)l.num("fill", 32));
      if (l.num("punct") == 1) std::cout.imbue(std::locale(std::locale::classic(), new Punct));
      count("shown.format_set");
    }
    // how often the program changed that before
    static int formats(const std::vector<Line>& plan, size_t at) { int n = 0; for (size_t i = 0; i < at; ++i) n += plan[i].cmd == "fmt"; return n; }
    bool show(const Line& l) {
      if (!l.has("to")) return show(l, std::cout);
      std::ostringstream& s = side[l.unum("to") % 2];
      bool ok = show(l, s);
      std::string t = s.str();
      s.str("");
      std::cout.rdbuf()->sputn(t.data(), (std::streamsize)t.size());
      return ok;
    }
    bool show(const Line& l, std::ostream& stream) {
      const SutApi* api = sutPlain();
      std::string how = l.str("how");
      auto i = objs.find(l.num("id", -1));
      int isd = (int)l.num("isd");
      if (how == "print" || how == "stats" || how == "table") {
        if (i == objs.end() || !i->second.o) return false;
        simheap::SutScope s;
        if (how == "print") i->second.o->print(); else i->second.o->stats(how == "table");
      } else if (how == "perf") {
        if (i == objs.end() || !i->second.p) return false;
        simheap::SutScope s; i->second.p->print(stream, l.dbl("scale", 1));
      } else if (how == "timer") {
        if (i == objs.end() || !i->second.t) return false;
        simheap::SutScope s; i->second.t->print();
      } else if (how == "funcs") {
        if (!api->funcDiff) return false;
        Rng r(l.unum("vseed"));
        Fn f, g; f.isd = g.isd = isd; f.seed = 1; g.seed = r.below(2) + 1;
        std::vector<uint64_t> a, b;
        for (uint64_t k = std::min<uint64_t>(50, l.unum("n")); k; --k) { a.push_back(plainBits(r.next(), isd)); b.push_back(plainBits(r.next(), isd)); }
        simheap::SutScope s; api->funcDiff(isd, (int)(l.unum("form") % 6), "Qfn", a.data(), b.data(), a.size(), &f, &g);
      } else if (how == "bits") {
        if (!api->diffBit) return false;
        Rng r(l.unum("vseed"));
        uint64_t a = plainBits(r.next(), isd), b = r.chance(1, 2) ? a ^ r.below(1000) : plainBits(r.next(), isd);
        simheap::SutScope s; api->diffBit(isd, a, b, l.num("id2") != 0);
      } else if (how == "hex") {
        if (!api->hex) return false;
        Rng r(l.unum("vseed"));
        uint64_t a = r.chance(1, 2) ? plainBits(r.next(), isd) : r.next() & (isd ? ~0ull : 0xffffffffull);
        simheap::SutScope s; api->hex(stream, isd, a);
      } else if (how == "info") {
        if (!api->info) return false;
        simheap::SutScope s; api->info();
      } else {   // the program shows something itself
        Rng r(l.unum("vseed"));
        stream << bitsToDouble(plainBits(r.next(), 1)) << " " << (int)r.below(1000) << " " << 1e-9 * r.unit() << " " << 1e7 * (double)r.below(100) << " " << true << " | " << 'x' << "\n";
      }
      return true;
    }
    void drop() { for (auto& o : objs) { simheap::SutScope s; delete o.second.o; delete o.second.p; delete o.second.t; } objs.clear(); }
  };
  // one thing shown by a process that showed nothing before
  struct Job { const std::vector<Line>* plan; size_t at; };
  static void alone(void* a) {
    Job* j = (Job*)a;
    Run run;
    simfs::reset(); simclk::reset();
    for (size_t i = 0; i < j->at; ++i) if ((*j->plan)[i].cmd != "show") run.prepareOp((*j->plan)[i]);
    tapStdout();
    for (size_t i = 0; i < j->at; ++i) if ((*j->plan)[i].cmd == "fmt") run.format((*j->plan)[i]);
    bool done = run.show((*j->plan)[j->at]);
    std::string t = untapStdout();
    Out o; o.u64(done); o.str(t);
  }
  void exec(const std::string&, const std::vector<Line>& plan) override {
    simheap::Scope hs;
    for (auto& l : plan) if (l.cmd == "cfg") g_fill = (unsigned char)l.num("fill", 0xA5);
    std::vector<std::string> want(plan.size());
    std::vector<char> done(plan.size());
    for (size_t i = 0; i < plan.size(); ++i) if (plan[i].cmd == "show") {
      Job j = {&plan, i};
      std::vector<unsigned char> b = forked(alone, &j);
      In in(b);
      done[i] = in.u64() != 0; want[i] = in.str();
    }
    simfs::reset(); simclk::reset();
    Run run;
    tapStdout();
    size_t shown = 0;
    std::vector<std::pair<size_t, size_t>> pos(plan.size());
    for (size_t i = 0; i < plan.size(); ++i) {
      pos[i].first = tapped();
      if (plan[i].cmd == "show") { if (run.show(plan[i]) != (done[i] != 0)) harnessError("an object exists only in one of the processes"); for (int64_t k = 1; k < plan[i].num("times", 1); ++k) run.show(plan[i]); }
      else if (plan[i].cmd == "fmt") run.format(plan[i]);
      else run.prepareOp(plan[i]);
      pos[i].second = tapped();
      std::string how = plan[i].str("how");
      shm->trace = mix64(shm->trace ^ hashBytes(plan[i].cmd.data(), plan[i].cmd.size()) ^ hashBytes(how.data(), how.size()) ^ plan[i].unum("kind") * 77 ^ plan[i].unum("form") * 131);
    }
    std::string all = untapStdout();
    std::map<int64_t, std::string> full;
    std::string before;
    for (size_t i = 0; i < plan.size(); ++i) if (plan[i].cmd == "show" && done[i]) {
      std::string got = all.substr(pos[i].first, pos[i].second - pos[i].first), how = plan[i].str("how");
      evBytes("shown", got.data(), got.size());
      if (plan[i].num("times", 1) > 1) {   // shown many times
        std::string one = want[i]; want[i].clear();
        for (int64_t k = plan[i].num("times"); k; --k) want[i] += one;
        count("shown.many_times");
      }
      if (got != want[i]) {
        size_t k = 0; while (k < got.size() && k < want[i].size() && got[k] == want[i][k]) ++k;
        k = k > 30 ? k - 30 : 0;
        violation(how == "own" ? "print.own" : "print.differs", "%s shows '...%s' after %zu other things were shown%s, and '...%s' in a program that showed nothing before",
                  how == "own" ? "the program itself" : how.c_str(), got.substr(k, 120).c_str(), shown, before.c_str(), want[i].substr(k, 120).c_str());
      }
      ++shown;
      count(("shown." + how).c_str());
      before = " (last: " + how + ")";
      if (how == "print" && plan[i].num("times", 1) <= 1) full[plan[i].num("id")] = fmt("%d ", Run::formats(plan, i)) + got;
    }
    // a loaded object looks like the one that was saved
    for (auto& l : plan) if (l.cmd == "load" && full.count(l.num("id")) && full.count(l.num("of", -1)) && run.objs.count(l.num("id")) && run.objs.count(l.num("of"))) {
      Obj &a = run.objs[l.num("of")], &b = run.objs[l.num("id")];
      if (a.kind != b.kind || a.isd != b.isd) continue;
      std::string x = without(full[l.num("of")], a.name), y = without(full[l.num("id")], b.name);
      if (x.substr(0, x.find(' ')) != y.substr(0, y.find(' '))) continue;   // shown in another way of the program
      if (x != y) violation("print.loaded", "a loaded object is shown as '%s' and its original as '%s'", y.substr(0, 400).c_str(), x.substr(0, 400).c_str());
      count("shown.loaded_like_original");
    }
    run.drop();
    count("shown", shown);
    shm->nontrivial = shown >= 2;
  }
};
World* printWorld() { static PrintWorld w; return &w; }
