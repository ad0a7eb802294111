// Thread world: programs of several threads working on diagnostic objects,
// interleaved at every memory access and file system call of the code under
// test.  Properties P12, P13 and the reader-during-writer part of P04.
#include <cmath>
#include <set>
#include <memory>
#include "simos.h"
#include "values.h"
#include "diag.h"

World* mathWorld();

static std::string genPool(Rng& r, int isd) {
  double mx = isd ? 1.7e308 : 3.4e38, mn = isd ? 4.9e-324 : 1.4e-45;
  double lo, hi;
  switch (r.below(12)) {
    case 0: case 6: lo = -5000; hi = 5000; break;
    case 1: lo = 0; hi = 1; break;
    case 2: lo = -mx; hi = mx; break;
    case 3: lo = hi = (double)r.range(-3, 3); break;
    case 4: lo = 1e-5; hi = 5000; break;
    case 7: lo = -1e10 * r.unit(); hi = lo * (1 - r.unit()); break;   // below zero
    case 8: lo = -mn * (double)r.below(100); hi = mn * (double)r.below(100); break;
    case 9: lo = (double)r.range(-9, 9) * 1.25e5; hi = lo + (isd ? 1e-9 : 0.25) * (double)r.range(0, 8); break;   // few numbers in between
    case 10: lo = r.chance(1, 2) ? -mx : 0; hi = lo == 0 ? mx : -1; break;
    default: lo = -r.unit() * 100; hi = r.unit() * 1e5;
  }
  return fmt("seed=%d lo=%.17g hi=%.17g lo2=%.17g hi2=%.17g", (int)(r.chance(1, 5) ? (int32_t)r.next() : r.range(0, 3)), lo, hi, r.chance(1, 2) || hi < -1 ? lo : -1.0, std::fmin(hi + 1, mx));
}
static uint64_t smallSize(Rng& r);
static uint64_t anySize(Rng& r) {
  uint64_t x = r.below(100);
  if (x == 99 && r.chance(1, 4)) return r.chance(1, 8) ? 8000 + r.below(10000) : 1000 + r.below(4000);
  if (x < 50) return r.below(6);
  if (x < 85) return 6 + r.below(30);
  if (x < 97) return 36 + r.below(150);
  return 186 + r.below(500);
}
static uint64_t smallSize(Rng& r) { return r.special(anySize(r)); }

struct ThreadWorld : World {
  void init(const std::string&) override { sutInstr(); sutPlain(); muteStdout(); }

  void gen(const std::string& prop, uint64_t seed, int tier, uint64_t index, PlanText& out) override {
    (void)tier;
    Rng r(mix64(seed * 1000003 + index) ^ hashBytes(prop.data(), prop.size()) ^ 0x7777);
    int p = atoi(prop.c_str() + 1);
    int nthr = (int)r.range(2, 4);
    std::string f;
    if (r.chance(1, 2)) {
      static const int c[] = {1, 7, 19, 61, 100, 511, 1000, 4096};
      if (r.chance(1, 2)) f += fmt(" wchunk=%d", c[r.below(8)]);
      if (r.chance(1, 2)) f += fmt(" rchunk=%d", c[r.below(8)]);
      if (r.chance(1, 3)) f += fmt(" vary=%d", (int)r.range(1, 100000));
      if (r.chance(1, 3)) f += fmt(" eintr=%d", (int)r.range(2, 5));
    }
    if (p == 4) {
      static const int kinds[] = {K_P1, K_P2, K_P1OLD, K_R1, K_R2, K_R1OLD, K_C1, K_C2, K_C1OLD};
      int k = kinds[r.below(9)], isd = (int)r.below(2);
      uint64_t n = r.chance(1, 2) ? smallSize(r) : 100 + r.below(500);
      nthr = (int)r.range(2, 3);
      out.push_back(fmt("thread mode=reader nthr=%d fill=%d%s", nthr, (int)r.below(256), f.c_str()));
      if (k <= K_P1OLD) out.push_back(fmt("op t=0 do=new id=0 kind=%d isd=%d n=%llu ", k, isd, (unsigned long long)n) + genPool(r, isd));
      else out.push_back(fmt("op t=0 do=new id=0 kind=%d isd=%d n=%llu vseed=%llu plain=%d arr=%d name=Qnamez", k, isd, (unsigned long long)n, (unsigned long long)r.below(1ull << 40), (int)r.below(2), (int)r.below(2)));
      out.push_back("op t=0 do=save id=0 path=w.txt");
      for (int t = 1; t < nthr; ++t) for (int i = 0, e = (int)r.range(1, 3); i < e; ++i) out.push_back(fmt("op t=%d do=load id=%d kind=%d isd=%d path=w.txt", t, i, k, isd));
      for (int i = 0, e = (int)r.range(1, 4); i < e; ++i) out.push_back(fmt("swio at=%llu to=%d", (unsigned long long)r.below(1ull << 40), (int)r.below(4)));
      genSchedule(r, out, (unsigned)nthr);
      return;
    }
    out.push_back(fmt("thread mode=indep nthr=%d fill=%d%s", nthr, (int)r.below(256), f.c_str()));
    std::vector<int> kinds = p == 12 ? std::vector<int>{K_P1, K_P2, K_P1OLD} : std::vector<int>{K_P1, K_P2, K_P1OLD, K_R1, K_R2, K_R1OLD, K_C1, K_C2, K_C1OLD};
    std::vector<int> ks; for (int k : kinds) if (r.chance(1, 2)) ks.push_back(k);
    if (ks.empty()) ks.push_back(r.pick(kinds));
    struct Fl { int kind, isd; };
    std::vector<std::pair<std::string, Fl>> shared;
    if (p == 28) {   // objects used by all threads
      int no = (int)r.range(1, 2);
      std::vector<Fl> of;
      for (int i = 0; i < no; ++i) {
        int k = r.pick(ks), isd = (int)r.below(2);
        std::string pre = fmt("pre path=shared%d.txt id=%d reload=%d saved=%d kind=%d isd=%d n=%llu ", i, 1000 + i, (int)r.chance(1, 3), (int)r.chance(1, 4), k, isd, (unsigned long long)smallSize(r));
        if (k <= K_P1OLD) out.push_back(pre + genPool(r, isd));
        else out.push_back(pre + fmt("vseed=%llu plain=%d arr=%d name=Qsh%dz", (unsigned long long)r.below(1ull << 40), (int)r.below(2), (int)r.below(2), i));
        of.push_back({k, isd});
      }
      for (int t = 0; t < nthr; ++t) {
        int id = 0, nf = 0;
        std::vector<std::pair<std::string, Fl>> own;
        std::vector<int> cp;
        for (int i = 0, e = (int)r.range(1, 4); i < e; ++i) {
          int s = (int)r.below((uint64_t)no);
          switch (r.below(10)) {
            case 0: case 1: case 2: case 3: case 4: {
              std::string path = fmt("t%d-%d.txt", t, nf++);
              out.push_back(fmt("op t=%d do=save id=%d path=%s", t, !cp.empty() && r.chance(1, 3) ? r.pick(cp) : 1000 + s, path.c_str()));
              own.push_back({path, of[(size_t)s]});
              break;
            }
            case 5: case 6: out.push_back(fmt("op t=%d do=copy id=%d of=%d", t, id, 1000 + s)); cp.push_back(id++); break;
            case 7: case 8: out.push_back(fmt("op t=%d do=read id=%d", t, 1000 + s)); break;
            default:
              if (own.empty()) out.push_back(fmt("op t=%d do=load id=%d kind=%d isd=%d path=shared%d.txt", t, id, of[(size_t)s].kind, of[(size_t)s].isd, s));
              else out.push_back(fmt("op t=%d do=load id=%d kind=%d isd=%d path=%s", t, id, own.back().second.kind, own.back().second.isd, own.back().first.c_str()));
              ++id;
          }
        }
      }
      genSchedule(r, out, (unsigned)nthr);
      return;
    }
    for (int i = 0, e = (int)r.below(3); i < e; ++i) {
      int k = r.pick(ks), isd = (int)r.below(2);
      std::string path = fmt("shared%d.txt", i);
      if (k <= K_P1OLD) out.push_back(fmt("pre path=%s kind=%d isd=%d n=%llu ", path.c_str(), k, isd, (unsigned long long)smallSize(r)) + genPool(r, isd));
      else out.push_back(fmt("pre path=%s kind=%d isd=%d n=%llu vseed=%llu plain=%d arr=0 name=Qpre", path.c_str(), k, isd, (unsigned long long)smallSize(r), (unsigned long long)r.below(1ull << 40), (int)r.below(2)));
      shared.push_back({path, {k, isd}});
    }
    // creations repeat between threads, so that equal arguments meet
    std::vector<std::string> creations;
    for (int i = 0; i < 4; ++i) {
      int k = r.pick(ks), isd = (int)r.below(2);
      uint64_t n = smallSize(r);
      if (k <= K_P1OLD) {
        // often an earlier one with another limit, seed, size, precision or kind
        if (i > 0 && r.chance(1, 2)) {
          std::string c = r.pick(creations);
          Line l = parsePlan({"x " + c})[0];
          if (l.num("kind") <= K_P1OLD) {
            int isd2 = (int)l.num("isd"), k2 = (int)l.num("kind");
            unsigned long long n2 = l.unum("n");
            long long sd = l.num("seed");
            std::string v[4] = {l.str("lo"), l.str("hi"), l.str("lo2"), l.str("hi2")};
            auto later = [](const std::string& x) { return fmt("%.17g", atof(x.c_str()) * 0.5); };
            switch (r.below(8)) {
              case 0: case 1: if (atof(v[1].c_str()) > 0 && atof(v[0].c_str()) <= 0) v[1] = later(v[1]); break;
              case 2: if (atof(v[0].c_str()) < 0 && atof(v[1].c_str()) >= 0) v[0] = later(v[0]); break;
              case 3: if (atof(v[3].c_str()) > 0 && atof(v[2].c_str()) <= 0) v[3] = later(v[3]); break;
              case 4: sd ^= 1; break;
              case 5: n2 += 1 + r.below(3); break;
              case 6: if (fabs(atof(v[0].c_str())) < 1e38 && fabs(atof(v[1].c_str())) < 1e38) isd2 ^= 1; break;
              default: k2 = r.pick(ks); if (k2 > K_P1OLD) k2 = K_P1;
            }
            creations.push_back(fmt("kind=%d isd=%d n=%llu seed=%lld lo=%s hi=%s lo2=%s hi2=%s", k2, isd2, n2, sd, v[0].c_str(), v[1].c_str(), v[2].c_str(), v[3].c_str()));
            continue;
          }
        }
        creations.push_back(fmt("kind=%d isd=%d n=%llu ", k, isd, (unsigned long long)n) + genPool(r, isd));
      }
      else creations.push_back(fmt("kind=%d isd=%d n=%llu vseed=%llu plain=%d arr=%d name=Qn%dz", k, isd, (unsigned long long)n, (unsigned long long)r.below(1ull << 40), (int)r.below(2), (int)r.below(2), i));
    }
    for (int t = 0; t < nthr; ++t) {
      int id = 0;
      std::vector<std::pair<int, Fl>> objs;
      std::vector<std::pair<std::string, Fl>> own;
      int nf = 0;
      for (int i = 0, e = (int)(r.chance(1, 6) ? r.range(5, 12) : r.range(1, 5)); i < e; ++i) {
        int what = (int)r.below(p == 12 ? 8 : 10);
        if (what < 4 || objs.empty()) {
          if (!shared.empty() && r.chance(1, 3)) {
            auto& s = r.pick(shared);
            out.push_back(fmt("op t=%d do=load id=%d kind=%d isd=%d path=%s", t, id, s.second.kind, s.second.isd, s.first.c_str()));
            objs.push_back({id++, s.second});
          } else {
            const std::string& c = r.pick(creations);
            Line l = parsePlan({"x " + c})[0];
            out.push_back(fmt("op t=%d do=new id=%d ", t, id) + c);
            objs.push_back({id++, {(int)l.num("kind"), (int)l.num("isd")}});
          }
        } else if (what < 7) {
          auto& o = r.pick(objs);
          std::string path = fmt("t%d-%d.txt", t, nf++);
          out.push_back(fmt("op t=%d do=save id=%d path=%s", t, o.first, path.c_str()));
          own.push_back({path, o.second});
        } else if (what < 9 && !own.empty()) {
          auto& s = r.pick(own);
          out.push_back(fmt("op t=%d do=load id=%d kind=%d isd=%d path=%s", t, id, s.second.kind, s.second.isd, s.first.c_str()));
          objs.push_back({id++, s.second});
        } else {
          size_t k = r.below(objs.size());
          out.push_back(fmt("op t=%d do=drop id=%d", t, objs[k].first));
          objs.erase(objs.begin() + (long)k);
        }
      }
    }
    if (p == 12 && r.chance(1, 150)) out.push_back(fmt("many times=%d vseed=%llu", (int)(r.chance(1, 5) ? r.range(1000, 5000) : r.range(100, 600)), (unsigned long long)r.below(1ull << 40)));
    if (p == 12 && r.chance(1, 250)) out.push_back(fmt("large kind=%d isd=%d n=%d ", r.pick(kinds), (int)r.below(2), (int)r.special((uint64_t)(r.chance(1, 3) ? r.range(130000, 300000) : r.range(65530, 70000)))) + genPool(r, 0));
    genSchedule(r, out, (unsigned)nthr);
  }

  // ---------------------------------------------------------------- execution
  struct Obj { SutObj* o; int kind, isd; std::string name; bool loaded; };
  struct Result { std::vector<uint64_t> h; std::vector<std::string> what; };
  struct Job {
    ThreadWorld* w; const std::vector<Line>* plan; const SutApi* api; int nthr; int only; bool reader;
    std::vector<std::map<int64_t, Obj>> objs;
    std::map<int64_t, Obj> shared;
    std::vector<Result> res;
    std::vector<simsched::Switch> sw;
  };
  std::map<std::string, Data> loadedData;

  static void note(Result& r, const std::string& what, uint64_t h) { r.what.push_back(what); r.h.push_back(h); }
  static uint64_t hashData(const Data& d) {
    uint64_t h = 99;
    for (auto& c : d.col) h = hashBytes(c.data(), c.size() * 8, h ^ c.size());
    for (auto& l : d.lines) h = hashBytes(l.data(), l.size(), h);
    h = hashBytes(d.stats.data(), d.stats.size(), h);
    return hashBytes(d.bad.data(), d.bad.size(), h);
  }
  static void threadBody(Job* j, int t) {
    for (auto& l : *j->plan) {
      if (l.cmd != "op" || l.num("t") != t) continue;
      std::string what = l.str("do");
      int64_t id = l.num("id");
      auto& objs = j->objs[(size_t)t];
      try {
        if (what == "new" || what == "load") {
          Obj o; o.kind = (int)l.num("kind"); o.isd = (int)l.num("isd"); o.loaded = what == "load"; o.o = nullptr;
          if (o.kind < 0 || o.kind >= K_COUNT) continue;
          if (o.loaded) { std::string path = dec(l.str("path")); o.name = "From " + path; simheap::SutScope s; o.o = j->api->load(o.kind, o.isd, path.c_str()); }
          else { Made m = prepare(l, o.kind, o.isd, l.unum("n")); o.name = dec(l.str("name")); { simheap::SutScope s; o.o = construct(j->api, m, o.name); } }
          if (o.kind < K_C1) note(j->res[(size_t)t], what + " " + std::to_string(id), hashData(snapshot(o.o, o.kind, o.isd, o.name)));
          auto i = objs.find(id);
          if (i != objs.end()) { simheap::SutScope s; delete i->second.o; }
          objs[id] = o;
        } else if (what == "save") {
          auto i = objs.find(id);
          if (i == objs.end() && (i = j->shared.find(id)) == j->shared.end()) continue;
          std::string path = dec(l.str("path"));
          simheap::SutScope s;
          i->second.o->save(path.c_str());
        } else if (what == "copy") {
          auto i = j->shared.find(l.num("of"));
          if (i == j->shared.end()) continue;
          Obj o = i->second;
          { simheap::SutScope s; o.o = i->second.o->copy(); }
          auto k = objs.find(id);
          if (k != objs.end()) { simheap::SutScope s; delete k->second.o; }
          objs[id] = o;
        } else if (what == "read") {
          auto i = j->shared.find(id);
          if (i == j->shared.end()) continue;
          if (i->second.kind < K_C1) note(j->res[(size_t)t], "read " + std::to_string(id), hashData(snapshot(i->second.o, i->second.kind, i->second.isd, i->second.name)));
          else { int d; { simheap::SutScope s; d = i->second.o->differs(); } note(j->res[(size_t)t], "read " + std::to_string(id), (uint64_t)d); }
        } else if (what == "drop") {
          auto i = objs.find(id);
          if (i == objs.end()) continue;
          { simheap::SutScope s; delete i->second.o; }
          objs.erase(i);
        }
      } catch (const std::exception& e) {
        simheap::harness = 1;
        violation("thread.exception", "thread %d, %s %lld: %s", t, what.c_str(), (long long)id, e.what());
      }
    }
  }
  // runs the program of all threads or of one alone and describes what came out
  static void go(Job& j, bool record) {
    j.objs.assign((size_t)j.nthr, {});
    j.res.assign((size_t)j.nthr, {});
    simclk::reset();
    simfs::reset();
    for (auto& l : *j.plan) {
      if (l.cmd != "pre") continue;
      Made m = prepare(l, (int)l.num("kind"), (int)l.num("isd"), l.unum("n"));
      SutObj* o;
      { simheap::SutScope s; o = construct(j.api, m, dec(l.str("name"))); o->save(dec(l.str("path")).c_str()); }
      Obj b; b.kind = m.kind; b.isd = m.isd; b.name = dec(l.str("name")); b.loaded = false; b.o = o;
      if (l.num("reload") || !l.has("id") || !l.num("saved")) { simheap::SutScope s; delete o; }
      if (l.has("id") && !l.num("reload") && !l.num("saved")) { simheap::SutScope s; b.o = construct(j.api, m, dec(l.str("name"))); }   // has not been saved yet
      if (l.has("id")) {
        if (l.num("reload")) { std::string path = dec(l.str("path")); b.loaded = true; b.name = "From " + path; simheap::SutScope s; b.o = j.api->load(b.kind, b.isd, path.c_str()); }
        if (j.shared.count(l.num("id"))) { simheap::SutScope s; delete j.shared[l.num("id")].o; }
        j.shared[l.num("id")] = b;
      }
    }
    if (!j.shared.empty()) { auto u = simheap::inUse(); simsched::watchWrites(u.first, u.second); }
    simfs::begin(simfs::parseFaults((*j.plan)[0].cmd == "thread" ? (*j.plan)[0] : Line()));
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < j.nthr; ++t) {
      Job* jp = &j;
      if (j.only >= 0 && t != j.only) bodies.push_back([]() {});
      else bodies.push_back([jp, t]() { threadBody(jp, t); });
    }
    simsched::run(bodies, j.sw, {}, nullptr, record);
    if (simfs::openFiles()) violation("open.files", "%d files still open after all threads ended", simfs::openFiles());
    simfs::end();
    for (int t = 0; t < j.nthr; ++t)
      for (auto& o : j.objs[(size_t)t]) note(j.res[(size_t)t], fmt("object %lld at the end", (long long)o.first), hashData(snapshot(o.second.o, o.second.kind, o.second.isd, o.second.name)));
    for (auto& o : j.shared) for (auto& r : j.res) note(r, fmt("shared object %lld at the end", (long long)o.first), hashData(snapshot(o.second.o, o.second.kind, o.second.isd, o.second.name)));
    simfs::Disk d = simfs::disk();
    for (auto& f : d) if (f.first[0] == 't') { int t = atoi(f.first.c_str() + 1); if (t >= 0 && t < j.nthr) note(j.res[(size_t)t], "file " + f.first, hashBytes(f.second.data(), f.second.size())); }
      else if (!f.first.compare(0, 6, "shared")) for (auto& r : j.res) note(r, "file " + f.first, hashBytes(f.second.data(), f.second.size()));
  }
  static void probe(void* a) {
    Job* j = (Job*)a;
    go(*j, true);
    Out o;
    o.u64(shm->steps);
    Result& r = j->res[(size_t)j->only];
    o.u64(r.h.size());
    for (size_t i = 0; i < r.h.size(); ++i) { o.u64(r.h[i]); o.str(r.what[i]); }
  }

  void exec(const std::string& prop, const std::vector<Line>& plan) override {
    simheap::Scope hs;
    int p = atoi(prop.c_str() + 1);
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "thread") cfg = &l;
    if (!cfg) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    int nthr = (int)std::min<int64_t>(8, std::max<int64_t>(1, cfg->num("nthr", 2)));
    Job j; j.w = this; j.plan = &plan; j.api = sutInstr(); j.nthr = nthr; j.reader = cfg->str("mode") == "reader"; j.only = -1;
    if (j.reader) { reader(j, plan); return; }
    // every thread alone, each in its own process
    std::vector<Result> alone((size_t)nthr);
    uint64_t steps = 0;
    std::vector<uint64_t> stat;
    for (int t = 0; t < nthr; ++t) {
      j.only = t;
      uint64_t s0 = shm->steps;
      std::vector<unsigned char> buf = forked(probe, &j);
      In in(buf);
      uint64_t st = in.u64() - s0;
      for (size_t i = 0; i < shm->nstat; ++i) stat.push_back(steps + shm->stat[i]);
      uint64_t n = in.u64();
      for (uint64_t i = 0; i < n; ++i) { alone[(size_t)t].h.push_back(in.u64()); alone[(size_t)t].what.push_back(in.str()); }
      steps += st;
    }
    j.only = -1;
    j.sw = makeSchedule(plan, steps, stat, (unsigned)nthr);
    go(j, false);
    count("thread.runs"); count("thread.static_accesses", stat.size());
    uint64_t compared = 0;
    for (int t = 0; t < nthr; ++t) {
      Result &a = alone[(size_t)t], &b = j.res[(size_t)t];
      for (size_t i = 0; i < a.h.size(); ++i) {
        if (i >= b.h.size() || a.what[i] != b.what[i]) violation("thread.missing", "thread %d: %s is missing", t, a.what[i].c_str());
        if (a.h[i] != b.h[i]) violation("thread.differs", "thread %d: %s differs from what the thread gets when it runs alone", t, a.what[i].c_str());
        ++compared;
      }
      if (b.h.size() > a.h.size()) violation("thread.extra", "thread %d: %s exists only when threads run together", t, b.what[a.h.size()].c_str());
    }
    count("thread.compared", compared);
    if (p == 12) poolsAgree(j, plan);
    uint64_t switches = counterValue("sched.switches");
    shm->nontrivial = switches > 0 && compared > 0 ? 1 : 0;
    for (auto& m : j.objs) for (auto& o : m) { simheap::SutScope s; delete o.second.o; }
    for (auto& o : j.shared) { simheap::SutScope s; delete o.second.o; }
    if (!j.shared.empty()) count("thread.shared_objects", j.shared.size());
  }

  static void firstPool(void* a) {
    const Line& l = *(const Line*)a;
    Made m = prepare(l, (int)l.num("kind"), (int)l.num("isd"), l.unum("n"));
    SutObj* o;
    { simheap::SutScope s; o = construct(sutInstr(), m, ""); }
    Data d = snapshot(o, m.kind, m.isd, "");
    Out out;
    out.u64(d.col.size());
    for (auto& c : d.col) { out.u64(c.size()); for (auto x : c) out.u64(x); }
  }

  static Data first(Line l) {
    std::vector<unsigned char> buf = forked(firstPool, &l);
    In in(buf);
    Data d;
    d.col.resize(in.u64());
    for (auto& c : d.col) { c.resize(in.u64()); for (auto& x : c) x = in.u64(); }
    return d;
  }
  // P12: equal arguments give equal numbers, whatever the history, build or process
  void poolsAgree(Job& j, const std::vector<Line>& plan) {
    std::map<std::string, std::pair<Data, std::string>> by;
    auto check = [&](const std::string& key, const Data& d, const std::string& who) {
      auto i = by.find(key);
      if (i == by.end()) { by[key] = {d, who}; return; }
      std::string why = d.n() == i->second.first.n() ? diffData(i->second.first, d, d.n()) : "another size";
      if (!why.empty()) violation("pool.differs", "two pools with the same arguments differ (%s, %s): %s", i->second.second.c_str(), who.c_str(), why.c_str());
      count("pool.pairs_compared");
    };
    auto keyOf = [](const Line& l) { std::string k; for (auto& e : l.kv) if (e.first != "t" && e.first != "id" && e.first != "do" && e.first != "path") k += e.first + "=" + e.second + " "; return k; };
    Cal none;
    for (auto& l : plan) if (l.cmd == "many") {   // many pools, the same ones again and again
      Rng r(l.unum("vseed"));
      std::map<uint64_t, uint64_t> first;
      uint64_t period = r.chance(1, 2) ? r.range(5, 60) : r.range(60, 600);
      bool both = r.chance(1, 3);
      for (uint64_t i = 0, e = l.unum("times"); i < e + 12; ++i) {
        uint64_t k = i < e ? i % period : i - e;
        Rng q(l.unum("vseed") + k * 31);
        int isd = (int)q.below(2);
        Line x = parsePlan({fmt("x kind=%d isd=%d n=%d ", (int)q.below(3) == 0 ? K_P2 : K_P1, isd, (int)q.range(1, 12)) + genPool(q, isd)})[0];
        x.kv["seed"] = fmt("%d", (int)k);
        Made mk = prepare(x, (int)x.num("kind"), isd, x.unum("n"));
        SutObj* o;
        { simheap::SutScope s; o = construct(both && r.chance(1, 2) ? sutInstr() : sutPlain(), mk, ""); }
        Data d = snapshot(o, mk.kind, isd, "");
        { simheap::SutScope s; delete o; }
        std::string why = verifyMade(mk, d, none);
        if (!why.empty()) violation("pool.wrong", "pool %llu does not fit its arguments: %s", (unsigned long long)i, why.c_str());
        if (!first.count(k)) first[k] = hashData(d);
        else if (first[k] != hashData(d)) violation("pool.differs", "pool %llu differs from pool %llu, made with the same arguments", (unsigned long long)i, (unsigned long long)k);
      }
      count("pool.many");
    }
    for (auto& l : plan) if (l.cmd == "large") {
      uint64_t h[3];
      for (int b = 0; b < 3; ++b) {
        Made mk = prepare(l, (int)l.num("kind"), (int)l.num("isd"), l.unum("n"));
        Data d;
        if (b == 2) d = first(l);
        else {
          SutObj* o;
          { simheap::SutScope s; o = construct(sutPlain(), mk, ""); }
          d = snapshot(o, mk.kind, mk.isd, "");
          { simheap::SutScope s; delete o; }
        }
        std::string why = verifyMade(mk, d, none);
        if (!why.empty()) violation("pool.wrong", "a large pool does not fit its arguments: %s", why.c_str());
        h[b] = hashData(d);
      }
      if (h[0] != h[1] || h[0] != h[2]) violation("pool.differs", "a large pool differs when it is made again");
      count("pool.large");
    }
    for (auto& l : plan) {
      if (!(l.cmd == "op" && l.str("do") == "new") || l.num("kind") > K_P1OLD || l.num("kind") < 0) continue;
      auto& m = j.objs[(size_t)std::min<int64_t>(j.nthr - 1, l.num("t"))];
      auto i = m.find(l.num("id"));
      Made mk = prepare(l, (int)l.num("kind"), (int)l.num("isd"), l.unum("n"));
      if (i != m.end() && !i->second.loaded) {
        Data d = snapshot(i->second.o, mk.kind, mk.isd, "");
        std::string why = verifyMade(mk, d, none);
        if (!why.empty()) violation("pool.wrong", "a pool does not fit its arguments: %s", why.c_str());
        check(keyOf(l), d, fmt("thread %d", (int)l.num("t")));
      }
      // the same again now, by the instrumented and by the optimised build
      for (int b = 0; b < 2; ++b) {
        SutObj* o;
        simclk::stall(1234567891);
        { simheap::SutScope s; o = construct(b ? sutPlain() : sutInstr(), mk, ""); }
        check(keyOf(l), snapshot(o, mk.kind, mk.isd, ""), b ? "optimised build" : "main thread");
        { simheap::SutScope s; delete o; }
      }
    }
    // and as the first pool of a process
    std::set<std::string> seen;
    for (auto& l : plan) {
      if (!(l.cmd == "op" && l.str("do") == "new") || l.num("kind") > K_P1OLD || l.num("kind") < 0 || !seen.insert(keyOf(l)).second || seen.size() > 3) continue;
      check(keyOf(l), first(l), "first pool of a process");
    }
  }

  // P04: readers during the first save of a file
  struct RJob { Job* j; };
  static void probeReader(void* a) {
    Job* j = (Job*)a;
    goReader(*j, true);
    Out o; o.u64(shm->steps);
  }
  static void goReader(Job& j, bool record) {
    j.objs.assign((size_t)j.nthr, {});
    j.res.assign((size_t)j.nthr, {});
    simclk::reset();
    simfs::reset();
    const Line* cfg = nullptr;
    for (auto& l : *j.plan) if (l.cmd == "thread") cfg = &l;
    // the object is created before the threads start
    for (auto& l : *j.plan) if (l.cmd == "op" && l.str("do") == "new") {
      Obj o; o.kind = (int)l.num("kind"); o.isd = (int)l.num("isd"); o.name = dec(l.str("name")); o.loaded = false;
      Made m = prepare(l, o.kind, o.isd, l.unum("n"));
      { simheap::SutScope s; o.o = construct(j.api, m, o.name); }
      j.objs[0][l.num("id")] = o;
    }
    simfs::begin(simfs::parseFaults(*cfg));
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < j.nthr; ++t) {
      Job* jp = &j;
      bodies.push_back([jp, t]() {
        for (auto& l : *jp->plan) {
          if (l.cmd != "op" || l.num("t") != t) continue;
          std::string path = dec(l.str("path"));
          try {
            if (l.str("do") == "save") { auto i = jp->objs[0].find(l.num("id")); if (i != jp->objs[0].end()) { simheap::SutScope s; i->second.o->save(path.c_str()); } }
            if (l.str("do") == "load") {
              Obj o; o.kind = (int)l.num("kind"); o.isd = (int)l.num("isd"); o.loaded = true; o.name = "From " + path;
              { simheap::SutScope s; o.o = jp->api->load(o.kind, o.isd, path.c_str()); }
              jp->objs[(size_t)t][l.num("id") + 1000 * t] = o;
            }
          } catch (const std::exception& e) { simheap::harness = 1; violation("thread.exception", "thread %d: %s", t, e.what()); }
        }
      });
    }
    simsched::run(bodies, j.sw, {}, nullptr, record);
    if (simfs::openFiles()) violation("open.files", "%d files still open after all threads ended", simfs::openFiles());
    simfs::end();
  }
  void reader(Job& j, const std::vector<Line>& plan) {
    uint64_t s0 = shm->steps;
    std::vector<unsigned char> buf = forked(probeReader, &j);
    In in(buf);
    uint64_t steps = in.u64() - s0;
    j.sw = makeSchedule(plan, steps, {}, (unsigned)j.nthr);
    for (auto& l : plan) if (l.cmd == "swio") j.sw.push_back({l.unum("at") % (steps + 1), (uint32_t)l.num("to")});
    std::stable_sort(j.sw.begin(), j.sw.end(), [](const simsched::Switch& a, const simsched::Switch& b) { return a.step < b.step; });
    shm->nsw = 0;
    for (auto& s : j.sw) if (shm->nsw < sizeof shm->sw / sizeof shm->sw[0]) { shm->sw[shm->nsw].step = s.step; shm->sw[shm->nsw].to = s.to; shm->nsw++; }
    goReader(j, false);
    if (j.objs[0].empty()) return;
    Obj& w = j.objs[0].begin()->second;
    Data full = snapshot(w.o, w.kind, w.isd, w.name);
    Cal c = calibrate(j.api, w.kind, w.isd);
    bool partial = false;
    for (int t = 1; t < j.nthr; ++t) for (auto& e : j.objs[(size_t)t]) {
      Obj& o = e.second;
      if (o.kind != w.kind || o.isd != w.isd) continue;
      Data d = snapshot(o.o, o.kind, o.isd, o.name);
      if (!d.bad.empty()) violation("torn.unpaired", "a reader during a save holds incomplete records: %s", d.bad.c_str());
      if (d.n() > full.n()) violation("torn.invented", "a reader during a save got %zu records of %zu", d.n(), full.n());
      std::string why = diffData(full, d, d.n());
      if (!why.empty()) violation("torn.wrong", "a reader during a save got other values: %s", why.c_str());
      if (d.stats != full.stats && d.stats != c.emptyStats) violation("torn.stats", "a reader during a save got other statistics: '%s' instead of '%s'", d.stats.c_str(), full.stats.c_str());
      count("reader.loads");
      if (d.n() && d.n() < full.n()) { partial = true; count("reader.partial"); }
    }
    shm->nontrivial = partial ? 1 : 0;
    for (auto& m : j.objs) for (auto& o : m) { simheap::SutScope s; delete o.second.o; }
  }
};
World* threadWorld() { static ThreadWorld w; return &w; }
