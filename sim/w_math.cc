// Math world: scalar and array functions called from several threads, signal
// handlers and long histories.  Properties P10 and P11.
#include <algorithm>
#include <cmath>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include "simos.h"
#include "values.h"

// functions that convert their argument to an integer: only arguments for
// which that conversion is defined are used
static bool bounded(const SutFun& f) {
  static const char* n[] = {"fast_sin", "fast_cos", "fast_tan", "fast_exp", "fast_tanh", "sincos"};
  for (const char* x : n) if (!strncmp(f.name, x, strlen(x))) return true;
  return false;
}
static bool wild;   // every argument, where only results of the same code are compared
static uint64_t argBits(uint64_t r, const SutFun& f) {
  uint64_t k = r % 7; r = mix64(r + 5);
  if (wild && bounded(f) && r % 5 == 0) return weirdBits(mix64(r), f.isd);
  double u = (double)(r >> 11) * 0x1p-53;
  if (bounded(f)) {
    switch (k) {
      case 0: return numBits((u - 0.5) * 2e8, f.isd);
      case 1: return numBits((double)((int64_t)(r % 41) - 20) * 0.78539816339744830962, f.isd);
      case 2: return numBits((r & 1) ? -0.0 : 0.0, f.isd);
      case 3: return numBits((u - 0.5) * 1e-300, f.isd);
      case 4: return numBits((u - 0.5) * (f.isd ? 1500 : 200), f.isd);
      default: return numBits((u - 0.5) * 20, f.isd);
    }
  }
  switch (k) {
    case 0: case 1: return weirdBits(r, f.isd);
    case 2: return numBits((u - 0.5) * 2, f.isd);
    case 3: return numBits(u * 10000, f.isd);
    case 4: return numBits((r & 1) ? 1.0 : -1.0, f.isd);
    default: return numBits((u - 0.5) * 20, f.isd);
  }
}

// the x-th of the arguments of a run; some are relatives of the one before:
// what a cache with a careless key takes for the same
static uint64_t argNo(uint64_t vs, uint64_t x, const SutFun& f) {
  uint64_t h = mix64(vs * 31 + x + 3);
  if (!(x & 1) || h % 3 == 0) return argBits(mix64(vs + x), f);
  uint64_t b = argBits(mix64(vs + x - 1), f), top = f.isd ? 1ull << 63 : 1ull << 31;
  if (isNanBits(b, f.isd) || isInfBits(b, f.isd)) return b ^ top;
  double v = valueOf(b, f.isd);
  uint64_t c = b;
  switch ((h >> 8) % 8) {
    case 0: case 1: c = b ^ top; break;
    case 2: c = b ^ 1; break;
    case 3: c = b & ~top ? b - 1 : b ^ top; break;
    case 4: c = numBits((double)(float)v, f.isd); break;
    case 5: c = numBits(std::floor(v) + (double)((h >> 16) % 1000) / 1000, f.isd); break;
    case 6: c = b ^ (1ull << ((h >> 16) % (f.isd ? 52 : 23))); break;
    case 7: c = numBits(v * ((h & 64) ? 2 : 0.5), f.isd); break;
  }
  if (!wild && bounded(f) && !(std::fabs(valueOf(c, f.isd)) <= 1e8)) return b;
  return c;
}

struct MathWorld : World {
  void init(const std::string&) override { sutInstr(); sutPlain(); muteStdout(); }

  void gen(const std::string& prop, uint64_t seed, int tier, uint64_t index, PlanText& out) override {
    (void)tier;
    Rng r(mix64(seed * 1000003 + index) ^ hashBytes(prop.data(), prop.size()));
    int p = atoi(prop.c_str() + 1);
    int nf = 0; { simheap::Scope s; nf = 60; }
    int nthr = (int)r.range(1, 4);
    if (p == 10 && index % 1024 == 11) {   // so many calls that a counter could matter
      out.push_back(fmt("math mode=long fill=%d vseed=%llu", (int)r.below(256), (unsigned long long)r.below(1ull << 40)));
      if (index % 4096 == 11) out.push_back("long f=-1 k=1060000");
      else out.push_back(fmt("long f=%d k=%d", (int)r.below(1000), (int)(r.chance(1, 3) ? 16800000 : r.range(1000000, 5000000))));
      return;
    }
    if (p == 10 && r.chance(1, 8)) {   // long histories of the optimised build
      out.push_back(fmt("math mode=history fill=%d vseed=%llu mix=%d arrays=%d", (int)r.below(256), (unsigned long long)r.below(1ull << 40), (int)r.below(2), (int)r.below(2)));
      bool large = r.chance(1, 25);
      for (int i = 0, e = (int)(large ? 1 : r.range(1, 8)); i < e; ++i)
        out.push_back(fmt("hist f=%d k=%d vals=%d order=%d", (int)r.below(1000), (int)(large ? r.range(66000, 300000) : r.chance(1, 3) ? r.range(2000, 20000) : r.range(50, 2000)), (int)(r.chance(1, 3) ? r.range(1, 10) : r.range(10, large ? 500 : 3000)), (int)r.below(4)));
      return;
    }
    if (p == 10 && r.chance(1, 40)) {   // calls while the library is loaded
      out.push_back(fmt("math mode=early fill=%d vals=%d vseed=%llu", (int)r.below(256), (int)r.range(1, 6), (unsigned long long)r.below(1ull << 40)));
      for (int i = 0, e = (int)r.range(20, 60); i < e; ++i) out.push_back(fmt("call t=0 f=%d x=%d y=%d", (int)r.below(1000), (int)r.below(6), (int)r.below(6)));
      return;
    }
    if (p == 10) {
      out.push_back(fmt("math mode=calls nthr=%d fill=%d vals=%d vseed=%llu", nthr, (int)r.below(256), (int)r.range(1, 6), (unsigned long long)r.below(1ull << 40)));
      // swarm: few functions per run, so that the same ones meet
      std::vector<int> fs; for (int i = 0, e = (int)r.range(1, 5); i < e; ++i) fs.push_back((int)r.below(1000));
      for (int t = 0; t < nthr; ++t) for (int i = 0, e = (int)r.range(1, 12); i < e; ++i)
        out.push_back(fmt("call t=%d f=%d x=%d y=%d k=%d", t, r.pick(fs), (int)r.below(6), (int)r.below(6), (int)(r.chance(1, 4) ? r.range(2, 20) : 1)));
      for (int i = 0, e = (int)(r.chance(2, 3) ? r.range(1, 6) : 0); i < e; ++i)
        out.push_back(fmt("sig at=%llu f=%d x=%d y=%d k=%d", (unsigned long long)r.below(1ull << 40), r.pick(fs), (int)r.below(6), (int)r.below(6), (int)r.range(1, 3)));
      genSchedule(r, out, (unsigned)nthr);
      return;
    }
    bool plain = r.chance(1, 3);
    if (plain) nthr = 1;
    int na = (int)r.range(1, plain ? 2 : 3);
    out.push_back(fmt("math mode=%s nthr=%d fill=%d rounds=%d", plain ? "plain" : "pieces", nthr, (int)r.below(256), (int)(r.chance(1, 3) ? r.range(2, 4) : 1)));
    int pid = 0;
    bool large = !plain && r.chance(1, 25), one = r.chance(1, 2);
    int f0 = (int)r.below(1000);
    for (int a = 0; a < na; ++a) {
      uint64_t n = large ? r.range(700, 12000) : plain && r.chance(1, 60) ? (r.chance(1, 4) ? r.range(90000, 300000) : r.range(5000, 90000)) : r.chance(1, 10) ? r.range(200, plain ? 5000 : 700) : r.chance(1, 2) ? r.below(24) : r.below(120);
      n = r.special(n);
      out.push_back(fmt("arr a=%d f=%d n=%llu vseed=%llu off=%d ooff=%d edge=%d", a, one ? f0 : (int)r.below(1000), (unsigned long long)n, (unsigned long long)r.below(1ull << 40), (int)r.below(16), (int)r.below(16), (int)r.below(2)));
      if (plain && na == 1 && r.chance(1, 150)) {   // very many pieces
        out.back() = fmt("arr a=%d f=%d n=%llu vseed=%llu off=%d ooff=%d edge=%d", a, (int)r.below(1000), (unsigned long long)(r.chance(1, 4) ? r.range(66000, 140000) : r.range(300, 9000)), (unsigned long long)r.below(1ull << 40), (int)r.below(16), (int)r.below(16), (int)r.below(2));
        out.push_back(fmt("tile a=%d len=%d", a, (int)(r.chance(1, 2) ? 1 : r.range(0, 9))));
        continue;
      }
      // consecutive pieces
      std::vector<uint64_t> cut;
      int np = (int)r.range(1, 6);
      for (int i = 0; i + 1 < np; ++i) cut.push_back(r.below(n + 1));
      cut.push_back(0); cut.push_back(n);
      std::sort(cut.begin(), cut.end());
      for (size_t i = 0; i + 1 < cut.size(); ++i) { out.push_back(fmt("piece t=%d a=%d from=%llu len=%llu", (int)r.below((uint64_t)nthr), a, (unsigned long long)cut[i], (unsigned long long)(cut[i + 1] - cut[i]))); ++pid; }
    }
    // pieces of a thread in any order
    for (size_t i = out.size(); i-- > 1;) { size_t k = 1 + r.below(i); if (out[i][0] == 'p' && out[k][0] == 'p') std::swap(out[i], out[k]); }
    genSchedule(r, out, (unsigned)nthr);
    (void)nf; (void)pid;
  }

  // ------------------------------------------------------------------- P10
  struct Call { int t; int f; uint64_t a, b; int k; uint64_t at; };
  struct CJob { const SutApi* api; std::vector<Call> calls, sigs; std::vector<std::pair<uint64_t, uint64_t>> ask; std::vector<int> askf; };
  static const SutFun& fun(const SutApi* api, int64_t f) { return api->funs[(uint64_t)f % (uint64_t)api->nfun]; }
  static void evalAll(void* a) {
    CJob* j = (CJob*)a;
    Out o;
    simheap::SutScope s;
    for (size_t i = 0; i < j->ask.size(); ++i) { uint64_t v = fun(j->api, j->askf[i]).scalar(j->ask[i].first, j->ask[i].second); o.u64(v); }
  }
  struct SJob { CJob* j; int nthr; std::vector<std::vector<uint64_t>>* res; std::vector<simsched::Switch>* sw; std::vector<simsched::Signal>* sg; };
  static void threads(SJob* q, bool record) {
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < q->nthr; ++t) bodies.push_back([q, t]() {
      CJob* j = q->j;
      for (size_t i = 0; i < j->calls.size(); ++i) {
        Call& c = j->calls[i];
        if (c.t != t) continue;
        for (int k = 0; k < c.k; ++k) {
          uint64_t v;
          { simheap::SutScope s; v = fun(j->api, c.f).scalar(c.a, c.b); }
          (*q->res)[i].push_back(v);
        }
      }
    });
    simsched::run(bodies, *q->sw, *q->sg, nullptr, record);
  }
  static void countSteps(void* a) { SJob* q = (SJob*)a; uint64_t s0 = shm->steps; threads(q, true); Out o; o.u64(shm->steps - s0); }

  // calls before the initialisation of the library, as from the initialisation of another one
  static CJob* early_;
  static void earlyAsk(const SutApi* api) { SutApi const* keep = early_->api; early_->api = api; evalAll(early_); early_->api = keep; }
  static void evalEarly(void* a) { simheap::Scope h; early_ = (CJob*)a; const SutApi* api = sutEarly(earlyAsk); earlyAsk(api); }
  void early(const std::vector<Line>& plan, const Line& cfg) {
    uint64_t nv = std::max<uint64_t>(1, cfg.unum("vals", 1)), vs = cfg.unum("vseed");
    CJob j; j.api = sutPlain();
    for (auto& l : plan) if (l.cmd == "call") {
      int f = (int)((uint64_t)l.num("f") % (uint64_t)j.api->nfun);
      j.askf.push_back(f);
      j.ask.push_back({argNo(vs, l.unum("x") % nv, j.api->funs[f]), j.api->funs[f].arity < 2 ? 0 : argNo(vs + 77, l.unum("y") % nv, j.api->funs[f])});
      shm->trace = mix64(shm->trace ^ (uint64_t)f ^ j.ask.back().first);
    }
    if (j.ask.empty()) return;
    std::vector<unsigned char> b0 = forked(evalAll, &j), b1 = forked(evalEarly, &j);
    In in(b0), two(b1);
    std::vector<uint64_t> want;
    for (size_t i = 0; i < j.ask.size(); ++i) want.push_back(in.u64());
    for (int k = 0; k < 2; ++k) for (size_t i = 0; i < j.ask.size(); ++i) {
      uint64_t v = two.u64();
      ev("v", v);
      if (v != want[i]) violation("call.early", "%s(%llx,%llx) gives %llx %s the library is initialised and %llx later", fun(j.api, j.askf[i]).name, (unsigned long long)j.ask[i].first, (unsigned long long)j.ask[i].second, (unsigned long long)v, k ? "right after" : "before", (unsigned long long)want[i]);
    }
    count("call.early", j.ask.size());
    shm->nontrivial = 1;
  }

  void calls(const std::vector<Line>& plan, const Line& cfg) {
    int nthr = (int)std::min<int64_t>(8, std::max<int64_t>(1, cfg.num("nthr", 1)));
    uint64_t nv = std::max<uint64_t>(1, cfg.unum("vals", 1)), vs = cfg.unum("vseed");
    uint64_t compared = 0;
    for (int build = 0; build < 2; ++build) {
      CJob j; j.api = build ? sutPlain() : sutInstr();
      auto mk = [&](const Line& l) {
        Call c; c.t = (int)l.num("t") % nthr; c.f = (int)l.num("f"); c.k = (int)std::min<int64_t>(50, l.num("k", 1)); c.at = l.unum("at");
        const SutFun& f = fun(j.api, c.f);
        c.a = argNo(vs, l.unum("x") % nv, f); c.b = argNo(vs + 77, l.unum("y") % nv, f);
        if (f.arity < 2) c.b = 0;
        return c;
      };
      for (auto& l : plan) { if (l.cmd == "call") j.calls.push_back(mk(l)); if (l.cmd == "sig") j.sigs.push_back(mk(l)); }
      if (j.calls.empty()) return;
      // the distinct questions, answered in fresh processes in two orders
      std::map<std::pair<int, std::pair<uint64_t, uint64_t>>, uint64_t> want;
      auto key = [&](const Call& c) { return std::make_pair((int)((uint64_t)c.f % (uint64_t)j.api->nfun), std::make_pair(c.a, c.b)); };
      for (auto* v : {&j.calls, &j.sigs}) for (auto& c : *v) want[key(c)] = 0;
      for (int order = 0; order < 2; ++order) {
        j.ask.clear(); j.askf.clear();
        for (auto& w : want) { j.askf.push_back(w.first.first); j.ask.push_back(w.first.second); }
        if (order) { std::reverse(j.ask.begin(), j.ask.end()); std::reverse(j.askf.begin(), j.askf.end()); }
        std::vector<unsigned char> buf = forked(evalAll, &j);
        In in(buf);
        for (size_t i = 0; i < j.ask.size(); ++i) {
          uint64_t v = in.u64();
          uint64_t& w = want[std::make_pair(j.askf[i], j.ask[i])];
          if (order && w != v) violation("call.history", "%s(%llx,%llx) gives %llx or %llx depending on the calls before", fun(j.api, j.askf[i]).name, (unsigned long long)j.ask[i].first, (unsigned long long)j.ask[i].second, (unsigned long long)w, (unsigned long long)v);
          w = v;
        }
      }
      auto check = [&](const Call& c, uint64_t v, const char* who) {
        uint64_t w = want[key(c)];
        if (v != w) violation("call.differs", "%s(%llx,%llx) gives %llx in %s and %llx alone", fun(j.api, c.f).name, (unsigned long long)c.a, (unsigned long long)c.b, (unsigned long long)v, who, (unsigned long long)w);
        ++compared;
      };
      if (build) {  // the optimised build has no switching points: histories only
        for (auto& c : j.calls) for (int k = 0; k < c.k; ++k) { uint64_t v; { simheap::SutScope s; v = fun(j.api, c.f).scalar(c.a, c.b); } check(c, v, "a history of the optimised build"); }
        continue;
      }
      std::vector<std::vector<uint64_t>> res(j.calls.size());
      std::vector<simsched::Switch> sw; std::vector<simsched::Signal> sg;
      SJob q = {&j, nthr, &res, &sw, &sg};
      std::vector<unsigned char> buf = forked(countSteps, &q);
      In in(buf);
      uint64_t steps = in.u64();
      std::vector<uint64_t> stat(shm->stat, shm->stat + shm->nstat);
      sw = makeSchedule(plan, steps, stat, (unsigned)nthr);
      std::vector<std::vector<uint64_t>> sres(j.sigs.size());
      std::vector<size_t> order; for (size_t i = 0; i < j.sigs.size(); ++i) order.push_back(i);
      // half of the signals aim at accesses to static memory, if there are any
      auto when = [&](size_t i) { uint64_t a = j.sigs[i].at; return !stat.empty() && (a & 1) ? stat[(a >> 1) % stat.size()] : a % (steps + 1); };
      std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return when(a) < when(b); });
      for (size_t i : order) {
        Call* c = &j.sigs[i]; std::vector<uint64_t>* o = &sres[i]; CJob* jp = &j;
        sg.push_back({when(i), [c, o, jp]() { for (int k = 0; k < c->k; ++k) { uint64_t v; { simheap::SutScope s; v = fun(jp->api, c->f).scalar(c->a, c->b); } simheap::Scope h; o->push_back(v); } }});
      }
      threads(&q, false);
      for (size_t i = 0; i < j.calls.size(); ++i) for (uint64_t v : res[i]) check(j.calls[i], v, fmt("thread %d", j.calls[i].t).c_str());
      for (size_t i = 0; i < j.sigs.size(); ++i) { for (uint64_t v : sres[i]) check(j.sigs[i], v, "a signal handler"); if (!sres[i].empty()) count("signal.calls", sres[i].size()); }
      for (auto& v : want) ev("val", v.second);
    }
    count("calls.compared", compared);
    shm->nontrivial = counterValue("sched.switches") + counterValue("fault.signal") > 0 && compared ? 1 : 0;
  }

  // a long sequence of calls; a seeded part of the questions is asked again
  // in a fresh process, in another order and among other calls
  static unsigned csr() { unsigned v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v & ~0x3fu; }
  static unsigned short x87() { unsigned short v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
  static uint64_t load(const unsigned char* p, int isd) { if (isd) { uint64_t v; memcpy(&v, p, 8); return v; } uint32_t v; memcpy(&v, p, 4); return v; }
  static void store(unsigned char* p, uint64_t b, int isd) { if (isd) memcpy(p, &b, 8); else { uint32_t v = (uint32_t)b; memcpy(p, &v, 4); } }
  struct HJob { const SutApi* api; std::vector<int> f; std::vector<std::pair<uint64_t, uint64_t>> q; };
  static void evalHist(void* a) {
    HJob* j = (HJob*)a;
    Out o;
    simheap::SutScope s;
    for (size_t i = 0; i < j->q.size(); ++i) o.u64(fun(j->api, j->f[i]).scalar(j->q[i].first, j->q[i].second));
  }
  void history(const std::vector<Line>& plan, const Line& cfg) {
    const SutApi* api = sutPlain();
    uint64_t vs = cfg.unum("vseed");
    Rng r(vs ^ 0x1157);
    std::map<std::pair<int, std::pair<uint64_t, uint64_t>>, uint64_t> seen;
    uint64_t calls = 0;
    struct Cur { const SutFun* f; int fi; uint64_t vals, k, i; int order; };
    std::vector<Cur> cs;
    for (auto& l : plan) if (l.cmd == "hist") {
      Cur c = {&fun(api, l.num("f")), (int)(l.unum("f") % (uint64_t)api->nfun), std::max<uint64_t>(1, l.unum("vals")), std::min<uint64_t>(400000, l.unum("k")), 0, (int)l.num("order")};
      shm->trace = mix64(shm->trace ^ (uint64_t)c.fi << 32 ^ c.vals << 16 ^ c.k);
      if (c.k) cs.push_back(c);
    }
    bool mix = cfg.num("mix") != 0, arrays = cfg.num("arrays") != 0;
    unsigned char buf1[256], buf2[256], buf3[256];
    while (!cs.empty()) {
      if (arrays && r.chance(1, 12)) {   // an array function in between
        const SutFun& g = fun(api, (int64_t)r.below(1000));
        uint32_t n = (uint32_t)r.below(g.isd ? 33 : 65);
        size_t sz = g.isd ? 8 : 4;
        for (uint32_t i = 0; i < n; ++i) { store(buf1 + i * sz, argBits(r.next(), g), g.isd); store(buf2 + i * sz, argBits(r.next(), g), g.isd); }
        unsigned c0 = csr(); unsigned short w0 = x87();
        if (g.array) { simheap::SutScope s; g.array(n, buf1, buf2, buf3); }
        if (csr() != c0 || x87() != w0) violation("call.modes", "the array form of %s changed the floating point modes of the thread", g.name);
        if (g.array) count("history.array_calls");
      }
      size_t w = mix ? r.below(cs.size()) : 0;
      Cur& c = cs[w];
      const SutFun& f = *c.f;
      uint64_t i = c.i++, vals = c.vals;
      uint64_t x = c.order == 0 ? i % vals : c.order == 1 ? r.below(vals) : c.order == 2 ? (i / 3) % vals : (i / 7 + r.below(4)) % vals;
      uint64_t a = argNo(vs, x, f), b = f.arity < 2 ? 0 : argNo(vs + 77, r.chance(1, 4) ? r.below(vals) : x, f), v;
      unsigned c0 = csr(); unsigned short w0 = x87();
      { simheap::SutScope s; v = f.scalar(a, b); }
      if (csr() != c0 || x87() != w0) violation("call.modes", "%s(%llx,%llx) changed the floating point modes of the thread", f.name, (unsigned long long)a, (unsigned long long)b);
      ++calls;
      auto ins = seen.insert({{c.fi, {a, b}}, v});
      if (ins.first->second != v) violation("call.history", "%s(%llx,%llx) gave %llx and, %llu calls into the history, %llx", f.name, (unsigned long long)a, (unsigned long long)b, (unsigned long long)ins.first->second, (unsigned long long)calls, (unsigned long long)v);
      if (c.i >= c.k) cs.erase(cs.begin() + (long)w);
    }
    if (seen.empty()) return;
    HJob j; j.api = api;
    std::vector<uint64_t> want;
    std::vector<std::pair<std::pair<int, std::pair<uint64_t, uint64_t>>, uint64_t>> all(seen.begin(), seen.end());
    for (size_t i = all.size(); i-- > 1;) std::swap(all[i], all[r.below(i + 1)]);
    size_t take = std::min<size_t>(all.size(), 1 + r.below(400));
    for (size_t i = 0; i < take; ++i) { j.f.push_back(all[i].first.first); j.q.push_back(all[i].first.second); want.push_back(all[i].second); }
    std::vector<unsigned char> buf = forked(evalHist, &j);
    In in(buf);
    for (size_t i = 0; i < take; ++i) {
      uint64_t v = in.u64();
      if (v != want[i]) violation("call.history", "%s(%llx,%llx) gives %llx in a history of %llu calls and %llx in a fresh process", fun(api, j.f[i]).name, (unsigned long long)j.q[i].first, (unsigned long long)j.q[i].second, (unsigned long long)want[i], (unsigned long long)calls, (unsigned long long)v);
      ev("val", v);
    }
    count("calls.compared", calls); count("history.calls", calls); count("history.asked_again", take);
    shm->nontrivial = 1;
  }

  // very many calls of a function or of each one in turn; every answer is known before
  struct LJob { const SutApi* api; int f; std::vector<uint64_t> a, b; };
  static void evalLong(void* q) { LJob* j = (LJob*)q; Out o; simheap::SutScope s; for (size_t i = j->a.size(); i-- > 0;) o.u64(fun(j->api, j->f).scalar(j->a[i], j->b[i])); }
  void longRun(const std::vector<Line>& plan, const Line& cfg) {
    const SutApi* api = sutPlain();
    uint64_t vs = cfg.unum("vseed"), calls = 0;
    for (auto& l : plan) if (l.cmd == "long") {
      bool all = l.num("f") < 0;
      for (int fi = 0; fi < (all ? api->nfun : 1); ++fi) {
        LJob j; j.api = api; j.f = all ? fi : (int)(l.unum("f") % (uint64_t)api->nfun);
        const SutFun& f = fun(api, j.f);
        for (uint64_t x = 0; x < 61; ++x) { j.a.push_back(argNo(vs, x, f)); j.b.push_back(f.arity < 2 ? 0 : argNo(vs + 77, x, f)); }
        std::vector<uint64_t> want(61);
        { std::vector<unsigned char> buf = forked(evalLong, &j); In in(buf); for (size_t i = 61; i-- > 0;) want[i] = in.u64(); }
        uint64_t k = std::min<uint64_t>(20000000, l.unum("k")), bad = ~0ull, got = 0;
        {
          simheap::SutScope s;
          for (uint64_t i = 0; i < k; ++i) { size_t x = i % 61; uint64_t v = f.scalar(j.a[x], j.b[x]); if (v != want[x]) { bad = i; got = v; break; } }
        }
        if (bad != ~0ull) violation("call.history", "%s(%llx,%llx) gives %llx in call %llu of a history and %llx in a fresh process", f.name, (unsigned long long)j.a[bad % 61], (unsigned long long)j.b[bad % 61], (unsigned long long)got, (unsigned long long)bad, (unsigned long long)want[bad % 61]);
        for (auto v : want) ev("val", v);
        shm->trace = mix64(shm->trace ^ k ^ (uint64_t)j.f << 40);
        calls += k;
      }
    }
    count("calls.compared", calls); count("history.calls", calls); count("history.long_runs");
    shm->nontrivial = calls > 0;
  }

  // ------------------------------------------------------------------- P11
  struct Arr {
    int f; size_t n, w; uint64_t vseed;
    unsigned char* base; size_t bytes;               // whole mapping
    unsigned char *in1, *in2, *out;
    size_t area;                                     // bytes between two guard pages
    std::vector<uint64_t> want;
  };
  static std::vector<Arr>* arrs_;
  struct Own { const unsigned char* lo; const unsigned char* hi; };
  static Own own_[16];
  static const char* fname_[16];
  static void access(const void* p, size_t n, bool write) {
    if (!write) return;
    int t = simsched::self();
    const unsigned char *a = (const unsigned char*)p, *e = a + n;
    for (auto& x : *arrs_) {
      if (e <= x.base || a >= x.base + x.bytes) continue;
      if (a >= own_[t].lo && e <= own_[t].hi) return;
      violation("array.write", "%s wrote %zu bytes %s its piece of the output (thread %d)", fname_[t] ? fname_[t] : "?", n,
                a < x.out || a >= x.out + x.n * x.w ? "outside" : "of another piece instead of", t);
    }
  }
  static bool same(uint64_t a, uint64_t b, int isd) { return a == b || (isNanBits(a, isd) && isNanBits(b, isd)); }

  struct AJob { const SutApi* api; std::vector<Arr>* arrs; struct P { int t; size_t a, from, len; }; std::vector<P> pieces; int nthr; std::vector<simsched::Switch> sw; };
  static void evalScalar(void* a) {
    AJob* j = (AJob*)a;
    Out o;
    simheap::SutScope s;
    for (auto& x : *j->arrs) { const SutFun& f = j->api->funs[x.f]; for (size_t i = 0; i < x.n; ++i) o.u64(f.scalar(load(x.in1 + i * x.w, f.isd), f.arity > 1 ? load(x.in2 + i * x.w, f.isd) : 0)); }
  }
  static void runPieces(AJob* j, bool record) {
    std::vector<std::function<void()>> bodies;
    arrs_ = j->arrs;
    for (int t = 0; t < j->nthr; ++t) bodies.push_back([j, t]() {
      for (auto& p : j->pieces) {
        if (p.t != t) continue;
        Arr& x = (*j->arrs)[p.a];
        const SutFun& f = j->api->funs[x.f];
        own_[t] = {x.out + p.from * x.w, x.out + (p.from + p.len) * x.w};
        fname_[t] = f.name;
        { simheap::SutScope s; f.array((uint32_t)p.len, x.in1 + p.from * x.w, x.in2 + p.from * x.w, x.out + p.from * x.w); }
        own_[t] = {nullptr, nullptr};
      }
    });
    simsched::onAccess = access;
    simsched::run(bodies, j->sw, {}, nullptr, record);
    simsched::onAccess = nullptr;
  }
  static void probePieces(void* a) { AJob* j = (AJob*)a; uint64_t s0 = shm->steps; runPieces(j, true); Out o; o.u64(shm->steps - s0); }

  // layout: guard page | input 1 | guard | input 2 | guard | output | guard
  static void place(Arr& x, const SutFun& f, const Line& l) {
    const size_t P = 4096;
    x.w = f.isd ? 8 : 4;
    size_t need = x.n * x.w + 16 * x.w;
    size_t area = (need + P - 1) / P * P;
    x.bytes = P + 3 * (area + P);
    x.base = (unsigned char*)mmap(nullptr, x.bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (x.base == MAP_FAILED) harnessError("mmap failed");
    for (size_t i = 0; i < x.bytes; ++i) x.base[i] = (unsigned char)(i * 37 + 11);
    // the arrays start or end at the edge of their pages, at any element alignment
    auto put = [&](int k, size_t off) { unsigned char* a = x.base + P + (size_t)k * (area + P); return l.num("edge") ? a + area - x.n * x.w - (off & 1 ? 0 : off * x.w) : a + off * x.w; };
    x.in1 = put(0, l.unum("off") % 16); x.in2 = put(1, l.unum("off") % 16); x.out = put(2, l.unum("ooff") % 16);
    x.area = area;
    Rng r(x.vseed);
    for (size_t i = 0; i < x.n; ++i) { store(x.in1 + i * x.w, argBits(r.next(), f), f.isd); store(x.in2 + i * x.w, argBits(r.next(), f), f.isd); }
  }
  void arrays(const std::vector<Line>& plan, const Line& cfg, bool plain) {
    const size_t P = 4096;
    AJob j;
    j.api = plain ? sutPlain() : sutInstr();
    j.nthr = plain ? 1 : (int)std::min<int64_t>(8, std::max<int64_t>(1, cfg.num("nthr", 1)));
    std::vector<int> withArray;
    for (int i = 0; i < j.api->nfun; ++i) if (j.api->funs[i].array) withArray.push_back(i);
    std::vector<Arr> arrs;
    std::map<int64_t, size_t> idx;
    for (auto& l : plan) if (l.cmd == "arr" && !idx.count(l.num("a"))) {
      Arr x; x.f = withArray[l.unum("f") % withArray.size()]; x.n = std::min<uint64_t>(400000, l.unum("n")); x.vseed = l.unum("vseed");
      place(x, j.api->funs[x.f], l);
      idx[l.num("a")] = arrs.size();
      arrs.push_back(x);
      shm->trace = mix64(shm->trace ^ (uint64_t)x.f * 4096 ^ x.n);
      count(fmt("array.%s", j.api->funs[x.f].name).c_str());
    }
    j.arrs = &arrs;
    std::vector<std::vector<char>> covered;
    for (auto& x : arrs) covered.push_back(std::vector<char>(x.n, 0));
    for (auto& l : plan) if (l.cmd == "piece" && idx.count(l.num("a"))) {
      AJob::P p; p.t = (int)(l.unum("t") % (uint64_t)j.nthr); p.a = idx[l.num("a")]; p.from = l.unum("from"); p.len = l.unum("len");
      if (p.from + p.len > arrs[p.a].n) continue;
      bool twice = false;
      for (size_t i = 0; i < p.len; ++i) if (covered[p.a][p.from + i]) twice = true;
      if (twice) continue;
      for (size_t i = 0; i < p.len; ++i) covered[p.a][p.from + i] = 1;
      j.pieces.push_back(p);
      shm->trace = mix64(shm->trace ^ (p.from * 1000003 + p.len));
    }
    std::vector<AJob::P> tiles;
    for (auto& l : plan) if (l.cmd == "tile" && plain && idx.count(l.num("a"))) {
      size_t a = idx[l.num("a")], at = 0;
      Rng r(arrs[a].vseed + 3);
      while (at < arrs[a].n) {   // pieces of the given length, or of seeded ones
        AJob::P p; p.t = 0; p.a = a; p.from = at; p.len = std::min<size_t>(arrs[a].n - at, l.unum("len") ? l.unum("len") : r.below(30));
        bool twice = false;
        for (size_t i = 0; i < p.len; ++i) { if (covered[a][at + i]) twice = true; covered[a][at + i] = 1; }
        if (!twice) tiles.push_back(p);
        at += p.len;
      }
    }
    if (j.pieces.empty() && tiles.empty()) return;
    { std::vector<unsigned char> buf = forked(evalScalar, &j); In in(buf); for (auto& x : arrs) for (size_t i = 0; i < x.n; ++i) x.want.push_back(in.u64()); }
    uint64_t checked = 0;
    std::vector<std::vector<unsigned char>> before;
    auto snap = [&]() { before.clear(); for (auto& x : arrs) before.push_back(std::vector<unsigned char>(x.base, x.base + x.bytes)); };
    // everything but the given pieces is as before; the pieces are right
    auto verify = [&](const std::vector<AJob::P>& ps) {
      for (size_t k = 0; k < arrs.size(); ++k) {
        Arr& x = arrs[k];
        const SutFun& f = j.api->funs[x.f];
        std::vector<std::pair<size_t, size_t>> ranges;
        for (auto& p : ps) if (p.a == k) {
          size_t o = (size_t)(x.out - x.base) + p.from * x.w;
          ranges.push_back({o, o + p.len * x.w});
          for (size_t i = p.from; i < p.from + p.len; ++i) {
            uint64_t v = load(x.out + i * x.w, f.isd);
            if (!same(v, x.want[i], f.isd)) violation("array.value", "element %zu of %zu of the array form of %s (piece %zu+%zu) is %llx, the scalar form gives %llx", i, x.n, f.name, p.from, p.len, (unsigned long long)v, (unsigned long long)x.want[i]);
            ++checked;
          }
        }
        std::sort(ranges.begin(), ranges.end());
        size_t at = 0;
        ranges.push_back({x.bytes, x.bytes});
        for (auto& r : ranges) {
          if (r.first > at && memcmp(x.base + at, before[k].data() + at, r.first - at)) {
            size_t b = at; while (x.base[b] == before[k][b]) ++b;
            long rel = (long)(x.base + b - x.out);
            violation("array.outside", "the array form of %s changed memory outside its piece (byte %ld from the start of the output of %zu elements)", f.name, rel, x.n);
          }
          at = std::max(at, r.second);
        }
      }
    };
    snap();
    if (plain) {
      // one piece after the other; only the pages of its output are writable
      for (auto& p : j.pieces) {
        Arr& x = arrs[p.a];
        const SutFun& f = j.api->funs[x.f];
        snap();
        for (auto& y : arrs) {
          mprotect(y.base, y.bytes, PROT_READ);
          for (size_t g = 0; g < 4; ++g) mprotect(y.base + g * (y.area + P), P, PROT_NONE);
        }
        unsigned char *lo = x.out + p.from * x.w, *hi = lo + p.len * x.w;
        size_t a = (size_t)(lo - x.base) / P * P, e = ((size_t)(hi - x.base) + P - 1) / P * P;
        if (p.len) mprotect(x.base + a, e - a, PROT_READ | PROT_WRITE);
        const char* name = f.name;
        note_ = name;
        { simheap::SutScope s; f.array((uint32_t)p.len, x.in1 + p.from * x.w, x.in2 + p.from * x.w, lo); }
        for (auto& y : arrs) mprotect(y.base, y.bytes, PROT_READ | PROT_WRITE);
        verify({p});
        count("piece.plain");
      }
      if (!tiles.empty()) {
        snap();
        { simheap::SutScope s; for (auto& p : tiles) { Arr& x = arrs[p.a]; j.api->funs[x.f].array((uint32_t)p.len, x.in1 + p.from * x.w, x.in2 + p.from * x.w, x.out + p.from * x.w); } }
        verify(tiles);
        count("piece.tiles", tiles.size());
      }
    } else {
      std::vector<unsigned char> buf = forked(probePieces, &j);
      In in(buf);
      uint64_t steps = in.u64();
      std::vector<uint64_t> stat(shm->stat, shm->stat + shm->nstat);
      j.sw = makeSchedule(plan, steps, stat, (unsigned)j.nthr);
      runPieces(&j, false);
      verify(j.pieces);
      count("piece.threads", j.pieces.size());
    }
    // the same arrays again: overwritten results, some or all inputs changed
    for (uint64_t round = 1; round < cfg.unum("rounds"); ++round) {
      for (auto& x : arrs) {
        const SutFun& f = j.api->funs[x.f];
        Rng r(x.vseed * 7 + round);
        int how = (int)r.below(4);   // 0: only the results are gone
        for (size_t i = 0; i < x.n; ++i) {
          if (how == 1 && (i == 0 || i + 1 == x.n || r.chance(1, 2))) continue;
          if (how == 2 && i != r.below(x.n)) continue;
          if (how) store(x.in1 + i * x.w, argBits(r.next(), f), f.isd);
          if (how && r.chance(1, 2)) store(x.in2 + i * x.w, argBits(r.next(), f), f.isd);
        }
        for (size_t i = 0; i < x.n * x.w; ++i) x.out[i] = (unsigned char)(i * 41 + round);
        x.want.clear();
      }
      { std::vector<unsigned char> buf = forked(evalScalar, &j); In in(buf); for (auto& x : arrs) for (size_t i = 0; i < x.n; ++i) x.want.push_back(in.u64()); }
      snap();
      if (plain) { simheap::SutScope s; for (auto* v : {&j.pieces, &tiles}) for (auto& p : *v) { Arr& x = arrs[p.a]; j.api->funs[x.f].array((uint32_t)p.len, x.in1 + p.from * x.w, x.in2 + p.from * x.w, x.out + p.from * x.w); } }
      else { j.sw.clear(); runPieces(&j, false); }
      std::vector<AJob::P> all = j.pieces;
      if (plain) all.insert(all.end(), tiles.begin(), tiles.end());
      verify(all);
      count("piece.again", all.size());
    }
    for (auto& p : j.pieces) if (!p.len) count("piece.empty");
    for (auto& x : arrs) for (uint64_t v : x.want) ev("v", v);
    count("elements.compared", checked);
    shm->nontrivial = checked && (plain ? true : counterValue("sched.switches") > 0 || j.nthr == 1) ? 1 : 0;
  }
  static const char* note_;

  void exec(const std::string& prop, const std::vector<Line>& plan) override {
    simheap::Scope hs;
    wild = prop == "P10";
    simfs::reset();
    simclk::reset();
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "math") cfg = &l;
    if (!cfg) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    std::string m = cfg->str("mode");
    if (m == "calls") calls(plan, *cfg); else if (m == "early") early(plan, *cfg); else if (m == "long") longRun(plan, *cfg); else if (m == "history") history(plan, *cfg); else arrays(plan, *cfg, m == "plain");
  }
};
std::vector<MathWorld::Arr>* MathWorld::arrs_;
MathWorld::Own MathWorld::own_[16];
const char* MathWorld::fname_[16];
const char* MathWorld::note_ = "";
MathWorld::CJob* MathWorld::early_;
World* mathWorld() { static MathWorld w; return &w; }
