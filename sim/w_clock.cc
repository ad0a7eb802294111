// Clock world: timers and benchmarks on simulated clocks.  Properties P07-P09.
#include <iostream>
#include <sys/resource.h>
#include <cmath>
#include <sstream>
#include "simos.h"
#include "values.h"

static int64_t genTime(Rng& r) {
  switch (r.below(7)) {
    case 0: return (int64_t)r.below(1000000000);
    case 1: return (int64_t)r.below(100) * 1000000000 + (int64_t)r.range(-3, 3) + 1000000000;        // around a full second
    case 2: return (int64_t)r.below(100000) * 1000000000 + 999999999;
    case 3: return (int64_t)r.below(100000000000000000ull);                                          // years
    case 4: return (int64_t)r.below(10000) * 1000000000;
    default: return (int64_t)r.below(10000000000000ull);
  }
}
static int64_t genSpan(Rng& r) {
  switch (r.below(9)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (int64_t)r.below(1000);
    case 3: return 999999990 + (int64_t)r.below(20);
    case 4: return (int64_t)r.below(2000000000);
    case 5: return 4294967290ll + (int64_t)r.below(12);
    case 6: return (int64_t)r.below(100000) * 1000000000 + (int64_t)r.below(1000000000);
    case 7: return (int64_t)r.below(100000000000000000ull);
    default: return (int64_t)r.below(100000000);
  }
}

struct ClockWorld : World {
  void init(const std::string& p) override { sutPlain(); if (p == "P08") sutInstr(); muteStdout(); }
  void gen(const std::string& prop, uint64_t seed, int tier, uint64_t index, PlanText& out) override {
    Rng r(mix64(seed * 1000003 + index) ^ hashBytes(prop.data(), prop.size()));
    int p = atoi(prop.c_str() + 1);
    typedef long long ll;
    if (p == 7) {
      out.push_back(fmt("clock fill=%d cpu=%lld", (int)r.below(256), (ll)genTime(r)) + (r.chance(1, 4) ? fmt(" slow=%llu", (unsigned long long)(1 + r.below(1ull << 30))) : std::string()));
      int n = (int)r.range(1, 3);
      for (int i = 0, e = (int)r.range(4, 24); i < e; ++i) {
        int id = (int)r.below((uint64_t)n);
        switch (r.below(9)) {
          case 7: out.push_back(fmt("stall ns=%lld", (ll)genSpan(r))); break;
          case 8: out.push_back(fmt("step ns=%lld", (ll)(r.chance(1, 2) ? genSpan(r) : -genSpan(r)))); break;
          case 0: case 1: out.push_back(fmt("start id=%d", id)); break;
          case 2: case 3: out.push_back(fmt("stop id=%d", id)); break;
          case 4: out.push_back(fmt("read id=%d print=%d", id, (int)r.below(2))); break;
          default: out.push_back(fmt("work ns=%lld", (ll)genSpan(r)));
        }
        if (r.chance(1, 600)) out.push_back(fmt("many id=%d times=%d vseed=%llu", id, (int)(r.chance(1, 30) ? r.range(65530, 66000) : r.chance(1, 3) ? r.range(1000, 5000) : r.range(100, 600)), (unsigned long long)r.below(1ull << 40)));
      }
    } else if (p == 8) {
      int nthr = (int)r.range(1, 4);
      bool slow = r.chance(1, 4);
      out.push_back(fmt("clock mode=threads nthr=%d fill=%d", nthr, (int)r.below(256)) + (slow ? fmt(" slow=%llu", (unsigned long long)(1 + r.below(1ull << 30))) : std::string()));
      for (int t = 0; t < nthr; ++t) {
        out.push_back(fmt("cpu t=%d ns=%lld", t, (ll)genTime(r)));
        int n = (int)r.range(1, 3);
        for (int i = 0, e = (int)r.range(3, 14); i < e; ++i) {
          int id = (int)r.below((uint64_t)n);
          if (r.chance(1, 10) && !slow) out.push_back(fmt("bench t=%d form=%d isd=%d n=%d reps=%d ns=%lld", t, (int)r.below(4), (int)r.below(2), (int)r.range(2, 6), (int)r.range(1, 4), (ll)r.below(r.chance(1, 2) ? 1000 : 3000000000)));
          switch (r.below(9)) {
            case 0: case 1: out.push_back(fmt("start t=%d id=%d", t, id)); break;
            case 2: case 3: out.push_back(fmt("stop t=%d id=%d", t, id)); break;
            case 4: out.push_back(fmt("read t=%d id=%d", t, id)); break;
            case 5: out.push_back(fmt("stall t=%d ns=%lld", t, (ll)genSpan(r))); break;
            case 6: out.push_back(fmt("step t=%d ns=%lld", t, (ll)(r.chance(1, 2) ? genSpan(r) : -genSpan(r)))); break;
            default: out.push_back(fmt("work t=%d ns=%lld", t, (ll)genSpan(r)));
          }
        }
      }
      genSchedule(r, out, (unsigned)nthr);
    } else {
      // one run in the whole batch has more evaluations than a 32 bit number counts
      if (index % 4096 == 5 && (tier || index < 4096)) { out.push_back(fmt("perf fill=0 isd=%d form=%d n=16384 reps=262145 pseed=3 span=2 huge=1 palloc=0", 0, (int)(2 + seed % 2))); return; }
      for (int i = 0, e = (int)r.range(1, 3); i < e; ++i) {
        uint64_t n = r.chance(1, 4) ? 1 : r.chance(1, 3) ? 1 + r.below(200) : 1 + r.below(12);
        uint64_t reps = n == 1 ? 2 + r.below(20) : 1 + r.below(12);
        if (r.chance(1, 400)) { reps = 65530 + r.below(3000); n = 1 + r.below(2); }
        else if (r.chance(1, 400)) { n = 65530 + r.below(3000); reps = 1 + r.below(2); }
        else if (r.chance(1, 30)) { n = 1000 + r.below(3000); reps = 1 + r.below(4); }
        if (r.chance(1, 30)) { reps = 100 + r.below(1000); n = 1 + r.below(4); }
        n = r.special(n); reps = r.special(reps);
        if (r.chance(1, 200)) {   // very many evaluations
          out.push_back(fmt("perf fill=%d isd=%d form=%d n=%d reps=%d pseed=%llu span=%d huge=1 palloc=0", (int)r.below(256), (int)r.below(2), (int)(2 + r.below(2)), (int)r.range(500, 20000), (int)r.range(500, 20000), (unsigned long long)r.below(1ull << 40), (int)r.below(8)));
          continue;
        }
        if (r.chance(1, 80)) {   // only the beginning of more passes than 32 bits count
          out.push_back(fmt("perf fill=%d isd=%d form=%d n=%d reps=%llu pseed=%llu span=%d huge=0 palloc=0 stop=%d", (int)r.below(256), (int)r.below(2), (int)r.below(4), (int)r.range(1, 3), (unsigned long long)((1ull << 31) + (r.chance(1, 2) ? r.below(5) : r.below(1ull << 31))), (unsigned long long)r.below(1ull << 40), (int)r.below(8), (int)r.range(20, 300)));
          continue;
        }
        out.push_back(fmt("perf fill=%d isd=%d form=%d n=%llu reps=%llu pseed=%llu span=%d huge=0 palloc=%d", (int)r.below(256), (int)r.below(2), (int)r.below(4), (unsigned long long)n, (unsigned long long)reps, (unsigned long long)r.below(1ull << 40), (int)r.below(8), (int)(r.chance(1, 2) ? r.below(1000000) : 0)) + (r.chance(1, 150) && n * reps < 30 ? fmt(" again=%d", (int)(r.chance(1, 5) ? r.range(1000, 3000) : r.range(100, 400))) : std::string()));
      }
    }
  }

  struct Tm { SutTimer* t = nullptr; bool started = false, stopped = false; int64_t begin = 0, begun = 0, end = 0, ended = 0; };   // before and after the call
  static void timerOp(const SutApi* api, std::map<int64_t, Tm>& ts, const Line& l, int thr) {
    int64_t id = l.num("id");
    int me = thr < 0 ? 0 : thr;
    if (l.cmd == "work") { simclk::work(l.num("ns")); ev("work", (uint64_t)l.num("ns")); return; }
    if (l.cmd == "stall") { simclk::stall(l.num("ns")); count("fault.stall"); return; }
    if (l.cmd == "bench") { bench(api, l, me); return; }
    if (l.cmd == "many") {   // the same timer over and over
      Rng r(l.unum("vseed"));
      Line a, w, b; a.cmd = "start"; w.cmd = "work"; b.cmd = "stop"; a.kv["id"] = b.kv["id"] = l.str("id");
      for (uint64_t i = 0; i < l.unum("times"); ++i) {
        timerOp(api, ts, a, thr); w.kv["ns"] = fmt("%lld", (long long)(r.chance(1, 20) ? genSpan(r) % 100000000000ll : (int64_t)r.below(10000))); timerOp(api, ts, w, thr); timerOp(api, ts, b, thr);
        check(ts, id, thr);
      }
      count("timer.reused", l.unum("times"));
      return;
    }
    if (l.cmd == "step") { simclk::stepReal(l.num("ns")); count("fault.wall_clock_step"); return; }
    Tm& t = ts[id];
    if (!t.t) { simheap::SutScope s; t.t = api->timer(); }
    if (l.cmd == "start") {
      t.begin = simclk::threadCpu(me);
      { simheap::SutScope s; t.t->start(); }
      t.begun = simclk::threadCpu(me);
      t.started = true; t.stopped = false;
    } else if (l.cmd == "stop" && t.started && !t.stopped) {
      t.end = simclk::threadCpu(me);
      { simheap::SutScope s; t.t->stop(); }
      t.ended = simclk::threadCpu(me); t.stopped = true;
    } else if (l.cmd == "read" && t.stopped) {
      check(ts, id, thr);
      if (!l.num("print")) return;
      std::string shown = captureStdout([&]() { simheap::SutScope s; t.t->print(); });
      size_t k = shown.find_first_of("0123456789");
      if (k == std::string::npos) { count("timer.print_unparsed"); return; }
      uint64_t v = strtoull(shown.c_str() + k, nullptr, 10), want = (uint64_t)(t.end - t.begin);
      if (v < (uint64_t)(t.end - t.begun) || v > (uint64_t)(t.ended - t.begin)) violation("timer.print", "a timer that ran for %llu ns of CPU time shows '%s'", (unsigned long long)want, shown.c_str());
      count("timer.printed");
    }
  }
  // a benchmark whose every evaluation takes the same CPU time
  struct Even : SutCb {
    int64_t ns; int isd; bool arr; uint64_t calls = 0;
    uint64_t value(uint64_t, uint64_t) override { { simheap::Scope s; ++calls; simclk::work(ns); } simsched::point(0); return numBits(1.0, isd); }
    void arrayCall(uint64_t) override {}
  };
  static void bench(const SutApi* api, const Line& l, int me) {
    Even f; f.ns = l.num("ns"); f.isd = (int)l.num("isd");
    uint64_t n = std::max<uint64_t>(1, std::min<uint64_t>(50, l.unum("n"))), reps = std::max<uint64_t>(1, std::min<uint64_t>(50, l.unum("reps")));
    if (n * reps < 2) return;
    std::vector<uint64_t> a(n, numBits(1.5, f.isd));
    SutPerf* o;
    { simheap::SutScope s; o = api->perf(f.isd, (int)(l.unum("form") % 4), "bench", a.data(), a.data(), n, (uint32_t)reps, &f); }
    double avg = o->avg();
    { simheap::SutScope s; delete o; }
    if (!(fabs(avg - (double)f.ns) <= (f.isd ? 1e-12 : 2e-6) * (double)f.ns)) violation("bench.wrong", "a benchmark in thread %d of a function that takes %lld ns of CPU time reports %.17g", me, (long long)f.ns, avg);
    ev("bench", doubleToBits(avg));
    count("timer.benchmarks");
  }
  static void check(std::map<int64_t, Tm>& ts, int64_t id, int thr) {
    Tm& t = ts[id];
    uint64_t e;
    { simheap::SutScope s; e = t.t->elapsed(); }
    uint64_t want = (uint64_t)(t.end - t.begin);
    ev("elapsed", e);
    count("timer.read");
    if (want >= 1000000000) count("timer.over_a_second");
    if (t.begin / 1000000000 != t.end / 1000000000) count("timer.second_boundary");
    if (t.begun != t.begin) count("timer.slow_clock");
    if (e < (uint64_t)(t.end - t.begun) || e > (uint64_t)(t.ended - t.begin)) violation("timer.wrong", "a timer%s started at %lld ns and stopped at %lld ns of CPU time reports %llu instead of %llu", thr < 0 ? "" : fmt(" of thread %d", thr).c_str(), (long long)t.begin, (long long)t.end, (unsigned long long)e, (unsigned long long)want);
  }
  // reading the clock takes some CPU time
  static uint64_t slow;
  static int64_t readTime(uint64_t n) { uint64_t h = mix64(slow + n * 7919); return h % 7 == 0 ? (int64_t)(h >> 20) % 40000000 : h % 3 == 0 ? (int64_t)(h >> 20) % 100000 : (int64_t)(h >> 20) % 90; }
  static void slowly(const std::vector<Line>& plan) { for (auto& l : plan) if (l.cmd == "clock" && l.unum("slow")) { slow = l.unum("slow"); simclk::afterRead = readTime; } }
  struct TJob { const SutApi* api; const std::vector<Line>* plan; int nthr; std::vector<simsched::Switch> sw; };
  static void threads(TJob* j, bool record) {
    simclk::reset();
    slowly(*j->plan);
    for (auto& l : *j->plan) if (l.cmd == "cpu") simclk::setThreadCpu((int)(l.unum("t") % 8), l.num("ns"));
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < j->nthr; ++t) bodies.push_back([j, t]() {
      std::map<int64_t, Tm> ts;
      for (auto& l : *j->plan) if (l.has("t") && l.cmd != "cpu" && l.num("t") == t) { timerOp(j->api, ts, l, t); simsched::point(0); }
      for (auto& x : ts) if (x.second.stopped) check(ts, x.first, t);
      for (auto& x : ts) { simheap::SutScope s; delete x.second.t; }
    });
    simsched::run(bodies, j->sw, {}, nullptr, record);
  }
  static void probe(void* a) { TJob* j = (TJob*)a; uint64_t s0 = shm->steps; threads(j, true); Out o; o.u64(shm->steps - s0); }

  // the function handed to a benchmark: every pass takes a time of its own
  struct Fn : SutCb {
    int isd; size_t n; uint32_t reps; uint64_t pseed; int span; bool huge, arr, two;
    const std::vector<uint64_t>*a, *b;
    uint64_t i = 0, arrays = 0, arrayElems = 0, odd = 0, stop = 0;
    struct Enough {};
    int64_t passTime(uint64_t pass) const {
      if (huge && span == 2) return pass == 0 ? 50 : 3;
      Rng r(mix64(pseed + pass * 977));
      switch (span) {
        case 0: return (int64_t)r.below(10);
        case 1: return 1000;                                  // all the same
        case 2: return (int64_t)r.below(1000000);
        case 3: return 900000000 + (int64_t)r.below(200000000);
        case 4: return 4000000000ll + (int64_t)r.below(1000000000);
        case 5: return (int64_t)r.below(300000000000ll);
        case 6: return 4294967296ll + (int64_t)r.below(3);
        default: { uint64_t k = r.below(12); uint64_t m = 1; while (k--) m *= 10; return (int64_t)r.below(m); }
      }
    }
    uint64_t total() const { return 2ull * reps * n; }
    uint64_t value(uint64_t x, uint64_t y) override {
      simheap::Scope s;
      uint64_t k = i % n, pass = i / n;
      if (i >= total()) violation("perf.calls", "more than %llu evaluations", (unsigned long long)total());
      if (x != (*a)[k] || (two && y != (*b)[k])) violation("perf.order", "evaluation %llu got another argument than input %llu", (unsigned long long)i, (unsigned long long)k);
      ++i;
      if (stop && i >= stop) throw Enough();
      // the time of a pass is spent unevenly
      int64_t T = passTime(pass), part = k + 1 == n ? T - (T / (int64_t)n) * (int64_t)(n - 1) : T / (int64_t)n;
      simclk::work(part);
      // what the function returns must not matter
      if (odd == 0) return numBits(1.0, isd);
      if (odd == 1) return x;
      uint64_t h = mix64(i * 31 + pass);
      return h % 5 == 0 ? numBits(NAN, isd) : h % 5 == 1 ? numBits(INFINITY, isd) : h % 5 == 2 ? numBits(-0.0, isd) : h % 5 == 3 ? numBits(-0.123, isd) : numBits((double)h, isd);
    }
    void arrayCall(uint64_t s) override {
      ++arrays; arrayElems += s;
      if (huge) { simclk::work(passTime(i / n)); i += s; }
    }
    bool skipElements() override { return huge; }
  };
  void perf(const Line& l) {
    g_fill = (unsigned char)l.num("fill", 0xA5);
    Fn fn;
    fn.isd = (int)l.num("isd"); fn.n = std::max<uint64_t>(1, l.unum("n")); fn.reps = (uint32_t)l.unum("reps"); fn.pseed = l.unum("pseed"); fn.span = (int)l.num("span"); fn.huge = l.num("huge") != 0;
    int form = (int)(l.unum("form") % 4);
    fn.arr = form >= 2; fn.two = form & 1;
    if (fn.huge && !fn.arr) return;
    if (fn.huge) { struct rlimit rl = {200, 205}; setrlimit(RLIMIT_CPU, &rl); }
    if ((uint64_t)fn.n * fn.reps < 2) return;
    std::vector<uint64_t> a, b;
    Rng r(fn.pseed + 1);
    int in = (int)(fn.pseed % 6);
    for (size_t i = 0; i < fn.n; ++i) {
      uint64_t x = plainBits(r.next(), fn.isd), y = plainBits(r.next(), fn.isd);
      if (in == 1) { x = numBits((double)r.below(3) - 1, fn.isd); y = numBits((double)r.below(2), fn.isd); }   // few different ones
      if (in == 2 && i > 0 && r.chance(1, 2)) { x = a[i - 1]; if (r.chance(1, 2)) y = b[i - 1]; }              // equal neighbours
      if (in == 3) { x = weirdBits(r.next(), fn.isd); y = weirdBits(r.next(), fn.isd); }
      if (in == 4) x = y = numBits((double)i, fn.isd);
      a.push_back(x); b.push_back(y);
    }
    fn.a = &a; fn.b = &b;
    fn.odd = fn.pseed / 6 % 4;
    simclk::perAlloc = l.num("palloc");
    SutPerf* o;
    if (l.has("stop")) {
      fn.stop = std::min(fn.total(), std::max<uint64_t>(1, l.unum("stop")));
      bool reached = false;
      try { simheap::SutScope s; o = sutPlain()->perf(fn.isd, form, "perf", a.data(), b.data(), fn.n, fn.reps, &fn); delete o; }
      catch (const Fn::Enough&) { reached = true; }
      catch (const std::bad_alloc&) { count("perf.no_memory_for_passes"); return; }
      if (!reached) violation("perf.calls", "%llu evaluations instead of %llu", (unsigned long long)fn.i, (unsigned long long)fn.total());
      ev("perf", fn.i, fn.reps);
      count("perf.runs");
      count("perf.pass_count_beyond_32_bits");
      return;
    }
    { simheap::SutScope s; o = sutPlain()->perf(fn.isd, form, "perf", a.data(), b.data(), fn.n, fn.reps, &fn); }
    simclk::perAlloc = 0;
    double avg = o->avg(), err = o->err();
    if (fn.i != fn.total()) violation("perf.calls", "%llu evaluations instead of %llu", (unsigned long long)fn.i, (unsigned long long)fn.total());
    long double t = 0, S = 0;
    for (uint64_t k = fn.reps; k < 2ull * fn.reps; ++k) { long double p = (long double)fn.passTime(k); t += p; S += p * p; }
    long double N = (long double)fn.n * fn.reps, mean = t / N;
    long double v = S - t * t / N; if (v < 0) v = 0;
    long double e = sqrtl(v / (N - 1)) / sqrtl(N);
    double rel = fn.isd ? 1e-11 : 2e-6;
    if (!(fabsl(avg - mean) <= rel * mean)) violation("perf.mean", "mean %.17g instead of %.17Lg (n=%zu, r=%u)", avg, mean, fn.n, fn.reps);
    // the formula subtracts nearly equal numbers when n is 1
    long double slack = 1e-12L * S / (N - 1) / N;
    if (!(fabsl((long double)err * err - e * e) <= 2 * rel * e * e + slack)) violation("perf.error", "error %.17g instead of %.17Lg (n=%zu, r=%u, mean %.17Lg)", err, e, fn.n, fn.reps, mean);
    ev("perf", doubleToBits(avg), doubleToBits(err));
    shm->trace = mix64(shm->trace ^ hashBytes(&form, 4) ^ fn.n * 1000 ^ (uint64_t)fn.reps * 77777 ^ mix64(doubleToBits(avg)));
    // the shown numbers are these
    std::string shown = captureStdout([&]() { simheap::SutScope s; o->print(std::cout, 1.); });
    std::string want = fmt("%.2f +- %.2f ns", (double)avg, (double)err);
    double sa, se;
    size_t c = shown.find(" : ");
    if (c == std::string::npos || sscanf(shown.c_str() + c + 3, "%lf +- %lf", &sa, &se) != 2) count("perf.print_unparsed");
    else if (!(fabs(sa - (double)mean) <= 0.0051 + rel * (double)mean) || !(fabsl(se - e) <= 0.0051 + sqrtl(2 * rel * e * e + slack))) violation("perf.print", "shown as '%s' instead of '%s'", shown.c_str(), want.c_str());
    count("perf.runs");
    if (N > 4294967296.0L) count("perf.more_than_32_bits"); else if (fn.huge) count("perf.many_evaluations");
    if (t / fn.reps > 4.29e9L) count("perf.long_passes");
    { simheap::SutScope s; delete o; }
  }

  void exec(const std::string& prop, const std::vector<Line>& plan) override {
    simheap::Scope hs;
    simfs::reset();
    simclk::reset();
    if (prop == "P09") { for (auto& l : plan) if (l.cmd == "perf") for (int64_t k = 0, e = std::max<int64_t>(1, l.num("again", 1)); k < e; ++k) { Line x = l; if (k) x.kv["pseed"] = fmt("%llu", (unsigned long long)(l.unum("pseed") + (uint64_t)k)); perf(x); } shm->nontrivial = counterValue("perf.runs") > 0; return; }
    const Line* cfg = nullptr;
    for (auto& l : plan) if (l.cmd == "clock") cfg = &l;
    if (!cfg) return;
    g_fill = (unsigned char)cfg->num("fill", 0xA5);
    for (auto& l : plan) shm->trace = mix64(shm->trace ^ hashBytes(l.cmd.data(), l.cmd.size()) ^ l.unum("id") * 31 ^ (uint64_t)l.num("ns"));
    if (cfg->str("mode") == "threads") {
      TJob j; j.api = sutInstr(); j.plan = &plan; j.nthr = (int)std::min<int64_t>(8, std::max<int64_t>(1, cfg->num("nthr", 1)));
      std::vector<unsigned char> buf = forked(probe, &j);
      In in(buf);
      uint64_t steps = in.u64();
      std::vector<uint64_t> stat(shm->stat, shm->stat + shm->nstat);
      j.sw = makeSchedule(plan, steps, stat, (unsigned)j.nthr);
      threads(&j, false);
      shm->nontrivial = counterValue("timer.read") && counterValue("sched.switches") + counterValue("fault.stall") + counterValue("fault.wall_clock_step") > 0;
      return;
    }
    simclk::setThreadCpu(0, cfg->num("cpu"));
    slowly(plan);
    std::map<int64_t, Tm> ts;
    for (auto& l : plan) if (l.cmd != "clock") timerOp(sutPlain(), ts, l, -1);
    for (auto& x : ts) if (x.second.stopped) check(ts, x.first, -1);
    for (auto& x : ts) { simheap::SutScope s; delete x.second.t; }
    shm->nontrivial = counterValue("timer.read") > 0;
  }
};
uint64_t ClockWorld::slow;
World* clockWorld() { static ClockWorld w; return &w; }
