// Deterministic simulator: shared core (PRNG, plans, event log, counters).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (next() >> 11) * 0x1p-53; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // often a number near n that is special to somebody who counts
  uint64_t special(uint64_t n) {
    if (n < 8 || !chance(1, 6)) return n;
    uint64_t p = 1;
    if (chance(1, 4)) { while (p * 10 <= n) p *= 10; return p * (1 + below(n / p)); }
    while (p * 2 <= n) p *= 2;
    return chance(1, 3) ? p - 1 : chance(1, 3) ? p + 1 : p;
  }
};

// ---------------------------------------------------------------- plans
struct Line {
  std::string cmd;
  std::map<std::string, std::string> kv;
  bool has(const char* k) const { return kv.count(k) != 0; }
  std::string str(const char* k, const char* d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  int64_t num(const char* k, int64_t d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtoll(i->second.c_str(), 0, 0); }
  uint64_t unum(const char* k, uint64_t d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtoull(i->second.c_str(), 0, 0); }
  double dbl(const char* k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtod(i->second.c_str(), 0); }
};
typedef std::vector<std::string> PlanText;
std::vector<Line> parsePlan(const PlanText&);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
// strings in plans are percent-encoded so that a line splits on blanks
std::string enc(const std::string&);
std::string dec(const std::string&);

// ---------------------------------------------------------------- shared memory between runs and worker
struct Shm {
  int status;            // 0 running, 1 held, 2 violation, 3 harness error
  uint64_t hash;         // event log hash
  uint64_t nev;          // events
  uint64_t trace;        // hash of the interleaving / system call trace
  uint64_t nontrivial;   // rule-based marker set by the world
  char vclass[64];
  char vmsg[4000];
  int procs;             // simulated processes started in this run
  int ncnt;
  struct { char name[56]; uint64_t v; } cnt[600];
  uint64_t simns;        // simulated time covered by this run
  uint64_t steps;        // scheduler steps
  size_t nstat;          // recorded steps touching static memory of the code under test
  uint64_t stat[8192];
  size_t nsw;            // schedule actually used (explicit switch points)
  struct { uint64_t step; uint32_t to; } sw[8192];
  size_t outlen;         // results passed back by probes and simulated processes
  unsigned char out[96u << 20];
};
extern Shm* shm;
void count(const char* name, uint64_t n = 1);
uint64_t counterValue(const char* name);
extern bool g_verbose;
extern int g_procNo;      // number of this simulated process within the run
void ev(const char* tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);  // event log
void evBytes(const char* tag, const void* p, size_t n);
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
[[noreturn]] void violation(const char* cls, const char* f, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- probe results
struct Out {  // append to shm->out
  void reset() { shm->outlen = 0; }
  void raw(const void* p, size_t n) {
    if (shm->outlen + n > sizeof shm->out) harnessError("probe output overflow");
    memcpy(shm->out + shm->outlen, p, n); shm->outlen += n;
  }
  void u64(uint64_t v) { raw(&v, 8); }
  void str(const std::string& s) { u64(s.size()); raw(s.data(), s.size()); }
};
struct In {
  size_t pos = 0;
  const unsigned char* base; size_t len;
  In(const std::vector<unsigned char>& b) : base(b.data()), len(b.size()) {}
  uint64_t u64() { uint64_t v; if (pos + 8 > len) harnessError("probe output short"); memcpy(&v, base + pos, 8); pos += 8; return v; }
  std::string str() { uint64_t n = u64(); if (pos + n > len) harnessError("probe output short"); std::string s((const char*)base + pos, n); pos += n; return s; }
  bool end() const { return pos >= len; }
};
// Runs fn in a forked process; returns what it wrote with Out. A violation or
// crash inside ends the caller as well. *exitcode receives the exit status if
// not null (then a death is not a violation by itself: -signal is stored).
// keep: counters, simulated time and trace of the process count for this run.
std::vector<unsigned char> forked(void (*fn)(void*), void* arg, int* deathsig = nullptr, bool keep = false);
void simExit();        // leaves the simulated process at once, keeping its results
extern unsigned char g_fill;   // pattern of fresh memory

// ---------------------------------------------------------------- worlds
struct World {
  virtual ~World() {}
  virtual void init(const std::string& prop) { (void)prop; }   // once per process, before the runs
  virtual void gen(const std::string& prop, uint64_t seed, int tier, uint64_t index, PlanText& out) = 0;
  virtual void exec(const std::string& prop, const std::vector<Line>& plan) = 0;
};
World* diskWorld();
World* mathWorld();
World* clockWorld();
World* threadWorld();
World* toolWorld();
World* printWorld();
World* genWorld();
