// Model of the diagnostic objects, shared by the disk and the thread world.
#pragma once
#include <functional>
#include <memory>
#include <stdexcept>
#include "simos.h"
#include "values.h"

// What can be seen of an object.
struct Data {
  std::vector<std::vector<uint64_t>> col;  // pools and responses: columns of bits
  std::vector<std::string> lines;          // comparisons: shown records
  std::string stats;                       // comparisons: shown statistics
  std::string bad;                         // columns of different length
  bool comp = false, resaved = false;
  size_t n() const { return comp ? lines.size() : col.empty() ? 0 : col[0].size(); }
};
Data snapshot(SutObj* o, int kind, int isd, const std::string& name);
// "" if the first m records are the same
std::string diffData(const Data& a, const Data& b, size_t m);

// Layout facts learned from a small fault-free save.
struct Cal {
  bool ok = false;
  int header = 0, tokens = 1;     // lines before the records, words per record
  int at[4] = {-1, -1, -1, -1};   // shown word (from the end) of input 1, input 2, output 1, output 2
  std::string emptyStats;         // statistics of an object loaded from a missing file
};
Cal calibrate(const SutApi*, int kind, int isd);
long wholeRecords(const Cal&, const std::string& content);  // -1: unknown

void needMemory();                // allocates and frees on behalf of the code under test
// what a function throws, by its tag
struct Thrown { long tag; };
struct ThrownDomain : std::domain_error { long tag; ThrownDomain(long t) : std::domain_error("no value"), tag(t) {} };
struct ThrownRuntime : std::runtime_error { long tag; ThrownRuntime(long t) : std::runtime_error("no result"), tag(t) {} };
struct HashFn : SutCb {           // the function handed to responses
  uint64_t seed = 0; int isd = 1; bool plain = false; uint64_t calls = 0;
  bool allocates = false;         // the function needs memory of its own
  long throwAt = -1, tag = 0; bool fired = false;   // it throws at this evaluation
  std::function<void()> inner; long innerAt = -1;   // it does something itself at this evaluation
  void event() { long c = (long)calls; if (c == innerAt && inner) { simheap::Scope s; inner(); } if (c == throwAt) { fired = true; calls++; switch (tag % 4) { case 0: throw Thrown{tag}; case 1: throw ThrownDomain(tag); case 2: throw ThrownRuntime(tag); default: throw tag; } } }
  uint64_t f(uint64_t a, uint64_t b) const { uint64_t h = mix64(a * 0x9E3779B97F4A7C15ull ^ mix64(b + seed)); return plain ? plainBits(h, isd) : weirdBits(h, isd); }
  uint64_t value(uint64_t a, uint64_t b) override { if (allocates && calls % 7 == 0) needMemory(); event(); simheap::Scope s; ++calls; return f(a, b); }
  void arrayCall(uint64_t) override {}
};
struct Made {                     // arguments of a creation
  int kind, isd; size_t n;
  double range[4]; int32_t seed; int arr;
  std::vector<uint64_t> a, b, o1, o2;
  std::shared_ptr<HashFn> fn;
};
Made prepare(const Line& l, int kind, int isd, size_t n);
SutObj* construct(const SutApi*, const Made&, const std::string& name);
std::string verifyMade(const Made&, const Data&, const Cal&);
