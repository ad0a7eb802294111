// The only interface between the simulator and the code under test.  sut.cc
// implements it on top of the public API of /repo's headers.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iosfwd>

enum { K_P1 = 0, K_P2, K_P1OLD, K_R1, K_R2, K_R1OLD, K_C1, K_C2, K_C1OLD, K_COUNT };

struct SutObj {
  virtual ~SutObj() {}
  virtual void save(const char* path) = 0;
  virtual void print() = 0;
  virtual void stats(bool tabular) = 0;   // comparisons only
  virtual int differs() { return -1; }    // comparisons only
  virtual SutObj* copy() = 0;
  virtual bool add(uint64_t a, uint64_t b, uint64_t o) { return false; }  // one more record, responses only
  virtual int cols() = 0;                 // 0: only visible through print
  virtual size_t len(int col) = 0;
  virtual void get(int col, uint64_t* out) = 0;
};
struct SutPerf {
  virtual ~SutPerf() {}
  virtual double avg() = 0;
  virtual double err() = 0;
  virtual void print(std::ostream& s, double scale) = 0;
};
struct SutTimer {
  virtual ~SutTimer() {}
  virtual void start() = 0;
  virtual void stop() = 0;
  virtual uint64_t elapsed() = 0;
  virtual void print() = 0;
};
// called by the functions handed to the code under test
struct SutCb {
  virtual ~SutCb() {}
  virtual uint64_t value(uint64_t a, uint64_t b) = 0;      // one evaluation
  virtual void arrayCall(uint64_t size) = 0;               // before an array evaluation
  virtual bool skipElements() { return false; }            // array evaluations do not touch elements
};
struct SutFun {
  const char* name;
  int isd;
  int arity;
  uint64_t (*scalar)(uint64_t, uint64_t);
  void (*array)(uint32_t, const void*, const void*, void*);  // may be null
};
struct SutApi {
  SutObj* (*pool)(int kind, int isd, const double* range, uint64_t size, int32_t seed);
  SutObj* (*load)(int kind, int isd, const char* path);
  SutObj* (*resp)(int kind, int isd, int arrayForm, const char* name, const uint64_t* a, const uint64_t* b, size_t n, SutCb*);
  SutObj* (*comp)(int kind, int isd, const char* name, const uint64_t* a, const uint64_t* b, const uint64_t* o1, const uint64_t* o2, size_t n);
  SutPerf* (*perf)(int isd, int form, const char* name, const uint64_t* a, const uint64_t* b, size_t n, uint32_t reps, SutCb*);
  SutTimer* (*timer)();
  // shows where two functions differ, on std::cout
  void (*funcDiff)(int isd, int form, const char* name, const uint64_t* a, const uint64_t* b, size_t n, SutCb* f, SutCb* g);
  void (*diffBit)(int isd, uint64_t a, uint64_t b, bool show);
  void (*hex)(std::ostream& s, int isd, uint64_t a);
  void (*info)();
  int nfun;
  const SutFun* funs;
};
