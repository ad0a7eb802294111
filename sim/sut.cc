// Adapter of the code under test (the headers and generated array functions in
// /repo) to sut_api.h.  Uses only the public API.
#include "vdtMath.h"
#ifndef SUT_NO_EXTRA
#include "stdwrap.h"
#endif
#include "vdtdiag_helper.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
#include "vdtdiag_fcnPerformance.h"
#include <cstring>
#include <memory>
#include "sut_api.h"

namespace {
template <class T> struct Bits;
template <> struct Bits<double> {
  static double from(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
  static uint64_t to(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
};
template <> struct Bits<float> {
  static float from(uint64_t b) { uint32_t w = (uint32_t)b; float f; memcpy(&f, &w, 4); return f; }
  static uint64_t to(float f) { uint32_t w; memcpy(&w, &f, 4); return w; }
};
template <class T> std::vector<T> vec(const uint64_t* b, size_t n) {
  std::vector<T> v(n);
  // memcpy: no arithmetic on signalling NaNs
  for (size_t i = 0; i < n; ++i) { T x = Bits<T>::from(b[i]); memcpy(&v[i], &x, sizeof(T)); }
  return v;
}
template <class T> void unvec(const std::vector<T>& v, uint64_t* out) {
  for (size_t i = 0; i < v.size(); ++i) out[i] = Bits<T>::to(v[i]);
}

// The deprecated classes may be gone one day; the present ones then take their
// place.
#ifdef SUT_NO_OLD
template <class T> using OldPool = randomPool1D<T>;
template <class T> using OldResponse = fcnResponse1D<T>;
template <class T> using OldComparison = fcnComparison1D<T>;
#else
template <class T> using OldPool = randomPool_old<T>;
template <class T> using OldResponse = fcnResponse_old<T>;
template <class T> using OldComparison = fcnComparison_old<T>;
#endif
template <class R, class T> auto push1(R& r, T a, T o, int) -> decltype(r.pushInputVal(a), bool()) { r.pushInputVal(a); r.pushOutputVal(o); return true; }
template <class R, class T> bool push1(R&, T, T, long) { return false; }
template <class R, class T> auto push2(R& r, T a, T b, T o, int) -> decltype(r.pushInput2Val(a), bool()) { r.pushInput1Val(a); r.pushInput2Val(b); r.pushOutputVal(o); return true; }
template <class R, class T> bool push2(R&, T, T, T, long) { return false; }

template <class T> struct P1 : SutObj {
  randomPool1D<T> o;
  P1(const double* r, uint64_t n, int32_t s) : o((T)r[0], (T)r[1], n, s) {}
  P1(const char* p) : o(std::string(p)) {}
  void save(const char* p) { o.writeFile(p); }
  void print() { o.print(); }
  void stats(bool) {}
  SutObj* copy() { return new P1(*this); }
  int cols() { return 1; }
  size_t len(int) { return o.getNumbers().size(); }
  void get(int, uint64_t* out) { unvec<T>(o.getNumbers(), out); }
};
template <class T> struct P1old : SutObj {
  OldPool<T> o;
  P1old(const double* r, uint64_t n, int32_t s) : o((T)r[0], (T)r[1], n, s) {}
  P1old(const char* p) : o(std::string(p)) {}
  void save(const char* p) { o.writeFile(p); }
  void print() { o.print(); }
  void stats(bool) {}
  SutObj* copy() { return new P1old(*this); }
  int cols() { return 1; }
  size_t len(int) { return o.getNumbers().size(); }
  void get(int, uint64_t* out) { unvec<T>(o.getNumbers(), out); }
};
template <class T> struct P2 : SutObj {
  randomPool2D<T> o;
  P2(const double* r, uint64_t n, int32_t s) : o((T)r[0], (T)r[2], (T)r[1], (T)r[3], n, s) {}
  P2(const char* p) : o(std::string(p)) {}
  void save(const char* p) { o.writeFile(p); }
  void print() { o.print(); }
  void stats(bool) {}
  SutObj* copy() { return new P2(*this); }
  int cols() { return 2; }
  size_t len(int c) { return c ? o.getNumbersY().size() : o.getNumbersX().size(); }
  void get(int c, uint64_t* out) { unvec<T>(c ? o.getNumbersY() : o.getNumbersX(), out); }
};
template <class T, class C> struct R1 : SutObj {
  C o;
  template <class F> R1(const char* nm, const std::vector<T>& in, const F& f) : o(std::string(nm), in, f) {}
  R1(const char* p) : o(std::string(p)) {}
  void save(const char* p) { o.writeFile(p); }
  void print() { o.print(); }
  void stats(bool) {}
  SutObj* copy() { return new R1(*this); }
  bool add(uint64_t a, uint64_t, uint64_t v) { return push1(o, Bits<T>::from(a), Bits<T>::from(v), 0); }
  int cols() { return 2; }
  size_t len(int c) { return c ? o.getOutput().size() : o.getInput().size(); }
  void get(int c, uint64_t* out) { unvec<T>(c ? o.getOutput() : o.getInput(), out); }
};
template <class T> struct R2 : SutObj {
  fcnResponse2D<T> o;
  template <class F> R2(const char* nm, const std::vector<T>& a, const std::vector<T>& b, const F& f) : o(std::string(nm), a, b, f) {}
  R2(const char* p) : o(std::string(p)) {}
  void save(const char* p) { o.writeFile(p); }
  void print() { o.print(); }
  void stats(bool) {}
  SutObj* copy() { return new R2(*this); }
  bool add(uint64_t a, uint64_t b, uint64_t v) { return push2(o, Bits<T>::from(a), Bits<T>::from(b), Bits<T>::from(v), 0); }
  int cols() { return 3; }
  std::vector<T>& v(int c) { return c == 0 ? o.getInput1() : c == 1 ? o.getInput2() : o.getOutput(); }
  size_t len(int c) { return v(c).size(); }
  void get(int c, uint64_t* out) { unvec<T>(v(c), out); }
};
template <class T, class C> struct Cmp : SutObj {
  C o;
  Cmp(const char* nm, const std::vector<T>& a, const std::vector<T>& o1, const std::vector<T>& o2) : o(std::string(nm), a, o1, o2) {}
  Cmp(const char* nm, const std::vector<T>& a, const std::vector<T>& b, const std::vector<T>& o1, const std::vector<T>& o2) : o(std::string(nm), a, b, o1, o2) {}
  Cmp(const char* p) : o(std::string(p)) {}
  void save(const char* p) { o.writeFile(p); }
  void print() { o.print(); }
  void stats(bool t) { o.printStats(t); }
  int differs() { return o.hasDifference() ? 1 : 0; }
  SutObj* copy() { return new Cmp(*this); }
  int cols() { return 0; }
  size_t len(int) { return 0; }
  void get(int, uint64_t*) {}
};
// fcnComparison_old and fcnComparison1D have no five argument constructor and
// fcnComparison2D no four argument one: members of class templates are only
// instantiated when used, so each is created through its own function.

template <class T> SutObj* mkPool(int k, const double* r, uint64_t n, int32_t s) {
  switch (k) {
    case K_P1: return new P1<T>(r, n, s);
    case K_P2: return new P2<T>(r, n, s);
    case K_P1OLD: return new P1old<T>(r, n, s);
  }
  return 0;
}
template <class T> SutObj* mkLoad(int k, const char* p) {
  switch (k) {
    case K_P1: return new P1<T>(p);
    case K_P2: return new P2<T>(p);
    case K_P1OLD: return new P1old<T>(p);
    case K_R1: return new R1<T, fcnResponse1D<T>>(p);
    case K_R2: return new R2<T>(p);
    case K_R1OLD: return new R1<T, OldResponse<T>>(p);
    case K_C1: return new Cmp<T, fcnComparison1D<T>>(p);
    case K_C2: return new Cmp<T, fcnComparison2D<T>>(p);
    case K_C1OLD: return new Cmp<T, OldComparison<T>>(p);
  }
  return 0;
}
template <class T> SutObj* mkResp(int k, int arr, const char* nm, const uint64_t* a, const uint64_t* b, size_t n, SutCb* cb) {
  std::function<T(T)> f1 = [cb](T x) { return Bits<T>::from(cb->value(Bits<T>::to(x), 0)); };
  std::function<T(T, T)> f2 = [cb](T x, T y) { return Bits<T>::from(cb->value(Bits<T>::to(x), Bits<T>::to(y))); };
  std::function<void(uint32_t, T*, T*)> g1 = [cb](uint32_t s, T* x, T* o) {
    cb->arrayCall(s);
    for (uint32_t i = 0; i < s; ++i) { T r = Bits<T>::from(cb->value(Bits<T>::to(x[i]), 0)); memcpy(o + i, &r, sizeof r); }
  };
  std::function<void(uint32_t, T*, T*, T*)> g2 = [cb](uint32_t s, T* x, T* y, T* o) {
    cb->arrayCall(s);
    for (uint32_t i = 0; i < s; ++i) { T r = Bits<T>::from(cb->value(Bits<T>::to(x[i]), Bits<T>::to(y[i]))); memcpy(o + i, &r, sizeof r); }
  };
  std::vector<T> va = vec<T>(a, n);
  switch (k) {
    case K_R1: if (arr) return new R1<T, fcnResponse1D<T>>(nm, va, g1); else return new R1<T, fcnResponse1D<T>>(nm, va, f1);
    case K_R1OLD: if (arr) return new R1<T, OldResponse<T>>(nm, va, g1); else return new R1<T, OldResponse<T>>(nm, va, f1);
    case K_R2: { std::vector<T> vb = vec<T>(b, n); if (arr) return new R2<T>(nm, va, vb, g2); else return new R2<T>(nm, va, vb, f2); }
  }
  return 0;
}
template <class T> SutObj* mkComp(int k, const char* nm, const uint64_t* a, const uint64_t* b, const uint64_t* o1, const uint64_t* o2, size_t n) {
  std::vector<T> va = vec<T>(a, n), v1 = vec<T>(o1, n), v2 = vec<T>(o2, n);
  switch (k) {
    case K_C1: return new Cmp<T, fcnComparison1D<T>>(nm, va, v1, v2);
    case K_C1OLD: return new Cmp<T, OldComparison<T>>(nm, va, v1, v2);
    case K_C2: { std::vector<T> vb = vec<T>(b, n); return new Cmp<T, fcnComparison2D<T>>(nm, va, vb, v1, v2); }
  }
  return 0;
}
template <class T> struct Perf : SutPerf {
  std::vector<T> a, b;
  std::function<T(T)> f1; std::function<T(T, T)> f2;
  std::function<void(uint32_t, T*, T*)> g1; std::function<void(uint32_t, T*, T*, T*)> g2;
  std::unique_ptr<fcnPerformance<T>> o;
  Perf(int form, const char* nm, const uint64_t* ia, const uint64_t* ib, size_t n, uint32_t reps, SutCb* cb) : a(vec<T>(ia, n)), b(vec<T>(ib, n)) {
    f1 = [cb](T x) { return Bits<T>::from(cb->value(Bits<T>::to(x), 0)); };
    f2 = [cb](T x, T y) { return Bits<T>::from(cb->value(Bits<T>::to(x), Bits<T>::to(y))); };
    g1 = [cb](uint32_t s, T* x, T* o) {
      cb->arrayCall(s);
      if (!cb->skipElements()) for (uint32_t i = 0; i < s; ++i) o[i] = Bits<T>::from(cb->value(Bits<T>::to(x[i]), 0));
      else memset((void*)o, 0, sizeof(T) * s);
    };
    g2 = [cb](uint32_t s, T* x, T* y, T* o) {
      cb->arrayCall(s);
      if (!cb->skipElements()) for (uint32_t i = 0; i < s; ++i) o[i] = Bits<T>::from(cb->value(Bits<T>::to(x[i]), Bits<T>::to(y[i])));
      else memset((void*)o, 0, sizeof(T) * s);
    };
    std::string name(nm);
    switch (form) {
      case 0: o.reset(new fcnPerformance<T>(name, a, f1, reps)); break;
      case 1: o.reset(new fcnPerformance<T>(name, a, b, f2, reps)); break;
      case 2: o.reset(new fcnPerformance<T>(name, a, g1, reps)); break;
      case 3: o.reset(new fcnPerformance<T>(name, a, b, g2, reps)); break;
    }
  }
  double avg() { return o->getAvg(); }
  double err() { return o->getAvgErr(); }
  void print(std::ostream& s, double scale) { o->print(s, scale); }
};
#ifndef SUT_NO_HELPERS
template <class T> void showDiff(int form, const char* nm, const uint64_t* a, const uint64_t* b, size_t n, SutCb* p, SutCb* q) {
  std::string name(nm);
  std::vector<T> va = vec<T>(a, n), vb = vec<T>(b, n);
  auto one = [](SutCb* c) { return std::function<T(T)>([c](T x) { return Bits<T>::from(c->value(Bits<T>::to(x), 0)); }); };
  auto two = [](SutCb* c) { return std::function<T(T, T)>([c](T x, T y) { return Bits<T>::from(c->value(Bits<T>::to(x), Bits<T>::to(y))); }); };
  auto onev = [](SutCb* c) { return std::function<void(const uint32_t, T*, T*)>([c](uint32_t s, T* x, T* o) { for (uint32_t i = 0; i < s; ++i) o[i] = Bits<T>::from(c->value(Bits<T>::to(x[i]), 0)); }); };
  auto twov = [](SutCb* c) { return std::function<void(const uint32_t, T*, T*, T*)>([c](uint32_t s, T* x, T* y, T* o) { for (uint32_t i = 0; i < s; ++i) o[i] = Bits<T>::from(c->value(Bits<T>::to(x[i]), Bits<T>::to(y[i]))); }); };
  switch (form) {
    case 0: for (size_t i = 0; i < n; ++i) vdth::printFuncDiff<T>(name, one(p), one(q), va[i]); break;
    case 1: for (size_t i = 0; i < n; ++i) vdth::printFuncDiff<T>(name, two(p), two(q), va[i], vb[i]); break;
    case 2: vdth::printFuncDiff<T>(name, onev(p), onev(q), va.data(), (uint32_t)n); break;
    case 3: vdth::printFuncDiff<T>(name, twov(p), twov(q), va.data(), vb.data(), (uint32_t)n); break;
    case 4: vdth::printFuncDiff<T>(name, one(p), one(q), va.data(), (uint32_t)n); break;
    case 5: vdth::printFuncDiff<T>(name, two(p), two(q), va.data(), vb.data(), (uint32_t)n); break;
  }
}
#endif
struct Timer : SutTimer {
  vdth::timer t;
  void start() { t.start(); }
  void stop() { t.stop(); }
  uint64_t elapsed() { return t.get_elapsed_time(); }
#ifdef SUT_NO_HELPERS
  void print() {}
#else
  void print() { t.print(); }
#endif
};

SutObj* apiPool(int k, int d, const double* r, uint64_t n, int32_t s) { return d ? mkPool<double>(k, r, n, s) : mkPool<float>(k, r, n, s); }
SutObj* apiLoad(int k, int d, const char* p) { return d ? mkLoad<double>(k, p) : mkLoad<float>(k, p); }
SutObj* apiResp(int k, int d, int arr, const char* nm, const uint64_t* a, const uint64_t* b, size_t n, SutCb* cb) {
  return d ? mkResp<double>(k, arr, nm, a, b, n, cb) : mkResp<float>(k, arr, nm, a, b, n, cb);
}
SutObj* apiComp(int k, int d, const char* nm, const uint64_t* a, const uint64_t* b, const uint64_t* o1, const uint64_t* o2, size_t n) {
  return d ? mkComp<double>(k, nm, a, b, o1, o2, n) : mkComp<float>(k, nm, a, b, o1, o2, n);
}
SutPerf* apiPerf(int d, int form, const char* nm, const uint64_t* a, const uint64_t* b, size_t n, uint32_t reps, SutCb* cb) {
  if (d) return new Perf<double>(form, nm, a, b, n, reps, cb);
  return new Perf<float>(form, nm, a, b, n, reps, cb);
}
SutTimer* apiTimer() { return new Timer; }
#ifdef SUT_NO_HELPERS
#define HELPERS nullptr, nullptr, nullptr, nullptr
#else
#define HELPERS apiFuncDiff, apiDiffBit, apiHex, apiInfo
void apiFuncDiff(int d, int form, const char* nm, const uint64_t* a, const uint64_t* b, size_t n, SutCb* p, SutCb* q) {
  if (d) showDiff<double>(form, nm, a, b, n, p, q); else showDiff<float>(form, nm, a, b, n, p, q);
}
void apiDiffBit(int d, uint64_t a, uint64_t b, bool show) {
  if (d) vdth::print_different_bit<double>(Bits<double>::from(a), Bits<double>::from(b), show);
  else vdth::print_different_bit<float>(Bits<float>::from(a), Bits<float>::from(b), show);
}
void apiHex(std::ostream& s, int d, uint64_t a) { if (d) s << fpToHex<double>(Bits<double>::from(a)); else s << fpToHex<float>(Bits<float>::from(a)); }
void apiInfo() { vdth::print_instructions_info(); }
#endif

#define D1(id, fn) uint64_t s_##id(uint64_t a, uint64_t) { return Bits<double>::to(fn(Bits<double>::from(a))); }
#define F1(id, fn) uint64_t s_##id(uint64_t a, uint64_t) { return Bits<float>::to(fn(Bits<float>::from(a))); }
#define DA(id, fn) void a_##id(uint32_t n, const void* x, const void*, void* o) { fn(n, (double*)x, (double*)o); }
#define FA(id, fn) void a_##id(uint32_t n, const void* x, const void*, void* o) { fn(n, (float*)x, (float*)o); }
#define D2(id, fn) uint64_t s_##id(uint64_t a, uint64_t b) { return Bits<double>::to(fn(Bits<double>::from(a), Bits<double>::from(b))); }
#define F2(id, fn) uint64_t s_##id(uint64_t a, uint64_t b) { return Bits<float>::to(fn(Bits<float>::from(a), Bits<float>::from(b))); }
#define DA2(id, fn) void a_##id(uint32_t n, const void* x, const void* y, void* o) { fn(n, (double*)x, (double*)y, (double*)o); }
#define FA2(id, fn) void a_##id(uint32_t n, const void* x, const void* y, void* o) { fn(n, (float*)x, (float*)y, (float*)o); }
// the fast functions
#define BOTH(id) D1(id, vdt::id) F1(id##f, vdt::id##f) DA(id, vdt::id##v) FA(id##f, vdt::id##fv)
BOTH(fast_asin) BOTH(fast_acos) BOTH(fast_atan) BOTH(fast_cos) BOTH(fast_exp) BOTH(fast_inv) BOTH(fast_approx_inv)
BOTH(fast_log) BOTH(fast_sin) BOTH(fast_isqrt) BOTH(fast_approx_isqrt) BOTH(fast_tan) BOTH(fast_tanh)
BOTH(identity) BOTH(isqrt) BOTH(inv)
D2(fast_atan2, vdt::fast_atan2) F2(fast_atan2f, vdt::fast_atan2f) DA2(fast_atan2, vdt::fast_atan2v) FA2(fast_atan2f, vdt::fast_atan2fv)
D2(identity2D, vdt::identity2D) F2(identity2Df, vdt::identity2Df) DA2(identity2D, vdt::identity2Dv) FA2(identity2Df, vdt::identity2Dfv)
// the reference functions of the array library
#define REF(id) D1(id, std::id) F1(id##f, std::id) DA(id, vdt::id##v) FA(id##f, vdt::id##fv)
REF(asin) REF(acos) REF(atan) REF(cos) REF(exp) REF(log) REF(sin) REF(tan) REF(tanh)
D2(atan2, std::atan2) F2(atan2f, std::atan2) DA2(atan2, vdt::atan2v) FA2(atan2f, vdt::atan2fv)
// both results of the combined functions
uint64_t s_sincos_s(uint64_t a, uint64_t) { double s, c; vdt::fast_sincos(Bits<double>::from(a), s, c); return Bits<double>::to(s); }
uint64_t s_sincos_c(uint64_t a, uint64_t) { double s, c; vdt::fast_sincos(Bits<double>::from(a), s, c); return Bits<double>::to(c); }
uint64_t s_sincosf_s(uint64_t a, uint64_t) { float s, c; vdt::fast_sincosf(Bits<float>::from(a), s, c); return Bits<float>::to(s); }
uint64_t s_sincosf_c(uint64_t a, uint64_t) { float s, c; vdt::fast_sincosf(Bits<float>::from(a), s, c); return Bits<float>::to(c); }
#ifndef SUT_NO_EXTRA
// functions the programs do not use
D1(fast_identity, vdt::fast_identity) F1(fast_identityf, vdt::fast_identityf)
D1(fast_sqrt, vdt::fast_sqrt<double>) F1(fast_sqrtf, vdt::fast_sqrt<float>)
D2(fast_div, vdt::fast_div<double>) F2(fast_divf, vdt::fast_div<float>)
#define G1(id, T, fn) uint64_t s_##id(uint64_t a, uint64_t b) { return Bits<T>::to(fn(Bits<T>::from(a), (uint32_t)(b % 7))); }
G1(isqrt_general, double, vdt::fast_isqrt_general) G1(isqrtf_general, float, vdt::fast_isqrtf_general)
G1(inv_general, double, vdt::fast_inv_general) G1(invf_general, float, vdt::fast_invf_general)
#define G3(id, T, fn) uint64_t s_##id(uint64_t a, uint64_t b) { T x = Bits<T>::from(a), y = Bits<T>::from(b); return Bits<T>::to(fn(x, y, (T)(y * 3 - x))); }
G3(fast_fma, double, vdt::fast_fma<double>) G3(fast_fmaf, float, vdt::fast_fma<float>) G3(fast_fmac, double, vdt::fast_fmac<double>) G3(fast_fmacf, float, vdt::fast_fmac<float>)
#define EXTRA {"identity_fast", 1, 1, s_fast_identity, 0}, {"identityf_fast", 0, 1, s_fast_identityf, 0}, {"sqrt", 1, 1, s_fast_sqrt, 0}, {"sqrtf", 0, 1, s_fast_sqrtf, 0}, \
  {"div", 1, 2, s_fast_div, 0}, {"divf", 0, 2, s_fast_divf, 0}, {"isqrt_general", 1, 2, s_isqrt_general, 0}, {"isqrtf_general", 0, 2, s_isqrtf_general, 0}, \
  {"inv_general", 1, 2, s_inv_general, 0}, {"invf_general", 0, 2, s_invf_general, 0}, {"fma", 1, 2, s_fast_fma, 0}, {"fmaf", 0, 2, s_fast_fmaf, 0}, {"fmac", 1, 2, s_fast_fmac, 0}, {"fmacf", 0, 2, s_fast_fmacf, 0},
#else
#define EXTRA
#endif

#define EB(id) {#id, 1, 1, s_##id, a_##id}, {#id "f", 0, 1, s_##id##f, a_##id##f}
#define EB2(id) {#id, 1, 2, s_##id, a_##id}, {#id "f", 0, 2, s_##id##f, a_##id##f}
const SutFun funs[] = {
  EB(fast_asin), EB(fast_acos), EB(fast_atan), EB(fast_cos), EB(fast_exp), EB(fast_inv), EB(fast_approx_inv),
  EB(fast_log), EB(fast_sin), EB(fast_isqrt), EB(fast_approx_isqrt), EB(fast_tan), EB(fast_tanh),
  EB(identity), EB(isqrt), EB(inv), EB2(fast_atan2), EB2(identity2D),
  EB(asin), EB(acos), EB(atan), EB(cos), EB(exp), EB(log), EB(sin), EB(tan), EB(tanh), EB2(atan2),
  {"sincos_s", 1, 1, s_sincos_s, 0}, {"sincos_c", 1, 1, s_sincos_c, 0},
  {"sincosf_s", 0, 1, s_sincosf_s, 0}, {"sincosf_c", 0, 1, s_sincosf_c, 0},
  EXTRA
};
const SutApi api = {apiPool, apiLoad, apiResp, apiComp, apiPerf, apiTimer, HELPERS, (int)(sizeof funs / sizeof funs[0]), funs};
}  // namespace

// calls before any initialisation of the code under test, if the simulator wants them
extern "C" void (*sim_early)(const SutApi*) __attribute__((weak));
__attribute__((constructor(101))) static void earlyCalls() { if (&sim_early && sim_early) sim_early(&api); }

extern "C" __attribute__((visibility("default"))) const SutApi* sut_api() { return &api; }
