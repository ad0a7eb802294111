#include "diag.h"
#include <cmath>
#include <sstream>

static void replaceAll(std::string& s, const std::string& a, const std::string& b) {
  if (a.empty()) return;
  std::string r;
  size_t from = 0, k;
  while ((k = s.find(a, from)) != std::string::npos) { r.append(s, from, k - from); r += b; from = k + a.size(); }
  r.append(s, from, std::string::npos);
  s.swap(r);
}
static std::string squeeze(const std::string& s) {
  std::string r;
  for (char c : s) { bool b = c == ' ' || c == '\t'; if (b && (r.empty() || r.back() == ' ')) continue; r += b ? ' ' : c; }
  while (!r.empty() && r.back() == ' ') r.pop_back();
  return r;
}
Data snapshot(SutObj* o, int kind, int isd, const std::string& name) {
  simheap::Scope hs;
  Data d;
  (void)isd;
  if (kind < K_C1) {
    int nc; { simheap::SutScope s; nc = o->cols(); }
    for (int c = 0; c < nc; ++c) {
      std::vector<uint64_t> v(o->len(c));
      if (!v.empty()) o->get(c, v.data());
      if (c && v.size() != d.col[0].size()) d.bad = fmt("%zu values in the first column and %zu in column %d", d.col[0].size(), v.size(), c + 1);
      d.col.push_back(v);
    }
    return d;
  }
  d.comp = true;
  std::string t = captureStdout([&]() { simheap::SutScope s; o->stats(false); });
  replaceAll(t, name, "@");
  std::string plainStats = t;
  std::string tab = captureStdout([&]() { simheap::SutScope s; o->stats(true); });
  replaceAll(tab, name, "@");
  replaceAll(t, "\n", " ; ");
  int df; { simheap::SutScope s; df = o->differs(); }
  d.stats = squeeze(t) + " ;; " + squeeze(tab) + fmt(" ;; difference %d", df);
  while (!d.stats.empty() && d.stats.back() == '\n') d.stats.pop_back();
  std::string all = captureStdout([&]() { simheap::SutScope s; o->print(); });
  replaceAll(all, name, "@");
  std::istringstream in(all);
  std::string line;
  while (std::getline(in, line)) {
    // records are shown as "<index>/<count> ..."
    size_t k = 0;
    while (k < line.size() && isdigit((unsigned char)line[k])) ++k;
    if (!k || k >= line.size() || line[k] != '/') continue;
    size_t e = line.find(' ', k);
    if (e == std::string::npos) continue;
    if (strtoull(line.c_str(), 0, 10) != d.lines.size()) d.bad = fmt("record %zu is shown as number %s", d.lines.size(), line.substr(0, k).c_str());
    d.lines.push_back(squeeze(line.substr(e)));
  }
  return d;
}
std::string diffData(const Data& a, const Data& b, size_t m) {
  if (a.comp != b.comp) return "different kinds";
  if (a.n() < m || b.n() < m) return fmt("%zu and %zu records instead of %zu", a.n(), b.n(), m);
  if (a.comp) {
    for (size_t i = 0; i < m; ++i) if (a.lines[i] != b.lines[i]) return fmt("record %zu is '%s' instead of '%s'", i, b.lines[i].c_str(), a.lines[i].c_str());
    return "";
  }
  if (a.col.size() != b.col.size()) return "different columns";
  for (size_t c = 0; c < a.col.size(); ++c) {
    if (b.col[c].size() < m) return fmt("column %zu has only %zu values", c, b.col[c].size());
    for (size_t i = 0; i < m; ++i) if (a.col[c][i] != b.col[c][i]) return fmt("record %zu column %zu is %llx instead of %llx", i, c, (unsigned long long)b.col[c][i], (unsigned long long)a.col[c][i]);
  }
  return "";
}
void needMemory() { simheap::SutScope s; char* volatile p = new char[40]; delete[] p; }
Made prepare(const Line& l, int kind, int isd, size_t n) {
  Made m;
  m.kind = kind; m.isd = isd; m.n = n; m.arr = (int)l.num("arr"); m.seed = (int32_t)l.num("seed", 1);
  m.range[0] = l.dbl("lo", -1); m.range[1] = l.dbl("hi", 1); m.range[2] = l.dbl("lo2", -1); m.range[3] = l.dbl("hi2", 1);
  if (kind <= K_P1OLD) return m;
  Rng r(l.unum("vseed") ^ 0xABCDEF);
  bool plain = l.num("plain") != 0;
  auto v = [&]() { uint64_t x = r.next(); return plain ? plainBits(x, isd) : weirdBits(x, isd); };
  for (size_t i = 0; i < n; ++i) {
    m.a.push_back(v()); m.b.push_back(v());
    if (kind >= K_C1) {
      uint64_t o = v();
      m.o1.push_back(o);
      uint64_t k = r.below(5), q = 1ull << r.below(isd ? 63 : 31);
      m.o2.push_back(k == 0 ? o : k == 1 ? o ^ (1ull << r.below(isd ? 20 : 10)) : k == 2 ? (isd ? o + r.below(8) : (uint32_t)(o + r.below(8))) : k == 3 ? (isd ? o + q - 1 + r.below(3) : (uint32_t)(o + q - 1 + r.below(3))) : v());
    }
  }
  m.fn.reset(new HashFn);
  m.fn->seed = l.unum("vseed"); m.fn->isd = isd; m.fn->plain = plain;
  return m;
}
SutObj* construct(const SutApi* api, const Made& m, const std::string& name) {
  if (m.kind <= K_P1OLD) return api->pool(m.kind, m.isd, m.range, m.n, m.seed);
  if (m.kind < K_C1) return api->resp(m.kind, m.isd, m.arr, name.c_str(), m.a.data(), m.b.data(), m.n, m.fn.get());
  return api->comp(m.kind, m.isd, name.c_str(), m.a.data(), m.b.data(), m.o1.data(), m.o2.data(), m.n);
}
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> w; std::istringstream i(s); std::string x; while (i >> x) w.push_back(x); return w; }
static bool showsNumber(std::string w, uint64_t bits, int isd) {
  while (!w.empty() && (w.back() == ',' || w.back() == ')')) w.pop_back();
  while (!w.empty() && w[0] == '(') w.erase(0, 1);
  if (w.empty()) return false;
  char* e;
  if (isd) { double d = strtod(w.c_str(), &e); if (*e) return false; return isNanBits(bits, 1) ? std::isnan(d) : doubleToBits(d) == bits; }
  float f = strtof(w.c_str(), &e); if (*e) return false;
  return isNanBits(bits, 0) ? std::isnan(f) : floatToBits(f) == bits;
}
static bool showsHex(const std::string& w, uint64_t bits) {
  if (bits == 0) return w == "0" || w == "0x0";
  return w == fmt("0x%llx", (unsigned long long)bits);
}
std::string verifyMade(const Made& m, const Data& d, const Cal& c) {
  if (!d.bad.empty()) return d.bad;
  if (d.n() != m.n) return fmt("%zu records instead of %zu", d.n(), m.n);
  if (m.kind <= K_P1OLD) {
    for (size_t k = 0; k < d.col.size(); ++k) {
      double lo = m.range[2 * k], hi = m.range[2 * k + 1];
      if (!m.isd) { lo = (float)lo; hi = (float)hi; }
      for (size_t i = 0; i < m.n; ++i) { double v = valueOf(d.col[k][i], m.isd); if (!(v >= lo && v <= hi)) return fmt("number %zu is %.17g, outside [%.17g, %.17g]", i, v, lo, hi); }
    }
    return "";
  }
  if (m.kind < K_C1) {
    bool two = m.kind == K_R2;
    for (size_t i = 0; i < m.n; ++i) {
      if (d.col[0][i] != m.a[i]) return fmt("input %zu is %llx instead of %llx", i, (unsigned long long)d.col[0][i], (unsigned long long)m.a[i]);
      if (two && d.col[1][i] != m.b[i]) return fmt("second input %zu is %llx instead of %llx", i, (unsigned long long)d.col[1][i], (unsigned long long)m.b[i]);
      uint64_t want = m.fn->f(m.a[i], two ? m.b[i] : 0);
      if (d.col.back()[i] != want) return fmt("output %zu is %llx instead of %llx", i, (unsigned long long)d.col.back()[i], (unsigned long long)want);
    }
    return "";
  }
  for (size_t i = 0; i < m.n; ++i) {
    std::vector<std::string> w = words(d.lines[i]);
    auto word = [&](int k) { return (size_t)k < w.size() ? w[w.size() - 1 - (size_t)k] : std::string(); };
    if (c.at[0] >= 0 && !showsNumber(word(c.at[0]), m.a[i], m.isd)) return fmt("record %zu does not show its input %llx: '%s'", i, (unsigned long long)m.a[i], d.lines[i].c_str());
    if (m.kind == K_C2 && c.at[1] >= 0 && !showsNumber(word(c.at[1]), m.b[i], m.isd)) return fmt("record %zu does not show its second input %llx: '%s'", i, (unsigned long long)m.b[i], d.lines[i].c_str());
    if (c.at[2] >= 0 && !showsHex(word(c.at[2]), m.o1[i])) return fmt("record %zu does not show its first output %llx: '%s'", i, (unsigned long long)m.o1[i], d.lines[i].c_str());
    if (c.at[3] >= 0 && !showsHex(word(c.at[3]), m.o2[i])) return fmt("record %zu does not show its second output %llx: '%s'", i, (unsigned long long)m.o2[i], d.lines[i].c_str());
  }
  return "";
}
Cal calibrate(const SutApi* api, int kind, int isd) {
  simheap::Scope hs;
  static const int per[] = {1, 2, 1, 2, 3, 2, 5, 7, 5};
  Cal c;
  c.tokens = per[kind];
  const size_t n = 3;
  Made m;
  m.kind = kind; m.isd = isd; m.n = n; m.arr = 0; m.seed = 7;
  m.range[0] = m.range[2] = 1; m.range[1] = m.range[3] = 2;
  for (size_t i = 0; i < n; ++i) { m.a.push_back(numBits(1.5 + (double)i, isd)); m.b.push_back(numBits(11.25 + (double)i, isd)); m.o1.push_back(numBits(21.125 + (double)i, isd)); m.o2.push_back(numBits(31.0625 + (double)i, isd)); }
  m.fn.reset(new HashFn); m.fn->isd = isd; m.fn->plain = true;
  SutObj *o, *e;
  { simheap::SutScope s; o = construct(api, m, "Qcal"); o->save("cal.tmp"); e = api->load(kind, isd, "nosuch.tmp"); }
  Data d = snapshot(o, kind, isd, "Qcal"), ed = snapshot(e, kind, isd, "From nosuch.tmp");
  std::string t = simfs::content("cal.tmp");
  { simheap::SutScope s; delete o; delete e; }
  simfs::remove("cal.tmp");
  c.emptyStats = ed.stats;
  if (d.comp && d.lines.size() == n) {
    for (int k = 0; k < 4; ++k) {
      int found = -1;
      for (size_t i = 0; i < n; ++i) {
        std::vector<std::string> w = words(d.lines[i]);
        int f = -1;
        for (size_t j = 0; j < w.size(); ++j) {
          const std::string& x = w[w.size() - 1 - j];
          bool hit = k == 0 ? showsNumber(x, m.a[i], isd) : k == 1 ? showsNumber(x, m.b[i], isd) : k == 2 ? showsHex(x, m.o1[i]) : showsHex(x, m.o2[i]);
          if (hit) { f = (int)j; break; }
        }
        if (f < 0 || (i && f != found)) { found = -1; break; }
        found = f;
      }
      c.at[k] = found;
    }
  }
  // the records are the last n*tokens words of the file
  size_t words_ = 0, pos = t.size();
  while (pos > 0 && isspace((unsigned char)t[pos - 1])) --pos;
  while (pos > 0) {
    while (pos > 0 && !isspace((unsigned char)t[pos - 1])) --pos;
    ++words_;
    if (words_ == n * (size_t)c.tokens) break;
    while (pos > 0 && isspace((unsigned char)t[pos - 1])) --pos;
  }
  if (words_ == n * (size_t)c.tokens && (pos == 0 || t[pos - 1] == '\n')) {
    c.ok = true;
    for (size_t i = 0; i < pos; ++i) if (t[i] == '\n') c.header++;
  }
  return c;
}
long wholeRecords(const Cal& c, const std::string& t) {
  if (!c.ok) return -1;
  size_t pos = 0;
  for (int i = 0; i < c.header; ++i) { pos = t.find('\n', pos); if (pos == std::string::npos) return 0; ++pos; }
  size_t w = 0;
  bool in = false;
  for (; pos < t.size(); ++pos) { bool sp = isspace((unsigned char)t[pos]); if (sp && in) { ++w; in = false; } else if (!sp) in = true; }
  return (long)(w / (size_t)c.tokens);
}
