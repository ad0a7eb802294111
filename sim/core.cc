#include "core.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "simos.h"

Shm* shm = nullptr;
bool g_verbose = false;
int g_procNo = 0;
unsigned char g_fill = 0xA5;

std::vector<Line> parsePlan(const PlanText& t) {
  std::vector<Line> out;
  for (auto& s : t) {
    Line l;
    size_t i = 0;
    bool first = true;
    while (i < s.size()) {
      size_t j = s.find(' ', i);
      if (j == std::string::npos) j = s.size();
      std::string w = s.substr(i, j - i);
      i = j + 1;
      if (w.empty()) continue;
      if (first) { if (w[0] == '#') break; l.cmd = w; first = false; continue; }
      size_t e = w.find('=');
      if (e == std::string::npos) l.kv[w] = "1"; else l.kv[w.substr(0, e)] = w.substr(e + 1);
    }
    if (!first) out.push_back(l);
  }
  return out;
}
std::string fmt(const char* f, ...) {
  char b[4096];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}
std::string enc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) if (isalnum(c) || strchr("._/-", c)) r += (char)c; else r += fmt("%%%02x", c);
  return r.empty() ? "%" : r;
}
std::string dec(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%') { if (i + 2 < s.size()) r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += s[i];
  return r;
}
uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* b = (const unsigned char*)p;
  while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) h = (h ^ *b++) * 1099511628211ull;
  return mix64(h);
}
void count(const char* name, uint64_t n) {
  for (int i = 0; i < shm->ncnt; ++i) if (!strcmp(shm->cnt[i].name, name)) { shm->cnt[i].v += n; return; }
  if (shm->ncnt >= (int)(sizeof shm->cnt / sizeof shm->cnt[0])) harnessError("too many counters");
  strncpy(shm->cnt[shm->ncnt].name, name, 55);
  shm->cnt[shm->ncnt].name[55] = 0;
  shm->cnt[shm->ncnt++].v = n;
}
uint64_t counterValue(const char* name) {
  for (int i = 0; i < shm->ncnt; ++i) if (!strcmp(shm->cnt[i].name, name)) return shm->cnt[i].v;
  return 0;
}
void ev(const char* tag, uint64_t a, uint64_t b, uint64_t c) {
  uint64_t h = shm->hash;
  for (const char* t = tag; *t; ++t) h = (h ^ (unsigned char)*t) * 1099511628211ull;
  h = mix64(h ^ a); h = mix64(h ^ (b * 3 + 1)); h = mix64(h ^ (c * 5 + 2));
  shm->hash = h;
  shm->nev++;
  if (g_verbose) { char l[200]; int n = snprintf(l, sizeof l, "ev %llu %s %llu %llu %llu\n", (unsigned long long)shm->nev, tag, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); if (write(2, l, (size_t)n) < 0) {} }
}
void evBytes(const char* tag, const void* p, size_t n) { ev(tag, n, hashBytes(p, n)); }
void violation(const char* cls, const char* f, ...) {
  if (shm->status == 0) {
    snprintf(shm->vclass, sizeof shm->vclass, "%s", cls);
    va_list a; va_start(a, f); vsnprintf(shm->vmsg, sizeof shm->vmsg, f, a); va_end(a);
    shm->hash = hashBytes(shm->vmsg, strlen(shm->vmsg), shm->hash);
    shm->status = 2;
  }
  _exit(0);
}
void harnessError(const char* f, ...) {
  va_list a; va_start(a, f);
  char b[2000];
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  fprintf(stderr, "harness error: %s\n", b);
  if (shm) { snprintf(shm->vmsg, sizeof shm->vmsg, "%s", b); shm->status = 3; }
  _exit(3);
}
void simExit() { _exit(0); }

std::vector<unsigned char> forked(void (*fn)(void*), void* arg, int* deathsig, bool keep) {
  simheap::Scope hs;
  struct Saved { int ncnt; uint64_t trace, simns, steps, nontrivial; size_t nsw; };
  Saved sv = {shm->ncnt, shm->trace, shm->simns, shm->steps, shm->nontrivial, shm->nsw};
  std::vector<uint64_t> vals;
  for (int i = 0; i < shm->ncnt; ++i) vals.push_back(shm->cnt[i].v);
  shm->outlen = 0;
  shm->nstat = 0;
  int no = ++shm->procs;
  pid_t p = fork();
  if (p < 0) harnessError("fork failed");
  if (p == 0) { g_procNo = no; simheap::moveArena(no); simclk::real += no * 1370000000ll; simclk::mono += no * 770000000ll; fn(arg); _exit(0); }
  int st;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) harnessError("waitpid failed");
  if (shm->status >= 2) _exit(0);
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) raise(SIGALRM);
    if (!deathsig) violation(fmt("crash.signal%d", WTERMSIG(st)).c_str(), "the code died with signal %d", WTERMSIG(st));
    *deathsig = WTERMSIG(st);
  } else {
    if (deathsig) *deathsig = 0;
    if (WEXITSTATUS(st) != 0 && !deathsig) violation("crash.exit", "the code ended the process with status %d", WEXITSTATUS(st));
    if (deathsig && WEXITSTATUS(st) != 0) *deathsig = -WEXITSTATUS(st);
  }
  std::vector<unsigned char> out(shm->out, shm->out + shm->outlen);
  shm->outlen = 0;
  if (!keep) {
    shm->ncnt = sv.ncnt; for (int i = 0; i < sv.ncnt; ++i) shm->cnt[i].v = vals[(size_t)i];
    shm->trace = sv.trace; shm->simns = sv.simns; shm->steps = sv.steps; shm->nontrivial = sv.nontrivial; shm->nsw = sv.nsw;
  }
  return out;
}
