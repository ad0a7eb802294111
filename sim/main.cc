// sim gen   <property> <seed> <tier> <index>
// sim exec  <property> <planfile> [-v]
// sim batch <property> <seed> <tier> <first> <step> <last> <seconds> <twice> <out.json> <violation-prefix>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include "simos.h"

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

static World* worldOf(const std::string& p) {
  int n = atoi(p.c_str() + 1);
  switch (n) {
    case 1: case 2: case 3: case 4: case 5: case 6: case 17: case 25: case 30: case 31: case 32: return diskWorld();
    case 7: case 8: case 9: return clockWorld();
    case 10: case 11: return mathWorld();
    case 12: case 13: case 28: return threadWorld();
    case 14: case 15: case 16: case 24: case 27: case 29: return toolWorld();
    case 23: return printWorld();
    case 26: return genWorld();
  }
  fprintf(stderr, "unknown property %s\n", p.c_str());
  exit(2);
}
static void resetShm() {
  size_t n = (size_t)((char*)shm->stat - (char*)shm);
  memset((void*)shm, 0, n);
  shm->nsw = 0; shm->outlen = 0; shm->nstat = 0;
  shm->hash = 0x1234; shm->trace = 0x5678;
}
// SIM_CPU shortens the limit while a run that does not end is being shrunk
static const int CPU_LIMIT = getenv("SIM_CPU") ? std::max(1, atoi(getenv("SIM_CPU"))) : 30, WALL_LIMIT = 400;
// what earlier calls left on the stack must not show
static __attribute__((noinline)) void scrubStack() { char b[1 << 18]; memset(b, 0xA5, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
static void runPlan(World* w, const std::string& prop, const PlanText& plan) {
  resetShm();
  pid_t p = fork();
  if (p < 0) { shm->status = 3; strcpy(shm->vmsg, "fork failed"); return; }
  if (p == 0) {
    alarm(WALL_LIMIT);
    struct rlimit rl = {CPU_LIMIT, CPU_LIMIT + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &rl);
    if (!g_verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
    simsched::maxSteps = 20000000;
    ownStdio();
    scrubStack();
    try {
      w->exec(prop, parsePlan(plan));
    } catch (const std::exception& e) {
      violation("exception", "an exception escaped: %s", e.what());
    } catch (...) {
      violation("exception", "an unknown exception escaped");
    }
    if (shm->status == 0) shm->status = 1;
    _exit(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) break;
  if (shm->status >= 2) return;
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGALRM) { shm->status = 3; strcpy(shm->vmsg, "run exceeded the wall clock limit"); return; }
    shm->status = 2;
    if (s == SIGXCPU || s == SIGKILL) { strcpy(shm->vclass, "hang.cpu"); snprintf(shm->vmsg, sizeof shm->vmsg, "no end after %d s of CPU time", CPU_LIMIT); shm->hash = 0; }
    else { snprintf(shm->vclass, sizeof shm->vclass, "crash.signal%d", s); snprintf(shm->vmsg, sizeof shm->vmsg, "the code died with signal %d (%s)", s, strsignal(s)); }
  } else if (shm->status == 0) {
    shm->status = 2;
    strcpy(shm->vclass, "crash.exit");
    snprintf(shm->vmsg, sizeof shm->vmsg, "the code ended the process with status %d", WEXITSTATUS(st));
  }
}
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += (char)c;
  return r + "\"";
}
int main(int argc, char** argv) {
  // fixed addresses, so that nothing can depend on them
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  unsetenv("SIM_NOREEXEC");
  setlocale(LC_ALL, "C");
  simheap::initArena();
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shm == MAP_FAILED) { perror("mmap"); return 2; }
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc == 6) {
    PlanText t;
    worldOf(argv[2])->gen(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4]), strtoull(argv[5], 0, 10), t);
    for (auto& l : t) puts(l.c_str());
    return 0;
  }
  if (mode == "exec" && argc >= 4) {
    g_verbose = argc > 4;
    std::ifstream f(argv[3]);
    PlanText t; std::string l;
    while (std::getline(f, l)) t.push_back(l);
    World* w = worldOf(argv[2]);
    resetShm();
    w->init(argv[2]);
    if (shm->status == 3) { fprintf(stderr, "%s\n", shm->vmsg); return 3; }
    double t0 = wall();
    runPlan(w, argv[2], t);
    std::string sw = "[";
    for (size_t i = 0; i < shm->nsw; ++i) sw += fmt("%s[%llu,%u]", i ? "," : "", (unsigned long long)shm->sw[i].step, shm->sw[i].to);
    std::string cn = "{";
    for (int i = 0; i < shm->ncnt; ++i) cn += fmt("%s%s:%llu", i ? "," : "", jstr(shm->cnt[i].name).c_str(), (unsigned long long)shm->cnt[i].v);
    printf("{\"status\":%d,\"class\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"trace\":\"%016llx\",\"events\":%llu,\"steps\":%llu,\"secs\":%.3f,\"sw\":%s],\"counters\":%s}}\n", shm->status, jstr(shm->vclass).c_str(), jstr(shm->vmsg).c_str(),
           (unsigned long long)shm->hash, (unsigned long long)shm->trace, (unsigned long long)shm->nev, (unsigned long long)shm->steps, wall() - t0, sw.c_str(), cn.c_str());
    return shm->status == 1 ? 0 : shm->status == 2 ? 1 : 3;
  }
  if (mode == "batch" && argc == 12) {
    std::string prop = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10);
    int tier = atoi(argv[4]);
    uint64_t first = strtoull(argv[5], 0, 10), step = strtoull(argv[6], 0, 10), last = strtoull(argv[7], 0, 10);
    double secs = atof(argv[8]);
    uint64_t twice = strtoull(argv[9], 0, 10);
    World* w = worldOf(prop);
    w->init(prop);
    double t0 = wall();
    std::map<std::string, uint64_t> cnt;
    std::unordered_set<uint64_t> traces, states;
    std::string viol = "";
    std::string samples = "";
    uint64_t runs = 0, nontrivial = 0, dtested = 0, dbad = 0, simns = 0, steps = 0, events = 0;
    int nviol = 0, nsamples = 0;
    double slowest = 0; uint64_t slowi = 0;
    uint64_t hashAll = 0;
    std::string err;
    std::vector<std::string> classes;
    for (uint64_t i = first; i < last; i += step) {
      if (wall() - t0 > secs) break;
      PlanText t;
      w->gen(prop, seed, tier, i, t);
      double r0 = wall();
      runPlan(w, prop, t);
      double dt = wall() - r0;
      if (dt > slowest) { slowest = dt; slowi = i; }
      if (shm->status == 3) { err = fmt("run %llu: ", (unsigned long long)i) + shm->vmsg; break; }
      ++runs;
      uint64_t h = shm->hash, tr = shm->trace;
      hashAll += mix64(h ^ i);
      simns += shm->simns; steps += shm->steps; events += shm->nev;
      for (int k = 0; k < shm->ncnt; ++k) cnt[shm->cnt[k].name] += shm->cnt[k].v;
      traces.insert(tr);
      if (shm->nontrivial) { ++nontrivial; states.insert(tr ^ mix64(shm->nontrivial)); }
      if (nsamples < 3 && shm->nontrivial && i % 7 == first % 7) {
        std::string pl;
        for (size_t k = 0; k < t.size() && k < 8; ++k) pl += (k ? " | " : "") + t[k];
        samples += fmt("%s{\"run\":%llu,\"hash\":\"%016llx\",\"events\":%llu,\"plan\":", nsamples ? "," : "", (unsigned long long)i, (unsigned long long)h, (unsigned long long)shm->nev) + jstr(pl.substr(0, 600)) + "}";
        ++nsamples;
      }
      if (shm->status == 2) {
        std::string cls = shm->vclass, msg = shm->vmsg;
        if (std::find(classes.begin(), classes.end(), cls) == classes.end()) {
          classes.push_back(cls);
          std::string f = std::string(argv[11]) + fmt("%d", nviol) + ".plan";
          std::ofstream o(f);
          for (auto& l : t) o << l << "\n";
          o.close();
          viol += fmt("%s{\"run\":%llu,\"hash\":\"%016llx\",\"class\":", nviol ? "," : "", (unsigned long long)i, (unsigned long long)h) + jstr(cls) + ",\"msg\":" + jstr(msg) + ",\"plan\":" + jstr(f) + "}";
          if (++nviol >= 4) break;
        }
        cnt["violating_runs"]++;
        if (cls == "hang.cpu") break;
      }
      if (twice && i % twice == 0) {
        int s1 = shm->status;
        runPlan(w, prop, t);
        ++dtested;
        if (shm->hash != h || shm->trace != tr || shm->status != s1) { ++dbad; if (err.empty()) err = fmt("run %llu is not deterministic", (unsigned long long)i); }
      }
    }
    std::ofstream o(argv[10]);
    o << "{\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"secs\":" << wall() - t0 << ",\"simns\":" << simns << ",\"steps\":" << steps << ",\"events\":" << events
      << ",\"twice\":" << dtested << ",\"mismatch\":" << dbad << ",\"slowest\":" << slowest << ",\"slowest_run\":" << slowi << ",\"hash\":" << jstr(fmt("%016llx", (unsigned long long)hashAll)) << ",\"error\":" << jstr(err) << ",\"violations\":[" << viol << "],\"samples\":[" << samples << "],\"counters\":{";
    bool f = true;
    for (auto& c : cnt) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
    o << "},\"traces\":[";
    f = true;
    for (uint64_t t : traces) { o << (f ? "" : ",") << "\"" << fmt("%llx", (unsigned long long)t) << "\""; f = false; }
    o << "],\"states\":[";
    f = true;
    for (uint64_t t : states) { o << (f ? "" : ",") << "\"" << fmt("%llx", (unsigned long long)t) << "\""; f = false; }
    o << "]}\n";
    o.close();
    return 0;
  }
  fprintf(stderr, "usage: sim gen|exec|batch ...\n");
  return 2;
}
