// The simulated operating system: disk, clocks, heap, threads and signals.
// Everything here is reached by the code under test through the ordinary
// symbols of the C library, the C++ runtime and the compiler's memory access
// instrumentation, which the simulator executable defines itself.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "core.h"

// ------------------------------------------------------------------ disk
namespace simfs {
struct Faults {
  long wchunk = 0;      // a write transfers at most this many bytes
  long rchunk = 0;      // a read transfers at most this many bytes
  long vary = 0;        // chunk sizes vary from call to call (seed)
  long eintr = 0;       // every k-th transfer is interrupted first
  long enospc = -1;     // the disk is full after this many bytes
  long weio = -1;       // writes fail after this many bytes
  long reio = -1;       // reads fail after this many bytes
  long crash = -1;      // the process dies after this many bytes written
  long crashcall = -1;  // the process dies before this file system call
  long open = -1;       // this open (counted from 0) fails
  long openall = 0;     // ... and all later ones
  long openerr = 0;     // with this error
  long close = -1;      // this close fails (the data is written)
  long ro = 0;          // nothing can be opened for writing
  bool any() const { return ro || wchunk || rchunk || eintr || enospc >= 0 || weio >= 0 || reio >= 0 || crash >= 0 || crashcall >= 0 || open >= 0 || close >= 0; }
};
Faults parseFaults(const Line& l);
struct Fired { bool enospc = 0, weio = 0, reio = 0, crash = 0, open = 0, close = 0, shortw = 0, shortr = 0, eintr = 0, ro = 0; long wbytes = 0, rbytes = 0, calls = 0, opens = 0;
  bool failed() const { return enospc || weio || reio || crash || open; } };
extern bool active;
void reset();
void begin(const Faults& f);      // start of an operation
Fired end();                      // end of an operation; restores the disk after a crash
typedef std::map<std::string, std::string> Disk;
std::string norm(const std::string&);  // one name per file
Disk disk();
void setDisk(const Disk&);
bool exists(const std::string&);
std::string content(const std::string&);
void setContent(const std::string&, const std::string&);
void remove(const std::string&);
int openFiles();
extern bool countOnly;            // files keep the number of their lines only (as text), for very large ones
void deny(const std::string&);    // this file cannot be opened (until reset)
extern void (*atCall)();          // if set, called before every file system call
extern bool (*onBlock)();         // if set, lets another process go on (false: there is none)
extern int owner;                 // of locks: the simulated process
void unlockAll(int fd);           // -1: of all files of this process
std::string pack();               // the disk with the identities of its files, for another process
void unpack(const char* p, size_t n);
void ownInodes(uint64_t base);    // new files of this process have other identities
extern void (*onCrash)();         // if set, called at the crash instead of snapshotting
extern bool allowRace;            // several threads
}

// ------------------------------------------------------------------ clocks
namespace simclk {
extern bool active;
void reset();
void setThreadCpu(int t, int64_t ns);
int64_t threadCpu(int t);
void work(int64_t ns);            // the current thread computes
void stall(int64_t ns);           // nobody of us computes
void stepReal(int64_t ns);        // the wall clock is set
extern int64_t perRead;           // CPU time passing at each clock reading
extern int64_t perAlloc;          // CPU time passing at each allocation
extern uint64_t reads;
extern std::vector<int64_t>* readings;            // if set, thread CPU clock readings are noted here
extern int64_t (*afterRead)(uint64_t index);      // if set, CPU time passing after each reading
extern int64_t mono, real, proc;
}

// ------------------------------------------------------------------ heap
namespace simheap {
extern thread_local int harness;  // >0: allocations belong to the simulator
struct Scope { Scope() { ++harness; } ~Scope() { --harness; } };
struct SutScope { int saved; SutScope() : saved(harness) { harness = 0; } ~SutScope() { harness = saved; } };
void begin(long failAt, bool sticky);
struct Result { long allocs; bool fired; };
Result end();
void initArena();
void moveArena(int procNo);
std::pair<uintptr_t, uintptr_t> inUse();   // addresses of all blocks so far
long live();                      // blocks owned by the code under test
}

// ------------------------------------------------------------------ threads
namespace simsched {
struct Switch { uint64_t step; uint32_t to; };
struct Signal { uint64_t step; std::function<void()> fn; };
// Runs the bodies as threads, one at a time.  Empty schedule: one after the
// other in the given order.
void run(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& sw, const std::vector<Signal>& sig, const std::vector<int>* order = nullptr, bool recordStatic = false);
int self();                       // index of the running simulated thread or -1
void point(int kind = 0, const void* addr = nullptr, size_t size = 0, bool write = false);
uint64_t steps();
extern void (*onAccess)(const void* addr, size_t size, bool write);  // instrumented access by the running thread
void setStaticRange(const std::vector<std::pair<uintptr_t, uintptr_t>>&);
void watchWrites(uintptr_t lo, uintptr_t hi);   // also interesting
extern uint64_t maxSteps;
}
// expands the schedule lines of a plan after a probe counted `steps`
std::vector<simsched::Switch> makeSchedule(const std::vector<Line>& plan, uint64_t steps, const std::vector<uint64_t>& stat, unsigned nthreads);
void genSchedule(Rng& r, PlanText& out, unsigned nthreads);

// ------------------------------------------------------------------ code under test
#include "sut_api.h"
// a second copy of that one; the function is called while it is loaded, before it is initialised
const SutApi* sutEarly(void (*f)(const SutApi*));
const SutApi* sutPlain();         // as shipped: the project's own optimisation flags
const SutApi* sutInstr();         // memory accesses reported to the scheduler
void* toolMain(const char* name); // int main(int, char**) of a program of the project
std::string captureStdout(const std::function<void()>&);
void muteStdout();
void ownStdio();  // in the process of a run: stdout of the C library becomes std::cout
// std::cout as at the start of a program, over several operations
void tapStdout(long failAt = -1); // failAt: the screen fails after this many characters
std::string untapStdout();
size_t tapped();                  // characters so far
