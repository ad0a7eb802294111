// What the simulator and the interpreter of the source generator share.
#pragma once
#include <stdint.h>
struct GenFaults {
  long wchunk, eintr;         // a write transfers at most this much; every k-th one is interrupted
  long crash, crashcall;      // dies after this many bytes / before this call
  long enospc, weio;          // full / failing after this many bytes
  long open, openall, close;  // this open or close fails
  int openerr;
  long vary, now;
  long pid, entropy;
};
enum { GF_CRASH = 1, GF_FULL = 2, GF_EIO = 4, GF_OPEN = 8, GF_CLOSE = 16, GF_SHORT = 32, GF_EINTR = 64, GF_OUTSIDE = 128 };
struct GenShm {
  struct GenFaults f;
  uint64_t hash;
  long bytes, calls, opens, closes, transfers, chunks, readings, randoms;
  int fired;
  char outside[512];
};
