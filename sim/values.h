// Seeded floating point bit patterns.
#pragma once
#include "core.h"
inline double bitsToDouble(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t doubleToBits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline float bitsToFloat(uint64_t b) { uint32_t w = (uint32_t)b; float f; memcpy(&f, &w, 4); return f; }
inline uint64_t floatToBits(float f) { uint32_t w; memcpy(&w, &f, 4); return w; }
inline bool isNanBits(uint64_t b, int isd) { return isd ? (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull : ((uint32_t)b & 0x7fffffffu) > 0x7f800000u; }
inline bool isInfBits(uint64_t b, int isd) { return isd ? (b & 0x7fffffffffffffffull) == 0x7ff0000000000000ull : ((uint32_t)b & 0x7fffffffu) == 0x7f800000u; }
inline uint64_t numBits(double v, int isd) { return isd ? doubleToBits(v) : floatToBits((float)v); }
inline double valueOf(uint64_t b, int isd) { return isd ? bitsToDouble(b) : (double)bitsToFloat(b); }
// any pattern at all
inline uint64_t weirdBits(uint64_t r, int isd) {
  uint64_t k = r % 23; r = mix64(r);
  uint64_t sign = isd ? (r & 1) << 63 : (r & 1) << 31;
  uint64_t mant = isd ? (r >> 3) & 0xfffffffffffffull : (r >> 3) & 0x7fffff;
  uint64_t expo = isd ? 0x7ff0000000000000ull : 0x7f800000u;
  switch (k) {
    case 0: case 1: return sign;                                   // zero
    case 2: return sign | (mant ? mant : 1);                       // subnormal
    case 3: return sign | expo;                                    // infinity
    case 4: return sign | expo | (mant ? mant : 1);                // NaN with payload
    case 5: return sign | expo | (isd ? 0x8000000000000ull : 0x400000u);
    case 6: return sign | 1;                                       // smallest
    case 7: return sign | (expo - 1);                              // largest finite
    case 8: return numBits((double)(int64_t)(r % 2000) - 1000, isd);
    case 9: return isd ? r : (uint32_t)r;                          // anything
    case 10: return sign | (isd ? (r % 16) << 52 : (r % 16) << 23);
    default: return numBits(((double)(r >> 11) * 0x1p-53 - 0.5) * 10000, isd);
  }
}
inline uint64_t plainBits(uint64_t r, int isd) { r = mix64(r); return numBits(((double)(r >> 11) * 0x1p-53 - 0.5) * ((r & 3) ? 100 : 100000), isd); }
