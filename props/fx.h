// Reference fixed-point primitives, written over 128-bit integers. W is the width in bits of the
// container in which the operation is documented to happen; every operation saturates to that container.
#pragma once
#include <cstdint>
#include <algorithm>

namespace fx {
typedef __int128 i128;
inline i128 vmax(int bits) { return ((i128)1 << (bits - 1)) - 1; }
inline i128 vmin(int bits) { return -((i128)1 << (bits - 1)); }
inline i128 sat(i128 x, int bits) { return x > vmax(bits) ? vmax(bits) : x < vmin(bits) ? vmin(bits) : x; }
inline i128 floor_shr(i128 x, int n) { return n > 126 ? (x < 0 ? -1 : 0) : x >> n; }
// saturating left shift in a W-bit container
inline i128 shl(i128 x, int n, int W) {
  if (n > W - 1) return x == 0 ? 0 : x > 0 ? vmax(W) : vmin(W);
  return sat(x << n, W);
}
// rounding right shift (left shift when n < 0) of a W-bit container value
inline i128 shr_rnd(i128 x, int n, int W) {
  if (n < 0) return shl(x, -n, W);
  if (n == 0) return x;
  if (n > W - 1) return 0;
#ifdef ROUND_MODE_UP
  return floor_shr(sat(x + ((i128)1 << (n - 1)), W), n);
#else
  i128 q = floor_shr(x, n), r = x - (q << n), half = (i128)1 << (n - 1);
  if (r > half || (r == half && (q & 1))) q++;
  return q;
#endif
}
// rounding right shift in a W-bit container, then saturation to OW bits
inline int64_t cast(i128 x, int n, int W, int OW) { return (int64_t)sat(shr_rnd(x, n, W), OW); }
// number of redundant sign bits of a W-bit value (W-1 for 0)
inline int norm(int64_t x, int W) {
  if (x == 0) return W - 1;
  int n = 0;
  while (sat((i128)x << (n + 1), W) == ((i128)x << (n + 1))) n++;
  return n;
}
#ifdef FULL_ACCU
static const bool kFullAccu = true;
#else
static const bool kFullAccu = false;
#endif
#ifdef ROUND_MODE_UP
static const bool kRoundUp = true;
#else
static const bool kRoundUp = false;
#endif
}  // namespace fx
