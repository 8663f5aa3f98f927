// Reference model of the pooling kernels.
#pragma once
#include "conv2d.h"
#include "elt.h"
namespace vt {
inline mli_pool_cfg pool_cfg(const Geo& q) {
  mli_pool_cfg c; memset(&c, 0, sizeof c);
  c.kernel_width = (uint8_t)q.kw; c.kernel_height = (uint8_t)q.kh; c.stride_width = (uint8_t)q.sw; c.stride_height = (uint8_t)q.sh;
  c.padding_left = (uint8_t)q.pl; c.padding_right = (uint8_t)q.pr; c.padding_top = (uint8_t)q.pt; c.padding_bottom = (uint8_t)q.pb;
  return c;
}
// calls f(y, x, first row, end row, first column, end column) for every output position
template <class F> inline void windows(const Geo& q, F f) {
  for (int y = 0; y < q.oh; y++) for (int x = 0; x < q.ow; x++) {
    int r0 = y * q.sh - q.pt, c0 = x * q.sw - q.pl;
    f(y, x, std::max(r0, 0), std::min(r0 + q.kh, q.ih), std::max(c0, 0), std::min(c0 + q.kw, q.iw));
  }
}
// requantisation between two asymmetric formats: scale * 2^-shift, offset
struct Requant { int64_t scale = 1; int shift = 0; int64_t offset = 0; };
inline Requant requant(const Fmt& i, const Fmt& o) {
  Requant r; int t, pre = fx::norm(i.scale, 32) - fx::norm(o.scale, 16);
  r.scale = norm_cast(((int64_t)i.scale << pre) / o.scale, 16, &t);
  r.shift = pre + i.frac - o.frac - t;
  r.offset = (int64_t)fx::sat(o.zp - fx::cast(r.scale * i.zp, r.shift, 32, 16), 16);
  return r;
}
// 1/n as a 15-bit mantissa and a shift
inline void reciprocal(int n, int64_t& mul, int& shift) {
  shift = 14;
  while (((((int64_t)1 << (shift + 1))) / n) < 32768) shift++;
  mul = ((int64_t)1 << shift) / n;
}
}  // namespace vt
