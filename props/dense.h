// Reference model of the RNN dense operation (also the first stage of the recurrent cells).
#pragma once
#include "convq.h"
namespace vt {
// One input of a dense layer: integer values and quantisation.
struct DenseIn {
  MathType m;
  std::vector<int64_t> x;          // raw values
  int in_scale = 1, in_frac = 0, in_zp = 0;  // sa8: scale/2^frac, zero point; fx: frac
  int w_scale = 1, w_frac = 0;
  int64_t bound = 0;
};
struct DenseOut { int scale = 1, frac = 0, zp = 0; };
// contribution of one input to one output, in the intermediate format (32 or 64 bit container)
template <class WF>
inline fx::i128 dense_ir(DenseIn& d, const DenseOut& o, WF w, bool has_bias, int64_t bias, int bias_frac) {
  int W = d.m == FX16 ? 64 : 32;
  fx::i128 acc = 0, b = 0;
  if (has_bias) acc = d.m == SA8 ? sa_bias_reduce(bias) : fx::shr_rnd(bias, -(d.in_frac + d.w_frac - bias_frac), W);
  b = acc < 0 ? -acc : acc;
  for (size_t i = 0; i < d.x.size(); i++) {
    int64_t wv = w(i);
    acc += (fx::i128)(d.x[i] - d.in_zp) * wv;
    b += std::abs(d.x[i] * wv) + std::abs((int64_t)d.in_zp * wv);
  }
  d.bound = std::max<int64_t>(d.bound, (int64_t)fx::sat(b, 64));
  if (d.m == SA8) {
    SaRatio r = sa_ratio(d.in_scale, d.in_frac, o.scale, o.frac);
    int64_t mul = r.ratio * d.w_scale; int sh = r.shift + d.w_frac;
    if (!fx::kFullAccu) { int n = fx::norm(mul, 32); mul <<= n; sh += n; }
    return fx::cast(acc * mul, std::min(sh, 63), 64, 32);
  }
  int sh = d.in_frac + d.w_frac - o.frac;
  if (d.m == FX16) sh = std::min(sh, 39);
  return fx::shr_rnd(acc, sh, W);
}
// the same contribution as a real number
inline int64_t dense_final(MathType m, fx::i128 ir, const DenseOut& o) {
  if (m != SA8) return (int64_t)fx::sat(ir, 16);
  return (int64_t)fx::sat(fx::sat(fx::sat(ir, 16) + o.zp, 16), 8);
}
inline int64_t dense_bound_limit(MathType m) { return m == FX16 ? ((int64_t)1 << 62) : INT32_MAX; }
}  // namespace vt
