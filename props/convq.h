// Shared by the weight-based kernels: generation of operand formats and the documented requantisation.
#pragma once
#include "mlit.h"

namespace vt {
enum MathType { FX16 = 0, FX16_FX8 = 1, SA8 = 2 };
inline const char* math_name(MathType m) { return m == FX16 ? "fx16" : m == FX16_FX8 ? "fx16_fx8_fx8" : "sa8_sa8_sa32"; }
inline mli_element_type in_type(MathType m) { return m == SA8 ? MLI_EL_SA_8 : MLI_EL_FX_16; }
inline mli_element_type w_type(MathType m) { return m == SA8 ? MLI_EL_SA_8 : m == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; }
inline mli_element_type b_type(MathType m) { return m == SA8 ? MLI_EL_SA_32 : m == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; }

inline int ilog2(fx::i128 v) { if (v < 0) v = -v; int n = 0; while (v > 0) { v >>= 1; n++; } return n; }

inline void gen_in_format(G& g, MathType m, TT& in) {
  if (m == SA8) set_sa(in, gen_scale(g), (int)g.range(10, 24), gen_zp8(g));
  else set_frac(in, g.chance(8) ? (int)g.range(-3, 22) : (int)g.around(0, 15, 15));
}
// weights: symmetric for sa8, per tensor or per `axis`; bias gets the format of the accumulator
inline void gen_w_format(G& g, MathType m, const TT& in, TT& w, TT& bias, int axis, int bias_axis) {
  if (m == SA8) {
    bool per_axis = g.chance(60);
    int n = per_axis ? w.dim(axis) : 1;
    std::vector<int16_t> sc, z, bs, bz; std::vector<int8_t> fr, bf;
    int f0 = (int)g.range(12, 24);
    for (int i = 0; i < n; i++) {
      int s = gen_scale(g), f = f0 + (per_axis && g.chance(40) ? (int)g.range(0, 4) - 2 : 0);
      sc.push_back((int16_t)s); fr.push_back((int8_t)f); z.push_back(0);
      int64_t p = (int64_t)in.sc[0] * s; int sh = 0;
      while (((p >> sh) + 1) > 32767) sh++;
      int64_t q = fx::cast(p, sh, 32, 16);
      if (q < 1) q = 1;
      bs.push_back((int16_t)q); bf.push_back((int8_t)(in.sfb[0] + f - sh)); bz.push_back(0);
    }
    if (per_axis) { set_sa_axis(w, axis, sc, fr, z); set_sa_axis(bias, bias_axis, bs, bf, bz); g.label("per-axis weights"); }
    else { set_sa(w, sc[0], fr[0], 0); set_sa(bias, bs[0], bf[0], 0); }
  } else {
    set_frac(w, g.chance(8) ? (int)g.range(-3, 20) : (int)g.around(0, m == FX16 ? 15 : 7, m == FX16 ? 15 : 7));
    int acc = in.t.el_params.fx.frac_bits + w.t.el_params.fx.frac_bits;
    int top = m == FX16 ? 15 : 7;
    int f = g.chance(15) ? acc - (int)g.range(0, 30) : (int)g.range(0, std::max(0, std::min(acc, top)));
    set_frac(bias, std::max(-20, std::min(f, acc)));
  }
}
// bias data in the magnitude of the accumulator (amax), or unrelated
inline void fill_bias(G& g, MathType m, TT& bias, int64_t amax, int acc_frac) {
  if (m != SA8) {
    int sh = acc_frac - bias.t.el_params.fx.frac_bits;
    int64_t lim = sh > 60 ? 0 : sh < 0 ? amax : amax >> sh;
    if (g.chance(40)) { fill(g, bias); return; }
    lim = std::min<int64_t>(std::max<int64_t>(lim, 1), (int64_t)fx::vmax(el_bits(bias.t.el_type)));
    pbt::Rng r(g.seed());
    bias.each([&](const int* i) { bias.seto(bias.off(i), (int64_t)(r.next() % (uint64_t)(2 * lim + 1)) - lim); });
    return;
  }
  size_t how = g.weighted({5, 55, 15, 25});
  pbt::Rng r(g.seed());
  int64_t lim = how == 1 ? std::max<int64_t>(amax, 4) : how == 2 ? INT32_MAX : 255;
  bias.each([&](const int* i) {
    int64_t v = how == 0 ? 0 : (int64_t)(r.next() % (uint64_t)(2 * lim + 1)) - lim;
    if (how == 2 && (r.next() & 3) == 0) v = (r.next() & 1) ? INT32_MAX : INT32_MIN;
    bias.seto(bias.off(i), v);
  });
}

// ---- requantisation of the accumulator
struct SaRatio { int64_t ratio; int shift; };
inline SaRatio sa_ratio(int in_scale, int in_frac, int out_scale, int out_frac) {
  int n = fx::norm(in_scale, 32);
  int64_t u = ((int64_t)in_scale << n) / out_scale;
  int n2 = fx::norm(u, 32);
  SaRatio r;
  r.ratio = fx::cast(u, 16 - n2, 32, 16);
  r.shift = in_frac + n - out_frac - (16 - n2);
  return r;
}
inline int64_t sa_bias_reduce(int64_t b) {
  if (fx::kFullAccu) return b;
  int sh = std::max(16 - fx::norm(b, 32), 0);
  return (b >> sh) << sh;
}
inline int64_t sa_result(int64_t acc, const SaRatio& r, int w_scale, int w_frac, int out_zp) {
  int64_t mul = r.ratio * w_scale;
  int shift = r.shift + w_frac;
  int pre = 0;
  if (!fx::kFullAccu) {
    int n = fx::norm(mul, 32);
    mul <<= n; shift += n;
    mul = (int64_t)fx::shr_rnd(mul, 16, 32); shift -= 16;
    pre = std::min(std::max(shift - 21, 0), 8);
    acc = (int64_t)fx::sat(fx::shr_rnd(acc, pre, 32), 16);
  }
  int64_t v = fx::cast((fx::i128)acc * mul, std::min(shift - pre, 63), 64, 16);
  v = (int64_t)fx::sat(v + out_zp, 16);
  return (int64_t)fx::sat(v, 8);
}

struct Quant {
  MathType m;
  int bias_shift = 0, out_shift = 0;  // fx
  SaRatio r{0, 0};
  const TT *in, *w, *bias, *out;
  void define(MathType mt, const TT& i, const TT& ww, const TT& b, const TT& o) {
    m = mt; in = &i; w = &ww; bias = &b; out = &o;
    if (m == SA8) r = sa_ratio(i.sc[0], i.sfb[0], o.sc[0], o.sfb[0]);
    else {
      int a = i.t.el_params.fx.frac_bits + ww.t.el_params.fx.frac_bits;
      bias_shift = a - b.t.el_params.fx.frac_bits;
      out_shift = a - o.t.el_params.fx.frac_bits;
    }
  }
  int accw() const { return m == FX16 ? 64 : 32; }
  int64_t add_bias(int64_t acc, int64_t b) const {
    if (m == SA8) return (int64_t)fx::sat((fx::i128)acc + sa_bias_reduce(b), 32);
    return (int64_t)fx::sat((fx::i128)acc + fx::shr_rnd(b, -bias_shift, accw()), accw());
  }
  int64_t result(int64_t acc, int ch) const {
    if (m == SA8) { size_t k = w->t.el_params.sa.dim < 0 ? 0 : (size_t)ch; return sa_result(acc, r, w->sc[k], w->sfb[k], out->zp[0]); }
    return fx::cast(acc, out_shift, accw(), 16);
  }
  // what the documentation promises, as a real number in units of the output element
  double real(double acc_with_bias, int ch) const {
    if (m == SA8) {
      size_t k = w->t.el_params.sa.dim < 0 ? 0 : (size_t)ch;
      return std::ldexp(acc_with_bias * in->sc[0] * w->sc[k] / out->sc[0], out->sfb[0] - in->sfb[0] - w->sfb[k]) + out->zp[0];
    }
    return std::ldexp(acc_with_bias, -out_shift);
  }
};
// chooses the output format so that results of magnitude amax use, underuse or overflow the output range
inline void gen_out_format(G& g, MathType m, const TT& in, const TT& w, TT& out, int64_t amax) {
  if (m == SA8) {
    int zp = gen_zp8(g), sc = gen_scale(g);
    // real multiplier in*w/out ~ 2^(7 - log2(amax) + d)
    int d = g.chance(75) ? (int)g.range(0, 4) - 2 : (int)g.range(0, 24) - 12;
    int want = 7 - ilog2(amax) + d;
    int have = ilog2(in.sc[0]) + ilog2(w.sc[0]) - ilog2(sc) - in.sfb[0] - w.sfb[0];
    int f = want - have;
    if (f > 127 || f < -128) f = f > 0 ? 127 : -128;
    set_sa(out, sc, f, zp);
  } else {
    int a = in.t.el_params.fx.frac_bits + w.t.el_params.fx.frac_bits;
    int d = g.chance(75) ? (int)g.range(0, 4) - 2 : (int)g.range(0, 40) - 20;
    int sh = std::max(0, ilog2(amax) - 15 + d);
    set_frac(out, std::max(-60, std::min(a - sh, a)));
  }
}
}  // namespace vt
