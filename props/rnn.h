// Shared by the recurrent cells: operands, their formats, and the steps of the documented data flow.
#pragma once
#include "dense.h"
#include "elt.h"
#include "lut.h"
namespace vt {
typedef std::vector<int64_t> Vec;
struct Rnn {
  MathType m; int gates, N, M, T; bool all, backward, per_axis; mli_rnn_out_activation act;
  TT in, prev, wi, wo, b, cell, out, scratch;
  Lut sig, tan;
  DenseOut ir;                    // format of the gates before the non-linearity
  bool sa() const { return m == SA8; }
  int bits() const { return el_bits(in_type(m)); }
};
inline Fmt fmt_of(const TT& x) {
  Fmt f;
  if (x.t.el_type == MLI_EL_SA_8) { f.scale = x.sc[0]; f.frac = x.sfb[0]; f.zp = x.zp[0]; }
  else f.frac = x.t.el_params.fx.frac_bits;
  return f;
}
inline Fmt sigm_fmt(const Rnn& r) { Fmt f; if (r.sa()) { f.frac = 8; f.zp = -128; } else f.frac = r.bits() - 1; return f; }
inline Fmt tanh_fmt(const Rnn& r) { Fmt f; f.frac = r.sa() ? 7 : r.bits() - 1; return f; }
inline Vec act_vec(const Rnn& r, bool is_sigm, const Vec& x, const Fmt& f) {
  Vec y;
  for (int64_t v : x)
    y.push_back(r.sa() ? lut_sa(is_sigm ? r.sig : r.tan, v, f.zp, f.scale, f.frac, is_sigm ? -128 : 0, is_sigm ? 8 : 7)
                       : lut_fx(is_sigm ? r.sig : r.tan, v, f.frac, r.bits()));
  return y;
}
inline Vec elt_vec(const Rnn& r, EltOp op, const Vec& a, const Fmt& fa, const Vec& b, const Fmt& fb, const Fmt& fo) {
  Vec y; EltSa p; if (r.sa()) p = elt_sa_params(op, fa, fb, fo);
  size_t n = std::max(a.size(), b.size());
  for (size_t i = 0; i < n; i++) {
    int64_t u = a.size() == 1 ? a[0] : a[i], v = b.size() == 1 ? b[0] : b[i];
    y.push_back(r.sa() ? elt_sa(op, p, u, fa, v, fb, fo) : elt_fx(op, r.bits(), u, fa.frac, v, fb.frac, fo.frac));
  }
  return y;
}
// one gate: W_in x + W_out h + b in the intermediate format
inline Vec gate_vec(G& g, const Rnn& r, int gate, const Vec& x, const Vec& h, const Fmt& fh) {
  DenseIn d[2]; Fmt fx_ = fmt_of(r.in);
  for (int k = 0; k < 2; k++) {
    const Fmt& f = k ? fh : fx_; const TT& w = k ? r.wo : r.wi;
    d[k].m = r.m; d[k].x = k ? h : x; d[k].in_frac = f.frac;
    if (r.sa()) { size_t q = r.per_axis ? gate : 0; d[k].in_scale = f.scale; d[k].in_zp = f.zp; d[k].w_scale = w.sc[q]; d[k].w_frac = w.sfb[q]; }
    else d[k].w_frac = w.t.el_params.fx.frac_bits;
  }
  Vec y; int W = r.m == FX16 ? 64 : 32;
  for (int o = 0; o < r.M; o++) {
    fx::i128 s = 0;
    for (int k = 0; k < 2; k++)
      s = fx::sat(s + dense_ir(d[k], r.ir, [&](size_t j) { return (k ? r.wo : r.wi).at(gate, (int)j, o); }, k == 0, r.b.at(gate, o), r.sa() ? 0 : r.b.t.el_params.fx.frac_bits), W);
    y.push_back(dense_final(r.m, s, r.ir));
  }
  if (std::max(d[0].bound, d[1].bound) >= dense_bound_limit(r.m)) g.discard();
  return y;
}
// generates everything except the model
inline Rnn rnn_make(G& g, MathType m, int gates, bool reset = true) {
  if (reset) world().reset();
  Rnn r; r.m = m; r.gates = gates;
  r.sig = make_lut(g, "sigmoid table", mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut);
  r.tan = make_lut(g, "tanh table", mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut);
  r.N = (int)g.small(1, g.chance(95) ? 16 : 120); r.M = (int)g.small(1, g.chance(95) ? 9 : 48); r.T = (int)g.small(1, g.chance(90) ? 5 : 14);
  r.all = g.chance(50); r.backward = g.chance(40);
  r.act = g.pick<mli_rnn_out_activation>({RNN_ACT_NONE, RNN_ACT_TANH, RNN_ACT_SIGM});
  r.in = make(g, "in", in_type(m), shape({r.T, r.N}), DENSE, true, true);
  r.prev = make(g, "prev_out", in_type(m), shape({r.M}), DENSE, true, true);
  r.wi = make(g, "weights_in", w_type(m), shape({gates, r.N, r.M}), pick_mode(g), true);
  r.wo = make(g, "weights_out", w_type(m), shape({gates, r.M, r.M}), pick_mode(g), true);
  r.b = make(g, "bias", b_type(m), shape({gates, r.M}), pick_mode(g), true);
  r.cell = make(g, "cell", in_type(m), shape({r.M}), DENSE, false, true);
  // the output tensor may come with any contiguous shape that fits its memory
  int rows = r.all ? r.T : 1;
  r.out = make(g, "out", in_type(m), shape({rows, r.M}), DENSE, false, true);
  r.scratch = make(g, "scratch", in_type(m), shape({gates, r.M}), DENSE, false, true);
  r.per_axis = m == SA8 && g.chance(60);
  bool wild = g.chance(10);
  if (m == SA8) {
    r.ir.zp = 0;
    auto l2 = [](double v) { return (int)std::lround(std::log2(v)); };
    auto format = [&](TT& x, int lo, int hi) {  // real range about 2^lo..2^hi
      int s = gen_scale(g), k = (int)g.range(lo, hi);
      set_sa(x, s, std::max(-20, std::min(60, l2(s) + 7 - k + (wild ? (int)g.range(0, 12) - 6 : 0))), gen_zp8(g));
    };
    format(r.in, -1, 3); format(r.prev, -1, 1); format(r.cell, -1, 3); format(r.out, -1, 1);
    int n = r.per_axis ? gates : 1;
    std::vector<int16_t> si, so, sb, z(n, 0); std::vector<int8_t> fi, fo, fb;
    int ki = (int)g.range(0, 5) - 3 - l2(std::sqrt((double)r.N)), ko = (int)g.range(0, 5) - 3 - l2(std::sqrt((double)r.M));
    for (int i = 0; i < n; i++) {
      int s = gen_scale(g), f = l2(s) + 7 - ki + (wild ? (int)g.range(0, 12) - 6 : 0); si.push_back((int16_t)s); fi.push_back((int8_t)f);
      int s2 = gen_scale(g), f2 = l2(s2) + 7 - ko; so.push_back((int16_t)s2); fo.push_back((int8_t)f2);
      int64_t p = (int64_t)r.in.sc[0] * s; int sh = 0;
      while (((p >> sh) + 1) > 32767) sh++;
      sb.push_back((int16_t)std::max<int64_t>(1, fx::cast(p, sh, 32, 16))); fb.push_back((int8_t)(r.in.sfb[0] + f - sh));
    }
    if (r.per_axis) { set_sa_axis(r.wi, 0, si, fi, z); set_sa_axis(r.wo, 0, so, fo, z); set_sa_axis(r.b, 0, sb, fb, z); g.label("per-gate scales"); }
    else { set_sa(r.wi, si[0], fi[0], 0); set_sa(r.wo, so[0], fo[0], 0); set_sa(r.b, sb[0], fb[0], 0); }
  } else {
    set_frac(r.in, (int)g.range(8, 15)); set_frac(r.prev, (int)g.range(10, 15)); set_frac(r.cell, (int)g.range(9, 15)); set_frac(r.out, (int)g.range(10, 15));
    int top = m == FX16 ? 15 : 7;
    set_frac(r.wi, top - (int)g.range(0, 4) + ilog2(r.N) / 2); set_frac(r.wo, top - (int)g.range(0, 4) + ilog2(r.M) / 2);
    if (wild) { set_frac(r.in, (int)g.range(0, 20)); set_frac(r.cell, (int)g.range(0, 20)); }
  }
  if (m == SA8) { if (gates == 4) { r.ir.scale = 1; r.ir.frac = 4; } else { r.ir.scale = 21; r.ir.frac = 9; } }
  else {
    r.ir.frac = std::min(gates == 4 ? 10 : 11, r.in.t.el_params.fx.frac_bits + r.wi.t.el_params.fx.frac_bits);
    // the intermediate format must not be finer than the products
    int need = r.ir.frac - r.wo.t.el_params.fx.frac_bits;
    if (r.prev.t.el_params.fx.frac_bits < need) set_frac(r.prev, need);
    if (r.out.t.el_params.fx.frac_bits < need) set_frac(r.out, need);
    int acc = r.in.t.el_params.fx.frac_bits + r.wi.t.el_params.fx.frac_bits, top = m == FX16 ? 15 : 7;
    set_frac(r.b, g.chance(80) ? std::min(acc, top - (int)g.range(0, 3)) : std::min(acc, (int)g.range(0, 25)));
  }
  fill(g, r.in); fill(g, r.prev); fill(g, r.wi); fill(g, r.wo); fill(g, r.cell);
  if (m == SA8) {
    int64_t lim = std::max<int64_t>(4, 4000 * (int64_t)ilog2(r.N)); if (g.chance(10)) lim = INT32_MAX / 4;
    pbt::Rng rr(g.seed());
    r.b.each([&](const int* i) { r.b.seto(r.b.off(i), (int64_t)(rr.next() % (uint64_t)(2 * lim + 1)) - lim); });
  } else fill(g, r.b);
  return r;
}
inline mli_rnn_cell_cfg rnn_cfg(const Rnn& r) {
  mli_rnn_cell_cfg c; memset(&c, 0, sizeof c);
  c.direction = r.backward ? RNN_DIR_BACKWARD : RNN_DIR_FORWARD;
  c.results = r.all ? RNN_OUT_ALL : RNN_OUT_LAST;
  c.act = r.act; c.scratch_data = r.scratch.t.data;
  return c;
}
inline Vec row(const TT& x, int t) { Vec v; for (int i = 0; i < x.dim(1); i++) v.push_back(x.at(t, i)); return v; }
// after the call: results, untouched operands, output descriptor
template <class F>
inline void rnn_check(G& g, Rnn& r, mli_rnn_cell_cfg& cfg, const Vec& want, const Vec* want_cell, F call, const char* what) {
  int rows = r.all ? r.T : 1;
  mli_tensor a[] = {r.in.t, r.prev.t, r.wi.t, r.wo.t, r.b.t, r.cell.t}, o0 = r.out.t; mli_rnn_cell_cfg c0 = cfg; mli_lut l0 = r.sig.l, l1 = r.tan.l;
  // let the descriptor arrive with another contiguous shape
  if (g.chance(35)) {
    r.out.t.rank = (uint32_t)g.range(1, 3);
    for (uint32_t i = 0; i < r.out.t.rank; i++) { r.out.t.shape[i] = i + 1 == r.out.t.rank ? (uint32_t)g.range(1, rows * r.M) : 1; r.out.t.mem_stride[i] = 1; }
    for (int i = (int)r.out.t.rank - 2; i >= 0; i--) r.out.t.mem_stride[i] = (int)r.out.t.shape[i + 1] * r.out.t.mem_stride[i + 1];
    g.label("output arrives with another shape");
  }
  world().snapshot();
  mli_status st = call();
  if (st != MLI_STATUS_OK) g.fail("status", "%s: valid call returned status %d", what, (int)st);
  expect_desc(g, r.out, o0, what);
  expect_values(g, r.out, want, what); expect_gaps(g, r.out, what);
  if (want_cell) { expect_values(g, r.cell, *want_cell, "cell state"); expect_gaps(g, r.cell, "cell state"); }
  expect_gaps(g, r.scratch, "scratch");
  world().check_frozen(g, what);
  const TT* p[] = {&r.in, &r.prev, &r.wi, &r.wo, &r.b, &r.cell};
  for (int i = 0; i < 6; i++) expect_desc(g, *p[i], a[i], what);
  if (memcmp(&c0, &cfg, sizeof cfg) || memcmp(&l0, &r.sig.l, sizeof l0) || memcmp(&l1, &r.tan.l, sizeof l1)) g.fail("descriptor", "%s: configuration or table descriptor changed", what);
}
inline void rnn_note(G& g, const Rnn& r, const char* what) {
  g.note("%s %s T %d N %d M %d %s %s act %d%s", what, math_name(r.m), r.T, r.N, r.M, r.all ? "all" : "last", r.backward ? "backward" : "forward", (int)r.act, r.per_axis ? " per-gate" : "");
  if (g.verbose()) for (const TT* x : {&r.in, &r.prev, &r.wi, &r.wo, &r.b, &r.cell, &r.out}) g.note("%s", x->desc().c_str());
  if (r.backward) g.label("backward");
  if (r.T > 1) g.label("several steps");
}
}  // namespace vt
