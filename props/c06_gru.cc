#include "rnn.h"
using namespace vt;
const char* pbt::g_rule = "A case is one GRU cell call on generated tensors; non-trivial: more than one time step or hidden element, and the result contains a value strictly inside the output range that is not the zero point.";
typedef mli_status (*GruFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_lut*, const mli_lut*, const mli_rnn_cell_cfg*, mli_tensor*);
static void gru(G& g, MathType m) {
  Rnn r = rnn_make(g, m, 3);
  Vec h = r.prev.values(), want, one = {(int64_t)fx::vmax(r.bits())};
  Fmt fh = fmt_of(r.prev), fo = fmt_of(r.out), fi, fs = sigm_fmt(r), ft = tanh_fmt(r);
  fi.scale = r.ir.scale; fi.frac = r.ir.frac; fi.zp = r.ir.zp;
  for (int s = 0; s < r.T; s++) {
    Vec x = row(r.in, r.backward ? r.T - 1 - s : s);
    Vec u = act_vec(r, true, gate_vec(g, r, 0, x, h, fh), fi);
    Vec rs = act_vec(r, true, gate_vec(g, r, 1, x, h, fh), fi);
    Vec hr = elt_vec(r, MUL, rs, fs, h, fh, fh);
    Vec keep = elt_vec(r, MUL, h, fh, u, fs, fh);
    u = elt_vec(r, SUB, one, fs, u, fs, fs);
    Vec n = act_vec(r, false, gate_vec(g, r, 2, x, hr, fh), fi);
    Vec t = elt_vec(r, MUL, n, ft, u, fs, fo);
    h = elt_vec(r, ADD, t, fo, keep, fh, fo);
    fh = fo;
    if (r.all || s == r.T - 1) want.insert(want.end(), h.begin(), h.end());
  }
  rnn_note(g, r, "gru");
  mli_rnn_cell_cfg cfg = rnn_cfg(r);
  static GruFn fns[] = {mli_krn_gru_cell_fx16, mli_krn_gru_cell_fx16_fx8_fx8, mli_krn_gru_cell_sa8_sa8_sa32};
  rnn_check(g, r, cfg, want, nullptr, [&] { return fns[m](&r.in.t, &r.prev.t, &r.wi.t, &r.wo.t, &r.b.t, &r.tan.l, &r.sig.l, &cfg, &r.out.t); }, "gru cell");
  bool mid = false;
  for (int64_t v : want) if (v != fo.zp && v < fx::vmax(r.bits()) && v > fx::vmin(r.bits())) mid = true;
  if (mid && (r.T > 1 || r.M > 1)) g.nontrivial();
}
static void a(G& g) { gru(g, FX16); }
static void b(G& g) { gru(g, FX16_FX8); }
static void c(G& g) { gru(g, SA8); }
PBT_SUB("gru_cell_fx16", 1, a);
PBT_SUB("gru_cell_fx16_fx8_fx8", 1, b);
PBT_SUB("gru_cell_sa8_sa8_sa32", 1, c);
