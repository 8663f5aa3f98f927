#include "rnn.h"
using namespace vt;
const char* pbt::g_rule = "A case is one LSTM cell call on generated tensors; non-trivial: more than one time step or hidden element, and the result contains a value strictly inside the output range that is not the zero point.";
typedef mli_status (*LstmFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_lut*, const mli_lut*, const mli_rnn_cell_cfg*, mli_tensor*, mli_tensor*);
static void lstm(G& g, MathType m) {
  Rnn r = rnn_make(g, m, 4);
  Vec c = r.cell.values(), h = r.prev.values(), want;
  Fmt fh = fmt_of(r.prev), fc = fmt_of(r.cell), fo = fmt_of(r.out), fi, fs = sigm_fmt(r), ft = tanh_fmt(r);
  fi.scale = r.ir.scale; fi.frac = r.ir.frac; fi.zp = r.ir.zp;
  for (int s = 0; s < r.T; s++) {
    Vec x = row(r.in, r.backward ? r.T - 1 - s : s);
    Vec ig = act_vec(r, true, gate_vec(g, r, 0, x, h, fh), fi);
    Vec gg = act_vec(r, false, gate_vec(g, r, 1, x, h, fh), fi);
    Vec fg = act_vec(r, true, gate_vec(g, r, 2, x, h, fh), fi);
    Vec og = act_vec(r, true, gate_vec(g, r, 3, x, h, fh), fi);
    c = elt_vec(r, MUL, c, fc, fg, fs, fc);
    gg = elt_vec(r, MUL, gg, ft, ig, fs, ft);
    c = elt_vec(r, ADD, c, fc, gg, ft, fc);
    if (r.act == RNN_ACT_NONE) h = elt_vec(r, MUL, c, fc, og, fs, fo);
    else h = elt_vec(r, MUL, act_vec(r, r.act == RNN_ACT_SIGM, c, fc), r.act == RNN_ACT_SIGM ? fs : ft, og, fs, fo);
    fh = fo;
    if (r.all || s == r.T - 1) want.insert(want.end(), h.begin(), h.end());
  }
  rnn_note(g, r, "lstm");
  mli_rnn_cell_cfg cfg = rnn_cfg(r);
  static LstmFn fns[] = {mli_krn_lstm_cell_fx16, mli_krn_lstm_cell_fx16_fx8_fx8, mli_krn_lstm_cell_sa8_sa8_sa32};
  rnn_check(g, r, cfg, want, &c, [&] { return fns[m](&r.in.t, &r.prev.t, &r.wi.t, &r.wo.t, &r.b.t, &r.tan.l, &r.sig.l, &cfg, &r.cell.t, &r.out.t); }, "lstm cell");
  bool mid = false;
  for (int64_t v : want) if (v != fo.zp && v < fx::vmax(r.bits()) && v > fx::vmin(r.bits())) mid = true;
  if (mid && (r.T > 1 || r.M > 1)) g.nontrivial();
}
static void a(G& g) { lstm(g, FX16); }
static void b(G& g) { lstm(g, FX16_FX8); }
static void c(G& g) { lstm(g, SA8); }
PBT_SUB("lstm_cell_fx16", 1, a);
PBT_SUB("lstm_cell_fx16_fx8_fx8", 1, b);
PBT_SUB("lstm_cell_sa8_sa8_sa32", 1, c);
