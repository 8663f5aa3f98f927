#include "conv2d.h"
#include "dense.h"
using namespace vt;
const char* pbt::g_rule = "A case is one kernel call on generated tensors; non-trivial: more than one input element per output, and the output contains at least one value strictly inside the output range.";

typedef mli_status (*FcFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_fully_connected_cfg*, mli_tensor*);
typedef mli_status (*RdFn)(const mli_tensor**, const mli_tensor**, const mli_tensor*, const mli_rnn_dense_cfg*, mli_tensor*);

// shape of rank 1..4 with about n elements
static Shape gen_shape(G& g, int n) {
  int r = (int)g.range(1, 4), d[4] = {1, 1, 1, 1}, left = n;
  for (int i = 0; i < r; i++) { d[i] = i == r - 1 ? left : (int)g.small(1, std::max(1, std::min(left, 12))); left = std::max(1, left / d[i]); }
  Shape s; s.rank = r; for (int i = 0; i < 4; i++) s.d[i] = i < r ? d[i] : 0;
  return s;
}
static int gen_n(G& g) { size_t c = g.weighted({70, 25, 5}); return (int)g.small(1, c == 0 ? 24 : c == 1 ? 200 : 2000); }
static int gen_m(G& g) { size_t c = g.weighted({80, 17, 3}); return (int)g.small(1, c == 0 ? 9 : c == 1 ? 40 : 300); }

static void fc(G& g, MathType m, bool ext) {
  world().reset();
  int n = gen_n(g), M = gen_m(g);
  TT in = make(g, "in", in_type(m), gen_shape(g, n), DENSE, true, true);
  n = (int)in.count();
  TT w = make(g, "weights", w_type(m), shape({n, M}), pick_mode(g), true);
  TT b = make(g, "bias", b_type(m), shape({M}), DENSE, true);
  TT out = make(g, "out", in_type(m), shape({M}), DENSE, false, true);
  gen_in_format(g, m, in);
  gen_w_format(g, m, in, w, b, 1, 0);
  fill(g, in); fill(g, w);
  int izp = m == SA8 && !ext ? in.zp[0] : 0;
  std::vector<int64_t> x = in.values();
  Acc a;
  for (int o = 0; o < M; o++) {
    int64_t s = 0, bd = 0;
    for (int i = 0; i < n; i++) { int64_t wv = w.at(i, o); s += (x[i] - izp) * wv; bd += std::abs(x[i] * wv) + std::abs(izp * wv); }
    a.v.push_back(s); a.amax = std::max<int64_t>(a.amax, std::abs(s)); a.bound = std::max(a.bound, bd);
  }
  if (m != FX16 && a.bound >= INT32_MAX) g.discard();
  fill_bias(g, m, b, a.amax, m == SA8 ? 0 : in.t.el_params.fx.frac_bits + w.t.el_params.fx.frac_bits);
  gen_out_format(g, m, in, w, out, a.amax);
  mli_relu_type relu = gen_relu(g);
  Quant qt; qt.define(m, in, w, b, out);
  std::vector<int64_t> want = conv_expect(g, a, qt, b, out, relu, M);
  mli_fully_connected_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.relu.type = relu;
  if (g.verbose()) g.note("%s%s relu %s; %s; %s; %s; %s", math_name(m), ext ? " ext_bias" : "", relu_name(relu), in.desc().c_str(), w.desc().c_str(), b.desc().c_str(), out.desc().c_str());
  else g.note("%s%s N %d M %d relu %s", math_name(m), ext ? " ext_bias" : "", n, M, relu_name(relu));
  static FcFn fns[] = {mli_krn_fully_connected_fx16, mli_krn_fully_connected_fx16_fx8_fx8, mli_krn_fully_connected_sa8_sa8_sa32};
  FcFn fn = ext ? mli_krn_fully_connected_sa8_sa8_sa32_ext_bias : fns[m];
  mli_tensor t0 = out.t, ti = in.t, tw = w.t, tb = b.t;
  world().snapshot();
  mli_status st = fn(&in.t, &w.t, &b.t, &cfg, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  expect_values(g, out, want, "fully connected"); expect_gaps(g, out, "fully connected");
  world().check_frozen(g, "fully connected");
  expect_desc(g, out, t0, "fully connected"); expect_desc(g, in, ti, "fully connected"); expect_desc(g, w, tw, "fully connected"); expect_desc(g, b, tb, "fully connected");
  if (n > 1 && g.labels_.count("result inside range")) g.nontrivial();
  if (in.rank() > 1) g.label("input of higher rank");
}

static void rd(G& g, MathType m) {
  world().reset();
  int K = (int)g.range(1, 4 /* MLI_RNN_MAX_INPUT */), M = gen_m(g);
  std::vector<TT> in(K), w(K);
  TT b = make(g, "bias", b_type(m), shape({M}), DENSE, true);
  TT out = make(g, "out", in_type(m), shape({M}), DENSE, false, true);
  int amaxlog = 0; int64_t amax0 = 1;
  static const char* names[] = {"in0", "in1", "in2", "in3", "in4", "in5", "in6", "in7"};
  for (int k = 0; k < K; k++) {
    in[k] = make(g, names[k & 7], in_type(m), gen_shape(g, gen_n(g)), DENSE, true);
    w[k] = make(g, "weights", w_type(m), shape({(int)in[k].count(), M}), pick_mode(g), true);
    gen_in_format(g, m, in[k]);
    if (m == SA8) {
      int f = (int)g.range(12, 24), f0 = f;
      if (k && g.chance(80)) f0 = in[0].sfb[0] + w[0].sfb[0] - in[k].sfb[0] + (int)g.range(0, 4) - 2;
      f = std::max(-20, std::min(60, k ? f0 : f));
      set_sa(w[k], gen_scale(g), f, 0);
      if (k == 0) {
        int64_t p = (int64_t)in[0].sc[0] * w[0].sc[0]; int sh = 0;
        while (((p >> sh) + 1) > 32767) sh++;
        set_sa(b, (int)std::max<int64_t>(1, fx::cast(p, sh, 32, 16)), in[0].sfb[0] + f - sh, 0);
      }
    } else {
      int top = m == FX16 ? 15 : 7;
      set_frac(w[k], g.chance(8) ? (int)g.range(-3, 20) : (int)g.around(0, top, top));
      if (k == 0) {
        int acc = in[0].t.el_params.fx.frac_bits + w[0].t.el_params.fx.frac_bits;
        int f = g.chance(15) ? acc - (int)g.range(0, 30) : (int)g.range(0, std::max(0, std::min(acc, top)));
        set_frac(b, std::max(-20, std::min(f, acc)));
      }
    }
    fill(g, in[k]); fill(g, w[k]);
    auto x = in[k].values();
    int64_t am = 1;
    for (int o = 0; o < M; o++) { int64_t s = 0; for (size_t i = 0; i < x.size(); i++) s += (x[i] - (m == SA8 ? in[k].zp[0] : 0)) * w[k].at((int)i, o); am = std::max(am, std::abs(s)); }
    if (k == 0) amax0 = am;
    int lg = m == SA8 ? 0 : ilog2(am) - in[k].t.el_params.fx.frac_bits - w[k].t.el_params.fx.frac_bits;
    amaxlog = k ? std::max(amaxlog, lg) : lg;
  }
  fill_bias(g, m, b, amax0, m == SA8 ? 0 : in[0].t.el_params.fx.frac_bits + w[0].t.el_params.fx.frac_bits);
  if (m == SA8) gen_out_format(g, m, in[0], w[0], out, amax0 * (g.chance(50) ? 1 : K));
  else {
    int f = 15 - amaxlog + (g.chance(75) ? (int)g.range(0, 4) - 2 : (int)g.range(0, 40) - 20);
    for (int k = 0; k < K; k++) f = std::min(f, in[k].t.el_params.fx.frac_bits + w[k].t.el_params.fx.frac_bits);
    set_frac(out, std::max(-60, f));
  }
  std::vector<int64_t> want(M);
  int W = m == FX16 ? 64 : 32;
  bool mid = false, lim = false;
  DenseOut o; if (m == SA8) { o.scale = out.sc[0]; o.frac = out.sfb[0]; o.zp = out.zp[0]; } else o.frac = out.t.el_params.fx.frac_bits;
  std::vector<DenseIn> d(K);
  for (int k = 0; k < K; k++) {
    d[k].m = m; d[k].x = in[k].values();
    if (m == SA8) { d[k].in_scale = in[k].sc[0]; d[k].in_frac = in[k].sfb[0]; d[k].in_zp = in[k].zp[0]; d[k].w_scale = w[k].sc[0]; d[k].w_frac = w[k].sfb[0]; }
    else { d[k].in_frac = in[k].t.el_params.fx.frac_bits; d[k].w_frac = w[k].t.el_params.fx.frac_bits; }
  }
  for (int i = 0; i < M; i++) {
    fx::i128 sum = 0;
    for (int k = 0; k < K; k++) sum = fx::sat(sum + dense_ir(d[k], o, [&](size_t j) { return w[k].at((int)j, i); }, k == 0, b.at(i), m == SA8 ? 0 : b.t.el_params.fx.frac_bits), W);
    want[i] = dense_final(m, sum, o);
    (want[i] == fx::vmax(el_bits(in_type(m))) || want[i] == fx::vmin(el_bits(in_type(m))) ? lim : mid) = true;
  }
  for (int k = 0; k < K; k++) if (d[k].bound >= dense_bound_limit(m)) g.discard();
  mli_rnn_dense_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.inputs_num = (uint8_t)K;
  g.note("rnn_dense %s %d inputs M %d", math_name(m), K, M);
  std::vector<const mli_tensor*> pi, pw; std::vector<mli_tensor> ci, cw;
  for (int k = 0; k < K; k++) {
    pi.push_back(&in[k].t); pw.push_back(&w[k].t); ci.push_back(in[k].t); cw.push_back(w[k].t);
    if (g.verbose()) g.note("%s; %s", in[k].desc().c_str(), w[k].desc().c_str());
  }
  if (g.verbose()) g.note("%s; %s", b.desc().c_str(), out.desc().c_str());
  static RdFn fns[] = {mli_krn_rnn_dense_fx16, mli_krn_rnn_dense_fx16_fx8_fx8, mli_krn_rnn_dense_sa8_sa8_sa32};
  mli_tensor t0 = out.t;
  world().snapshot();
  mli_status st = fns[m](pi.data(), pw.data(), &b.t, &cfg, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  expect_values(g, out, want, "rnn dense"); expect_gaps(g, out, "rnn dense");
  world().check_frozen(g, "rnn dense");
  expect_desc(g, out, t0, "rnn dense");
  for (int k = 0; k < K; k++) { expect_desc(g, in[k], ci[k], "rnn dense"); expect_desc(g, w[k], cw[k], "rnn dense"); }
  if (mid) { g.label("result inside range"); if (in[0].count() > 1) g.nontrivial(); }
  if (lim) g.label("result at a limit");
  if (K > 1) g.label("several inputs");
}
static void fc0(G& g) { fc(g, FX16, false); }
static void fc1(G& g) { fc(g, FX16_FX8, false); }
static void fc2(G& g) { fc(g, SA8, false); }
static void fc3(G& g) { fc(g, SA8, true); }
static void rd0(G& g) { rd(g, FX16); }
static void rd1(G& g) { rd(g, FX16_FX8); }
static void rd2(G& g) { rd(g, SA8); }
PBT_SUB("fully_connected_fx16", 1, fc0);
PBT_SUB("fully_connected_fx16_fx8_fx8", 1, fc1);
PBT_SUB("fully_connected_sa8_sa8_sa32", 1, fc2);
PBT_SUB("fully_connected_sa8_sa8_sa32_ext_bias", 1, fc3);
PBT_SUB("rnn_dense_fx16", 1, rd0);
PBT_SUB("rnn_dense_fx16_fx8_fx8", 1, rd1);
PBT_SUB("rnn_dense_sa8_sa8_sa32", 1, rd2);
