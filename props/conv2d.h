// Geometry and reference accumulation of the 2D convolution family (HWC feature maps).
#pragma once
#include "convq.h"

namespace vt {
struct Geo { int ih, iw, oh, ow, kh, kw, sh, sw, dh, dw, pt, pb, pl, pr; };
// one dimension, valid by construction
inline void gen_dim(G& g, int k, int maxout, int maxstride, int maxdil, int& in, int& out, int& s, int& d, int& p0, int& p1) {
  size_t cls = g.weighted({96, 4});
  if (cls == 1) {  // rarely: strides, dilations and paddings over the whole range of their 8-bit fields
    d = maxdil == 1 ? 1 : (int)g.range(1, std::min(255, 300 / std::max(1, k - 1)));
    s = (int)g.range(1, 255);
    int eff = (k - 1) * d + 1, mp = std::min(eff - 1, 255);
    p0 = (int)g.range(0, mp); p1 = (int)g.range(0, mp);
    out = (int)g.range(1, 3);
    in = std::max(1, (out - 1) * s + eff - p0 - p1) + (int)g.range(0, 3);
    return;
  }
  d = g.chance(35) ? (int)g.range(1, maxdil) : 1;
  s = g.chance(10) ? (int)g.range(1, 2 * maxstride + 3) : (int)g.small(1, maxstride);
  int eff = (k - 1) * d + 1;
  bool pad = g.chance(70);
  p0 = pad ? (int)g.range(0, eff - 1) : 0;
  p1 = pad ? (int)g.range(0, eff - 1) : 0;
  out = (int)g.small(1, maxout);
  int need = (out - 1) * s + eff - p0 - p1;
  int extra = g.chance(40) ? (int)g.range(0, s + 1) : 0;
  in = std::max(1, need) + extra;
}
// channel-like size: usually small, sometimes beyond typical vector lengths; at most vol elements
inline int gen_ch(G& g, int typ, int vol) {
  size_t c = g.weighted({88, 9, 3});
  int hi = c == 0 ? typ : c == 1 ? 40 : 150;
  return (int)g.small(1, std::max(1, std::min(hi, std::max(typ, vol))));
}
inline int gen_k(G& g, int typ) { return g.chance(4) ? (int)g.range(1, 17) : (int)g.small(1, typ); }
inline Geo gen_geo(G& g, int kh, int kw, int maxout = 6, int maxstride = 3, int maxdil = 4) {
  Geo q; q.kh = kh; q.kw = kw;
  gen_dim(g, kh, maxout, maxstride, maxdil, q.ih, q.oh, q.sh, q.dh, q.pt, q.pb);
  gen_dim(g, kw, maxout, maxstride, maxdil, q.iw, q.ow, q.sw, q.dw, q.pl, q.pr);
  return q;
}
inline void note_geo(G& g, const Geo& q) {
  g.note("in %dx%d out %dx%d k %dx%d stride %d,%d dil %d,%d pad t%d b%d l%d r%d", q.ih, q.iw, q.oh, q.ow, q.kh, q.kw, q.sh, q.sw, q.dh, q.dw, q.pt, q.pb, q.pl, q.pr);
}
inline mli_conv2d_cfg conv_cfg(const Geo& q, mli_relu_type relu) {
  mli_conv2d_cfg c; memset(&c, 0, sizeof c);
  c.relu.type = relu;
  c.stride_width = (uint8_t)q.sw; c.stride_height = (uint8_t)q.sh;
  c.padding_left = (uint8_t)q.pl; c.padding_right = (uint8_t)q.pr; c.padding_top = (uint8_t)q.pt; c.padding_bottom = (uint8_t)q.pb;
  c.dilation_width = (uint8_t)q.dw; c.dilation_height = (uint8_t)q.dh;
  return c;
}
struct Acc { std::vector<int64_t> v; int64_t amax = 1, bound = 0; bool border = false; };
// weights [kh,kw,cin_per_group,cout]; cin_per_group==1 and groups==cin for depthwise
inline Acc conv_acc(const Geo& q, const TT& in, const TT& w, int groups, int izp) {
  Acc a;
  int cin = in.dim(2), cout = w.dim(3), cg = cin / groups, og = cout / groups;
  for (int y = 0; y < q.oh; y++) for (int x = 0; x < q.ow; x++) for (int o = 0; o < cout; o++) {
    int64_t s = 0, b = 0;
    for (int ky = 0; ky < q.kh; ky++) for (int kx = 0; kx < q.kw; kx++) {
      int iy = y * q.sh - q.pt + ky * q.dh, ix = x * q.sw - q.pl + kx * q.dw;
      if (iy < 0 || ix < 0 || iy >= q.ih || ix >= q.iw) { a.border = true; continue; }
      for (int c = 0; c < cg; c++) {
        int64_t xv = in.at(iy, ix, (o / og) * cg + c), wv = w.at(ky, kx, c, o);
        s += (xv - izp) * wv;
        b += std::abs(xv * wv) + std::abs(izp * wv);
      }
    }
    a.v.push_back(s);
    a.amax = std::max<int64_t>(a.amax, std::abs(s));
    a.bound = std::max(a.bound, b);
  }
  return a;
}
// expected outputs of the whole layer; also sanity-checks the model against the real-valued definition
inline std::vector<int64_t> conv_expect(G& g, const Acc& a, const Quant& q, const TT& bias, const TT& out, mli_relu_type relu, int cout) {
  Lim l = relu_limits(relu, out);
  std::vector<int64_t> r(a.v.size());
  bool any_mid = false, any_sat = false;
  for (size_t i = 0; i < a.v.size(); i++) {
    int ch = (int)(i % (size_t)cout);
    int64_t acc = q.add_bias(a.v[i], bias.at(ch));
    int64_t v = q.result(acc, ch);
    // the model itself must agree with the documented real-valued result
    if (q.m != SA8 || fx::kFullAccu) {
      double real = q.real((double)acc, ch), lim = (double)fx::vmax(el_bits(out.t.el_type));
      if (std::fabs(real) < lim && std::fabs(real - (double)v) > 1.0 + std::fabs(real) / 4096)
        g.fail("oracle", "model gives %lld for real value %g", (long long)v, real);
    }
    v = std::min(v, l.hi); v = std::max(v, l.lo);
    r[i] = v;
    if (v > l.lo && v < l.hi) any_mid = true; else any_sat = true;
  }
  if (any_mid) g.label("result inside range");
  if (any_sat) g.label("result at a limit");
  return r;
}

typedef mli_status (*ConvFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_conv2d_cfg*, mli_tensor*);
// operands of one call of the convolution family, with the expected output
struct ConvCase {
  Geo q; MathType m; TT in, w, b, out; mli_conv2d_cfg cfg; mli_relu_type relu;
  std::vector<int64_t> want; bool border = false;
};
template <class AccFn>
inline void conv_make(G& g, ConvCase& c, int ci, int wd, int co, AccFn accfn) {
  const Geo& q = c.q; MathType m = c.m;
  c.in = make(g, "in", in_type(m), shape({q.ih, q.iw, ci}), pick_mode(g), true, true);
  c.w = make(g, "weights", w_type(m), shape({q.kh, q.kw, wd, co}), pick_mode(g), true);
  c.b = make(g, "bias", b_type(m), shape({co}), DENSE, true);
  c.out = make(g, "out", in_type(m), shape({q.oh, q.ow, co}), pick_mode(g), false, true);
  gen_in_format(g, m, c.in);
  gen_w_format(g, m, c.in, c.w, c.b, 3, 0);
  fill(g, c.in); fill(g, c.w);
  Acc a = accfn(c);
  if (m != FX16 && a.bound >= INT32_MAX) g.discard();
  fill_bias(g, m, c.b, a.amax, m == SA8 ? 0 : c.in.t.el_params.fx.frac_bits + c.w.t.el_params.fx.frac_bits);
  gen_out_format(g, m, c.in, c.w, c.out, a.amax);
  c.relu = gen_relu(g);
  Quant qt; qt.define(m, c.in, c.w, c.b, c.out);
  c.want = conv_expect(g, a, qt, c.b, c.out, c.relu, co);
  c.cfg = conv_cfg(q, c.relu);
  c.border = a.border;
  note_geo(g, q);
  if (g.verbose()) g.note("%s relu %s; %s; %s; %s; %s", math_name(m), relu_name(c.relu), c.in.desc().c_str(), c.w.desc().c_str(), c.b.desc().c_str(), c.out.desc().c_str());
}
inline void conv_call(G& g, ConvCase& c, ConvFn fn, const char* what) {
  mli_tensor t0 = c.out.t, ti = c.in.t, tw = c.w.t, tb = c.b.t;
  mli_conv2d_cfg c0 = c.cfg;
  world().snapshot();
  mli_status st = fn(&c.in.t, &c.w.t, &c.b.t, &c.cfg, &c.out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "%s: valid call returned status %d", what, (int)st);
  expect_values(g, c.out, c.want, what);
  expect_gaps(g, c.out, what);
  world().check_frozen(g, what);
  expect_desc(g, c.out, t0, what); expect_desc(g, c.in, ti, what); expect_desc(g, c.w, tw, what); expect_desc(g, c.b, tb, what);
  if (memcmp(&c0, &c.cfg, sizeof c0)) g.fail("modified-input", "%s: configuration changed", what);
  if (c.border) g.label("has out-of-input taps");
  if (c.q.dh > 1 || c.q.dw > 1) g.label("dilated");
  if (c.q.kh * c.q.kw * c.w.dim(2) > 1 && g.labels_.count("result inside range")) g.nontrivial();
}
}  // namespace vt
