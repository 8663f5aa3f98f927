#include "pool.h"
using namespace vt;
const char* pbt::g_rule = "A case runs one computation through two entry points or formulations on the same generated operands and compares the results bit by bit; non-trivial: more than one tap per output and an output value strictly inside the output range.";
#define CONV3(p, a, b, c) {{p##_fx16, p##_fx16##a, p##_fx16##b, p##_fx16##c}, {p##_fx16_fx8_fx8, p##_fx16_fx8_fx8##a, p##_fx16_fx8_fx8##b, p##_fx16_fx8_fx8##c}, {p##_sa8_sa8_sa32, p##_sa8_sa8_sa32##a, p##_sa8_sa8_sa32##b, p##_sa8_sa8_sa32##c}}
static ConvFn kConv[4][3][4] = {CONV3(mli_krn_conv2d_hwcn, _k1x1, _k3x3, _k5x5), CONV3(mli_krn_depthwise_conv2d_hwcn, , _k3x3, _k5x5), CONV3(mli_krn_group_conv2d_hwcn, , _k3x3, _k5x5), CONV3(mli_krn_transpose_conv2d_hwcn, , _k2x2_str2, _k4x4_str2)};
enum { CONV = 0, DW = 1, GROUP = 2, TRANS = 3 };
typedef mli_status (*FcFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_fully_connected_cfg*, mli_tensor*);
static FcFn kFc[3] = {mli_krn_fully_connected_fx16, mli_krn_fully_connected_fx16_fx8_fx8, mli_krn_fully_connected_sa8_sa8_sa32};

// state of memory and descriptors after a call
struct State { std::vector<std::vector<uint8_t>> mem; std::vector<mli_tensor> t; };
static State capture(std::initializer_list<TT*> l) { State s; for (auto& b : world().blocks) s.mem.emplace_back(b.p, b.p + b.n); for (TT* x : l) s.t.push_back(x->t); return s; }
static void same_state(G& g, const State& a, const State& b, const char* what) {
  for (size_t i = 0; i < a.mem.size(); i++) if (a.mem[i] != b.mem[i]) {
    size_t k = 0; while (a.mem[i][k] == b.mem[i][k]) k++;
    g.fail("mismatch", "%s: byte %zu of '%s' is 0x%02x after the generic and 0x%02x after the specialised function", what, k, world().blocks[i].name, a.mem[i][k], b.mem[i][k]);
  }
  for (size_t i = 0; i < a.t.size(); i++) if (!same_tensor_struct(a.t[i], b.t[i])) g.fail("descriptor", "%s: descriptors of tensor %zu differ between the generic and the specialised function", what, i);
}
static void restore() { for (auto& b : world().blocks) memcpy(b.p, b.snap.data(), b.n); }
template <class F1, class F2> static void both(G& g, std::initializer_list<TT*> l, TT& out, F1 f1, F2 f2, const char* what) {
  mli_tensor t0 = out.t; world().snapshot();
  mli_status s1 = f1(); State a = capture(l);
  restore(); out.t = t0;
  mli_status s2 = f2(); State b = capture(l);
  if (s2 == MLI_STATUS_OK && s1 != MLI_STATUS_OK) g.fail("status", "%s: the specialised function accepts what the generic one rejects (%d)", what, (int)s1);
  if (s1 != MLI_STATUS_OK || s2 != MLI_STATUS_OK) g.fail("status", "%s: valid call returned status %d / %d", what, (int)s1, (int)s2);
  same_state(g, a, b, what);
}
static void tdim(G& g, int k, int fixs, int& in, int& out, int& s, int& p0, int& p1) {
  s = fixs ? fixs : (int)g.range(1, k); in = (int)g.small(1, 6);
  bool pad = g.chance(70); p0 = pad ? (int)g.range(0, k - 1) : 0; p1 = pad ? (int)g.range(0, k - 1) : 0;
  out = (in - 1) * s + k - p0 - p1;
  if (out < 1) { in += (1 - out + s - 1) / s; out = (in - 1) * s + k - p0 - p1; }
}
static Acc flat(const ConvCase& c, int groups) { return conv_acc(c.q, c.in, c.w, groups, c.m == SA8 ? c.in.zp[0] : 0); }
static Acc scatter(const ConvCase& c) {
  const Geo& q = c.q; int ci = c.in.dim(2), co = c.w.dim(3), z = c.m == SA8 ? c.in.zp[0] : 0;
  Acc a; a.v.assign((size_t)q.oh * q.ow * co, 0);
  for (int y = 0; y < q.ih; y++) for (int x = 0; x < q.iw; x++) for (int ky = 0; ky < q.kh; ky++) for (int kx = 0; kx < q.kw; kx++) {
    int oy = y * q.sh + ky - q.pt, ox = x * q.sw + kx - q.pl; if (oy < 0 || ox < 0 || oy >= q.oh || ox >= q.ow) continue;
    for (int k = 0; k < ci; k++) for (int o = 0; o < co; o++) a.v[((size_t)oy * q.ow + ox) * co + o] += (c.in.at(y, x, k) - z) * c.w.at(ky, kx, k, o);
  }
  for (auto v : a.v) a.amax = std::max<int64_t>(a.amax, std::abs(v));
  a.bound = (int64_t)q.kh * q.kw * ci << (c.m == SA8 ? 16 : c.m == FX16 ? 30 : 22);
  return a;
}
static void triv(G& g, ConvCase& c) { if (c.q.kh * c.q.kw * c.w.dim(2) > 1 && g.labels_.count("result inside range")) g.nontrivial(); }
// ------------------------------------------------------------------ specialised entry points
static void spec(G& g, MathType m) {
  world().reset(); ConvCase c; c.m = m; Geo& q = c.q; int kind = (int)g.weighted({35, 20, 20, 25});
  int sp = kind == CONV ? 1 + (int)g.draw(3) : 2 + (int)g.draw(2), k = kind == TRANS ? (sp - 1) * 2 : sp * 2 - 1;
  if (kind == TRANS) { q.kh = q.kw = k; q.dh = q.dw = 1; tdim(g, k, 2, q.ih, q.oh, q.sh, q.pt, q.pb); tdim(g, k, 2, q.iw, q.ow, q.sw, q.pl, q.pr); }
  else q = gen_geo(g, k, k, k > 3 ? 5 : 7);
  int vol = 30000 / (q.oh * q.ow * k * k), cg = gen_ch(g, 9, vol), og = gen_ch(g, 6, vol / cg), n = kind == GROUP ? gen_ch(g, 4, vol / cg / og) : kind == DW ? cg : 1;
  if (kind == DW) cg = og = 1;
  conv_make(g, c, cg * n, cg, og * n, [&](ConvCase& x) { return kind == TRANS ? scatter(x) : flat(x, n); });
  static const char* nm[] = {"conv2d", "depthwise", "group conv", "transpose conv"}; g.note("%s %dx%d", nm[kind], k, k);
  auto call = [&](int s) { return [&, s] { return kConv[kind][m][s](&c.in.t, &c.w.t, &c.b.t, &c.cfg, &c.out.t); }; };
  both(g, {&c.in, &c.w, &c.b, &c.out}, c.out, call(0), call(sp), nm[kind]);
  g.label(nm[kind]); triv(g, c);
}
static void s0(G& g) { spec(g, FX16); } static void s1(G& g) { spec(g, FX16_FX8); } static void s2(G& g) { spec(g, SA8); }
PBT_SUB("special_conv_fx16", 12, s0); PBT_SUB("special_conv_fx16_fx8_fx8", 12, s1); PBT_SUB("special_conv_sa8_sa8_sa32", 12, s2);
typedef mli_status (*PoolFn)(const mli_tensor*, const mli_pool_cfg*, mli_tensor*);
#define FNS(p) {{p##_fx8, p##_fx8_k2x2, p##_fx8_k3x3}, {p##_fx16, p##_fx16_k2x2, p##_fx16_k3x3}, {p##_sa8, p##_sa8_k2x2, p##_sa8_k3x3}}
static PoolFn kPool[2][3][3] = {FNS(mli_krn_maxpool_hwc), FNS(mli_krn_avepool_hwc)};
static const mli_element_type kType[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8};
static void pool(G& g) {
  world().reset(); bool avg = g.chance(50); int ty = (int)g.draw(3), sp = 1 + (int)g.draw(2); mli_element_type t = kType[ty];
  Geo q = gen_geo(g, sp + 1, sp + 1, 7, 4, 1); int ch = gen_ch(g, 6, 4000 / std::max(1, q.ih * q.iw));
  TT in = make(g, "in", t, shape({q.ih, q.iw, ch}), pick_mode(g), true, true), out = make(g, "out", t, shape({q.oh, q.ow, ch}), pick_mode(g), false, true);
  if (t == MLI_EL_SA_8) { set_sa(in, gen_scale(g), (int)g.range(10, 20), gen_zp8(g)); set_sa(out, gen_scale(g), (int)g.range(10, 20), gen_zp8(g)); }
  else { set_frac(in, (int)g.range(0, 15)); set_frac(out, (int)g.range(0, 15)); }
  fill(g, in); mli_pool_cfg cfg = pool_cfg(q);
  g.note("%s %s k%d ch %d", avg ? "avepool" : "maxpool", el_name(t), sp + 1, ch); note_geo(g, q); if (g.verbose()) g.note("%s; %s", in.desc().c_str(), out.desc().c_str());
  both(g, {&in, &out}, out, [&] { return kPool[avg][ty][0](&in.t, &cfg, &out.t); }, [&] { return kPool[avg][ty][sp](&in.t, &cfg, &out.t); }, "pooling");
  auto v = out.values(); for (auto x : v) if (x > fx::vmin(el_bits(t)) && x < fx::vmax(el_bits(t))) { g.nontrivial(); break; }
}
PBT_SUB("special_pool", 14, pool);
// ------------------------------------------------------------------ equivalent formulations
// a tensor of another shape and layout, of the same format, holding fn(index)
template <class F> static TT derive(G& g, const TT& x, const char* name, const Shape& s, bool frozen, F fn) {
  TT y = make(g, name, x.t.el_type, s, pick_mode(g), frozen, true); y.t.el_params = x.t.el_params; y.sc = x.sc; y.zp = x.zp; y.sfb = x.sfb;
  y.each([&](const int* i) { y.seto(y.off(i), fn(i)); });
  return y;
}
static std::vector<int64_t> go(G& g, ConvFn fn, TT& in, TT& w, TT& b, const mli_conv2d_cfg& cfg, TT& out, const char* what) {
  mli_tensor t0 = out.t; world().snapshot();
  mli_status st = fn(&in.t, &w.t, &b.t, &cfg, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "%s: valid call returned status %d", what, (int)st);
  expect_gaps(g, out, what); world().check_frozen(g, what); expect_desc(g, out, t0, what);
  return out.values();
}
static void equal(G& g, const std::vector<int64_t>& a, const std::vector<int64_t>& b, const char* what) {
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) g.fail("mismatch", "%s: element %zu is %lld in one formulation and %lld in the other", what, i, (long long)a[i], (long long)b[i]);
}
static TT blank(G& g, const TT& out, const Shape& s) { return derive(g, out, "second out", s, false, [](const int*) { return 0x55; }); }
static Shape shp(const TT& x) { Shape s; s.rank = x.rank(); for (int i = 0; i < 4; i++) s.d[i] = i < s.rank ? x.dim(i) : 0; return s; }
static void formul(G& g, MathType m) {
  world().reset(); ConvCase c; c.m = m; Geo& q = c.q;
  int rel = (int)g.weighted({15, 15, 15, 15, 15, 15, 15, 15, 15, 15});
  static const char* nm[] = {"depthwise / group conv with one channel per group", "group conv with one group / conv2d", "1x1 conv2d / fully connected", "conv2d over the whole input / fully connected", "transposed conv with stride 1 / conv2d with rotated kernel", "dilated conv / zero-stuffed kernel", "padded conv / padded input", "strided conv / sub-sampled output", "output channels one by one", "transposed conv / conv2d over zero-stuffed input"};
  const char* what = nm[rel]; int kind = rel == 0 ? DW : rel == 1 ? GROUP : rel == 4 || rel == 9 ? TRANS : (rel >= 5 && rel <= 7) ? (int)g.draw(3) : CONV;
  int cg = gen_ch(g, 5, 40), og = gen_ch(g, 4, 40), n = kind == GROUP && rel != 1 ? (int)g.small(1, 3) : 1;
  if (rel == 2) { q = gen_geo(g, 1, 1, 1, 1, 1); q.ih = q.iw = q.oh = q.ow = q.sh = q.sw = 1; }
  else if (rel == 3) { q = gen_geo(g, gen_k(g, 4), gen_k(g, 4), 1, 1, 1); q.ih = q.kh; q.iw = q.kw; q.pt = q.pb = q.pl = q.pr = 0; q.oh = q.ow = 1; }
  else if (kind == TRANS) { q.kh = gen_k(g, 5); q.kw = gen_k(g, 5); q.dh = q.dw = 1; tdim(g, q.kh, rel == 4 ? 1 : 0, q.ih, q.oh, q.sh, q.pt, q.pb); tdim(g, q.kw, rel == 4 ? 1 : 0, q.iw, q.ow, q.sw, q.pl, q.pr); }
  else q = gen_geo(g, gen_k(g, 4), gen_k(g, 4), 4);
  if (kind == DW) { n = cg; cg = og = 1; }
  conv_make(g, c, cg * n, cg, og * n, [&](ConvCase& x) { return kind == TRANS ? scatter(x) : flat(x, n); });
  g.note("%s", what); g.label(what);
  int co = og * n; TT& w = c.w; TT& in = c.in; ConvFn fn = kConv[kind][m][0];
  int64_t z = m == SA8 ? in.zp[0] : 0;
  std::vector<int64_t> r1, r2;
  mli_conv2d_cfg cfg = c.cfg;
  if (rel == 2 || rel == 3) {
    int N = q.kh * q.kw * cg;
    TT x = derive(g, in, "flat in", shape({N}), true, [&](const int* i) { return in.at(i[0] / cg / q.kw, i[0] / cg % q.kw, i[0] % cg); });
    TT y = make(g, "matrix", w.t.el_type, shape({N, co}), pick_mode(g), true); y.t.el_params = w.t.el_params; if (m == SA8 && w.t.el_params.sa.dim >= 0) y.t.el_params.sa.dim = 1;
    y.sc = w.sc; y.zp = w.zp; y.sfb = w.sfb; y.each([&](const int* i) { y.seto(y.off(i), w.at(i[0] / cg / q.kw, i[0] / cg % q.kw, i[0] % cg, i[1])); });
    TT out = make(g, "second out", c.out.t.el_type, shape({co}), DENSE, false, true); out.t.el_params = c.out.t.el_params; out.sc = c.out.sc; out.zp = c.out.zp; out.sfb = c.out.sfb;
    r1 = go(g, fn, in, w, c.b, cfg, c.out, what);
    mli_fully_connected_cfg fc; memset(&fc, 0, sizeof fc); fc.relu.type = c.relu;
    mli_tensor t0 = out.t; world().snapshot(); mli_status st = kFc[m](&x.t, &y.t, &c.b.t, &fc, &out.t);
    if (st != MLI_STATUS_OK) g.fail("status", "%s: valid call returned status %d", what, (int)st);
    expect_gaps(g, out, what); world().check_frozen(g, what); expect_desc(g, out, t0, what); r2 = out.values();
  } else if (rel == 8) {
    r1 = go(g, fn, in, w, c.b, cfg, c.out, what);
    int o = (int)g.draw((uint64_t)co), k = (int)g.range(1, co - o); Geo u = q;
    TT w2 = derive(g, w, "some filters", shape({q.kh, q.kw, cg, k}), true, [&](const int* i) { return w.at(i[0], i[1], i[2], i[3] + o); });
    TT b2 = make(g, "some biases", c.b.t.el_type, shape({k}), DENSE, true); b2.t.el_params = c.b.t.el_params; b2.each([&](const int* i) { b2.seto(b2.off(i), c.b.at(i[0] + o)); });
    if (m == SA8 && w.t.el_params.sa.dim >= 0) for (TT* x : {&w2, &b2}) { auto& p = x->t.el_params.sa; p.scale.mem.pi16 += o; p.zero_point.mem.pi16 += o; p.scale_frac_bits.mem.pi8 += o; p.scale.capacity = p.zero_point.capacity = (uint32_t)k * 2; p.scale_frac_bits.capacity = (uint32_t)k; }
    (void)u; TT out = blank(g, c.out, shape({q.oh, q.ow, k})); auto part = go(g, fn, in, w2, b2, cfg, out, what);
    for (int i = 0; i < q.oh * q.ow; i++) for (int j = 0; j < k; j++) r2.push_back(r1[(size_t)i * co + o + j]);
    r1 = part;
  } else if (rel == 7) {
    r1 = go(g, fn, in, w, c.b, cfg, c.out, what);
    Geo u = q; u.sh = u.sw = 1; u.oh = (q.oh - 1) * q.sh + 1; u.ow = (q.ow - 1) * q.sw + 1;
    TT out = blank(g, c.out, shape({u.oh, u.ow, co})); auto all = go(g, fn, in, w, c.b, conv_cfg(u, c.relu), out, what);
    for (int y = 0; y < q.oh; y++) for (int x = 0; x < q.ow; x++) for (int o = 0; o < co; o++) r2.push_back(all[((size_t)y * q.sh * u.ow + x * q.sw) * co + o]);
  } else {
    r1 = go(g, fn, in, w, c.b, cfg, c.out, what);
    TT out = blank(g, c.out, shp(c.out)); Geo u = q; TT in2 = in, w2 = w; ConvFn f2 = fn;
    if (rel == 0) f2 = kConv[GROUP][m][0];
    if (rel == 1) f2 = kConv[CONV][m][0];
    if (rel == 4 || rel == 9) {
      f2 = kConv[CONV][m][0]; u.sh = u.sw = 1; u.pt = q.kh - 1 - q.pt; u.pb = q.kh - 1 - q.pb; u.pl = q.kw - 1 - q.pl; u.pr = q.kw - 1 - q.pr;
      w2 = derive(g, w, "rotated weights", shp(w), true, [&](const int* i) { return w.at(q.kh - 1 - i[0], q.kw - 1 - i[1], i[2], i[3]); });
      if (rel == 9) { u.ih = (q.ih - 1) * q.sh + 1; u.iw = (q.iw - 1) * q.sw + 1; in2 = derive(g, in, "zero-stuffed in", shape({u.ih, u.iw, cg}), true, [&](const int* i) { return i[0] % q.sh || i[1] % q.sw ? z : in.at(i[0] / q.sh, i[1] / q.sw, i[2]); }); }
    }
    if (rel == 5) {
      u.kh = (q.kh - 1) * q.dh + 1; u.kw = (q.kw - 1) * q.dw + 1; u.dh = u.dw = 1;
      w2 = derive(g, w, "zero-stuffed weights", shape({u.kh, u.kw, w.dim(2), w.dim(3)}), true, [&](const int* i) { return i[0] % q.dh || i[1] % q.dw ? 0 : w.at(i[0] / q.dh, i[1] / q.dw, i[2], i[3]); });
    }
    if (rel == 6) {
      u.pt = (int)g.range(0, q.pt); u.pb = (int)g.range(0, q.pb); u.pl = (int)g.range(0, q.pl); u.pr = (int)g.range(0, q.pr); u.ih += q.pt - u.pt + q.pb - u.pb; u.iw += q.pl - u.pl + q.pr - u.pr;
      in2 = derive(g, in, "padded in", shape({u.ih, u.iw, in.dim(2)}), true, [&](const int* i) { int y = i[0] - (q.pt - u.pt), x = i[1] - (q.pl - u.pl); return y < 0 || x < 0 || y >= q.ih || x >= q.iw ? z : in.at(y, x, i[2]); });
    }
    r2 = go(g, f2, in2, w2, c.b, conv_cfg(u, c.relu), out, what);
  }
  equal(g, r1, r2, what);
  triv(g, c);
}
static void x0(G& g) { formul(g, FX16); } static void x1(G& g) { formul(g, FX16_FX8); } static void x2(G& g) { formul(g, SA8); }
PBT_SUB("formulations_fx16", 15, x0); PBT_SUB("formulations_fx16_fx8_fx8", 15, x1); PBT_SUB("formulations_sa8_sa8_sa32", 15, x2);
