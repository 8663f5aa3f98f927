#include "pool.h"
using namespace vt;
const char* pbt::g_rule = "A case is one kernel call on generated tensors; non-trivial: more than one element, with elements on both sides of zero (the zero point) and at least two different outputs.";

typedef mli_status (*ReluFn)(const mli_tensor*, const mli_relu_cfg*, mli_tensor*);
typedef mli_status (*LeakyFn)(const mli_tensor*, const mli_tensor*, mli_tensor*);
typedef mli_status (*PreluFn)(const mli_tensor*, const mli_tensor*, const mli_prelu_cfg*, mli_tensor*);
static ReluFn kRelu[3] = {mli_krn_relu_fx8, mli_krn_relu_fx16, mli_krn_relu_sa8};
static LeakyFn kLeaky[3] = {mli_krn_leaky_relu_fx8, mli_krn_leaky_relu_fx16, mli_krn_leaky_relu_sa8};
static PreluFn kPrelu[3] = {mli_krn_prelu_fx8, mli_krn_prelu_fx16, mli_krn_prelu_sa8};
static const mli_element_type kType[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8};

static void gen_fmt(G& g, Fmt& f) { f.scale = gen_scale(g); f.zp = gen_zp8(g); f.frac = 16 + (g.chance(85) ? (int)g.range(0, 8) - 4 : (int)g.range(0, 60) - 30); }
static void common(G& g, TT& in, TT& out, mli_element_type t) {
  world().reset();
  Shape s = gen_shape(g);
  in = make(g, "in", t, s, pick_mode(g), true, true);
  if (g.chance(25)) { out = in; out.name = "out (in place)"; world().unfreeze(out.buf); g.label("in place"); }
  else out = make(g, "out", t, s, pick_mode(g), false, true);
}
static void finish(G& g, const TT& in, const TT& out, const std::vector<int64_t>& x, const std::vector<int64_t>& want, const mli_tensor& t0, const mli_tensor& ti, bool same, int64_t zero, const char* what) {
  expect_values(g, out, want, what); expect_gaps(g, out, what);
  world().check_frozen(g, what);
  expect_desc(g, out, t0, what);
  if (!same && memcmp(&ti, &in.t, sizeof ti)) g.fail("descriptor", "%s: the input descriptor changed", what);
  bool neg = false, pos = false, diff = false;
  for (size_t i = 0; i < x.size(); i++) { (x[i] < zero ? neg : pos) = true; if (want[i] != want[0]) diff = true; }
  if (neg && pos && diff) g.nontrivial();
}

static void relu(G& g, int ty) {
  mli_element_type t = kType[ty];
  TT in, out; common(g, in, out, t);
  Fmt f, j;
  if (t == MLI_EL_SA_8) {
    f.scale = gen_scale(g); f.zp = gen_zp8(g);
    // 1 and 6 in a visible place of the range, or anywhere
    f.frac = g.chance(70) ? (int)std::lround(std::log2((double)f.scale)) + (int)g.range(0, 8) - 2 : (int)g.range(0, 62);
    if (f.frac < 0) f.frac = 0;
    gen_fmt(g, j);
    set_sa(in, f.scale, f.frac, f.zp);
    set_sa(out, j.scale, j.frac, j.zp);  // to be overwritten
  } else {
    int fr = g.chance(80) ? (int)g.range(0, el_bits(t) - 1) : (int)g.range(0, 31);
    set_frac(in, fr); set_frac(out, (int)g.range(0, 15));
  }
  fill(g, in);
  mli_relu_cfg cfg; cfg.type = gen_relu(g);
  bool same = g.chance(5);  // one descriptor for both
  if (same) { out = in; world().unfreeze(out.buf); }
  Lim l = relu_limits(cfg.type, in);
  std::vector<int64_t> x = in.values(), want;
  for (auto v : x) want.push_back(std::min(std::max(v, l.lo), l.hi));
  g.note("relu %s type %s limits [%lld,%lld]", el_name(t), relu_name(cfg.type), (long long)l.lo, (long long)l.hi);
  if (g.verbose()) g.note("%s; %s", in.desc().c_str(), out.desc().c_str());
  mli_tensor t0 = out.t, ti = in.t; t0.el_params = in.t.el_params;
  world().snapshot();
  mli_status st = kRelu[ty](same ? &out.t : &in.t, &cfg, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  g.label(std::string("type ") + relu_name(cfg.type));
  finish(g, in, out, x, want, t0, ti, same, t == MLI_EL_SA_8 ? f.zp : 0, "relu");
}

struct SaSlope { int64_t scale; int shift; };
static SaSlope sa_identity(const Fmt& i, const Fmt& o) {
  Requant r = requant(i, o);
  SaSlope s{r.scale, r.shift};
  if (s.shift < 0) { s.scale = (int64_t)fx::shl(s.scale, -s.shift, 16); s.shift = 0; }
  return s;
}
static SaSlope sa_alpha(const SaSlope& id, int64_t a, const Fmt& fs) {
  int t; SaSlope s;
  int64_t al = norm_cast((a - fs.zp) * fs.scale, 16, &t);
  s.shift = id.shift + fs.frac - t;
  s.scale = norm_cast(id.scale * al, 16, &t); s.shift -= t;
  return s;
}

static void leaky(G& g, int ty, bool prelu) {
  mli_element_type t = kType[ty]; int bits = el_bits(t);
  TT in, out; common(g, in, out, t);
  int axis = -1;
  if (prelu) { if (g.chance(85)) axis = (int)g.range(0, in.rank() - 1); else if (g.chance(40)) axis = (int)g.range(-100000, -2); }
  TT sl;
  if (axis < 0) {
    if (g.chance(60)) sl = scalar(g, "slope", t);
    else { Shape u; u.rank = (int)g.range(1, 4); for (int i = 0; i < 4; i++) u.d[i] = i < u.rank ? 1 : 0; sl = make(g, "slope", t, u, DENSE, true); fill(g, sl); }
  } else {
    Shape u; u.rank = in.rank(); for (int i = 0; i < 4; i++) u.d[i] = i < u.rank ? (i == axis ? in.dim(i) : 1) : 0;
    sl = make(g, "slope", t, u, DENSE, true, true);
  }
  Fmt fi, fo, fs;
  if (t == MLI_EL_SA_8) {
    gen_fmt(g, fi); gen_fmt(g, fo); gen_fmt(g, fs);
    auto l2 = [](const Fmt& f) { return (int)std::lround(std::log2((double)f.scale)) - f.frac; };
    int d = g.chance(80) ? (int)g.range(0, 6) - 3 : (int)g.range(0, 60) - 30;  // log2 of out/in scale ratio
    fo.frac = std::max(-128, std::min(127, (int)std::lround(std::log2((double)fo.scale)) - l2(fi) + d));
    int e = g.chance(80) ? (int)g.range(0, 10) - 9 : (int)g.range(0, 60) - 30;  // log2 of the slope scale
    fs.frac = std::max(-128, std::min(127, (int)std::lround(std::log2((double)fs.scale)) - e));
    if (g.chance(10)) fs.zp = (int)g.range(-16384, 16383);
    set_sa(in, fi.scale, fi.frac, fi.zp); set_sa(out, fo.scale, fo.frac, fo.zp); set_sa(sl, fs.scale, fs.frac, fs.zp);
  } else {
    fi.frac = fo.frac = g.chance(80) ? (int)g.range(0, bits - 1) : (int)g.range(-20, 40);
    fs.frac = g.chance(80) ? (int)g.range(0, bits - 1) : (int)g.range(-20, 40);
    set_frac(in, fi.frac); set_frac(out, fo.frac); set_frac(sl, fs.frac);
  }
  fill(g, in);
  if (axis >= 0) fill(g, sl);
  std::vector<int64_t> x = in.values(), sv, want;
  if (sl.t.rank == 0) sv = {val0(sl)}; else sv = sl.values();
  int inner = 1; if (axis >= 0) for (int i = axis + 1; i < in.rank(); i++) inner *= in.dim(i);
  SaSlope id{1, 0}; if (t == MLI_EL_SA_8) id = sa_identity(fi, fo);
  bool mid = false;
  for (size_t i = 0; i < x.size(); i++) {
    int64_t a = axis < 0 ? sv[0] : sv[(i / inner) % in.dim(axis)], v;
    double real, tol;
    if (t == MLI_EL_SA_8) {
      SaSlope s = x[i] >= fi.zp ? id : sa_alpha(id, a, fs);
      v = (int64_t)fx::sat(fx::sat(fx::shr_rnd(s.scale * (x[i] - fi.zp), s.shift, 32) + fo.zp, 32), 8);
      double al = x[i] >= fi.zp ? 1 : std::ldexp((double)(a - fs.zp) * fs.scale, -fs.frac);
      double d = std::ldexp((double)(x[i] - fi.zp) * fi.scale / fo.scale, fo.frac - fi.frac) * al;
      real = d + fo.zp; tol = 0.51 + std::fabs(d) / 1024;
      if (id.scale == 32767) tol = 1e30;  // ratio beyond 2^15, saturated
    } else {
      int n = fs.frac; int64_t w = a;
      if (!prelu || axis < 0) if (t == MLI_EL_FX_16) { int k = fx::norm(a, 16); w = a << k; n += k; }
      n = std::min(n, 31);
      v = (int64_t)fx::sat(std::max<int64_t>(0, x[i]) + fx::cast(std::min<int64_t>(0, x[i]) * w, n, 32, bits), bits);
      real = x[i] >= 0 ? (double)x[i] : std::ldexp((double)x[i] * (double)a, -fs.frac); tol = 1.01;
    }
    if (std::fabs(real) < (double)fx::vmax(bits) && std::fabs(real - (double)v) > tol) g.fail("oracle", "model gives %lld for real value %g (x %lld slope %lld)", (long long)v, real, (long long)x[i], (long long)a);
    want.push_back(v);
    if (v > fx::vmin(bits) && v < fx::vmax(bits)) mid = true;
  }
  g.note("%s %s axis %d slopes %zu", prelu ? "prelu" : "leaky relu", el_name(t), axis, sv.size());
  if (g.verbose()) g.note("%s; %s; slope frac %d sc %d zp %d val0 %lld; %s", in.desc().c_str(), axis < 0 ? "" : sl.desc().c_str(), fs.frac, fs.scale, fs.zp, (long long)sv[0], out.desc().c_str());
  mli_tensor t0 = out.t, ti = in.t, ts = sl.t;
  world().snapshot();
  mli_prelu_cfg cfg; cfg.axis = axis;
  mli_status st = prelu ? kPrelu[ty](&in.t, &sl.t, &cfg, &out.t) : kLeaky[ty](&in.t, &sl.t, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  if (memcmp(&ts, &sl.t, sizeof ts)) g.fail("descriptor", "the slope descriptor changed");
  if (mid) g.label("result inside range");
  if (prelu) g.label(axis < 0 ? "axis whole tensor" : axis == in.rank() - 1 ? "axis innermost" : "axis outer");
  finish(g, in, out, x, want, t0, ti, false, t == MLI_EL_SA_8 ? fi.zp : 0, prelu ? "prelu" : "leaky relu");
}
static void relu8(G& g) { relu(g, 0); } PBT_SUB("relu_fx8", 1, relu8);
static void relu16(G& g) { relu(g, 1); } PBT_SUB("relu_fx16", 1, relu16);
static void relusa(G& g) { relu(g, 2); } PBT_SUB("relu_sa8", 2, relusa);
static void leaky8(G& g) { leaky(g, 0, false); } PBT_SUB("leaky_relu_fx8", 1, leaky8);
static void leaky16(G& g) { leaky(g, 1, false); } PBT_SUB("leaky_relu_fx16", 2, leaky16);
static void leakysa(G& g) { leaky(g, 2, false); } PBT_SUB("leaky_relu_sa8", 2, leakysa);
static void prelu8(G& g) { leaky(g, 0, true); } PBT_SUB("prelu_fx8", 1, prelu8);
static void prelu16(G& g) { leaky(g, 1, true); } PBT_SUB("prelu_fx16", 2, prelu16);
static void prelusa(G& g) { leaky(g, 2, true); } PBT_SUB("prelu_sa8", 3, prelusa);
