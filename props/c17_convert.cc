#include "pool.h"
#include "mli_helpers_api.h"
using namespace vt;
const char* pbt::g_rule = "A case is one conversion call (round trips count both calls); non-trivial: the formats differ and the source holds at least two different values.";

static bool sa(mli_element_type t) { return t == MLI_EL_SA_8 || t == MLI_EL_SA_32; }
static bool fl(mli_element_type t) { return t == MLI_EL_FP_32; }
static float getf(const TT& x, const int* i) { float f; memcpy(&f, x.data() + x.off(i) * 4, 4); return f; }
static void setf(TT& x, const int* i, float f) { memcpy(x.data() + x.off(i) * 4, &f, 4); }

// axis: -2 anything, -1 per tensor, else that axis
static int params(G& g, TT& x, int axis, int narrow) {
  int lo = narrow ? -4 : -128, hi = narrow ? 24 : 127;
  if (fl(x.t.el_type)) return -1;
  if (!sa(x.t.el_type)) { set_frac(x, (int)g.range(lo, hi)); return -1; }
  if (axis == -2 ? g.chance(50) : axis >= 0 && g.chance(50)) {
    int d = axis >= 0 ? axis : (int)g.range(0, x.rank() - 1); size_t n = x.dim(d);
    std::vector<int16_t> sc, zp; std::vector<int8_t> fr; pbt::Rng r(g.seed());
    int base = (int)g.range(lo, hi), sp = narrow ? 3 : (int)g.range(0, 12), norm = g.chance(70);
    for (size_t i = 0; i < n; i++) {
      sc.push_back((int16_t)(norm ? 16384 + r.next() % 16384 : 1 + r.next() % 32767));
      zp.push_back((int16_t)(x.t.el_type == MLI_EL_SA_32 && !(r.next() & 3) ? (int16_t)r.next() : (int)(r.next() % 256) - 128));
      int f = base + (int)(r.next() % (unsigned)(2 * sp + 1)) - sp;
      fr.push_back((int8_t)std::min(std::max(f, -128), 127));
    }
    set_sa_axis(x, d, sc, fr, zp);
    return d;
  }
  set_sa(x, gen_scale(g), (int)g.range(lo, hi), x.t.el_type == MLI_EL_SA_32 && g.chance(30) ? (int)g.range(-32768, 32767) : gen_zp8(g));
  return -1;
}
static Fmt fmt(const TT& x, const int* i) {
  Fmt f;
  if (fl(x.t.el_type)) return f;
  if (!sa(x.t.el_type)) { f.frac = x.t.el_params.fx.frac_bits; return f; }
  int k = x.t.el_params.sa.dim >= 0 ? i[x.t.el_params.sa.dim] : 0;
  f.scale = x.sc[k]; f.frac = x.sfb[k]; f.zp = x.zp[k];
  return f;
}
static double sat(double v, int bits) { return std::min(std::max(v, (double)fx::vmin(bits)), (double)fx::vmax(bits)); }

// fixed point and asymmetric formats
static int64_t safx(int64_t x, const Fmt& a, const Fmt& b, int obits, bool wide) {
  Requant r = requant(a, b);
  int W = wide ? 64 : 32, sh = std::min(r.shift, W - 1);
  if (!wide) {
    int64_t v = (int64_t)fx::sat(x - a.zp, 16);
    fx::i128 p = fx::shr_rnd(v * r.scale, sh, 32);
    return (int64_t)fx::sat(fx::sat(p + b.zp, 32), obits);
  }
  int64_t v = (int64_t)fx::sat((fx::i128)x - a.zp, 32);
  int n = fx::norm(v, 32); v <<= n;
  int sn = fx::norm(r.scale, 32); int64_t s = r.scale << sn;
  int64_t hi = (v * s) >> 32;
  fx::i128 p = fx::shr_rnd(hi, sh + sn + n - 32, 32);
  return (int64_t)fx::sat(fx::sat(p + b.zp, 32), obits);
}
static int64_t quant(float x, const Fmt& b, int obits) {
  float sv = (float)ldexp((double)(1.0f / (float)b.scale), b.frac);
  volatile float p = x * sv;
  double v = std::trunc((double)p + (p > 0 ? 0.5 : -0.5));  // nearest, ties away from zero
  if (std::fabs((double)p) < 8388608.0) { volatile float q = p + (x > 0 ? 0.5f : -0.5f); v = std::trunc((double)q); }
  fx::i128 i = std::fabs(v) >= 4e9 ? (v > 0 ? (fx::i128)1 << 40 : -((fx::i128)1 << 40)) : (fx::i128)v;
  return (int64_t)fx::sat(fx::sat(fx::sat(i, 32) + b.zp, 32), obits);
}
static float dequant(int64_t x, const Fmt& a) {
  float sv = (float)ldexp((double)(float)a.scale, -a.frac);
  return (float)(int64_t)fx::sat((fx::i128)x - a.zp, 32) * sv;
}
static void fill_float(G& g, TT& x, const TT& to) {
  size_t pat = g.weighted({10, 40, 20, 15, 15});
  pbt::Rng r(g.seed());
  x.each([&](const int* i) {
    float f = 0; Fmt b = fmt(to, i);
    double unit = std::ldexp((double)b.scale, -b.frac), u = (double)(int64_t)r.next() / 9.3e18;
    int bits = fl(to.t.el_type) ? 16 : el_bits(to.t.el_type);
    switch (pat) {
      case 0: f = 0; break;
      case 1: f = (float)(u * 1.2 * std::ldexp(unit, bits - 1)); break;                 // about the whole range
      case 2: f = (float)(unit * ((int)(r.next() % 64) - 32 + 0.5)); break;             // ties
      case 3: f = (float)(u * std::ldexp(1.0, (int)(r.next() % 160) - 80)); break;      // any magnitude
      case 4: f = (float)(unit * (double)((int64_t)r.next() >> (64 - bits))); break;    // representable values
    }
    if (!std::isfinite(f)) f = 0;
    setf(x, i, f);
  });
}
static std::string fdesc(const TT& x) {
  std::string s = x.desc();
  if (fl(x.t.el_type) && x.count() <= 12) x.each([&](const int* i) { char b[40]; snprintf(b, sizeof b, " %.9g", getf(x, i)); s += b; });
  return s;
}

static void convert(G& g, mli_element_type a, mli_element_type b, bool use_safx) {
  world().reset();
  Shape s = gen_shape(g);
  int narrow = g.chance(70);
  bool inplace = a != MLI_EL_FP_32 && b != MLI_EL_FP_32 && el_size(a) == el_size(b) && g.chance(25);
  TT in = make(g, "src", a, s, pick_mode(g), !inplace, true);
  int ax = params(g, in, -2, narrow);
  TT out;
  if (inplace) { out = in; out.name = "dst"; out.t.el_type = b; if (sa(b)) set_sa(out, 1, 0, 0); else { out.sc.clear(); memset(&out.t.el_params, 0, sizeof out.t.el_params); } }
  else out = make(g, "dst", b, s, pick_mode(g), false, true);
  params(g, out, ax >= 0 ? ax : -2, narrow);
  if (narrow && !fl(a) && !fl(b)) {  // keep the ratio of the formats interesting
    int d = (int)g.range(-6, 18), k[4] = {0, 0, 0, 0};
    Fmt f = fmt(in, k), o = fmt(out, k);
    int want = f.frac - (int)std::lround(std::log2((double)f.scale / o.scale)) - d;
    int delta = std::min(std::max(want, -128), 127) - o.frac;
    if (!sa(b)) set_frac(out, std::min(std::max(o.frac + delta, -128), 127));
    else if (out.t.el_params.sa.dim < 0) set_sa(out, o.scale, std::min(std::max(o.frac + delta, -128), 127), o.zp);
    else for (size_t i = 0; i < out.sfb.size(); i++) { out.sfb[i] = (int8_t)std::min(std::max(out.sfb[i] + delta, -128), 127); out.t.el_params.sa.scale_frac_bits.mem.pi8[i] = out.sfb[i]; }
  }
  if (fl(a)) fill_float(g, in, out); else fill(g, in);
  if (inplace) g.label("in place");
  if ((sa(a) && in.t.el_params.sa.dim >= 0) || (sa(b) && out.t.el_params.sa.dim >= 0)) g.label("per axis");
  g.note("%s -> %s", fdesc(in).c_str(), out.desc().c_str());
  std::vector<int64_t> want; std::vector<float> fwant;
  int ob = el_bits(b); bool differ = a != b, many = false, first = true; int64_t v0 = 0;
  double worst = 0;
  in.each([&](const int* i) {
    Fmt fa = fmt(in, i), fb = fmt(out, i);
    int64_t raw = in.geto(in.off(i));
    if (first) { v0 = raw; first = false; } else if (raw != v0) many = true;
    if (fa.scale != fb.scale || fa.frac != fb.frac || fa.zp != fb.zp) differ = true;
    if (fl(b)) {
      float w = fl(a) ? getf(in, i) : dequant(raw, fa);
      fwant.push_back(w);
      double real = fl(a) ? (double)getf(in, i) : ((double)raw - fa.zp) * std::ldexp((double)fa.scale, -fa.frac);
      double e = std::fabs(real) * 1.3e-7 + 1e-44;
      if (!fl(a) && std::isfinite(w) && std::fabs((double)raw - fa.zp) < 2147483647. && std::fabs(w - real) > e) g.fail("model", "model is wrong: %g %g", w, real);
      return;
    }
    bool wide = a == MLI_EL_SA_32 || b == MLI_EL_SA_32;
    double xr = fl(a) ? (double)getf(in, i) : ((double)raw - fa.zp) * std::ldexp((double)fa.scale, -fa.frac);
    double real = sat(xr * std::ldexp(1.0 / fb.scale, fb.frac) + fb.zp, ob);
    int64_t w = fl(a) ? quant(getf(in, i), fb, ob) : safx(raw, fa, fb, ob, wide);
    double tol = fl(a) ? 0.5 + std::fabs(real - fb.zp) * 4e-7 + 1e-6 : 0.51 + std::min(std::fabs(xr * std::ldexp(1.0 / fb.scale, fb.frac)), 4.4e9) * std::ldexp(1.0, -13) + 0.5;
    if (ob == 32) tol += std::fabs((double)fa.zp * fa.scale / fb.scale * std::ldexp(1.0, fb.frac - fa.frac)) * (std::fabs((double)raw - fa.zp) > 2147483647.) + std::abs(fb.zp) * (std::fabs(real - fb.zp) > 2147400000.);  // 32-bit saturation happens around the zero points
    worst = std::max(worst, std::fabs(w - real) - tol);
    if (std::fabs(w - real) > tol) g.fail("model", "model is wrong: element %lld gives %lld, real result %.6f, tolerance %.4f", (long long)raw, (long long)w, real, tol);
    want.push_back(w);
  });
  mli_tensor ti = in.t, to = out.t;
  world().snapshot();
  mli_status st = use_safx ? mli_hlp_convert_tensor_safx(&in.t, &out.t) : mli_hlp_convert_tensor(&in.t, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "%s -> %s returned %d", el_name(a), el_name(b), (int)st);
  if (fl(b)) {
    size_t k = 0;
    out.each([&](const int* i) {
      float got = getf(out, i), w = fwant[k++];
      if (memcmp(&got, &w, 4) && !(got == w)) g.fail("mismatch", "element [%d,%d,%d,%d] is %.9g, expected %.9g", i[0], i[1], i[2], i[3], got, w);
    });
  } else expect_values(g, out, want, "conversion");
  expect_gaps(g, out, "conversion");
  world().check_frozen(g, "conversion");
  expect_desc(g, out, to, "conversion");
  expect_desc(g, in, ti, "conversion");
  if (differ && many) g.nontrivial();
}
static const mli_element_type kInt[] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32};
static void fixed(G& g) {
  mli_element_type a = kInt[g.range(0, 3)], b = kInt[g.range(0, 3)];
  bool sf = g.chance(50);
  g.label(std::string(el_name(a)) + " to " + el_name(b));
  convert(g, a, b, sf);
}
PBT_SUB("fixed point and asymmetric", 30, fixed);
static void from_float(G& g) { mli_element_type b = g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}); g.label(std::string("fp32 to ") + el_name(b)); convert(g, MLI_EL_FP_32, b, false); }
PBT_SUB("quantise floats", 15, from_float);
static void to_float(G& g) { mli_element_type a = kInt[g.range(0, 3)]; g.label(std::string(el_name(a)) + " to fp32"); convert(g, a, MLI_EL_FP_32, false); }
PBT_SUB("dequantise", 10, to_float);

// integer -> float -> integer restores the data; same format conversion is the identity
static void trip(G& g) {
  world().reset();
  mli_element_type a = kInt[g.range(0, 3)];
  Shape s = gen_shape(g);
  TT in = make(g, "src", a, s, pick_mode(g), true, true);
  params(g, in, -2, 1);
  fill(g, in);
  bool viaf = g.chance(60);
  if (a == MLI_EL_SA_32) in.each([&](const int* i) { int64_t v = in.geto(in.off(i)); in.seto(in.off(i), viaf ? v >> 11 : v >> 3); });  // within the precision of a float / of the scaling
  TT mid = viaf ? make(g, "float", MLI_EL_FP_32, s, pick_mode(g), false) : TT();
  TT out = make(g, "dst", a, s, pick_mode(g), false, true);
  out.t.el_params = in.t.el_params; out.sc = in.sc; out.zp = in.zp; out.sfb = in.sfb;
  g.label(viaf ? "via fp32" : "same format"); g.note("%s", in.desc().c_str());
  world().snapshot();
  mli_status st = MLI_STATUS_OK;
  if (viaf) { st = mli_hlp_convert_tensor(&in.t, &mid.t); if (st == MLI_STATUS_OK) st = mli_hlp_convert_tensor(&mid.t, &out.t); g.evals(1); }
  else st = mli_hlp_convert_tensor(&in.t, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "status %d", (int)st);
  expect_values(g, out, in.values(), viaf ? "conversion to fp32 and back" : "conversion to the same format");
  expect_gaps(g, out, "conversion"); world().check_frozen(g, "conversion");
  if (in.count() > 1) g.nontrivial();
}
PBT_SUB("round trip", 15, trip);

// type pairs that are not supported
static void unsupported(G& g) {
  world().reset();
  mli_element_type a = kInt[g.range(0, 3)], b = MLI_EL_FP_32; bool sf = true;
#if !defined(MLI_DEBUG_MODE) || defined(VP_RET_CODES)
  size_t w = g.range(0, 2);
  if (w == 1) { sf = false; a = MLI_EL_FP_32; b = g.pick<mli_element_type>({MLI_EL_FP_16, MLI_EL_FX_4}); }
  if (w == 2) { sf = g.chance(50); b = g.pick<mli_element_type>({MLI_EL_FP_16, MLI_EL_FX_4}); }
#endif
  if (g.chance(50)) std::swap(a, b);
  Shape s = gen_shape(g);
  TT in = make(g, "src", a, s, DENSE, true), out = make(g, "dst", b, s, DENSE, true);
  params(g, in, -1, 1); params(g, out, -1, 1);
  if (fl(a)) fill_float(g, in, in);
  mli_tensor ti = in.t, to = out.t;
  g.note("el_type %d -> %d %s", (int)a, (int)b, sf ? "safx" : "");
  world().snapshot();
  mli_status st = sf ? mli_hlp_convert_tensor_safx(&in.t, &out.t) : mli_hlp_convert_tensor(&in.t, &out.t);
  if (st == MLI_STATUS_OK) g.fail("accepted-unsupported", "conversion of element type %d to %d returned OK", (int)a, (int)b);
  world().check_frozen(g, "refused conversion");
  if (memcmp(&ti, &in.t, sizeof ti) || memcmp(&to, &out.t, sizeof to)) g.fail("descriptor", "refused conversion changed a descriptor");
  g.nontrivial();
}
PBT_SUB("unsupported types", 4, unsupported);
