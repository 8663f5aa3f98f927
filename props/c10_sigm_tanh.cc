#include "lut.h"
using namespace vt;
const char* pbt::g_rule = "A case is one kernel call on generated tensors (or one check of a whole created table); non-trivial: at least two different output values, one of them strictly between the function's limits.";

typedef mli_status (*ActFn)(const mli_tensor*, const mli_lut*, mli_tensor*);
static ActFn kFn[2][3] = {{mli_krn_sigm_fx8, mli_krn_sigm_fx16, mli_krn_sigm_sa8}, {mli_krn_tanh_fx8, mli_krn_tanh_fx16, mli_krn_tanh_sa8}};
static const mli_element_type kType[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8};
static int lg2(int v) { int n = 0; while (v > 1) { v >>= 1; n++; } return n; }
static double f(int fn, double x) { return fn == 0 ? 1.0 / (1.0 + std::exp(-x)) : std::tanh(x); }
static Lut table(G& g, int fn) { return fn == 0 ? make_lut(g, "sigmoid table", mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut) : make_lut(g, "tanh table", mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut); }
// documented precision of the interpolated table in units of 2^-15
static double tol16(int fn) { return fn == 0 ? 2.5 : 4.0; }

static void act(G& g, int fn, int ty) {
  world().reset();
  mli_element_type t = kType[ty]; int bits = el_bits(t);
  Lut lut = table(g, fn);
  int r = (int)g.range(1, 4); Shape s; s.rank = r;
  int left = g.chance(10) ? 2000 : 120;
  for (int i = 0; i < 4; i++) { s.d[i] = 0; if (i < r) { s.d[i] = (int)g.small(1, std::max(1, std::min(left, g.chance(15) ? 300 : 9))); left /= s.d[i]; } }
  TT in = make(g, "in", t, s, pick_mode(g), true, true), out;
  bool inplace = g.chance(25);
  int zp = 0, sc = 1, frac;
  if (t == MLI_EL_SA_8) {
    sc = gen_scale(g); zp = gen_zp8(g);
    // reach about +-2^k for k in -6..7, or anything
    int k = (int)g.range(0, 13) - 6;
    frac = g.chance(85) ? lg2(sc) + 7 - k : (int)g.range(-40, 60);
    set_sa(in, sc, frac, zp);
  } else {
    frac = g.chance(80) ? (int)g.range(bits - 10, bits - 1) : g.chance(70) ? (int)g.range(-3, 24) : (int)g.range(-128, 127);
    set_frac(in, frac);
  }
  fill(g, in);
  if (inplace) { out = in; out.name = "out (in place)"; world().unfreeze(in.buf); g.label("in place"); }
  else { out = make(g, "out", t, s, pick_mode(g), false, true); if (t == MLI_EL_SA_8) set_sa(out, gen_scale(g), 3, 5); else set_frac(out, 3); }
  std::vector<int64_t> want; bool diff = false, mid = false;
  const double lo = fn == 0 ? 0 : -1;
  for (int64_t v : in.values()) {
    int64_t w; double real, x, tol;
    if (t == MLI_EL_SA_8) {
      int ozp = fn == 0 ? -128 : 0, os = fn == 0 ? 8 : 7;
      w = lut_sa(lut, v, zp, sc, frac, ozp, os);
      x = std::ldexp((double)(v - zp) * sc, -frac);
      real = std::ldexp(f(fn, x), os) + ozp; tol = 0.5 + std::ldexp(tol16(fn) + 4, os - 15);
      // argument is rounded to 12 (13) fractional bits
    } else {
      w = lut_fx(lut, v, frac, bits);
      x = std::ldexp((double)v, -frac);
      real = std::ldexp(f(fn, x), bits - 1); tol = bits == 16 ? tol16(fn) : 0.5 + tol16(fn) / 256;
    }
    double mx = (double)fx::vmax(bits);
    if (real > mx) real = mx;
    if (std::fabs(real - (double)w) > tol) g.fail("oracle", "element %lld (x=%g): model of the table lookup gives %lld, the function %g (tolerance %g)", (long long)v, x, (long long)w, real, tol);
    want.push_back(w);
    if (w != want[0]) diff = true;
    double y = f(fn, x); if (y > lo + 0.01 && y < 0.99) mid = true;
  }
  g.note("%s %s rank %d", fn ? "tanh" : "sigm", el_name(t), r);
  if (g.verbose()) g.note("%s", in.desc().c_str());
  mli_tensor t0 = out.t, ti = in.t; mli_lut l0 = lut.l;
  world().snapshot();
  mli_status st = kFn[fn][ty](inplace && g.chance(50) ? &out.t : &in.t, &lut.l, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  expect_values(g, out, want, "activation"); expect_gaps(g, out, "activation");
  world().check_frozen(g, "activation");
  if (memcmp(&l0, &lut.l, sizeof l0)) g.fail("modified-input", "the table descriptor changed");
  expect_desc(g, in, ti, "activation"); expect_desc(g, out, t0, "activation", false);
  auto& p = out.t.el_params;
  if (t == MLI_EL_SA_8) {
    if (p.sa.dim != -1 || p.sa.scale.mem.i16 != 1 || p.sa.zero_point.mem.i16 != (fn ? 0 : -128) || p.sa.scale_frac_bits.mem.i8 != (fn ? 7 : 8)) g.fail("out-format", "output parameters: dim %d scale %d zp %d frac %d", p.sa.dim, p.sa.scale.mem.i16, p.sa.zero_point.mem.i16, p.sa.scale_frac_bits.mem.i8);
  } else if (p.fx.frac_bits != bits - 1) g.fail("out-format", "output fractional bits %d", p.fx.frac_bits);
  if (diff && mid) g.nontrivial();
}
// every 16-bit (8-bit) input value in one format: whole-function check, including monotonicity of the table part
static void sweep(G& g, int fn, int ty) {
  world().reset();
  mli_element_type t = kType[ty]; int bits = el_bits(t);
  Lut lut = table(g, fn);
  // the table itself: each entry close to the function at its argument
  for (int i = 0; i < lut.l.length; i++) {
    double x = std::ldexp((double)(i - lut.l.input_offset), -lut.l.in_frac_bits), y = std::min(std::ldexp(f(fn, x), lut.l.out_frac_bits), 32767.0);
    if (std::fabs(lut.d[i] - y) > 0.75) g.fail("table", "entry %d of %s is %d, function value %g", i, fn ? "tanh" : "sigmoid", lut.d[i], y);
  }
  int n = 1 << bits;
  TT in = make(g, "in", t, shape({n}), DENSE, true), out = make(g, "out", t, shape({n}), DENSE, false);
  int frac, zp = 0, sc = 1;
  if (t == MLI_EL_SA_8) { sc = gen_scale(g); zp = gen_zp8(g); frac = lg2(sc) + 7 - (int)g.range(0, 9) + 4; set_sa(in, sc, frac, zp); }
  else { frac = (int)g.range(0, bits + 3); set_frac(in, frac); }
  for (int i = 0; i < n; i++) in.seto(i, (int64_t)fx::vmin(bits) + i);
  world().snapshot();
  mli_status st = kFn[fn][ty](&in.t, &lut.l, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  int oz = t == MLI_EL_SA_8 && fn == 0 ? -128 : 0, os = t == MLI_EL_SA_8 ? (fn == 0 ? 8 : 7) : bits - 1;
  int64_t prev = 0;
  for (int i = 0; i < n; i++) {
    double x = std::ldexp((double)(in.geto(i) - zp) * sc, -frac);
    double real = std::min(std::ldexp(f(fn, x), os) + oz, (double)fx::vmax(bits));
    double tol = bits == 16 ? tol16(fn) : 0.5 + std::ldexp(tol16(fn) + 4, os - 15);
    int64_t got = out.geto(i);
    if (std::fabs(real - (double)got) > tol) g.fail("accuracy", "x=%g: got %lld, function %g (tolerance %g); %s", x, (long long)got, real, tol, in.desc().c_str());
    if (i && got < prev - 2) g.fail("monotone", "x=%g: %lld after %lld", x, (long long)got, (long long)prev);
    prev = got;
  }
  world().check_frozen(g, "activation");
  g.evals(n); g.nontrivial(); g.label("all values of the type");
}
#define A(fn, ty, id, nm) static void id(G& g) { act(g, fn, ty); } PBT_SUB(nm, 20, id)
A(0, 0, s8, "sigm_fx8"); A(0, 1, s16, "sigm_fx16"); A(0, 2, ssa, "sigm_sa8");
A(1, 0, t8, "tanh_fx8"); A(1, 1, t16, "tanh_fx16"); A(1, 2, tsa, "tanh_sa8");
#define S(fn, ty, id, nm) static void id(G& g) { sweep(g, fn, ty); } PBT_SUB(nm, 1, id)
S(0, 0, ws8, "sigm_fx8_sweep"); S(0, 1, ws16, "sigm_fx16_sweep"); S(0, 2, wssa, "sigm_sa8_sweep");
S(1, 0, wt8, "tanh_fx8_sweep"); S(1, 1, wt16, "tanh_fx16_sweep"); S(1, 2, wtsa, "tanh_sa8_sweep");
