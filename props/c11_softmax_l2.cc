#include "lut.h"
using namespace vt;
const char* pbt::g_rule = "A case is one softmax or L2-normalise call on a generated tensor, axis and table; non-trivial: some slice has at least two elements with two different expected outputs (softmax) or a non-zero expected output (L2).";

// slices of a tensor along an axis (or the whole tensor), as lists of element indices in row-major numbering
static std::vector<std::vector<size_t>> slices(const Shape& s, int axis) {
  size_t n = 1; for (int i = 0; i < s.rank; i++) n *= s.d[i];
  std::vector<std::vector<size_t>> r;
  if (axis < 0) { r.emplace_back(); for (size_t i = 0; i < n; i++) r[0].push_back(i); return r; }
  size_t inner = 1; for (int i = axis + 1; i < s.rank; i++) inner *= s.d[i];
  size_t ax = s.d[axis];
  for (size_t o = 0; o < n / (inner * ax); o++) for (size_t i = 0; i < inner; i++) {
    r.emplace_back(); for (size_t k = 0; k < ax; k++) r.back().push_back((o * ax + k) * inner + i);
  }
  return r;
}
static int64_t softmax_exp(const Lut& t, int64_t x, int64_t mx, bool sa, int sc, int frac) {
  if (!sa) return lut_eval(t, x - mx, frac);
  int lf = t.l.in_frac_bits + 8;
  return lut_eval(t, fx::cast((x - mx) * sc, frac - lf, 32, 32), lf);
}
static void softmax_model(G& g, const Lut& t, const std::vector<int64_t>& x, const std::vector<size_t>& ix, bool sa, int sc, int frac, std::vector<int64_t>& out) {
  int64_t mx = x[ix[0]]; for (auto i : ix) mx = std::max(mx, x[i]);
  std::vector<int64_t> e; int64_t sum = 0;
  for (auto i : ix) { e.push_back(softmax_exp(t, x[i], mx, sa, sc, frac)); sum = (int64_t)fx::sat(sum + e.back(), 32); }
  int nrm = fx::norm(sum, 32);
  int64_t mnt = fx::cast(sum, 16 - nrm, 32, 16), rec = std::min<int64_t>((1 << 29) / mnt, 32767);
  int osh = sa ? 8 : 15, shift = std::min(2 * t.l.out_frac_bits + 15 - nrm - osh, 31);
  for (size_t k = 0; k < ix.size(); k++)
    out[ix[k]] = sa ? (int64_t)fx::sat(fx::shr_rnd(rec * e[k], shift, 32) - 128, 8) : fx::cast(rec * e[k], shift, 32, 16);
  // the model itself against the real function
  double rs = 0; auto re = [&](size_t i) { return std::exp(std::ldexp((double)(x[i] - mx) * sc, -frac)); };
  for (auto i : ix) rs += re(i);
  for (size_t k = 0; k < ix.size(); k++) {
    double y = re(ix[k]) / rs, want, tol;
    double rel = 4e-4 + ix.size() * 4e-5 / std::max(1.0, rs) + 1e-4;
    // absolute error of an exponent is a few units of 2^-15, relative to the sum of exponents
    if (sa) { want = std::min(std::ldexp(y, 8), 255.0) - 128; tol = 0.51 + 256 * (y * rel + 3 * 3.1e-5 / rs); }
    else { want = std::min(std::ldexp(y, 15), 32767.0); tol = 1.0 + 32768 * (y * rel + 3 * 3.1e-5 / rs); }
    if (std::fabs(want - (double)out[ix[k]]) > tol) g.fail("oracle", "softmax model: element %zu of a slice of %zu: %lld, function %g (tolerance %g)", k, ix.size(), (long long)out[ix[k]], want, tol);
  }
}
static void l2_model(G& g, const Lut& t, const std::vector<int64_t>& x, const std::vector<size_t>& ix, bool sa, int zp, std::vector<int64_t>& out) {
  int64_t sum = 0; for (auto i : ix) sum += (x[i] - zp) * (x[i] - zp);
  int n = 48 - fx::norm(sum, 64); if (n & 1) n++;
  int osh = sa ? 7 : 15, bits = sa ? 8 : 16;
  int64_t l = lut_eval(t, fx::cast(sum, n, 64, 16), 8);
  int shift = t.l.out_frac_bits + ((n + 8) >> 1) - osh;
  for (auto i : ix) {
    int64_t v = x[i] - zp; out[i] = fx::cast(l * v, shift, 32, bits);
    double want = sum ? std::ldexp((double)v / std::sqrt((double)sum), osh) : 0;
    if (want > (double)fx::vmax(bits)) want = (double)fx::vmax(bits);
    double tol = (sa ? 0.51 : 1.0) + std::fabs(want) * 6e-4;
    if (std::fabs(want - (double)out[i]) > tol) g.fail("oracle", "L2 model: element value %lld, sum of squares %lld: %lld, function %g", (long long)v, (long long)sum, (long long)out[i], want);
  }
}

static void run(G& g, bool l2, bool sa) {
  world().reset();
  mli_element_type t = sa ? MLI_EL_SA_8 : MLI_EL_FX_16;
  Lut lut = l2 ? make_lut(g, "invsqrt table", mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut)
               : make_lut(g, "exp table", mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut);
  Shape s; s.rank = (int)g.range(1, 4);
  int left = g.chance(8) ? 6000 : 160;
  for (int i = 0; i < 4; i++) { s.d[i] = 0; if (i < s.rank) { s.d[i] = (int)g.small(1, std::max(1, std::min(left, g.chance(12) ? 6000 : 9))); left /= s.d[i]; } }
  int axis = (int)g.range(-1, s.rank - 1); if (axis < 0 && g.chance(20)) axis = (int)g.range(-100000, -2);
  TT in = make(g, "in", t, s, pick_mode(g), true, true), out;
  int zp = 0, sc = 1, frac;
  if (sa) {
    sc = gen_scale(g); zp = gen_zp8(g);
    int lg = 0; while ((sc >> lg) > 1) lg++;
    frac = g.chance(85) ? lg + 7 - ((int)g.range(0, 13) - 6) : (int)g.range(-40, 60);
    set_sa(in, sc, frac, zp);
  } else { frac = g.chance(80) ? (int)g.range(6, 16) : g.chance(70) ? (int)g.range(-3, 24) : (int)g.range(-128, 127); set_frac(in, frac); }
  fill(g, in);
  bool inplace = g.chance(30);
  if (inplace) { out = in; out.name = "out (in place)"; world().unfreeze(in.buf); g.label("in place"); }
  else { out = make(g, "out", t, s, pick_mode(g), false, true); if (sa) set_sa(out, gen_scale(g), 3, 5); else set_frac(out, 3); }
  auto x = in.values(); std::vector<int64_t> want(x.size(), 0);
  bool nt = false;
  for (auto& ix : slices(s, axis)) {
    if (l2) l2_model(g, lut, x, ix, sa, zp, want); else softmax_model(g, lut, x, ix, sa, sc, frac, want);
    for (auto i : ix) if (ix.size() > 1 && (l2 ? want[i] != 0 : want[i] != want[ix[0]])) nt = true;
  }
  g.note("%s axis %d", l2 ? "l2" : "softmax", axis);
  if (g.verbose()) g.note("%s", in.desc().c_str());
  mli_tensor t0 = out.t, ti = in.t; mli_lut l0 = lut.l; mli_softmax_cfg c; c.axis = axis;
  mli_l2_normalize_cfg cl; cl.axis = axis;
  mli_tensor eps; memset(&eps, 0, sizeof eps); eps.el_type = MLI_EL_FX_16; eps.data.mem.i16 = (int16_t)g.range(0, 3);
  bool use_eps = g.chance(30);
  world().snapshot();
  const mli_tensor* pin = inplace && g.chance(50) ? &out.t : &in.t;
  mli_status st = l2 ? (sa ? mli_krn_l2_normalize_sa8 : mli_krn_l2_normalize_fx16)(pin, use_eps ? &eps : nullptr, &lut.l, &cl, &out.t)
                     : (sa ? mli_krn_softmax_sa8 : mli_krn_softmax_fx16)(pin, &lut.l, &c, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  expect_values(g, out, want, "normalisation"); expect_gaps(g, out, "normalisation");
  world().check_frozen(g, "normalisation");
  if (memcmp(&l0, &lut.l, sizeof l0)) g.fail("modified-input", "the table descriptor changed");
  if (c.axis != axis || cl.axis != axis) g.fail("modified-input", "the configuration changed");
  expect_desc(g, in, ti, "normalisation"); expect_desc(g, out, t0, "normalisation", false);
  auto& p = out.t.el_params;
  if (sa) {
    if (p.sa.dim != -1 || p.sa.scale.mem.i16 != 1 || p.sa.zero_point.mem.i16 != (l2 ? 0 : -128) || p.sa.scale_frac_bits.mem.i8 != (l2 ? 7 : 8)) g.fail("out-format", "output parameters: dim %d scale %d zp %d frac %d", p.sa.dim, p.sa.scale.mem.i16, p.sa.zero_point.mem.i16, p.sa.scale_frac_bits.mem.i8);
  } else if (p.fx.frac_bits != 15) g.fail("out-format", "output fractional bits %d", p.fx.frac_bits);
  if (nt) g.nontrivial();
}
#define A(l2, sa, id, nm) static void id(G& g) { run(g, l2, sa); } PBT_SUB(nm, 10, id)
A(false, false, sm16, "softmax_fx16"); A(false, true, smsa, "softmax_sa8");
A(true, false, l216, "l2_normalize_fx16"); A(true, true, l2sa, "l2_normalize_sa8");
