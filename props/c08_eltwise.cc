#include "elt.h"
using namespace vt;
const char* pbt::g_rule = "A case is one kernel call on generated tensors; non-trivial: more than one output element and at least two different output values, one of them strictly inside the output range.";

typedef mli_status (*EltFn)(const mli_tensor*, const mli_tensor*, mli_tensor*);
static EltFn kFn[3][5] = {
  {mli_krn_eltwise_add_fx8, mli_krn_eltwise_sub_fx8, mli_krn_eltwise_mul_fx8, mli_krn_eltwise_min_fx8, mli_krn_eltwise_max_fx8},
  {mli_krn_eltwise_add_fx16, mli_krn_eltwise_sub_fx16, mli_krn_eltwise_mul_fx16, mli_krn_eltwise_min_fx16, mli_krn_eltwise_max_fx16},
  {mli_krn_eltwise_add_sa8, mli_krn_eltwise_sub_sa8, mli_krn_eltwise_mul_sa8, mli_krn_eltwise_min_sa8, mli_krn_eltwise_max_sa8}};
static const mli_element_type kType[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8};

static void elt(G& g, int ty, int op) {
  world().reset();
  mli_element_type t = kType[ty]; int bits = el_bits(t);
  Shape s = gen_shape(g);
  // 0: same shape, 1/2: first/second operand scalar, 3: single-element tensors/scalars both
  size_t kind = g.weighted({60, 15, 15, 5});
  size_t place = kind == 0 ? g.weighted({60, 15, 15, 10}) : kind == 3 ? 0 : g.weighted({70, 30});  // in-place variants
  if (kind == 3) for (int i = 0; i < s.rank; i++) s.d[i] = 1;
  auto one = [&](const char* n) {  // scalar operand: rank 0, or any rank with a single element
    int c = 1; for (int i = 0; i < s.rank; i++) c *= s.d[i];
    if (g.chance(50) || c == 1) return scalar(g, n, t);
    Shape u; u.rank = (int)g.range(1, 4); for (int i = 0; i < 4; i++) u.d[i] = i < u.rank ? 1 : 0;
    TT x = make(g, n, t, u, DENSE, true); fill(g, x); return x;
  };
  TT a, b, out;
  if (kind == 1) { a = one("in1"); b = make(g, "in2", t, s, pick_mode(g), true, true); fill(g, b); }
  else if (kind == 2) { a = make(g, "in1", t, s, pick_mode(g), true, true); fill(g, a); b = one("in2"); }
  else { a = make(g, "in1", t, s, pick_mode(g), true, true); fill(g, a); b = make(g, "in2", t, s, pick_mode(g), true, true); fill(g, b); }
  if (place == 3) b = a;  // both operands the same tensor
  bool inplace = false;
  if (place == 1) { out = kind == 1 ? b : a; inplace = true; }
  else if (place == 2 || place == 3) { out = b; inplace = true; }
  else out = make(g, "out", t, s, pick_mode(g), false, true);
  if (inplace) { out.name = "out (in place)"; world().unfreeze(out.buf); g.label("in place"); }
  bool same_fmt = op >= MIN_ || place == 3;
  Fmt fa, fb, fo;
  if (t == MLI_EL_SA_8) {
    auto ff = [&](Fmt& f) { f.scale = gen_scale(g); f.zp = gen_zp8(g); f.frac = 16 + (g.chance(85) ? (int)g.range(0, 8) - 4 : (int)g.range(0, 60) - 30); };
    ff(fa); if (same_fmt) fb = fa; else ff(fb);
    fo.scale = gen_scale(g); fo.zp = gen_zp8(g);
    auto l2 = [](const Fmt& f) { return (int)std::lround(std::log2((double)f.scale)) - f.frac; };
    int mag = op == MUL ? l2(fa) + l2(fb) + 7 : std::max(l2(fa), l2(fb));
    int d = g.chance(75) ? (int)g.range(0, 4) - 1 : (int)g.range(0, 60) - 30;
    int f = (int)std::lround(std::log2((double)fo.scale)) - mag + d;
    fo.frac = std::max(-128, std::min(127, f));
    set_sa(a, fa.scale, fa.frac, fa.zp); set_sa(b, fb.scale, fb.frac, fb.zp); set_sa(out, fo.scale, fo.frac, fo.zp);
  } else {
    int top = bits - 1, lim = 30;
    fa.frac = g.chance(10) ? (int)g.range(-5, 25) : (int)g.around(0, top, top);
    fb.frac = same_fmt ? fa.frac : fa.frac + (g.chance(80) ? (int)g.range(0, 8) - 4 : (int)g.range(0, 2 * lim) - lim);
    int base = op == MUL ? fa.frac + fb.frac - top : std::min(fa.frac, fb.frac);
    int wide = bits + 20;
    fo.frac = base + (g.chance(80) ? (int)g.range(0, 6) - 3 : (int)g.range(0, 2 * wide) - wide);
    set_frac(a, fa.frac); set_frac(b, fb.frac); set_frac(out, fo.frac);
  }
  // scalars keep their value in the descriptor, the parameters are set above
  std::vector<int64_t> va, vb, want; size_t n = out.count();
  if (a.t.rank) va = a.values(); else va = {val0(a)};
  if (b.t.rank) vb = b.values(); else vb = {val0(b)};
  EltSa p; if (t == MLI_EL_SA_8) p = elt_sa_params(op, fa, fb, fo);
  bool mid = false, lim = false, diff = false;
  for (size_t i = 0; i < n; i++) {
    int64_t x = va.size() == 1 ? va[0] : va[i], y = vb.size() == 1 ? vb[0] : vb[i], v;
    double real, tol;
    if (t == MLI_EL_SA_8) {
      v = elt_sa(op, p, x, fa, y, fb, fo);
      double rx = std::ldexp((double)(x - fa.zp) * fa.scale, -fa.frac), ry = std::ldexp((double)(y - fb.zp) * fb.scale, -fb.frac);
      double u = std::ldexp(1.0 / fo.scale, fo.frac);
      real = elt_real(op, rx, ry) * u + fo.zp;
      tol = op == MUL ? 1.5 + std::fabs(real - fo.zp) / 64 : 1.6 + (std::fabs(rx) + std::fabs(ry)) * u / 8192;
      if (p.capped || (op == MUL && std::labs((x - fa.zp) * (y - fb.zp)) > 30000)) tol = 1e30;
      if ((op == ADD || op == SUB) && (std::fabs(rx) * u > 1e8 || std::fabs(ry) * u > 1e8)) tol = 1e30;
    } else {
      v = elt_fx(op, bits, x, fa.frac, y, fb.frac, fo.frac);
      real = std::ldexp(elt_real(op, std::ldexp((double)x, -fa.frac), std::ldexp((double)y, -fb.frac)), fo.frac);
      tol = 1.01;
      if (std::abs(fa.frac - fb.frac) > 31 - bits && (op == ADD || op == SUB)) tol = 1e30;  // alignment may saturate
    }
    if (std::fabs(real) < (double)fx::vmax(bits) && std::fabs(real - (double)v) > tol) g.fail("oracle", "model gives %lld for real value %g (x %lld y %lld)", (long long)v, real, (long long)x, (long long)y);
    want.push_back(v);
    (v == fx::vmax(bits) || v == fx::vmin(bits) ? lim : mid) = true;
    if (v != want[0]) diff = true;
  }
  g.note("%s %s kind %zu place %zu n %zu", elt_name(op), el_name(t), kind, place, n);
  if (g.verbose()) g.note("%s; %s; %s", a.desc().c_str(), b.desc().c_str(), out.desc().c_str());
  mli_tensor t0 = out.t, ta = a.t, tb = b.t;
  world().snapshot();
  mli_status st = kFn[ty][op](&a.t, place == 3 ? &a.t : &b.t, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  expect_values(g, out, want, "eltwise"); expect_gaps(g, out, "eltwise");
  world().check_frozen(g, "eltwise");
  expect_desc(g, out, t0, "eltwise");
  if (memcmp(&ta, &a.t, sizeof ta) || memcmp(&tb, &b.t, sizeof tb)) g.fail("descriptor", "an input descriptor changed");
  if (kind == 1 || kind == 2) g.label("scalar operand");
  if (mid) g.label("result inside range");
  if (lim) g.label("result at a limit");
  if (n > 1 && mid && diff) g.nontrivial();
}
#define E(ty, op, fn, nm) static void fn(G& g) { elt(g, ty, op); } PBT_SUB(nm, 1, fn)
E(0, ADD, a8, "eltwise_add_fx8"); E(0, SUB, s8, "eltwise_sub_fx8"); E(0, MUL, m8, "eltwise_mul_fx8"); E(0, MIN_, i8, "eltwise_min_fx8"); E(0, MAX_, x8, "eltwise_max_fx8");
E(1, ADD, a16, "eltwise_add_fx16"); E(1, SUB, s16, "eltwise_sub_fx16"); E(1, MUL, m16, "eltwise_mul_fx16"); E(1, MIN_, i16, "eltwise_min_fx16"); E(1, MAX_, x16, "eltwise_max_fx16");
E(2, ADD, asa, "eltwise_add_sa8"); E(2, SUB, ssa, "eltwise_sub_sa8"); E(2, MUL, msa, "eltwise_mul_sa8"); E(2, MIN_, isa, "eltwise_min_sa8"); E(2, MAX_, xsa, "eltwise_max_sa8");
