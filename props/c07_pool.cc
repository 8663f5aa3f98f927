#include "pool.h"
using namespace vt;
const char* pbt::g_rule = "A case is one pooling call on generated tensors; non-trivial: the window holds more than one element and the output contains a value strictly inside the range of the type.";
typedef mli_status (*PoolFn)(const mli_tensor*, const mli_pool_cfg*, mli_tensor*);
#define FNS(p) {{p##_fx8, p##_fx8_k2x2, p##_fx8_k3x3}, {p##_fx16, p##_fx16_k2x2, p##_fx16_k3x3}, {p##_sa8, p##_sa8_k2x2, p##_sa8_k3x3}}
static PoolFn kFn[2][3][3] = {FNS(mli_krn_maxpool_hwc), FNS(mli_krn_avepool_hwc)};
static const mli_element_type kType[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8};
#ifdef AVEPOOL_16BIT_MUL
static const int kMulBits = 16;
#else
static const int kMulBits = 8;
#endif
static void pool(G& g, bool avg, int ty, int special) {
  world().reset();
  mli_element_type t = kType[ty]; int bits = el_bits(t);
  bool big = special == 0 && g.chance(3);
  Geo q;
  if (special) q = gen_geo(g, special + 1, special + 1, 6, 4, 1);
  else if (big) { int hi = g.chance(30) ? 255 : 70; int kh = (int)g.range(1, hi), kw = (int)g.range(1, g.chance(50) ? hi : 9); q = gen_geo(g, kh, kw, 2, 4, 1); }
  else { int kh = gen_k(g, 6), kw = gen_k(g, 6); q = gen_geo(g, kh, kw, 6, 4, 1); }
  int ch = big ? (int)g.range(1, 2) : gen_ch(g, 5, 4000 / std::max(1, q.ih * q.iw));
  TT in = make(g, "in", t, shape({q.ih, q.iw, ch}), pick_mode(g), true, true);
  TT out = make(g, "out", t, shape({q.oh, q.ow, ch}), pick_mode(g), false, true);
  Fmt fi, fo;
  if (t == MLI_EL_SA_8) {
    fi.scale = gen_scale(g); fi.frac = (int)g.range(10, 24); fi.zp = gen_zp8(g);
    fo.scale = gen_scale(g); fo.zp = gen_zp8(g);
    int d = g.chance(75) ? (int)g.range(0, 6) - 3 : (int)g.range(0, 30) - 15;
    fo.frac = std::max(-128, std::min(127, ilog2(fo.scale) - ilog2(fi.scale) + fi.frac + d));
    if (g.chance(15)) fo = fi;
    set_sa(in, fi.scale, fi.frac, fi.zp); set_sa(out, fo.scale, fo.frac, fo.zp);
  } else {
    fi.frac = g.chance(80) ? (int)g.range(0, bits - 1) : (int)g.range(-20, 40);
    fo.frac = fi.frac + (g.chance(40) ? 0 : g.chance(70) ? (int)g.range(0, 8) - 4 : (int)g.range(0, 80) - 40);
    set_frac(in, fi.frac); set_frac(out, fo.frac);
  }
  fill(g, in);
  bool inner = false; std::vector<int64_t> want; int64_t maxn = 1;
  Requant rq; if (t == MLI_EL_SA_8) rq = requant(fi, fo);
  double ratio = t == MLI_EL_SA_8 ? std::ldexp((double)fi.scale / fo.scale, fo.frac - fi.frac) : std::ldexp(1.0, fo.frac - fi.frac);
  windows(q, [&](int, int, int r0, int r1, int c0, int c1) {
    int n = (r1 - r0) * (c1 - c0); maxn = std::max<int64_t>(maxn, n);
    if (n <= 0) g.fail("generator", "empty window");
    for (int c = 0; c < ch; c++) {
      int64_t m = INT64_MIN, s = 0, as = 0;
      for (int y = r0; y < r1; y++) for (int x = c0; x < c1; x++) { int64_t v = in.at(y, x, c); m = std::max(m, v); s += v; as += std::abs(v); }
      int64_t w;
      if (!avg) w = m;
      else {
        int W = t == MLI_EL_FX_16 ? 64 : 32; int64_t mul; int sh; fx::i128 acc = 0; double tol;
        reciprocal(n, mul, sh);
        if (t == MLI_EL_SA_8) {
          int k; mul = norm_cast(rq.scale * mul, kMulBits, &k); sh += rq.shift - k;
          int over = std::max(sh - 23, 0);  // the offset has to fit the accumulator
          mul = (int64_t)fx::shr_rnd(mul, over, 16); sh -= over;
          acc = sh >= 0 ? fx::shl(rq.offset, sh, 32) : fx::floor_shr(rq.offset, -sh);
          tol = 1.05 + std::fabs(ratio * s / n) * (kMulBits == 8 ? 1 / 126.0 : 1 / 8000.0) + (over ? as / 16e6 : 0) + (sh < 0 ? std::ldexp(1.0, -sh) : 0);
        } else { sh += fi.frac - fo.frac; tol = 0.51 + std::fabs(ratio * s / n) / 16000; if (sh > W - 1) tol += 1; }
        if ((fx::i128)(acc < 0 ? -acc : acc) + (fx::i128)as * std::abs(mul) >= fx::vmax(W)) g.discard();  // accumulator overflow is up to the caller
        w = fx::cast(acc + (fx::i128)s * mul, sh, W, bits);
        double zi = t == MLI_EL_SA_8 ? fi.zp : 0, zo = t == MLI_EL_SA_8 ? fo.zp : 0, real = ratio * ((double)s / n - zi) + zo;
        real = std::max((double)fx::vmin(bits), std::min((double)fx::vmax(bits), real));
        if (ratio < 100 && ratio * 128 < 30000 && std::fabs(real - (double)w) > tol) g.fail("oracle", "average of %d elements, sum %lld: model %lld, real %g (tolerance %g)", n, (long long)s, (long long)w, real, tol);
      }
      want.push_back(w);
      if (w > fx::vmin(bits) && w < fx::vmax(bits)) inner = true;
    }
  });
  static const char* nm[] = {"", "_k2x2", "_k3x3"};
  g.note("%s %s%s ch %d", avg ? "avepool" : "maxpool", el_name(t), nm[special], ch); note_geo(g, q);
  if (g.verbose()) g.note("%s; %s", in.desc().c_str(), out.desc().c_str());
  mli_pool_cfg cfg = pool_cfg(q), c0 = cfg; mli_tensor t0 = out.t, ti = in.t;
  // for max pooling the output format is a result
  if (!avg) { if (t == MLI_EL_SA_8) t0.el_params = in.t.el_params; else t0.el_params.fx.frac_bits = (int8_t)fi.frac; }
  world().snapshot();
  mli_status st = kFn[avg][ty][special](&in.t, &cfg, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  expect_values(g, out, want, "pooling"); expect_gaps(g, out, "pooling");
  world().check_frozen(g, "pooling");
  expect_desc(g, out, t0, "pooling"); expect_desc(g, in, ti, "pooling");
  if (memcmp(&cfg, &c0, sizeof cfg)) g.fail("descriptor", "configuration changed");
  if (inner && maxn > 1) g.nontrivial();
  if (q.pt || q.pb || q.pl || q.pr) g.label("padded");
  if (q.kh > q.ih || q.kw > q.iw) g.label("window larger than input");
  if (big) g.label("large window");
}
#define P(avg, ty, sp, w, id, nm) static void id(G& g) { pool(g, avg, ty, sp); } PBT_SUB(nm, w, id)
P(false, 0, 0, 4, m0, "maxpool_fx8"); P(false, 1, 0, 4, m1, "maxpool_fx16"); P(false, 2, 0, 4, m2, "maxpool_sa8");
P(true, 0, 0, 4, a0, "avepool_fx8"); P(true, 1, 0, 4, a1, "avepool_fx16"); P(true, 2, 0, 5, a2, "avepool_sa8");
P(false, 0, 1, 1, m01, "maxpool_fx8_k2x2"); P(false, 1, 1, 1, m11, "maxpool_fx16_k2x2"); P(false, 2, 1, 1, m21, "maxpool_sa8_k2x2");
P(true, 0, 1, 1, a01, "avepool_fx8_k2x2"); P(true, 1, 1, 1, a11, "avepool_fx16_k2x2"); P(true, 2, 1, 1, a21, "avepool_sa8_k2x2");
P(false, 0, 2, 1, m02, "maxpool_fx8_k3x3"); P(false, 1, 2, 1, m12, "maxpool_fx16_k3x3"); P(false, 2, 2, 1, m22, "maxpool_sa8_k3x3");
P(true, 0, 2, 1, a02, "avepool_fx8_k3x3"); P(true, 1, 2, 1, a12, "avepool_fx16_k3x3"); P(true, 2, 2, 1, a22, "avepool_sa8_k3x3");
