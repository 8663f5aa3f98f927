#include "conv2d.h"
using namespace vt;
const char* pbt::g_rule = "A case is one kernel call on generated tensors; non-trivial: more than one tap, and the output contains at least one value strictly inside the output range.";

static ConvFn kFns[3][3] = {
  {mli_krn_transpose_conv2d_hwcn_fx16, mli_krn_transpose_conv2d_hwcn_fx16_k2x2_str2, mli_krn_transpose_conv2d_hwcn_fx16_k4x4_str2},
  {mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8, mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8_k2x2_str2, mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8_k4x4_str2},
  {mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32, mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32_k2x2_str2, mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32_k4x4_str2}};

// one dimension: out = (in - 1) * s + k - p0 - p1 >= 1
static void dim(G& g, int k, int fixs, int& in, int& out, int& s, int& p0, int& p1) {
  s = fixs ? fixs : g.chance(20) ? (int)g.range(1, k) : (int)g.small(1, std::min(k, 4));
  in = (int)g.small(1, 7);
  bool pad = g.chance(65);
  p0 = pad ? (int)g.range(0, k - 1) : 0;
  p1 = pad ? (int)g.range(0, k - 1) : 0;
  out = (in - 1) * s + k - p0 - p1;
  if (out < 1) { in += (1 - out + s - 1) / s; out = (in - 1) * s + k - p0 - p1; }
}
static Acc scatter(const ConvCase& c, int izp) {
  const Geo& q = c.q;
  int ci = c.in.dim(2), co = c.w.dim(3);
  Acc a; a.v.assign((size_t)q.oh * q.ow * co, 0);
  std::vector<int64_t> b(a.v.size(), 0);
  for (int y = 0; y < q.ih; y++) for (int x = 0; x < q.iw; x++)
    for (int ky = 0; ky < q.kh; ky++) for (int kx = 0; kx < q.kw; kx++) {
      int oy = y * q.sh + ky - q.pt, ox = x * q.sw + kx - q.pl;
      if (oy < 0 || ox < 0 || oy >= q.oh || ox >= q.ow) { a.border = true; continue; }
      for (int k = 0; k < ci; k++) for (int o = 0; o < co; o++) {
        int64_t xv = c.in.at(y, x, k), wv = c.w.at(ky, kx, k, o);
        size_t i = ((size_t)oy * q.ow + ox) * co + o;
        a.v[i] += (xv - izp) * wv;
        b[i] += std::abs(xv * wv) + std::abs(izp * wv);
      }
    }
  for (size_t i = 0; i < b.size(); i++) { a.amax = std::max<int64_t>(a.amax, std::abs(a.v[i])); a.bound = std::max(a.bound, b[i]); }
  return a;
}
static void run(G& g, MathType m) {
  world().reset();
  ConvCase c; c.m = m;
  int spec = (int)g.weighted({60, 20, 20});
  Geo& q = c.q;
  if (spec) q.kh = q.kw = spec * 2;
  else { q.kh = gen_k(g, 6); q.kw = gen_k(g, 6); }
  q.dh = q.dw = 1;
  dim(g, q.kh, spec ? 2 : 0, q.ih, q.oh, q.sh, q.pt, q.pb);
  dim(g, q.kw, spec ? 2 : 0, q.iw, q.ow, q.sw, q.pl, q.pr);
  int vol = 60000 / (q.ih * q.iw * q.kh * q.kw);
  int ci = gen_ch(g, 6, vol), co = gen_ch(g, 6, vol / ci);
  conv_make(g, c, ci, ci, co, [&](ConvCase& k) { return scatter(k, m == SA8 ? k.in.zp[0] : 0); });
  g.note("transpose conv spec %d", spec);
  conv_call(g, c, kFns[m][spec], "transpose conv");
  if (spec) g.label("specialised");
  if (q.sh > 1 || q.sw > 1) g.label("strided");
}
static void t0(G& g) { run(g, FX16); }
static void t1(G& g) { run(g, FX16_FX8); }
static void t2(G& g) { run(g, SA8); }
PBT_SUB("transpose_conv_fx16", 1, t0);
PBT_SUB("transpose_conv_fx16_fx8_fx8", 1, t1);
PBT_SUB("transpose_conv_sa8_sa8_sa32", 1, t2);
