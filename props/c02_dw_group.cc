#include "conv2d.h"
using namespace vt;
const char* pbt::g_rule = "A case is one kernel call on generated tensors; non-trivial: more than one tap, and the output contains at least one value strictly inside the output range.";

static ConvFn kDw[3][3] = {
  {mli_krn_depthwise_conv2d_hwcn_fx16, mli_krn_depthwise_conv2d_hwcn_fx16_k3x3, mli_krn_depthwise_conv2d_hwcn_fx16_k5x5},
  {mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8, mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8_k3x3, mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8_k5x5},
  {mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32, mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32_k3x3, mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32_k5x5}};
static ConvFn kGr[3][3] = {
  {mli_krn_group_conv2d_hwcn_fx16, mli_krn_group_conv2d_hwcn_fx16_k3x3, mli_krn_group_conv2d_hwcn_fx16_k5x5},
  {mli_krn_group_conv2d_hwcn_fx16_fx8_fx8, mli_krn_group_conv2d_hwcn_fx16_fx8_fx8_k3x3, mli_krn_group_conv2d_hwcn_fx16_fx8_fx8_k5x5},
  {mli_krn_group_conv2d_hwcn_sa8_sa8_sa32, mli_krn_group_conv2d_hwcn_sa8_sa8_sa32_k3x3, mli_krn_group_conv2d_hwcn_sa8_sa8_sa32_k5x5}};

static void geo(G& g, ConvCase& c, int& spec) {
  spec = (int)g.weighted({60, 20, 20});
  int kh, kw;
  if (spec) kh = kw = spec * 2 + 1;
  else { kh = gen_k(g, 7); kw = gen_k(g, 7); }
  c.q = gen_geo(g, kh, kw, kh * kw > 20 ? 4 : 6);
}
static void dw(G& g, MathType m) {
  world().reset();
  ConvCase c; c.m = m;
  int spec; geo(g, c, spec);
  int ci = gen_ch(g, 9, 40000 / (c.q.oh * c.q.ow * c.q.kh * c.q.kw));
  conv_make(g, c, ci, 1, ci, [&](ConvCase& k) { return conv_acc(k.q, k.in, k.w, ci, m == SA8 ? k.in.zp[0] : 0); });
  g.note("depthwise spec %d", spec);
  conv_call(g, c, kDw[m][spec], "depthwise");
  if (spec) g.label("specialised");
}
static void gr(G& g, MathType m) {
  world().reset();
  ConvCase c; c.m = m;
  int spec; geo(g, c, spec);
  int vol = 40000 / (c.q.oh * c.q.ow * c.q.kh * c.q.kw);
  int cg = gen_ch(g, 5, vol), og = gen_ch(g, 4, vol / cg), n = gen_ch(g, 5, vol / cg / og);
  conv_make(g, c, cg * n, cg, og * n, [&](ConvCase& k) { return conv_acc(k.q, k.in, k.w, n, m == SA8 ? k.in.zp[0] : 0); });
  g.note("group conv, %d groups, spec %d", n, spec);
  conv_call(g, c, kGr[m][spec], "group conv");
  if (spec) g.label("specialised");
  if (n > 1) g.label("several groups");
}
static void dw0(G& g) { dw(g, FX16); }
static void dw1(G& g) { dw(g, FX16_FX8); }
static void dw2(G& g) { dw(g, SA8); }
static void gr0(G& g) { gr(g, FX16); }
static void gr1(G& g) { gr(g, FX16_FX8); }
static void gr2(G& g) { gr(g, SA8); }
PBT_SUB("depthwise_fx16", 1, dw0);
PBT_SUB("depthwise_fx16_fx8_fx8", 1, dw1);
PBT_SUB("depthwise_sa8_sa8_sa32", 1, dw2);
PBT_SUB("group_conv_fx16", 1, gr0);
PBT_SUB("group_conv_fx16_fx8_fx8", 1, gr1);
PBT_SUB("group_conv_sa8_sa8_sa32", 1, gr2);
