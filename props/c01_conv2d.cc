#include "conv2d.h"
using namespace vt;
const char* pbt::g_rule = "A case is one kernel call on generated tensors; non-trivial: more than one tap, and the output contains at least one value strictly inside the output range.";

static ConvFn kFns[3][4] = {
  {mli_krn_conv2d_hwcn_fx16, mli_krn_conv2d_hwcn_fx16_k1x1, mli_krn_conv2d_hwcn_fx16_k3x3, mli_krn_conv2d_hwcn_fx16_k5x5},
  {mli_krn_conv2d_hwcn_fx16_fx8_fx8, mli_krn_conv2d_hwcn_fx16_fx8_fx8_k1x1, mli_krn_conv2d_hwcn_fx16_fx8_fx8_k3x3, mli_krn_conv2d_hwcn_fx16_fx8_fx8_k5x5},
  {mli_krn_conv2d_hwcn_sa8_sa8_sa32, mli_krn_conv2d_hwcn_sa8_sa8_sa32_k1x1, mli_krn_conv2d_hwcn_sa8_sa8_sa32_k3x3, mli_krn_conv2d_hwcn_sa8_sa8_sa32_k5x5}};

static void run(G& g, MathType m) {
  world().reset();
  ConvCase c; c.m = m;
  int spec = (int)g.weighted({55, 15, 15, 15});
  int kh, kw;
  if (spec) kh = kw = spec * 2 - 1;
  else { kh = gen_k(g, 7); kw = gen_k(g, 7); }
  c.q = gen_geo(g, kh, kw, kh * kw > 20 ? 4 : 6);
  int vol = 40000 / (c.q.oh * c.q.ow * kh * kw);
  int ci = gen_ch(g, kh * kw > 20 ? 4 : 9, vol), co = gen_ch(g, 7, vol / ci);
  conv_make(g, c, ci, ci, co, [&](ConvCase& k) { return conv_acc(k.q, k.in, k.w, 1, m == SA8 ? k.in.zp[0] : 0); });
  g.note("conv2d spec %d", spec);
  conv_call(g, c, kFns[m][spec], "conv2d");
  if (spec) g.label("specialised");
}
static void fx16(G& g) { run(g, FX16); }
static void fx8w(G& g) { run(g, FX16_FX8); }
static void sa8(G& g) { run(g, SA8); }
PBT_SUB("conv2d_fx16", 1, fx16);
PBT_SUB("conv2d_fx16_fx8_fx8", 1, fx8w);
PBT_SUB("conv2d_sa8_sa8_sa32", 1, sa8);
