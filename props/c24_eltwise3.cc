// C24: MLI 3.0 element-wise operators, PReLU, bilinear resize.
#include "ew3.h"
const char* pbt::g_rule = "a case is non-trivial when the operator ran and every output element was compared with the model; distinct = distinct generated choice sequences";
using namespace m3;

static void elt(G& g) {
  world().reset();
  Elt3 c = gen_elt3(g);
  if (g.verbose()) g.note("%s", c.str().c_str());
  compare(g, run_elt3(g, c, false, c.d), model_elt3(c), eop_name(c.op));
  g.label(eop_name(c.op)); if (c.scalar) g.label("scalar operand");
  g.nontrivial(); g.evals(1);
}
// the same object over tiles
static void elt_tiled(G& g) {
  world().reset();
  Elt3 c = gen_elt3(g);
  auto t = gen_tile(g, c.d, true);
  if (g.verbose()) g.note("%s tile %d %d %d %d", c.str().c_str(), t[0], t[1], t[2], t[3]);
  compare(g, run_elt3(g, c, true, t), model_elt3(c), eop_name(c.op));
  g.nontrivial(); g.evals(1);
}
static void prelu(G& g) {
  world().reset();
  Prel3 c = gen_prel3(g);
  if (g.verbose()) g.note("%s", c.str().c_str());
  Arr m = model_prel3(c);
  compare(g, run_prel3(g, c, false, c.d), m, "prelu");
  size_t sat = 0; for (auto v : m.v) sat += v == 127 || v == -128;
  if (sat * 2 > m.v.size()) g.label("mostly-saturated");
  g.label(c.axis < 0 ? "per-tensor" : c.axis == 4 ? "per-channel" : "other axis");
  g.nontrivial(); g.evals(1);
}
// equal positive and negative branches: PReLU is rescale
static void as_rescale(G& g) {
  world().reset();
  Prel3 c = gen_prel3(g);
  c.old4 = false; c.d[3] = 1; if (c.axis == 3) g.discard();
  c.x = Arr(c.d); for (auto& v : c.x.v) v = gen_val(g, 4);
  c.ns = c.ps; c.nh = c.ph;
  Resc3 r; r.rank = 4; r.ies = 4; r.oes = 1; r.d = {c.d[0], c.d[1], c.d[2], c.d[4]}; r.axis = c.axis == 4 ? 3 : c.axis;
  r.ib = c.ib; r.sc = c.ps; r.sh = c.ph; r.ob = c.ob; r.x = Arr(r.d); r.x.v = c.x.v;
  if (g.verbose()) g.note("%s", c.str().c_str());
  Arr a = run_prel3(g, c, false, c.d);
  world().reset();
  Arr b = run_resc3(g, r, false, r.d);
  a.d = b.d;
  compare(g, a, b, "prelu with equal branches and rescale");
  g.nontrivial(); g.evals(2);
}
static void resize(G& g) {
  world().reset();
  Resz3 c = gen_resz3(g);
  if (g.verbose()) g.note("%s", c.str().c_str());
  compare(g, run_resz3(g, c), model_resz3(c), "resize");
  g.nontrivial(); g.evals(1);
}
PBT_SUB("eltwise", 5, elt);
PBT_SUB("eltwise-tiled", 2, elt_tiled);
PBT_SUB("prelu", 4, prelu);
PBT_SUB("prelu-rescale", 1, as_rescale);
PBT_SUB("resize", 2, resize);
