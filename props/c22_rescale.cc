// C22: MLI 3.0 rescale and clip.
#include "el3.h"
const char* pbt::g_rule = "a case is non-trivial when the run-time object was created, issued and every output element was compared with the model; distinct = distinct generated choice sequences";
using namespace m3;

static void rescale(G& g) {
  world().reset();
  Resc3 c = gen_resc3(g, false);
  if (g.verbose()) g.note("%s", c.str().c_str());
  Arr m = model_resc3(c);
  compare(g, run_resc3(g, c, false, c.d), m, "rescale");
  int64_t hi = (1LL << (8 * c.oes - 1)) - 1; size_t sat = 0;
  for (auto v : m.v) sat += v == hi || v == -hi - 1;
  if (sat * 2 > m.v.size()) g.label("mostly-saturated");
  g.label(c.axis < 0 ? "per-tensor" : "per-axis");
  g.label(c.ies == 1 ? "8-bit input" : "32-bit input");
  g.nontrivial(); g.evals(1);
}
// all per-axis parameters equal: same result as the per-tensor form
static void forms(G& g) {
  world().reset();
  Resc3 c = gen_resc3(g, false);
  if (c.axis < 0) g.discard();
  for (size_t i = 1; i < c.ib.size(); i++) { c.ib[i] = c.ib[0]; c.sc[i] = c.sc[0]; c.sh[i] = c.sh[0]; c.ob[i] = c.ob[0]; }
  Resc3 t = c; t.axis = -1; t.ib.resize(1); t.sc.resize(1); t.sh.resize(1); t.ob.resize(1);
  if (g.verbose()) g.note("%s", c.str().c_str());
  Arr a = run_resc3(g, c, false, c.d);
  world().reset();
  compare(g, run_resc3(g, t, false, c.d), a, "per-tensor and per-axis forms");
  g.nontrivial(); g.evals(2);
}
static void clip(G& g) {
  world().reset();
  Clip3 c = gen_clip3(g, false);
  if (g.verbose()) g.note("clip [%d, %d] x %s", c.lo, c.hi, c.x.str().c_str());
  compare(g, run_clip3(g, c, false, c.d), model_clip3(c), "clip");
  g.nontrivial(); g.evals(1);
}
PBT_SUB("rescale", 5, rescale);
PBT_SUB("forms", 1, forms);
PBT_SUB("clip", 2, clip);
