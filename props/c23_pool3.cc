// C23: MLI 3.0 pooling and reductions.
#include "pl3.h"
const char* pbt::g_rule = "a case is non-trivial when the run-time object was created, issued and every output element was compared with the model; distinct = distinct generated choice sequences";
using namespace m3;
static void pool(G& g, bool sum) {
  world().reset();
  Pool3 c = gen_pool3(g, sum);
  if (g.verbose()) g.note("%s", c.str().c_str());
  compare(g, run_pool3(g, c, {c.B, c.OH, c.OW, c.C}, false), model_pool3(c), sum ? "sumpool" : "maxpool");
  g.nontrivial(); g.evals(1);
}
static void maxpool(G& g) { pool(g, false); }
static void sumpool(G& g) { pool(g, true); }
static void red(G& g, bool sum) {
  world().reset();
  Red3 c = gen_red3(g, sum);
  if (g.verbose()) g.note("%s", c.str().c_str());
  compare(g, run_red3(g, c, false, c.d), model_red3(c), sum ? "reduce-sum" : "reduce-max");
  g.nontrivial(); g.evals(1);
}
static void redmax(G& g) { red(g, false); }
static void redsum(G& g) { red(g, true); }
PBT_SUB("maxpool", 3, maxpool);
PBT_SUB("sumpool", 3, sumpool);
PBT_SUB("reduce_max", 2, redmax);
PBT_SUB("reduce_sum", 2, redsum);
