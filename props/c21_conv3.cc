// C21: MLI 3.0 convolutions, fully connected and matmul compute the integer accumulations they document.
#include "conv3.h"
#include "mm3.h"
#include "fc3.h"
const char* pbt::g_rule = "a case is non-trivial when the run-time object was created, issued for every tile and every output element was compared with the model; distinct = distinct generated choice sequences";
using namespace m3;

static void conv(G& g, CKind k) {
  world().reset();
  Conv3 c = gen_conv3(g, k);
  if (g.verbose()) g.note("%s\nx %s\nw %s", c.str().c_str(), c.x.str().c_str(), c.w.str().c_str());
  Arr y = run_conv3(g, c, whole_conv3(c));
  compare(g, y, model_conv3(c), c.str().c_str());
  g.nontrivial(); g.evals(1);
}
static void conv2d(G& g) { conv(g, CONV); }
static void depthwise(G& g) { conv(g, DWC); }
static void transpose(G& g) { conv(g, TCONV); }
PBT_SUB("conv2d", 4, conv2d);
PBT_SUB("depthwise", 3, depthwise);
PBT_SUB("transpose", 3, transpose);
static void matmul(G& g) {
  world().reset();
  MM3 c = gen_mm3(g);
  if (g.verbose()) g.note("%s", c.str().c_str());
  compare(g, run_mm3(g, c, c.M), model_mm3(c), "matmul");
  g.nontrivial(); g.evals(1);
}
static void fc(G& g) { fc_case(g); g.nontrivial(); g.evals(1); }
PBT_SUB("fully_connected", 3, fc);
PBT_SUB("matmul", 2, matmul);
