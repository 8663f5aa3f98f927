// C26: MLI 3.0 tiled execution gives the output of untiled execution.
#include "conv3.h"
#include "mm3.h"
#include "ew3.h"
#include "mv3.h"
const char* pbt::g_rule = "a case is non-trivial when there is more than one tile, every tile was executed and every output element was compared with the untiled model; distinct = distinct generated choice sequences";
using namespace m3;
static void done(G& g, bool multi, int evals = 1) { if (multi) g.nontrivial(); g.evals(evals); }
static int tsz(G& g, int n, int lo = 1) { return lo >= n || g.chance(25) ? n : (int)g.range(lo, n); }
static void conv(G& g, CKind k) {
  world().reset();
  Conv3 c = gen_conv3(g, k);
  Tile3 t = whole_conv3(c); t.tiled = true;
  uint32_t w[5]; memcpy(w, t.t, sizeof w);
  // documented restriction: the first tile covers the padding before it
  t.t[1] = tsz(g, w[1], (c.pt + c.sh - 1) / c.sh); t.t[2] = tsz(g, w[2], (c.pl + c.sw - 1) / c.sw);
  t.t[4] = tsz(g, w[4]); if (k == DWC) t.t[0] = tsz(g, w[0]);
  if (t.t[1] < 1) t.t[1] = 1;
  if (t.t[2] < 1) t.t[2] = 1;
  if (g.verbose()) g.note("%s tile %u %u %u %u %u", c.str().c_str(), t.t[0], t.t[1], t.t[2], t.t[3], t.t[4]);
  Arr m = model_conv3(c);
  if (t.t[1] < w[1] || t.t[2] < w[2]) g.label("height-width-tiles");
  if (k == TCONV && ((t.t[1] < w[1] && c.KH == c.sh) || (t.t[2] < w[2] && c.KW == c.sw))) g.label("disjoint-output-tiles");
  compare(g, run_conv3(g, c, t), m, "tiled convolution");
  done(g, memcmp(w, t.t, sizeof w) != 0);
}
static void conv2d(G& g) { conv(g, CONV); }
static void dwconv(G& g) { conv(g, DWC); }
static void tconv(G& g) { conv(g, TCONV); }
static void matmul(G& g) {
  world().reset();
  MM3 c = gen_mm3(g);
  int r = tsz(g, c.M);
  compare(g, run_mm3(g, c, r), model_mm3(c), "tiled matmul");
  done(g, r < c.M);
}
static void pool(G& g, bool sum) {
  world().reset();
  Pool3 c = gen_pool3(g, sum);
  std::vector<int> t = {tsz(g, c.B), tsz(g, c.OH, std::max(1, (c.pt + c.sh - 1) / c.sh)), tsz(g, c.OW, std::max(1, (c.pl + c.sw - 1) / c.sw)), tsz(g, c.C)};
  if (g.verbose()) g.note("%s tile %d %d %d %d", c.str().c_str(), t[0], t[1], t[2], t[3]);
  compare(g, run_pool3(g, c, t, true), model_pool3(c), sum ? "tiled sumpool" : "tiled maxpool");
  done(g, t != std::vector<int>({c.B, c.OH, c.OW, c.C}));
}
static void maxpool(G& g) { pool(g, false); }
static void sumpool(G& g) { pool(g, true); }
static void red(G& g, bool sum) {
  world().reset();
  Red3 c = gen_red3(g, sum);
  std::vector<int> t = gen_tile(g, c.d, true); t[c.axis] = c.d[c.axis];
  if (g.verbose()) g.note("%s tile %d %d %d %d", c.str().c_str(), t[0], t.size() > 1 ? t[1] : 0, t.size() > 2 ? t[2] : 0, t.size() > 3 ? t[3] : 0);
  compare(g, run_red3(g, c, true, t), model_red3(c), sum ? "tiled reduce-sum" : "tiled reduce-max");
  done(g, t != c.d);
}
static void redmax(G& g) { red(g, false); }
static void redsum(G& g) { red(g, true); }
static void rescale(G& g) {
  world().reset();
  Resc3 c = gen_resc3(g, true);
  std::vector<int> t = gen_tile(g, c.d, true);
  if (g.verbose()) g.note("%s tile %d %d %d %d", c.str().c_str(), t[0], t[1], t[2], t[3]);
  compare(g, run_resc3(g, c, true, t), model_resc3(c), "tiled rescale");
  done(g, t != c.d);
}
static void clip(G& g) {
  world().reset();
  Clip3 c = gen_clip3(g, true);
  std::vector<int> t = gen_tile(g, c.d, true);
  compare(g, run_clip3(g, c, true, t), model_clip3(c), "tiled clip");
  done(g, t != c.d);
}
static void eltwise(G& g) {
  world().reset();
  Elt3 c = gen_elt3(g);
  std::vector<int> t = gen_tile(g, c.d, true);
  if (g.verbose()) g.note("%s tile %d %d %d %d", c.str().c_str(), t[0], t[1], t[2], t[3]);
  compare(g, run_elt3(g, c, true, t), model_elt3(c), "tiled eltwise");
  done(g, t != c.d);
}
static void prelu(G& g) {
  world().reset();
  Prel3 c = gen_prel3(g);
  if (c.old4) g.discard();
  std::vector<int> t = gen_tile(g, c.d, true);
  if (g.verbose()) { std::string s; for (int v : t) s += " " + std::to_string(v); g.note("%s tile%s", c.str().c_str(), s.c_str()); }
  compare(g, run_prel3(g, c, true, t), model_prel3(c), "tiled prelu");
  done(g, t != c.d);
}
static void permute(G& g) {
  world().reset();
  Perm3 c = gen_perm3(g);
  std::vector<int> t = tile_perm3(g, c);
  compare(g, run_perm3(g, c, true, t), model_perm3(c), "tiled permute");
  done(g, t != c.d);
}
static void broadcast(G& g) {
  world().reset();
  Bc3 c = gen_bc3(g);
  std::vector<int> t = tile_bc3(g, c);
  compare(g, run_bc3(g, c, true, t), model_bc3(c), "tiled move_broadcast");
  done(g, t != c.d);
}
PBT_SUB("conv2d", 5, conv2d);
PBT_SUB("depthwise", 5, dwconv);
PBT_SUB("transpose_conv", 5, tconv);
PBT_SUB("matmul", 1, matmul);
PBT_SUB("maxpool", 3, maxpool);
PBT_SUB("sumpool", 3, sumpool);
PBT_SUB("reduce_max", 2, redmax);
PBT_SUB("reduce_sum", 2, redsum);
PBT_SUB("rescale", 3, rescale);
PBT_SUB("clip", 1, clip);
PBT_SUB("eltwise", 3, eltwise);
PBT_SUB("prelu", 2, prelu);
PBT_SUB("permute", 2, permute);
PBT_SUB("move_broadcast", 2, broadcast);
