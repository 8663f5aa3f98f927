// C27: MLI 3.0 kernels are relocatable, repeatable and stay within the announced sizes.
#include "conv3.h"
#include "mm3.h"
#include "fc3.h"
#include "ew3.h"
#include "mv3.h"
const char* pbt::g_rule = "a case is non-trivial when a second run-time object made from the same private data with other memory bases executed every tile and left identical memory; distinct = distinct generated choice sequences";
using namespace m3;
struct On { On() { world().reset(); reloc().on = true; reloc().twin = nullptr; } ~On() { reloc().on = false; } };
static void done(G& g) { if (reloc().twin) { g.nontrivial(); } g.evals(1); }
static int tsz(G& g, int n, int lo = 1) { return lo >= n || g.chance(40) ? n : (int)g.range(lo, n); }
static void conv(G& g, CKind k) {
  On on;
  Conv3 c = gen_conv3(g, k);
  Tile3 t = whole_conv3(c);
  if (g.chance(70)) {
    t.tiled = true;
    t.t[1] = tsz(g, t.t[1], std::max(1, (c.pt + c.sh - 1) / c.sh)); t.t[2] = tsz(g, t.t[2], std::max(1, (c.pl + c.sw - 1) / c.sw));
    t.t[4] = tsz(g, t.t[4]); if (k == DWC) t.t[0] = tsz(g, t.t[0]);
  }
  if (g.verbose()) g.note("%s tile %u %u %u %u %u", c.str().c_str(), t.t[0], t.t[1], t.t[2], t.t[3], t.t[4]);
  compare(g, run_conv3(g, c, t), model_conv3(c), "convolution");
  done(g);
}
static void conv2d(G& g) { conv(g, CONV); }
static void dwconv(G& g) { conv(g, DWC); }
static void tconv(G& g) { conv(g, TCONV); }
static void fc(G& g) { On on; fc_case(g); done(g); }
static void matmul(G& g) { On on; MM3 c = gen_mm3(g); if (g.verbose()) g.note("%s", c.str().c_str()); compare(g, run_mm3(g, c, tsz(g, c.M)), model_mm3(c), "matmul"); done(g); }
static void pool(G& g, bool sum) {
  On on;
  Pool3 c = gen_pool3(g, sum);
  std::vector<int> t = {c.B, c.OH, c.OW, c.C}; bool tiled = g.chance(60);
  if (tiled) t = {tsz(g, c.B), tsz(g, c.OH, std::max(1, (c.pt + c.sh - 1) / c.sh)), tsz(g, c.OW, std::max(1, (c.pl + c.sw - 1) / c.sw)), tsz(g, c.C)};
  if (g.verbose()) g.note("%s tile %d %d %d %d", c.str().c_str(), t[0], t[1], t[2], t[3]);
  compare(g, run_pool3(g, c, t, tiled), model_pool3(c), "pooling");
  done(g);
}
static void maxpool(G& g) { pool(g, false); }
static void sumpool(G& g) { pool(g, true); }
static void red(G& g, bool sum) {
  On on;
  Red3 c = gen_red3(g, sum); bool tiled = g.chance(60);
  std::vector<int> t = tiled ? gen_tile(g, c.d, true) : c.d; t[c.axis] = c.d[c.axis];
  if (g.verbose()) g.note("%s tiled %d", c.str().c_str(), tiled);
  compare(g, run_red3(g, c, tiled, t), model_red3(c), "reduction");
  done(g);
}
static void redmax(G& g) { red(g, false); }
static void redsum(G& g) { red(g, true); }
static void rescale(G& g) {
  On on; bool tiled = g.chance(60);
  Resc3 c = gen_resc3(g, tiled);
  std::vector<int> t = tiled ? gen_tile(g, c.d, true) : c.d;
  if (g.verbose()) g.note("%s tiled %d", c.str().c_str(), tiled);
  compare(g, run_resc3(g, c, tiled, t), model_resc3(c), "rescale");
  done(g);
}
static void clip(G& g) {
  On on; bool tiled = g.chance(60);
  Clip3 c = gen_clip3(g, tiled);
  std::vector<int> t = tiled ? gen_tile(g, c.d, true) : c.d;
  compare(g, run_clip3(g, c, tiled, t), model_clip3(c), "clip");
  done(g);
}
static void eltwise(G& g) {
  On on; bool tiled = g.chance(60);
  Elt3 c = gen_elt3(g);
  std::vector<int> t = tiled ? gen_tile(g, c.d, true) : c.d;
  if (g.verbose()) g.note("%s tiled %d", c.str().c_str(), tiled);
  compare(g, run_elt3(g, c, tiled, t), model_elt3(c), "element-wise operator");
  done(g);
}
static void prelu(G& g) {
  On on; bool tiled = g.chance(60);
  Prel3 c = gen_prel3(g); if (c.old4) tiled = false;
  std::vector<int> t = tiled ? gen_tile(g, c.d, true) : c.d;
  if (g.verbose()) g.note("%s tiled %d", c.str().c_str(), tiled);
  compare(g, run_prel3(g, c, tiled, t), model_prel3(c), "prelu");
  done(g);
}
static void permute(G& g) {
  On on; bool tiled = g.chance(60);
  Perm3 c = gen_perm3(g);
  if (g.verbose()) g.note("%s tiled %d", c.str().c_str(), tiled);
  compare(g, run_perm3(g, c, tiled, tiled ? tile_perm3(g, c) : c.d), model_perm3(c), "permute");
  done(g);
}
static void bcast(G& g) {
  On on; bool tiled = g.chance(60);
  Bc3 c = gen_bc3(g);
  if (g.verbose()) g.note("%s tiled %d", c.str().c_str(), tiled);
  compare(g, run_bc3(g, c, tiled, tiled ? tile_bc3(g, c) : c.d), model_bc3(c), "move with broadcast");
  done(g);
}
static void move(G& g) {
  On on; bool tiled = g.chance(70);
  Mov3 c = gen_mov3(g); MovTile t = gen_movtile(g, c, tiled);
  if (g.verbose()) g.note("move int%d x %s%s", c.es * 8, c.x.str().c_str(), movtile_str(t).c_str());
  run_mov3(g, c, t, tiled);
  done(g);
}
// no operation, invalid and unknown kernels
static void kinds(G& g) {
  On on;
  Banks bk; bk.gen(g); Life l;
  auto* op = factory().Nop_CS(cs_buffer(g, l, factory().Nop_CS_GetSize()));
  auto* e = create(g, l, op, bk);
  as<ref::Nop>(g, e);
  uint8_t* mem = world().alloc(40, "memory", true); junk(g, mem, 40);
  for (int i = (int)g.range(1, 3); i > 0; i--) { step(g, e); update(g, e); }
  done(g);
}
// kernels without run-time object are refused (builds with assertions stop instead)
static void refuse(G& g) {
  world().reset();
  if (!strcmp(VP_CONFIG, "up_full_dbg")) { kinds(g); return; }
  static const int bad[] = {0, 20, 21, 24, 25, 26, 1000, -1, 255};
  mli::PrivateData p((mli::kernel_id_t)(g.chance(70) ? bad[g.draw(9)] : (int)g.range(25, 1 << 20)), sizeof(mli::PrivateData));
  uint8_t* pr = world().alloc(sizeof p, "private data", true); memcpy(pr, &p, sizeof p);
  uint32_t n = (uint32_t)g.range(8, 4000);
  uint8_t* m = world().alloc(n, "object memory", true); junk(g, m, n);
  world().snapshot();
  uint64_t b[1] = {0};
  if (ExecutionInterface::Create(m, n, pr, sizeof p, b, 1)) g.fail("wrong-kind", "Create made an object for kernel id %d", (int)p.kernel_id);
  world().check_frozen(g, "Create");
  g.nontrivial(); g.evals(1);
}
PBT_SUB("refused_kinds", 1, refuse);
PBT_SUB("conv2d", 4, conv2d);
PBT_SUB("depthwise", 4, dwconv);
PBT_SUB("transpose_conv", 4, tconv);
PBT_SUB("fully_connected", 3, fc);
PBT_SUB("matmul", 2, matmul);
PBT_SUB("maxpool", 2, maxpool);
PBT_SUB("sumpool", 2, sumpool);
PBT_SUB("reduce_max", 2, redmax);
PBT_SUB("reduce_sum", 2, redsum);
PBT_SUB("rescale", 3, rescale);
PBT_SUB("clip", 1, clip);
PBT_SUB("eltwise", 4, eltwise);
PBT_SUB("prelu", 2, prelu);
PBT_SUB("permute", 2, permute);
PBT_SUB("move_broadcast", 2, bcast);
PBT_SUB("move", 3, move);
PBT_SUB("nop", 1, kinds);
