// C25: MLI 3.0 permute, move and move with broadcast.
#include "mv3.h"
const char* pbt::g_rule = "a case is non-trivial when the run-time object was created, issued and every destination byte was compared with the model; distinct = distinct generated choice sequences";
using namespace m3;
static void permute(G& g) {
  world().reset();
  Perm3 c = gen_perm3(g);
  if (g.verbose()) g.note("%s", c.str().c_str());
  compare(g, run_perm3(g, c, false, c.d), model_perm3(c), "permute");
  g.nontrivial(); g.evals(1);
}
static void broadcast(G& g) {
  world().reset();
  Bc3 c = gen_bc3(g);
  if (g.verbose()) g.note("%s", c.str().c_str());
  compare(g, run_bc3(g, c, false, c.d), model_bc3(c), "move_broadcast");
  g.nontrivial(); g.evals(1);
}
static void mov(G& g, bool tiled) {
  world().reset();
  Mov3 c = gen_mov3(g);
  if (g.verbose()) g.note("rank %d es %d %s", c.rank, c.es, c.x.str().c_str());
  MovTile t = gen_movtile(g, c, tiled);
  if (g.verbose()) g.note("%s", movtile_str(t).c_str());
  run_mov3(g, c, t, tiled);
  g.nontrivial(); g.evals(1);
}
static void whole(G& g) { mov(g, false); }
static void tiles(G& g) { mov(g, true); }
PBT_SUB("permute", 3, permute);
PBT_SUB("move_broadcast", 3, broadcast);
PBT_SUB("move", 2, whole);
PBT_SUB("move_tiles", 4, tiles);
