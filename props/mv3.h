// MLI 3.0 data movement: permute, move, move-broadcast. Used by C25-C27.
#pragma once
#include "pl3.h"
namespace m3 {
// ------------------------------------------------------------------ permute
struct Perm3 { int rank, es; std::vector<int> d, p; Arr x; std::string str() const { std::string s = "permute int" + std::to_string(es * 8) + " order"; for (int v : p) s += " " + std::to_string(v); return s + " x " + x.str(); } };
inline Perm3 gen_perm3(G& g) {
  Perm3 c; c.rank = (int)g.range(1, 4); c.es = g.pick<int>({1, 2, 4});
  for (int i = 0; i < c.rank; i++) { c.d.push_back((int)g.range(1, 5)); c.p.push_back(i); }
  if (g.chance(5)) c.d[g.draw(c.rank)] = (int)g.range(6, 40);
  for (int i = c.rank - 1; i > 0; i--) std::swap(c.p[i], c.p[g.draw(i + 1)]);
  std::vector<int> d4 = c.d; while (d4.size() < 4) d4.push_back(1);
  c.x = gen_arr(g, d4, c.es);
  return c;
}
inline Arr model_perm3(const Perm3& c) {
  std::vector<int> od; for (int i = 0; i < 4; i++) od.push_back(i < c.rank ? c.d[c.p[i]] : 1);
  Arr y(od); size_t k = 0;
  each(od, [&](const int* o) { int i[4] = {0, 0, 0, 0}; for (int r = 0; r < c.rank; r++) i[c.p[r]] = o[r]; y.v[k++] = c.x.v[c.x.idx(i)]; });
  return y;
}
// tiling of the input; input and output walk in step only when the permutation keeps the order of the tiled dimensions
inline std::vector<int> tile_perm3(G& g, const Perm3& c) {
  std::vector<int> t = c.d; int last = -1;
  for (int o = 0; o < c.rank; o++) { int i = c.p[o]; if (i > last && c.d[i] > 1 && g.chance(60)) { t[i] = (int)g.range(1, c.d[i]); if (t[i] < c.d[i]) last = i; } }
  return t;
}
inline Arr run_perm3(G& g, const Perm3& c, bool tiled, const std::vector<int>& tile) {
  Banks bk; bk.gen(g); Life l;
  Opnd<4> in, out; in.name = "input tile"; out.name = "output tile"; in.es = out.es = c.es;
  std::vector<int> od, ot; for (int r = 0; r < c.rank; r++) { od.push_back(c.d[c.p[r]]); ot.push_back(tile[c.p[r]]); }
  set_dims(in, c.d, tile); set_dims(out, od, ot);
  in.layout(g, g.chance(50) ? in.dims : in.tmax); in.alloc(true);
  out.layout(g, g.chance(50) ? out.dims : out.tmax); out.alloc(false);
  It4 ii = mk_it(in.dims, in.str, c.rank, tiled, tile);
  std::vector<int> ot4 = ot, it4 = tile;
  It4 oi = mk_it(out.dims, out.str, c.rank, tiled, ot4);
  mli::PermuteOpConfig cfg; for (int i = 0; i < 4; i++) cfg.perm_dim[i] = i < c.rank ? c.p[i] : tiled ? i : (int)g.range(0, 3);
  auto* op = factory().Permute_CS(cs_buffer(g, l, factory().Permute_CS_GetSize()), ii, cfg, oi);
  OffsetBuffer a = bk.ob(g, in.buf, in.bytes, c.es), b = bk.ob(g, out.buf, out.bytes, c.es), ctrl;
  ok(g, op->AttachBufferOffsets(a, b, ctrl), "AttachBufferOffsets");
  unsigned tiles = tiled ? ii.GetTotalCount() : 1;
  if (tiled && tiles > 1) g.label("tiled");
  std::vector<int> y4 = od; while (y4.size() < 4) y4.push_back(1);
  return walk_io<ref::Permute>(g, create(g, l, op, bk), tiles, c.x, in, out, y4, c.rank);
}
// ------------------------------------------------------------------ move with broadcast
struct Bc3 { int rank, es; std::vector<int> s, d; Arr x; std::string str() const { std::string r = "move_broadcast int" + std::to_string(es * 8) + " to"; for (int v : d) r += " " + std::to_string(v); return r + " x " + x.str(); } };
inline Bc3 gen_bc3(G& g) {
  Bc3 c; c.rank = (int)g.range(1, 4); c.es = g.pick<int>({1, 2, 4});
  for (int i = 0; i < c.rank; i++) { int v = (int)g.range(1, 5); c.d.push_back(v); c.s.push_back(g.chance(40) ? 1 : v); }
  std::vector<int> d4 = c.s; while (d4.size() < 4) d4.push_back(1);
  c.x = gen_arr(g, d4, c.es);
  return c;
}
inline Arr model_bc3(const Bc3& c) {
  std::vector<int> od = c.d; while (od.size() < 4) od.push_back(1);
  Arr y(od); size_t k = 0;
  each(od, [&](const int* o) { int i[4]; for (int r = 0; r < 4; r++) i[r] = c.x.d[r] == 1 ? 0 : o[r]; y.v[k++] = c.x.v[c.x.idx(i)]; });
  return y;
}
// broadcast axes are not tiled (documented limitation)
inline std::vector<int> tile_bc3(G& g, const Bc3& c) {
  std::vector<int> t = c.d;
  for (int i = 0; i < c.rank; i++) if (c.s[i] == c.d[i] && g.chance(60)) t[i] = (int)g.range(1, c.d[i]);
  return t;
}
inline Arr run_bc3(G& g, const Bc3& c, bool tiled, const std::vector<int>& tile) {
  Banks bk; bk.gen(g); Life l;
  Opnd<4> in, out; in.name = "source tile"; out.name = "destination tile"; in.es = out.es = c.es;
  std::vector<int> st; for (int r = 0; r < c.rank; r++) st.push_back(c.s[r] == c.d[r] ? tile[r] : 1);
  set_dims(in, c.s, st); set_dims(out, c.d, tile);
  in.layout(g, g.chance(50) ? in.dims : in.tmax); in.alloc(true);
  out.layout(g, g.chance(50) ? out.dims : out.tmax); out.alloc(false);
  It4 ii = mk_it(in.dims, in.str, c.rank, tiled, st), oi = mk_it(out.dims, out.str, c.rank, tiled, tile);
  auto* op = factory().MoveBroadcast_CS(cs_buffer(g, l, factory().MoveBroadcast_CS_GetSize()), ii, oi, mli::MoveDataDirection::kMoveDataDirectionInput);
  OffsetBuffer a = bk.ob(g, in.buf, in.bytes, c.es), b = bk.ob(g, out.buf, out.bytes, c.es), ctrl;
  ok(g, op->AttachBufferOffsets(a, b, ctrl), "AttachBufferOffsets");
  unsigned tiles = tiled ? oi.GetTotalCount() : 1;
  if (tiled && tiles > 1) g.label("tiled");
  std::vector<int> y4 = c.d; while (y4.size() < 4) y4.push_back(1);
  return walk_io<ref::MoveBroadcast>(g, create(g, l, op, bk), tiles, c.x, in, out, y4, c.rank);
}
// ------------------------------------------------------------------ move
typedef mli::TensorIterator<NoBuffer, 5, 5> It5;
struct MovTile { int32_t count[5], finc[5], inc[5], fsz[5], sz[5], lsz[5]; bool ctor_ok; int skew; int32_t ord[5];  // iteration dimension -> tensor dimension
  int pos(int d, int k) const { return k == 0 ? 0 : finc[d] + (k - 1) * inc[d]; }
  int size(int d, int k, int n) const { int s = k == count[d] - 1 ? lsz[d] : k == 0 ? fsz[d] : sz[d]; return std::min(s, n - pos(d, k)); } };
inline std::string movtile_str(const MovTile& t) { std::string s; for (int i = 0; i < 5; i++) { char b[120]; snprintf(b, sizeof b, " [count %d inc %d %d size %d %d %d]", t.count[i], t.finc[i], t.inc[i], t.fsz[i], t.sz[i], t.lsz[i]); s += b; } return s; }
struct Mov3 { int rank, es; std::vector<int> d; Arr x; };
inline Mov3 gen_mov3(G& g) {
  Mov3 c; c.rank = (int)g.range(1, 5); c.es = g.pick<int>({1, 2, 4});
  for (int i = 0; i < c.rank; i++) c.d.push_back((int)g.range(1, 4));
  if (g.chance(20)) c.d[g.draw(c.rank)] = (int)g.range(5, 20);
  std::vector<int> d5 = c.d; while (d5.size() < 5) d5.push_back(1);
  c.x = gen_arr(g, d5, c.es);
  return c;
}
inline MovTile gen_movtile(G& g, const Mov3& c, bool tiled) {
  MovTile t; t.ctor_ok = true; t.skew = 0;
  for (int i = 0; i < 5; i++) t.ord[i] = i;
  // (the order of the iteration stays the identity: the sources disagree on how the arrays of a permuted configuration are indexed)
  for (int i = 0; i < 5; i++) {
    int n = i < c.rank ? c.d[i] : 1;
    t.count[i] = 1; t.finc[i] = t.inc[i] = t.fsz[i] = t.sz[i] = t.lsz[i] = n;
    if (!tiled || n == 1 || !g.chance(60)) continue;
    int inc = (int)g.range(1, n), ov = g.chance(25) ? (int)g.range(0, 2) : 0;
    int fi = g.chance(25) ? (int)g.range(1, inc) : inc;
    if (inc + ov > n) ov = 0;
    if (fi + ov >= n) continue;  // the first tile is the whole dimension
    t.finc[i] = fi; t.inc[i] = inc; t.fsz[i] = fi + ov; t.sz[i] = inc + ov;
    int k = 1; while (t.pos(i, k) + inc + ov < n) k++;
    t.count[i] = k + 1;
    t.lsz[i] = g.chance(60) ? n - t.pos(i, k) : inc + ov;
    if (ov || (fi != inc && i != t.ord[0])) t.ctor_ok = false;
    if (i == t.ord[0]) t.skew = inc - fi;
  }
  return t;
}
// runs the move and checks every byte of the destination after every step
inline void run_mov3(G& g, const Mov3& c, const MovTile& t, bool tiled) {
  Banks bk; bk.gen(g); Life l;
  int32_t order[5]; for (int i = 0; i < 5; i++) order[i] = t.ord[i];
  struct Side { Opnd<5> o; bool tile; int kind; It5 it; Tensor<NoBuffer, 5> ten; IteratorCfg<5> cfg; Tensor<OffsetBuffer, 5> ot(const OffsetBuffer& b) { return Tensor<OffsetBuffer, 5>(b, ten); } } s, d;
  s.o.name = "source"; d.o.name = "destination"; s.o.es = d.o.es = c.es;
  auto side = [&](Side& x, bool frozen) -> void {
    std::vector<int> tm; for (int i = 0; i < c.rank; i++) { int m = 0; for (int k = 0; k < t.count[i]; k++) m = std::max(m, t.size(i, k, c.d[i])); tm.push_back(m); }
    int kind = !tiled ? (int)g.weighted({3, 1, 2}) : t.ctor_ok ? (int)g.weighted({0, 2, 3}) : 2;
    x.tile = kind == 2 && tiled && g.chance(45);
    set_dims(x.o, c.d, x.tile ? tm : c.d);
    if (x.tile) { int64_t m = 1; for (int i = 4; i >= 0; i--) { x.o.str[i] = (int32_t)m; m *= i < c.rank ? t.sz[i] : 1; } }
    else {
      x.o.layout(g, x.o.dims);
      if (g.chance(20)) {  // the memory order of the dimensions is free
        int p[5] = {0, 1, 2, 3, 4}; for (int i = c.rank - 1; i > 0; i--) std::swap(p[i], p[g.draw(i + 1)]);
        int64_t m = 1; for (int i = 4; i >= 0; i--) { x.o.str[p[i]] = (int32_t)m; m *= x.o.dims[p[i]]; }
        g.label("transposed-strides");
      }
    }
    if (!x.tile && g.chance(15)) { x.o.lead = g.range(1, 20); g.label("tensor offset"); }
    x.o.alloc(frozen);
    uint32_t dims[5]; int32_t str[5];
    int mode = kind == 1 ? 0 : (int)g.weighted({2, 1, 2});  // missing dimensions: ones, zeros, smaller rank
    for (int i = 0; i < 5; i++) { dims[i] = i < c.rank || mode != 1 ? x.o.dims[i] : 0; str[i] = i < c.rank || mode != 1 ? x.o.str[i] : 0; }
    if (x.tile) for (int i = 0; i < c.rank; i++) { str[i] = (int32_t)g.range(1, 50); }  // replaced by the dense strides of a tile
    Tensor<NoBuffer, 5> ten(dims, str, (uint32_t)(mode == 2 ? c.rank : 5));
    ten.set_offs((uint32_t)x.o.lead);
    x.ten = ten; x.kind = kind;
    if (kind == 0) { x.it = It5(ten); g.label("whole-tensor iterator"); }
    else if (kind == 1) {
      uint32_t ts[5]; for (int i = 0; i < 5; i++) ts[i] = t.count[i] > 1 ? t.inc[i] : dims[i];
      if (t.skew && t.count[order[0]] > 1) x.it = It5(ten, IteratorCfg<5>(ten, ts, order, (uint32_t)t.skew)); else x.it = It5(ten, ts, order);
      g.label("tile-size iterator");
    } else {
      int32_t cnt[5], fi[5], in[5], li[5], fs[5], sz[5], ls[5];
      bool back = g.chance(50);
      for (int r = 0; r < 5; r++) {
        int i = order[r];
        cnt[r] = t.count[i]; fi[r] = t.finc[i]; in[r] = t.inc[i]; fs[r] = t.fsz[i]; sz[r] = t.sz[i]; ls[r] = t.lsz[i];
        int n = i < c.rank ? c.d[i] : 1, p = t.pos(i, t.count[i] - 1);
        li[r] = back ? -p : n - p;
      }
      x.it = It5(ten, IteratorCfg<5>(order, cnt, fi, in, li, fs, sz, ls, x.tile ? (uint32_t)g.range(1, 2) : 0u));
      g.label(back ? "explicit iterator, reset increments" : "explicit iterator, end increments");
      if (x.tile) g.label("tile buffer");
    }
    x.cfg = x.it.get_config();
    if (g.verbose()) g.note("%s kind %d tilebuf %d strides %d %d %d %d %d", x.o.name, kind, x.tile, x.o.str[0], x.o.str[1], x.o.str[2], x.o.str[3], x.o.str[4]);
    if (x.it.GetTotalCount() != (uint32_t)(t.count[0] * t.count[1] * t.count[2] * t.count[3] * t.count[4])) g.fail("tiles", "%s: iterator has %u tiles", x.o.name, x.it.GetTotalCount());
  };
  side(s, true); side(d, false);
  auto dir = g.draw(2) ? mli::MoveDataDirection::kMoveDataDirectionInput : mli::MoveDataDirection::kMoveDataDirectionOutput;
  void* mem = cs_buffer(g, l, factory().Move_CS_GetSize());
  int ctor = (int)g.weighted({6, 1, s.kind == 0 && d.kind == 0 ? 2 : 0});
  mli::Move_CS* op = ctor == 0 ? factory().Move_CS(mem, s.it, d.it, dir) : ctor == 1 ? factory().Move_CS(mem, s.ten, s.cfg, d.ten, d.cfg, dir) : factory().Move_CS(mem, s.ten, d.ten, dir);
  if (ctor) g.label("deprecated constructor");
  OffsetBuffer a = bk.ob(g, s.o.buf, s.o.bytes, c.es), b = bk.ob(g, d.o.buf, d.o.bytes, c.es), ctrl;
  if (g.chance(10)) { g.label("deprecated attachment"); ok(g, op->AttachBufferOffsets(s.ot(a), d.ot(b)), "AttachBufferOffsets"); }
  else ok(g, op->AttachBufferOffsets(a, b, ctrl), "AttachBufferOffsets");
  auto* e = create(g, l, op, bk);
  std::vector<uint8_t> exp;
  int np = g.chance(30) ? 2 : 1;
  Arr x = c.x;
  for (int pass = 0; pass < np; pass++) {
    if (pass) { g.label("second pass"); for (auto& v : x.v) v = gen_val(g, c.es); }
    s.o.load_all_or(g, x, s.tile); d.o.before(g); exp = d.o.snap;
    int k[5] = {0, 0, 0, 0, 0};
    while (true) {
      int32_t p[5]; uint32_t z[5]; std::vector<int> n;
      for (int i = 0; i < 5; i++) { int dim = i < c.rank ? c.d[i] : 1; p[i] = t.pos(i, k[i]); z[i] = (uint32_t)t.size(i, k[i], dim); n.push_back((int)z[i]); }
      if (s.tile) s.o.load(g, x, p, z);
      if (d.tile) { d.o.before(g); exp = d.o.snap; }
      each(n, [&](const int* i) {
        int gi[5], li[5]; for (int r = 0; r < 5; r++) { gi[r] = i[r] + p[r]; li[r] = d.tile ? i[r] : gi[r]; }
        int64_t v = x.v[x.idx(gi)]; memcpy(&exp[d.o.off(li) * c.es], &v, c.es);
      });
      step(g, e);
      for (size_t q = 0; q < exp.size(); q++) if (d.o.buf[q] != exp[q])
        g.fail("value", "pass %d tile (%d,%d,%d,%d,%d) at (%d,%d,%d,%d,%d): byte %zu of the destination buffer is 0x%02x, expected 0x%02x", pass, k[0], k[1], k[2], k[3], k[4], p[0], p[1], p[2], p[3], p[4], q, d.o.buf[q], exp[q]);
      update(g, e);
      int r = 0; while (r < 5 && ++k[order[r]] == t.count[order[r]]) k[order[r++]] = 0;
      if (r == 5) break;
    }
  }
}
}  // namespace m3
