// MLI 3.0 pooling and reductions on rank-4 iterators. Used by C23, C26 and C27.
#pragma once
#include "el3.h"
namespace m3 {
struct Pool3 {
  bool sum = false; int es = 1;
  int B, H, W, C, KH, KW, sh, sw, pt, pb, pl, pr, OH, OW;
  Arr x;
  std::string str() const {
    char b[240];
    snprintf(b, sizeof b, "%s int%d in %dx%dx%dx%d kernel %dx%d stride %d,%d pad t%d b%d l%d r%d out %dx%d x ", sum ? "sumpool" : "maxpool", es * 8, B, H, W, C, KH, KW, sh, sw, pt, pb, pl, pr, OH, OW);
    return b + x.str();
  }
};
inline bool pool_axis(G& g, int& in, int& kk, int& s, int& pb, int& pe, int& out) {
  kk = (int)g.weighted({2, 5, 5, 2, 1, 1, 1}) + 1;
  s = (int)g.weighted({5, 3, 2, 1}) + 1;
  in = (int)g.range(1, 9);
  pb = g.weighted({2, 3}) ? (int)g.range(0, kk - 1) : 0;
  pe = g.weighted({2, 3}) ? (int)g.range(0, kk - 1) : 0;
  if (in + pb + pe < kk) return false;
  out = (in + pb + pe - kk) / s + 1;
  return out * s >= pb;  // the begin padding must be covered by the first tile (stated in IteratorCfg)
}
inline Pool3 gen_pool3(G& g, bool sum) {
  Pool3 c; c.sum = sum; c.es = sum ? 1 : g.chance(50) ? 1 : 2;
  if (!pool_axis(g, c.H, c.KH, c.sh, c.pt, c.pb, c.OH) || !pool_axis(g, c.W, c.KW, c.sw, c.pl, c.pr, c.OW)) g.discard();
  c.B = g.chance(50) ? 1 : (int)g.range(2, 4); c.C = (int)g.range(1, 5);
  c.x = gen_arr(g, {c.B, c.H, c.W, c.C}, c.es);
  if (c.pt || c.pb || c.pl || c.pr) g.label("padding");
  if (c.B > 1) g.label("batches");
  return c;
}
// windows are clipped to the input
inline Arr model_pool3(const Pool3& c) {
  Arr y({c.B, c.OH, c.OW, c.C});
  for (int b = 0; b < c.B; b++) for (int oh = 0; oh < c.OH; oh++) for (int ow = 0; ow < c.OW; ow++) for (int ch = 0; ch < c.C; ch++) {
    int64_t s = 0, m = INT64_MIN;
    for (int kh = 0; kh < c.KH; kh++) for (int kw = 0; kw < c.KW; kw++) {
      int ih = oh * c.sh - c.pt + kh, iw = ow * c.sw - c.pl + kw;
      if (ih < 0 || iw < 0 || ih >= c.H || iw >= c.W) continue;
      int64_t v = c.x.at({b, ih, iw, ch});
      s += v; m = std::max(m, v);
    }
    y.at({b, oh, ow, ch}) = c.sum ? s : m;
  }
  return y;
}
// walks the tiles of a kernel with one rank-4 input and one rank-4 output
template <class K> Arr walk_io(G& g, ExecutionInterface* e, unsigned tiles, const Arr& x, Opnd<4>& in, Opnd<4>& out, const std::vector<int>& od, int rank) {
  K* k = as<K>(g, e);
  Arr y(od); std::vector<uint8_t> seen(y.v.size(), 0);
  for (unsigned t = 0, T = tiles * passes(g); t < T; t++) {
    if (t == tiles) again(g, seen);
    uint32_t is[4] = {0, 0, 0, 0}, os[4] = {0, 0, 0, 0}; int32_t ip[4], op[4];
    k->GetIOSizesAndOffsets(is, os, ip, op);
    for (int i = rank; i < 4; i++) { is[i] = os[i] = 1; ip[i] = op[i] = 0; }
    in.load(g, x, ip, is);
    out.before(g);
    step(g, k);
    out.store(g, y, seen, op, os);
    update(g, k);
  }
  coverage(g, seen, y);
  return y;
}
inline Arr run_pool3(G& g, const Pool3& c, const std::vector<int>& tl, bool tiled) {
  Banks bk; bk.gen(g); Life l;
  Opnd<4> in, out; in.name = "input tile"; out.name = "output tile"; in.es = c.es; out.es = c.sum ? 4 : c.es;
  uint32_t id[4] = {(uint32_t)c.B, (uint32_t)c.H, (uint32_t)c.W, (uint32_t)c.C}, od[4] = {(uint32_t)c.B, (uint32_t)c.OH, (uint32_t)c.OW, (uint32_t)c.C};
  memcpy(in.dims, id, sizeof id); memcpy(out.dims, od, sizeof od);
  uint32_t tile[4]; to_u(tile, tl);
  int32_t order[4] = {0, 1, 2, 3};
  uint32_t efk[4] = {1, (uint32_t)c.KH, (uint32_t)c.KW, 1}, stride[4] = {1, (uint32_t)c.sh, (uint32_t)c.sw, 1}, pre[4] = {0, (uint32_t)c.pt, (uint32_t)c.pl, 0};
  auto mkout = [&](int32_t* os) { return It4(Tensor<NoBuffer, 4>(od, os), tile, order); };
  auto mkin = [&](It4& o, int32_t* is) { return It4(Tensor<NoBuffer, 4>(id, is), o, efk, stride, pre); };
  int32_t d1[4] = {1, 1, 1, 1};
  It4 o0 = mkout(d1); It4 i0 = mkin(o0, d1);
  tile_max(out.tmax, o0.get_config()); tile_max(in.tmax, i0.get_config());
  bool full = g.chance(40);
  in.layout(g, full ? in.dims : in.tmax, true); out.layout(g, full ? out.dims : out.tmax, true);
  in.alloc(true); out.alloc(false);
  It4 oi = mkout(out.str), ii = mkin(oi, in.str);
  bool plain = !tiled && g.chance(30);  // the whole tensors, without any tiling
  if (plain) { oi = It4(Tensor<NoBuffer, 4>(od, out.str)); ii = It4(Tensor<NoBuffer, 4>(id, in.str)); }
  mli::PoolOpConfig cfg(c.KH, c.KW, c.sh, c.sw, c.pt, c.pl, c.pb, c.pr);
  auto go = [&](auto* op) {
    announced(g, op->GetInputBufferSize(), in); announced(g, op->GetOutputBufferSize(), out);
    OffsetBuffer a = bk.ob(g, in.buf, in.bytes, c.es), b = bk.ob(g, out.buf, out.bytes, out.es), ctrl;
    ok(g, op->AttachBufferOffsets(a, b, ctrl), "AttachBufferOffsets");
    return create(g, l, op, bk);
  };
  std::vector<int> yd = {c.B, c.OH, c.OW, c.C};
  unsigned tiles = oi.GetTotalCount();
  if (tiled && tiles > 1) g.label("tiled");
  if (c.sum) return walk_io<ref::SumPool2D>(g, go(factory().SumPool2D_CS(cs_buffer(g, l, factory().SumPool2D_CS_GetSize()), ii, cfg, oi)), tiles, c.x, in, out, yd, 4);
  return walk_io<ref::MaxPool2D>(g, go(factory().MaxPool2D_CS(cs_buffer(g, l, factory().MaxPool2D_CS_GetSize()), ii, cfg, oi)), tiles, c.x, in, out, yd, 4);
}

struct Red3 {
  bool sum; int es, rank, axis; std::vector<int> d; Arr x;
  std::string str() const { return std::string(sum ? "reduce-sum" : "reduce-max") + " int" + std::to_string(es * 8) + " rank " + std::to_string(rank) + " axis " + std::to_string(axis) + " x " + x.str(); }
};
inline Red3 gen_red3(G& g, bool sum) {
  Red3 c; c.sum = sum; c.es = g.pick<int>({1, 2, 4}); c.rank = (int)g.range(1, 4);
  for (int i = 0; i < c.rank; i++) c.d.push_back((int)g.range(1, 6));
  c.axis = (int)g.range(0, c.rank - 1);
  if (g.chance(10)) c.d[c.axis] = (int)g.range(7, 40);
  std::vector<int> d4 = c.d; while (d4.size() < 4) d4.push_back(1);
  c.x = gen_arr(g, d4, c.es);
  if (sum) {  // the sum (in any order of summation) has to fit the type
    int64_t hi = ((int64_t)1 << (8 * c.es - 1)) - 1; int n = c.d[c.axis];
    int m = (int)g.weighted({4, 2, 2});
    std::vector<int> od = d4; od[c.axis] = 1;
    each(od, [&](const int* i) {
      int p[4] = {i[0], i[1], i[2], i[3]};
      int64_t pos = 0, neg = 0;
      for (int j = 0; j < n; j++) {
        p[c.axis] = j; int64_t& v = c.x.v[c.x.idx(p)];
        if (m == 1 || (m == 2 && n > 1)) v /= n;
        if (v > 0) { v = std::min(v, hi - pos); pos += v; } else { v = std::max(v, -hi - 1 - neg); neg += v; }
      }
    });
  }
  return c;
}
inline Arr model_red3(const Red3& c) {
  std::vector<int> od = c.x.d; od[c.axis] = 1;
  Arr y(od);
  size_t k = 0;
  each(od, [&](const int* i) {
    int p[4] = {i[0], i[1], i[2], i[3]}; int64_t s = 0, m = INT64_MIN;
    for (int j = 0; j < c.d[c.axis]; j++) { p[c.axis] = j; int64_t v = c.x.v[c.x.idx(p)]; s += v; m = std::max(m, v); }
    y.v[k++] = c.sum ? s : m;
  });
  return y;
}
inline Arr run_red3(G& g, const Red3& c, bool tiled, const std::vector<int>& tl) {
  Banks bk; bk.gen(g); Life l;
  std::vector<int> ot = tl, od = c.d; ot[c.axis] = od[c.axis] = 1;
  Opnd<4> in, out; in.name = "input tile"; out.name = "output tile"; in.es = out.es = c.es;
  set_dims(in, c.d, tl); set_dims(out, od, ot);
  in.layout(g, g.chance(50) ? in.dims : in.tmax); out.layout(g, g.chance(50) ? out.dims : out.tmax);
  in.alloc(true); out.alloc(false);
  It4 ii = mk_it(in.dims, in.str, c.rank, tiled, tl), oi = mk_it(out.dims, out.str, c.rank, tiled, ot);
  mli::ReduceOpConfig cfg(c.axis);
  auto go = [&](auto* op) {
    OffsetBuffer a = bk.ob(g, in.buf, in.bytes, c.es), b = bk.ob(g, out.buf, out.bytes, c.es), ctrl;
    ok(g, op->AttachBufferOffsets(a, b, ctrl), "AttachBufferOffsets");
    return create(g, l, op, bk);
  };
  unsigned tiles = tiled ? oi.GetTotalCount() : 1;
  std::vector<int> yd = od; while (yd.size() < 4) yd.push_back(1);
  if (c.sum) return walk_io<ref::ReduceSum>(g, go(factory().ReduceSum_CS(cs_buffer(g, l, factory().ReduceSum_CS_GetSize()), ii, cfg, oi)), tiles, c.x, in, out, yd, c.rank);
  return walk_io<ref::ReduceMax>(g, go(factory().ReduceMax_CS(cs_buffer(g, l, factory().ReduceMax_CS_GetSize()), ii, cfg, oi)), tiles, c.x, in, out, yd, c.rank);
}
}  // namespace m3
