// MLI 3.0 element-wise style kernels on rank-4 iterators: shapes, tiles and tile walks. Used by C22-C26.
#pragma once
#include "m3.h"
#include "fx.h"
namespace m3 {
// documented rounding of a right shift (left for negative counts, saturating) of a 64-bit value
inline int64_t shr64(int64_t x, int n) {
  __int128 v = x;
  if (n < 0) { n = -n; v <<= n; }
  else if (n > 0) {
    __int128 q = v >> n;
#ifdef ROUND_MODE_CONVERGENT
    __int128 rem = v - (q << n), half = (__int128)1 << (n - 1);
    if (rem > half || (rem == half && (q & 1))) q++;
#else
    q = (v + ((__int128)1 << (n - 1))) >> n;
#endif
    v = q;
  }
  if (v > INT64_MAX) return INT64_MAX;
  if (v < INT64_MIN) return INT64_MIN;
  return (int64_t)v;
}
inline int64_t satn(__int128 v, int bytes) {
  __int128 hi = ((__int128)1 << (8 * bytes - 1)) - 1, lo = -hi - 1;
  return (int64_t)(v > hi ? hi : v < lo ? lo : v);
}
// tile sizes: whole tensor or random tiles
inline std::vector<int> gen_tile(G& g, const std::vector<int>& d, bool tiled) {
  std::vector<int> t = d;
  if (tiled) for (size_t i = 0; i < d.size(); i++) if (g.chance(60)) t[i] = (int)g.range(1, d[i]);
  return t;
}
typedef mli::TensorIterator<NoBuffer, 4, 4> It4;
inline It4 mk_it(uint32_t* dims, int32_t* str, int rank, bool tiled, const std::vector<int>& tile) {
  if (!tiled) return It4(Tensor<NoBuffer, 4>(dims, str, (uint32_t)rank));
  uint32_t t[4] = {1, 1, 1, 1};
  for (size_t i = 0; i < tile.size(); i++) t[i] = (uint32_t)tile[i];
  rank = 4;  // the tiling constructors need every dimension to be at least 1
  int32_t ord[4] = {0, 1, 2, 3};
  return It4(Tensor<NoBuffer, 4>(dims, str, (uint32_t)rank), t, ord);
}
// operand of rank <= R: dimensions beyond the rank have size 1
template <unsigned R> void set_dims(Opnd<R>& o, const std::vector<int>& d, const std::vector<int>& tile) {
  for (unsigned i = 0; i < R; i++) { o.dims[i] = i < d.size() ? d[i] : 1; o.tmax[i] = i < d.size() ? tile[i] : 1; }
}
template <unsigned R> std::vector<int> pad_dims(const Opnd<R>& o) { std::vector<int> r; for (auto x : o.dims) r.push_back((int)x); return r; }
inline void it_box(It4& it, uint32_t* size, int32_t* pos, int rank) {
  int32_t p[4]; it.get_pos(p);
  auto s = it.GetSubTensor();
  for (int i = 0; i < 4; i++) { pos[i] = i < rank ? p[i] : 0; size[i] = i < rank ? s.get_dim(i) : 1; }
}
struct Resc3 {
  int rank, axis; std::vector<int> d; int ies, oes;
  std::vector<int64_t> ib, sc, sh, ob;
  Arr x;
  std::string str() const {
    std::string s = "rescale int" + std::to_string(ies * 8) + "->int" + std::to_string(oes * 8) + " shape";
    for (int v : d) s += " " + std::to_string(v);
    s += " axis " + std::to_string(axis) + " params";
    for (size_t i = 0; i < ib.size(); i++) s += " (" + std::to_string(ib[i]) + " " + std::to_string(sc[i]) + " " + std::to_string(sh[i]) + " " + std::to_string(ob[i]) + ")";
    return s + " x " + x.str();
  }
};
inline Resc3 gen_resc3(G& g, bool rank4) {
  Resc3 c;
  c.rank = rank4 ? 4 : (int)g.range(1, 4);
  for (int i = 0; i < c.rank; i++) c.d.push_back((int)g.range(1, 5));
  c.axis = g.chance(40) ? -1 : g.chance(60) ? c.rank - 1 : (int)g.range(0, c.rank - 1);
  int m = (int)g.weighted({5, 2, 2, 2});
  c.ies = m == 0 || m == 2 ? 4 : 1; c.oes = m == 0 || m == 1 ? 1 : 4;
  int n = c.axis < 0 ? 1 : c.d[c.axis];
  bool same = g.chance(10);
  for (int i = 0; i < n; i++) {
    if (same && i) { c.ib.push_back(c.ib[0]); c.sc.push_back(c.sc[0]); c.sh.push_back(c.sh[0]); c.ob.push_back(c.ob[0]); continue; }
    c.ib.push_back(g.chance(30) ? 0 : gen_val(g, c.ies));
    c.sc.push_back(gen_val(g, 2));
    c.sh.push_back(g.weighted({2, 6}) ? g.range(0, 40) : gen_val(g, 1));
    c.ob.push_back(g.chance(30) ? 0 : gen_val(g, c.oes));
  }
  std::vector<int> d4 = c.d; while (d4.size() < 4) d4.push_back(1);
  c.x = gen_arr(g, d4, c.ies);
  // values for which the scaled result is within the output range are the interesting ones
  if (c.ies == 4 && g.chance(70)) {
    size_t k = 0;
    each(d4, [&](const int* i) {
      int p = c.axis < 0 ? 0 : i[c.axis];
      double f = c.sc[p] ? 300.0 * pow(2.0, (double)(c.sh[p] > 31 ? 31 : c.sh[p] < 0 ? 0 : c.sh[p])) / fabs((double)c.sc[p]) : 1000;
      int64_t r = f > 2e9 ? 2000000000 : (int64_t)f + 1;
      c.x.v[k++] = satn((__int128)c.ib[p] + g.range(-r, r), 4);
    });
  }
  return c;
}
inline int64_t resc_value(int64_t x, int64_t ib, int64_t sc, int64_t sh, int64_t ob, int oes) {
  int64_t v = satn((__int128)x - ib, 4) * sc;
  v = shr64(v, sh > 63 ? 63 : sh < -63 ? -63 : (int)sh);
  return satn((__int128)v + ob, oes);
}
inline Arr model_resc3(const Resc3& c) {
  Arr y(c.x.d);
  size_t k = 0;
  each(y.d, [&](const int* i) { int p = c.axis < 0 ? 0 : i[c.axis]; y.v[k] = resc_value(c.x.v[k], c.ib[p], c.sc[p], c.sh[p], c.ob[p], c.oes); k++; });
  return y;
}
inline Arr run_resc3(G& g, const Resc3& c, bool tiled, const std::vector<int>& tile) {
  using namespace snps_arc::metaware::mli;
  Opnd<4> in, out; in.name = "input tile"; out.name = "output tile"; in.es = c.ies; out.es = c.oes;
  set_dims(in, c.d, tile); set_dims(out, c.d, tile);
  in.layout(g, g.chance(50) ? in.dims : in.tmax); in.alloc(true);
  // the attached buffers hold the same number of elements
  out.layout(g, g.chance(50) ? out.dims : out.tmax);
  if (true) { size_t e = 1; for (int k = 0; k < 4; k++) e += (size_t)out.str[k] * (out.tmax[k] - 1); if (e != in.elems) memcpy(out.str, in.str, sizeof in.str); }
  out.alloc(false);
  int n = (int)c.ib.size();
  uint32_t nd[1] = {(uint32_t)n};
  Banks bk; bk.gen(g); Life l;
  It4 ii = mk_it(in.dims, in.str, c.rank, tiled, tile), oi = mk_it(out.dims, out.str, c.rank, tiled, tile);
  int32_t order[4] = {kSkipIterDim, kSkipIterDim, kSkipIterDim, kSkipIterDim}, mask[4] = {1, 1, 1, 1};
  if (c.axis >= 0) { order[c.axis] = 0; mask[c.axis] = 0; }
  typedef TensorIterator<NoBuffer, 1, 4> ItP;
  Tensor<NoBuffer, 1> pt(nd);
  ItP pi = tiled ? ItP(pt, ii, order, mask) : ItP(pt);
  if (!tiled && c.axis >= 0) pi = ItP(pt, ii, order, mask);
  RescaleConfig cfg(c.axis);
  auto* op = factory().Rescale_CS(cs_buffer(g, l, factory().Rescale_CS_GetSize()), ii, cfg, pi, oi);
  auto pack = [&](const std::vector<int64_t>& v, int es) { std::vector<uint8_t> r(v.size() * es); for (size_t i = 0; i < v.size(); i++) memcpy(&r[i * es], &v[i], es); return r; };
  auto vi = pack(c.ib, c.ies), vs = pack(c.sc, 2), vh = pack(c.sh, 1), vo = pack(c.ob, c.oes);
  Buffer bi(vi.data(), (uint32_t)vi.size(), c.ies), bs(vs.data(), (uint32_t)vs.size(), 2), bh(vh.data(), (uint32_t)vh.size(), 1), bo(vo.data(), (uint32_t)vo.size(), c.oes);
  size_t total = vi.size() + vs.size() + vh.size() + vo.size();
  if (op->GetEncodedParamsSize() < total) g.fail("encode", "GetEncodedParamsSize %u before encoding is smaller than %zu", op->GetEncodedParamsSize(), total);
  std::vector<uint8_t> enc(total, 0x3c);
  Buffer eb(enc.data(), (uint32_t)total, 1);
  ok(g, op->EncodeParams(Tensor<Buffer, 1>(bi, nd), Tensor<Buffer, 1>(bs, nd), Tensor<Buffer, 1>(bh, nd), Tensor<Buffer, 1>(bo, nd), eb), "EncodeParams");
  if (op->GetEncodedParamsSize() != total) g.fail("encode", "GetEncodedParamsSize %u after encoding, expected %zu", op->GetEncodedParamsSize(), total);
  std::vector<uint8_t> want; for (auto* v : {&vi, &vs, &vh, &vo}) want.insert(want.end(), v->begin(), v->end());
  if (want != enc) g.fail("encode", "encoded parameters differ from input bias, scale, shift, output bias");
  uint8_t* ep = world().alloc(total, "encoded parameters", true);
  OffsetBuffer a = bk.ob(g, in.buf, in.bytes, c.ies), b = bk.ob(g, out.buf, out.bytes, c.oes), e1 = bk.ob(g, ep, total, 1), ctrl;
  ok(g, op->AttachBufferOffsets(a, b, e1, ctrl), "AttachBufferOffsets");
  announced(g, op->GetInputBufferSize(), in); announced(g, op->GetOutputBufferSize(), out);
  It4 wi = ii, wo = oi;
  uint32_t tiles = tiled ? ii.GetTotalCount() : 1;
  memcpy(ep, enc.data(), total);  // per-tensor parameters are read when the object is created
  auto* e = create(g, l, op, bk); auto* k = as<ref::Rescale>(g, e);
  Arr y(c.x.d); std::vector<uint8_t> seen(y.v.size(), 0);
  for (unsigned t = 0, T = tiles * passes(g); t < T; t++) {
    if (t == tiles) again(g, seen);
    uint32_t is[4], os[4]; int32_t ip[4], op_[4];
    it_box(wi, is, ip, c.rank); it_box(wo, os, op_, c.rank);
    uint32_t ps, o1, o2, o3, o4;
    k->GetIOSizesAndOffsets(ps, o1, o2, o3, o4);
    uint32_t pn = c.axis < 0 ? 1 : is[c.axis], p0 = c.axis < 0 ? 0 : ip[c.axis];
    if (ps != pn) g.fail("params", "tile %u needs %u parameter elements, GetIOSizesAndOffsets reports %u", t, pn, ps);
    for (size_t q = 0; q < total; q++) ep[q] = 0xa5;
    auto cp = [&](uint32_t off, const std::vector<uint8_t>& v, int es) {
      if (off + pn * es > total) g.fail("params", "tile parameters do not fit the encoded parameter buffer");
      memcpy(ep + off, &v[p0 * es], pn * es);
    };
    cp(o1, vi, c.ies); cp(o2, vs, 2); cp(o3, vh, 1); cp(o4, vo, c.oes);
    if (c.axis < 0) memcpy(ep, enc.data(), total);
    in.load(g, c.x, ip, is); out.before(g);
    step(g, k);
    out.store(g, y, seen, op_, os);
    update(g, k);
    wi.Next(); wo.Next();
  }
  coverage(g, seen, y);
  return y;
}
struct Clip3 { int rank; std::vector<int> d; int lo, hi; Arr x; };
inline Clip3 gen_clip3(G& g, bool rank4) {
  Clip3 c;
  c.rank = rank4 ? 4 : (int)g.range(1, 4);
  for (int i = 0; i < c.rank; i++) c.d.push_back((int)g.range(1, 5));
  c.lo = (int)gen_val(g, 1); c.hi = (int)gen_val(g, 1);
  if (c.lo > c.hi) std::swap(c.lo, c.hi);
  std::vector<int> d4 = c.d; while (d4.size() < 4) d4.push_back(1);
  c.x = gen_arr(g, d4, 1);
  if (g.chance(40)) for (auto& v : c.x.v) v = satn((g.draw(2) ? c.lo : c.hi) + g.range(-2, 2), 1);
  return c;
}
inline Arr model_clip3(const Clip3& c) { Arr y(c.x.d); for (size_t i = 0; i < y.v.size(); i++) y.v[i] = std::max<int64_t>(c.lo, std::min<int64_t>(c.hi, c.x.v[i])); return y; }
inline Arr run_clip3(G& g, const Clip3& c, bool tiled, const std::vector<int>& tile) {
  using namespace snps_arc::metaware::mli;
  Opnd<4> in, out; in.name = "input tile"; out.name = "output tile";
  set_dims(in, c.d, tile); set_dims(out, c.d, tile);
  in.layout(g, g.chance(50) ? in.dims : in.tmax); in.alloc(true);
  out.layout(g, g.chance(50) ? out.dims : out.tmax);
  { size_t e = 1; for (int k = 0; k < 4; k++) e += (size_t)out.str[k] * (out.tmax[k] - 1); if (e != in.elems) memcpy(out.str, in.str, sizeof in.str); }
  out.alloc(false);
  uint8_t* ep = world().alloc(2, "encoded parameters", true);
  Banks bk; bk.gen(g); Life l;
  It4 ii = mk_it(in.dims, in.str, c.rank, tiled, tile), oi = mk_it(out.dims, out.str, c.rank, tiled, tile);
  auto* op = factory().Clip_CS(cs_buffer(g, l, factory().Clip_CS_GetSize()), ii, oi);
  int8_t lo = (int8_t)c.lo, hi = (int8_t)c.hi; uint32_t one[1] = {1};
  Buffer b1(&lo, 1, 1), b2(&hi, 1, 1), eb(ep, 2, 1);
  Tensor<Buffer, 1> t1(b1, one), t2(b2, one);
  if (op->GetEncodedParamsSize() != 2) g.fail("encode", "GetEncodedParamsSize");
  ok(g, op->EncodeParams(t1, t2, eb), "EncodeParams");
  OffsetBuffer a = bk.ob(g, in.buf, in.bytes, 1), b = bk.ob(g, out.buf, out.bytes, 1), e1 = bk.ob(g, ep, 2, 1), ctrl;
  ok(g, op->AttachBufferOffsets(a, b, e1, ctrl), "AttachBufferOffsets");
  announced(g, op->GetInputBufferSize(), in); announced(g, op->GetOutputBufferSize(), out);
  It4 wi = ii, wo = oi;
  uint32_t tiles = tiled ? ii.GetTotalCount() : 1;
  auto* e = create(g, l, op, bk); auto* k = as<ref::Clip>(g, e);
  Arr y(c.x.d); std::vector<uint8_t> seen(y.v.size(), 0);
  for (unsigned t = 0, T = tiles * passes(g); t < T; t++) {
    if (t == tiles) again(g, seen);
    uint32_t is[4], os[4]; int32_t ip[4], op_[4];
    it_box(wi, is, ip, c.rank); it_box(wo, os, op_, c.rank);
    in.load(g, c.x, ip, is); out.before(g);
    step(g, k);
    out.store(g, y, seen, op_, os);
    update(g, k);
    wi.Next(); wo.Next();
  }
  coverage(g, seen, y);
  return y;
}
}  // namespace m3
