// MLI 3.0 MatMul: generator, reference model and (row-tiled) execution. Used by C21 and C26.
#pragma once
#include "m3.h"
namespace m3 {
struct MM3 {
  int M, K, N, lz, rz; Arr l, r;
  std::string str() const { return "matmul " + std::to_string(M) + "x" + std::to_string(K) + "x" + std::to_string(N) + " zero points " + std::to_string(lz) + "," + std::to_string(rz) + " left " + l.str() + " right " + r.str(); }
};
inline MM3 gen_mm3(G& g) {
  MM3 c;
  c.M = (int)g.range(1, 12); c.K = (int)g.range(1, 12); c.N = (int)g.range(1, 12);
  if (g.chance(5)) c.K = (int)g.range(13, 300);
  c.lz = (int)gen_val(g, 1); c.rz = (int)gen_val(g, 1);
  c.l = gen_arr(g, {c.M, c.K}, 1); c.r = gen_arr(g, {c.K, c.N}, 1);
  return c;
}
inline Arr model_mm3(const MM3& c) {
  Arr y({c.M, c.N});
  for (int m = 0; m < c.M; m++) for (int n = 0; n < c.N; n++) {
    int64_t s = 0;
    for (int k = 0; k < c.K; k++) s += (c.l.at({m, k}) - c.lz) * (c.r.at({k, n}) - c.rz);
    y.at({m, n}) = w32(s);
  }
  return y;
}
inline Arr run_mm3(G& g, const MM3& c, int rows) {
  using namespace snps_arc::metaware::mli;
  Opnd<2> a, b, o; a.name = "left tile"; b.name = "right"; o.name = "output tile"; o.es = 4;
  to_u(a.dims, {c.M, c.K}); to_u(b.dims, {c.K, c.N}); to_u(o.dims, {c.M, c.N});
  for (auto* p : {&a, &b, &o}) { memcpy(p->tmax, p->dims, sizeof p->dims); if (p != &b) p->tmax[0] = rows; p->layout(g, g.chance(50) ? p->dims : p->tmax); }
  a.alloc(true); b.alloc(true); o.alloc(false);
  uint8_t* ep = world().alloc(2, "encoded zero points", true);
  Banks bk; bk.gen(g); Life l;
  int32_t ord[2] = {0, 1};
  TensorIterator<NoBuffer, 2, 2> ai(Tensor<NoBuffer, 2>(a.dims, a.str), a.tmax, ord), bi(Tensor<NoBuffer, 2>(b.dims, b.str), b.tmax, ord), oi(Tensor<NoBuffer, 2>(o.dims, o.str), o.tmax, ord);
  auto* op = factory().MatMul_CS(cs_buffer(g, l, factory().MatMul_CS_GetSize()), ai, bi, oi);
  int8_t z1 = (int8_t)c.lz, z2 = (int8_t)c.rz;
  Buffer b1(&z1, 1, 1), b2(&z2, 1, 1), eb(ep, 2, 1);
  if (op->GetEncodedParamsSize() != 2) g.fail("encode", "GetEncodedParamsSize");
  ok(g, op->EncodeParams(b1, b2, eb), "EncodeParams");
  OffsetBuffer oa = bk.ob(g, a.buf, a.bytes, 1), obb = bk.ob(g, b.buf, b.bytes, 1), oo = bk.ob(g, o.buf, o.bytes, 4), oe = bk.ob(g, ep, 2, 1), ctrl;
  ok(g, op->AttachBufferOffsets(oa, obb, oo, oe, ctrl), "AttachBufferOffsets");
  uint32_t tiles = oi.GetTotalCount();
  if (tiles != (uint32_t)((c.M + rows - 1) / rows)) g.fail("tile-coverage", "GetTotalCount is %u for %d rows in tiles of %d", tiles, c.M, rows);
  auto* e = create(g, l, op, bk); auto* k = as<ref::MatMul>(g, e);
  Arr y({c.M, c.N}); std::vector<uint8_t> seen(y.v.size(), 0);
  for (unsigned t = 0, T = tiles * passes(g); t < T; t++) {
    if (t == tiles) again(g, seen);
    uint32_t s1[2], s2[2], s3[2]; int32_t p1[2], p2[2], p3[2];
    k->GetIOSizesAndOffsets(s1, s2, s3, p1, p2, p3);
    a.load(g, c.l, p1, s1); b.load(g, c.r, p2, s2); o.before(g);
    step(g, k);
    o.store(g, y, seen, p3, s3);
    update(g, k);
  }
  if (tiles > 1) g.label("tiled");
  coverage(g, seen, y);
  return y;
}
}  // namespace m3
