// MLI 3.0 fully connected: one whole case (generate, encode, run, compare with the model). Used by C21 and C27.
#pragma once
#include "m3.h"
namespace m3 {
inline void fc_case(G& g) {
  world().reset();
  using namespace snps_arc::metaware::mli;
  int IC = (int)g.range(1, 24), OC = (int)g.range(1, 12);
  if (g.chance(5)) IC = (int)g.range(25, 300);
  bool per_ch = g.chance(60);
  int nz = per_ch ? OC : 1;
  Arr x = gen_arr(g, {1, IC}, 1), w = gen_arr(g, {IC, OC}, 1), z = gen_arr(g, {nz}, 1);
  if (g.chance(15)) for (auto& v : z.v) v = 0;
  Opnd<2> in, wt, out; in.name = "input"; wt.name = "weights and zero points"; out.name = "output"; out.es = 4;
  to_u(in.dims, x.d); to_u(wt.dims, w.d); out.dims[0] = 1; out.dims[1] = OC;
  for (auto* o : {&in, &wt, &out}) { memcpy(o->tmax, o->dims, sizeof o->dims); o->layout(g, o->dims, true); }
  in.alloc(true); out.alloc(false);
  wt.elems = (size_t)wt.str[0] * (IC - 1) + (size_t)wt.str[1] * (OC - 1) + 1;
  wt.bytes = wt.elems; size_t wtotal = wt.elems + nz;
  wt.buf = world().alloc(wtotal, wt.name, true);
  if (g.verbose()) g.note("fc IC %d OC %d strides in %d w %d %d out %d per channel %d\nx %s\nw %s\nz %s", IC, OC, in.str[1], wt.str[0], wt.str[1], out.str[1], per_ch, x.str().c_str(), w.str().c_str(), z.str().c_str());
  uint32_t zd[1] = {(uint32_t)nz};
  Banks bk; bk.gen(g); Life l;
  TensorIterator<NoBuffer, 2, 2> ii(Tensor<NoBuffer, 2>(in.dims, in.str)), wi(Tensor<NoBuffer, 2>(wt.dims, wt.str)), oi(Tensor<NoBuffer, 2>(out.dims, out.str));
  TensorIterator<NoBuffer, 1, 2> zi{Tensor<NoBuffer, 1>(zd)};
  FullyConnectedConfig cfg;
  auto* op = factory().FullyConnected_CS(cs_buffer(g, l, factory().FullyConnected_CS_GetSize()), ii, wi, zi, cfg, oi);
  // the encoded block holds the weights as they are in memory followed by the zero points
  wt.load_all(g, w);
  std::vector<int8_t> src(wt.buf, wt.buf + wt.elems), zs(z.v.begin(), z.v.end());
  Buffer sb(src.data(), (uint32_t)src.size(), 1), zb(zs.data(), (uint32_t)nz, 1), eb(wt.buf, (uint32_t)wtotal, 1);
  memset(wt.buf, 0x77, wtotal);
  TensorIterator<Buffer, 2, 2> ew(Tensor<Buffer, 2>(sb, wt.dims, wt.str));
  TensorIterator<Buffer, 1, 2> ez(Tensor<Buffer, 1>(zb, zd));
  ok(g, op->EncodeWeightsAndZeroPts(ew, ez, eb), "EncodeWeightsAndZeroPts");
  for (size_t i = 0; i < wtotal; i++) if ((int8_t)wt.buf[i] != (i < src.size() ? src[i] : zs[i - src.size()])) g.fail("encode", "encoded weights and zero points differ at %zu", i);
  if (op->GetEncodedWeightsSize() != src.size() || op->GetEncodedWtsZeroPtsSize() != (unsigned)nz) g.fail("encode", "encoded sizes %u/%u, expected %zu/%d", op->GetEncodedWeightsSize(), op->GetEncodedWtsZeroPtsSize(), src.size(), nz);
  if (op->GetInputBufferSize() != in.elems || op->GetOutputBufferSize() != out.elems) g.fail("encode", "buffer sizes");
  OffsetBuffer a = bk.ob(g, in.buf, in.bytes, 1), b = bk.ob(g, out.buf, out.bytes, 4), ww = bk.ob(g, wt.buf, wtotal, 1), ctrl;
  ok(g, op->AttachBufferOffsets(a, b, ww, ctrl), "AttachBufferOffsets");
  auto* e = create(g, l, op, bk); auto* k = as<ref::FullyConnected>(g, e);
  in.load_all(g, x); out.before(g);
  step(g, k);
  Arr y({1, OC}), m({1, OC}); std::vector<uint8_t> seen(OC, 0);
  int32_t p0[2] = {0, 0};
  out.store(g, y, seen, p0, out.dims);
  for (int o = 0; o < OC; o++) { int64_t s = 0; for (int i = 0; i < IC; i++) s += x.v[i] * (w.at({i, o}) - z.v[per_ch ? o : 0]); m.v[o] = w32(s); }
  compare(g, y, m, "fully connected");
  update(g, k);
  if (per_ch && OC > 1) g.label("per-channel-zp");
}
}  // namespace m3
