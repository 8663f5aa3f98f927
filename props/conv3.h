// MLI 3.0 convolutions: generator, reference model and (tiled) execution. Used by C21 and C26.
#pragma once
#include "m3.h"
namespace m3 {
enum CKind { CONV, DWC, TCONV };
struct Conv3 {
  CKind k;
  int B = 1, H, W, CI, CO, KH, KW, sh, sw, dh = 1, dw = 1, pt, pb, pl, pr, OH, OW;
  int izp;
  std::vector<int> wzp;
  Arr x, w;   // x: B,H,W,1,CI   w: conv/transpose 1,KH,KW,CI,CO; depthwise KH,KW,C
  std::string str() const {
    char b[300];
    snprintf(b, sizeof b, "%s in %dx%dx%dx%d kernel %dx%d co %d stride %d,%d dil %d,%d pad t%d b%d l%d r%d out %dx%d izp %d", k == CONV ? "conv" : k == DWC ? "depthwise" : "transpose", B, H, W, CI, KH, KW, CO, sh, sw, dh, dw, pt, pb, pl, pr, OH, OW, izp);
    std::string s = b; s += " wzp";
    for (int z : wzp) s += " " + std::to_string(z);
    return s;
  }
};
inline bool axis_gen(G& g, CKind k, int& in, int& kk, int& s, int& d, int& pb, int& pe, int& out) {
  kk = (int)g.range(1, 4); if (g.chance(10)) kk = (int)g.range(5, 7);
  s = (int)g.weighted({5, 3, 2, 1}) + 1;
  d = k == TCONV ? 1 : (int)g.weighted({5, 2, 1}) + 1;
  in = (int)g.range(1, 9);
  int eff = (kk - 1) * d + 1;
  if (k == TCONV) {
    if (s > kk || g.chance(30)) s = kk;  // the stride must not exceed the kernel size
    pb = g.weighted({2, 3}) ? (int)g.range(0, kk - 1) : 0;
    pe = g.weighted({2, 3}) ? (int)g.range(0, kk - 1) : 0;
    out = (in - 1) * s + kk - pb - pe;
    return out >= 1;
  }
  pb = g.weighted({2, 3}) ? (int)g.range(0, eff - 1) : 0;
  pe = g.weighted({2, 3}) ? (int)g.range(0, eff - 1) : 0;
  if (in + pb + pe < eff) return false;
  out = (in + pb + pe - eff) / s + 1;
  return true;
}
inline Conv3 gen_conv3(G& g, CKind k) {
  Conv3 c; c.k = k;
  if (!axis_gen(g, k, c.H, c.KH, c.sh, c.dh, c.pt, c.pb, c.OH)) g.discard();
  if (!axis_gen(g, k, c.W, c.KW, c.sw, c.dw, c.pl, c.pr, c.OW)) g.discard();
  // the iterators need the begin padding to be covered by the first tile (stated in IteratorCfg)
  if ((k == TCONV ? c.H : c.OH) * c.sh < c.pt || (k == TCONV ? c.W : c.OW) * c.sw < c.pl) g.discard();
  c.CI = (int)g.range(1, 6);
  c.CO = k == DWC ? c.CI : (int)g.range(1, 6);
  if (k == DWC && g.chance(40)) c.B = (int)g.range(2, 4);
  c.izp = (int)gen_val(g, 1);
  int zm = (int)g.weighted({1, 3, 1});
  for (int i = 0; i < c.CO; i++) c.wzp.push_back(zm == 0 ? 0 : zm == 1 ? (int)gen_val(g, 1) : (i ? c.wzp[0] : (int)gen_val(g, 1)));
  c.x = gen_arr(g, {c.B, c.H, c.W, 1, c.CI}, 1);
  c.w = k == DWC ? gen_arr(g, {c.KH, c.KW, c.CO}, 1) : gen_arr(g, {1, c.KH, c.KW, c.CI, c.CO}, 1);
  if (zm) g.label("weights-zp");
  if (c.pt || c.pb || c.pl || c.pr) g.label("padding");
  if (c.dh > 1 || c.dw > 1) g.label("dilation");
  if (c.B > 1) g.label("batches");
  return c;
}
// every kernel tap contributes x^ * (w - w_zp); x^ is the input inside the map and the input zero point elsewhere
inline Arr model_conv3(const Conv3& c) {
  Arr y({c.B, c.OH, c.OW, 1, c.CO});
  for (int b = 0; b < c.B; b++) for (int oh = 0; oh < c.OH; oh++) for (int ow = 0; ow < c.OW; ow++) for (int o = 0; o < c.CO; o++) {
    int64_t a = 0;
    for (int kh = 0; kh < c.KH; kh++) for (int kw = 0; kw < c.KW; kw++) {
      int ih, iw; bool in;
      if (c.k == TCONV) {
        int uh = oh + c.pt - kh, uw = ow + c.pl - kw;
        in = uh >= 0 && uw >= 0 && uh % c.sh == 0 && uw % c.sw == 0;
        ih = uh / c.sh; iw = uw / c.sw;
      } else {
        ih = oh * c.sh - c.pt + kh * c.dh; iw = ow * c.sw - c.pl + kw * c.dw;
        in = true;
      }
      in = in && ih >= 0 && iw >= 0 && ih < c.H && iw < c.W;
      if (c.k == DWC) a += (in ? c.x.at({b, ih, iw, 0, o}) : c.izp) * (c.w.at({kh, kw, o}) - c.wzp[o]);
      else for (int i = 0; i < c.CI; i++) a += (in ? c.x.at({b, ih, iw, 0, i}) : c.izp) * (c.w.at({0, kh, kw, i, o}) - c.wzp[o]);
    }
    y.at({b, oh, ow, 0, o}) = w32(a);
  }
  return y;
}
struct Tile3 { uint32_t t[5]; bool tiled = false; };

template <class K, unsigned WR> void exec_conv(G& g, const Conv3& c, ExecutionInterface* e, K* k, unsigned tiles, Opnd<5>& in, Opnd<WR>& w, Opnd<5>& out, uint8_t* wz, uint32_t batch_tile, Arr& y, std::vector<uint8_t>& seen) {
  (void)e;
  if (g.verbose()) g.note("in strides %d %d %d %d %d  w strides %d %d %d  out strides %d %d %d %d %d", in.str[0], in.str[1], in.str[2], in.str[3], in.str[4], w.str[WR-3], w.str[WR-2], w.str[WR-1], out.str[0], out.str[1], out.str[2], out.str[3], out.str[4]);
  for (unsigned t = 0, T = tiles * passes(g); t < T; t++) {
    if (t == tiles) again(g, seen);
    uint32_t is[5], os[5], ws[WR]; int32_t ip[5], op[5], wp[WR];
    k->GetIOSizesAndOffsets(is, os, ws, ip, op, wp);
    if (c.k == DWC) { is[0] = MIN(batch_tile, (uint32_t)(c.B - ip[0])); os[0] = MIN(batch_tile, (uint32_t)(c.B - op[0])); }
    in.load(g, c.x, ip, is);
    w.load(g, c.w, wp, ws);
    for (uint32_t j = 0; j < ws[WR - 1]; j++) ((int8_t*)wz)[j] = (int8_t)c.wzp[wp[WR - 1] + j];
    out.before(g);
    step(g, k);
    if (c.k == DWC && os[0] < batch_tile) {  // a smaller last batch tile: rest of the tile buffer is scratch
      size_t o = (size_t)os[0] * out.str[0] * out.es;
      memcpy(&out.snap[o], out.buf + o, out.bytes - o);
    }
    out.store(g, y, seen, op, os);
    update(g, k);
  }
}
// executes with the given output tile sizes (input tile sizes for the transposed convolution)
inline Arr run_conv3(G& g, const Conv3& c, const Tile3& tl) {
  using namespace snps_arc::metaware::mli;
  Banks bk; bk.gen(g);
  Life l;
  uint32_t od[5] = {(uint32_t)c.B, (uint32_t)c.OH, (uint32_t)c.OW, 1, (uint32_t)c.CO}, id[5] = {(uint32_t)c.B, (uint32_t)c.H, (uint32_t)c.W, 1, (uint32_t)c.CI};
  uint32_t tile[5]; memcpy(tile, tl.t, sizeof tile);
  int32_t order[5] = {0, 1, 2, 3, 4};
  uint32_t eh = (c.KH - 1) * c.dh + 1, ew = (c.KW - 1) * c.dw + 1;
  uint32_t stride[5] = {1, (uint32_t)c.sh, (uint32_t)c.sw, 1, c.k == CONV ? 0u : 1u}, pre[5] = {0, (uint32_t)c.pt, (uint32_t)c.pl, 0, 0};
  const int32_t mask[5] = {1, 1, 1, 1, 0}, zorder[5] = {-1, -1, -1, -1, 0};
  Opnd<5> in, out, w5; Opnd<3> w3;
  in.name = "input tile"; out.name = "output tile"; w5.name = w3.name = "weights tile"; out.es = 4;
  memcpy(in.dims, id, sizeof id); memcpy(out.dims, od, sizeof od);
  uint32_t wd5[5] = {1, (uint32_t)c.KH, (uint32_t)c.KW, (uint32_t)c.CI, (uint32_t)c.CO}, wd3[3] = {(uint32_t)c.KH, (uint32_t)c.KW, (uint32_t)c.CO};
  memcpy(w5.dims, wd5, sizeof wd5); memcpy(w3.dims, wd3, sizeof wd3);
  bool full = g.chance(40);  // memory strides of the full tensors instead of packed tiles
  if (full) g.label("full-tensor-strides");
  // a first pass with dense strides gives the tile sizes, from which the tile buffers are laid out
  typedef TensorIterator<NoBuffer, 5, 5> It5; typedef TensorIterator<NoBuffer, 1, 5> ItZ; typedef TensorIterator<NoBuffer, 3, 5> It3;
  uint32_t zd[1] = {(uint32_t)c.CO}, one[1] = {1};
  auto pad1 = [&](bool z) { if (z) g.label("tiled"); };
  pad1(tl.tiled);
  uint32_t efk[5] = {1, eh, ew, 1, c.k == CONV ? (uint32_t)c.CI : c.k == DWC ? 1u : (uint32_t)c.CO};
  unsigned tiles = 0;
  Arr y({c.B, c.OH, c.OW, 1, c.CO});
  std::vector<uint8_t> seen(y.v.size(), 0);
  ItZ izp_it{Tensor<NoBuffer, 1>(one)};
  uint8_t* izb = nullptr;
  auto mem_common = [&](uint32_t co_first, uint8_t*& wz) {
    izb = world().alloc(1, "input zero point", true); *(int8_t*)izb = (int8_t)c.izp;
    wz = world().alloc(co_first, "weights zero points", true);
  };
  auto encode = [&](auto* op, auto&& wt_it) {
    // encode the parameters and compare with their definition
    int8_t src[1] = {(int8_t)c.izp}, dst[1] = {0};
    Buffer sb(src, 1, 1), db(dst, 1, 1);
    Tensor<Buffer, 1> st(sb, one);
    TensorIterator<Buffer, 1, 5> sit(st);
    if (op->GetEncodedInpZeroPtsSize() != 1) g.fail("encode", "GetEncodedInpZeroPtsSize");
    ok(g, op->EncodeInpZeroPts(sit, db), "EncodeInpZeroPts");
    if (dst[0] != src[0]) g.fail("encode", "input zero point encoded as %d, is %d", dst[0], src[0]);
    std::vector<int8_t> ws(c.w.v.begin(), c.w.v.end()), zs(c.wzp.begin(), c.wzp.end()), enc(ws.size() + zs.size(), 99);
    Buffer wb(ws.data(), (uint32_t)ws.size(), 1), zb(zs.data(), (uint32_t)zs.size(), 1), eb(enc.data(), (uint32_t)enc.size(), 1);
    auto wi = wt_it(wb);
    TensorIterator<Buffer, 1, 5> zi{Tensor<Buffer, 1>(zb, zd)};
    ok(g, op->EncodeWeightsAndZeroPts(wi, zi, eb), "EncodeWeightsAndZeroPts");
    for (size_t i = 0; i < enc.size(); i++) if (enc[i] != (i < ws.size() ? ws[i] : zs[i - ws.size()])) g.fail("encode", "encoded weights and zero points differ at %zu", i);
  };
  auto attach = [&](auto* op, OffsetBuffer wob, uint8_t* wz, uint32_t nz) {
    typedef std::remove_pointer_t<decltype(op)> CS;
    if constexpr (!std::is_same_v<CS, mli::TransposeConv2D_CS>) {
      announced(g, op->GetInputBufferSize(), in); announced(g, op->GetOutputBufferSize(), out);
      if (c.k == DWC) announced(g, op->GetWeightsBufferSize(), w3); else announced(g, op->GetWeightsBufferSize(), w5);
    }
    OffsetBuffer a = bk.ob(g, in.buf, in.bytes, 1), b = bk.ob(g, out.buf, out.bytes, 4), z = bk.ob(g, izb, 1, 1), zz = bk.ob(g, wz, nz, 1), ctrl;
    ok(g, op->AttachBufferOffsets(a, b, wob, z, zz, ctrl), "AttachBufferOffsets");
  };
  if (c.k == TCONV) {
    auto mk = [&](int32_t* is, int32_t* os, int32_t* ws) {
      uint32_t ti[5]; memcpy(ti, tile, sizeof ti); ti[4] = id[4]; ti[0] = 1; ti[3] = 1;
      return GetDeconvTensorIterators(Tensor<NoBuffer, 5>(id, is), ti, Tensor<NoBuffer, 5>(od, os), tile[4], Tensor<NoBuffer, 5>(wd5, ws), efk, stride, pre, order);
    };
    int32_t d1[5]; for (auto& x : d1) x = 1;
    auto p = mk(d1, d1, d1);
    tile_max(in.tmax, std::get<0>(p).get_config()); tile_max(out.tmax, std::get<3>(p).get_config()); tile_max(w5.tmax, std::get<1>(p).get_config());
    in.tmax[4] = id[4];
    in.layout(g, full ? in.dims : in.tmax, true); out.layout(g, full ? out.dims : out.tmax, true); w5.layout(g, full ? w5.dims : w5.tmax, true);
    in.alloc(true); w5.alloc(true); out.alloc(false);
    auto q = mk(in.str, out.str, w5.str);
    tiles = std::get<0>(q).GetTotalCount();
    TransposeConv2DConfig cfg(c.sh, c.sw, c.pt, c.pl, c.pb, c.pr);
    auto* op = factory().TransposeConv2D_CS(cs_buffer(g, l, factory().TransposeConv2D_CS_GetSize()), std::get<0>(q), izp_it, std::get<1>(q), std::get<2>(q), cfg, std::get<3>(q));
    uint8_t* wz; uint32_t nz = w5.tmax[4]; mem_common(nz, wz);
    encode(op, [&](Buffer b) { return TensorIterator<Buffer, 5, 5>(Tensor<Buffer, 5>(b, wd5)); });
    attach(op, bk.ob(g, w5.buf, w5.bytes, 1), wz, nz);
    auto* e = create(g, l, op, bk); auto* k = as<ref::TransposeConv2D>(g, e);
    for (auto& b : world().blocks) if (b.p == l.priv) b.frozen = true;
    exec_conv(g, c, e, k, tiles, in, w5, out, wz, 1, y, seen);
  } else {
    auto mkout = [&](int32_t* os) { return It5(Tensor<NoBuffer, 5>(od, os), tile, order); };
    auto mkin = [&](It5& o, int32_t* is) { return It5(Tensor<NoBuffer, 5>(id, is), o, efk, stride, pre); };
    int32_t d1[5]; for (auto& x : d1) x = 1;
    It5 o0 = mkout(d1); It5 i0 = mkin(o0, d1);
    tile_max(out.tmax, o0.get_config()); tile_max(in.tmax, i0.get_config());
    in.layout(g, full ? in.dims : in.tmax, true); out.layout(g, full ? out.dims : out.tmax, true);
    in.alloc(true); out.alloc(false);
    It5 oi = mkout(out.str), ii = mkin(oi, in.str);
    tiles = oi.GetTotalCount();
    ItZ zit(Tensor<NoBuffer, 1>(zd), oi, zorder, mask);
    uint8_t* wz; uint32_t nz = out.tmax[4]; mem_common(nz, wz);
    if (c.k == CONV) {
      memcpy(w5.tmax, wd5, sizeof wd5); w5.tmax[4] = out.tmax[4];
      w5.layout(g, full ? w5.dims : w5.tmax, true); w5.alloc(true);
      It5 wi(Tensor<NoBuffer, 5>(wd5, w5.str), oi, nullptr, mask);
      Conv2DConfig cfg(c.sh, c.sw, c.pt, c.pl, c.pb, c.pr, c.dh, c.dw, 1);
      auto* op = factory().Conv2d_CS(cs_buffer(g, l, factory().Conv2d_CS_GetSize()), ii, izp_it, wi, zit, cfg, oi);
      encode(op, [&](Buffer b) { return TensorIterator<Buffer, 5, 5>(Tensor<Buffer, 5>(b, wd5)); });
      attach(op, bk.ob(g, w5.buf, w5.bytes, 1), wz, nz);
      auto* e = create(g, l, op, bk); auto* k = as<ref::Conv2d>(g, e);
      for (auto& b : world().blocks) if (b.p == l.priv) b.frozen = true;
      exec_conv(g, c, e, k, tiles, in, w5, out, wz, 1, y, seen);
    } else {
      memcpy(w3.tmax, wd3, sizeof wd3); w3.tmax[2] = out.tmax[4];
      w3.layout(g, full ? w3.dims : w3.tmax, true); w3.alloc(true);
      const int32_t worder[5] = {kSkipIterDim, 0, 1, kSkipIterDim, 2};
      It3 wi(Tensor<NoBuffer, 3>(wd3, w3.str), oi, worder, mask);
      DwConv2DConfig cfg(c.sh, c.sw, c.pt, c.pl, c.pb, c.pr, c.dh, c.dw);
      auto* op = factory().DepthwiseConv2d_CS(cs_buffer(g, l, factory().DepthwiseConv2d_CS_GetSize()), ii, izp_it, wi, zit, cfg, oi);
      encode(op, [&](Buffer b) { return TensorIterator<Buffer, 3, 5>(Tensor<Buffer, 3>(b, wd3)); });
      attach(op, bk.ob(g, w3.buf, w3.bytes, 1), wz, nz);
      auto* e = create(g, l, op, bk); auto* k = as<ref::DepthwiseConv2d>(g, e);
      for (auto& b : world().blocks) if (b.p == l.priv) b.frozen = true;
      exec_conv(g, c, e, k, tiles, in, w3, out, wz, out.tmax[0], y, seen);
    }
  }
  coverage(g, seen, y);
  return y;
}
inline Tile3 whole_conv3(const Conv3& c) {
  Tile3 t;
  uint32_t a[5] = {(uint32_t)c.B, (uint32_t)(c.k == TCONV ? c.H : c.OH), (uint32_t)(c.k == TCONV ? c.W : c.OW), 1, (uint32_t)c.CO};
  memcpy(t.t, a, sizeof a);
  return t;
}
}  // namespace m3
