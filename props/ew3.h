// MLI 3.0 element-wise operators, PReLU and bilinear resize. Used by C24, C26 and C27.
#pragma once
#include "pl3.h"
namespace m3 {
enum EOp { EADD, ESUB, EMUL, EMAX, EMIN };
inline const char* eop_name(int o) { static const char* n[] = {"add", "sub", "mul", "max", "min"}; return n[o]; }
struct Elt3 {
  int op, es, oes; int scalar;  // scalar: 0 none, 1 left, 2 right
  std::vector<int> d; Arr l, r;
  std::string str() const { return std::string(eop_name(op)) + " int" + std::to_string(es * 8) + (scalar == 1 ? " scalar left " : scalar == 2 ? " scalar right " : " ") + l.str() + " / " + r.str(); }
};
inline Elt3 gen_elt3(G& g) {
  Elt3 c;
  c.op = (int)g.draw(5);
  c.es = c.op == EMUL ? g.pick<int>({1, 2}) : g.pick<int>({1, 2, 4});
  c.oes = c.op == EMUL ? 4 : c.es;
  c.scalar = (int)g.weighted({4, 1, 1});
  for (int i = 0; i < 4; i++) c.d.push_back((int)g.range(1, 5));
  std::vector<int> one = {1, 1, 1, 1};
  c.l = gen_arr(g, c.scalar == 1 ? one : c.d, c.es);
  c.r = gen_arr(g, c.scalar == 2 ? one : c.d, c.es);
  return c;
}
inline int64_t elt_value(int op, int64_t a, int64_t b, int oes) {
  switch (op) {
    case EADD: return satn((__int128)a + b, oes);
    case ESUB: return satn((__int128)a - b, oes);
    case EMUL: return satn((__int128)a * b, oes);
    case EMAX: return std::max(a, b);
  }
  return std::min(a, b);
}
inline Arr model_elt3(const Elt3& c) {
  Arr y(c.d);
  for (size_t i = 0; i < y.v.size(); i++) y.v[i] = elt_value(c.op, c.l.v[c.scalar == 1 ? 0 : i], c.r.v[c.scalar == 2 ? 0 : i], c.oes);
  return y;
}
template <class K> Arr walk_elt(G& g, ExecutionInterface* e, unsigned tiles, const Elt3& c, Opnd<4>& L, Opnd<4>& R, Opnd<4>& out) {
  K* k = as<K>(g, e);
  Arr y(c.d); std::vector<uint8_t> seen(y.v.size(), 0);
  for (unsigned t = 0, T = tiles * passes(g); t < T; t++) {
    if (t == tiles) again(g, seen);
    uint32_t ls[4], rs[4], os[4]; int32_t lp[4], rp[4], op[4];
    k->GetIOSizesAndOffsets(ls, rs, os, lp, rp, op);
    if (c.l.v.size() != 1) L.load(g, c.l, lp, ls);
    if (c.r.v.size() != 1) R.load(g, c.r, rp, rs);
    out.before(g);
    step(g, k);
    out.store(g, y, seen, op, os);
    update(g, k);
  }
  coverage(g, seen, y);
  return y;
}
inline Arr run_elt3(G& g, const Elt3& c, bool tiled, const std::vector<int>& tl) {
  using namespace snps_arc::metaware::mli;
  Banks bk; bk.gen(g); Life l;
  Opnd<4> L, R, O; L.name = "left tile"; R.name = "right tile"; O.name = "output tile"; L.es = R.es = c.es; O.es = c.oes;
  std::vector<int> one = {1, 1, 1, 1};
  set_dims(L, c.l.d, c.scalar == 1 ? one : tl); set_dims(R, c.r.d, c.scalar == 2 ? one : tl); set_dims(O, c.d, tl);
  for (auto* o : {&L, &R, &O}) o->layout(g, g.chance(50) ? o->dims : o->tmax, true);
  if (c.scalar == 1) for (auto& s : L.str) s = 1;
  if (c.scalar == 2) for (auto& s : R.str) s = 1;
  L.alloc(true); R.alloc(true); O.alloc(false);
  It4 li = mk_it(L.dims, L.str, 4, tiled, c.scalar == 1 ? one : tl), ri = mk_it(R.dims, R.str, 4, tiled, c.scalar == 2 ? one : tl), oi = mk_it(O.dims, O.str, 4, tiled, tl);
  bool tensors = !tiled && g.chance(20);
  // a single value is read when the object is created
  if (c.l.v.size() == 1) L.load_all(g, c.l);
  if (c.r.v.size() == 1) R.load_all(g, c.r);
  unsigned tiles = tiled ? oi.GetTotalCount() : 1;
  auto go = [&](auto* op) {
    OffsetBuffer a = bk.ob(g, L.buf, L.bytes, c.es), b = bk.ob(g, R.buf, R.bytes, c.es), o = bk.ob(g, O.buf, O.bytes, c.oes), ctrl;
    announced(g, op->GetInputLeftBufferSize(), L); announced(g, op->GetInputRightBufferSize(), R); announced(g, op->GetOutputBufferSize(), O);
    ok(g, op->AttachBufferOffsets(a, b, o, ctrl), "AttachBufferOffsets");
    return create(g, l, op, bk);
  };
  auto mk = [&](auto f, auto h, uint32_t sz) {
    uint8_t* m = cs_buffer(g, l, sz);
    if (tensors) return go(f(m, Tensor<NoBuffer, 4>(L.dims, L.str), Tensor<NoBuffer, 4>(R.dims, R.str), Tensor<NoBuffer, 4>(O.dims, O.str)));
    return go(h(m));
  };
  auto& f = factory();
#define M3_ELT(N) return walk_elt<ref::N>(g, mk([&](uint8_t* m, const Tensor<NoBuffer, 4>& a, const Tensor<NoBuffer, 4>& b, const Tensor<NoBuffer, 4>& o) { return f.N##_CS(m, a, b, o); }, \
    [&](uint8_t* m) { return f.N##_CS(m, li, ri, oi); }, f.N##_CS_GetSize()), tiles, c, L, R, O)
  switch (c.op) {
    case EADD: M3_ELT(Add);
    case ESUB: M3_ELT(Sub);
    case EMUL: M3_ELT(Mul);
    case EMAX: M3_ELT(Max);
  }
  M3_ELT(Min);
#undef M3_ELT
}

// ------------------------------------------------------------------ PReLU (int32 -> int8)
struct Prel3 {
  int axis; bool old4 = false; std::vector<int> d;  // 5 dimensions
  std::vector<int64_t> ib, ps, ns, ph, nh, ob; Arr x;
  std::string str() const {
    std::string s = "prelu axis " + std::to_string(axis) + (old4 ? " (rank 4 interface)" : "") + " params (in bias, pos scale, neg scale, pos shift, neg shift, out bias)";
    for (size_t i = 0; i < ib.size(); i++) s += " (" + std::to_string(ib[i]) + " " + std::to_string(ps[i]) + " " + std::to_string(ns[i]) + " " + std::to_string(ph[i]) + " " + std::to_string(nh[i]) + " " + std::to_string(ob[i]) + ")";
    return s + " x " + x.str();
  }
};
inline int64_t prel_value(const Prel3& c, int p, int64_t x) {
  int64_t v = satn((__int128)x - c.ib[p], 4);
  int64_t sc = v >= 0 ? c.ps[p] : c.ns[p], sh = v >= 0 ? c.ph[p] : c.nh[p];
  int64_t s = shr64(v * sc, sh > 63 ? 63 : sh < -63 ? -63 : (int)sh);
  return satn((__int128)s + c.ob[p], 1);
}
inline Prel3 gen_prel3(G& g) {
  Prel3 c;
  for (int i = 0; i < 5; i++) c.d.push_back((int)g.range(1, 4));
  c.old4 = g.chance(15);
  if (c.old4) c.d[3] = 1;
  c.axis = c.old4 ? 4 : g.chance(30) ? -1 : g.chance(70) ? 4 : (int)g.range(0, 3);
  int n = c.axis < 0 ? 1 : c.d[c.axis];
  for (int i = 0; i < n; i++) {
    c.ib.push_back(g.chance(30) ? 0 : gen_val(g, 4));
    c.ps.push_back(gen_val(g, 2)); c.ns.push_back(gen_val(g, 2));
    for (auto* h : {&c.ph, &c.nh}) h->push_back(g.weighted({2, 6}) ? g.range(0, 40) : gen_val(g, 1));
    c.ob.push_back(g.chance(30) ? 0 : gen_val(g, 1));
  }
  c.x = gen_arr(g, c.d, 4);
  if (g.chance(75)) {
    size_t k = 0;
    each(c.d, [&](const int* i) {
      int p = c.axis < 0 ? 0 : i[c.axis]; bool pos = g.draw(2);
      int64_t sc = pos ? c.ps[p] : c.ns[p], sh = pos ? c.ph[p] : c.nh[p];
      double f = sc ? 300.0 * pow(2.0, (double)(sh > 31 ? 31 : sh < 0 ? 0 : sh)) / fabs((double)sc) : 1000;
      int64_t r = f > 2e9 ? 2000000000 : (int64_t)f + 1;
      c.x.v[k++] = satn((__int128)c.ib[p] + (pos ? g.range(0, r) : -g.range(0, r)), 4);
    });
  }
  return c;
}
inline Arr model_prel3(const Prel3& c) {
  Arr y(c.d); size_t k = 0;
  each(c.d, [&](const int* i) { y.v[k] = prel_value(c, c.axis < 0 ? 0 : i[c.axis], c.x.v[k]); k++; });
  return y;
}
inline Arr run_prel3(G& g, const Prel3& c, bool tiled, const std::vector<int>& tl) {
  using namespace snps_arc::metaware::mli;
  typedef TensorIterator<NoBuffer, 5, 5> It5;
  Opnd<5> in, out; in.name = "input tile"; out.name = "output tile"; in.es = 4; out.es = 1;
  set_dims(in, c.d, tl); set_dims(out, c.d, tl);
  in.layout(g, g.chance(50) ? in.dims : in.tmax); out.layout(g, g.chance(50) ? out.dims : out.tmax);
  in.alloc(true); out.alloc(false);
  Banks bk; bk.gen(g); Life l;
  uint32_t tile[5]; to_u(tile, tl); int32_t ord[5] = {0, 1, 2, 3, 4};
  auto mkit = [&](Opnd<5>& o) { Tensor<NoBuffer, 5> t(o.dims, o.str, 5u); return tiled ? It5(t, tile, ord) : It5(t); };
  It5 ii = mkit(in), oi = mkit(out), wi = ii, wo = oi;
  mli::Prelu_CS* op;
  PreluOpConfig cfg(c.axis);
  uint8_t* m = cs_buffer(g, l, factory().Prelu_CS_GetSize());
  if (c.old4) {
    uint32_t d4[4] = {in.dims[0], in.dims[1], in.dims[2], in.dims[4]};
    int32_t si[4] = {in.str[0], in.str[1], in.str[2], in.str[4]}, so[4] = {out.str[0], out.str[1], out.str[2], out.str[4]};
    It4 i4(Tensor<NoBuffer, 4>(d4, si, 4u)), o4(Tensor<NoBuffer, 4>(d4, so, 4u));
    op = factory().Prelu_CS(m, i4, cfg, o4, 0);
  } else op = factory().Prelu_CS(m, ii, cfg, oi);
  size_t n = c.ib.size();
  auto pack = [&](const std::vector<int64_t>& v, int es) { std::vector<uint8_t> r(v.size() * es); for (size_t i = 0; i < v.size(); i++) memcpy(&r[i * es], &v[i], es); return r; };
  const std::vector<int64_t>* src[6] = {&c.ib, &c.ps, &c.ns, &c.ph, &c.nh, &c.ob};
  int es6[6] = {4, 2, 2, 1, 1, 1};
  std::vector<uint8_t> pk[6], want; std::vector<Tensor<Buffer, 2>> pt;
  uint32_t nd[2] = {(uint32_t)n, 0};
  for (int i = 0; i < 6; i++) { pk[i] = pack(*src[i], es6[i]); want.insert(want.end(), pk[i].begin(), pk[i].end()); pt.emplace_back(Buffer(pk[i].data(), (uint32_t)pk[i].size(), es6[i]), nd); }
  uint32_t esz = op->GetEncodedParamsSize();
  if (esz < want.size() || (c.axis >= 0 && esz != want.size())) g.fail("encode", "GetEncodedParamsSize %u, the parameters occupy %zu bytes", esz, want.size());
  std::vector<uint8_t> enc(esz, 0x3c);
  Buffer eb(enc.data(), esz, 1);
  ok(g, op->EncodeParams(pt[0], pt[1], pt[2], pt[3], pt[4], pt[5], eb), "EncodeParams");
  if (memcmp(want.data(), enc.data(), want.size())) g.fail("encode", "encoded parameters differ from in bias, positive scale, negative scale, positive shift, negative shift, out bias");
  uint8_t* ep = world().alloc(esz, "encoded parameters", true);
  OffsetBuffer a = bk.ob(g, in.buf, in.bytes, 4), b = bk.ob(g, out.buf, out.bytes, 1), e1 = bk.ob(g, ep, esz, 1), ctrl;
  ok(g, op->AttachBufferOffsets(a, b, e1, ctrl), "AttachBufferOffsets");
  uint32_t tiles = tiled ? ii.GetTotalCount() : 1;
  auto* e = create(g, l, op, bk); auto* k = as<ref::Prelu>(g, e);
  Arr y(c.d); std::vector<uint8_t> seen(y.v.size(), 0);
  for (unsigned t = 0, T = tiles * passes(g); t < T; t++) {
    if (t == tiles) again(g, seen);
    uint32_t is[5], os[5]; int32_t ip[5], op_[5];
    wi.get_pos(ip); wi.GetSubTensor().get_dims(is); wo.get_pos(op_); wo.GetSubTensor().get_dims(os);
    uint32_t ps, o[6];
    k->GetIOSizesAndOffsets(ps, o[0], o[1], o[2], o[3], o[4], o[5]);
    uint32_t pn = c.axis < 0 ? 1 : is[c.axis], p0 = c.axis < 0 ? 0 : ip[c.axis];
    if (c.axis >= 0 && ps != pn) g.fail("params", "tile %u needs %u parameter elements, GetIOSizesAndOffsets reports %u", t, pn, ps);
    for (size_t q = 0; q < esz; q++) ep[q] = 0xa5;
    for (int i = 0; i < 6; i++) {
      if (o[i] + pn * es6[i] > esz) g.fail("params", "tile parameters do not fit the encoded parameter buffer");
      memcpy(ep + o[i], &pk[i][p0 * es6[i]], pn * es6[i]);
    }
    in.load(g, c.x, ip, is); out.before(g);
    step(g, k);
    out.store(g, y, seen, op_, os);
    update(g, k);
    wi.Next(); wo.Next();
  }
  coverage(g, seen, y);
  return y;
}
// ------------------------------------------------------------------ bilinear resize (int8 -> int32)
struct Resz3 {
  int B, H, W, C, OH, OW, shift, st[2], of[2]; Arr x;
  std::string str() const {
    char b[200]; snprintf(b, sizeof b, "resize %dx%dx%dx%d -> %dx%d stride %d,%d offset %d,%d shift %d x ", B, H, W, C, OH, OW, st[0], st[1], of[0], of[1], shift);
    return b + x.str();
  }
};
inline Resz3 gen_resz3(G& g) {
  Resz3 c;
  c.B = g.chance(60) ? 1 : (int)g.range(2, 3); c.C = (int)g.range(1, 4); c.H = (int)g.range(1, 7); c.W = (int)g.range(1, 7); c.OH = (int)g.range(1, 8); c.OW = (int)g.range(1, 8);
  c.shift = (int)g.range(1, 11);
  int lim = 16 << c.shift;
  for (int i = 0; i < 2; i++) {
    int lo = c.shift >= 4 ? (1 << (c.shift - 4)) + 1 : 1, hi = std::min(lim - 1, 32767);
    int m = (int)g.weighted({4, 3, 1});
    c.st[i] = m == 0 ? (int)g.range(lo, std::min(hi, 4 << c.shift)) : m == 1 ? std::max(lo, std::min(hi, (int)((double)((i ? c.W : c.H) << c.shift) / (i ? c.OW : c.OH)))) : (int)g.range(lo, hi);
    int om = (int)g.weighted({3, 4, 3});
    int ol = std::min(lim - 1, 32767);
    c.of[i] = om == 0 ? 0 : om == 1 ? (int)g.range(-(1 << c.shift), 1 << c.shift) : (int)g.range(-ol, ol);
  }
  c.x = gen_arr(g, {c.B, c.H, c.W, c.C}, 1);
  return c;
}
inline Arr model_resz3(const Resz3& c) {
  Arr y({c.B, c.OH, c.OW, c.C});
  int64_t one = 1LL << c.shift;
  auto fl = [&](int64_t v) { return v >= 0 ? v / one : -((-v + one - 1) / one); };
  auto cl = [](int64_t v, int n) { return (int)std::min<int64_t>(std::max<int64_t>(v, 0), n - 1); };
  for (int b = 0; b < c.B; b++) for (int h = 0; h < c.OH; h++) for (int w = 0; w < c.OW; w++) for (int ch = 0; ch < c.C; ch++) {
    int64_t rf = (int64_t)h * c.st[0] + c.of[0], cf = (int64_t)w * c.st[1] + c.of[1], r = fl(rf), q = fl(cf), dr = rf - r * one, dc = cf - q * one, s = 0;
    for (int a = 0; a < 2; a++) for (int e = 0; e < 2; e++) s += c.x.at({b, cl(r + a, c.H), cl(q + e, c.W), ch}) * (a ? dr : one - dr) * (e ? dc : one - dc);
    y.at({b, h, w, ch}) = s;
  }
  return y;
}
inline Arr run_resz3(G& g, const Resz3& c) {
  Opnd<4> in, out; in.name = "input"; out.name = "output"; in.es = 1; out.es = 4;
  std::vector<int> od = {c.B, c.OH, c.OW, c.C};
  set_dims(in, c.x.d, c.x.d); set_dims(out, od, od);
  in.layout(g, in.dims); out.layout(g, out.dims); in.alloc(true); out.alloc(false);
  mli_tensor ti, to; memset(&ti, 0, sizeof ti); memset(&to, 0, sizeof to);
  ti.rank = to.rank = 4; ti.el_type = MLI_EL_SA_8; to.el_type = MLI_EL_SA_32;
  for (int i = 0; i < 4; i++) { ti.shape[i] = in.dims[i]; to.shape[i] = out.dims[i]; ti.mem_stride[i] = in.str[i]; to.mem_stride[i] = out.str[i]; }
  ti.data.mem.pi8 = (int8_t*)in.buf; ti.data.capacity = (uint32_t)in.bytes; to.data.mem.pi32 = (int32_t*)out.buf; to.data.capacity = (uint32_t)out.bytes;
  ti.el_params.sa.dim = to.el_params.sa.dim = -1;
  int16_t st[2] = {(int16_t)c.st[0], (int16_t)c.st[1]}, of[2] = {(int16_t)c.of[0], (int16_t)c.of[1]};
  mli::ResizeOpConfig cfg(st, of, (int8_t)c.shift);
  in.load_all(g, c.x); out.before(g);
  world().snapshot();
  ref::run_mli_resize_bilinear_standalone(&ti, cfg, &to);
  world().check_frozen(g, "resize");
  Arr y(od); std::vector<uint8_t> seen(y.v.size(), 0); int32_t p[4] = {0, 0, 0, 0};
  out.store(g, y, seen, p, out.dims);
  return y;
}
}  // namespace m3
