#include <deque>
#include <functional>
#include <memory>
#include "pool.h"
#include "rnn.h"
using namespace vt;
const char* pbt::g_rule = "A case runs one kernel call several times: repeated (with another kernel in between), with every tensor moved to other memory with other strides, and in place where documented; non-trivial: the layouts differ or the call was repeated in place, and the result has two different values.";
#define CONV3(p, a, b, c) {{p##_fx16, p##_fx16##a, p##_fx16##b, p##_fx16##c}, {p##_fx16_fx8_fx8, p##_fx16_fx8_fx8##a, p##_fx16_fx8_fx8##b, p##_fx16_fx8_fx8##c}, {p##_sa8_sa8_sa32, p##_sa8_sa8_sa32##a, p##_sa8_sa8_sa32##b, p##_sa8_sa8_sa32##c}}
static ConvFn kConv[4][3][4] = {CONV3(mli_krn_conv2d_hwcn, _k1x1, _k3x3, _k5x5), CONV3(mli_krn_depthwise_conv2d_hwcn, , _k3x3, _k5x5), CONV3(mli_krn_group_conv2d_hwcn, , _k3x3, _k5x5), CONV3(mli_krn_transpose_conv2d_hwcn, , _k2x2_str2, _k4x4_str2)};
enum { CONV = 0, DW = 1, GROUP = 2, TRANS = 3 };
#define FNS(p) {{p##_fx8, p##_fx8_k2x2, p##_fx8_k3x3}, {p##_fx16, p##_fx16_k2x2, p##_fx16_k3x3}, {p##_sa8, p##_sa8_k2x2, p##_sa8_k3x3}}
typedef mli_status (*PoolFn)(const mli_tensor*, const mli_pool_cfg*, mli_tensor*);
static PoolFn kPool[2][3][3] = {FNS(mli_krn_maxpool_hwc), FNS(mli_krn_avepool_hwc)};
typedef mli_status (*EltFn)(const mli_tensor*, const mli_tensor*, mli_tensor*);
#define ELT(t) {mli_krn_eltwise_add_##t, mli_krn_eltwise_sub_##t, mli_krn_eltwise_mul_##t, mli_krn_eltwise_min_##t, mli_krn_eltwise_max_##t}
static EltFn kElt[3][5] = {ELT(fx8), ELT(fx16), ELT(sa8)};
#define T3(p) {p##_fx8, p##_fx16, p##_sa8}
typedef mli_status (*ReluFn)(const mli_tensor*, const mli_relu_cfg*, mli_tensor*);
typedef mli_status (*PreluFn)(const mli_tensor*, const mli_tensor*, const mli_prelu_cfg*, mli_tensor*);
typedef mli_status (*ActFn)(const mli_tensor*, const mli_lut*, mli_tensor*);
typedef mli_status (*PermFn)(const mli_tensor*, const mli_permute_cfg*, mli_tensor*);
static ReluFn kRelu[3] = T3(mli_krn_relu);
static EltFn kLeaky[3] = T3(mli_krn_leaky_relu);
static PreluFn kPrelu[3] = T3(mli_krn_prelu);
static ActFn kAct[2][3] = {T3(mli_krn_sigm), T3(mli_krn_tanh)};
static PermFn kPerm[3] = T3(mli_krn_permute);
static const mli_element_type kType[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8};
typedef mli_status (*FcFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_fully_connected_cfg*, mli_tensor*);
typedef mli_status (*RdFn)(const mli_tensor**, const mli_tensor**, const mli_tensor*, const mli_rnn_dense_cfg*, mli_tensor*);
static FcFn kFc[3] = {mli_krn_fully_connected_fx16, mli_krn_fully_connected_fx16_fx8_fx8, mli_krn_fully_connected_sa8_sa8_sa32};
static RdFn kRd[3] = {mli_krn_rnn_dense_fx16, mli_krn_rnn_dense_fx16_fx8_fx8, mli_krn_rnn_dense_sa8_sa8_sa32};

// ------------------------------------------------------------------ operations
enum Role { IN, OUT, INOUT, TMP };
enum Lay { PACKED, ROWS, ANY };  // contiguous only / innermost stride 1 / any strides
struct Slot { TT x; Role role; Lay lay; std::vector<int64_t> init; };
struct Op {
  std::string name;
  std::deque<Slot> s;
  std::function<mli_status()> call;
  std::vector<std::pair<int, int>> inplace;  // (input, output): may share memory
  std::vector<std::function<void()>> keep;   // owns configurations
  TT& add(const TT& x, Role r, Lay l) { s.push_back({x, r, l, {}}); return s.back().x; }
};
typedef std::shared_ptr<Op> OpP;
template <class C> static std::shared_ptr<C> keep(Op& o, const C& c) { auto p = std::make_shared<C>(c); o.keep.push_back([p] {}); return p; }

static Acc scatter(const ConvCase& c) {
  const Geo& q = c.q; int ci = c.in.dim(2), co = c.w.dim(3), z = c.m == SA8 ? c.in.zp[0] : 0;
  Acc a; a.v.assign((size_t)q.oh * q.ow * co, 0);
  for (int y = 0; y < q.ih; y++) for (int x = 0; x < q.iw; x++) for (int ky = 0; ky < q.kh; ky++) for (int kx = 0; kx < q.kw; kx++) {
    int oy = y * q.sh + ky - q.pt, ox = x * q.sw + kx - q.pl; if (oy < 0 || ox < 0 || oy >= q.oh || ox >= q.ow) continue;
    for (int k = 0; k < ci; k++) for (int o = 0; o < co; o++) a.v[((size_t)oy * q.ow + ox) * co + o] += (c.in.at(y, x, k) - z) * c.w.at(ky, kx, k, o);
  }
  for (auto v : a.v) a.amax = std::max<int64_t>(a.amax, std::abs(v));
  a.bound = (int64_t)q.kh * q.kw * ci << (c.m == SA8 ? 16 : c.m == FX16 ? 30 : 22);
  return a;
}
static void tdim(G& g, int k, int fixs, int& in, int& out, int& s, int& p0, int& p1) {
  s = fixs ? fixs : (int)g.range(1, k); in = (int)g.small(1, 5);
  bool pad = g.chance(70); p0 = pad ? (int)g.range(0, k - 1) : 0; p1 = pad ? (int)g.range(0, k - 1) : 0;
  out = (in - 1) * s + k - p0 - p1;
  if (out < 1) { in += (1 - out + s - 1) / s; out = (in - 1) * s + k - p0 - p1; }
}
static OpP op_conv(G& g) {
  auto o = std::make_shared<Op>(); ConvCase c; int kind = (int)g.draw(4); MathType m = c.m = (MathType)g.draw(3); Geo& q = c.q;
  int sp = kind == CONV ? (int)g.draw(4) : g.chance(40) ? 0 : 2 + (int)g.draw(2);
  int k = !sp ? 0 : kind == TRANS ? (sp - 1) * 2 : sp * 2 - 1;
  if (kind == TRANS) { q.kh = k ? k : gen_k(g, 4); q.kw = k ? k : gen_k(g, 4); q.dh = q.dw = 1; tdim(g, q.kh, k ? 2 : 0, q.ih, q.oh, q.sh, q.pt, q.pb); tdim(g, q.kw, k ? 2 : 0, q.iw, q.ow, q.sw, q.pl, q.pr); }
  else q = gen_geo(g, k ? k : gen_k(g, 4), k ? k : gen_k(g, 4), k > 3 ? 3 : 5);
  int vol = 8000 / std::max(1, q.oh * q.ow * q.kh * q.kw), cg = gen_ch(g, 6, vol), og = gen_ch(g, 4, vol / cg), n = kind == GROUP ? (int)g.small(1, 3) : kind == DW ? cg : 1;
  if (kind == DW) cg = og = 1;
  conv_make(g, c, cg * n, cg, og * n, [&](ConvCase& x) { return kind == TRANS ? scatter(x) : conv_acc(x.q, x.in, x.w, n, x.m == SA8 ? x.in.zp[0] : 0); });
  static const char* nm[] = {"conv2d", "depthwise conv2d", "group conv2d", "transpose conv2d"}; o->name = std::string(nm[kind]) + (k ? " specialised" : "");
  TT *in = &o->add(c.in, IN, ROWS), *w = &o->add(c.w, IN, ROWS), *b = &o->add(c.b, IN, PACKED), *out = &o->add(c.out, OUT, ROWS);
  auto cfg = keep(*o, c.cfg); ConvFn fn = kConv[kind][m][sp];
  o->call = [=] { return fn(&in->t, &w->t, &b->t, cfg.get(), &out->t); };
  return o;
}
static void fmt(G& g, TT& x) { if (x.t.el_type == MLI_EL_SA_8) set_sa(x, gen_scale(g), (int)g.range(10, 20), gen_zp8(g)); else set_frac(x, (int)g.range(0, el_bits(x.t.el_type) - 1)); }
static OpP op_pool(G& g) {
  auto o = std::make_shared<Op>(); bool avg = g.chance(50); int ty = (int)g.draw(3), sp = (int)g.draw(3); mli_element_type t = kType[ty];
  Geo q = gen_geo(g, sp ? sp + 1 : gen_k(g, 4), sp ? sp + 1 : gen_k(g, 4), 6, 4, 1); int ch = gen_ch(g, 6, 3000 / std::max(1, q.ih * q.iw));
  TT i = make(g, "in", t, shape({q.ih, q.iw, ch}), pick_mode(g), true, true), u = make(g, "out", t, shape({q.oh, q.ow, ch}), pick_mode(g), false, true);
  fmt(g, i); fmt(g, u); fill(g, i);
  o->name = avg ? "avepool" : "maxpool"; TT *in = &o->add(i, IN, ROWS), *out = &o->add(u, OUT, ROWS);
  auto cfg = keep(*o, pool_cfg(q)); PoolFn fn = kPool[avg][ty][sp]; o->call = [=] { return fn(&in->t, cfg.get(), &out->t); };
  return o;
}
static OpP op_dense(G& g) {
  auto o = std::make_shared<Op>(); MathType m = (MathType)g.draw(3); bool rd = g.chance(50), ext = !rd && m == SA8 && g.chance(40); int K = rd ? (int)g.range(1, 4) : 1, M = gen_ch(g, 8, 60);
  TT b = make(g, "bias", b_type(m), shape({M}), DENSE, true), u = make(g, "out", in_type(m), shape({M}), DENSE, false, true);
  std::vector<TT*> in, w; int minf = 99;
  for (int k = 0; k < K; k++) {
    Shape s = gen_shape(g); TT i = make(g, "in", in_type(m), s, DENSE, true, true), x = make(g, "weights", w_type(m), shape({(int)i.count(), M}), pick_mode(g), true);
    if (m == SA8) { set_sa(i, gen_scale(g), (int)g.range(14, 18), gen_zp8(g)); set_sa(x, gen_scale(g), 20, 0);
      if (k == 0) { int64_t p = (int64_t)i.sc[0] * x.sc[0]; int sh = 0; while (((p >> sh) + 1) > 32767) sh++; set_sa(b, (int)std::max<int64_t>(1, fx::cast(p, sh, 32, 16)), i.sfb[0] + 20 - sh, 0); } }
    else { set_frac(i, (int)g.range(6, 15)); set_frac(x, (int)g.range(3, m == FX16 ? 15 : 7)); if (k == 0) set_frac(b, (int)g.range(0, 7)); minf = std::min(minf, i.t.el_params.fx.frac_bits + x.t.el_params.fx.frac_bits); }
    fill(g, i); fill(g, x); in.push_back(&o->add(i, IN, PACKED)); w.push_back(&o->add(x, IN, ROWS));
  }
  if (m == SA8) { set_sa(u, gen_scale(g), (int)g.range(6, 14), gen_zp8(g)); pbt::Rng r(g.seed()); b.each([&](const int* i) { b.seto(b.off(i), (int64_t)(r.next() % 20001) - 10000); }); }
  else { set_frac(u, std::min(minf, (int)g.range(3, 15))); fill(g, b); }
  TT *pb = &o->add(b, IN, PACKED), *out = &o->add(u, OUT, PACKED);
  if (rd) {
    mli_rnn_dense_cfg c; memset(&c, 0, sizeof c); c.inputs_num = (uint8_t)K; auto cfg = keep(*o, c); RdFn fn = kRd[m]; o->name = "rnn_dense";
    o->call = [=] { std::vector<const mli_tensor*> a, z; for (int k = 0; k < K; k++) { a.push_back(&in[k]->t); z.push_back(&w[k]->t); } return fn(a.data(), z.data(), &pb->t, cfg.get(), &out->t); };
  } else {
    mli_fully_connected_cfg c; memset(&c, 0, sizeof c); c.relu.type = gen_relu(g); auto cfg = keep(*o, c); FcFn fn = ext ? mli_krn_fully_connected_sa8_sa8_sa32_ext_bias : kFc[m]; o->name = "fully_connected";
    o->call = [=] { return fn(&in[0]->t, &w[0]->t, &pb->t, cfg.get(), &out->t); };
  }
  return o;
}
static OpP op_rnn(G& g) {
  auto o = std::make_shared<Op>(); MathType m = (MathType)g.draw(3); bool lstm = g.chance(50); Rnn r = rnn_make(g, m, lstm ? 4 : 3, false);
  o->name = lstm ? "lstm_cell" : "gru_cell";
  TT *in = &o->add(r.in, IN, PACKED), *prev = &o->add(r.prev, IN, PACKED), *wi = &o->add(r.wi, IN, ROWS), *wo = &o->add(r.wo, IN, ROWS), *b = &o->add(r.b, IN, ROWS);
  TT *cell = &o->add(r.cell, lstm ? INOUT : IN, PACKED), *out = &o->add(r.out, OUT, PACKED), *tmp = &o->add(r.scratch, TMP, PACKED);
  auto cfg = keep(*o, rnn_cfg(r)); auto sig = keep(*o, r.sig.l), tan = keep(*o, r.tan.l);
  typedef mli_status (*LstmFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_lut*, const mli_lut*, const mli_rnn_cell_cfg*, mli_tensor*, mli_tensor*);
  typedef mli_status (*GruFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_lut*, const mli_lut*, const mli_rnn_cell_cfg*, mli_tensor*);
  static LstmFn lf[] = {mli_krn_lstm_cell_fx16, mli_krn_lstm_cell_fx16_fx8_fx8, mli_krn_lstm_cell_sa8_sa8_sa32};
  static GruFn gf[] = {mli_krn_gru_cell_fx16, mli_krn_gru_cell_fx16_fx8_fx8, mli_krn_gru_cell_sa8_sa8_sa32};
  o->call = [=] {
    cfg->scratch_data = tmp->t.data;
    return lstm ? lf[m](&in->t, &prev->t, &wi->t, &wo->t, &b->t, tan.get(), sig.get(), cfg.get(), &cell->t, &out->t)
                : gf[m](&in->t, &prev->t, &wi->t, &wo->t, &b->t, tan.get(), sig.get(), cfg.get(), &out->t);
  };
  return o;
}
static OpP op_elt(G& g) {
  auto o = std::make_shared<Op>(); int ty = (int)g.draw(3), op = (int)g.draw(5); mli_element_type t = kType[ty]; Shape s = gen_shape(g); size_t kind = g.weighted({70, 15, 15});
  int cnt = 1; for (int i = 0; i < s.rank; i++) cnt *= s.d[i];
  auto one = [&](const char* n) { if (g.chance(50) || cnt == 1) return scalar(g, n, t); TT x = make(g, n, t, shape({1}), DENSE, true); fill(g, x); return x; };
  auto full = [&](const char* n) { TT x = make(g, n, t, s, pick_mode(g), true, true); fill(g, x); return x; };
  TT a = kind == 1 ? one("in1") : full("in1"), b = kind == 2 ? one("in2") : full("in2"), u = make(g, "out", t, s, pick_mode(g), false, true);
  fmt(g, a); fmt(g, b); fmt(g, u); if (op >= MIN_) { b.t.el_params = a.t.el_params; b.sc = a.sc; b.zp = a.zp; b.sfb = a.sfb; }
  o->name = std::string("eltwise_") + elt_name(op);
  TT *pa = &o->add(a, IN, kind == 1 ? PACKED : ROWS), *pb = &o->add(b, IN, kind == 2 ? PACKED : ROWS), *out = &o->add(u, OUT, ROWS); EltFn fn = kElt[ty][op];
  if (kind != 1) o->inplace.push_back({0, 2});
  if (kind != 2) o->inplace.push_back({1, 2});
  o->call = [=] { return fn(&pa->t, &pb->t, &out->t); };
  return o;
}
static OpP op_act(G& g) {
  auto o = std::make_shared<Op>(); int what = (int)g.draw(7), ty = (int)g.draw(3); bool norm = what >= 5; if (norm && ty == 0) ty = 1; mli_element_type t = kType[ty]; Shape s = gen_shape(g);
  TT i = make(g, "in", t, s, pick_mode(g), true, true), u = make(g, "out", t, s, pick_mode(g), false, true); fmt(g, i); fmt(g, u); fill(g, i);
  if (t != MLI_EL_SA_8 && (what == 1 || what == 2)) u.t.el_params = i.t.el_params;
  TT *in = &o->add(i, IN, ROWS), *out = &o->add(u, OUT, ROWS); o->inplace.push_back({0, 1});
  int axis = (int)g.range(-1, s.rank - 1);
  if (what == 0) { mli_relu_cfg c; c.type = g.pick<mli_relu_type>({MLI_RELU_GEN, MLI_RELU_1, MLI_RELU_6, MLI_RELU_NONE}); auto cfg = keep(*o, c); ReluFn fn = kRelu[ty]; o->name = "relu"; o->call = [=] { return fn(&in->t, cfg.get(), &out->t); }; }
  if (what == 1 || what == 2) {
    if (what == 1) axis = -1;
    TT x; if (axis < 0) x = scalar(g, "slope", t); else { Shape v; v.rank = s.rank; for (int d = 0; d < 4; d++) v.d[d] = d < s.rank ? (d == axis ? s.d[d] : 1) : 0; x = make(g, "slope", t, v, DENSE, true, true); fill(g, x); }
    if (t == MLI_EL_SA_8) set_sa(x, gen_scale(g), (int)g.range(10, 20), gen_zp8(g)); else set_frac(x, (int)g.range(0, el_bits(t) - 1));
    TT* sl = &o->add(x, IN, PACKED); mli_prelu_cfg c; c.axis = axis; auto cfg = keep(*o, c); EltFn lf = kLeaky[ty]; PreluFn pf = kPrelu[ty]; bool pre = what == 2; o->name = pre ? "prelu" : "leaky_relu";
    o->call = [=] { return pre ? pf(&in->t, &sl->t, cfg.get(), &out->t) : lf(&in->t, &sl->t, &out->t); };
  }
  if (what == 3 || what == 4) {
    Lut l = what == 3 ? make_lut(g, "table", mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut) : make_lut(g, "table", mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut);
    auto lut = keep(*o, l.l); ActFn fn = kAct[what - 3][ty]; o->name = what == 3 ? "sigm" : "tanh"; o->call = [=] { return fn(&in->t, lut.get(), &out->t); };
  }
  if (norm) {
    bool l2 = what == 6, sa = ty == 2; Lut l = l2 ? make_lut(g, "table", mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut) : make_lut(g, "table", mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut);
    auto lut = keep(*o, l.l); mli_softmax_cfg c; c.axis = axis; auto cfg = keep(*o, c); o->name = l2 ? "l2_normalize" : "softmax";
    o->call = [=] { return l2 ? (sa ? mli_krn_l2_normalize_sa8 : mli_krn_l2_normalize_fx16)(&in->t, nullptr, lut.get(), cfg.get(), &out->t) : (sa ? mli_krn_softmax_sa8 : mli_krn_softmax_fx16)(&in->t, lut.get(), cfg.get(), &out->t); };
  }
  return o;
}
static OpP op_move(G& g) {
  auto o = std::make_shared<Op>(); int what = (int)g.draw(4), ty = (int)g.draw(3); if (what == 1 && ty == 0) ty = 1; mli_element_type t = kType[ty]; Shape s = gen_shape(g);
  TT i = make(g, "in", t, s, pick_mode(g, what == 0 || what == 3), true, true); fmt(g, i); fill(g, i); TT* in = &o->add(i, IN, what == 0 || what == 3 ? ANY : ROWS);
  if (what == 0) {
    mli_permute_cfg c; memset(&c, 0, sizeof c); for (int d = 0; d < 4; d++) c.perm_dim[d] = (uint8_t)d;
    for (int d = s.rank - 1; d > 0; d--) std::swap(c.perm_dim[d], c.perm_dim[g.draw((uint64_t)d + 1)]);
    Shape v = s; for (int d = 0; d < s.rank; d++) v.d[d] = s.d[c.perm_dim[d]];
    TT u = make(g, "out", t, v, pick_mode(g, true), false, true); fmt(g, u); TT* out = &o->add(u, OUT, ANY); auto cfg = keep(*o, c); PermFn fn = kPerm[ty]; o->name = "permute";
    o->call = [=] { return fn(&in->t, cfg.get(), &out->t); };
  } else if (what == 1) {
    int axis = (int)g.range(-1, s.rank - 1), sl = axis < 0 ? 1 : s.d[axis]; mli_argmax_cfg c; c.axis = axis; c.topk = 1;
    TT u = make(g, "out", MLI_EL_SA_32, shape({sl, 1}), DENSE, false, true); TT* out = &o->add(u, OUT, PACKED); auto cfg = keep(*o, c); bool sa = ty == 2; o->name = "argmax";
    // positions depend on the strides of the input: compare the element found
    in->t.mem_stride[s.rank - 1] = 1; for (int d = s.rank - 2; d >= 0; d--) in->t.mem_stride[d] = in->t.mem_stride[d + 1] * s.d[d + 1];
    fill(g, *in); o->s[0].lay = PACKED;
    o->call = [=] { return (sa ? mli_krn_argmax_sa8 : mli_krn_argmax_fx16)(&in->t, cfg.get(), &out->t); };
  } else if (what == 2) {
    mli_element_type to = g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}); o->name = "convert";
    TT u = make(g, "out", to, s, pick_mode(g), false, true); if (to == MLI_EL_SA_32) set_sa(u, gen_scale(g), (int)g.range(10, 20), (int)g.range(-500, 500)); else if (to != MLI_EL_FP_32) fmt(g, u);
    TT* out = &o->add(u, OUT, ROWS); bool fl = to == MLI_EL_FP_32;
    if (el_size(to) == el_size(t)) o->inplace.push_back({0, 1});
    o->call = [=] { return fl ? mli_hlp_convert_tensor(&in->t, &out->t) : mli_hlp_convert_tensor_safx(&in->t, &out->t); };
  } else {
    mli_mov_cfg_t c; mli_mov_cfg_for_copy(&c); int w[4]; bool any = false;
    for (int d = 0; d < s.rank; d++) { w[d] = (int)g.range(1, s.d[d]); c.offset[d] = (uint32_t)g.range(0, s.d[d] - w[d]); c.size[d] = (uint32_t)w[d]; any |= w[d] != s.d[d]; }
    Shape v = s; for (int d = 0; d < s.rank; d++) v.d[d] = w[d];
    TT u = make(g, "out", t, v, pick_mode(g, true), false, true); fmt(g, u); TT* out = &o->add(u, OUT, ANY); auto cfg = keep(*o, c); o->name = "mov slice";
    o->call = [=] { return mli_mov_tensor_sync(&in->t, cfg.get(), &out->t); };
  }
  return o;
}
static OpP gen_op(G& g, int what) {
  switch (what) { case 0: return op_conv(g); case 1: return op_pool(g); case 2: return op_dense(g); case 3: return op_rnn(g); case 4: return op_elt(g); case 5: return op_act(g); default: return op_move(g); }
}
// ------------------------------------------------------------------ runs
struct Result { std::vector<std::vector<int64_t>> v; std::vector<mli_tensor> t; };
// the same logical tensor elsewhere, with other strides and other bytes around its elements
static void relocate(G& g, Slot& s) {
  if (!s.x.t.rank) return;
  TT& x = s.x; Shape u; u.rank = x.rank(); for (int i = 0; i < 4; i++) u.d[i] = i < u.rank ? x.dim(i) : 0;
  int mode = s.lay == PACKED ? DENSE : s.lay == ANY && g.chance(50) ? RANDOM_INNER : g.chance(80) ? PADDED : DENSE;
  std::vector<int64_t> v = x.values();
  TT y = make(g, x.name, x.t.el_type, u, mode, s.role == IN, true);
  y.t.el_params = x.t.el_params; y.sc = x.sc; y.zp = x.zp; y.sfb = x.sfb;
  scribble(y.buf, y.bytes, g.seed());
  y.set_values(v); x = y;
}
static void gaps(const TT& x, bool poison) {
  if (!x.t.rank || !x.buf) return;
  if (!poison) { ASAN_UNPOISON_MEMORY_REGION(x.buf, x.bytes); return; }
  std::vector<uint8_t> m(x.bytes, 0); int es = el_size(x.t.el_type); int64_t base = x.data() - x.buf;
  x.each([&](const int* i) { int64_t o = base + x.off(i) * es; for (int k = 0; k < es; k++) m[o + k] = 1; });
  for (size_t i = 0; i < x.bytes;) { size_t j = i; while (j < x.bytes && !m[j]) j++; if (j > i) ASAN_POISON_MEMORY_REGION(x.buf + i, j - i); i = j + 1; }
}
static Result run(G& g, Op& o, bool poison, const char* what) {
  std::vector<mli_tensor> t0; for (auto& s : o.s) t0.push_back(s.x.t);
  world().snapshot();
  if (poison) for (auto& s : o.s) gaps(s.x, true);
  mli_status st = o.call();
  if (poison) for (auto& s : o.s) gaps(s.x, false);
  if (st != MLI_STATUS_OK) g.fail("status", "%s, %s: valid call returned status %d", o.name.c_str(), what, (int)st);
  world().check_frozen(g, what);
  Result r; size_t k = 0;
  for (auto& s : o.s) {
    if (s.role == IN && memcmp(&s.x.t, &t0[k], sizeof(mli_tensor))) g.fail("descriptor", "%s, %s: descriptor of '%s' changed", o.name.c_str(), what, s.x.name);
    if (s.role != IN) { expect_gaps(g, s.x, what); expect_desc(g, s.x, t0[k], what, false); }
    if (s.role == OUT || s.role == INOUT) { r.v.push_back(s.x.values()); r.t.push_back(s.x.t); }
    k++;
  }
  return r;
}
static void same(G& g, const Op& o, const Result& a, const Result& b, const char* what) {
  for (size_t k = 0; k < a.v.size(); k++) {
    for (size_t i = 0; i < a.v[k].size(); i++) if (a.v[k][i] != b.v[k][i]) g.fail("mismatch", "%s, %s: element %zu of result %zu is %lld, was %lld", o.name.c_str(), what, i, k, (long long)b.v[k][i], (long long)a.v[k][i]);
    mli_tensor x = a.t[k], y = b.t[k]; x.data = y.data; memcpy(x.mem_stride, y.mem_stride, sizeof x.mem_stride);
    if (x.el_type != MLI_EL_FP_32 && !same_tensor_struct(x, y)) g.fail("descriptor", "%s, %s: shape, type or parameters of result %zu differ", o.name.c_str(), what, k);
  }
}
static void layout(G& g, int kind) {
  world().reset();
  OpP op = gen_op(g, kind); Op& o = *op;
  for (auto& s : o.s) if (s.role == INOUT) s.init = s.x.values();
  std::vector<mli_tensor> first; for (auto& s : o.s) first.push_back(s.x.t);
  g.note("%s", o.name.c_str()); g.label(o.name);
  if (g.verbose()) for (auto& s : o.s) g.note("%s", s.x.desc().c_str());
  auto rewind = [&] { size_t k = 0; for (auto& s : o.s) { s.x.t = first[k++]; if (s.role == INOUT) s.x.set_values(s.init); if (s.role == OUT || s.role == TMP) scribble(s.x.buf, s.x.bytes, g.seed()); } };
  Result a = run(g, o, false, "first call");
  bool nt = false, changed = false; for (auto& v : a.v) for (auto x : v) if (x != v[0]) nt = true;
  // again, possibly after an unrelated call
  rewind();
  if (g.chance(40)) { OpP other = gen_op(g, (int)g.draw(7)); run(g, *other, false, "unrelated call"); g.label("another kernel in between"); }
  same(g, o, a, run(g, o, g.chance(50), "repeated call"), "repeated call");
  // other layout
  rewind();
  for (auto& s : o.s) { mli_tensor t = s.x.t; if (s.role == INOUT) s.x.set_values(s.init); relocate(g, s); for (uint32_t i = 0; i < t.rank; i++) if (t.mem_stride[i] != s.x.t.mem_stride[i]) changed = true; }
  if (g.verbose()) for (auto& s : o.s) g.note("moved: %s", s.x.desc().c_str());
  std::vector<mli_tensor> second; for (auto& s : o.s) second.push_back(s.x.t);
  bool poison = g.chance(70); if (changed) g.label("strides differ"); if (poison) g.label("gaps inaccessible");
  same(g, o, a, run(g, o, poison, "other layout"), "other layout");
  // in place
  if (!o.inplace.empty() && g.chance(60)) {
    auto p = o.inplace[g.draw(o.inplace.size())]; TT &i = o.s[p.first].x, &u = o.s[p.second].x;
    for (size_t k = 0; k < o.s.size(); k++) o.s[k].x.t = second[k];
    u.t.data = i.t.data; memcpy(u.t.mem_stride, i.t.mem_stride, sizeof u.t.mem_stride); u.buf = i.buf; u.bytes = i.bytes; world().unfreeze(i.buf);
    same(g, o, a, run(g, o, poison, "in place"), "in place"); g.label("in place"); changed = true;
  }
  if (o.name == "lstm_cell" || o.name == "gru_cell") if (g.chance(50)) {  // the output may replace the previous output
    for (size_t k = 0; k < o.s.size(); k++) o.s[k].x.t = second[k];
    if (o.name == "lstm_cell") o.s[5].x.set_values(o.s[5].init);
    TT &i = o.s[1].x, &u = o.s[6].x; if (u.count() == i.count()) {
      u.t.data = i.t.data; u.buf = i.buf; u.bytes = i.bytes; world().unfreeze(i.buf);
      same(g, o, a, run(g, o, poison, "output in place of the previous output"), "output in place of the previous output"); g.label("in place"); changed = true;
    }
  }
  if (nt && changed) g.nontrivial();
}
#define L(id, k, nm, w) static void id(G& g) { layout(g, k); } PBT_SUB(nm, w, id)
L(l0, 0, "layout_conv", 24); L(l1, 1, "layout_pool", 12); L(l2, 2, "layout_dense", 14); L(l3, 3, "layout_rnn", 14); L(l4, 4, "layout_eltwise", 12); L(l5, 5, "layout_activation", 18); L(l6, 6, "layout_move", 14);
