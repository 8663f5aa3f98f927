#include "pool.h"
#include "rnn.h"
#include <deque>
#include <functional>
using namespace vt;
const char* pbt::g_rule = "A case is one call of a kernel or helper in a build that returns status codes, on a valid fixture (status must be OK) or on the same fixture with one documented condition violated (status must be an error and nothing may be written); non-trivial: the latter.";
typedef std::function<void()> Fn;

struct V {
  G& g; const char* what;
  std::deque<TT> pool;                                  // tensors of the call
  std::vector<std::pair<void*, size_t>> watch;          // configurations and table descriptors
  std::vector<std::pair<std::string, Fn>> bad; std::vector<std::pair<size_t, Fn>> fatal;
  std::function<mli_status()> call;
  bool out_desc_free = false;  // data movement fills in the destination descriptor as it goes
  V(G& g_, const char* w) : g(g_), what(w) {}
  TT& own(const TT& x) { pool.push_back(x); return pool.back(); }
  void add(const std::string& n, Fn f) { bad.push_back({n, f}); }
};
static size_t ext(const TT& x) { size_t e = 1; for (int i = 0; i < x.rank(); i++) e += (size_t)(x.t.shape[i] - 1) * x.t.mem_stride[i]; return e; }
static uint32_t wild_rank(G& g) { return g.pick<uint32_t>({5, 6, 255, 0x7fffffffu, 0xffffffffu}); }

// what holds for every tensor passed to a kernel
static void generic(V& v, TT& x, bool whole_capacity = true) {
  G& g = v.g; std::string n = x.name; TT* p = &x;
  v.fatal.push_back({v.bad.size(), [p] { p->t.data.mem.pi8 = nullptr; }});
  v.add(n + " data null", [p] { p->t.data.mem.pi8 = nullptr; });
  v.add(n + " rank above maximum", [p, &g] { p->t.rank = wild_rank(g); });
  v.add(n + " capacity above INT32_MAX", [p, &g] { p->t.data.capacity = g.chance(50) ? 0x80000000u : 0xffffffffu - (uint32_t)g.range(0, 64); });
  v.add(n + " stride not positive", [p, &g] { p->t.mem_stride[g.range(0, p->rank() - 1)] = g.chance(40) ? 0 : (int)-g.range(1, g.chance(50) ? 3 : 0x7fffffff); });
  for (int d = 0; d < x.rank(); d++) {
    int need = d + 1 < x.rank() ? (int)x.t.shape[d + 1] * x.t.mem_stride[d + 1] : 1;
    if (need > 1) v.add(n + " overlapping strides", [p, &g, d, need] { p->t.mem_stride[d] = (int)(g.chance(60) ? need - 1 : g.range(1, need - 1)); });
  }
  v.add(n + " empty dimension", [p, &g] { p->t.shape[g.range(0, p->rank() - 1)] = 0; });
  v.add(n + " dimension above INT32_MAX", [p, &g] { p->t.shape[g.range(0, p->rank() - 1)] = 0x80000000u + (uint32_t)g.range(0, 0x7fffffff); });
  if (whole_capacity) v.add(n + " capacity too small", [p, &g] { int64_t need = (int64_t)ext(*p) * el_size(p->t.el_type); p->t.data.capacity = (uint32_t)(g.chance(60) ? need - 1 : g.range(0, need - 1)); });
  if (x.dim(0) > 1) v.add(n + " stride beyond capacity", [p, &g] { p->t.mem_stride[0] = (int)g.range(0x8000000, 0x7fffffff); });
  v.add(n + " dimension beyond capacity", [p, &g] { p->t.shape[0] = (uint32_t)(g.chance(50) ? g.range(0x8000000, 0x7fffffff) : (0x100000000ll / (p->t.mem_stride[0] * el_size(p->t.el_type)) + g.range(0, 4)) & 0x7fffffff); if (p->t.shape[0] < 0x100000) p->t.shape[0] = 0x40000000; });
}
// well-formed tensor of another rank
static void other_rank(V& v, TT& x, std::initializer_list<int> allowed) {
  TT* p = &x; G& g = v.g; std::vector<int> c;
  for (int r = 1; r <= 4; r++) { bool ok = false; for (int a : allowed) ok |= a == r; if (!ok) c.push_back(r); }
  v.add(std::string(x.name) + " wrong rank", [p, &g, c] { int r = g.pickv(c); for (int i = p->rank(); i < r; i++) { p->t.shape[i] = 1; p->t.mem_stride[i] = 1; } for (int i = r; i < 4; i++) p->t.shape[i] = (uint32_t)g.range(0, 3); p->t.rank = r; });
}
// well-formed tensor with another dimension d
static void other_dim(V& v, TT& x, int d, const char* why = "wrong shape") {
  TT* p = &x; G& g = v.g;
  v.add(std::string(x.name) + " " + why + " (dimension " + std::to_string(d) + ")", [p, &g, d] {
    int o = (int)p->t.shape[d], n = o > 1 && g.chance(60) ? (g.chance(60) ? o - 1 : (int)g.range(1, o - 1)) : o + (int)g.range(1, 3);
    if (n > o) {  // dense copy in larger memory
      Shape s; s.rank = p->rank(); for (int i = 0; i < 4; i++) s.d[i] = i < s.rank ? (int)p->t.shape[i] : 0; s.d[d] = n;
      TT y = make(g, p->name, p->t.el_type, s, DENSE, true); memset(y.buf, 0, y.bytes);
      y.t.el_params = p->t.el_params; p->t = y.t;
    } else p->t.shape[d] = n;
  });
}
static void inner_stride(V& v, TT& x) {
  TT* p = &x; G& g = v.g;
  v.add(std::string(x.name) + " innermost stride above 1", [p, &g] {
    Shape s; s.rank = p->rank(); for (int i = 0; i < 4; i++) s.d[i] = i < s.rank ? (int)p->t.shape[i] : 0;
    TT y = make(g, p->name, p->t.el_type, s, DENSE, true); int k = (int)g.range(2, 5);
    uint8_t* m = world().alloc(y.bytes * k, p->name, true); memset(m, 0, y.bytes * k);
    y.t.el_params = p->t.el_params; y.t.data.mem.pi8 = (int8_t*)m; y.t.data.capacity = (uint32_t)(y.bytes * k);
    for (int i = 0; i < s.rank; i++) y.t.mem_stride[i] *= k;
    p->t = y.t;
  });
}
static void not_contiguous(V& v, TT& x) {
  TT* p = &x; G& g = v.g;
  if (x.rank() < 2) return;
  v.add(std::string(x.name) + " not contiguous", [p, &g] {
    uint8_t* m = world().alloc(p->bytes * 3 + 64 + 2 * ext(*p) * 4, p->name, true); int d = (int)g.range(0, p->rank() - 2), k = (int)g.range(1, 2);
    for (int i = d; i >= 0; i--) p->t.mem_stride[i] = i == d ? p->t.mem_stride[i] + k : (int)p->t.shape[i + 1] * p->t.mem_stride[i + 1];
    p->t.data.mem.pi8 = (int8_t*)m; p->t.data.capacity = (uint32_t)(ext(*p) * el_size(p->t.el_type));
    if (p->t.data.capacity > p->bytes * 3 + 64 + 2 * ext(*p) * 4) g.discard();
  });
}
static void other_type(V& v, TT& x, bool keep_size_ok = false) {
  TT* p = &x; G& g = v.g; (void)keep_size_ok;
  v.add(std::string(x.name) + " wrong type", [p, &g] {
    mli_element_type o = p->t.el_type, t;
    do t = g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}); while (t == o);
    int frac = o == MLI_EL_FX_8 || o == MLI_EL_FX_16 ? p->t.el_params.fx.frac_bits : 5;
    int8_t* m = p->t.data.mem.pi8; uint32_t cap = p->t.data.capacity; (void)m;
    p->t.el_type = t; memset(&p->t.el_params, 0, sizeof p->t.el_params);
    if (el_size(t) > el_size(o) && p->rank()) { size_t n = ext(*p) * el_size(t); p->t.data.mem.pi8 = (int8_t*)world().alloc(n, p->name, true); memset(p->t.data.mem.pi8, 0, n); cap = (uint32_t)n; }
    p->t.data.capacity = cap;
    if (t == MLI_EL_FX_8 || t == MLI_EL_FX_16) p->t.el_params.fx.frac_bits = (int8_t)frac;
    else { p->t.el_params.sa.dim = -1; p->t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16; p->t.el_params.sa.scale.mem.i16 = 1; }
  });
}
// quantisation parameters of an asymmetric tensor. zp range [zlo, zhi]
static void sa_params(V& v, TT& x, int zlo, int zhi, bool axis_allowed) {
  if (x.t.el_type != MLI_EL_SA_8 && x.t.el_type != MLI_EL_SA_32) return;
  TT* p = &x; G& g = v.g; std::string n = x.name; auto* q = &x.t.el_params.sa;
  auto badz = [&g, zlo, zhi] { return (int16_t)(g.chance(50) ? (g.chance(50) ? zhi + 1 : g.range(zhi + 1, 32767)) : (g.chance(50) ? zlo - 1 : g.range(-32768, zlo - 1))); };
  auto bads = [&g] { return (int16_t)(g.chance(40) ? 0 : -g.range(1, 32768)); };
  if (q->dim < 0) {
    v.add(n + " scale not positive", [q, bads] { q->scale.mem.i16 = bads(); });
    v.add(n + " zero point out of range", [q, badz] { q->zero_point.mem.i16 = badz(); });
    v.add(n + " per-tensor parameters with memory", [q, &g] { uint32_t c = (uint32_t)g.range(1, 4); size_t k = g.draw(3); (k == 0 ? q->scale.capacity : k == 1 ? q->zero_point.capacity : q->scale_frac_bits.capacity) = c; });
    if (x.rank() && !axis_allowed) v.add(n + " per-axis parameters", [p, &g] {
      int d = (int)g.range(0, p->rank() - 1); size_t k = p->t.shape[d];
      set_sa_axis(*p, d, std::vector<int16_t>(k, p->sc[0]), std::vector<int8_t>(k, p->sfb[0]), std::vector<int16_t>(k, p->zp[0]));
    });
  } else {
    size_t k = x.sc.size();
    v.add(n + " scale not positive", [q, bads, k, &g] { q->scale.mem.pi16[g.draw(k)] = bads(); });
    v.add(n + " zero point out of range", [q, badz, k, &g] { q->zero_point.mem.pi16[g.draw(k)] = badz(); });
    v.add(n + " parameter memory too small", [q, &g] { size_t k = g.draw(3); auto& c = k == 0 ? q->scale.capacity : k == 1 ? q->zero_point.capacity : q->scale_frac_bits.capacity; c = (uint32_t)(g.chance(60) ? c - 1 : g.range(0, c - 1)); });
  }
  v.add(n + " quantised axis beyond rank", [p, &g] {
    set_sa_axis(*p, 0, std::vector<int16_t>(64, p->sc[0]), std::vector<int8_t>(64, p->sfb[0]), std::vector<int16_t>(64, p->zp[0]));
    p->t.el_params.sa.dim = p->rank() + (int)(g.chance(60) ? 0 : g.range(0, 4));
  });
}
static const int kZeroLo = 0, kZeroHi = 0;
// buffers of a and b must not overlap
static void overlap(V& v, TT& a, TT& b) {
  TT *p = &a, *q = &b; G& g = v.g;
  v.add(std::string(a.name) + " and " + b.name + " overlap", [p, q, &g] {
    int es = el_size(q->t.el_type);
    int64_t lo = -(((int64_t)q->t.data.capacity - 1) / es), hi = ((int64_t)p->t.data.capacity - 1) / es;
    int64_t o = g.chance(60) ? (g.chance(50) ? lo : hi) : g.range(lo, hi);
    q->t.data.mem.pi8 = p->t.data.mem.pi8 + o * es;
  });
}
// a and b directly behind each other are fine
static void adjacent(V& v, TT& a, TT& b) {
  int es = el_size(b.t.el_type);
  if (a.t.data.capacity % es || !v.g.chance(30)) return;
  size_t n = a.t.data.capacity + b.t.data.capacity;
  bool swap = v.g.chance(50) && b.t.data.capacity % el_size(a.t.el_type) == 0;
  uint8_t* m = world().alloc(n, "adjacent buffers", false); memset(m, 1, n);
  uint8_t *pa = swap ? m + b.t.data.capacity : m, *pb = swap ? m : m + a.t.data.capacity;
  memcpy(pa, a.data(), a.t.data.capacity);
  a.t.data.mem.pi8 = (int8_t*)pa; b.t.data.mem.pi8 = (int8_t*)pb;
  v.g.label("adjacent buffers");
}
static void run(V& v) {
  G& g = v.g;
  if (g.chance(20)) {
    mli_status st = v.call();
    if (st != MLI_STATUS_OK) g.fail("rejected", "%s: valid call returned status %d", v.what, (int)st);
    g.label("valid call"); return;
  }
  size_t k = g.draw(v.bad.size());
  std::string name = v.bad[k].first;
  // the values the violation is built from are drawn before anything is observed
  v.bad[k].second();
  if (v.fatal.size() && g.chance(8)) { v.fatal[g.draw(v.fatal.size())].second(); name += " (and a null data pointer)"; }
  g.label(name); g.note("%s: %s", v.what, name.c_str());
  if (g.verbose()) for (auto& x : v.pool) { TT y = x; if (!y.t.data.mem.pi8 || y.t.rank > 4 || y.count() > 64) y.buf = nullptr; y.buf = nullptr; if (y.t.rank <= 4) g.note("%s cap %u", y.desc().c_str(), y.t.data.capacity); }
  std::vector<mli_tensor> t; for (auto& x : v.pool) t.push_back(x.t);
  std::vector<std::vector<uint8_t>> w; for (auto& x : v.watch) w.emplace_back((uint8_t*)x.first, (uint8_t*)x.first + x.second);
  world().snapshot();
  mli_status st = v.call();
  if (st == MLI_STATUS_OK) g.fail("accepted", "%s: call with '%s' returned OK", v.what, name.c_str());
  for (auto& b : world().blocks) if (memcmp(b.snap.data(), b.p, b.n)) g.fail("written", "%s: rejected call with '%s' (status %d) changed '%s'", v.what, name.c_str(), (int)st, b.name);
  size_t i = 0;
  for (auto& x : v.pool) if (memcmp(&x.t, &t[i++], sizeof x.t) && !(v.out_desc_free && &x == &v.pool.back())) g.fail("descriptor", "%s: rejected call with '%s' (status %d) changed the descriptor of '%s'", v.what, name.c_str(), (int)st, x.name);
  for (i = 0; i < w.size(); i++) if (memcmp(w[i].data(), v.watch[i].first, w[i].size())) g.fail("descriptor", "%s: rejected call with '%s' changed a configuration", v.what, name.c_str());
  g.nontrivial();
}

// ------------------------------------------------------------------ convolutions
#define CONV3(p, a, b) {p##_fx16, p##_fx16##a, p##_fx16##b}, {p##_fx16_fx8_fx8, p##_fx16_fx8_fx8##a, p##_fx16_fx8_fx8##b}, {p##_sa8_sa8_sa32, p##_sa8_sa8_sa32##a, p##_sa8_sa8_sa32##b}
static ConvFn kConv[4][3][3] = {{CONV3(mli_krn_conv2d_hwcn, _k3x3, _k5x5)}, {CONV3(mli_krn_depthwise_conv2d_hwcn, _k3x3, _k5x5)}, {CONV3(mli_krn_group_conv2d_hwcn, _k3x3, _k5x5)}, {CONV3(mli_krn_transpose_conv2d_hwcn, _k2x2_str2, _k4x4_str2)}};
static ConvFn kK1[3] = {mli_krn_conv2d_hwcn_fx16_k1x1, mli_krn_conv2d_hwcn_fx16_fx8_fx8_k1x1, mli_krn_conv2d_hwcn_sa8_sa8_sa32_k1x1};
static void tdim(G& g, int k, int fixs, int& in, int& out, int& s, int& p0, int& p1) {
  s = fixs ? fixs : (int)g.range(1, k); in = (int)g.small(1, 6);
  p0 = (int)g.range(0, k - 1); p1 = (int)g.range(0, k - 1);
  out = (in - 1) * s + k - p0 - p1;
  if (out < 1) { in += (1 - out + s - 1) / s; out = (in - 1) * s + k - p0 - p1; }
}
static void frac_rules(V& v, TT& in, TT& w, TT& b, TT* out) {
  TT *i = &in, *wt = &w, *bi = &b; G& g = v.g;
  v.add("bias finer than the accumulator", [=, &g] { bi->t.el_params.fx.frac_bits = (int8_t)std::min<int64_t>(127, i->t.el_params.fx.frac_bits + wt->t.el_params.fx.frac_bits + g.small(1, 60)); });
  if (out) v.add("output finer than the accumulator", [=, &g] { out->t.el_params.fx.frac_bits = (int8_t)std::min<int64_t>(127, i->t.el_params.fx.frac_bits + wt->t.el_params.fx.frac_bits + g.small(1, 60)); });
}
static void bias_scale(V& v, TT& b, int axis_of_weights) {
  TT* p = &b; G& g = v.g; (void)axis_of_weights;
  v.add("bias scale is not the product of the scales", [p, &g] {
    auto& q = p->t.el_params.sa; size_t k = q.dim < 0 ? 0 : g.draw(p->sc.size());
    int16_t* s = q.dim < 0 ? &q.scale.mem.i16 : &q.scale.mem.pi16[k]; int o = *s, n;
    do n = (int)(g.chance(60) ? o + g.range(0, 20) - 10 : g.range(1, 32767)); while (std::abs(n - o) <= 2 || n < 1 || n > 32767);
    *s = (int16_t)n;
  });
}
static void weight_axes(V& v, TT& w, TT& b, int axis) {
  TT *p = &w, *q = &b; G& g = v.g;
  if (w.t.el_params.sa.dim < 0) v.add("bias per axis with per-tensor weights", [=] { size_t n = q->t.shape[0]; set_sa_axis(*q, 0, std::vector<int16_t>(n, q->sc[0]), std::vector<int8_t>(n, q->sfb[0]), std::vector<int16_t>(n, 0)); });
  else {
    v.add("bias per tensor with per-axis weights", [=] { set_sa(*q, q->sc[0], q->sfb[0], 0); });
    v.add("weights quantised over another axis", [=, &g] { int d = (int)g.range(0, p->rank() - 2); if (d >= axis) d++; size_t n = p->t.shape[d]; set_sa_axis(*p, d, std::vector<int16_t>(n, p->sc[0]), std::vector<int8_t>(n, p->sfb[0]), std::vector<int16_t>(n, 0)); });
  }
}
static void conv(G& g, int kind, MathType m) {
  static const char* nm[] = {"conv2d", "depthwise", "group conv", "transpose conv"};
  world().reset(); V v(g, nm[kind]);
  ConvCase c; c.m = m; Geo& q = c.q;
  int spec = (int)g.weighted({60, 20, 20}); bool k1 = kind == 0 && g.chance(10);
  if (kind < 3) { int kh = k1 ? 1 : spec ? spec * 2 + 1 : gen_k(g, 5), kw = k1 ? 1 : spec ? kh : gen_k(g, 5); q = gen_geo(g, kh, kw, 5); }
  else { q.kh = spec ? spec * 2 : gen_k(g, 5); q.kw = spec ? q.kh : gen_k(g, 5); q.dh = q.dw = 1; tdim(g, q.kh, spec ? 2 : 0, q.ih, q.oh, q.sh, q.pt, q.pb); tdim(g, q.kw, spec ? 2 : 0, q.iw, q.ow, q.sw, q.pl, q.pr); }
  int cg = (int)g.small(1, 5), og = (int)g.small(1, 5), n = kind == 2 ? (int)g.small(1, 4) : 1;
  int ci = cg * n, co = kind == 1 ? ci : og * n;
  conv_make(g, c, ci, kind == 1 ? 1 : cg, co, [&](ConvCase&) { Acc a; a.v.assign((size_t)q.oh * q.ow * co, 0); return a; });
  TT &in = v.own(c.in), &w = v.own(c.w), &b = v.own(c.b), &out = v.own(c.out);
  mli_conv2d_cfg cfg = c.cfg; const mli_conv2d_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  ConvFn fn = k1 ? kK1[m] : kConv[kind][m][spec];
  v.call = [&] { return fn(&in.t, &w.t, &b.t, pc, &out.t); };
  for (TT* x : {&in, &w, &b, &out}) { generic(v, *x); other_type(v, *x); inner_stride(v, *x); }
  other_rank(v, in, {3}); other_rank(v, w, {4}); other_rank(v, b, {1}); other_rank(v, out, {3});
  if (spec == 0 || kind < 3) v.add("no configuration", [&] { pc = nullptr; });
  if (spec || k1) { other_dim(v, w, 0, "kernel height unlike specialisation"); other_dim(v, w, 1, "kernel width unlike specialisation"); }
  if (kind != 2) other_dim(v, in, 2);
  else { if (cg > 1) v.add("input channels not a multiple of the group size", [&] { int d = (int)g.range(1, cg - 1); in.t.shape[2] -= (uint32_t)d; });
         if (n > 1) v.add("filters not a multiple of the number of groups", [&] { int d = (int)g.range(1, std::min(n - 1, co - 1)); w.t.shape[3] -= (uint32_t)d; b.t.shape[0] -= (uint32_t)d; out.t.shape[2] -= (uint32_t)d; if (w.t.el_params.sa.dim > (int)0 && m == SA8) {} }); }
  if (kind == 1) other_dim(v, w, 2);
  other_dim(v, w, 3); other_dim(v, b, 0); other_dim(v, out, 2);
  uint8_t* pads[4] = {&cfg.padding_top, &cfg.padding_bottom, &cfg.padding_left, &cfg.padding_right};
  for (int i = 0; i < 4; i++) {
    int eff = i < 2 ? (q.kh - 1) * q.dh + 1 : (q.kw - 1) * q.dw + 1;
    uint8_t* p = pads[i];
    if (eff <= 255) v.add("padding not below the kernel size", [=, &g] { *p = (uint8_t)(g.chance(60) ? eff : g.range(eff, 255)); });
  }
  v.add("stride zero", [&] { (g.chance(50) ? cfg.stride_height : cfg.stride_width) = 0; });
  if (kind < 3) {
    v.add("dilation zero", [&] { (g.chance(50) ? cfg.dilation_height : cfg.dilation_width) = 0; });
    // output larger than the windows available
    auto grow = [&](int d) { v.add("output beyond the padded input", [&, d] {
      int s = d ? q.sw : q.sh, in_ = d ? q.iw + q.pl + q.pr : q.ih + q.pt + q.pb, eff = d ? (q.kw - 1) * q.dw + 1 : (q.kh - 1) * q.dh + 1;
      int first = (in_ - eff) / s + 2;  // smallest count that does not fit
      Shape sh = shape({d ? q.oh : first, d ? first : q.ow, co}); if ((int64_t)first * co * q.oh * q.ow > 200000) g.discard();
      TT y = make(g, "out", out.t.el_type, sh, DENSE, true); y.t.el_params = out.t.el_params; out.t = y.t;
    }); };
    grow(0); grow(1);
  } else {
    other_dim(v, out, 0); other_dim(v, out, 1);
    v.add("dilated", [&] { (g.chance(50) ? cfg.dilation_height : cfg.dilation_width) = (uint8_t)(g.chance(30) ? 0 : g.range(2, 255)); });
    v.add("stride above the kernel size", [&] { bool h = g.chance(50); (h ? cfg.stride_height : cfg.stride_width) = (uint8_t)g.small((h ? q.kh : q.kw) + 1, 255); });
    if (spec) v.add("stride unlike specialisation", [&] { (g.chance(50) ? cfg.stride_height : cfg.stride_width) = (uint8_t)g.pick<int>({1, 3, 4}); });
  }
  if (m == SA8) {
    sa_params(v, in, -128, 127, false); sa_params(v, out, -128, 127, false); sa_params(v, w, 0, 0, true); sa_params(v, b, 0, 0, true);
    weight_axes(v, w, b, 3); bias_scale(v, b, 3);
  } else frac_rules(v, in, w, b, &out);
  adjacent(v, in, out);
  overlap(v, in, out);
  run(v);
}
#define C(kind, m, id, nm) static void id(G& g) { conv(g, kind, m); } PBT_SUB(nm, 10, id)
C(0, FX16, c0, "conv2d_fx16"); C(0, FX16_FX8, c1, "conv2d_fx16_fx8_fx8"); C(0, SA8, c2, "conv2d_sa8_sa8_sa32");
C(1, FX16, d0, "depthwise_fx16"); C(1, FX16_FX8, d1, "depthwise_fx16_fx8_fx8"); C(1, SA8, d2, "depthwise_sa8_sa8_sa32");
C(2, FX16, g0, "group_conv_fx16"); C(2, FX16_FX8, g1, "group_conv_fx16_fx8_fx8"); C(2, SA8, g2, "group_conv_sa8_sa8_sa32");
C(3, FX16, t0, "transpose_conv_fx16"); C(3, FX16_FX8, t1, "transpose_conv_fx16_fx8_fx8"); C(3, SA8, t2, "transpose_conv_sa8_sa8_sa32");

// ------------------------------------------------------------------ pooling
typedef mli_status (*PoolFn)(const mli_tensor*, const mli_pool_cfg*, mli_tensor*);
#define FNS(p) {{p##_fx8, p##_fx8_k2x2, p##_fx8_k3x3}, {p##_fx16, p##_fx16_k2x2, p##_fx16_k3x3}, {p##_sa8, p##_sa8_k2x2, p##_sa8_k3x3}}
static PoolFn kPool[2][3][3] = {FNS(mli_krn_maxpool_hwc), FNS(mli_krn_avepool_hwc)};
static const mli_element_type kType[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8};
static void fmt_simple(G& g, TT& x) { if (x.t.el_type == MLI_EL_SA_8) set_sa(x, gen_scale(g), 12 + (int)g.range(0, 4), gen_zp8(g)); else set_frac(x, (int)g.range(2, 7)); }
static void pool(G& g, bool avg, int ty) {
  world().reset(); V v(g, avg ? "avepool" : "maxpool"); mli_element_type t = kType[ty];
  int spec = (int)g.weighted({60, 20, 20});
  Geo q = gen_geo(g, spec ? spec + 1 : gen_k(g, 5), spec ? spec + 1 : gen_k(g, 5), 5, 4, 1);
  int ch = (int)g.small(1, 5);
  TT &in = v.own(make(g, "in", t, shape({q.ih, q.iw, ch}), pick_mode(g), true, true)), &out = v.own(make(g, "out", t, shape({q.oh, q.ow, ch}), pick_mode(g), false, true));
  fmt_simple(g, in); fmt_simple(g, out); memset(in.buf, 0, in.bytes);
  mli_pool_cfg cfg = pool_cfg(q); const mli_pool_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  v.call = [&] { return kPool[avg][ty][spec](&in.t, pc, &out.t); };
  for (TT* x : {&in, &out}) { generic(v, *x); other_type(v, *x); inner_stride(v, *x); other_rank(v, *x, {3}); other_dim(v, *x, 2); }
  v.add("no configuration", [&] { pc = nullptr; });
  if (spec) v.add("kernel size unlike specialisation", [&] { uint8_t k = (uint8_t)(spec + 1); do k = (uint8_t)g.range(1, 9); while (k == spec + 1); (g.chance(50) ? cfg.kernel_height : cfg.kernel_width) = k; });
  v.add("padding not below the kernel size", [&] { size_t i = g.draw(4); int k = i < 2 ? q.kh : q.kw; (i == 0 ? cfg.padding_top : i == 1 ? cfg.padding_bottom : i == 2 ? cfg.padding_left : cfg.padding_right) = (uint8_t)(g.chance(60) ? k : g.range(k, 255)); });
  v.add("stride zero", [&] { (g.chance(50) ? cfg.stride_height : cfg.stride_width) = 0; });
  for (int d = 0; d < 2; d++) v.add("output beyond the padded input", [&, d] {
    int s = d ? q.sw : q.sh, in_ = d ? q.iw + q.pl + q.pr : q.ih + q.pt + q.pb, eff = d ? q.kw : q.kh, first = (in_ - eff) / s + 2;
    TT y = make(g, "out", t, shape({d ? q.oh : first, d ? first : q.ow, ch}), DENSE, true); y.t.el_params = out.t.el_params; out.t = y.t;
  });
  if (t == MLI_EL_SA_8) { if (avg) { sa_params(v, in, -128, 127, false); sa_params(v, out, -128, 127, false); }
    else v.add("in per-axis parameters", [&] { set_sa_axis(in, 2, std::vector<int16_t>(ch, 1), std::vector<int8_t>(ch, 1), std::vector<int16_t>(ch, 0)); }); }
  adjacent(v, in, out); overlap(v, in, out);
  run(v);
}
#define P(avg, ty, id, nm) static void id(G& g) { pool(g, avg, ty); } PBT_SUB(nm, 8, id)
P(false, 0, p0, "maxpool_fx8"); P(false, 1, p1, "maxpool_fx16"); P(false, 2, p2, "maxpool_sa8"); P(true, 0, p3, "avepool_fx8"); P(true, 1, p4, "avepool_fx16"); P(true, 2, p5, "avepool_sa8");

// ------------------------------------------------------------------ fully connected, rnn dense
typedef mli_status (*FcFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_fully_connected_cfg*, mli_tensor*);
typedef mli_status (*RdFn)(const mli_tensor**, const mli_tensor**, const mli_tensor*, const mli_rnn_dense_cfg*, mli_tensor*);
static FcFn kFc[4] = {mli_krn_fully_connected_fx16, mli_krn_fully_connected_fx16_fx8_fx8, mli_krn_fully_connected_sa8_sa8_sa32, mli_krn_fully_connected_sa8_sa8_sa32_ext_bias};
static RdFn kRd[3] = {mli_krn_rnn_dense_fx16, mli_krn_rnn_dense_fx16_fx8_fx8, mli_krn_rnn_dense_sa8_sa8_sa32};
static void small_fmt(G& g, MathType m, TT& in, TT& w, TT& b, TT& out, int waxis) {
  gen_in_format(g, m, in); gen_w_format(g, m, in, w, b, waxis, 0);
  if (m == SA8) set_sa(out, gen_scale(g), in.sfb[0], gen_zp8(g)); else { set_frac(in, (int)g.range(5, 12)); set_frac(w, (int)g.range(3, 7)); set_frac(b, (int)g.range(0, 7)); set_frac(out, (int)g.range(0, 7)); }
}
static void zero(TT& x) { memset(x.buf, 0, x.bytes); }
static void fc(G& g, int k) {
  world().reset(); V v(g, "fully connected"); MathType m = (MathType)std::min(k, 2);
  Shape s = gen_shape(g); int n = 1; for (int i = 0; i < s.rank; i++) n *= s.d[i]; int M = (int)g.small(1, 9);
  TT &in = v.own(make(g, "in", in_type(m), s, DENSE, true, true)), &w = v.own(make(g, "weights", w_type(m), shape({n, M}), pick_mode(g), true)), &b = v.own(make(g, "bias", b_type(m), shape({M}), DENSE, true)), &out = v.own(make(g, "out", in_type(m), shape({M}), DENSE, false, true));
  small_fmt(g, m, in, w, b, out, 1); zero(in); zero(w); zero(b);
  mli_fully_connected_cfg cfg; memset(&cfg, 0, sizeof cfg); const mli_fully_connected_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  v.call = [&] { return kFc[k](&in.t, &w.t, &b.t, pc, &out.t); };
  for (TT* x : {&in, &w, &b, &out}) { generic(v, *x); other_type(v, *x); inner_stride(v, *x); }
  not_contiguous(v, in);
  other_rank(v, w, {2}); other_rank(v, b, {1}); other_rank(v, out, {1});
  other_dim(v, in, (int)g.range(0, s.rank - 1)); other_dim(v, w, 0); other_dim(v, w, 1); other_dim(v, b, 0); other_dim(v, out, 0);
  v.add("no configuration", [&] { pc = nullptr; });
  if (m == SA8) { sa_params(v, in, -128, 127, false); sa_params(v, out, -128, 127, false); sa_params(v, w, 0, 0, true); sa_params(v, b, 0, 0, true); weight_axes(v, w, b, 1); bias_scale(v, b, 1); }
  else frac_rules(v, in, w, b, &out);
  adjacent(v, in, out); overlap(v, in, out);
  run(v);
}
static void rd(G& g, MathType m) {
  world().reset(); V v(g, "rnn dense");
  int K = (int)g.range(1, 4), M = (int)g.small(1, 7);
  std::vector<TT*> in(K), w(K);
  TT &b = v.own(make(g, "bias", b_type(m), shape({M}), DENSE, true)), &out = v.own(make(g, "out", in_type(m), shape({M}), DENSE, false, true));
  for (int k = 0; k < K; k++) {
    in[k] = &v.own(make(g, "in", in_type(m), gen_shape(g), DENSE, true, true)); w[k] = &v.own(make(g, "weights", w_type(m), shape({(int)in[k]->count(), M}), pick_mode(g), true));
    zero(*in[k]); zero(*w[k]);
    if (m == SA8) {
      set_sa(*in[k], gen_scale(g), 14, gen_zp8(g)); set_sa(*w[k], gen_scale(g), 14, 0);
      if (k == 0) { int64_t p = (int64_t)in[0]->sc[0] * w[0]->sc[0]; int sh = 0; while (((p >> sh) + 1) > 32767) sh++; set_sa(b, (int)std::max<int64_t>(1, fx::cast(p, sh, 32, 16)), 28 - sh, 0); }
    } else { set_frac(*in[k], (int)g.range(5, 12)); set_frac(*w[k], (int)g.range(3, 7)); }
  }
  zero(b); if (m == SA8) set_sa(out, gen_scale(g), 14, gen_zp8(g)); else { set_frac(b, (int)g.range(0, 7)); set_frac(out, (int)g.range(0, 7)); }
  const mli_tensor *pi[5], *pw[5]; for (int k = 0; k < 5; k++) { pi[k] = &in[std::min(k, K - 1)]->t; pw[k] = &w[std::min(k, K - 1)]->t; }
  mli_rnn_dense_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.inputs_num = (uint8_t)K; const mli_rnn_dense_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  v.call = [&] { return kRd[m](pi, pw, &b.t, pc, &out.t); };
  for (auto& x : v.pool) { generic(v, x); other_type(v, x); inner_stride(v, x); }
  for (TT* x : in) { not_contiguous(v, *x); other_dim(v, *x, (int)g.range(0, x->rank() - 1)); overlap(v, *x, out); }
  for (TT* x : w) { other_rank(v, *x, {2}); other_dim(v, *x, 0); other_dim(v, *x, 1); }
  other_rank(v, b, {1}); other_rank(v, out, {1}); other_dim(v, b, 0); other_dim(v, out, 0);
  v.add("no configuration", [&] { pc = nullptr; });
  v.add("number of inputs", [&] { cfg.inputs_num = g.chance(40) ? 0 : (uint8_t)g.small(5, 255); });
  if (m == SA8) {
    for (TT* x : in) sa_params(v, *x, -128, 127, false);
    for (TT* x : w) sa_params(v, *x, 0, 0, false);
    sa_params(v, out, -128, 127, false); sa_params(v, b, 0, 0, false); bias_scale(v, b, 1);
  } else {
    frac_rules(v, *in[0], *w[0], b, nullptr);
    for (int k = 0; k < K; k++) v.add("output finer than the accumulator of an input", [&, k] { int low = (int)g.range(0, 6); set_frac(*in[k], low); set_frac(*w[k], 0); set_frac(out, low + 1); set_frac(b, 0); });
  }
  run(v);
}
static void f0(G& g) { fc(g, 0); } static void f1(G& g) { fc(g, 1); } static void f2(G& g) { fc(g, 2); } static void f3(G& g) { fc(g, 3); }
static void r0(G& g) { rd(g, FX16); } static void r1(G& g) { rd(g, FX16_FX8); } static void r2(G& g) { rd(g, SA8); }
PBT_SUB("fully_connected_fx16", 8, f0); PBT_SUB("fully_connected_fx16_fx8_fx8", 8, f1); PBT_SUB("fully_connected_sa8_sa8_sa32", 8, f2); PBT_SUB("fully_connected_sa8_sa8_sa32_ext_bias", 8, f3);
PBT_SUB("rnn_dense_fx16", 8, r0); PBT_SUB("rnn_dense_fx16_fx8_fx8", 8, r1); PBT_SUB("rnn_dense_sa8_sa8_sa32", 8, r2);

// ------------------------------------------------------------------ element-wise
typedef mli_status (*EltFn)(const mli_tensor*, const mli_tensor*, mli_tensor*);
static EltFn kElt[3][5] = {
  {mli_krn_eltwise_add_fx8, mli_krn_eltwise_sub_fx8, mli_krn_eltwise_mul_fx8, mli_krn_eltwise_min_fx8, mli_krn_eltwise_max_fx8},
  {mli_krn_eltwise_add_fx16, mli_krn_eltwise_sub_fx16, mli_krn_eltwise_mul_fx16, mli_krn_eltwise_min_fx16, mli_krn_eltwise_max_fx16},
  {mli_krn_eltwise_add_sa8, mli_krn_eltwise_sub_sa8, mli_krn_eltwise_mul_sa8, mli_krn_eltwise_min_sa8, mli_krn_eltwise_max_sa8}};
static void elt(G& g, int ty) {
  world().reset(); int op = (int)g.draw(5); V v(g, elt_name(op)); mli_element_type t = kType[ty];
  Shape s = gen_shape(g); int n = 1; for (int i = 0; i < s.rank; i++) n *= s.d[i];
  size_t kind = n > 1 ? g.weighted({60, 20, 20}) : 0;
  TT &a = v.own(kind == 1 ? scalar(g, "in1", t) : make(g, "in1", t, s, pick_mode(g), true, true)), &b = v.own(kind == 2 ? scalar(g, "in2", t) : make(g, "in2", t, s, pick_mode(g), true, true)), &out = v.own(make(g, "out", t, s, pick_mode(g), false, true));
  fmt_simple(g, a); if (op >= MIN_) b.t.el_params = a.t.el_params, b.sc = a.sc, b.zp = a.zp, b.sfb = a.sfb; else fmt_simple(g, b);
  fmt_simple(g, out);
  for (TT* x : {&a, &b}) if (x->buf) zero(*x);
  v.call = [&] { return kElt[ty][op](&a.t, &b.t, &out.t); };
  for (TT* x : {&a, &b, &out}) { if (x->t.rank) { generic(v, *x); if (n > 1) inner_stride(v, *x); } else { TT* p = x; v.add(std::string(x->name) + " rank above maximum", [p, &g] { p->t.rank = wild_rank(g); }); } other_type(v, *x); }
  if (n > 1) { if (!kind) for (TT* x : {&a, &b}) { other_rank(v, *x, {s.rank}); Fn f = v.bad.back().second; v.bad.back().second = [f, x, &g] { f(); if (x->count() == 1) g.discard(); }; }  other_rank(v, out, {s.rank}); }
  int d = (int)g.range(0, s.rank - 1);
  // a shape that is neither the same nor a single element
  auto shp = [&](TT& x) { TT* p = &x; v.add(std::string(x.name) + " wrong shape", [p, &g, d, s, t] { Shape u = s; u.d[d] = s.d[d] + (int)g.range(1, 3); TT y = make(g, p->name, t, u, DENSE, true); zero(y); y.t.el_params = p->t.el_params; p->t = y.t; }); };
  if (n > 1) { if (kind != 1) shp(a); if (kind != 2) shp(b); }
  shp(out);
  v.add("both operands without dimensions", [&] { TT x = scalar(g, "in1", t), y = scalar(g, "in2", t); x.t.el_params = a.t.el_params; y.t.el_params = b.t.el_params; a.t = x.t; b.t = y.t; });
  if (t == MLI_EL_SA_8) { sa_params(v, a, -128, 127, false); sa_params(v, b, -128, 127, false); sa_params(v, out, -128, 127, false); }
  if (op >= MIN_) v.add("different operand formats", [&] {
    if (t != MLI_EL_SA_8) b.t.el_params.fx.frac_bits++;
    else { auto& q = b.t.el_params.sa; size_t k = g.draw(3); if (k == 0) q.scale.mem.i16 = q.scale.mem.i16 > 1 ? q.scale.mem.i16 - 1 : 2; else if (k == 1) q.zero_point.mem.i16 = (int16_t)(q.zero_point.mem.i16 == 127 ? -128 : q.zero_point.mem.i16 + 1); else q.scale_frac_bits.mem.i8++; } });
  run(v);
}
static void e0(G& g) { elt(g, 0); } static void e1(G& g) { elt(g, 1); } static void e2(G& g) { elt(g, 2); }
PBT_SUB("eltwise_fx8", 20, e0); PBT_SUB("eltwise_fx16", 20, e1); PBT_SUB("eltwise_sa8", 20, e2);

// ------------------------------------------------------------------ activations
typedef mli_status (*ReluFn)(const mli_tensor*, const mli_relu_cfg*, mli_tensor*);
typedef mli_status (*LeakyFn)(const mli_tensor*, const mli_tensor*, mli_tensor*);
typedef mli_status (*PreluFn)(const mli_tensor*, const mli_tensor*, const mli_prelu_cfg*, mli_tensor*);
typedef mli_status (*ActFn)(const mli_tensor*, const mli_lut*, mli_tensor*);
static ReluFn kRelu[3] = {mli_krn_relu_fx8, mli_krn_relu_fx16, mli_krn_relu_sa8};
static LeakyFn kLeaky[3] = {mli_krn_leaky_relu_fx8, mli_krn_leaky_relu_fx16, mli_krn_leaky_relu_sa8};
static PreluFn kPrelu[3] = {mli_krn_prelu_fx8, mli_krn_prelu_fx16, mli_krn_prelu_sa8};
static ActFn kAct[2][3] = {{mli_krn_sigm_fx8, mli_krn_sigm_fx16, mli_krn_sigm_sa8}, {mli_krn_tanh_fx8, mli_krn_tanh_fx16, mli_krn_tanh_sa8}};
struct Act { Shape s; TT *in, *out; };
static Act act_base(V& v, mli_element_type t) {
  G& g = v.g; Act a; a.s = gen_shape(g);
  a.in = &v.own(make(g, "in", t, a.s, pick_mode(g), true, true)); a.out = &v.own(make(g, "out", t, a.s, pick_mode(g), false, true));
  fmt_simple(g, *a.in); fmt_simple(g, *a.out); zero(*a.in);
  for (TT* x : {a.in, a.out}) { generic(v, *x); other_type(v, *x); inner_stride(v, *x); other_rank(v, *x, {a.s.rank}); other_dim(v, *x, (int)g.range(0, a.s.rank - 1)); }
  sa_params(v, *a.in, -128, 127, false);
  return a;
}
static int bad_axis(G& g, int rank) { return rank + (int)(g.chance(60) ? 0 : g.range(0, 0x7ffffff0)); }
static void relu(G& g, int ty) {
  world().reset(); V v(g, "relu"); Act a = act_base(v, kType[ty]);
  mli_relu_cfg cfg; cfg.type = gen_relu(g); const mli_relu_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  v.add("no configuration", [&] { pc = nullptr; });
  v.call = [&] { return kRelu[ty](&a.in->t, pc, &a.out->t); }; run(v);
}
static void slope_rules(V& v, TT& sl, TT& in, TT& out) {
  other_type(v, sl); sa_params(v, sl, -16384, 16383, false); sa_params(v, out, -128, 127, false); G& g = v.g;
  if (in.t.el_type != MLI_EL_SA_8) v.add("in and out formats differ", [&] { out.t.el_params.fx.frac_bits = (int8_t)(in.t.el_params.fx.frac_bits + (g.chance(50) ? 1 : -1) * (int)g.small(1, 20)); });
}
static TT slope_scalar(G& g, mli_element_type t) {
  TT x; if (g.chance(60)) x = scalar(g, "slope", t);
  else { Shape u; u.rank = (int)g.range(1, 4); for (int i = 0; i < 4; i++) u.d[i] = i < u.rank ? 1 : 0; x = make(g, "slope", t, u, DENSE, true); zero(x); }
  fmt_simple(g, x); return x;
}
static void scalar_rules(V& v, TT& sl) {
  G& g = v.g; TT* p = &sl;
  if (sl.t.rank) { generic(v, sl); other_dim(v, sl, (int)g.range(0, sl.rank() - 1)); }
  else v.add("slope rank above maximum", [p, &g] { p->t.rank = wild_rank(g); });
}
static void leaky(G& g, int ty) {
  world().reset(); V v(g, "leaky relu"); mli_element_type t = kType[ty]; Act a = act_base(v, t);
  if (t != MLI_EL_SA_8) a.out->t.el_params = a.in->t.el_params;
  TT& sl = v.own(slope_scalar(g, t)); scalar_rules(v, sl); slope_rules(v, sl, *a.in, *a.out);
  v.call = [&] { return kLeaky[ty](&a.in->t, &sl.t, &a.out->t); }; run(v);
}
static void prelu(G& g, int ty) {
  world().reset(); V v(g, "prelu"); mli_element_type t = kType[ty]; Act a = act_base(v, t);
  if (t != MLI_EL_SA_8) a.out->t.el_params = a.in->t.el_params;
  mli_prelu_cfg cfg; cfg.axis = (int)g.range(-1, a.s.rank - 1); const mli_prelu_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  if (cfg.axis < 0 && g.chance(40)) cfg.axis = (int)-g.range(1, 100);
  TT tmp; if (cfg.axis < 0) tmp = slope_scalar(g, t); else { Shape u = a.s; for (int i = 0; i < u.rank; i++) if (i != cfg.axis) u.d[i] = 1; tmp = make(g, "slope", t, u, DENSE, true); zero(tmp); fmt_simple(g, tmp); }
  TT& sl = v.own(tmp);
  if (cfg.axis < 0) scalar_rules(v, sl); else { generic(v, sl); inner_stride(v, sl); for (int i = 0; i < a.s.rank; i++) other_dim(v, sl, i); }
  slope_rules(v, sl, *a.in, *a.out);
  v.add("no configuration", [&] { pc = nullptr; });
  if (cfg.axis >= 0) v.add("axis beyond rank", [&] { cfg.axis = bad_axis(g, a.s.rank); });
  v.call = [&] { return kPrelu[ty](&a.in->t, &sl.t, pc, &a.out->t); }; run(v);
}
static void lut_rule(V& v, Lut& l, const char* n) { G& g = v.g; Lut* p = &l; v.watch.push_back({&l.l, sizeof l.l}); v.add(n, [p, &g] { auto& c = p->l.data.capacity; c = (uint32_t)(g.chance(60) ? c - 1 : g.range(0, c - 1)); }); }
static void act(G& g, int ty) {
  world().reset(); bool th = g.chance(50); V v(g, th ? "tanh" : "sigm");
  Lut l = th ? make_lut(g, "tanh table", mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut) : make_lut(g, "sigmoid table", mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut);
  Act a = act_base(v, kType[ty]); v.watch.push_back({&l.l, sizeof l.l});
  v.call = [&] { return kAct[th][ty](&a.in->t, &l.l, &a.out->t); }; run(v);
}
static void norm(G& g, bool sa) {
  world().reset(); bool l2 = g.chance(50); V v(g, l2 ? "l2 normalize" : "softmax");
  Lut l = l2 ? make_lut(g, "invsqrt table", mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut) : make_lut(g, "exp table", mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut);
  Act a = act_base(v, sa ? MLI_EL_SA_8 : MLI_EL_FX_16); v.watch.push_back({&l.l, sizeof l.l});
  int axis = (int)g.range(-1, a.s.rank - 1); if (axis < 0 && g.chance(40)) axis = (int)-g.range(1, 100);
  mli_softmax_cfg c; c.axis = axis; mli_l2_normalize_cfg cl; cl.axis = axis; const mli_softmax_cfg* pc = &c; const mli_l2_normalize_cfg* pl = &cl;
  v.watch.push_back({&c, sizeof c}); v.watch.push_back({&cl, sizeof cl});
  v.add("no configuration", [&] { pc = nullptr; pl = nullptr; });
  v.add("axis beyond rank", [&] { c.axis = cl.axis = bad_axis(g, a.s.rank); });
  v.call = [&] { return l2 ? (sa ? mli_krn_l2_normalize_sa8 : mli_krn_l2_normalize_fx16)(&a.in->t, nullptr, &l.l, pl, &a.out->t) : (sa ? mli_krn_softmax_sa8 : mli_krn_softmax_fx16)(&a.in->t, &l.l, pc, &a.out->t); };
  run(v);
}
#define A3(fn, i0, i1, i2, nm) static void i0(G& g) { fn(g, 0); } static void i1(G& g) { fn(g, 1); } static void i2(G& g) { fn(g, 2); } PBT_SUB(nm "_fx8", 5, i0); PBT_SUB(nm "_fx16", 5, i1); PBT_SUB(nm "_sa8", 5, i2)
A3(relu, re0, re1, re2, "relu"); A3(leaky, le0, le1, le2, "leaky_relu"); A3(prelu, pr0, pr1, pr2, "prelu"); A3(act, ac0, ac1, ac2, "sigm_tanh");
static void n0(G& g) { norm(g, false); } PBT_SUB("softmax_l2_fx16", 8, n0);
static void n1(G& g) { norm(g, true); } PBT_SUB("softmax_l2_sa8", 8, n1);

// ------------------------------------------------------------------ recurrent cells
typedef mli_status (*LstmFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_lut*, const mli_lut*, const mli_rnn_cell_cfg*, mli_tensor*, mli_tensor*);
typedef mli_status (*GruFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_lut*, const mli_lut*, const mli_rnn_cell_cfg*, mli_tensor*);
static LstmFn kLstm[3] = {mli_krn_lstm_cell_fx16, mli_krn_lstm_cell_fx16_fx8_fx8, mli_krn_lstm_cell_sa8_sa8_sa32};
static GruFn kGru[3] = {mli_krn_gru_cell_fx16, mli_krn_gru_cell_fx16_fx8_fx8, mli_krn_gru_cell_sa8_sa8_sa32};
static void cell(G& g, MathType m, bool lstm) {
  Rnn r = rnn_make(g, m, lstm ? 4 : 3); V v(g, lstm ? "lstm" : "gru");
  TT &in = v.own(r.in), &pv = v.own(r.prev), &wi = v.own(r.wi), &wo = v.own(r.wo), &b = v.own(r.b), &out = v.own(r.out), &c = v.own(r.cell);
  if (!lstm) c.t.data.mem.pi8 = nullptr;
  mli_rnn_cell_cfg cfg = rnn_cfg(r); v.watch.push_back({&cfg, sizeof cfg});
  lut_rule(v, r.sig, "sigmoid table capacity"); lut_rule(v, r.tan, "tanh table capacity");
  v.call = [&] { return lstm ? kLstm[m](&in.t, &pv.t, &wi.t, &wo.t, &b.t, &r.tan.l, &r.sig.l, &cfg, &c.t, &out.t) : kGru[m](&in.t, &pv.t, &wi.t, &wo.t, &b.t, &r.tan.l, &r.sig.l, &cfg, &out.t); };
  std::vector<TT*> all = {&in, &pv, &wi, &wo, &b, &out}; if (lstm) all.push_back(&c);
  for (TT* x : all) { generic(v, *x); other_type(v, *x); if (x != &out) inner_stride(v, *x); }
  not_contiguous(v, in); not_contiguous(v, out);
  other_rank(v, in, {2}); other_rank(v, pv, {1}); other_rank(v, wi, {3}); other_rank(v, wo, {3}); other_rank(v, b, {2}); if (lstm) { other_rank(v, c, {1}); other_dim(v, c, 0); }
  other_dim(v, in, 1); other_dim(v, pv, 0); for (int d = 0; d < 3; d++) { other_dim(v, wi, d); other_dim(v, wo, d); } other_dim(v, b, 0); other_dim(v, b, 1);
  v.add("output memory too small for the sequence", [&] { int64_t need = (int64_t)(r.all ? r.T : 1) * r.M * el_size(out.t.el_type); out.t.rank = 1; out.t.shape[0] = 1; out.t.mem_stride[0] = 1; int64_t lo = el_size(out.t.el_type); if (need <= lo) { out.t.data.capacity = 0; return; } out.t.data.capacity = (uint32_t)(g.chance(60) ? need - 1 : g.range(lo, need - 1)); });
  v.add("no scratch memory", [&] { cfg.scratch_data.mem.pi8 = nullptr; });
  v.add("scratch memory too small", [&] { int64_t need = (int64_t)r.gates * r.M * el_size(in.t.el_type); cfg.scratch_data.capacity = (uint32_t)(g.chance(60) ? need - 1 : g.range(0, need - 1)); });
  v.add("in and scratch overlap", [&] { int64_t lo = -((int64_t)cfg.scratch_data.capacity - 1), hi = (int64_t)in.t.data.capacity - 1; int es = el_size(in.t.el_type); int64_t o = g.chance(60) ? (g.chance(50) ? lo : hi) : g.range(lo, hi); o = o / es * es; cfg.scratch_data.mem.pi8 = in.t.data.mem.pi8 + o; });
  if (m == SA8) {
    for (TT* x : all) if (x != &wi && x != &wo && x != &b) sa_params(v, *x, -128, 127, false);
    sa_params(v, wi, 0, 0, true); sa_params(v, wo, 0, 0, true); sa_params(v, b, 0, 0, true); bias_scale(v, b, 0);
    bool ax = r.per_axis;
    for (TT* x : {&wi, &wo, &b}) { TT* p = x; v.add(std::string(x->name) + " quantised unlike the other weights", [p, ax] {
      if (ax) set_sa(*p, p->sc[0], p->sfb[0], 0); else { size_t n = p->t.shape[0]; set_sa_axis(*p, 0, std::vector<int16_t>(n, p->sc[0]), std::vector<int8_t>(n, p->sfb[0]), std::vector<int16_t>(n, 0)); } });
      v.add(std::string(x->name) + " quantised over another axis", [p, &g] { int d = (int)g.range(1, p->rank() - 1); size_t n = p->t.shape[d]; set_sa_axis(*p, d, std::vector<int16_t>(n, p->sc[0]), std::vector<int8_t>(n, p->sfb[0]), std::vector<int16_t>(n, 0)); }); }
  } else frac_rules(v, in, wi, b, nullptr);
  run(v);
}
static void l0(G& g) { cell(g, FX16, true); } static void l1(G& g) { cell(g, FX16_FX8, true); } static void l2(G& g) { cell(g, SA8, true); }
static void u0(G& g) { cell(g, FX16, false); } static void u1(G& g) { cell(g, FX16_FX8, false); } static void u2(G& g) { cell(g, SA8, false); }
PBT_SUB("lstm_cell_fx16", 8, l0); PBT_SUB("lstm_cell_fx16_fx8_fx8", 8, l1); PBT_SUB("lstm_cell_sa8_sa8_sa32", 8, l2);
PBT_SUB("gru_cell_fx16", 8, u0); PBT_SUB("gru_cell_fx16_fx8_fx8", 8, u1); PBT_SUB("gru_cell_sa8_sa8_sa32", 8, u2);

// ------------------------------------------------------------------ permute, argmax
typedef mli_status (*PermFn)(const mli_tensor*, const mli_permute_cfg*, mli_tensor*);
static PermFn kPerm[3] = {mli_krn_permute_fx8, mli_krn_permute_fx16, mli_krn_permute_sa8};
static void perm(G& g, int ty) {
  world().reset(); V v(g, "permute"); mli_element_type t = kType[ty];
  Shape s = gen_shape(g), so = s; int p[4] = {0, 1, 2, 3};
  for (int i = 0; i < s.rank - 1; i++) std::swap(p[i], p[i + (int)g.range(0, s.rank - 1 - i)]);
  mli_permute_cfg cfg; for (int i = 0; i < 4; i++) { cfg.perm_dim[i] = (uint8_t)p[i]; if (i < s.rank) so.d[i] = s.d[p[i]]; }
  const mli_permute_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  TT &in = v.own(make(g, "in", t, s, pick_mode(g, true), true, true)), &out = v.own(make(g, "out", t, so, pick_mode(g, true), false, true));
  zero(in); fmt_simple(g, in); fmt_simple(g, out);
  for (TT* x : {&in, &out}) { generic(v, *x); other_type(v, *x); other_rank(v, *x, {s.rank}); other_dim(v, *x, (int)g.range(0, s.rank - 1)); }
  v.add("no configuration", [&] { pc = nullptr; });
  v.add("permuted axis beyond rank", [&] { cfg.perm_dim[g.draw((uint64_t)s.rank)] = (uint8_t)(g.chance(60) ? s.rank : g.range(s.rank, 255)); });
  if (s.rank > 1) v.add("axis used twice", [&] { int i = (int)g.draw((uint64_t)s.rank), j = (i + 1 + (int)g.draw((uint64_t)s.rank - 1)) % s.rank; cfg.perm_dim[i] = cfg.perm_dim[j]; if (g.chance(70)) { TT y = make(g, "out", t, [&] { Shape u = so; for (int k = 0; k < u.rank; k++) u.d[k] = s.d[cfg.perm_dim[k]]; return u; }(), DENSE, true); y.t.el_params = out.t.el_params; out.t = y.t; } });
  if (t == MLI_EL_SA_8 && g.chance(70)) {
    int q = (int)g.range(0, s.rank - 1); size_t n = s.d[q];
    set_sa_axis(in, q, std::vector<int16_t>(n, 5), std::vector<int8_t>(n, 3), std::vector<int16_t>(n, 0));
    int mode = (int)g.range(0, 2); auto *o = &out.t.el_params.sa, *i = &in.t.el_params.sa;
    if (mode == 0) { o->scale.mem.pi16 = nullptr; o->zero_point.mem.pi16 = nullptr; o->scale_frac_bits.mem.pi8 = nullptr; }
    else if (mode == 1) { *o = *i; }
    else set_sa_axis(out, 0, std::vector<int16_t>(n, 5), std::vector<int8_t>(n, 3), std::vector<int16_t>(n, 0));
    static int16_t other[4096];
    v.add("inconsistent memory for the parameters", [=, &g] {
      void* z = o->zero_point.mem.pi16; size_t k = g.draw(3);
      auto pickp = [&](void* not_this) -> void* { void* c[3] = {nullptr, (void*)i->zero_point.mem.pi16, (void*)other}; void* r; do r = c[g.draw(3)]; while (r == not_this); return r; };
      if (k == 0) { void* own = mode == 0 ? nullptr : mode == 1 ? (void*)i->zero_point.mem.pi16 : z; (void)own; o->zero_point.mem.pi16 = (int16_t*)(mode == 0 ? (g.chance(50) ? (void*)other : (void*)i->zero_point.mem.pi16) : mode == 1 ? (g.chance(50) ? (void*)other : nullptr) : (g.chance(50) ? nullptr : (void*)i->zero_point.mem.pi16)); o->zero_point.capacity = sizeof other; }
      else { void* bad[2]; int8_t* fb = i->scale_frac_bits.mem.pi8; int16_t* sc = i->scale.mem.pi16; (void)pickp;
        if (mode == 0) { bad[0] = other; bad[1] = k == 1 ? (void*)sc : (void*)fb; } else if (mode == 1) { bad[0] = other; bad[1] = nullptr; } else { bad[0] = nullptr; bad[1] = k == 1 ? (void*)sc : (void*)fb; }
        void* r = bad[g.draw(2)]; if (k == 1) { o->scale.mem.pi16 = (int16_t*)r; o->scale.capacity = sizeof other; } else { o->scale_frac_bits.mem.pi8 = (int8_t*)r; o->scale_frac_bits.capacity = sizeof other; } }
    });
    if (mode == 2) v.add("memory for the parameters too small", [=, &g] { size_t k = g.draw(3); auto& c = k == 0 ? o->scale.capacity : k == 1 ? o->zero_point.capacity : o->scale_frac_bits.capacity; c = (uint32_t)(g.chance(60) ? c - 1 : g.range(0, c - 1)); });
  }
  v.call = [&] { return kPerm[ty](&in.t, pc, &out.t); };
  adjacent(v, in, out); overlap(v, in, out); run(v);
}
static void q0(G& g) { perm(g, 0); } static void q1(G& g) { perm(g, 1); } static void q2(G& g) { perm(g, 2); }
PBT_SUB("permute_fx8", 6, q0); PBT_SUB("permute_fx16", 6, q1); PBT_SUB("permute_sa8", 10, q2);
static void argmax(G& g, bool sa) {
  world().reset(); V v(g, "argmax"); Shape s = gen_shape(g); int axis = (int)g.range(-1, s.rank - 1);
  TT& in = v.own(make(g, "in", sa ? MLI_EL_SA_8 : MLI_EL_FX_16, s, pick_mode(g), true, true)); zero(in); fmt_simple(g, in);
  int slices = axis < 0 ? 1 : s.d[axis], size = (int)in.count() / slices, k = g.chance(30) ? size : (int)g.small(1, size);
  TT& out = v.own(make(g, "out", MLI_EL_SA_32, shape({slices, k}), DENSE, false, true)); set_sa(out, 1, 0, 0);
  if (axis < 0 && g.chance(40)) axis = (int)-g.range(1, 100);
  mli_argmax_cfg cfg; cfg.axis = axis; cfg.topk = k; const mli_argmax_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  generic(v, in); generic(v, out); other_type(v, in); other_type(v, out); inner_stride(v, in); not_contiguous(v, out); inner_stride(v, out);
  other_rank(v, out, {2}); other_dim(v, out, 0); other_dim(v, out, 1);
  v.add("no configuration", [&] { pc = nullptr; });
  v.add("axis beyond rank", [&] { cfg.axis = bad_axis(g, s.rank); });
  v.add("k unlike the output", [&] { int o = cfg.topk; do cfg.topk = (int)g.range(-1, size + 2); while (cfg.topk == o); });
  v.add("k above the slice size", [&] { cfg.topk = size + (int)g.range(1, 3); TT y = make(g, "out", MLI_EL_SA_32, shape({slices, cfg.topk}), DENSE, true); y.t.el_params = out.t.el_params; out.t = y.t; });
  if (sa) v.add("in per-axis parameters", [&] { size_t n = in.t.shape[0]; set_sa_axis(in, 0, std::vector<int16_t>(n, 1), std::vector<int8_t>(n, 1), std::vector<int16_t>(n, 0)); });
  v.call = [&] { return (sa ? mli_krn_argmax_sa8 : mli_krn_argmax_fx16)(&in.t, pc, &out.t); }; run(v);
}
static void am0(G& g) { argmax(g, false); } PBT_SUB("argmax_fx16", 10, am0);
static void am1(G& g) { argmax(g, true); } PBT_SUB("argmax_sa8", 10, am1);

// ------------------------------------------------------------------ helpers and data movement
static void convert(G& g) {
  world().reset(); V v(g, "convert"); Shape s = gen_shape(g);
  auto ty = [&] { return g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}); };
  mli_element_type a = ty(), b = ty(); if (a == MLI_EL_FP_32 && b == MLI_EL_FP_32) b = MLI_EL_FX_16;
  TT &in = v.own(make(g, "in", a, s, pick_mode(g), true, true)), &out = v.own(make(g, "out", b, s, pick_mode(g), false, true)); zero(in);
  for (TT* x : {&in, &out}) { if (x->t.el_type == MLI_EL_SA_8 || x->t.el_type == MLI_EL_SA_32) set_sa(*x, gen_scale(g), 14, gen_zp8(g)); else set_frac(*x, 5);
    generic(v, *x); inner_stride(v, *x); other_rank(v, *x, {s.rank}); other_dim(v, *x, (int)g.range(0, s.rank - 1)); }
  auto sat = [](mli_element_type t) { return t == MLI_EL_SA_8 || t == MLI_EL_SA_32; };
  if (sat(a) && sat(b) && s.rank > 1) v.add("different quantised axes", [&] {
    int d = (int)g.range(0, s.rank - 1), e = (d + 1 + (int)g.draw((uint64_t)s.rank - 1)) % s.rank;
    set_sa_axis(in, d, std::vector<int16_t>(s.d[d], 77), std::vector<int8_t>(s.d[d], 4), std::vector<int16_t>(s.d[d], 1)); set_sa_axis(out, e, std::vector<int16_t>(s.d[e], 77), std::vector<int8_t>(s.d[e], 4), std::vector<int16_t>(s.d[e], 1)); });
  if (el_size(a) != el_size(b)) v.add("in place with another element size", [&] {
    Shape u = s; TT y = make(g, "in", MLI_EL_SA_32, u, DENSE, true); zero(y);
    for (TT* x : {&in, &out}) { memcpy(x->t.mem_stride, y.t.mem_stride, sizeof y.t.mem_stride); x->t.data = y.t.data; } });
  else if (s.rank > 1) v.add("in place with other strides", [&] {
    TT y = make(g, "in", MLI_EL_SA_32, s, DENSE, true); uint8_t* m = world().alloc(y.bytes * 3, "in", true); memset(m, 0, y.bytes * 3);
    int d = (int)g.range(0, s.rank - 2); for (TT* x : {&in, &out}) { memcpy(x->t.mem_stride, y.t.mem_stride, sizeof y.t.mem_stride); x->t.data.mem.pi8 = (int8_t*)m; x->t.data.capacity = (uint32_t)(y.bytes * 3); }
    TT& o = g.chance(50) ? in : out; for (int i = 0; i <= d; i++) o.t.mem_stride[i] *= 2; });
  bool safx = g.chance(30) && a != MLI_EL_FP_32 && b != MLI_EL_FP_32; (void)safx;
  v.call = [&] { return mli_hlp_convert_tensor(&in.t, &out.t); };
  run(v);
}
PBT_SUB("convert_tensor", 25, convert);
static void subt(G& g) {
  world().reset(); V v(g, "create_subtensor");
  mli_element_type t = g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32});
  Shape s = gen_shape(g);
  TT& in = v.own(make(g, "in", t, s, pick_mode(g, true), true, true)); if (t == MLI_EL_FX_8 || t == MLI_EL_FX_16) set_frac(in, 5);
  TT o; memset(&o.t, 0x5a, sizeof o.t); o.name = "out"; TT& out = v.own(o);
  mli_sub_tensor_cfg cfg; memset(&cfg, 0, sizeof cfg); int keep = 0;
  for (int i = 0; i < s.rank; i++) { cfg.offset[i] = (uint32_t)g.range(0, s.d[i] - 1); cfg.size[i] = (uint32_t)g.range(1, s.d[i] - (int)cfg.offset[i]); if (cfg.size[i] > 1) keep++; }
  cfg.sub_tensor_rank = (uint32_t)g.range(std::max(1, keep), s.rank);
  const mli_sub_tensor_cfg* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  generic(v, in); v.add("no configuration", [&] { pc = nullptr; });
  v.add("rank above the input's", [&] { cfg.sub_tensor_rank = (uint32_t)(s.rank + g.small(1, 200)); });
  if (keep > 1) v.add("dimension above 1 removed", [&] { cfg.sub_tensor_rank = (uint32_t)g.range(0, keep - 1); });
  v.add("offset beyond the input", [&] { int d = (int)g.range(0, s.rank - 1); cfg.offset[d] = (uint32_t)(g.chance(50) ? s.d[d] : g.chance(50) ? g.range(s.d[d], 0x7fffffff) : 0x100000000ll - g.range(1, cfg.size[d])); });
  v.add("end beyond the input", [&] { int d = (int)g.range(0, s.rank - 1); cfg.size[d] = (uint32_t)(g.chance(50) ? s.d[d] - (int)cfg.offset[d] + 1 : g.chance(50) ? g.range(s.d[d] + 1, 0x7fffffff) : 0xffffffffu - (uint32_t)g.range(0, cfg.offset[d])); });
  v.call = [&] { return mli_hlp_create_subtensor(&in.t, pc, &out.t); };
  run(v);
}
PBT_SUB("create_subtensor", 15, subt);
static void mov(G& g) {
  world().reset(); V v(g, "mov_tensor_sync"); v.out_desc_free = true;
  mli_element_type t = g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32});
  Shape s = gen_shape(g), so = s; int p[4] = {0, 1, 2, 3};
  for (int i = 0; i < s.rank - 1; i++) std::swap(p[i], p[i + (int)g.range(0, s.rank - 1 - i)]);
  mli_mov_cfg_t cfg; mli_mov_cfg_for_copy(&cfg); int n[4] = {0, 0, 0, 0};
  for (int i = 0; i < s.rank; i++) {
    cfg.padding_pre[i] = (uint8_t)(g.chance(30) ? g.range(1, 3) : 0); cfg.padding_post[i] = (uint8_t)(g.chance(30) ? g.range(1, 3) : 0);
    int full = s.d[i] + cfg.padding_pre[i] + cfg.padding_post[i], off = (int)g.range(0, full - 1), sz = (int)g.range(1, full - off);
    cfg.offset[i] = off; cfg.size[i] = sz; cfg.sub_sample_step[i] = (int)g.small(1, 3); cfg.perm_dim[i] = (uint8_t)p[i]; n[i] = (sz + cfg.sub_sample_step[i] - 1) / cfg.sub_sample_step[i];
  }
  for (int i = 0; i < s.rank; i++) so.d[i] = n[p[i]];
  TT &in = v.own(make(g, "in", t, s, pick_mode(g, true), true, true)), &out = v.own(make(g, "out", t, so, DENSE, false, true)); zero(in);
  for (TT* x : {&in, &out}) if (t == MLI_EL_FX_8 || t == MLI_EL_FX_16) set_frac(*x, 5);
  const mli_mov_cfg_t* pc = &cfg; v.watch.push_back({&cfg, sizeof cfg});
  generic(v, in);
  v.fatal.clear();
  v.add("out data null", [&] { out.t.data.mem.pi8 = nullptr; });
  v.add("out capacity above INT32_MAX", [&] { out.t.data.capacity = 0x80000000u; });
  v.add("out capacity too small", [&] { int64_t need = (int64_t)ext(out) * el_size(t); out.t.data.capacity = (uint32_t)(g.chance(60) ? need - 1 : g.range(0, need - 1)); });
  v.add("no configuration", [&] { pc = nullptr; });
  v.add("region beyond the padded input", [&] { int d = (int)g.range(0, s.rank - 1), full = s.d[d] + cfg.padding_pre[d] + cfg.padding_post[d]; if (g.chance(50)) cfg.size[d] = full - cfg.offset[d] + (int)g.small(1, 100); else cfg.offset[d] = full - cfg.size[d] + (int)g.small(1, 100); });
  v.add("sub-sampling step zero", [&] { cfg.sub_sample_step[g.range(0, s.rank - 1)] = 0; });
  v.add("permuted axis beyond rank", [&] { cfg.perm_dim[g.range(0, s.rank - 1)] = (uint8_t)(g.chance(60) ? s.rank : g.range(s.rank, 255)); });
  v.call = [&] { return mli_mov_tensor_sync(&in.t, pc, &out.t); };
  overlap(v, in, out);
  run(v);
}
PBT_SUB("mov_tensor_sync", 15, mov);
// buffers whose addresses agree in the low 32 bits are far apart
static void far_apart(G& g) {
  world().reset(); V v(g, "buffers 4 GiB apart");
  static uint8_t* base = nullptr;
  if (!base) { base = (uint8_t*)mmap(nullptr, (5ull << 30), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { base = nullptr; g.discard(); } }
  int n = (int)g.range(1, 40), off = (int)g.range(0, 60) - 30; uint8_t *a = base + 4096, *b = a + (4ull << 30) + off; if (g.chance(50)) std::swap(a, b);
  TT &in = v.own(make(g, "in", MLI_EL_FX_8, shape({n, 1, 1}), DENSE, true)), &out = v.own(make(g, "out", MLI_EL_FX_8, shape({n, 1, 1}), DENSE, false));
  set_frac(in, 3); set_frac(out, 3); in.t.data.mem.pi8 = (int8_t*)a; out.t.data.mem.pi8 = (int8_t*)b;
  for (int i = 0; i < n; i++) { a[i] = (uint8_t)(i * 7); b[i] = 0; }
  mli_pool_cfg pc; memset(&pc, 0, sizeof pc); pc.kernel_width = pc.kernel_height = pc.stride_width = pc.stride_height = 1;
  mli_permute_cfg mc = {{0, 1, 2, 3}}; bool pm = g.chance(50);
  mli_status st = pm ? mli_krn_permute_fx8(&in.t, &mc, &out.t) : mli_krn_maxpool_hwc_fx8(&in.t, &pc, &out.t);
  if (st != MLI_STATUS_OK) g.fail("rejected", "buffers 4 GiB (%+d bytes) apart: status %d", off, (int)st);
  if (memcmp(a, b, n)) g.fail("mismatch", "buffers 4 GiB apart: wrong result");
  g.nontrivial();
}
PBT_SUB("far_apart", 1, far_apart);
