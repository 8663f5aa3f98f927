#include "elt.h"
#include "mli_helpers_api.h"
using namespace vt;
const char* pbt::g_rule = "A case is one tensor queried by every helper, or one sub-tensor request (plus one nested request); non-trivial: the window is a proper part of the tensor (or the tensor has several elements for the query cases).";

static mli_element_type gen_type(G& g, bool fp) {
  return fp ? g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}) : g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32});
}
static void gen_params(G& g, TT& x, bool axis_ok = true) {
  if (x.t.el_type == MLI_EL_FX_8 || x.t.el_type == MLI_EL_FX_16) set_frac(x, (int)g.range(-128, 127));
  else if (x.t.el_type == MLI_EL_SA_8 || x.t.el_type == MLI_EL_SA_32) {
    if (axis_ok && g.chance(60)) {
      int d = (int)g.range(0, x.rank() - 1); size_t n = x.dim(d);
      std::vector<int16_t> sc, zp; std::vector<int8_t> fr;
      pbt::Rng r(g.seed());
      for (size_t i = 0; i < n; i++) { sc.push_back((int16_t)(1 + r.next() % 32767)); zp.push_back((int16_t)r.next()); fr.push_back((int8_t)r.next()); }
      set_sa_axis(x, d, sc, fr, zp);
      g.label("per axis");
    } else set_sa(x, gen_scale(g), (int)g.range(-128, 127), (int)g.range(-32768, 32767));
  }
}
static bool is_sa(const TT& x) { return x.t.el_type == MLI_EL_SA_8 || x.t.el_type == MLI_EL_SA_32; }
static bool is_fx(const TT& x) { return x.t.el_type == MLI_EL_FX_8 || x.t.el_type == MLI_EL_FX_16; }

static void query(G& g) {
  world().reset();
  mli_element_type t = gen_type(g, true);
  Shape s = gen_shape(g);
  if (g.chance(10)) { for (int i = 0; i < s.rank; i++) s.d[i] = 1; s.d[g.range(0, s.rank - 1)] = (int)g.range(1, 70000); }
  TT x = make(g, "t", t, s, pick_mode(g, true), true, true);
  gen_params(g, x);
  mli_tensor t0 = x.t;
  world().snapshot();
  if (mli_hlp_tensor_element_size(&x.t) != (uint32_t)el_size(t)) g.fail("element-size", "%u for %s", mli_hlp_tensor_element_size(&x.t), el_name(t));
  for (int d = 0; d < s.rank; d++) {
    uint32_t want = 1; for (int i = d; i < s.rank; i++) want *= (uint32_t)s.d[i];
    uint32_t got = mli_hlp_count_elem_num(&x.t, (uint32_t)d);
    if (got != want) g.fail("count", "from dimension %d of %s: %u, expected %u", d, x.desc().c_str(), got, want);
  }
  size_t n = is_sa(x) ? x.sc.size() : 1;
  for (size_t i = 0; i < n; i++) {
    int sc = is_sa(x) ? x.sc[i] : 1, fr = is_sa(x) ? x.sfb[i] : is_fx(x) ? x.t.el_params.fx.frac_bits : 0, zp = is_sa(x) ? x.zp[i] : 0;
    // the index has no meaning for tensors with one set of parameters
    uint32_t idx = n > 1 || x.t.el_params.sa.dim >= 0 ? (uint32_t)i : (uint32_t)g.range(0, 3);
    if (!is_sa(x)) idx = (uint32_t)g.range(0, 3);
    if (mli_hlp_tensor_scale(&x.t, idx) != sc) g.fail("scale", "index %zu of %s: %d", i, x.desc().c_str(), mli_hlp_tensor_scale(&x.t, idx));
    if (mli_hlp_tensor_scale_shift(&x.t, idx) != fr) g.fail("scale-shift", "index %zu of %s: %d, expected %d", i, x.desc().c_str(), mli_hlp_tensor_scale_shift(&x.t, idx), fr);
    if (mli_hlp_tensor_zero_offset(&x.t, idx) != zp) g.fail("zero-offset", "index %zu of %s: %d, expected %d", i, x.desc().c_str(), mli_hlp_tensor_zero_offset(&x.t, idx), zp);
  }
  if (memcmp(&t0, &x.t, sizeof t0)) g.fail("descriptor", "a query changed the tensor descriptor");
  mli_hlp_set_tensor_mem_strides(&x.t);
  int64_t st = 1;
  for (int i = s.rank - 1; i >= 0; i--) {
    if (x.t.mem_stride[i] != st) g.fail("strides", "stride %d of %s, expected %lld", i, x.desc().c_str(), (long long)st);
    st *= s.d[i];
  }
  for (int i = 0; i < s.rank; i++) x.t.mem_stride[i] = t0.mem_stride[i];
  if (memcmp(&t0, &x.t, sizeof t0)) g.fail("descriptor", "stride setup changed something else in the descriptor");
  TT r0 = scalar(g, "scalar", g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8}));
  if (mli_hlp_count_elem_num(&r0.t, 0) != 1) g.fail("count", "a rank 0 tensor has %u elements", mli_hlp_count_elem_num(&r0.t, 0));
  if (mli_hlp_accu_guard_bits_sa8_sa8() != 16 || mli_hlp_accu_guard_bits_fx16_fx8() != 8) g.fail("guard-bits", "sa8_sa8 %d fx16_fx8 %d", mli_hlp_accu_guard_bits_sa8_sa8(), mli_hlp_accu_guard_bits_fx16_fx8());
  if (mli_hlp_accu_guard_bits_fx16_fx16() < 8) g.fail("guard-bits", "fx16_fx16 %d", mli_hlp_accu_guard_bits_fx16_fx16());
  world().check_frozen(g, "queries");
  if (x.count() > 1) g.nontrivial();
}
PBT_SUB("queries", 10, query);

struct Req { mli_sub_tensor_cfg c; int rank; };
static Req gen_req(G& g, const mli_tensor& t) {
  Req r; memset(&r.c, 0, sizeof r.c);
  int ones = 0;
  for (unsigned i = 0; i < 4; i++) {
    if (i >= t.rank) { r.c.offset[i] = (uint32_t)g.range(0, 1000); r.c.size[i] = (uint32_t)g.range(0, 1000); continue; }  // not looked at
    uint32_t n = t.shape[i];
    size_t w = g.weighted({30, 40, 30});
    if (w == 0) { r.c.offset[i] = 0; r.c.size[i] = n; }
    else if (w == 1) { r.c.offset[i] = (uint32_t)g.range(0, n - 1); r.c.size[i] = 1; }
    else { r.c.offset[i] = (uint32_t)g.range(0, n - 1); r.c.size[i] = (uint32_t)g.range(1, n - r.c.offset[i]); }
    if (r.c.size[i] == 1) ones++;
  }
  int lo = std::max(1, (int)t.rank - ones);
  r.rank = (int)(g.chance(40) ? t.rank : (unsigned)g.range(lo, (int)t.rank));
  r.c.sub_tensor_rank = (uint32_t)r.rank;
  return r;
}
// what the request means, in terms of the parent descriptor; map[k] = parent dimension of output dimension k
static void verify(G& g, const mli_tensor& in, const Req& r, const mli_tensor& out, const char* what) {
  int map[4] = {-1, -1, -1, -1}, k = 0, skip = (int)in.rank - r.rank;
  int64_t delta = 0; bool dropped_q = false; int qout = -1;
  bool sa = in.el_type == MLI_EL_SA_8 || in.el_type == MLI_EL_SA_32;
  int q = sa ? in.el_params.sa.dim : -1;
  for (int i = 0; i < (int)in.rank; i++) {
    delta += (int64_t)r.c.offset[i] * in.mem_stride[i];
    if (skip > 0 && r.c.size[i] == 1) { skip--; if (i == q) dropped_q = true; continue; }
    if (i == q) qout = k;
    map[k++] = i;
  }
  int64_t bytes = delta * el_size(in.el_type);
  if ((int)out.rank != r.rank) g.fail("subtensor-shape", "%s: rank %u, expected %d", what, out.rank, r.rank);
  if (out.el_type != in.el_type) g.fail("subtensor-format", "%s: element type changed", what);
  for (int i = 0; i < r.rank; i++) {
    if (out.shape[i] != r.c.size[map[i]]) g.fail("subtensor-shape", "%s: shape[%d]=%u, expected %u", what, i, out.shape[i], r.c.size[map[i]]);
    if (out.mem_stride[i] != in.mem_stride[map[i]]) g.fail("subtensor-stride", "%s: stride[%d]=%d, expected %d", what, i, out.mem_stride[i], in.mem_stride[map[i]]);
  }
  if (out.data.mem.pi8 != in.data.mem.pi8 + bytes) g.fail("subtensor-address", "%s: data starts %lld bytes after the parent's, expected %lld", what, (long long)(out.data.mem.pi8 - in.data.mem.pi8), (long long)bytes);
  if (out.data.capacity != in.data.capacity - bytes) g.fail("subtensor-capacity", "%s: capacity %u, expected %lld", what, out.data.capacity, (long long)(in.data.capacity - bytes));
  if (!sa) { if (out.el_params.fx.frac_bits != in.el_params.fx.frac_bits) g.fail("subtensor-format", "%s: fractional bits differ", what); return; }
  auto &a = in.el_params.sa, &b = out.el_params.sa;
  if (b.dim != qout) g.fail("subtensor-format", "%s: quantised axis %d, expected %d", what, b.dim, qout);
  if (q < 0) {
    if (b.scale.mem.i16 != a.scale.mem.i16 || b.zero_point.mem.i16 != a.zero_point.mem.i16 || b.scale_frac_bits.mem.i8 != a.scale_frac_bits.mem.i8) g.fail("subtensor-format", "%s: parameters differ", what);
  } else if (dropped_q) {
    uint32_t o = r.c.offset[q];
    if (b.scale.mem.i16 != a.scale.mem.pi16[o] || b.zero_point.mem.i16 != a.zero_point.mem.pi16[o] || b.scale_frac_bits.mem.i8 != a.scale_frac_bits.mem.pi8[o])
      g.fail("subtensor-format", "%s: the parameters of index %u should apply to the whole tensor", what, o);
    if (b.scale.capacity || b.zero_point.capacity || b.scale_frac_bits.capacity) g.fail("subtensor-format", "%s: per-tensor parameters with a buffer", what);
    g.label("quantised axis removed");
  } else {
    uint32_t o = r.c.offset[q];
    if (b.scale.mem.pi16 != a.scale.mem.pi16 + o || b.zero_point.mem.pi16 != a.zero_point.mem.pi16 + o || b.scale_frac_bits.mem.pi8 != a.scale_frac_bits.mem.pi8 + o)
      g.fail("subtensor-format", "%s: parameters do not start at index %u of the parent's", what, o);
    if (b.scale.capacity != a.scale.capacity - 2 * o || b.zero_point.capacity != a.zero_point.capacity - 2 * o || b.scale_frac_bits.capacity != a.scale_frac_bits.capacity - o)
      g.fail("subtensor-capacity", "%s: parameter capacities %u %u %u (parent %u %u %u, offset %u)", what, b.scale.capacity, b.zero_point.capacity, b.scale_frac_bits.capacity, a.scale.capacity, a.zero_point.capacity, a.scale_frac_bits.capacity, o);
  }
}
static std::string rs(const mli_tensor& t, const Req& r) {
  std::string s; char b[64];
  for (unsigned i = 0; i < t.rank; i++) { snprintf(b, sizeof b, "%u+%u ", r.c.offset[i], r.c.size[i]); s += b; }
  snprintf(b, sizeof b, "rank %u", r.c.sub_tensor_rank); return s + b;
}
static void sub(G& g) {
  world().reset();
  mli_element_type t = gen_type(g, false);
  TT x = make(g, "in", t, gen_shape(g), pick_mode(g, true), true, true);
  gen_params(g, x);
  fill(g, x);
  Req r = gen_req(g, x.t);
  g.note("%s window %s", x.desc().c_str(), rs(x.t, r).c_str());
  mli_tensor t0 = x.t, o; scribble((uint8_t*)&o, sizeof o, 99);
  mli_sub_tensor_cfg c0 = r.c;
  world().snapshot();
  mli_status st = mli_hlp_create_subtensor(&x.t, &r.c, &o);
  if (st != MLI_STATUS_OK) g.fail("status", "valid request returned %d", (int)st);
  if (memcmp(&t0, &x.t, sizeof t0) || memcmp(&c0, &r.c, sizeof c0)) g.fail("modified-input", "the parent descriptor or the configuration changed");
  verify(g, x.t, r, o, "create_subtensor");
  // element by element, through the addresses
  TT y = x; y.t = o; size_t seen = 0;
  y.each([&](const int* i) {
    int p[4] = {0, 0, 0, 0}, k = 0, skip = (int)x.t.rank - r.rank;
    for (int d = 0; d < (int)x.t.rank; d++) {
      if (skip > 0 && r.c.size[d] == 1) { skip--; p[d] = (int)r.c.offset[d]; continue; }
      p[d] = (int)r.c.offset[d] + i[k++];
    }
    if (y.geto(y.off(i)) != x.geto(x.off(p))) g.fail("subtensor-element", "element [%d,%d,%d,%d] differs", i[0], i[1], i[2], i[3]);
    seen++;
  });
  if (mli_hlp_count_elem_num(&o, 0) != seen) g.fail("count", "sub-tensor has %u elements, expected %zu", mli_hlp_count_elem_num(&o, 0), seen);
  // a window of the window, and both at once
  Req r2 = gen_req(g, o);
  mli_tensor o2; scribble((uint8_t*)&o2, sizeof o2, 98);
  g.note("nested %s", rs(o, r2).c_str());
  st = mli_hlp_create_subtensor(&o, &r2.c, &o2);
  if (st != MLI_STATUS_OK) g.fail("status", "valid nested request returned %d", (int)st);
  verify(g, o, r2, o2, "nested create_subtensor");
  g.evals(1);
  world().check_frozen(g, "create_subtensor");
  if (seen < x.count()) g.nontrivial();
}
PBT_SUB("subtensor", 30, sub);

// deprecated predecessor: leading coordinates fixed, first remaining dimension cut
static void point(G& g) {
  world().reset();
  mli_element_type t = gen_type(g, true);
  Shape s = gen_shape(g);
  TT x = make(g, "in", t, s, DENSE, true);
  gen_params(g, x, false);
  scribble(x.buf, x.bytes, g.seed());
  mli_point_to_subtsr_cfg c; memset(&c, 0, sizeof c);
#ifdef MLI_DEBUG_MODE
  c.coord_num = (uint8_t)s.rank;  // with argument checks the deprecated function only takes outputs of rank 1
#else
  c.coord_num = (uint8_t)g.range(1, s.rank);
#endif
  for (int i = 0; i < c.coord_num; i++) c.start_coord[i] = (uint32_t)g.range(0, s.d[i] - 1);
  int a = c.coord_num - 1;
  c.first_out_dim_size = (uint8_t)g.range(1, std::min<int>(255, s.d[a] - (int)c.start_coord[a]));
  mli_tensor o; memset(&o, 0, sizeof o);
  int64_t st = 1;
  for (int i = s.rank - 1; i >= a; i--) { o.mem_stride[i - a] = (int32_t)st; st *= i == a ? c.first_out_dim_size : s.d[i]; }
  world().snapshot();
  mli_status ret = mli_hlp_point_to_subtensor(&x.t, &c, &o);
  if (ret != MLI_STATUS_OK) g.fail("status", "point_to_subtensor returned %d", (int)ret);
  int64_t delta = 0, cnt = 1;
  for (int i = 0; i <= a; i++) delta += (int64_t)c.start_coord[i] * x.t.mem_stride[i];
  if ((int)o.rank != s.rank - a || o.el_type != t) g.fail("subtensor-shape", "point_to: rank %u", o.rank);
  for (int i = a; i < s.rank; i++) {
    uint32_t w = i == a ? c.first_out_dim_size : (uint32_t)s.d[i];
    if (o.shape[i - a] != w) g.fail("subtensor-shape", "point_to: shape[%d]=%u, expected %u", i - a, o.shape[i - a], w);
    cnt *= w;
  }
  if (o.data.mem.pi8 != x.t.data.mem.pi8 + delta * el_size(t)) g.fail("subtensor-address", "point_to: data at byte %lld, expected %lld", (long long)(o.data.mem.pi8 - x.t.data.mem.pi8), (long long)delta * el_size(t));
  if (o.data.capacity != cnt * el_size(t)) g.fail("subtensor-capacity", "point_to: capacity %u", o.data.capacity);
  if (memcmp(&o.el_params, &x.t.el_params, sizeof o.el_params)) g.fail("subtensor-format", "point_to: parameters differ");
  world().check_frozen(g, "point_to_subtensor");
  if ((size_t)cnt < x.count()) g.nontrivial();
}
PBT_SUB("point_to_subtensor", 6, point);

// one broken condition: only builds that return status codes promise anything
#if defined(VP_RET_CODES)
static void bad(G& g) {
  world().reset();
  TT x = make(g, "in", gen_type(g, false), gen_shape(g), pick_mode(g, true), true, true);
  gen_params(g, x);
  Req r = gen_req(g, x.t);
  int d = (int)g.range(0, x.rank() - 1);
  const char* what = "";
  mli_tensor *pi = &x.t, o; mli_sub_tensor_cfg* pc = &r.c; mli_tensor* po = &o;
  memset(&o, 0x5a, sizeof o); mli_tensor o0 = o;
  switch (g.range(0, 8)) {
    case 0: what = "offset beyond the shape"; r.c.offset[d] = x.t.shape[d] + (uint32_t)g.range(0, 3); break;
    case 1: what = "window reaches beyond the shape"; r.c.size[d] = x.t.shape[d] - r.c.offset[d] + (uint32_t)g.range(1, 3); break;
    case 2: what = "rank above the parent's"; r.c.sub_tensor_rank = x.t.rank + (uint32_t)g.range(1, 3); break;
    case 3: {
      what = "rank drops a dimension larger than 1";
      unsigned ones = 0; for (unsigned i = 0; i < x.t.rank; i++) ones += r.c.size[i] == 1;
      if (ones == x.t.rank) g.discard();
      r.c.sub_tensor_rank = (uint32_t)g.range(0, (int)(x.t.rank - ones) - 1); break;
    }
    case 4: what = "no configuration"; pc = nullptr; break;
    case 5: what = "no output"; po = nullptr; break;
    case 6: what = "no input"; pi = nullptr; break;
    case 7: what = "input data missing"; x.t.data.mem.pi8 = nullptr; break;
    case 8: what = "capacity too small"; {
      size_t ext = 1; for (int i = 0; i < x.rank(); i++) ext += (size_t)(x.dim(i) - 1) * x.t.mem_stride[i];
      x.t.data.capacity = (uint32_t)(ext * el_size(x.t.el_type) - 1); break; }
  }
  g.label(what); g.note("%s: %s window %s", what, pi && x.t.data.mem.pi8 ? x.desc().c_str() : "", rs(x.t, r).c_str());
  world().snapshot();
  mli_status st = mli_hlp_create_subtensor(pi, pc, po);
  if (st == MLI_STATUS_OK) g.fail("accepted-invalid", "%s: request was accepted", what);
  if (memcmp(&o, &o0, sizeof o)) g.fail("modified-output", "%s: rejected but the output descriptor was written", what);
  g.nontrivial();
}
PBT_SUB("invalid requests", 12, bad);
#endif
