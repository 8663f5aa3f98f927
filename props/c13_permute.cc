#include "mlit.h"
using namespace vt;
const char* pbt::g_rule = "A case is one permute call and the inverse call that restores the tensor; non-trivial: the permutation moves an axis of length above 1 and the data holds at least two different values.";

static void run(G& g, int ty) {
  world().reset();
  mli_element_type t = ty == 0 ? MLI_EL_FX_8 : ty == 1 ? MLI_EL_FX_16 : MLI_EL_SA_8;
  auto fn = ty == 0 ? mli_krn_permute_fx8 : ty == 1 ? mli_krn_permute_fx16 : mli_krn_permute_sa8;
  Shape s, so; s.rank = (int)g.range(1, 4); so.rank = s.rank;
  int left = g.chance(8) ? 5000 : 300;
  for (int i = 0; i < 4; i++) { s.d[i] = so.d[i] = 0; if (i < s.rank) { s.d[i] = (int)g.small(1, std::max(1, std::min(left, g.chance(12) ? 300 : 9))); left /= s.d[i]; } }
  mli_permute_cfg c, ci; int p[4] = {0, 1, 2, 3};
  for (int i = 0; i < s.rank - 1; i++) std::swap(p[i], p[i + (int)g.range(0, s.rank - 1 - i)]);
  bool moves = false;
  for (int i = 0; i < 4; i++) c.perm_dim[i] = i < s.rank ? (uint8_t)p[i] : (uint8_t)g.range(0, 255);  // entries beyond the rank are ignored
  for (int i = 0; i < s.rank; i++) { so.d[i] = s.d[p[i]]; ci.perm_dim[p[i]] = (uint8_t)i; if (p[i] != i && so.d[i] > 1) moves = true; }
  for (int i = s.rank; i < 4; i++) ci.perm_dim[i] = c.perm_dim[i];
  TT in = make(g, "in", t, s, pick_mode(g, true), true, true), out = make(g, "out", t, so, pick_mode(g, true), false, true);
  int qdim = -1, mode = 0; size_t n = 0;
  std::vector<int16_t> sc, zp; std::vector<int8_t> fr;
  if (t == MLI_EL_SA_8) {
    set_sa(out, gen_scale(g), 3, 5);
    if (g.chance(55)) {
      qdim = (int)g.range(0, s.rank - 1); n = s.d[qdim];
      pbt::Rng r(g.seed());
      for (size_t i = 0; i < n; i++) { sc.push_back((int16_t)(1 + r.next() % 32767)); zp.push_back((int16_t)((int)(r.next() % 256) - 128)); fr.push_back((int8_t)((int)(r.next() % 40) - 8)); }
      set_sa_axis(in, qdim, sc, fr, zp);
      mode = (int)g.range(0, 2);
      auto& o = out.t.el_params.sa; auto& i = in.t.el_params.sa;
      o.dim = (int)g.range(-1, s.rank - 1);  // filled by the kernel
      if (mode == 0) { o.scale.mem.pi16 = nullptr; o.zero_point.mem.pi16 = nullptr; o.scale_frac_bits.mem.pi8 = nullptr; o.scale.capacity = o.zero_point.capacity = o.scale_frac_bits.capacity = 0; }
      else if (mode == 1) { o = i; o.dim = -1; if (g.chance(50)) o.dim = i.dim; }
      else {
        size_t extra = g.chance(40) ? g.range(1, 3) : 0;
        o.scale.mem.pi16 = (int16_t*)world().alloc((n + extra) * 2, "out scales", false); o.scale.capacity = (uint32_t)(n + extra) * 2;
        o.zero_point.mem.pi16 = (int16_t*)world().alloc((n + extra) * 2, "out zero points", false); o.zero_point.capacity = (uint32_t)(n + extra) * 2;
        o.scale_frac_bits.mem.pi8 = (int8_t*)world().alloc(n + extra, "out frac bits", false); o.scale_frac_bits.capacity = (uint32_t)(n + extra);
        memset(o.scale.mem.pi16, 0x3c, (n + extra) * 2); memset(o.zero_point.mem.pi16, 0x3c, (n + extra) * 2); memset(o.scale_frac_bits.mem.pi8, 0x3c, n + extra);
      }
      g.label(mode == 0 ? "params by reference" : mode == 1 ? "params shared" : "params copied");
    } else set_sa(in, gen_scale(g), (int)g.range(-8, 30), gen_zp8(g));
  } else { set_frac(in, (int)g.range(-128, 127)); set_frac(out, 3); }
  fill(g, in);
  std::vector<int64_t> want; bool diff = false;
  { int i[4]; out.each([&](const int* o) { for (int d = 0; d < s.rank; d++) i[p[d]] = o[d]; want.push_back(in.geto(in.off(i))); if (want.back() != want[0]) diff = true; }); }
  g.note("%s perm %d %d %d %d rank %d qdim %d mode %d", el_name(t), c.perm_dim[0], c.perm_dim[1], c.perm_dim[2], c.perm_dim[3], s.rank, qdim, mode);
  if (g.verbose()) g.note("%s", in.desc().c_str());
  mli_tensor ti = in.t, t0 = out.t; mli_permute_cfg c0 = c;
  world().snapshot();
  mli_status st = fn(&in.t, &c, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  auto verify = [&](const TT& out, const mli_tensor& t0, int qd, const char* what) {
    expect_desc(g, out, t0, what, false);
    auto& o = out.t.el_params;
    if (t != MLI_EL_SA_8) { if (o.fx.frac_bits != in.t.el_params.fx.frac_bits) g.fail("out-format", "%s: frac %d", what, o.fx.frac_bits); return; }
    if (o.sa.dim != qd) g.fail("out-format", "%s: quantised axis %d, expected %d", what, o.sa.dim, qd);
    if (qd < 0) {
      if (o.sa.scale.mem.i16 != in.sc[0] || o.sa.zero_point.mem.i16 != in.zp[0] || o.sa.scale_frac_bits.mem.i8 != in.sfb[0]) g.fail("out-format", "%s: per-tensor parameters differ", what);
      return;
    }
    auto& i = in.t.el_params.sa;
    if (mode != 2 && (o.sa.scale.mem.pi16 != i.scale.mem.pi16 || o.sa.zero_point.mem.pi16 != i.zero_point.mem.pi16 || o.sa.scale_frac_bits.mem.pi8 != i.scale_frac_bits.mem.pi8 ||
                      o.sa.scale.capacity != i.scale.capacity || o.sa.zero_point.capacity != i.zero_point.capacity || o.sa.scale_frac_bits.capacity != i.scale_frac_bits.capacity)) g.fail("out-format", "%s: parameters do not refer to the input's", what);
    if (mode == 2 && (o.sa.scale.mem.pi16 != t0.el_params.sa.scale.mem.pi16 || o.sa.zero_point.mem.pi16 != t0.el_params.sa.zero_point.mem.pi16 || o.sa.scale_frac_bits.mem.pi8 != t0.el_params.sa.scale_frac_bits.mem.pi8)) g.fail("out-format", "%s: parameter memory replaced", what);
    for (size_t k = 0; k < n; k++)
      if (o.sa.scale.mem.pi16[k] != sc[k] || o.sa.zero_point.mem.pi16[k] != zp[k] || o.sa.scale_frac_bits.mem.pi8[k] != fr[k]) g.fail("out-format", "%s: parameters of index %zu differ", what, k);
    if (mode == 2) for (size_t k = n; k < o.sa.scale_frac_bits.capacity; k++) if (o.sa.scale.mem.pi16[k] != 0x3c3c || o.sa.zero_point.mem.pi16[k] != 0x3c3c || o.sa.scale_frac_bits.mem.pi8[k] != 0x3c) g.fail("gap-write", "%s: parameter memory behind the last entry changed", what);
  };
  expect_values(g, out, want, "permute"); expect_gaps(g, out, "permute"); world().check_frozen(g, "permute");
  expect_desc(g, in, ti, "permute"); if (memcmp(&c, &c0, sizeof c)) g.fail("modified-input", "configuration changed");
  int oq = -1; for (int d = 0; d < s.rank; d++) if (qdim >= 0 && p[d] == qdim) oq = d;
  verify(out, t0, oq, "permute");
  // and back
  TT back = make(g, "back", t, s, pick_mode(g, true), false);
  if (t == MLI_EL_SA_8) {
    set_sa(back, 7, 3, 5); auto& o = back.t.el_params.sa;
    if (qdim >= 0) { o.scale.mem.pi16 = nullptr; o.zero_point.mem.pi16 = nullptr; o.scale_frac_bits.mem.pi8 = nullptr; }
  }
  mli_tensor tb = back.t;
  world().unfreeze(out.buf); for (auto& b : world().blocks) if (b.p == out.buf) b.frozen = true;
  world().snapshot();
  st = fn(&out.t, &ci, &back.t);
  if (st != MLI_STATUS_OK) g.fail("status", "inverse permutation returned status %d", (int)st);
  expect_values(g, back, in.values(), "inverse permutation"); expect_gaps(g, back, "inverse permutation"); world().check_frozen(g, "inverse permutation");
  if (mode == 2) { for (size_t k = 0; k < n; k++) if (back.t.el_params.sa.scale.mem.pi16[k] != sc[k] || back.t.el_params.sa.dim != qdim) g.fail("out-format", "inverse permutation: parameters"); }
  else verify(back, tb, qdim, "inverse permutation");
  if (moves && diff) g.nontrivial();
}
static void f8(G& g) { run(g, 0); } PBT_SUB("permute_fx8", 10, f8);
static void f16(G& g) { run(g, 1); } PBT_SUB("permute_fx16", 10, f16);
static void a8(G& g) { run(g, 2); } PBT_SUB("permute_sa8", 20, a8);
