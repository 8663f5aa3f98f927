#include "mlit.h"
using namespace vt;
const char* pbt::g_rule = "A case is one argmax call; non-trivial: some slice has more elements than k, and at least two different values in it.";

static void run(G& g, bool sa) {
  world().reset();
  mli_element_type t = sa ? MLI_EL_SA_8 : MLI_EL_FX_16;
  Shape s; s.rank = (int)g.range(1, 4);
  int left = g.chance(10) ? 3000 : 150;
  for (int i = 0; i < 4; i++) { s.d[i] = 0; if (i < s.rank) { s.d[i] = (int)g.small(1, std::max(1, std::min(left, g.chance(15) ? 600 : 8))); left /= s.d[i]; } }
  int axis = (int)g.range(-1, s.rank - 1); if (axis < 0 && g.chance(20)) axis = (int)g.range(-100000, -2);
  TT in = make(g, "in", t, s, pick_mode(g), true, true);
  if (sa) set_sa(in, gen_scale(g), (int)g.range(-8, 30), gen_zp8(g)); else set_frac(in, (int)g.range(-4, 20));
  fill(g, in);
  // monotone sequences and plateaus as well
  if (g.chance(25)) {
    int64_t step = g.range(-3, 3), v = g.range(-60, 60);
    in.each([&](const int* i) { in.seto(in.off(i), std::min<int64_t>(127, std::max<int64_t>(-128, v))); v += step; });
    g.label("monotone data");
  }
  int slices = axis < 0 ? 1 : s.d[axis];
  int size = (int)in.count() / slices;
  size_t w = g.weighted({25, 10, 10, 55});
  int k = w == 0 ? 1 : w == 1 ? size : w == 2 ? std::max(1, size - 1) : (int)g.small(1, size);
  TT out = make(g, "out", MLI_EL_SA_32, shape({slices, k}), DENSE, false, true);
  set_sa(out, gen_scale(g), 3, 5);
  g.note("axis %d k %d", axis, k);
  if (g.verbose()) g.note("%s", in.desc().c_str());
  mli_argmax_cfg c; c.axis = axis; c.topk = k;
  mli_tensor ti = in.t, t0 = out.t;
  world().snapshot();
  mli_status st = (sa ? mli_krn_argmax_sa8 : mli_krn_argmax_fx16)(&in.t, &c, &out.t);
  if (st != MLI_STATUS_OK) g.fail("status", "valid call returned status %d", (int)st);
  // position in linear memory -> (slice)
  std::vector<std::vector<std::pair<int64_t, int64_t>>> el(slices);  // value, offset
  in.each([&](const int* i) { int64_t o = in.off(i); el[axis < 0 ? 0 : i[axis]].push_back({in.geto(o), o}); });
  bool nt = false;
  for (int sl = 0; sl < slices; sl++) {
    auto& e = el[sl];
    std::vector<int64_t> vals, offs; for (auto& p : e) { vals.push_back(p.first); offs.push_back(p.second); }
    std::sort(vals.rbegin(), vals.rend()); std::sort(offs.begin(), offs.end());
    if (size > k && vals.front() != vals.back()) nt = true;
    std::vector<int64_t> seen;
    for (int j = 0; j < k; j++) {
      int64_t o = out.at(sl, j);
      if (!std::binary_search(offs.begin(), offs.end(), o)) g.fail("position", "slice %d, entry %d: %lld is not the position of an element of the slice; %s", sl, j, (long long)o, in.desc().c_str());
      if (in.geto(o) != vals[j]) g.fail("order", "slice %d, entry %d (position %lld) has value %lld, the %d-largest value is %lld; %s", sl, j, (long long)o, (long long)in.geto(o), j, (long long)vals[j], in.desc().c_str());
      seen.push_back(o);
    }
    std::sort(seen.begin(), seen.end());
    if (std::adjacent_find(seen.begin(), seen.end()) != seen.end()) g.fail("distinct", "slice %d: position %lld returned twice", sl, (long long)*std::adjacent_find(seen.begin(), seen.end()));
  }
  expect_gaps(g, out, "argmax"); world().check_frozen(g, "argmax");
  if (c.axis != axis || c.topk != k) g.fail("modified-input", "configuration changed");
  expect_desc(g, in, ti, "argmax"); expect_desc(g, out, t0, "argmax", false);
  auto& p = out.t.el_params.sa;
  if (p.dim != -1 || p.scale.mem.i16 != 1 || p.zero_point.mem.i16 != 0 || p.scale_frac_bits.mem.i8 != 0 || p.type != MLI_EL_PARAM_SC16_ZP16) g.fail("out-format", "output parameters: dim %d scale %d zp %d frac %d", p.dim, p.scale.mem.i16, p.zero_point.mem.i16, p.scale_frac_bits.mem.i8);
  if (nt) g.nontrivial();
}
static void a8(G& g) { run(g, true); } PBT_SUB("argmax_sa8", 10, a8);
static void a16(G& g) { run(g, false); } PBT_SUB("argmax_fx16", 10, a16);
