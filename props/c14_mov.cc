#include "mlit.h"
using namespace vt;
const char* pbt::g_rule = "A case is one data move (or one configuration helper call); non-trivial: the move combines at least two of padding, cropping, subsampling, permuting, destination offset and non-dense strides, and the written window is not constant.";

static mli_status go(G& g, const mli_tensor* src, const mli_mov_cfg_t* c, mli_tensor* dst) {
  if (g.chance(60)) return mli_mov_tensor_sync(src, c, dst);
  g.label("asynchronous");
  mli_mov_handle_t h; memset(&h, 0, sizeof h);
  mli_status st = mli_mov_acquire_handle(1, &h);
  if (st != MLI_STATUS_OK) return st;
  st = mli_mov_prepare(&h, src, c, dst);
  if (st == MLI_STATUS_OK) st = mli_mov_start(&h, src, c, dst);
  if (st == MLI_STATUS_OK) st = mli_mov_wait(&h);
  if (st == MLI_STATUS_OK && !mli_mov_isdone(&h)) g.fail("state", "transfer not done after wait");
  mli_status r = mli_mov_release_handle(&h);
  return st != MLI_STATUS_OK ? st : r;
}
static void move(G& g) {
  world().reset(); mli_mov_set_num_dma_ch(0, 4);
  mli_element_type t = g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32});
  bool asym = t == MLI_EL_SA_8 || t == MLI_EL_SA_32; int es = el_size(t);
  int R = (int)g.range(1, 4); Shape s; s.rank = R;
  int left = g.chance(8) ? 5000 : 240;
  for (int i = 0; i < 4; i++) { s.d[i] = 0; if (i < R) { s.d[i] = (int)g.small(1, std::max(1, std::min(left, g.chance(10) ? 700 : 8))); left /= s.d[i]; } }
  TT src = make(g, "src", t, s, pick_mode(g, true), true, true);
  // ---- configuration
  mli_mov_cfg_t c; memset(&c, 0, sizeof c);
  int on[5]; bool plain = g.chance(12);  // pad, crop, sub, perm, dst offset
  for (int k = 0; k < 5; k++) on[k] = !plain && g.chance(45);
  int perm[4] = {0, 1, 2, 3};
  if (on[3]) for (int i = 0; i < R - 1; i++) std::swap(perm[i], perm[i + (int)g.range(0, R - 1 - i)]);
  int64_t size[4];
  for (int i = 0; i < 4; i++) {
    if (i >= R) {  // beyond the rank: not used
      c.offset[i] = (uint32_t)g.range(0, 9); c.size[i] = (uint32_t)g.range(0, 9); c.sub_sample_step[i] = (uint32_t)g.range(0, 3); c.dst_offset[i] = (uint32_t)g.range(0, 9);
      c.dst_mem_stride[i] = (int32_t)g.range(0, 9); c.perm_dim[i] = (uint8_t)g.range(0, 255); c.padding_pre[i] = (uint8_t)g.range(0, 9); c.padding_post[i] = (uint8_t)g.range(0, 9);
      continue;
    }
    c.perm_dim[i] = (uint8_t)perm[i]; c.sub_sample_step[i] = 1;
    if (on[0] && g.chance(55)) { int m = g.chance(5) ? (R == 1 ? 255 : 20) : 4; c.padding_pre[i] = (uint8_t)g.range(0, m); c.padding_post[i] = (uint8_t)g.range(0, m); }
    int full = s.d[i] + c.padding_pre[i] + c.padding_post[i];
    if (on[1]) {
      if (g.chance(60)) c.offset[i] = (uint32_t)g.range(0, s.d[i] - 1);
      if (g.chance(60)) c.size[i] = (uint32_t)g.range(1, full - (int)c.offset[i]);
    }
    if (g.chance(10)) c.size[i] = full - (int)c.offset[i];  // explicit full size
    if (on[2] && g.chance(60)) c.sub_sample_step[i] = g.chance(5) ? (uint32_t)g.range(5, 1000) : (uint32_t)g.range(1, 4);
    if (on[4] && g.chance(60)) c.dst_offset[i] = (uint32_t)g.range(0, 4);
  }
  for (int i = 0; i < R; i++) {
    int p = perm[i];
    int64_t n = c.size[p] ? c.size[p] : s.d[p] - (int)c.offset[p] + c.padding_pre[p] + c.padding_post[p];
    size[i] = (n + c.sub_sample_step[p] - 1) / c.sub_sample_step[p];
  }
  // ---- destination: strides from the configuration, from the tensor or computed
  TT dst; memset(&dst.t, 0, sizeof dst.t); dst.name = "dst";
  int32_t st[4] = {0, 0, 0, 0}; uint32_t dsh[4] = {1, 1, 1, 1};
  bool odd = false; int style = (int)g.weighted({40, 25, 20, 15});  // all computed, cfg, own, mixed
  for (int i = R - 1; i >= 0; i--) {
    dsh[i] = (uint32_t)(size[i] + c.dst_offset[i]);
    int64_t need = i == R - 1 ? 1 : (int64_t)st[i + 1] * dsh[i + 1];
    int how = style == 3 ? (int)g.range(0, 2) : style;
    if (how) { int ex = (i != R - 1 || g.chance(20)) && g.chance(50) ? (int)g.range(1, 6) : 0; need += ex; odd |= ex > 0; }
    st[i] = (int32_t)need;
    c.dst_mem_stride[i] = how == 1 ? st[i] : 0;
    dst.t.mem_stride[i] = how == 2 ? st[i] : how == 0 ? 0 : (int32_t)g.range(0, 1) * 777;  // the configuration wins
  }
  size_t ext = 1; for (int i = 0; i < R; i++) ext += (size_t)(dsh[i] - 1) * st[i];
  if (ext * es > (1u << 22)) g.discard();
  dst.bytes = ext * es + (g.chance(30) ? g.range(0, 9) : 0);
  dst.buf = world().alloc(dst.bytes, "dst", false); scribble(dst.buf, dst.bytes, 77 + dst.bytes);
  dst.t.data.mem.pi8 = (int8_t*)dst.buf; dst.t.data.capacity = (uint32_t)dst.bytes;
  dst.t.rank = (uint32_t)g.range(0, 4); dst.t.el_type = g.pick<mli_element_type>({MLI_EL_FX_8, MLI_EL_SA_32, MLI_EL_FX_16});
  // ---- quantisation parameters
  int qd = -1, od = -1, mode = 0; size_t n = 0, dn = 0, cap = 0; std::vector<int16_t> sc, zp; std::vector<int8_t> fr;
  std::vector<int16_t> wsc, wzp; std::vector<int8_t> wfr;
  auto& dp = dst.t.el_params.sa;
  if (asym && g.chance(60)) {
    qd = (int)g.range(0, R - 1); n = s.d[qd];
    pbt::Rng r(g.seed());
    for (size_t i = 0; i < n; i++) { sc.push_back((int16_t)(1 + r.next() % 32767)); zp.push_back((int16_t)((int)(r.next() % 256) - 128)); fr.push_back((int8_t)((int)(r.next() % 40) - 8)); }
    set_sa_axis(src, qd, sc, fr, zp);
    for (int i = 0; i < R; i++) if (perm[i] == qd) od = i;
    bool untouched = (c.size[qd] == 0 || (int)c.size[qd] == s.d[qd]) && !c.offset[qd] && !c.padding_pre[qd] && !c.padding_post[qd] && c.sub_sample_step[qd] == 1 && !c.dst_offset[od];
    mode = untouched ? (int)g.range(0, 2) : 2;
    dp.type = MLI_EL_PARAM_SC16_ZP16; dp.dim = (int)g.range(-1, R - 1);
    if (mode == 1) { dp = src.t.el_params.sa; dp.dim = (int)g.range(-1, R - 1); }
    if (mode == 2) {
      dn = dsh[od]; cap = dn + (g.chance(40) ? g.range(1, 3) : 0);
      dp.scale.mem.pi16 = (int16_t*)world().alloc(cap * 2, "dst scales", false); dp.scale.capacity = (uint32_t)cap * 2;
      dp.zero_point.mem.pi16 = (int16_t*)world().alloc(cap * 2, "dst zero points", false); dp.zero_point.capacity = (uint32_t)cap * 2;
      dp.scale_frac_bits.mem.pi8 = (int8_t*)world().alloc(cap, "dst frac bits", false); dp.scale_frac_bits.capacity = (uint32_t)cap;
      wsc.assign(cap, 0x3c3c); wzp.assign(cap, 0x3c3c); wfr.assign(cap, 0x3c);
      // legal values in the memory that is not written: the destination is checked as a tensor
      for (size_t k = 0; k < cap; k++) { wsc[k] = (int16_t)(0x3c00 + k % 99); wzp[k] = (int16_t)(k % 100); wfr[k] = (int8_t)(k % 14); }
      memcpy(dp.scale.mem.pi16, wsc.data(), cap * 2); memcpy(dp.zero_point.mem.pi16, wzp.data(), cap * 2); memcpy(dp.scale_frac_bits.mem.pi8, wfr.data(), cap);
      for (int64_t k = 0; k < size[od]; k++) {
        int64_t p = k * c.sub_sample_step[qd] + c.offset[qd] - c.padding_pre[qd]; bool in = p >= 0 && p < s.d[qd]; size_t w = (size_t)k + c.dst_offset[od];
        wsc[w] = in ? sc[p] : 1; wzp[w] = in ? zp[p] : 0; wfr[w] = in ? fr[p] : 0;
      }
    }
    g.label(mode == 0 ? "params by reference" : mode == 1 ? "params shared" : "params copied");
  } else if (asym) { set_sa(src, gen_scale(g), (int)g.range(-8, 30), gen_zp8(g)); dp.dim = -1; dp.scale.mem.i16 = 3; dp.zero_point.mem.i16 = 4; }
  else { set_frac(src, (int)g.range(-128, 127)); dst.t.el_params.fx.frac_bits = 5; }
  fill(g, src);
  // ---- expected image of the destination block
  std::vector<uint8_t> img(dst.buf, dst.buf + dst.bytes);
  int64_t first = 0; bool diff = false, any = false; int o[4], sp[4] = {0, 0, 0, 0};
  for (int i = R; i < 4; i++) size[i] = 1;
  for (o[0] = 0; o[0] < size[0]; o[0]++) for (o[1] = 0; o[1] < size[1]; o[1]++) for (o[2] = 0; o[2] < size[2]; o[2]++) for (o[3] = 0; o[3] < size[3]; o[3]++) {
    bool in = true; int64_t w = 0;
    for (int i = 0; i < R; i++) {
      int p = perm[i]; int64_t x = (int64_t)o[i] * c.sub_sample_step[p] + c.offset[p] - c.padding_pre[p];
      if (x < 0 || x >= s.d[p]) in = false;
      sp[p] = (int)x; w += ((int64_t)o[i] + c.dst_offset[i]) * st[i];
    }
    int64_t v = in ? src.geto(src.off(sp)) : 0;
    if (!any) { first = v; any = true; } else if (v != first) diff = true;
    if (es == 1) img[w] = (uint8_t)v; else if (es == 2) { int16_t x = (int16_t)v; memcpy(&img[w * 2], &x, 2); } else { int32_t x = (int32_t)v; memcpy(&img[w * 4], &x, 4); }
  }
  std::string d; char b[200];
  for (int i = 0; i < R; i++) { snprintf(b, sizeof b, " d%d{off %u size %u sub %u perm %u pad %u/%u dst_off %u dst_stride cfg %d own %d}", i, c.offset[i], c.size[i], c.sub_sample_step[i], c.perm_dim[i], c.padding_pre[i], c.padding_post[i], c.dst_offset[i], c.dst_mem_stride[i], dst.t.mem_stride[i]); d += b; }
  g.note("move %s%s qdim %d mode %d", src.desc().c_str(), d.c_str(), qd, mode);
  mli_tensor ti = src.t; mli_mov_cfg_t c0 = c;
  world().snapshot();
  mli_status r = go(g, &src.t, &c, &dst.t);
  if (r != MLI_STATUS_OK) g.fail("status", "valid move returned status %d", (int)r);
  for (size_t i = 0; i < dst.bytes; i++) if (dst.buf[i] != img[i])
    g.fail(img[i] == [&] { for (auto& bl : world().blocks) if (bl.p == dst.buf) return bl.snap[i]; return (uint8_t)0; }() ? "gap-write" : "mismatch", "byte %zu (element %zu) of the destination memory is 0x%02x, expected 0x%02x", i, i / es, dst.buf[i], img[i]);
  world().check_frozen(g, "move"); expect_desc(g, src, ti, "move");
  if (memcmp(&c, &c0, sizeof c)) g.fail("modified-input", "configuration changed");
  auto& q = dst.t;
  if (q.rank != (unsigned)R || q.el_type != t || (uint8_t*)q.data.mem.pi8 != dst.buf || q.data.capacity != dst.bytes) g.fail("descriptor", "rank %u, type %d or data field of the destination", q.rank, q.el_type);
  for (int i = 0; i < R; i++) if (q.shape[i] != dsh[i] || q.mem_stride[i] != st[i]) g.fail("descriptor", "destination dimension %d: shape %u stride %d, expected %u %d", i, q.shape[i], q.mem_stride[i], dsh[i], st[i]);
  if (!asym) { if (q.el_params.fx.frac_bits != src.t.el_params.fx.frac_bits) g.fail("out-format", "frac bits %d", q.el_params.fx.frac_bits); }
  else if (qd < 0) { if (dp.dim >= 0 || dp.scale.mem.i16 != src.sc[0] || dp.zero_point.mem.i16 != src.zp[0] || dp.scale_frac_bits.mem.i8 != src.sfb[0]) g.fail("out-format", "per-tensor parameters differ"); }
  else {
    if (dp.dim != od) g.fail("out-format", "quantised axis %d, expected %d", dp.dim, od);
    auto& i = src.t.el_params.sa;
    if (mode != 2) { if (dp.scale.mem.pi16 != i.scale.mem.pi16 || dp.zero_point.mem.pi16 != i.zero_point.mem.pi16 || dp.scale_frac_bits.mem.pi8 != i.scale_frac_bits.mem.pi8 || dp.scale.capacity != i.scale.capacity || dp.zero_point.capacity != i.zero_point.capacity || dp.scale_frac_bits.capacity != i.scale_frac_bits.capacity) g.fail("out-format", "parameters do not refer to the source's"); }
    else for (size_t k = 0; k < cap; k++) if (dp.scale.mem.pi16[k] != wsc[k] || dp.zero_point.mem.pi16[k] != wzp[k] || dp.scale_frac_bits.mem.pi8[k] != wfr[k])
      g.fail("out-format", "parameters of index %zu: %d/2^%d zp %d, expected %d/2^%d zp %d", k, dp.scale.mem.pi16[k], dp.scale_frac_bits.mem.pi8[k], dp.zero_point.mem.pi16[k], wsc[k], wfr[k], wzp[k]);
  }
  if (on[0] + on[1] + on[2] + on[3] + on[4] + odd >= 2 && diff) g.nontrivial();
}
PBT_SUB("move", 30, move);

// configuration helpers fill every field
static void helpers(G& g) {
  int off[4], sz[4], sub[4], doff[4], ds[4]; uint8_t p[4], pd[4];
  for (int i = 0; i < 4; i++) { off[i] = (int)g.range(0, 2000000); sz[i] = (int)g.range(0, 2000000); sub[i] = (int)g.range(1, 70000); doff[i] = (int)g.range(0, 2000000); ds[i] = (int)g.range(0, 2000000); p[i] = (uint8_t)g.range(0, 3); pd[i] = (uint8_t)g.range(0, 255); }
  mli_mov_cfg_t c, w; memset(&c, 0xa5, sizeof c); memset(&w, 0, sizeof w);
  for (int i = 0; i < 4; i++) { w.sub_sample_step[i] = 1; w.perm_dim[i] = (uint8_t)i; }
  int k = (int)g.range(0, 7); mli_status st = MLI_STATUS_OK;
  auto all = [](auto& d, const auto& s) { for (int i = 0; i < 4; i++) d[i] = s[i]; };
  switch (k) {
    case 0: st = mli_mov_cfg_for_copy(&c); break;
    case 1: all(w.offset, off); all(w.size, sz); all(w.dst_mem_stride, ds); st = mli_mov_cfg_for_slice(&c, off, sz, ds); break;
    case 2: all(w.dst_offset, doff); all(w.dst_mem_stride, ds); st = mli_mov_cfg_for_concat(&c, doff, ds); break;
    case 3: all(w.sub_sample_step, sub); all(w.dst_mem_stride, ds); st = mli_mov_cfg_for_subsample(&c, sub, ds); break;
    case 4: all(w.perm_dim, p); st = mli_mov_cfg_for_permute(&c, p); break;
    case 5: all(w.dst_mem_stride, ds); w.padding_pre[2] = pd[0]; w.padding_post[2] = pd[1]; w.padding_pre[1] = pd[2]; w.padding_post[1] = pd[3]; st = mli_mov_cfg_for_padding2d_chw(&c, pd[0], pd[1], pd[2], pd[3], ds); break;
    case 6: all(w.dst_mem_stride, ds); w.padding_pre[1] = pd[0]; w.padding_post[1] = pd[1]; w.padding_pre[0] = pd[2]; w.padding_post[0] = pd[3]; st = mli_mov_cfg_for_padding2d_hwc(&c, pd[0], pd[1], pd[2], pd[3], ds); break;
    default: all(w.offset, off); all(w.size, sz); all(w.sub_sample_step, sub); all(w.dst_offset, doff); all(w.dst_mem_stride, ds); all(w.perm_dim, p);
      w.padding_pre[1] = pd[0]; w.padding_post[1] = pd[1]; w.padding_pre[0] = pd[2]; w.padding_post[0] = pd[3];
      st = mli_mov_cfg_all(&c, off, sz, sub, doff, ds, p, pd[0], pd[1], pd[2], pd[3]);
  }
  g.note("helper %d", k);
  if (st != MLI_STATUS_OK) g.fail("status", "helper %d returned %d", k, (int)st);
  for (int i = 0; i < 4; i++)
    if (c.offset[i] != w.offset[i] || c.size[i] != w.size[i] || c.sub_sample_step[i] != w.sub_sample_step[i] || c.dst_offset[i] != w.dst_offset[i] || c.dst_mem_stride[i] != w.dst_mem_stride[i] || c.perm_dim[i] != w.perm_dim[i] || c.padding_pre[i] != w.padding_pre[i] || c.padding_post[i] != w.padding_post[i])
      g.fail("helper", "helper %d fills dimension %d with off %u size %u sub %u dst_off %u stride %d perm %u pad %u/%u", k, i, c.offset[i], c.size[i], c.sub_sample_step[i], c.dst_offset[i], c.dst_mem_stride[i], c.perm_dim[i], c.padding_pre[i], c.padding_post[i]);
  if (k) g.nontrivial();
}
PBT_SUB("cfg_helpers", 2, helpers);
