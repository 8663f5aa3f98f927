// Look-up-table activation: tables are created by the library, evaluation is modelled here.
#pragma once
#include "mlit.h"
namespace vt {
struct Lut { mli_lut l; std::vector<int16_t> d; };
typedef mli_status (*LutCreate)(mli_lut*);
typedef int32_t (*LutSize)();
// creates the table in a block of exactly the announced size
inline Lut make_lut(G& g, const char* name, LutSize size, LutCreate create) {
  Lut r; memset(&r.l, 0, sizeof r.l);
  int32_t n = size();
  if (n <= 0 || n % 2) g.fail("lut-size", "%s: announced size %d", name, n);
  r.l.data.capacity = (uint32_t)n;
  r.l.data.mem.pi16 = (int16_t*)world().alloc((size_t)n, name, false);
  int16_t* p = r.l.data.mem.pi16;
  mli_status st = create(&r.l);
  if (st != MLI_STATUS_OK) g.fail("lut-create", "%s: status %d", name, (int)st);
  if (r.l.data.mem.pi16 != p || r.l.data.capacity != (uint32_t)n) g.fail("lut-create", "%s: data field changed", name);
  if (r.l.length * 2 != n) g.fail("lut-create", "%s: length %d, size %d", name, r.l.length, n);
  r.d.assign(p, p + n / 2);
  for (auto& b : world().blocks) if (b.p == (uint8_t*)p) b.frozen = true;
  return r;
}
// x: integer argument with `frac` fractional bits; result in the table's 16-bit format
inline int64_t lut_eval(const Lut& t, int64_t x, int frac) {
  int sh = frac - t.l.in_frac_bits;
  if (sh > 0) {
    int pre = std::min(std::max(sh - 15, 0), 15);
    sh = std::min(sh, 15);
    x >>= pre;
    int64_t idx = std::min<int64_t>(std::max<int64_t>((x >> sh) + t.l.input_offset, 0), t.l.length - 2);
    int64_t f = x & ((1 << sh) - 1);
    int64_t a = t.d[idx], b = t.d[idx + 1];
    return (int16_t)(a - fx::cast((int64_t)(int16_t)(a - b) * f, sh, 32, 16));
  }
  int64_t idx = (int64_t)fx::shl(x, -sh, 32) + t.l.input_offset;
  return t.d[std::min<int64_t>(std::max<int64_t>(idx, 0), t.l.length - 1)];
}
// element-wise activation on an fx element / an sa8 element
inline int64_t lut_fx(const Lut& t, int64_t x, int frac, int bits) { return fx::cast(lut_eval(t, x, frac), 16 - bits, 16, bits); }
inline int64_t lut_sa(const Lut& t, int64_t x, int zp, int scale, int sfrac, int out_zp, int out_sfrac) {
  int frac = t.l.in_frac_bits + 8;
  int64_t in = fx::cast((x - zp) * scale, sfrac - frac, 32, 32);
  int64_t r = lut_eval(t, in, frac);
  return (int64_t)fx::sat(fx::shr_rnd(r, t.l.out_frac_bits - out_sfrac, 32) + out_zp, 8);
}
}  // namespace vt
