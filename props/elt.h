// Reference model of the element-wise kernels.
#pragma once
#include "mlit.h"
namespace vt {
enum EltOp { ADD = 0, SUB = 1, MUL = 2, MIN_ = 3, MAX_ = 4 };
inline const char* elt_name(int op) { static const char* n[] = {"add", "sub", "mul", "min", "max"}; return n[op]; }
// any shape of rank 1..4, usually small
inline Shape gen_shape(G& g) {
  int r = (int)g.range(1, 4); Shape s; s.rank = r;
  int left = g.chance(5) ? 3000 : 200;
  for (int i = 0; i < 4; i++) { s.d[i] = 0; if (i < r) { s.d[i] = (int)g.small(1, std::max(1, std::min(left, g.chance(10) ? 64 : 9))); left /= s.d[i]; } }
  return s;
}
// scalar of rank 0, value in the descriptor
inline TT scalar(G& g, const char* name, mli_element_type t) {
  TT x; memset(&x.t, 0, sizeof x.t); x.name = name; x.t.el_type = t; x.t.rank = 0;
  int64_t v = g.around((int64_t)fx::vmin(el_bits(t)), (int64_t)fx::vmax(el_bits(t)), 0);
  if (el_size(t) == 1) x.t.data.mem.i8 = (int8_t)v; else x.t.data.mem.i16 = (int16_t)v;
  if (t == MLI_EL_SA_8) set_sa(x, 1, 0, 0);
  return x;
}
inline int64_t val0(const TT& x) { return el_size(x.t.el_type) == 1 ? x.t.data.mem.i8 : x.t.data.mem.i16; }

struct Fmt { int scale = 1, frac = 0, zp = 0; };

inline int64_t elt_fx(int op, int bits, int64_t a, int fa, int64_t b, int fb, int fo) {
  switch (op) {
    case ADD: case SUB: {
      fx::i128 x = fx::shr_rnd(a, std::min(fa - fb, 0), 32), y = fx::shr_rnd(b, std::min(fb - fa, 0), 32);
      fx::i128 acc = fx::sat(op == ADD ? x + y : x - y, 32);
      return fx::cast(acc, std::min(std::max(fa, fb) - fo, 31), 64, bits);
    }
    case MUL: return fx::cast((fx::i128)a * b, std::min(fa + fb - fo, 2 * bits - 1), 64, bits);
    default: return fx::cast(op == MIN_ ? std::min(a, b) : std::max(a, b), std::min(fa - fo, bits - 1), bits, bits);
  }
}
// 32-bit value normalised to W bits; shift such that v ~ result * 2^shift
inline int64_t norm_cast(int64_t v, int W, int* shift) { int n = fx::norm(v, 32); *shift = 32 - W - n; return fx::cast(v, *shift, 32, W); }
inline void sa_cap(int64_t& s16, int& shift, int cap) {
  int d = std::max(shift - cap, 0) + std::min(31 + shift, 0);
  s16 = (int64_t)fx::shr_rnd(s16, d, 16);
  shift -= d;
}
struct EltSa { int64_t s1 = 1, s2 = 1; int sh1 = 0, sh2 = 0, post = 0; bool capped = false; };
inline EltSa elt_sa_params(int op, const Fmt& a, const Fmt& b, const Fmt& o) {
  EltSa p; int t;
  if (op == ADD || op == SUB) {
    int64_t f1 = norm_cast(a.scale, 32, &t) / o.scale; p.sh1 = t == 0 ? 0 : t;
    p.sh1 = -t + a.frac - o.frac; p.s1 = norm_cast(f1, 16, &t); p.sh1 -= t;
    int64_t f2 = norm_cast(b.scale, 32, &t) / o.scale;
    p.sh2 = -t + b.frac - o.frac; p.s2 = norm_cast(f2, 16, &t); p.sh2 -= t;
    int u1 = p.sh1, u2 = p.sh2;
    sa_cap(p.s1, p.sh1, 23); sa_cap(p.s2, p.sh2, 23);
    p.capped = u1 != p.sh1 || u2 != p.sh2;
  } else {
    int64_t f = op == MUL ? (int64_t)a.scale * b.scale : a.scale;
    int frac = op == MUL ? a.frac + b.frac : a.frac;
    f = norm_cast(f, 32, &t) / o.scale; p.post = frac - o.frac - t;
    p.s1 = norm_cast(f, 16, &t); p.post -= t;
    int u = p.post;
    sa_cap(p.s1, p.post, op == MUL ? 31 : 23);
    p.s2 = p.s1; p.capped = u != p.post;
  }
  return p;
}
inline int64_t elt_sa(int op, const EltSa& p, int64_t a, const Fmt& fa, int64_t b, const Fmt& fb, const Fmt& fo) {
  int64_t x = a - fa.zp, y = b - fb.zp, t16;  // within 9 bits
  switch (op) {
    case ADD: case SUB: {
      fx::i128 u = fx::shr_rnd(x * p.s1, p.sh1, 32), v = fx::shr_rnd(y * p.s2, p.sh2, 32);
      t16 = (int64_t)fx::sat(fx::sat(op == ADD ? u + v : u - v, 32), 16);
      break;
    }
    case MUL: {
      int pre = std::min(std::max(p.post - 21, 0), 3);
      int64_t acc = fx::cast(x * y, pre, 32, 16);
      t16 = fx::cast(acc * p.s1, p.post - pre, 32, 16);
      break;
    }
    default: t16 = fx::cast(op == MIN_ ? std::min(x * p.s1, y * p.s2) : std::max(x * p.s1, y * p.s2), p.post, 32, 16);
  }
  return (int64_t)fx::sat(fx::sat(t16 + fo.zp, 16), 8);
}
inline double elt_real(int op, double x, double y) {
  switch (op) { case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; case MIN_: return std::min(x, y); default: return std::max(x, y); }
}
}  // namespace vt
