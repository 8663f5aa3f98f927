// Tensors for the generated cases: arena with byte-exact poisoning, generators, snapshots.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include <cmath>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include "mli_api.h"
#include "pbt.h"
#include "fx.h"

namespace vt {
using pbt::G;

// ------------------------------------------------------------------ arena
// One mapping; each block is byte-exact (everything between blocks is poisoned for AddressSanitizer) and
// is registered so that unexpected writes can be detected afterwards.
struct Arena {
  uint8_t* base = nullptr;
  size_t size = 64u << 20, top = 0, high = 0;
  void init() {
    if (base) return;
    void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
    if (p == MAP_FAILED) { perror("arena"); _exit(98); }
    base = (uint8_t*)p;
    ASAN_POISON_MEMORY_REGION(base, size);
  }
  void reset() {
    init();
    if (top) ASAN_POISON_MEMORY_REGION(base, top);
    top = 0;
  }
  uint8_t* alloc(size_t n) {
    size_t s = (top + 63) & ~(size_t)31;  // at least 32 poisoned bytes in front, 32-byte aligned
    if (s + n + 64 > size) { fprintf(stderr, "arena exhausted\n"); _exit(98); }
    top = s + n + 32;
    ASAN_UNPOISON_MEMORY_REGION(base + s, n);
    return base + s;
  }
};
inline Arena& arena() { static Arena a; return a; }

struct Block { uint8_t* p; size_t n; std::vector<uint8_t> snap; bool frozen; const char* name; };
struct World {
  std::vector<Block> blocks;
  void reset();
  uint8_t* alloc(size_t n, const char* name, bool frozen) {
    uint8_t* p = arena().alloc(n ? n : 1);
    blocks.push_back({p, n, {}, frozen, name});
    return p;
  }
  void snapshot() { for (auto& b : blocks) b.snap.assign(b.p, b.p + b.n); }
  // every frozen block must be as it was at snapshot()
  void check_frozen(G& g, const char* what) {
    for (auto& b : blocks)
      if (b.frozen && memcmp(b.snap.data(), b.p, b.n) != 0) {
        size_t i = 0;
        while (b.snap[i] == b.p[i]) i++;
        g.fail("modified-input", "%s: read-only memory of '%s' changed at byte %zu (0x%02x -> 0x%02x)", what, b.name, i, b.snap[i], b.p[i]);
      }
  }
  void unfreeze(const uint8_t* p) { for (auto& b : blocks) if (b.p == p) b.frozen = false; }
};
inline int32_t& pt_dim();
inline void World::reset() { blocks.clear(); arena().reset(); pt_dim() = -1; }
inline World& world() { static World w; return w; }

inline int el_size(mli_element_type t) {
  switch (t) {
    case MLI_EL_FX_16: case MLI_EL_FP_16: return 2;
    case MLI_EL_SA_32: case MLI_EL_FP_32: return 4;
    default: return 1;
  }
}
inline int el_bits(mli_element_type t) { return 8 * el_size(t); }
inline const char* el_name(mli_element_type t) {
  switch (t) {
    case MLI_EL_FX_8: return "fx8"; case MLI_EL_FX_16: return "fx16"; case MLI_EL_SA_8: return "sa8";
    case MLI_EL_SA_32: return "sa32"; case MLI_EL_FP_32: return "fp32"; default: return "?";
  }
}

// ------------------------------------------------------------------ tensor
struct TT {
  mli_tensor t;
  uint8_t* buf = nullptr;   // first byte of the block
  size_t bytes = 0;         // size of the block
  const char* name = "";
  std::vector<int16_t> sc, zp;  // quantisation parameters as used by the models (size 1 if per tensor)
  std::vector<int8_t> sfb;

  int rank() const { return (int)t.rank; }
  int dim(int i) const { return (int)t.shape[i]; }
  size_t count() const { size_t n = 1; for (unsigned i = 0; i < t.rank; i++) n *= t.shape[i]; return n; }
  int64_t off(const int* idx) const { int64_t o = 0; for (unsigned i = 0; i < t.rank; i++) o += (int64_t)idx[i] * t.mem_stride[i]; return o; }
  uint8_t* data() const { return (uint8_t*)t.data.mem.pi8; }
  int64_t geto(int64_t o) const {
    switch (el_size(t.el_type)) {
      case 1: return ((int8_t*)data())[o];
      case 2: { int16_t v; memcpy(&v, data() + o * 2, 2); return v; }
      default: { int32_t v; memcpy(&v, data() + o * 4, 4); return v; }
    }
  }
  void seto(int64_t o, int64_t v) {
    switch (el_size(t.el_type)) {
      case 1: ((int8_t*)data())[o] = (int8_t)v; break;
      case 2: { int16_t x = (int16_t)v; memcpy(data() + o * 2, &x, 2); break; }
      default: { int32_t x = (int32_t)v; memcpy(data() + o * 4, &x, 4); break; }
    }
  }
  int64_t at(int a) const { int i[4] = {a, 0, 0, 0}; return geto(off(i)); }
  int64_t at(int a, int b) const { int i[4] = {a, b, 0, 0}; return geto(off(i)); }
  int64_t at(int a, int b, int c) const { int i[4] = {a, b, c, 0}; return geto(off(i)); }
  int64_t at(int a, int b, int c, int d) const { int i[4] = {a, b, c, d}; return geto(off(i)); }
  // logical (row-major) view
  std::vector<int64_t> values() const {
    std::vector<int64_t> v; v.reserve(count());
    each([&](const int* i) { v.push_back(geto(off(i))); });
    return v;
  }
  void set_values(const std::vector<int64_t>& v) {
    size_t k = 0;
    each([&](const int* i) { seto(off(i), v[k++]); });
  }
  template <class F> void each(F f) const {
    int idx[4] = {0, 0, 0, 0};
    if (count() == 0) return;
    int r = rank();
    while (true) {
      f((const int*)idx);
      int d = r - 1;
      while (d >= 0 && ++idx[d] == (int)t.shape[d]) { idx[d] = 0; d--; }
      if (d < 0) break;
    }
  }
  std::string desc() const {
    char b[256]; std::string s;
    snprintf(b, sizeof b, "%s %s[", name, el_name(t.el_type)); s = b;
    for (unsigned i = 0; i < t.rank; i++) { snprintf(b, sizeof b, "%s%u", i ? "," : "", t.shape[i]); s += b; }
    s += "] strides(";
    for (unsigned i = 0; i < t.rank; i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", t.mem_stride[i]); s += b; }
    s += ")";
    if (t.el_type == MLI_EL_FX_8 || t.el_type == MLI_EL_FX_16) { snprintf(b, sizeof b, " frac=%d", t.el_params.fx.frac_bits); s += b; }
    if (t.el_type == MLI_EL_SA_8 || t.el_type == MLI_EL_SA_32) {
      snprintf(b, sizeof b, " qdim=%d", t.el_params.sa.dim); s += b;
      for (size_t i = 0; i < sc.size() && i < 4; i++) { snprintf(b, sizeof b, " s=%d/2^%d z=%d", sc[i], sfb[i], zp[i]); s += b; }
    }
    size_t n = count();
    if (n <= 24 && buf) { s += " data{"; for (auto v : values()) { snprintf(b, sizeof b, "%lld ", (long long)v); s += b; } s += "}"; }
    return s;
  }
};

struct Shape { int rank; int d[4]; };
inline Shape shape(std::initializer_list<int> l) { Shape s; s.rank = 0; for (int x : l) s.d[s.rank++] = x; for (int i = s.rank; i < 4; i++) s.d[i] = 0; return s; }

enum StrideMode { DENSE = 0, PADDED = 1, RANDOM_INNER = 2 };
// Legal strides: innermost 1 (or larger in RANDOM_INNER), each outer one at least shape*stride of the next.
inline void gen_strides(G& g, const Shape& s, int mode, int32_t* st) {
  int64_t need = 1;
  for (int i = s.rank - 1; i >= 0; i--) {
    int64_t extra = 0;
    if (mode == RANDOM_INNER || (mode == PADDED && i != s.rank - 1)) extra = g.chance(50) ? g.range(1, 5) : 0;
    st[i] = (int32_t)(need + extra);
    need = (int64_t)st[i] * s.d[i];
  }
  for (int i = s.rank; i < 4; i++) st[i] = 0;
}
inline int pick_mode(G& g, bool inner_ok = false) {
  size_t w = g.weighted({50, 40, 10});
  return w == 0 ? DENSE : (w == 1 || !inner_ok) ? PADDED : RANDOM_INNER;
}

// fills with 0xA5-like pattern, no meaning
inline void scribble(uint8_t* p, size_t n, uint64_t seed) {
  pbt::Rng r(seed ^ 0x5bd1e995);
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); }
  uint64_t v = r.next();
  for (; i < n; i++, v >>= 8) p[i] = (uint8_t)v;
}

// tensor over newly allocated memory. slack: extra bytes of capacity behind the last element
inline TT make(G& g, const char* name, mli_element_type type, const Shape& s, int mode, bool frozen, bool slack_ok = false) {
  TT x;
  memset(&x.t, 0, sizeof x.t);
  x.name = name;
  x.t.el_type = type;
  x.t.rank = (uint32_t)s.rank;
  for (int i = 0; i < 4; i++) x.t.shape[i] = i < s.rank ? (uint32_t)s.d[i] : 0;
  gen_strides(g, s, mode, x.t.mem_stride);
  size_t ext = 1;
  for (int i = 0; i < s.rank; i++) ext += (size_t)(s.d[i] - 1) * x.t.mem_stride[i];
  size_t slack = slack_ok && g.chance(30) ? (size_t)g.range(0, 9) : 0;
  x.bytes = ext * el_size(type) + slack;
  x.buf = world().alloc(x.bytes, name, frozen);
  x.t.data.mem.pi8 = (int8_t*)x.buf;
  x.t.data.capacity = (uint32_t)x.bytes;
  scribble(x.buf, x.bytes, 0x1234 + x.bytes);
  if (type == MLI_EL_SA_8 || type == MLI_EL_SA_32) {
    x.t.el_params.sa.dim = -1;
    x.t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16;
    x.t.el_params.sa.scale.mem.i16 = 1;
    x.sc = {1}; x.zp = {0}; x.sfb = {0};
  }
  return x;
}

// ------------------------------------------------------------------ data
// Data patterns. One tape entry for the pattern, one for its seed.
inline void fill(G& g, TT& x, bool symmetric_max = false) {
  int bits = el_bits(x.t.el_type);
  int64_t mx = (int64_t)fx::vmax(bits), mn = (int64_t)fx::vmin(bits);
  if (symmetric_max) mn = -mx;
  size_t pat = g.weighted({2, 30, 20, 12, 10, 8, 8, 10});
  pbt::Rng r(g.seed());
  int64_t zp = 0;
  if (x.t.el_type == MLI_EL_SA_8 && x.t.el_params.sa.dim < 0) zp = x.zp.empty() ? 0 : x.zp[0];
  int64_t c = 0;
  if (pat == 6) c = mn + (int64_t)(r.next() % (uint64_t)(mx - mn + 1));
  auto rnd = [&](int64_t lo, int64_t hi) { return lo + (int64_t)(r.next() % (uint64_t)(hi - lo + 1)); };
  x.each([&](const int* i) {
    int64_t v = 0;
    switch (pat) {
      case 0: v = zp; break;                                        // all "zero"
      case 1: v = rnd(mn, mx); break;                               // full range
      case 2: v = zp + rnd(-(mx >> (bits / 2)), mx >> (bits / 2)); break;  // small around zero
      case 3: v = (r.next() & 1) ? mx : mn; break;                  // extremes
      case 4: v = (r.next() & 3) ? zp : rnd(mn, mx); break;         // sparse
      case 5: v = (r.next() & 3) ? rnd(mn, mx) : ((r.next() & 1) ? mx : mn); break;
      case 6: v = c; break;                                         // constant
      case 7: { int sh = (int)(r.next() % (unsigned)bits); v = rnd(mn, mx) >> sh; break; }  // log-uniform
    }
    v = v > mx ? mx : v < mn ? mn : v;
    x.seto(x.off(i), v);
  });
}

// ------------------------------------------------------------------ quantisation parameters
inline void set_frac(TT& x, int f) { x.t.el_params.fx.frac_bits = (int8_t)f; }
inline int32_t& pt_dim() { static int32_t d = -1; return d; }  // any negative index means per-tensor quantisation
inline void set_sa(TT& x, int scale, int frac, int zp) {
  auto& p = x.t.el_params.sa;
  p.type = MLI_EL_PARAM_SC16_ZP16; p.dim = pt_dim();
  p.scale.capacity = p.zero_point.capacity = p.scale_frac_bits.capacity = 0;
  p.scale.mem.i16 = (int16_t)scale; p.zero_point.mem.i16 = (int16_t)zp; p.scale_frac_bits.mem.i8 = (int8_t)frac;
  x.sc = {(int16_t)scale}; x.zp = {(int16_t)zp}; x.sfb = {(int8_t)frac};
}
// per-axis parameters in their own frozen blocks
inline void set_sa_axis(TT& x, int dim, const std::vector<int16_t>& sc, const std::vector<int8_t>& fr, const std::vector<int16_t>& zp) {
  auto& p = x.t.el_params.sa;
  size_t n = sc.size();
  p.type = MLI_EL_PARAM_SC16_ZP16; p.dim = dim;
  p.scale.mem.pi16 = (int16_t*)world().alloc(n * 2, "scales", true);
  p.zero_point.mem.pi16 = (int16_t*)world().alloc(n * 2, "zero points", true);
  p.scale_frac_bits.mem.pi8 = (int8_t*)world().alloc(n, "scale frac bits", true);
  memcpy(p.scale.mem.pi16, sc.data(), n * 2);
  memcpy(p.zero_point.mem.pi16, zp.data(), n * 2);
  memcpy(p.scale_frac_bits.mem.pi8, fr.data(), n);
  p.scale.capacity = p.zero_point.capacity = (uint32_t)(n * 2);
  p.scale_frac_bits.capacity = (uint32_t)n;
  x.sc = sc; x.zp = zp; x.sfb = fr;
}
// a positive 16 bit scale: usually normalised (>= 2^14), sometimes small
inline int gen_scale(G& g) {
  size_t w = g.weighted({60, 25, 15});
  if (w == 0) return (int)g.range(16384, 32767);
  if (w == 1) return (int)g.range(1, 32767);
  return (int)g.pick<int>({1, 2, 3, 21, 127, 128, 16384, 32767});
}
inline int gen_zp8(G& g) { pt_dim() = g.chance(3) ? (int32_t)g.range(-9, -2) : -1; return g.chance(25) ? 0 : (int)g.around(-128, 127, 0); }

// ------------------------------------------------------------------ comparison
// out must hold exactly `want` (row-major) in its elements, and every other byte of its block must be unchanged.
inline void expect_values(G& g, const TT& out, const std::vector<int64_t>& want, const char* what) {
  size_t k = 0;
  out.each([&](const int* i) {
    int64_t got = out.geto(out.off(i));
    if (got != want[k])
      g.fail("mismatch", "%s: element [%d,%d,%d,%d] of %s is %lld, expected %lld", what, i[0], i[1], i[2], i[3], out.desc().c_str(), (long long)got, (long long)want[k]);
    k++;
  });
}
inline void expect_gaps(G& g, const TT& out, const char* what) {
  for (auto& b : world().blocks) {
    if (b.p != out.buf) continue;
    std::vector<uint8_t> now(b.p, b.p + b.n);
    int es = el_size(out.t.el_type);
    int64_t base = out.data() - b.p;
    std::vector<uint8_t> mask(b.n, 0);
    out.each([&](const int* i) { int64_t o = base + out.off(i) * es; for (int k = 0; k < es; k++) mask[o + k] = 1; });
    for (size_t i = 0; i < b.n; i++)
      if (!mask[i] && now[i] != b.snap[i])
        g.fail("gap-write", "%s: byte %zu of the output buffer lies outside the addressed elements but changed 0x%02x -> 0x%02x (%s)", what, i, b.snap[i], now[i], out.desc().c_str());
  }
}
inline bool same_tensor_struct(const mli_tensor& a, const mli_tensor& b, bool params = true) {
  if (a.data.mem.pi8 != b.data.mem.pi8 || a.data.capacity != b.data.capacity || a.rank != b.rank || a.el_type != b.el_type) return false;
  for (unsigned i = 0; i < a.rank; i++) if (a.shape[i] != b.shape[i] || a.mem_stride[i] != b.mem_stride[i]) return false;
  if (!params) return true;
  if (a.el_type == MLI_EL_FX_8 || a.el_type == MLI_EL_FX_16) return a.el_params.fx.frac_bits == b.el_params.fx.frac_bits;
  if (a.el_type == MLI_EL_SA_8 || a.el_type == MLI_EL_SA_32) {
    auto &p = a.el_params.sa, &q = b.el_params.sa;
    if (p.dim != q.dim) return false;
    if (p.dim < 0) return p.scale.mem.i16 == q.scale.mem.i16 && p.zero_point.mem.i16 == q.zero_point.mem.i16 && p.scale_frac_bits.mem.i8 == q.scale_frac_bits.mem.i8;
    return p.scale.mem.pi16 == q.scale.mem.pi16 && p.zero_point.mem.pi16 == q.zero_point.mem.pi16 && p.scale_frac_bits.mem.pi8 == q.scale_frac_bits.mem.pi8;
  }
  return true;
}
inline void expect_desc(G& g, const TT& x, const mli_tensor& before, const char* what, bool params = true) {
  if (!same_tensor_struct(x.t, before, params)) g.fail("descriptor", "%s: descriptor of '%s' changed: now %s", what, x.name, x.desc().c_str());
}

inline const char* relu_name(mli_relu_type t) { return t == MLI_RELU_NONE ? "none" : t == MLI_RELU_GEN ? "gen" : t == MLI_RELU_1 ? "1" : "6"; }
struct Lim { int64_t lo, hi; };
// limits of the fused ReLU in the output format: truncating division as documented, clipped to the container
inline Lim relu_limits(mli_relu_type type, const TT& out) {
  int bits = el_bits(out.t.el_type);
  bool asym = out.t.el_type == MLI_EL_SA_8 || out.t.el_type == MLI_EL_SA_32;
  fx::i128 mn = fx::vmin(bits), mx = fx::vmax(bits);
  int64_t zp = asym ? out.zp[0] : 0, sc = asym ? out.sc[0] : 1;
  int sh = asym ? out.sfb[0] : out.t.el_params.fx.frac_bits;
  auto quant = [&](int v) -> fx::i128 {
    fx::i128 q = sh >= 0 ? ((fx::i128)v << std::min(sh, 100)) : (-sh > 100 ? 0 : (fx::i128)v >> -sh);
    return q / sc;
  };
  fx::i128 lo = mn, hi = mx;
  if (type == MLI_RELU_GEN) lo = std::max<fx::i128>(zp, mn);
  if (type == MLI_RELU_6) { lo = std::max<fx::i128>(zp, mn); hi = std::min<fx::i128>(quant(6) + zp, mx); }
  if (type == MLI_RELU_1) { lo = std::max<fx::i128>(-quant(1) + zp, mn); hi = std::min<fx::i128>(quant(1) + zp, mx); }
  return {(int64_t)lo, (int64_t)hi};
}
inline mli_relu_type gen_relu(G& g) { return g.pick<mli_relu_type>({MLI_RELU_NONE, MLI_RELU_NONE, MLI_RELU_GEN, MLI_RELU_1, MLI_RELU_6}); }
}  // namespace vt
