// MLI 3.0 (compile-time object -> private data -> run-time object) harness shared by C21-C27.
#pragma once
#include <tuple>
#include "mlit.h"
#include "mli_types.hpp"
#include "mli_iterator.hpp"
#include "mli_kernels_factory_ref.hpp"
#include "mli_ref_compiler_api.hpp"
#include "mli_ref_runtime_api.hpp"
#include "mli_ref_private_types.hpp"
#include "mli_runtime_api.hpp"
#include "mli_helpers_api.hpp"
#include "mli_service_functions.hpp"

namespace m3 {
using pbt::G;
namespace mli = snps_arc::metaware::mli;
namespace ref = snps_arc::metaware::mli::ref;
using mli::NoBuffer; using mli::Buffer; using mli::OffsetBuffer; using mli::Tensor; using mli::TensorIterator;
using mli::IteratorCfg; using mli::ExecutionInterface;
using vt::world;

// ------------------------------------------------------------------ logical (global) arrays
struct Arr {
  std::vector<int> d;
  std::vector<int64_t> v;
  Arr() {}
  explicit Arr(std::vector<int> dims, int64_t fill = 0) : d(dims) { size_t n = 1; for (int x : d) n *= x; v.assign(n, fill); }
  size_t idx(const int* i) const { size_t o = 0; for (size_t k = 0; k < d.size(); k++) o = o * d[k] + i[k]; return o; }
  int64_t at(std::initializer_list<int> i) const { return v[idx(i.begin())]; }
  int64_t& at(std::initializer_list<int> i) { return v[idx(i.begin())]; }
  std::string str() const { std::string s = "["; for (int x : d) s += std::to_string(x) + " "; s += "] {"; for (size_t k = 0; k < v.size() && k < 200; k++) s += std::to_string(v[k]) + " "; return s + "}"; }
};
template <class F> void each(const std::vector<int>& d, F f) {
  std::vector<int> i(d.size(), 0);
  for (int x : d) if (x <= 0) return;
  while (true) {
    f(i.data());
    int k = (int)d.size() - 1;
    while (k >= 0 && ++i[k] == d[k]) i[k--] = 0;
    if (k < 0) return;
  }
}
inline int64_t gen_val(G& g, int es) {
  int64_t lo = es == 1 ? -128 : es == 2 ? -32768 : INT32_MIN, hi = -lo - 1;
  if (es == 4 && g.chance(60)) { lo = -100000; hi = 100000; }
  if (g.chance(15)) return g.pick<int64_t>({lo, hi, 0, -1, 1, lo + 1});
  return g.range(lo, hi);
}
inline Arr gen_arr(G& g, std::vector<int> d, int es) {
  Arr a(d);
  int mode = (int)g.weighted({10, 2, 2, 2});
  for (auto& x : a.v) {
    int64_t lo = es == 1 ? -128 : es == 2 ? -32768 : INT32_MIN, hi = -lo - 1;
    x = mode == 0 ? gen_val(g, es) : mode == 1 ? (g.draw(2) ? lo : hi) : mode == 2 ? g.range(-3, 3) : (g.draw(2) ? hi : hi - (int)g.draw(4));
  }
  return a;
}

// ------------------------------------------------------------------ memory banks
struct Banks {
  std::vector<uint64_t> b;
  bool odd = false;
  void gen(G& g) {
    int n = (int)g.range(1, 4);
    uint64_t a0 = (uint64_t)vt::arena().base;
    for (int i = 0; i < n; i++) {
      int m = (int)g.weighted({4, 2, 2, 1});
      b.push_back(m == 0 ? a0 : m == 1 ? a0 - 32 * (1 + g.draw(1000)) : m == 2 ? a0 - 1 - g.draw(5000) : 0);
    }
  }
  OffsetBuffer ob(G& g, const void* p, size_t bytes, int es) {
    unsigned k = (unsigned)g.draw(b.size());
    return OffsetBuffer((uint32_t)((uint64_t)p - b[k]), k, (uint32_t)bytes, (uint32_t)es);
  }
};

// ------------------------------------------------------------------ one operand in (tile) memory
template <unsigned R> struct Opnd {
  const char* name = "";
  int es = 1;
  uint32_t dims[R];     // full tensor
  uint32_t tmax[R];     // biggest tile
  int32_t str[R];       // memory strides of the tile buffer (elements)
  uint8_t* buf = nullptr;
  size_t elems = 0, bytes = 0;
  int64_t lead = 0;     // elements before the first one (offset of the tensor in its buffer)
  std::vector<uint8_t> snap;

  // strides: dense for the biggest tile, dense for the full tensor, or padded.
  void layout(G& g, const uint32_t* shape_for_strides, bool inner1 = false, bool allow_pad = true) {
    int64_t s = 1;
    int pm = allow_pad ? (int)g.weighted({3, 2, inner1 ? 0 : 1}) : 0;
    if (pm == 2) s = g.range(1, 3);
    for (int i = (int)R - 1; i >= 0; i--) {
      str[i] = (int32_t)s;
      s *= shape_for_strides[i] ? shape_for_strides[i] : 1;
      if (pm == 1 || pm == 2) s += g.weighted({3, 2}) ? (int64_t)g.draw(4) : 0;
    }
    if (pm) g.label("padded-strides");
  }
  void alloc(bool frozen) {
    elems = 1 + lead;
    for (unsigned i = 0; i < R; i++) elems += (size_t)str[i] * (tmax[i] ? tmax[i] - 1 : 0);
    bytes = elems * es;
    buf = world().alloc(bytes, name, frozen);
  }
  int64_t off(const int* i) const { int64_t o = lead; for (unsigned k = 0; k < R; k++) o += (int64_t)i[k] * str[k]; return o; }
  int64_t get(int64_t o) const {
    if (o < 0 || (size_t)o >= elems) return INT64_MIN;
    if (es == 1) return ((int8_t*)buf)[o];
    if (es == 2) { int16_t x; memcpy(&x, buf + 2 * o, 2); return x; }
    int32_t x; memcpy(&x, buf + 4 * o, 4); return x;
  }
  void put(int64_t o, int64_t v) {
    if (es == 1) ((int8_t*)buf)[o] = (int8_t)v;
    else if (es == 2) { int16_t x = (int16_t)v; memcpy(buf + 2 * o, &x, 2); }
    else { int32_t x = (int32_t)v; memcpy(buf + 4 * o, &x, 4); }
  }
  void scramble(G& g) { for (size_t i = 0; i < bytes; i++) buf[i] = (uint8_t)(0x5a + 37 * i); (void)g; }
  // sub-box [pos, pos+size) of the global array into the tile buffer
  void load(G& g, const Arr& a, const int32_t* pos, const uint32_t* size) {
    scramble(g);
    std::vector<int> n;
    for (unsigned k = 0; k < R; k++) {
      if (pos[k] < 0 || (int64_t)pos[k] + size[k] > a.d[k] || size[k] == 0)
        g.fail("tile-box", "%s: tile at %d size %u in dimension %u does not lie inside the tensor (size %d)", name, pos[k], size[k], k, a.d[k]);
      if (size[k] > tmax[k]) g.fail("tile-buffer", "%s: tile size %u in dimension %u exceeds the sizes announced by the iterator (%u)", name, size[k], k, tmax[k]);
      n.push_back((int)size[k]);
    }
    std::vector<int> gi(R);
    each(n, [&](const int* i) { for (unsigned k = 0; k < R; k++) gi[k] = i[k] + pos[k]; put(off(i), a.v[a.idx(gi.data())]); });
  }
  void load_all(G& g, const Arr& a) { int32_t p[R]; for (auto& x : p) x = 0; load(g, a, p, dims); }
  void load_all_or(G& g, const Arr& a, bool tile_buffer) { if (!tile_buffer) load_all(g, a); }
  void before(G& g) { for (size_t i = 0; i < bytes; i++) buf[i] = (uint8_t)g.draw(256); snap.assign(buf, buf + bytes); }
  // copies the tile out; `seen` counts writes per global element
  void store(G& g, Arr& a, std::vector<uint8_t>& seen, const int32_t* pos, const uint32_t* size) {
    std::vector<int> n;
    std::vector<uint8_t> wr(elems, 0);
    for (unsigned k = 0; k < R; k++) {
      if (pos[k] < 0 || (int64_t)pos[k] + size[k] > a.d[k] || size[k] == 0)
        g.fail("tile-box", "%s: tile at %d size %u in dimension %u does not lie inside the tensor (size %d)", name, pos[k], size[k], k, a.d[k]);
      if (size[k] > tmax[k]) g.fail("tile-buffer", "%s: tile size %u in dimension %u exceeds the sizes announced by the iterator (%u)", name, size[k], k, tmax[k]);
      n.push_back((int)size[k]);
    }
    std::vector<int> gi(R);
    each(n, [&](const int* i) {
      for (unsigned k = 0; k < R; k++) gi[k] = i[k] + pos[k];
      size_t x = a.idx(gi.data());
      a.v[x] = get(off(i));
      if (seen[x] < 255) seen[x]++;
      wr[off(i)] = 1;
    });
    for (size_t e = 0; e < elems; e++)
      if (!wr[e] && memcmp(buf + e * es, &snap[e * es], es) != 0)
        g.fail("wrote-gap", "%s: element offset %zu of the tile buffer is outside the tile but was changed", name, e);
  }
};

// ------------------------------------------------------------------ life cycle
struct Life {
  uint8_t* cs = nullptr; size_t cs_size = 0;
  uint8_t* priv = nullptr; uint32_t psz = 0;
  uint8_t* inst = nullptr; uint32_t isz = 0;
};
inline void junk(G& g, uint8_t* p, size_t n) { uint64_t s = g.draw(1u << 30); for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1; p[i] = (uint8_t)(s >> 40); } }
inline uint8_t* cs_buffer(G& g, Life& l, uint32_t size) {
  l.cs_size = size;
  l.cs = world().alloc(size, "compile-time object", false);
  junk(g, l.cs, size);
  return l.cs;
}
// ------------------------------------------------------------------ relocation twin (C27)
// A second run-time object is created from a copy of the same private data, with every memory bank at
// another address.  While it runs, the memory of the first object is out of bounds; the memory it leaves
// behind has to be identical.
struct Reloc {
  bool on = false;
  uint8_t* sh = nullptr; size_t size = 0;
  ExecutionInterface* twin = nullptr;
  uint64_t cmp = 0;
  void init() {
    if (sh) return;
    size = vt::arena().size;
    void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
    if (p == MAP_FAILED) { perror("shadow arena"); _exit(98); }
    sh = (uint8_t*)p;
    ASAN_POISON_MEMORY_REGION(sh, size);
  }
  uint8_t* at(const uint8_t* p) { return sh + (p - vt::arena().base); }
  void mirror() {
    ASAN_POISON_MEMORY_REGION(sh, vt::arena().top + 64);
    for (auto& b : world().blocks) { ASAN_UNPOISON_MEMORY_REGION(at(b.p), b.n ? b.n : 1); memcpy(at(b.p), b.p, b.n); }
  }
  void hide() { ASAN_POISON_MEMORY_REGION(vt::arena().base, vt::arena().top + 64); }
  void show() { for (auto& b : world().blocks) ASAN_UNPOISON_MEMORY_REGION(b.p, b.n ? b.n : 1); }
};
inline Reloc& reloc() { static Reloc r; return r; }
inline void relocate(G& g, const Life& l, const std::vector<uint64_t>& bases) {
  Reloc& r = reloc();
  r.init();
  // too little memory for the object is refused and nothing is written
  if (g.chance(20)) {
    uint32_t n = g.chance(40) ? l.isz - 1 : (uint32_t)g.draw(l.isz);
    std::vector<uint8_t> was(l.inst, l.inst + l.isz);
    std::vector<uint64_t> b = bases;
    if (ExecutionInterface::Create(l.inst, n, l.priv, l.psz, b.data(), (int)b.size())) g.fail("too-small", "Create accepted %u bytes for an object of %u bytes", n, l.isz);
    if (memcmp(was.data(), l.inst, l.isz)) g.fail("too-small", "Create with %u bytes (object needs %u) wrote to the memory", n, l.isz);
    g.label("refused");
  }
  // the twin lives in the tail of the shadow memory: private data anywhere, the object 4-byte aligned
  uint8_t* tail = r.sh + r.size - (1u << 20);
  ASAN_POISON_MEMORY_REGION(tail, 1u << 20);
  uint8_t* tp = tail + 64 + g.draw(64);
  uint8_t* ti = tail + (1 << 18) + 8 * g.draw(64);
  ASAN_UNPOISON_MEMORY_REGION(tp, l.psz);
  ASAN_UNPOISON_MEMORY_REGION(ti, l.isz);
  std::vector<uint8_t> priv(l.priv, l.priv + l.psz);
  memcpy(tp, l.priv, l.psz);
  junk(g, ti, l.isz);
  r.mirror();
  std::vector<uint64_t> b = bases;
  for (auto& x : b) x += (uint64_t)r.sh - (uint64_t)vt::arena().base;
  r.hide();
  r.twin = ExecutionInterface::Create(ti, l.isz, tp, l.psz, b.data(), (int)b.size());
  r.show();
  if (!r.twin) g.fail("create", "no second object from the same private data");
  if (memcmp(tp, priv.data(), l.psz)) g.fail("private-data", "Create modified the private data");
  // neither the private data nor the bases are needed any more
  junk(g, tp, l.psz);
  ASAN_POISON_MEMORY_REGION(tp, l.psz);
}
template <class CS> ExecutionInterface* create(G& g, Life& l, CS* op, Banks& bk) {
  l.psz = op->GetKernelPrivateDataSize();
  l.isz = op->GetRuntimeObjectSize();
  l.priv = world().alloc(l.psz, "private data", false);
  junk(g, l.priv, l.psz);
  mli_status s = op->GetKernelPrivateData(l.priv);
  if (s != MLI_STATUS_OK) g.fail("private-data", "GetKernelPrivateData returned %d", (int)s);
  if (reloc().on && g.chance(30)) {  // it can be queried again
    std::vector<uint8_t> p1(l.priv, l.priv + l.psz);
    if (op->GetKernelPrivateData(l.priv) != MLI_STATUS_OK || op->GetKernelPrivateDataSize() != l.psz || op->GetRuntimeObjectSize() != l.isz) g.fail("private-data", "second query of the private data differs");
  }
  junk(g, l.cs, l.cs_size);  // the compile-time object is gone
  if (g.chance(50)) {        // private data is plain memory: it may be moved
    uint8_t* q = world().alloc(l.psz, "private data", false);
    memcpy(q, l.priv, l.psz);
    junk(g, l.priv, l.psz);
    l.priv = q;
    g.label("moved-private-data");
  }
  l.inst = world().alloc(l.isz, "run-time object", false);
  junk(g, l.inst, l.isz);
  if (reloc().on) relocate(g, l, bk.b);
  ExecutionInterface* e = ExecutionInterface::Create(l.inst, l.isz, l.priv, l.psz, bk.b.data(), (int)bk.b.size());
  if (!e) g.fail("create", "ExecutionInterface::Create returned no object");
  if ((uint8_t*)e < l.inst || (uint8_t*)e >= l.inst + l.isz) g.fail("create", "object is not in the supplied memory");
  return e;
}
template <class K> K* as(G& g, ExecutionInterface* e) {
  K* k = dynamic_cast<K*>(e);
  if (!k) g.fail("create", "ExecutionInterface::Create made an object of another class");
  return k;
}
inline void ok(G& g, mli_status s, const char* what) { if (s != MLI_STATUS_OK) g.fail("status", "%s returned %d", what, (int)s); }
inline void step(G& g, ExecutionInterface* e) {
  Reloc& r = reloc();
  if (r.on && r.twin) {
    bool twice = g.chance(15);
    r.mirror();
    r.hide();
    for (int i = 0; i <= (twice ? 1 : 0); i++) { ok(g, r.twin->Prefetch(), "Prefetch of the second object"); ok(g, r.twin->Issue(), "Issue of the second object"); }
    r.show();
    if (twice) g.label("issued-again");
  }
  if (g.chance(80)) ok(g, e->Prefetch(), "Prefetch");
  world().snapshot();
  mli_status s = e->Issue();
  ok(g, s, "Issue");
  world().check_frozen(g, "Issue");
  if (r.on && r.twin)
    for (auto& b : world().blocks) {
      if (!strcmp(b.name, "run-time object")) continue;
      uint8_t* q = r.at(b.p);
      for (size_t i = 0; i < b.n; i++)
        if (q[i] != b.p[i]) g.fail("relocated", "byte %zu of '%s' is 0x%02x, with the memory banks elsewhere it is 0x%02x", i, b.name, b.p[i], q[i]);
    }
}
inline void update(G& g, ExecutionInterface* e) {
  Reloc& r = reloc();
  ok(g, e->Update(), "Update");
  if (r.on && r.twin) { r.hide(); ok(g, r.twin->Update(), "Update of the second object"); r.show(); }
}
// the tiles can be executed again from the start (next inference)
inline unsigned passes(G& g) { return reloc().on && g.chance(40) ? 2 : 1; }
inline void again(G& g, std::vector<uint8_t>& seen) { g.label("second-pass"); std::fill(seen.begin(), seen.end(), 0); }
// announced buffer sizes are those of the full tensor, in elements
template <unsigned R> void announced(G& g, unsigned got, const Opnd<R>& o) {
  int64_t n = 1;
  for (unsigned i = 0; i < R; i++) n += (int64_t)o.str[i] * ((int64_t)o.dims[i] - 1);
  if (n > got) g.fail("buffer-size", "%s: announced size %u elements, the tensor spans %lld", o.name, got, (long long)n);
}
template <unsigned R> void tile_max(uint32_t* out, const IteratorCfg<R>& c) {
  for (unsigned i = 0; i < R; i++) {
    uint32_t m = MAX(c.get_first_size(i), c.get_last_size(i));
    if (c.get_count(i) > 2) m = MAX(m, c.get_size(i));
    out[i] = m;
  }
}
inline void coverage(G& g, const std::vector<uint8_t>& seen, const Arr& a, bool overlap_ok = false) {
  for (size_t i = 0; i < seen.size(); i++)
    if (seen[i] == 0 || (seen[i] > 1 && !overlap_ok)) g.fail("tile-coverage", "output element %zu (shape %s) is produced %d times", i, Arr(a.d).str().substr(0, 40).c_str(), seen[i]);
}
inline void compare(G& g, const Arr& got, const Arr& want, const char* what) {
  for (size_t i = 0; i < want.v.size(); i++)
    if (got.v[i] != want.v[i]) {
      std::string p; size_t r = i;
      for (int k = (int)want.d.size() - 1; k >= 0; k--) { p = std::to_string(r % want.d[k]) + (p.empty() ? "" : ",") + p; r /= want.d[k]; }
      g.fail("value", "%s: element (%s) is %lld, expected %lld", what, p.c_str(), (long long)got.v[i], (long long)want.v[i]);
    }
}
inline ref::KernelsFactory& factory() { static mli::PlatformDescription pd; static ref::KernelsFactory f(pd); return f; }
inline int32_t w32(int64_t x) { return (int32_t)(uint32_t)(uint64_t)x; }
inline void to_u(uint32_t* o, const std::vector<int>& d) { for (size_t i = 0; i < d.size(); i++) o[i] = (uint32_t)d[i]; }
}  // namespace m3
