// C28: MLI 3.0 buffers, tensors and tensor iterators address exactly the elements / tiles they are documented to.
#include "m3.h"
const char* pbt::g_rule = "a case is non-trivial when a tensor with at least two elements went through an operation other than plain construction, or an iterator made at least one step, and all addressed elements or tiles were compared with an explicit element-by-element model; distinct = distinct generated choice sequences";
using namespace m3;
using mli::InternalBuffer; using mli::kSkipIterDim;
typedef std::vector<uint32_t> U;

// ------------------------------------------------------------------ tensors against an explicit index -> address map
struct TM {  // row-major list of element addresses (in elements of size es, from the start of the buffer)
  U d; std::vector<int64_t> a; int es = 1;
  size_t n() const { return a.size(); }
  std::vector<uint32_t> unflat(size_t k) const { U i(d.size()); for (int r = (int)d.size() - 1; r >= 0; r--) { i[r] = k % d[r]; k /= d[r]; } return i; }
  size_t flat(const U& i) const { size_t o = 0; for (size_t r = 0; r < d.size(); r++) o = o * d[r] + i[r]; return o; }
};
static U zeros(size_t n) { return U(n, 0); }
// new model of dims `d` whose element at index i is element f(i) of m
template <class F> static TM remap(const TM& m, U d, F f) {
  TM r; r.d = d; r.es = m.es;
  size_t n = 1; for (auto x : d) n *= x;
  r.a.resize(n);
  for (size_t k = 0; k < n; k++) { U i = r.unflat(k); r.a[k] = m.a[m.flat(f(i))]; }
  return r;
}
struct Mem { uint8_t* p = nullptr; size_t bytes = 0; uint64_t base = 0; };
template <class B> struct is_mem { static const bool v = false; };
template <> struct is_mem<Buffer> { static const bool v = true; };
template <> struct is_mem<InternalBuffer> { static const bool v = true; };

template <class B, unsigned R> static void verify(G& g, Tensor<B, R>& t, const TM& m, const Mem& mem, const char* op) {
  if (t.get_rank() != m.d.size()) g.fail("rank", "%s: rank %u instead of %zu", op, t.get_rank(), m.d.size());
  uint32_t dims[R]; t.get_dims(dims);
  int32_t str[R]; t.get_mem_strides(str);
  for (size_t i = 0; i < m.d.size(); i++) {
    if (dims[i] != m.d[i] || t.get_dim(i) != m.d[i]) g.fail("shape", "%s: size %u (get_dims %u) in dimension %zu instead of %u", op, t.get_dim(i), dims[i], i, m.d[i]);
    if (str[i] != t.get_mem_stride(i)) g.fail("strides", "%s: get_mem_strides and get_mem_stride differ in dimension %zu", op, i);
  }
  for (size_t i = m.d.size(); i < R; i++)
    if (dims[i] != 0 || str[i] != 0) g.fail("shape", "%s: dimension %zu beyond the rank has size %u stride %d", op, i, dims[i], str[i]);
  if (t.get_total_elem_num() != m.n()) g.fail("count", "%s: %u elements instead of %zu", op, t.get_total_elem_num(), m.n());
  if ((int)t.get_elem_size() != m.es) g.fail("elem-size", "%s: element size %u instead of %d", op, t.get_elem_size(), m.es);
  int64_t hi = 0;
  for (size_t k = 0; k < m.n(); k++) {
    U i = m.unflat(k); i.resize(R, 0);
    uint32_t o = t.get_offset(i.data());
    int64_t at = (int64_t)t.get_offs() + o;
    if (at != m.a[k]) g.fail("address", "%s: element %zu is at %ld instead of %ld", op, k, (long)at, (long)m.a[k]);
    if ((int64_t)o > hi) hi = o;
    if constexpr (is_mem<B>::v) {
      if (mem.p) {
        int64_t got = m.es == 1 ? t.template read<uint8_t>(o) : m.es == 2 ? t.template read<uint16_t>(o) : t.template read<uint32_t>(o), want = 0;
        memcpy(&want, mem.p + m.a[k] * m.es, m.es);
        if (got != want) g.fail("read", "%s: element %zu reads %lld, memory holds %lld", op, k, (long long)got, (long long)want);
      }
    }
  }
  if (m.n()) {
    unsigned s = mli::service::GetBufferSize(t);
    if ((int64_t)s != hi + 1) g.fail("buffer-size", "%s: GetBufferSize %u, the last element is at %ld", op, s, (long)hi);
    s = mli::service::GetBufferSize((int)m.d.size(), dims, str);
    if ((int64_t)s != hi + 1) g.fail("buffer-size", "%s: GetBufferSize(shape, stride) %u, the last element is at %ld", op, s, (long)hi);
  }
}
template <class B, unsigned R> static void writes(G& g, Tensor<B, R>& t, const TM& m, const Mem& mem) {
  if constexpr (is_mem<B>::v) {
    if (!mem.p || !m.n()) return;
    size_t k = g.draw(m.n());
    U i = m.unflat(k); i.resize(R, 0);
    std::vector<uint8_t> want(mem.p, mem.p + mem.bytes);
    uint32_t v = (uint32_t)g.draw(1ull << 32);
    memcpy(want.data() + m.a[k] * m.es, &v, m.es);
    uint32_t o = t.get_offset(i.data());
    if (m.es == 1) t.template write<uint8_t>(o, (uint8_t)v); else if (m.es == 2) t.template write<uint16_t>(o, (uint16_t)v); else t.template write<uint32_t>(o, v);
    if (memcmp(want.data(), mem.p, mem.bytes)) g.fail("write", "writing element %zu changed other memory than its own", k);
  }
}
static int ops_done;
template <class B, unsigned R> static void walk(G& g, Tensor<B, R> t, TM m, Mem& mem, int steps) {
  const size_t r = m.d.size();
  for (; steps > 0; steps--) {
    int op = (int)g.draw(10);
    ops_done++;
    if (op <= 2) {  // slices
      U pos = zeros(r), size(r), p(R, 0), z(R, 0);
      for (size_t i = 0; i < r; i++) {
        if (op != 2) pos[i] = (uint32_t)g.draw(m.d[i]);
        size[i] = (uint32_t)g.range(1, m.d[i] - pos[i]);
        p[i] = pos[i]; z[i] = size[i];
      }
      TM n = remap(m, size, [&](U i) { for (size_t k = 0; k < r; k++) i[k] += pos[k]; return i; });
      Tensor<B, R> s = op == 0 ? t.slice(p.data(), z.data()) : op == 1 ? t.slice(t.get_offset(p.data()), z.data()) : t.slice(z.data());
      if (g.verbose()) g.note("slice");
      verify(g, t, m, mem, "slice (source)");
      t = s; m = n;
      verify(g, t, m, mem, op == 0 ? "slice(pos, size)" : op == 1 ? "slice(offset, size)" : "slice(size)");
    } else if (op <= 4) {  // transpose
      std::vector<uint32_t> o(R);
      for (unsigned i = 0; i < R; i++) o[i] = i;
      for (size_t i = r; i > 1; i--) std::swap(o[i - 1], o[g.draw(i)]);
      U d(r); for (size_t i = 0; i < r; i++) d[i] = m.d[o[i]];
      TM n = remap(m, d, [&](U i) { U s(r); for (size_t k = 0; k < r; k++) s[o[k]] = i[k]; return s; });
      t = t.transpose(o.data()); m = n;
      verify(g, t, m, mem, "transpose");
    } else if (op == 5 && r >= 1) {  // split
      if constexpr (R < 6) {
        uint32_t ax = (uint32_t)g.draw(r);
        U div; for (uint32_t c = 1; c <= m.d[ax]; c++) if (m.d[ax] % c == 0) div.push_back(c);
        uint32_t c = g.pickv(div), e = m.d[ax] / c;
        bool left = g.chance(50);
        U d; for (size_t i = 0; i < r; i++) if (i == ax) { d.push_back(left ? c : e); d.push_back(left ? e : c); } else d.push_back(m.d[i]);
        TM n = remap(m, d, [&](U i) {
          uint32_t ci = left ? i[ax] : i[ax + 1], ei = left ? i[ax + 1] : i[ax];
          U s; for (size_t k = 0; k < i.size(); k++) if (k == ax) { s.push_back(ci * e + ei); k++; } else s.push_back(i[k]);
          return s; });
        Tensor<B, R + 1> s = left ? t.split(ax, c, true) : g.chance(50) ? t.split(ax, c) : t.split(ax, c, false);
        g.label("split");
        verify(g, s, n, mem, "split");
        return walk<B, R + 1>(g, s, n, mem, steps - 1);
      }
    } else if (op == 6 && r >= 2) {  // combine
      if constexpr (R > 1) {
        // any axis and direction for which the strides permit it
        std::vector<std::pair<uint32_t, bool>> can;
        for (uint32_t ax = 0; ax + 1 < r; ax++) {
          int64_t s0 = t.get_mem_stride(ax), s1 = t.get_mem_stride(ax + 1);
          if (s1 == (int64_t)m.d[ax] * s0) can.push_back({ax, true});
          if (s0 == (int64_t)m.d[ax + 1] * s1) can.push_back({ax, false});
        }
        if (can.empty()) continue;
        auto [ax, rev] = g.pickv(can);
        uint32_t A = m.d[ax], Bd = m.d[ax + 1];
        U d; for (size_t i = 0; i < r; i++) if (i == ax) { d.push_back(A * Bd); i++; } else d.push_back(m.d[i]);
        TM n = remap(m, d, [&, ax = ax, rev = rev](U i) {
          U s; for (size_t k = 0; k < i.size(); k++) if (k == ax) { s.push_back(rev ? i[k] % A : i[k] / Bd); s.push_back(rev ? i[k] / A : i[k] % Bd); } else s.push_back(i[k]);
          return s; });
        Tensor<B, R - 1> s = rev && g.chance(50) ? t.combine(ax) : t.combine(ax, rev);
        g.label(rev ? "combine-reverse" : "combine");
        verify(g, s, n, mem, rev ? "combine (reverse order)" : "combine");
        return walk<B, R - 1>(g, s, n, mem, steps - 1);
      }
    } else if (op == 7) {  // the same tensor in a type of higher rank
      if constexpr (R < 6) {
        Tensor<B, R + 1> s(t);
        verify(g, s, m, mem, "copy to a higher rank");
        return walk<B, R + 1>(g, s, m, mem, steps - 1);
      }
    } else if (op == 8) {  // almost the same tensor: another shape over the same strides
      U size(R, 0);
      for (size_t i = 0; i < r; i++) size[i] = (uint32_t)g.range(1, m.d[i]);
      Tensor<B, R> s(t, size.data());
      U d(size.begin(), size.begin() + r);
      t = s; m = remap(m, d, [&](U i) { return i; });
      verify(g, t, m, mem, "copy with another shape");
    } else writes(g, t, m, mem);
  }
}
template <class B> static B mkbuf(G& g, Mem& mem, size_t elems, int es) {
  (void)g;
  if constexpr (std::is_same<B, NoBuffer>::value) { NoBuffer b; b.set_elem_size(es); return b; }
  else if constexpr (std::is_same<B, OffsetBuffer>::value) return OffsetBuffer((uint32_t)g.draw(100000), (uint32_t)g.draw(4), (uint32_t)(elems * es), (uint32_t)es);
  else {
    mem.p = world().alloc(elems * es, "tensor", false); mem.bytes = elems * es;
    for (size_t i = 0; i < mem.bytes; i++) mem.p[i] = (uint8_t)(i * 151 + (i >> 8) * 7 + 13);
    if constexpr (std::is_same<B, Buffer>::value) return Buffer(mem.p, (uint32_t)mem.bytes, (uint32_t)es);
    else return InternalBuffer((uint64_t)mem.p, (uint32_t)mem.bytes, (uint32_t)es);
  }
}
template <class B, unsigned R> static void tensor_case(G& g) {
  world().reset();
  ops_done = 0;
  unsigned r = g.chance(75) ? R : (unsigned)g.range(1, R);
  TM m; m.es = g.pick<int>({1, 2, 4});
  m.d.resize(r);
  int ctor = (int)g.draw(3);
  size_t n = 1;
  for (auto& x : m.d) { x = (uint32_t)g.range(1, r > 4 ? 3 : 6); n *= x; }
  std::vector<int32_t> str(r);
  int64_t s = ctor == 0 ? 1 : g.range(1, 3), span = 0;
  for (int i = (int)r - 1; i >= 0; i--) { str[i] = (int32_t)s; s *= m.d[i]; if (ctor) s += g.draw(4); }
  if (ctor == 2) for (size_t i = r; i > 1; i--) { size_t j = g.draw(i); std::swap(m.d[i - 1], m.d[j]); std::swap(str[i - 1], str[j]); }  // transposed in memory
  for (unsigned i = 0; i < r; i++) span += (int64_t)str[i] * (m.d[i] - 1);
  uint32_t offs = g.chance(40) ? (uint32_t)g.draw(20) : 0;
  m.a.resize(n);
  for (size_t k = 0; k < n; k++) { U i = m.unflat(k); int64_t a = offs; for (unsigned q = 0; q < r; q++) a += (int64_t)i[q] * str[q]; m.a[k] = a; }
  Mem mem;
  U shape(R, 7); std::copy(m.d.begin(), m.d.end(), shape.begin());
  std::vector<int32_t> st(R, 9); std::copy(str.begin(), str.end(), st.begin());
  B b = mkbuf<B>(g, mem, offs + span + 1, m.es);
  Tensor<B, R> t;
  if (ctor == 0) {
    if (r == R && g.chance(50)) t = Tensor<B, R>(b, shape.data()); else t = Tensor<B, R>(b, shape.data(), r);
    if constexpr (std::is_same<B, NoBuffer>::value) if (g.chance(50)) { t = r == R && g.chance(50) ? Tensor<B, R>(shape.data()) : Tensor<B, R>(shape.data(), r); t.set_elem_size(m.es); }
  } else {
    if (r == R && g.chance(50)) t = Tensor<B, R>(b, shape.data(), st.data()); else t = Tensor<B, R>(b, shape.data(), st.data(), r);
    if constexpr (std::is_same<B, NoBuffer>::value) if (g.chance(50)) { t = r == R && g.chance(50) ? Tensor<B, R>(shape.data(), st.data()) : Tensor<B, R>(shape.data(), st.data(), r); t.set_elem_size(m.es); }
  }
  t.set_offs(offs);
  if (g.verbose()) { std::string q; for (unsigned i = 0; i < r; i++) q += std::to_string(m.d[i]) + ":" + std::to_string(str[i]) + " "; g.note("rank %u of %u elem %d offset %u shape:stride %s", r, R, m.es, offs, q.c_str()); }
  verify(g, t, m, mem, "constructor");
  // compile-time tensor without memory -> with memory -> ...
  if constexpr (std::is_same<B, OffsetBuffer>::value) {
    uint64_t bases[4]; for (auto& x : bases) x = g.draw(1ull << 40);
    bases[0] = g.draw(1000);
    Mem mm; mm.p = nullptr;
    size_t bytes = (size_t)(offs + span + 1) * m.es;
    mm.p = world().alloc(bytes, "linked", false); mm.bytes = bytes;
    for (size_t i = 0; i < bytes; i++) mm.p[i] = (uint8_t)(i * 151 + (i >> 8) * 7 + 13);
    bases[b.get_mem_idx()] = (uint64_t)mm.p - b.get_offset();
    Tensor<InternalBuffer, R> it(t, bases, 4);
    verify(g, it, m, mm, "linked to memory bases");
    if (g.chance(50)) { g.label("linked"); walk<InternalBuffer, R>(g, it, m, mm, (int)g.range(1, 8)); }
    else walk<B, R>(g, t, m, mem, (int)g.range(1, 8));
  } else if constexpr (std::is_same<B, NoBuffer>::value) {
    OffsetBuffer ob((uint32_t)g.draw(1000), 1, (uint32_t)((offs + span + 1) * m.es), (uint32_t)m.es);
    Tensor<OffsetBuffer, R> ot(ob, t);
    verify(g, ot, m, mem, "attached buffer");
    if (ot.get_buf().get_offset() != ob.get_offset() || ot.get_buf().get_mem_idx() != 1) g.fail("attach", "attached buffer differs");
    walk<B, R>(g, t, m, mem, (int)g.range(1, 8));
  } else walk<B, R>(g, t, m, mem, (int)g.range(1, 8));
  if (n > 1 && ops_done) g.nontrivial();
  g.evals(ops_done);
}
template <class B> static void tensor_b(G& g) {
  switch (g.draw(6)) { case 0: return tensor_case<B, 1>(g); case 1: return tensor_case<B, 2>(g); case 2: return tensor_case<B, 3>(g); case 3: return tensor_case<B, 4>(g); case 4: return tensor_case<B, 5>(g); default: return tensor_case<B, 6>(g); }
}
static void tensors(G& g) {
  switch (g.weighted({3, 3, 2, 2})) { case 0: return tensor_b<Buffer>(g); case 1: return tensor_b<InternalBuffer>(g); case 2: return tensor_b<OffsetBuffer>(g); default: return tensor_b<NoBuffer>(g); }
}
PBT_SUB("tensor_ops", 10, tensors);

// elements regrouped in bigger or smaller ones along the innermost (outermost) dimension
template <unsigned R> static void gran_case(G& g) {
  world().reset();
  bool rev = g.chance(50);
  int olds = g.pick<int>({1, 2, 4, 8}), news = g.pick<int>({1, 2, 4, 8, 16});
  unsigned q = news > olds ? news / olds : 1;  // every size and stride divisible: the same bytes before and after
  U d(R); for (auto& x : d) x = (uint32_t)g.range(1, 5);
  int in = rev ? 0 : R - 1;
  d[in] *= q;
  std::vector<int32_t> st(R); int64_t s = 1;
  for (unsigned k = 0; k < R; k++) { int i = rev ? (int)k : (int)(R - 1 - k); st[i] = (int32_t)s; s *= d[i]; if (k == 0) s += q * g.draw(3); else s += g.draw(3) * (R > 1 ? (int64_t)st[rev ? 1 : R - 2] : 1); }
  uint32_t offs = g.chance(50) ? q * (uint32_t)g.draw(9) : 0;
  int64_t span = 0; for (unsigned i = 0; i < R; i++) span += (int64_t)st[i] * (d[i] - 1);
  uint32_t bytes = (uint32_t)((offs + span + 1 + q * g.draw(3)) * olds);
  bytes = (bytes + news - 1) / news * news;
  OffsetBuffer b(g.draw(1000), 0, bytes, olds);
  Tensor<OffsetBuffer, R> t(b, d.data(), st.data(), R);
  t.set_offs(offs);
  std::vector<int64_t> was, is;
  TM m; m.d = d; m.a.resize(t.get_total_elem_num());
  for (size_t k = 0; k < m.n(); k++) { U i = m.unflat(k); int64_t a = ((int64_t)t.get_offs() + t.get_offset(i.data())) * olds; for (int x = 0; x < olds; x++) was.push_back(a + x); }
  if (rev) t.ConvertGran(news, true); else if (g.chance(50)) t.ConvertGran(news); else t.ConvertGran(news, false);
  if ((int)t.get_elem_size() != news) g.fail("elem-size", "element size %u instead of %d", t.get_elem_size(), news);
  m.d.resize(R); for (unsigned i = 0; i < R; i++) { m.d[i] = t.get_dim(i); if ((int)i != in && m.d[i] != d[i]) g.fail("shape", "size of dimension %u changed", i); }
  if (m.d[in] * news != d[in] * olds) g.fail("shape", "innermost dimension has %u elements of %d bytes instead of %u of %d", m.d[in], news, d[in], olds);
  m.a.resize(t.get_total_elem_num());
  for (size_t k = 0; k < m.n(); k++) { U i = m.unflat(k); int64_t a = ((int64_t)t.get_offs() + t.get_offset(i.data())) * news; for (int x = 0; x < news; x++) is.push_back(a + x); }
  std::sort(was.begin(), was.end()); std::sort(is.begin(), is.end());
  if (was != is) g.fail("bytes", "conversion from %d to %d byte elements changed the set of addressed bytes (offset %u)", olds, news, offs);
  if (olds != news) g.nontrivial();
  g.evals(1);
}
static void gran(G& g) { switch (g.draw(4)) { case 0: return gran_case<1>(g); case 1: return gran_case<2>(g); case 2: return gran_case<3>(g); default: return gran_case<4>(g); } }
PBT_SUB("convert_gran", 2, gran);

// ------------------------------------------------------------------ buffers
template <class T> static void buffers_t(G& g) {
  world().reset();
  size_t n = 8 + g.draw(40);
  T* p = (T*)world().alloc(n * sizeof(T), "buffer", false);
  std::vector<T> m(n);
  for (size_t i = 0; i < n; i++) p[i] = m[i] = (T)g.draw(1ull << 32);
  uint64_t bases[3] = {g.draw(1000), g.draw(1ull << 40), g.draw(1ull << 33)};
  unsigned bank = (unsigned)g.draw(3);
  uint32_t boff = (uint32_t)g.draw(5000);
  bases[bank] = (uint64_t)p - boff;
  Buffer b(p, (uint32_t)(n * sizeof(T)), sizeof(T));
  if (g.chance(30)) b.set_buffer(p, (uint32_t)(n * sizeof(T)));
  if (g.chance(30)) { b = Buffer(p, (uint32_t)(n * sizeof(T))); b.set_elem_size(sizeof(T)); }
  OffsetBuffer o(boff, bank, (uint32_t)(n * sizeof(T)), sizeof(T));
  size_t at = 0, left = n;  // current start and length in elements
  bool moved = false;
  for (int k = (int)g.range(1, 8); k > 0; k--) {
    switch (g.draw(5)) {
      case 0: {  // sub-buffer
        size_t s = g.draw(left);
        o = OffsetBuffer(o, (uint32_t)(s * sizeof(T)));
        b.inc((unsigned)s); at += s; left -= s; moved = true;
        break;
      }
      case 1: { size_t i = g.draw(left); T v = (T)g.draw(1ull << 32); b.template write<T>((uint32_t)i, v); m[at + i] = v; break; }
      case 2: { size_t i = g.draw(left); InternalBuffer ib(o, bases, 3); T v = (T)g.draw(1ull << 32); ib.template write<T>((uint32_t)i, v); m[at + i] = v; break; }
      case 3: {  // objects of any type at a byte offset
        Buffer bb(p, (uint32_t)(n * sizeof(T)), 1);
        size_t by = g.draw(n * sizeof(T) - 3);
        switch (g.draw(3)) {
          case 0: { int8_t v = (int8_t)g.draw(256); bb.write_obj((uint32_t)by, v); memcpy((uint8_t*)m.data() + by, &v, 1); break; }
          case 1: { int16_t v = (int16_t)g.draw(65536); bb.write_obj((uint32_t)by, v); memcpy((uint8_t*)m.data() + by, &v, 2); break; }
          default: { int32_t v = (int32_t)g.draw(1ull << 32); bb.write_obj((uint32_t)by, v); memcpy((uint8_t*)m.data() + by, &v, 4); break; }
        }
        break;
      }
      default: {  // element stepping of an offset buffer
        if (left < 2) break;
        OffsetBuffer o2 = o; size_t s = 1 + g.draw(left - 1); o2.inc((unsigned)s);
        InternalBuffer ib(o2, bases, 3), ic(o, bases, 3); ic.inc((unsigned)s);
        if (ib.template read<T>(0) != m[at + s] || ic.template read<T>(0) != m[at + s]) g.fail("inc", "stepping a buffer by %zu elements reaches another element", s);
        moved = true;
      }
    }
    if (memcmp(p, m.data(), n * sizeof(T))) g.fail("memory", "memory differs from the model after a buffer operation");
    InternalBuffer ib(o, bases, 3);
    const InternalBuffer& cib = ib; const Buffer& cb = b;
    if (o.get_size() != left * sizeof(T) || ib.get_size() != left * sizeof(T)) g.fail("size", "sub-buffer size %u / %u instead of %zu", o.get_size(), ib.get_size(), left * sizeof(T));
    if (o.get_mem_idx() != bank || o.get_elem_size() != sizeof(T) || ib.get_elem_size() != sizeof(T) || b.get_elem_size() != sizeof(T)) g.fail("attributes", "buffer attributes changed");
    if (ib.template get_ptr<T>() != p + at || cib.template get_ptr<T>() != p + at || b.template get_ptr<T>() != p + at) g.fail("pointer", "buffer points elsewhere");
    size_t i = g.draw(left);
    if (cb.template get_ptr<T>((uint32_t)i) != p + at + i || cb.template read<T>((uint32_t)i) != m[at + i] || cib.template read<T>((uint32_t)i) != m[at + i]) g.fail("read", "element %zu of the buffer reads another value", i);
  }
  g.evals(1);
  if (moved) g.nontrivial();
}
static void buffers(G& g) { switch (g.draw(3)) { case 0: return buffers_t<int8_t>(g); case 1: return buffers_t<int16_t>(g); default: return buffers_t<int32_t>(g); } }
PBT_SUB("buffers", 2, buffers);

// ------------------------------------------------------------------ iterators
struct Ax { int dim; int32_t count; std::vector<int32_t> pos; std::vector<uint32_t> size; int32_t finc, inc, linc; uint32_t fs, s, ls; };
template <unsigned T, unsigned I> struct ITM {  // model: an ordered list of axes, first one fastest
  U d; std::vector<int32_t> st; uint32_t offs = 0; std::vector<Ax> ax;
  int64_t total() const { int64_t n = 1; for (auto& a : ax) n *= a.count; return n; }
};
template <unsigned R> static Tensor<NoBuffer, R> nt(const U& d, std::vector<int32_t> st, uint32_t offs = 0) {
  U dd = d; Tensor<NoBuffer, R> t(dd.data(), st.data(), R); t.set_elem_size(1); t.set_offs(offs); return t;
}
template <unsigned R> static void gen_tensor(G& g, U& d, std::vector<int32_t>& st, uint32_t& offs, int lo = 1) {
  d.resize(R); st.resize(R);
  for (auto& x : d) x = (uint32_t)g.range(lo, R > 4 ? 4 : 7);
  int64_t s = 1;
  int pm = (int)g.draw(2);
  for (int i = R - 1; i >= 0; i--) { st[i] = (int32_t)s; s *= d[i]; if (pm) s += g.draw(3); }
  if (g.chance(15)) for (unsigned i = R; i > 1; i--) std::swap(st[i - 1], st[g.draw(i)]), g.label("permuted-strides");
  offs = g.chance(30) ? (uint32_t)g.draw(50) : 0;
}
static std::vector<int32_t> gen_order(G& g, unsigned R) {
  std::vector<int32_t> o(R); for (unsigned i = 0; i < R; i++) o[i] = (int)i;
  if (g.chance(60)) for (unsigned i = R; i > 1; i--) std::swap(o[i - 1], o[g.draw(i)]);
  for (unsigned i = 0; i < R; i++) if (o[i] != (int)i) { g.label("permuted-order"); break; }
  return o;
}
// an axis cut in tiles of `t` (the first one shorter by skew)
static Ax cut(int dim, uint32_t n, uint32_t t, uint32_t skew) {
  Ax a; a.dim = dim;
  int64_t p = 0, e = (int64_t)t - skew;
  while (true) {
    if (e > n) e = n;
    a.pos.push_back((int32_t)p); a.size.push_back((uint32_t)(e - p));
    if (e == n) break;
    p = e; e += t;
  }
  a.count = (int32_t)a.pos.size();
  return a;
}
enum { SUBT = 1, OFFS = 2, NEXT2 = 4, SUBIT = 8 };
template <class B, unsigned T, unsigned I>
static int check_walk(G& g, TensorIterator<B, T, I>& it, const ITM<T, I>& m, int what, const char* op) {
  // what the iterator visits, one full pass and a few steps of the next one
  // the offsets in the buffer and the sub-iterators are only specified for the identity order: see DESIGN.md
  for (unsigned r = 0; r < I; r++) if (m.ax[r].dim >= 0 && m.ax[r].dim != (int)r) what &= ~(OFFS | SUBIT);
  int64_t total = m.total();
  if (it.GetTotalCount() != total) g.fail("total", "%s: %u tiles instead of %ld", op, it.GetTotalCount(), (long)total);
  int64_t steps = total + (int64_t)g.draw(3) * (g.chance(30) ? total : 1);
  if (g.chance(15) && total > 1) {  // a partial walk and a reset first
    int64_t k = 1 + g.draw(total - 1);
    while (k--) it.Next();
    it.Reset();
    g.label("reset");
  }
  TensorIterator<B, T, I> a = it, b = it;
  int64_t off_a = 0; std::vector<int64_t> pos_b(T, 0);
  std::vector<int32_t> idx(I, 0);
  for (int64_t k = 0;; k++) {
    U pos(T, 0), size(m.d);
    int64_t off = 0;
    for (unsigned r = 0; r < I; r++) {
      const Ax& x = m.ax[r];
      if (x.dim >= 0) { pos[x.dim] = (uint32_t)x.pos[idx[r]]; size[x.dim] = x.size[idx[r]]; off += (int64_t)x.pos[idx[r]] * m.st[x.dim]; }
    }
    int32_t p[I], ti[I]; it.get_pos(p); it.get_tile_idx(ti);
    for (unsigned r = 0; r < I; r++) {
      int32_t want = m.ax[r].dim >= 0 ? m.ax[r].pos[idx[r]] : 0;
      if (ti[r] != idx[r]) g.fail("tile-index", "%s: step %ld: tile index %d instead of %d in iteration dimension %u", op, (long)k, ti[r], idx[r], r);
      if (m.ax[r].dim >= 0 && (p[r] != want || it.GetPos(r) != want)) g.fail("position", "%s: step %ld: position %d instead of %d in iteration dimension %u", op, (long)k, p[r], want, r);
      if (it.is_first_tile(r) != (idx[r] == 0) || it.is_last_tile(r) != (idx[r] == m.ax[r].count - 1)) g.fail("first-last", "%s: step %ld: is_first_tile / is_last_tile wrong in iteration dimension %u", op, (long)k, r);
    }
    if (what & SUBT) {
      Tensor<B, T> s = it.GetSubTensor();
      if (s.get_rank() != T) g.fail("sub-tensor", "%s: rank of the sub-tensor", op);
      for (unsigned i = 0; i < T; i++) {
        if (s.get_dim(i) != size[i]) g.fail("sub-tensor", "%s: step %ld: size %u instead of %u in dimension %u", op, (long)k, s.get_dim(i), size[i], i);
        if (s.get_mem_stride(i) != m.st[i]) g.fail("sub-tensor", "%s: stride %d instead of %d in dimension %u", op, s.get_mem_stride(i), m.st[i], i);
      }
      if ((int64_t)s.get_offs() != off + m.offs) g.fail("sub-tensor", "%s: step %ld: offset %u instead of %ld", op, (long)k, s.get_offs(), (long)(off + m.offs));
    }
    if (what & OFFS) if (it.get_offset() != off) g.fail("offset", "%s: step %ld: get_offset %d instead of %ld", op, (long)k, it.get_offset(), (long)off);
    if (what & NEXT2) {
      if (off_a != off) g.fail("offset-increments", "%s: step %ld: sum of the offset increments %ld instead of %ld", op, (long)k, (long)off_a, (long)off);
      for (unsigned i = 0; i < T; i++) if (pos_b[i] != (int64_t)pos[i]) g.fail("position-increments", "%s: step %ld: sum of the increments %ld instead of %u in dimension %u", op, (long)k, (long)pos_b[i], pos[i], i);
    }
    if constexpr (is_mem<B>::v && T == I) if (what & SUBIT) {
      uint8_t got = it.template read<uint8_t>(), want = it.get_tensor().template read<uint8_t>((uint32_t)off);
      if (got != want) g.fail("read", "%s: step %ld: read at the current position gives %u instead of %u", op, (long)k, got, want);
      auto e = it.GetSubTensorIterator();
      int32_t c[T]; size_t n = 1;
      for (unsigned i = 0; i < T; i++) { c[i] = e.GetTensorShape(i); n *= size[i]; if ((uint32_t)c[i] != size[i]) g.fail("sub-iterator", "%s: size %d instead of %u in dimension %u", op, c[i], size[i], i); }
      e.SetCount(c);
      // visits every element of the tile once, first dimension fastest
      U el(T, 0);
      for (size_t q = 0; q < n; q++) {
        int64_t o = off; for (unsigned i = 0; i < T; i++) o += (int64_t)el[i] * m.st[i];
        uint8_t v = e.template read<uint8_t>(), w = it.get_tensor().template read<uint8_t>((uint32_t)o);
        if (e.get_offset() != o || v != w) g.fail("sub-iterator", "%s: tile %ld element %zu: offset %d instead of %ld", op, (long)k, q, e.get_offset(), (long)o);
        bool end = e.Next();
        if (end != (q == n - 1)) g.fail("sub-iterator", "%s: end reported after %zu of %zu elements", op, q + 1, n);
        for (unsigned i = 0; i < T; i++) { if (++el[i] < size[i]) break; el[i] = 0; }
      }
    }
    if (k == steps) break;
    // step
    bool wrap = true;
    for (unsigned r = 0; r < I; r++) { if (++idx[r] < m.ax[r].count) { wrap = false; break; } idx[r] = 0; }
    bool done = it.Next();
    if (done != wrap) g.fail("done", "%s: step %ld: end of iteration %s", op, (long)k, done ? "reported too early" : "not reported");
    if (what & NEXT2) {
      int32_t oi = 12345; bool da = a.Next(oi); off_a += oi;
      int32_t pi[T]; bool db = b.Next(pi); for (unsigned i = 0; i < T; i++) pos_b[i] += pi[i];
      if (da != wrap || db != wrap) g.fail("done", "%s: step %ld: end of iteration of the increment forms", op, (long)k);
    }
  }
  if (total > 1) g.nontrivial();
  g.evals((int)std::min<int64_t>(steps, 1000));
  return (int)steps;
}
template <class B, unsigned R> static Tensor<B, R> tile_tensor(G& g, const U& d, const std::vector<int32_t>& st, uint32_t offs) {
  int64_t n = offs + 1; for (unsigned i = 0; i < R; i++) n += (int64_t)st[i] * (d[i] - 1);
  Mem mem; B b = mkbuf<B>(g, mem, n, 1);
  U dd = d; auto s = st;
  Tensor<B, R> t(b, dd.data(), s.data(), R); t.set_offs(offs);
  return t;
}
template <unsigned R> static std::string desc(const ITM<R, R>& m) {
  std::string s; for (unsigned i = 0; i < R; i++) { s += "d" + std::to_string(m.d[i]) + ":" + std::to_string(m.st[i]) + " "; }
  for (auto& a : m.ax) { s += "| dim " + std::to_string(a.dim) + " "; for (size_t k = 0; k < a.pos.size(); k++) s += std::to_string(a.pos[k]) + "+" + std::to_string(a.size[k]) + " "; }
  return s;
}
template <class B, unsigned R> static void tiles_case(G& g) {
  world().reset();
  ITM<R, R> m; gen_tensor<R>(g, m.d, m.st, m.offs);
  auto order = gen_order(g, R);
  U tile(R); for (unsigned i = 0; i < R; i++) tile[i] = g.chance(25) ? m.d[i] : (uint32_t)g.range(1, m.d[i]);
  uint32_t skew = g.chance(30) ? (uint32_t)g.draw(tile[order[0]]) : 0;
  if (skew) g.label("skew");
  for (unsigned i = 0; i < R; i++) m.ax.push_back(cut(order[i], m.d[order[i]], tile[order[i]], i ? 0 : skew));
  auto t = tile_tensor<B, R>(g, m.d, m.st, m.offs);
  if (g.verbose()) g.note("%s skew %u offset %u", desc<R>(m).c_str(), skew, m.offs);
  IteratorCfg<R> c(t, tile.data(), order.data(), skew);
  // consistency of the number of distinct tile sizes
  for (unsigned i = 0; i < R; i++) {
    if (c.get_order(i) != order[i] || c.get_count(i) != m.ax[i].count) g.fail("config", "order %d count %d instead of %d %d in iteration dimension %u", c.get_order(i), c.get_count(i), order[i], m.ax[i].count, i);
    if (c.get_last_size(i) != m.ax[i].size.back() || (m.ax[i].count > 1 && c.get_first_size(i) != m.ax[i].size[0]) || (m.ax[i].count > 2 && c.get_size(i) != m.ax[i].size[1])) g.fail("config", "tile sizes of the config differ in iteration dimension %u", i);
  }
  if (!skew && g.chance(50)) { TensorIterator<B, R, R> it(t, tile.data(), order.data()); check_walk(g, it, m, SUBT | OFFS | NEXT2 | SUBIT, "tiles"); }
  else if (g.chance(20)) { TensorIterator<B, R, R> it(t, IteratorCfg<R>(t)); it.set_config(c); check_walk(g, it, m, SUBT | NEXT2, "tiles, set_config"); }
  else { TensorIterator<B, R, R> it(t, c); check_walk(g, it, m, SUBT | OFFS | NEXT2 | SUBIT, "tiles"); }
}
static void tiles(G& g) {
  bool buf = g.chance(50);
  switch (g.draw(5)) {
    case 0: return buf ? tiles_case<Buffer, 1>(g) : tiles_case<NoBuffer, 1>(g);
    case 1: return buf ? tiles_case<InternalBuffer, 2>(g) : tiles_case<NoBuffer, 2>(g);
    case 2: return buf ? tiles_case<Buffer, 3>(g) : tiles_case<OffsetBuffer, 3>(g);
    case 3: return buf ? tiles_case<InternalBuffer, 4>(g) : tiles_case<NoBuffer, 4>(g);
    default: return buf ? tiles_case<Buffer, 5>(g) : tiles_case<NoBuffer, 5>(g);
  }
}
PBT_SUB("tile_walk", 8, tiles);

// one tile for the whole tensor, the iterator rank may be higher
template <unsigned T, unsigned I> static void whole_case(G& g) {
  world().reset();
  ITM<T, I> m; gen_tensor<T>(g, m.d, m.st, m.offs);
  for (unsigned r = 0; r < I; r++) { Ax a; a.dim = r < T ? (int)r : -1; a.count = 1; a.pos = {0}; a.size = {r < T ? m.d[r] : 0}; m.ax.push_back(a); }
  auto t = tile_tensor<Buffer, T>(g, m.d, m.st, m.offs);
  TensorIterator<Buffer, T, I> it(t);
  check_walk(g, it, m, SUBT | OFFS | NEXT2, "single tile");
  g.nontrivial();
}
static void whole(G& g) { switch (g.draw(5)) { case 0: return whole_case<1, 1>(g); case 1: return whole_case<4, 4>(g); case 2: return whole_case<1, 4>(g); case 3: return whole_case<3, 5>(g); default: return whole_case<5, 5>(g); } }
PBT_SUB("single_tile", 1, whole);

// random explicit config: every axis its own count, sizes, overlaps; optional skipped iteration dimensions
static Ax gen_axis(G& g, int dim, uint32_t n) {
  Ax a; a.dim = dim;
  a.count = (int32_t)g.range(1, 4);
  if (dim < 0) { a.finc = a.inc = a.linc = 0; a.fs = a.s = a.ls = 0; return a; }
  // positions 0, f, f+i, f+2i ... inside n
  int32_t c = std::min<int32_t>(a.count, n); a.count = c;
  a.finc = c > 1 ? (int32_t)g.range(1, (int64_t)n - 1 - (c - 2)) : 0;
  a.inc = c > 2 ? (int32_t)g.range(1, ((int64_t)n - 1 - a.finc) / (c - 2)) : a.finc;
  int32_t last = c > 1 ? a.finc + (c - 2) * a.inc : 0;
  a.linc = -last;
  a.fs = (uint32_t)g.range(1, n); a.s = (uint32_t)g.range(1, n); a.ls = (uint32_t)g.range(1, (int64_t)n - last);
  if (g.chance(40)) a.s = (uint32_t)std::max(1, a.inc);
  if (g.chance(30)) a.fs = a.s;
  if (g.chance(30)) a.ls = std::min<uint32_t>(a.fs, n - last);
  if (g.chance(30)) a.ls = std::min<uint32_t>(a.s, n - last);
  for (int32_t k = 0; k < c; k++) {
    int32_t p = k == 0 ? 0 : a.finc + (k - 1) * a.inc;
    a.pos.push_back(p);
    a.size.push_back(k == c - 1 ? a.ls : k == 0 ? a.fs : std::min<uint32_t>(a.s, n - p));
  }
  return a;
}
template <unsigned I> static IteratorCfg<I> cfg_of(const std::vector<Ax>& ax, uint32_t tiles_num = 0) {
  int32_t o[I], c[I], fi[I], ii[I], li[I], fs[I], s[I], ls[I];
  for (unsigned r = 0; r < I; r++) { const Ax& a = ax[r]; o[r] = a.dim; c[r] = a.count; fi[r] = a.finc; ii[r] = a.inc; li[r] = a.linc; fs[r] = a.fs; s[r] = a.s; ls[r] = a.ls; }
  return IteratorCfg<I>(o, c, fi, ii, li, fs, s, ls, tiles_num);
}
// tiles of equal configured sizes have equal update indices, different sizes different ones, and the indices are dense
template <class B, unsigned T, unsigned I> static void check_update_idx(G& g, TensorIterator<B, T, I> it, const std::vector<Ax>& ax) {
  std::map<U, uint32_t> seen; std::map<uint32_t, U> back;
  int64_t n = it.GetTotalCount();
  for (int64_t k = 0; k < n; k++) {
    int32_t ti[I]; it.get_tile_idx(ti);
    U key; for (unsigned r = 0; r < I; r++) key.push_back(ti[r] == ax[r].count - 1 ? ax[r].ls : ti[r] == 0 ? ax[r].fs : ax[r].s);
    uint32_t u = it.get_update_idx();
    if (seen.count(key) && seen[key] != u) g.fail("update-index", "tiles of the same sizes have update indices %u and %u", seen[key], u);
    if (back.count(u) && back[u] != key) g.fail("update-index", "tiles of different sizes share update index %u", u);
    seen[key] = u; back[u] = key;
    it.Next();
  }
  if (back.rbegin()->first != back.size() - 1) g.fail("update-index", "%zu different tile sizes, but update indices go up to %u", back.size(), back.rbegin()->first);
}
template <unsigned T, unsigned I> static void explicit_case(G& g) {
  world().reset();
  ITM<T, I> m; gen_tensor<T>(g, m.d, m.st, m.offs);
  // which iteration dimension drives which tensor dimension
  std::vector<int> slot(I, -1);
  auto perm = gen_order(g, T);
  bool skips = false;
  { unsigned k = 0, left = I; for (unsigned r = 0; r < I; r++, left--) { if (k < T && (left <= T - k || !g.chance(I > T ? 50 : 20))) slot[r] = perm[k++]; else skips = true; }
    if (I == T && skips) { } }
  for (unsigned r = 0; r < I; r++) m.ax.push_back(gen_axis(g, slot[r], slot[r] < 0 ? 1 : m.d[slot[r]]));
  if (g.verbose()) { std::string s; for (auto& a : m.ax) { s += "| dim " + std::to_string(a.dim) + " x" + std::to_string(a.count) + " "; for (size_t k = 0; k < a.pos.size(); k++) s += std::to_string(a.pos[k]) + "+" + std::to_string(a.size[k]) + " "; } g.note("%s", s.c_str()); }
  auto t = tile_tensor<Buffer, T>(g, m.d, m.st, m.offs);
  TensorIterator<Buffer, T, I> it(t, cfg_of<I>(m.ax));
  bool lockstep = false; for (auto& a : m.ax) if (a.dim < 0 && a.count > 1) lockstep = true;
  if (skips) g.label("skipped-dims");
  check_update_idx(g, it, m.ax);
  check_walk(g, it, m, SUBT | OFFS | (lockstep ? 0 : NEXT2), "explicit config");
  // the same through a compile-time iterator without buffer, possibly in the middle of the walk
  TensorIterator<NoBuffer, T, I> ni(nt<T>(m.d, m.st, m.offs), cfg_of<I>(m.ax));
  int64_t k = g.draw(m.total());
  for (int64_t q = 0; q < k; q++) ni.Next();
  TensorIterator<OffsetBuffer, T, I> oi(ni);
  OffsetBuffer ob((uint32_t)g.draw(1000), 0, 1 << 20, 1); oi.set_buf(ob);
  uint64_t bases[1] = {g.draw(1ull << 32)};
  TensorIterator<InternalBuffer, T, I> ii(oi, bases, 1);
  for (int64_t q = k; q < m.total() + 2; q++) {
    auto a = ni.GetSubTensor(); auto b = oi.GetSubTensor(); auto c = ii.GetSubTensor();
    for (unsigned i = 0; i < T; i++) if (a.get_dim(i) != b.get_dim(i) || a.get_dim(i) != c.get_dim(i) || a.get_mem_stride(i) != b.get_mem_stride(i) || a.get_mem_stride(i) != c.get_mem_stride(i)) g.fail("copy", "iterators with attached buffers have other tiles");
    if (a.get_offs() != b.get_offs() || a.get_offs() != c.get_offs()) g.fail("copy", "iterators with attached buffers are at another tile");
    if (ni.Next() != oi.Next()) g.fail("copy", "end of iteration differs");
    ii.Next();
  }
  InternalBuffer ib = ii.get_buf();
  if ((uint64_t)ib.get_ptr<uint8_t>() != bases[0] + ob.get_offset()) g.fail("copy", "linked iterator has another buffer");
}
static void explicits(G& g) {
  switch (g.draw(7)) { case 0: return explicit_case<1, 1>(g); case 1: return explicit_case<1, 3>(g); case 2: return explicit_case<2, 2>(g); case 3: return explicit_case<2, 4>(g); case 4: return explicit_case<4, 4>(g); case 5: return explicit_case<3, 5>(g); default: return explicit_case<5, 5>(g); }
}
PBT_SUB("explicit_config", 6, explicits);

// input tiles of convolution-like kernels: cover all that the tiles of the output need
template <unsigned R> static void conv_case(G& g) {
  world().reset();
  U od(R), in(R), ek(R), st(R), pad(R), end(R), tile(R);
  bool exact = g.chance(60);  // (output covers the whole input)
  for (unsigned i = 0; i < R; i++) {
    od[i] = (uint32_t)g.range(1, 6);
    if (g.chance(40)) { ek[i] = st[i] = 1; pad[i] = end[i] = 0; }
    else { st[i] = (uint32_t)g.range(1, 3); ek[i] = (uint32_t)g.range(1, 5); pad[i] = (uint32_t)g.draw(ek[i]); end[i] = (uint32_t)g.draw(ek[i]); }
    int64_t n = (int64_t)(od[i] - 1) * st[i] + ek[i] - pad[i] - end[i];
    if (n < 1) { n = 1; pad[i] = end[i] = 0; st[i] = 1; ek[i] = 1; n = od[i]; }
    in[i] = (uint32_t)n + (exact ? 0 : (uint32_t)g.draw(st[i]));
    int lo = std::max<int>(1, (pad[i] + st[i] - 1) / st[i]);   // documented: the first tile covers the padding
    if ((uint32_t)lo > od[i]) { lo = od[i]; if (od[i] * st[i] < pad[i]) { in[i] = od[i]; pad[i] = end[i] = 0; st[i] = ek[i] = 1; lo = 1; } }
    tile[i] = (uint32_t)g.range(lo, od[i]);
  }
  auto order = gen_order(g, R);
  std::vector<int32_t> ost(R), ist(R); int64_t s = 1, s2 = 1;
  for (int i = R - 1; i >= 0; i--) { ost[i] = (int32_t)s; s *= od[i]; ist[i] = (int32_t)s2; s2 *= in[i]; }
  bool ident = true; for (unsigned r = 0; r < R; r++) if (order[r] != (int)r) ident = false;
  TensorIterator<NoBuffer, R, R> out(nt<R>(od, ost), tile.data(), order.data());
  auto t = tile_tensor<Buffer, R>(g, in, ist, 0);
  auto tn = nt<R>(in, ist);
  TensorIterator<NoBuffer, R, R> it(tn, out, ek.data(), st.data(), pad.data());
  if (it.GetTotalCount() != out.GetTotalCount()) g.fail("total", "%u input tiles for %u output tiles", it.GetTotalCount(), out.GetTotalCount());
  int64_t total = out.GetTotalCount();
  TensorIterator<NoBuffer, R, R> inc = it;
  int64_t off = 0;
  for (int64_t k = 0; k < 2 * total; k++) {
    auto o = out.GetSubTensor(); auto x = it.GetSubTensor();
    int32_t op[R], ip[R]; out.get_pos(op); it.get_pos(ip);
    int64_t want = 0;
    for (unsigned r = 0; r < R; r++) {
      int dm = order[r];
      int64_t lo = (int64_t)op[r] * st[dm] - pad[dm], hi = (int64_t)(op[r] + o.get_dim(dm) - 1) * st[dm] + ek[dm] - pad[dm];  // taps of the tile: [lo, hi)
      int64_t b = std::max<int64_t>(lo, 0), e = std::min<int64_t>(hi, in[dm]);
      if (ip[r] != b) g.fail("input-tile", "step %ld dimension %d: input tile starts at %d instead of %ld", (long)k, dm, ip[r], (long)b);
      if ((int64_t)ip[r] + x.get_dim(dm) < e || (int64_t)ip[r] + x.get_dim(dm) > in[dm]) g.fail("input-tile", "step %ld dimension %d: input tile [%d, %ld) needs [%ld, %ld) of %u", (long)k, dm, ip[r], (long)ip[r] + x.get_dim(dm), (long)b, (long)e, in[dm]);
      if (exact && e >= b && (int64_t)ip[r] + x.get_dim(dm) != e && !it.is_last_tile(r)) g.fail("input-tile", "step %ld dimension %d: input tile ends at %ld instead of %ld", (long)k, dm, (long)ip[r] + x.get_dim(dm), (long)e);
      want += (int64_t)ip[r] * ist[dm];
    }
    if ((int64_t)x.get_offs() != want) g.fail("sub-tensor", "step %ld: offset %u instead of %ld", (long)k, x.get_offs(), (long)want);
    if (ident && it.get_offset() != want) g.fail("offset", "step %ld: get_offset %d instead of %ld", (long)k, it.get_offset(), (long)want);
    if (off != want) g.fail("offset-increments", "step %ld: sum of the offset increments %ld instead of %ld", (long)k, (long)off, (long)want);
    bool a = out.Next(), b = it.Next(); int32_t oi; bool c = inc.Next(oi); off += oi;
    if (a != (k % total == total - 1) || a != b || a != c) g.fail("done", "step %ld: end of iteration differs", (long)k);
  }
  if (total > 1) g.nontrivial();
  g.evals((int)total);
}
static void convs(G& g) { switch (g.draw(4)) { case 0: return conv_case<1>(g); case 1: return conv_case<2>(g); case 2: return conv_case<4>(g); default: return conv_case<5>(g); } }
PBT_SUB("conv_tiles", 4, convs);

// weights: advance with the output tiles, but only in the selected dimensions
template <unsigned R> static void weights_case(G& g) {
  world().reset();
  ITM<R, R> o; gen_tensor<R>(g, o.d, o.st, o.offs);
  U tile(R); for (unsigned i = 0; i < R; i++) tile[i] = (uint32_t)g.range(1, o.d[i]);
  int32_t order[R]; for (unsigned i = 0; i < R; i++) order[i] = (int)i;
  TensorIterator<NoBuffer, R, R> out(nt<R>(o.d, o.st, o.offs), tile.data(), order);
  std::vector<Ax> ax; for (unsigned i = 0; i < R; i++) ax.push_back(cut((int)i, o.d[i], tile[i], 0));
  if (g.chance(60)) {  // weights of the rank of the iteration
    int32_t mask[R]; ITM<R, R> m; gen_tensor<R>(g, m.d, m.st, m.offs);
    for (unsigned i = 0; i < R; i++) { mask[i] = g.chance(60); if (!mask[i]) m.d[i] = o.d[i]; }
    int64_t s = 1; for (int i = R - 1; i >= 0; i--) { m.st[i] = (int32_t)s; s *= m.d[i]; }
    m.ax = ax;
    for (unsigned i = 0; i < R; i++) if (mask[i]) for (size_t k = 0; k < m.ax[i].pos.size(); k++) { m.ax[i].pos[k] = 0; m.ax[i].size[k] = m.d[i]; }
    TensorIterator<NoBuffer, R, R> it(nt<R>(m.d, m.st, m.offs), out, g.chance(50) ? order : nullptr, mask);
    check_walk(g, it, m, SUBT | OFFS | NEXT2, "weights");
  } else {  // zero points: one dimension driven by one dimension of the output
    unsigned dr = (unsigned)g.draw(R);
    ITM<1, R> m; m.d = {o.d[dr]}; m.st = {(int32_t)g.range(1, 3)}; m.offs = (uint32_t)g.draw(9);
    int32_t mask[R], ord[R];
    for (unsigned i = 0; i < R; i++) { mask[i] = i != dr; ord[i] = i == dr ? 0 : kSkipIterDim; }
    m.ax = ax; for (unsigned i = 0; i < R; i++) m.ax[i].dim = i == dr ? 0 : -1;
    auto t = nt<1>(m.d, m.st, m.offs);
    TensorIterator<NoBuffer, 1, R> it(t, out, ord, mask);
    check_walk(g, it, m, SUBT | OFFS, "zero points");
  }
}
static void weights(G& g) { switch (g.draw(3)) { case 0: return weights_case<2>(g); case 1: return weights_case<3>(g); default: return weights_case<5>(g); } }
PBT_SUB("weights_tiles", 3, weights);

// ------------------------------------------------------------------ derived iterators
template <unsigned R> static void derived_case(G& g) {
  world().reset();
  ITM<R, R> m; gen_tensor<R>(g, m.d, m.st, m.offs);
  auto order = gen_order(g, R);
  for (unsigned r = 0; r < R; r++) m.ax.push_back(gen_axis(g, order[r], m.d[order[r]]));
  auto t = tile_tensor<Buffer, R>(g, m.d, m.st, m.offs);
  TensorIterator<Buffer, R, R> it(t, cfg_of<R>(m.ax));
  switch (g.draw(4)) {
    case 0: case 1: {  // transposed: the same tiles in the same order, dimensions renamed
      g.label("transposed");
      std::vector<uint32_t> o(R); for (unsigned i = 0; i < R; i++) o[i] = i;
      for (unsigned i = R; i > 1; i--) std::swap(o[i - 1], o[g.draw(i)]);
      ITM<R, R> n = m;
      for (unsigned i = 0; i < R; i++) { n.d[i] = m.d[o[i]]; n.st[i] = m.st[o[i]]; }
      for (auto& a : n.ax) for (unsigned i = 0; i < R; i++) if ((int)o[i] == m.ax[&a - n.ax.data()].dim) a.dim = (int)i;
      auto tr = it.transpose(o.data());
      check_walk(g, tr, n, SUBT | OFFS | NEXT2, "transposed iterator");
      break;
    }
    case 2: {  // an axis dropped (identity order)
      g.label("dropped-axis");
      if constexpr (R > 1) {
        for (unsigned r = 0; r < R; r++) m.ax[r] = gen_axis(g, (int)r, m.d[r]);
        uint32_t ax = (uint32_t)g.draw(R);
        IteratorCfg<R> c = cfg_of<R>(m.ax);
        IteratorCfg<R - 1> n(c, ax);
        ITM<R - 1, R - 1> mn; mn.offs = m.offs;
        for (unsigned i = 0; i < R; i++) if (i != ax) { mn.d.push_back(m.d[i]); mn.st.push_back(m.st[i]); mn.ax.push_back(m.ax[i]); mn.ax.back().dim = (int)mn.d.size() - 1; }
        TensorIterator<NoBuffer, R - 1, R - 1> d(nt<R - 1>(mn.d, mn.st, mn.offs), n);
        check_walk(g, d, mn, SUBT | OFFS | NEXT2, "config with a dropped axis");
      }
      break;
    }
    default: {  // config stored in one of a higher rank
      g.label("higher-rank");
      IteratorCfg<R + 2> big; big.template set_config<R>(cfg_of<R>(m.ax));
      ITM<R, R + 2> mn; mn.d = m.d; mn.st = m.st; mn.offs = m.offs; mn.ax = m.ax;
      for (int k = 0; k < 2; k++) { Ax a; a.dim = -1; a.count = 1; mn.ax.push_back(a); }
      TensorIterator<Buffer, R, R + 2> d(t, big);
      check_walk(g, d, mn, SUBT | OFFS | NEXT2, "config of a higher rank");
    }
  }
}
static void derived(G& g) { switch (g.draw(4)) { case 0: return derived_case<2>(g); case 1: return derived_case<3>(g); case 2: return derived_case<4>(g); default: return derived_case<5>(g); } }
PBT_SUB("derived", 4, derived);

// ------------------------------------------------------------------ buffers of one or several tiles, overlaps
template <unsigned R> static void shrink_case(G& g) {
  world().reset();
  ITM<R, R> m; gen_tensor<R>(g, m.d, m.st, m.offs); m.offs = 0;
  auto order = gen_order(g, R);
  for (unsigned r = 0; r < R; r++) m.ax.push_back(gen_axis(g, order[r], m.d[order[r]]));
  if (g.chance(70)) { Ax& a = m.ax[0]; uint32_t n = m.d[a.dim], ov = (uint32_t)g.draw(2), t = (uint32_t)g.range(1, n);  // regular overlapping tiles in the first iteration dimension
    a.pos.clear(); a.size.clear(); a.inc = a.finc = (int32_t)t; a.s = a.fs = std::min(n, t + ov);
    for (uint32_t p = 0;; p += t) { a.pos.push_back((int32_t)p); a.size.push_back(std::min(a.s, n - p)); if (p + a.s >= n) break; }
    a.count = (int32_t)a.pos.size(); a.ls = a.size.back(); a.linc = -a.pos.back(); }
  auto t = nt<R>(m.d, m.st, 0);
  IteratorCfg<R> c = cfg_of<R>(m.ax);
  TensorIterator<NoBuffer, R, R> it(t, c);
  if (g.chance(35)) {  // without overlaps between neighbours in the first iteration dimension: the same elements, each transferred once
    Ax& a = m.ax[0];
    int64_t ov = (int64_t)a.s - a.inc;
    bool reg = a.count > 1 && a.fs == (uint32_t)(a.finc + ov) && (int64_t)a.ls - ov >= 1;
    for (int k = 1; reg && k < a.count; k++) if (a.size[k - 1] != (k == 1 ? a.fs : a.s)) reg = false;
    if (!reg || ov < 0) g.discard();
    g.label("no-overlap");
    it.RemoveOverlapAdjacentTiles();
    ITM<R, R> n = m; Ax& b = n.ax[0];
    for (int k = 1; k < b.count; k++) { int32_t e = a.pos[k - 1] + (int32_t)a.size[k - 1]; b.size[k] = (uint32_t)(a.pos[k] + (int32_t)a.size[k] - e); b.pos[k] = e; }
    check_walk(g, it, n, SUBT | NEXT2, "tiles without overlap");
    return;
  }
  uint32_t al[R]; for (auto& x : al) x = g.chance(50) ? 1 : (uint32_t)g.range(1, 4);
  uint32_t nt_ = (uint32_t)g.range(1, g.chance(30) ? 4 : 2);
  const Ax& a0 = m.ax[0];
  // (a cyclic buffer has no room for gaps between tiles)
  bool cyc = g.chance(40) && nt_ <= 2 && (a0.count < 2 || a0.finc <= (int32_t)a0.fs) && a0.inc <= (int32_t)a0.s;
  uint32_t got = it.ShrinkBuffer(nt_, cyc, al);
  // sizes of the biggest tile
  U big(R);
  for (auto& a : m.ax) { uint32_t x = a.ls; if (a.count > 1) x = std::max(x, a.fs); if (a.count > 2) x = std::max(x, a.s); big[a.dim] = x; }
  if (!cyc) {
    g.label("shrunk");
    U dims(R); uint64_t n = 1;
    for (unsigned i = 0; i < R; i++) { dims[i] = (big[i] + al[i] - 1) / al[i] * al[i]; n *= dims[i]; }
    if (got != n * nt_) g.fail("shrink", "buffer of %u tiles has %u elements instead of %lu", nt_, got, (unsigned long)(n * nt_));
    int64_t s = 1; for (int i = R - 1; i >= 0; i--) { m.st[i] = (int32_t)s; s *= dims[i]; }
    for (auto& a : m.ax) for (size_t k = 0; k < a.pos.size(); k++) { a.pos[k] = 0; a.size[k] = (int)k == a.count - 1 ? a.ls : k == 0 ? a.fs : std::min(a.s, m.d[a.dim]); }
    check_walk(g, it, m, SUBT | NEXT2, "shrunk buffer");
  } else {
    g.label("cyclic");
    const Ax& a = m.ax[0];
    // room for any nt_ successive tiles in the first iteration dimension, through the end of the pass too
    int64_t need = 0;
    for (int k = 0; k < a.count; k++) {
      int64_t p = 0, e = 0; int q = k;
      for (uint32_t j = 0; j < nt_; j++) { int64_t sz = q == a.count - 1 ? a.ls : q == 0 ? a.fs : a.s; e = std::max(e, p + sz); p += q == a.count - 1 ? a.ls : q == 0 ? a.finc : a.inc; q = (q + 1) % a.count; }
      need = std::max(need, e);
    }
    uint64_t rest = 1; for (unsigned r = 1; r < R; r++) rest *= (big[m.ax[r].dim] + al[m.ax[r].dim] - 1) / al[m.ax[r].dim] * al[m.ax[r].dim];
    if (got % rest || (int64_t)(got / rest) < need) g.fail("shrink", "cyclic buffer has %u elements, %u tiles need %ld x %lu", got, nt_, (long)need, (unsigned long)rest);
    g.nontrivial();
  }
  g.evals(1);
}
static void shrink(G& g) { switch (g.draw(3)) { case 0: return shrink_case<1>(g); case 1: return shrink_case<3>(g); default: return shrink_case<4>(g); } }
PBT_SUB("shrink", 3, shrink);
