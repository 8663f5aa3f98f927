#include "mlit.h"
using namespace vt;
const char* pbt::g_rule = "A case is a history of pool configuration, acquire, register, prepare, start, wait, release and synchronous moves; non-trivial: at least two handles live at once, one request refused or one released channel reused, and one transfer with a callback.";

static std::vector<int32_t> g_calls;
static void cb_a(int32_t c) { g_calls.push_back(c); }
static void cb_b(int32_t c) { g_calls.push_back(c ^ 0x40000000); }
struct H { mli_mov_handle_t h; int ch, n, st; bool reg; int32_t cookie; TT src, dst; };  // st: 1 open, 2 prepared, 3 done

static void history(G& g) {
  world().reset(); g_calls.clear();
  // known start: everything released, no callbacks
  mli_mov_set_num_dma_ch(0, 16);
  { mli_mov_handle_t h[16]; for (int i = 0; i < 16; i++) { memset(&h[i], 0, sizeof h[i]); if (mli_mov_acquire_handle(1, &h[i]) != MLI_STATUS_OK) g.fail("acquire", "channel %d of 16 free ones refused", i); mli_mov_registercallback(&h[i], nullptr, 0); } for (auto& x : h) mli_mov_release_handle(&x); }
  int base = 0, size = 16; std::vector<int> owner(16, -1);
  auto configure = [&] {
    size = g.chance(20) ? 16 : (int)g.range(1, 8); base = (int)g.range(0, 16 - size);
    g.note("pool %d+%d;", base, size);
    if (mli_mov_set_num_dma_ch(base, size) != MLI_STATUS_OK) g.fail("status", "pool configuration refused");
  };
  configure();
  std::vector<H> hs; int id = 0; bool two = false, refused = false, reuse = false, called = false; std::vector<bool> used(16, false);
  mli_mov_cfg_t cfg; mli_mov_cfg_for_copy(&cfg);
  auto tensors = [&](TT& s, TT& d) {
    int n = (int)g.range(1, 12); s = make(g, "src", MLI_EL_FX_8, shape({n}), DENSE, true); set_frac(s, 4);
    s.each([&](const int* i) { s.seto(s.off(i), (id * 13 + i[0] * 7) & 127); });
    d = make(g, "dst", MLI_EL_FX_8, shape({n}), DENSE, false); set_frac(d, 1);
  };
  auto arrived = [&](const TT& s, const TT& d, const char* w) { if (s.values() != d.values()) g.fail("data", "%s: destination %s, source %s", w, d.desc().c_str(), s.desc().c_str()); };
  auto expect_calls = [&](const std::vector<int32_t>& want, const char* w) {
    if (g_calls != want) g.fail("callback", "%s: %zu callback(s)%s %d, expected %zu %d", w, g_calls.size(), g_calls.empty() ? "" : " with cookie", g_calls.empty() ? 0 : g_calls[0], want.size(), want.empty() ? 0 : want[0]);
    g_calls.clear();
  };
  int steps = (int)g.range(3, 60);
  for (int step = 0; step < steps; step++) {
    size_t op = g.weighted({30, 14, 14, 16, 8, 16, 6, 3});
    id++;
    if (op == 0) {  // acquire
      int n = (int)g.weighted({5, 50, 20, 12, 8, 5}); if (g.chance(3)) n = (int)g.range(6, 17);
      bool can = n == 0;
      for (int i = base; i + n <= base + size && !can; i++) { bool ok = true; for (int k = 0; k < n; k++) ok &= owner[i + k] < 0; can |= ok; }
      mli_mov_handle_t h; memset(&h, 0, sizeof h);
      mli_status st = mli_mov_acquire_handle(n, &h);
      g.note("acquire %d -> %d;", n, st == MLI_STATUS_OK ? h.dma_ch : -1);
      if ((st == MLI_STATUS_OK) != can) g.fail("acquire", "request for %d channel(s) returned status %d; a free block %s", n, (int)st, can ? "exists" : "does not exist");
      if (!can) { refused = true; continue; }
      if (h.num_ch != n) g.fail("acquire", "handle holds %d channels instead of %d", h.num_ch, n);
      for (int k = 0; k < n; k++) {
        int c = h.dma_ch + k;
        if (c < base || c >= base + size) g.fail("range", "channel %d granted, the pool is %d..%d", c, base, base + size - 1);
        if (owner[c] >= 0) g.fail("shared", "channel %d granted while another handle holds it", c);
        owner[c] = id; if (used[c]) reuse = true; used[c] = true;
      }
      if (mli_mov_isdone(&h)) g.fail("state", "new handle reports completion");
      H x; x.h = h; x.ch = h.dma_ch; x.n = n; x.st = 1; x.reg = false; x.cookie = 0; hs.push_back(x);
      if (hs.size() >= 2) two = true;
      expect_calls({}, "acquire");
      continue;
    }
    if (op == 6) {  // synchronous move
      TT s, d; tensors(s, d); g.note("sync;");
      if (mli_mov_tensor_sync(&s.t, &cfg, &d.t) != MLI_STATUS_OK) g.fail("status", "synchronous move failed");
      arrived(s, d, "synchronous move"); expect_calls({}, "synchronous move without callback");
      continue;
    }
    if (op == 7) { if (hs.empty()) configure(); continue; }
    if (hs.empty()) continue;
    size_t k = (size_t)g.range(0, (int64_t)hs.size() - 1); H& x = hs[k];
    switch (op) {
      case 1:  // register
        if (!x.n || x.st == 2) break;
        { bool b = g.chance(30), none = g.chance(10); x.cookie = id; x.reg = !none;
          g.note("register #%zu;", k);
          if (mli_mov_registercallback(&x.h, none ? nullptr : b ? cb_b : cb_a, id) != MLI_STATUS_OK) g.fail("status", "callback registration failed");
          if (b) x.cookie ^= 0x40000000; expect_calls({}, "registration"); }
        break;
      case 2:  // prepare
        if (x.st == 2) break;
        tensors(x.src, x.dst); g.note("prepare #%zu;", k);
        if (mli_mov_prepare(&x.h, &x.src.t, &cfg, &x.dst.t) != MLI_STATUS_OK) g.fail("status", "prepare failed");
        x.st = 2; if (mli_mov_isdone(&x.h)) g.fail("state", "transfer reported complete before it was started");
        expect_calls({}, "prepare");
        break;
      case 3:  // start (and register late enough to matter)
        if (x.st != 2) break;
        if (x.n && g.chance(30)) { x.cookie = id; x.reg = true; mli_mov_registercallback(&x.h, cb_a, id); }
        g.note("start #%zu;", k);
        if (mli_mov_start(&x.h, &x.src.t, &cfg, &x.dst.t) != MLI_STATUS_OK) g.fail("status", "start failed");
        x.st = 3;
        if (mli_mov_wait(&x.h) != MLI_STATUS_OK || !mli_mov_isdone(&x.h)) g.fail("state", "transfer not complete after wait");
        arrived(x.src, x.dst, "asynchronous move");
        if (x.reg) { expect_calls({x.cookie}, "transfer with a registered callback"); called = true; } else expect_calls({}, "transfer without a callback");
        break;
      case 4: {  // query
        bool d = mli_mov_isdone(&x.h); if (d != (x.st == 3)) g.fail("state", "completion reported as %d in state %d", d, x.st);
        if (x.st == 3 && mli_mov_wait(&x.h) != MLI_STATUS_OK) g.fail("state", "wait failed");
        expect_calls({}, "query"); break; }
      case 5:  // release
        if (x.st == 2) break;
        g.note("release #%zu;", k);
        if (mli_mov_release_handle(&x.h) != MLI_STATUS_OK) g.fail("status", "release failed");
        for (int c = 0; c < x.n; c++) owner[x.ch + c] = -1;
        expect_calls({}, "release"); hs.erase(hs.begin() + k);
        break;
    }
    // other handles are not affected
    for (auto& y : hs) if (y.h.dma_ch != y.ch || y.h.num_ch != y.n || mli_mov_isdone(&y.h) != (y.st == 3)) g.fail("handle", "a handle changed: channels %d+%d (were %d+%d)", y.h.dma_ch, y.h.num_ch, y.ch, y.n);
  }
  for (auto& x : hs) mli_mov_release_handle(&x.h);
  // everything is available again
  mli_mov_handle_t h; memset(&h, 0, sizeof h);
  if (mli_mov_acquire_handle(size, &h) != MLI_STATUS_OK) g.fail("leak", "the whole pool of %d channels cannot be acquired after all handles were released", size);
  if (h.dma_ch != base) g.fail("range", "whole pool granted at %d instead of %d", h.dma_ch, base);
  mli_mov_release_handle(&h);
  if (two && (refused || reuse) && called) g.nontrivial();
}
PBT_SUB("history", 10, history);
