// small helpers for the demonstrations
#pragma once
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <cmath>
#include "mli_api.h"
struct T { mli_tensor t; std::vector<int8_t> m; };
static inline int esz(mli_element_type e) { return e == MLI_EL_FX_16 ? 2 : (e == MLI_EL_SA_32 || e == MLI_EL_FP_32) ? 4 : 1; }
// tensor with the given shape; strides 0 = dense
static inline void mk(T& x, mli_element_type e, std::vector<int> s, std::vector<int> st = {}) {
  memset(&x.t, 0, sizeof x.t); x.t.el_type = e; x.t.rank = s.size();
  int need = 1;
  for (int i = (int)s.size() - 1; i >= 0; i--) { x.t.shape[i] = s[i]; x.t.mem_stride[i] = st.empty() ? need : st[i]; need = x.t.mem_stride[i] * s[i]; }
  x.m.assign((size_t)need * esz(e) + 64, 0x55);
  x.t.data.mem.pi8 = x.m.data(); x.t.data.capacity = need * esz(e);
  if (e == MLI_EL_SA_8 || e == MLI_EL_SA_32) { x.t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16; x.t.el_params.sa.dim = -1; x.t.el_params.sa.scale.mem.i16 = 1; }
}
static inline void sa(T& x, int scale, int frac, int zp) { auto& p = x.t.el_params.sa; p.scale.mem.i16 = scale; p.scale_frac_bits.mem.i8 = frac; p.zero_point.mem.i16 = zp; }
static inline void fx(T& x, int frac) { x.t.el_params.fx.frac_bits = frac; }
static inline long get(const T& x, long o) { switch (esz(x.t.el_type)) { case 1: return x.t.data.mem.pi8[o]; case 2: return x.t.data.mem.pi16[o]; default: return x.t.data.mem.pi32[o]; } }
static inline void put(T& x, long o, long v) { switch (esz(x.t.el_type)) { case 1: x.t.data.mem.pi8[o] = v; break; case 2: x.t.data.mem.pi16[o] = v; break; default: x.t.data.mem.pi32[o] = v; } }
static inline long at(const T& x, int a, int b = 0, int c = 0, int d = 0) { const int* s = (const int*)x.t.mem_stride; int r = x.t.rank; long o = (long)a * s[0]; if (r > 1) o += (long)b * s[1]; if (r > 2) o += (long)c * s[2]; if (r > 3) o += (long)d * s[3]; return o; }
#define CHECK(got, want, ...) do { long g_ = (got), w_ = (want); if (g_ != w_) { printf("got %ld want %ld: ", g_, w_); printf(__VA_ARGS__); printf("\n"); exit(1); } } while (0)
#define OK(st) do { if ((st) != MLI_STATUS_OK) { printf("status %d\n", (int)(st)); exit(1); } } while (0)
