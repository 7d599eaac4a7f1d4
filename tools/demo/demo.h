// Small helpers for the demonstrations: tensors over std::vector.
#pragma once
#include "mli_api.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <vector>
template <class T> struct Tn {
  std::vector<T> v; mli_tensor t;
  Tn(mli_element_type el, std::vector<int> shape, T fillv = 0) {
    memset(&t, 0, sizeof t); t.el_type = el; t.rank = shape.size(); int s = 1;
    for (int d = (int)shape.size() - 1; d >= 0; d--) { t.shape[d] = shape[d]; t.mem_stride[d] = s; s *= shape[d]; }
    v.assign(s, fillv); t.data.capacity = s * sizeof(T); t.data.mem.pi32 = (int32_t *)v.data();
  }
  Tn(const Tn &) = delete;
  Tn &fx(int f) { t.el_params.fx.frac_bits = f; return *this; }
  Tn &sa(int zp, int sc, int fb) { t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16; t.el_params.sa.dim = -1; t.el_params.sa.zero_point.mem.i16 = zp; t.el_params.sa.scale.mem.i16 = sc; t.el_params.sa.scale_frac_bits.mem.i8 = fb; return *this; }
  Tn &seq(int a, int b, int m) { for (size_t i = 0; i < v.size(); i++) v[i] = (T)((int)(i * a + b) % m - m / 2); return *this; }
};
static int failures = 0;
#define EXPECT(c, ...) do { if (!(c)) { printf("FAILED: " __VA_ARGS__); printf("\n"); if (++failures > 5) exit(1); } } while (0)
#define FINISH() do { printf(failures ? "demo: FAILED\n" : "demo: ok\n"); return failures != 0; } while (0)
