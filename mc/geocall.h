// Calls of convolutions and poolings over an enumerated geometry.
#pragma once
#include "reg.h"
inline std::vector<Axis> trAxes(int maxin, int maxk, int maxs) {
  std::vector<Axis> v; for (int in = 1; in <= maxin; in++) for (int k = 1; k <= maxk; k++) for (int s = 1; s <= std::min(maxs, k); s++) for (int pb = 0; pb < k; pb++) for (int pe = 0; pe < k; pe++) if ((in - 1) * s + 1 >= k && (in - 1) * s + k - pb - pe >= 1) v.push_back({in, k, s, 1, pb, pe}); return v;
}
// the calls of one convolution geometry, by every entry point that takes it
inline void convCalls(int kind, int fmt, const Geo &g, int style, int data, const std::function<void(Call &)> &use) {
  using namespace reg;
  struct Fx { const char *nm; int kh, sh; ConvFn fn[3]; };
  static const std::vector<Fx> F[4] = {
    {{"conv2d", 0, 0, FN3(conv2d, )}, {"conv2d_k1x1", 1, 0, FN3(conv2d, _k1x1)}, {"conv2d_k3x3", 3, 0, FN3(conv2d, _k3x3)}, {"conv2d_k5x5", 5, 0, FN3(conv2d, _k5x5)}},
    {{"depthwise", 0, 0, FN3(depthwise_conv2d, )}, {"depthwise_k3x3", 3, 0, FN3(depthwise_conv2d, _k3x3)}, {"depthwise_k5x5", 5, 0, FN3(depthwise_conv2d, _k5x5)}},
    {{"group", 0, 0, FN3(group_conv2d, )}, {"group_k3x3", 3, 0, FN3(group_conv2d, _k3x3)}, {"group_k5x5", 5, 0, FN3(group_conv2d, _k5x5)}},
    {{"transpose", 0, 0, FN3(transpose_conv2d, )}, {"transpose_k2x2", 2, 2, FN3(transpose_conv2d, _k2x2_str2)}, {"transpose_k4x4", 4, 2, FN3(transpose_conv2d, _k4x4_str2)}}};
  bool tr = kind == 3; int OH = tr ? (g.H - 1) * g.sh + g.kh - g.pt - g.pb : g.OH(), OW = tr ? (g.W - 1) * g.sw + g.kw - g.pl - g.pr : g.OW();
  for (auto &f : F[kind]) {
    if (f.kh && (g.kh != f.kh || g.kw != f.kh)) continue; if (f.sh && (g.sh != f.sh || g.sw != f.sh)) continue;
    Call K; K.lay.style.assign(4, style); Ten &in = K.op("input", IN, inT(fmt), {g.H, g.W, g.Ci}, 3), &w = K.op("weights", IN, wT(fmt), {g.kh, g.kw, g.Ci / g.G, g.Co}, 7), &b = K.op("bias", IN, bT(fmt), {g.Co}), &out = K.op("output", OUT, inT(fmt), {OH, OW, g.Co}, 3);
    ConvTensors X; X.in = in; X.w = w; X.b = b; X.out = out; setQuant(X, fmt, dfltQ(fmt), 3, g.Co); dataConv(X, fmt, P_RND, data, 4000); in = X.in; w = X.w; b = X.b; out = X.out;
    mli_conv2d_cfg *cfg = K.cfg<mli_conv2d_cfg>(); *cfg = convCfg(g, MLI_RELU_NONE); ConvFn fn = f.fn[fmt]; K.run = [fn, cfg](Call &k) { return fn(k.p(0), k.p(1), k.p(2), cfg, k.p(3)); };
    K.name = std::string(f.nm) + " " + fmtName(fmt) + " " + g.str(); use(K);
  }
}
// the calls of one pooling geometry
inline void poolCalls(int kind, int f, const Geo &g, int style, int data, const std::function<void(Call &)> &use) {
  using namespace reg;
  static const reg::PoolFn F[2][3][3] = {
    {{mli_krn_maxpool_hwc_fx16, mli_krn_maxpool_hwc_fx16_k2x2, mli_krn_maxpool_hwc_fx16_k3x3}, {mli_krn_maxpool_hwc_fx8, mli_krn_maxpool_hwc_fx8_k2x2, mli_krn_maxpool_hwc_fx8_k3x3}, {mli_krn_maxpool_hwc_sa8, mli_krn_maxpool_hwc_sa8_k2x2, mli_krn_maxpool_hwc_sa8_k3x3}},
    {{mli_krn_avepool_hwc_fx16, mli_krn_avepool_hwc_fx16_k2x2, mli_krn_avepool_hwc_fx16_k3x3}, {mli_krn_avepool_hwc_fx8, mli_krn_avepool_hwc_fx8_k2x2, mli_krn_avepool_hwc_fx8_k3x3}, {mli_krn_avepool_hwc_sa8, mli_krn_avepool_hwc_sa8_k2x2, mli_krn_avepool_hwc_sa8_k3x3}}};
  for (int z = 0; z < 3; z++) {
    if (z && (g.kh != z + 1 || g.kw != z + 1)) continue;
    Call K; K.lay.style.assign(2, style); Ten &in = K.op("input", IN, kE3[f], {g.H, g.W, g.Ci}, 3), &out = K.op("output", OUT, kE3[f], {g.OH(), g.OW(), g.Ci}, 3); K.ops.back().setsQuant = kind == 0; fill(in, P_RND, data); setq3(in, f, 5, 7, 23, 10); setq3(out, f, 4, -5, 31, 10);
    auto *p = K.cfg<mli_pool_cfg>(); p->kernel_width = g.kw; p->kernel_height = g.kh; p->stride_width = g.sw; p->stride_height = g.sh; p->padding_left = g.pl; p->padding_right = g.pr; p->padding_top = g.pt; p->padding_bottom = g.pb; auto fn = F[kind][f][z]; K.run = [=](Call &k) { return fn(k.p(0), p, k.p(1)); };
    K.name = std::string(kind ? "avepool " : "maxpool ") + kE3n[f] + " variant " + std::to_string(z) + " " + g.str(); use(K);
  }
}
