// Reference model and case construction shared by the convolution family (standard, depthwise, group, transposed).
#pragma once
#include "ref.h"

enum Fmt { FX16, FX16_8, SA8 };
inline const char *fmtName(int f) { return f == FX16 ? "fx16" : f == FX16_8 ? "fx16_fx8_fx8" : "sa8"; }
inline mli_element_type inT(int f) { return f == SA8 ? MLI_EL_SA_8 : MLI_EL_FX_16; }
inline mli_element_type wT(int f) { return f == SA8 ? MLI_EL_SA_8 : f == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; }
inline mli_element_type bT(int f) { return f == SA8 ? MLI_EL_SA_32 : f == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; }

struct Geo {
  int H, W, Ci, Co, kh, kw, sh, sw, dh, dw, pt, pb, pl, pr, G;   // G = groups
  int ekh() const { return (kh - 1) * dh + 1; }
  int ekw() const { return (kw - 1) * dw + 1; }
  int OH() const { int n = H + pt + pb - ekh(); return n < 0 ? 0 : n / sh + 1; }
  int OW() const { int n = W + pl + pr - ekw(); return n < 0 ? 0 : n / sw + 1; }
  std::string str() const { char b[200]; snprintf(b, sizeof b, "in %dx%dx%d k %dx%d co %d stride %d,%d dil %d,%d pad t%d b%d l%d r%d groups %d", H, W, Ci, kh, kw, Co, sh, sw, dh, dw, pt, pb, pl, pr, G); return b; }
};

struct Quant {
  int fi, fw, fb, fo;                               // fx fractional bits: input, weights, bias, output
  int zi, si, ei, zo, so, eo; bool axis; int sw0, ew0;   // sa8: zero point / scale / scale fractional bits; weights' base scale
};
inline Quant dfltQ(int fmt) { Quant q; memset(&q, 0, sizeof q); if (fmt == FX16) { q.fi = 8; q.fw = 14; q.fb = 10; q.fo = 3; } else if (fmt == FX16_8) { q.fi = 8; q.fw = 7; q.fb = 4; q.fo = 3; } q.zi = 5; q.si = 23; q.ei = 10; q.zo = -7; q.so = 29; q.eo = 8; q.axis = true; q.sw0 = 19; q.ew0 = 10; return q; }

// per output channel weight scale of the alphabet
inline int wscale(const Quant &q, int oc) { if (!q.axis) return q.sw0; i64 s = (i64)q.sw0 * (oc % 5 * 2 + 3) / 3; return (int)clampi(s, 1, 32767); }
inline int wfb(const Quant &q, int oc) { return q.axis ? q.ew0 + (oc % 3) - 1 : q.ew0; }

// bias scale must be in*w within the 16-bit representation (checked in debug builds)
inline void biasScale(int si, int ei, int sw, int ew, int &sb, int &eb) {
  i64 p = (i64)si * sw; int e = ei + ew; int sh = 0; while ((p >> sh) > 32767) sh++;
  if (sh) { p = shr(p, sh, 32); if (p > 32767) { p >>= 1; sh++; } }
  sb = (int)p; eb = e - sh;
}

struct ConvTensors { Ten in, w, b, out; };

inline void setQuant(ConvTensors &T, int fmt, const Quant &q, int wdim, int Co) {
  if (fmt != SA8) { T.in.fx(q.fi); T.w.fx(q.fw); T.b.fx(q.fb); T.out.fx(q.fo); return; }
  T.in.sa(q.zi, q.si, q.ei); T.out.sa(q.zo, q.so, q.eo);
  if (q.axis) {
    std::vector<int16_t> z(Co, 0), s(Co), bs(Co); std::vector<int8_t> e(Co), be(Co);
    for (int o = 0; o < Co; o++) { int sb, eb; s[o] = wscale(q, o); e[o] = wfb(q, o); biasScale(q.si, q.ei, s[o], e[o], sb, eb); bs[o] = sb; be[o] = eb; }
    T.w.saAxis(wdim, z, s, e); T.b.saAxis(0, z, bs, be);
  } else { int sb, eb; T.w.sa(0, q.sw0, q.ew0); biasScale(q.si, q.ei, q.sw0, q.ew0, sb, eb); T.b.sa(0, sb, eb); }
}

// ---- requantisation of one accumulator ----------------------------------------------------------------------------
inline i64 conv_finish(int fmt, i64 acc, i64 bias, int oc, const ConvTensors &T, Lim lim, bool *over = nullptr) {
  i64 o;
  if (fmt == SA8) {
    if (over && (acc > INT32_MAX || acc < INT32_MIN)) *over = true;
    acc = satn((i128)acc + sa_bias(bias), 32);
    SaMul m = sa_mul(T.in.scale(), T.in.fb(), T.w.scale(oc), T.w.fb(oc), T.out.scale(), T.out.fb());
    o = sa_requant(acc, m, T.out.zp());
  } else {
    int bs = T.in.frac() + T.w.frac() - T.b.frac(), os = T.in.frac() + T.w.frac() - T.out.frac();
    int bits = fmt == FX16 ? 64 : 32;
    if (over && bits == 32 && (acc > INT32_MAX || acc < INT32_MIN)) *over = true;
    acc = satn((i128)acc + shr(bias, -bs, bits), bits);
    o = satn(shr(acc, os, bits), 16);
  }
  return clampi(o, lim.lo, lim.hi);
}

// reference of the (grouped) convolution with exact integer accumulation; *over set if a 32-bit accumulator would overflow
inline std::vector<i64> ref_conv(int fmt, const Geo &g, const ConvTensors &T, int relu, bool *over) {
  std::vector<i64> r; int OH = T.out.dim(0), OW = T.out.dim(1); r.reserve((size_t)OH * OW * g.Co);
  Lim lim = relu_limits(relu, T.out); int zi = fmt == SA8 ? T.in.zp() : 0; int cg = g.Ci / g.G, og = g.Co / g.G;
  for (int y = 0; y < OH; y++) for (int x = 0; x < OW; x++) for (int o = 0; o < g.Co; o++) {
    i64 acc = 0; int c0 = o / og * cg;
    for (int i = 0; i < g.kh; i++) { int iy = y * g.sh - g.pt + i * g.dh; if (iy < 0 || iy >= g.H) continue;
      for (int j = 0; j < g.kw; j++) { int ix = x * g.sw - g.pl + j * g.dw; if (ix < 0 || ix >= g.W) continue;
        for (int c = 0; c < cg; c++) acc += (T.in.at(iy, ix, c0 + c) - zi) * T.w.at(i, j, c, o); } }
    r.push_back(conv_finish(fmt, acc, T.b.at(o), o, T, lim, over));
  }
  return r;
}
// transposed: out(y,x) = sum over input (iy,ix) and tap (i,j) with iy*s + i - pad = y
inline std::vector<i64> ref_tconv(int fmt, const Geo &g, const ConvTensors &T, int relu, bool *over) {
  std::vector<i64> r; int OH = T.out.dim(0), OW = T.out.dim(1);
  Lim lim = relu_limits(relu, T.out); int zi = fmt == SA8 ? T.in.zp() : 0;
  for (int y = 0; y < OH; y++) for (int x = 0; x < OW; x++) for (int o = 0; o < g.Co; o++) {
    i64 acc = 0;
    for (int iy = 0; iy < g.H; iy++) for (int ix = 0; ix < g.W; ix++) {
      int i = y + g.pt - iy * g.sh, j = x + g.pl - ix * g.sw;
      if (i < 0 || i >= g.kh || j < 0 || j >= g.kw) continue;
      for (int c = 0; c < g.Ci; c++) acc += (T.in.at(iy, ix, c) - zi) * T.w.at(i, j, c, o);
    }
    r.push_back(conv_finish(fmt, acc, T.b.at(o), o, T, lim, over));
  }
  return r;
}

typedef mli_status (*ConvFn)(const mli_tensor *, const mli_tensor *, const mli_tensor *, const mli_conv2d_cfg *, mli_tensor *);

inline ConvTensors makeConv(int fmt, const Geo &g, const Quant &q, int OH, int OW, std::vector<int> pi = {}, std::vector<int> pw = {}, std::vector<int> po = {}) {
  ConvTensors T;
  T.in = Ten(inT(fmt), {g.H, g.W, g.Ci}, pi); T.w = Ten(wT(fmt), {g.kh, g.kw, g.Ci / g.G, g.Co}, pw);
  T.b = Ten(bT(fmt), {g.Co}); T.out = Ten(inT(fmt), {OH, OW, g.Co}, po);
  setQuant(T, fmt, q, 3, g.Co);
  return T;
}
// data: pat for input/weights, bias magnitude comparable with the accumulator
inline void dataConv(ConvTensors &T, int fmt, int pat, uint32_t seed, i64 biasAmp) {
  fill(T.in, pat == P_ALT ? P_ALT : pat, seed); fill(T.w, pat == P_MIN ? P_MIN : pat, seed + 101);
  if (T.b.t.el_type == MLI_EL_SA_32) fill(T.b, P_RND, seed + 7, biasAmp); else fill(T.b, pat, seed + 7);
}
inline mli_conv2d_cfg convCfg(const Geo &g, int relu) {
  mli_conv2d_cfg c; memset(&c, 0, sizeof c); c.relu.type = (mli_relu_type)relu;
  c.stride_width = g.sw; c.stride_height = g.sh; c.padding_left = g.pl; c.padding_right = g.pr; c.padding_top = g.pt; c.padding_bottom = g.pb; c.dilation_width = g.dw; c.dilation_height = g.dh;
  return c;
}
inline void compareConv(mc::Case &cs, const char *key, const char *fn, const Geo &g, ConvTensors &T, mli_status st, const std::vector<i64> &r) {
  if (st != MLI_STATUS_OK) cs.fail(key, "%s: status %d on %s", fn, (int)st, g.str().c_str());
  size_t n = T.out.count(); int C = T.out.dim(2), OW = T.out.dim(1);
  for (size_t i = 0; i < n; i++) if (T.out.get(i) != r[i])
    cs.fail(key, "%s: out(%zu,%zu,%zu) = %" PRId64 ", expected %" PRId64 "; %s", fn, i / C / OW, i / C % OW, i % C, T.out.get(i), r[i], g.str().c_str());
}
// mapped axis picks ------------------------------------------------------------------------------------------------
struct Axis { int in, k, s, d, pb, pe; };
// all 1-D geometries up to the bounds, simplest first
inline std::vector<Axis> axes(int maxin, int maxk, int maxs, int maxd, int maxpad) {
  std::vector<Axis> v;
  for (int in = 1; in <= maxin; in++) for (int k = 1; k <= maxk; k++) for (int s = 1; s <= maxs; s++) for (int d = 1; d <= (k == 1 ? 1 : maxd); d++) {
    int e = (k - 1) * d + 1;
    for (int pb = 0; pb <= std::min(maxpad, e - 1); pb++) for (int pe = 0; pe <= std::min(maxpad, e - 1); pe++) if (in + pb + pe >= e) v.push_back({in, k, s, d, pb, pe});
  }
  return v;
}
// 1-D geometries of medium size: every kernel size up to 7 with every stride and dilation up to 3, five padding patterns, two input sizes
inline std::vector<Axis> mediumAxes(bool tr, int maxd) {
  std::vector<Axis> v;
  for (int k = 1; k <= 7; k++) for (int s = 1; s <= (tr ? std::min(k, 4) : 3); s++) for (int d = 1; d <= (k == 1 || tr ? 1 : maxd); d++) {
    int e = (k - 1) * d + 1; const int P[][2] = {{0, 0}, {e / 2, (e - 1) / 2}, {e - 1, 0}, {0, e - 1}, {std::min(1, e - 1), std::max(0, e - 2)}};
    for (int q = 0; q < (k == 1 ? 1 : 5); q++) for (int big = 0; big < 2; big++) { int in = tr ? (e - 1 + s - 1) / s + 1 + 3 * big : big ? e + 2 * s + 1 : std::max(1, e - P[q][0] - P[q][1] + s); v.push_back({in, k, s, d, P[q][0], P[q][1]}); }
  }
  return v;
}
inline Geo geo(const Axis &h, const Axis &w, int Ci, int Co, int G = 1) { return Geo{h.in, w.in, Ci, Co, h.k, w.k, h.s, w.s, h.d, w.d, h.pb, h.pe, w.pb, w.pe, G}; }
