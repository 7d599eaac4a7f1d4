// Drivers for the MLI 3.0 kernels: build the compile-time object from a parameter struct, bind it to memory, deploy it
// and compare every tile of every pass with a reference computed from the definition of the operation.
#pragma once
#include "k3.h"
#include "ref.h"
#include "mli_helpers_api.hpp"
namespace k3 {
using L::IteratorCfg; using L::TensorIterator;
inline void setNote(Case &c, const char *fmt, ...) { char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); c.note = b; }
inline int32_t wrap32(int64_t x) { return (int32_t)(uint32_t)(uint64_t)x; }
inline uint32_t bufBytes(const Op &o, const int *sz) { int e = 1; for (int i = 0; i < o.R; i++) e += (sz[i] - 1) * o.s[i]; return e * o.el; }
template <unsigned N, class I> inline void tileMax(const I &it, int *sz) { for (unsigned i = 0; i < N; i++) sz[i] = std::max(std::max((int)it.get_config().get_first_size(i), (int)it.get_config().get_size(i)), (int)it.get_config().get_last_size(i)); }
inline int zpOf(int kind, int c) { switch (kind) { case 0: return 0; case 1: return 7; case 2: return (c * 37 + 5) % 256 - 128; case 3: return -128; case 4: return 127; default: return c % 2 ? 127 : -128; } }

// ---- convolution family -------------------------------------------------------------------------------------------
struct ConvP {
  int kind = 0;                                   // 0 convolution, 1 depthwise, 2 transposed
  Win h{1, 1, 1, 1, 1, 0, 0, 1}, w{1, 1, 1, 1, 1, 0, 0, 1}; int b = 1, tb = 1, ci = 1, co = 1, toc = 1;
  int gi = 0, go = 0, gw = 0;                     // memory gaps
  int izk = 1, wzk = 2, vk = 0;                   // zero points, values
  int iface = 0;                                  // 0 iterators with input zp, 1 iterators without, 2 whole tensors (deprecated)
  int hist = 0, enc = 0;                          // deployment history; enc 1: private data taken before the parameters are encoded
  int fullbuf = 0, encf = 0;                      // encf 1: EncodeWeightsAndZeroPts / iterator form of EncodeInpZeroPts
};
struct ConvRef { Op in, wt, out; std::vector<int32_t> wz; int iz; };
// output geometry of the transposed convolution follows the input
inline bool finishDeconv(Win &w) { w.out = (w.in - 1) * w.s + w.k - w.p - w.pe; return w.out >= 1 && w.p < w.k && w.pe < w.k && w.s <= w.k && w.k <= (w.in - 1) * w.s + 1; }
// the kernels keep window parameters in 8 bits (known finding)
inline const char *over255(const Win &h, const Win &w, bool k = false) { for (auto *x : {&h, &w}) if (x->s > 255 || x->dil > 255 || x->p > 255 || x->pe > 255 || (k && x->k > 255)) return "window-over-255"; return nullptr; }
inline void convModel(const ConvP &p, ConvRef &m) {
  bool dw = p.kind == 1, tr = p.kind == 2;
  m.in.shape({p.b, p.h.in, p.w.in, 1, p.ci}, 1, p.gi); m.out.shape({p.b, p.h.out, p.w.out, 1, p.co}, 4, p.go);
  if (dw) m.wt.shape({p.h.k, p.w.k, p.co}, 1, p.gw); else m.wt.shape({1, p.h.k, p.w.k, p.ci, p.co}, 1, p.gw);
  fillOp(m.in, p.vk, 3); fillOp(m.wt, p.vk == 1 ? 4 : p.vk, 1017); m.iz = zpOf(p.izk, 1); for (int c = 0; c < p.co; c++) m.wz.push_back(zpOf(p.wzk, c));
  m.out.each([&](const int *o, int32_t &v) {
    int64_t a = 0; int b = o[0], oc = o[4];
    for (int i = 0; i < p.h.k; i++) for (int j = 0; j < p.w.k; j++) {
      int y, x; bool ok = true;
      if (!tr) { y = o[1] * p.h.s + i * p.h.dil - p.h.p; x = o[2] * p.w.s + j * p.w.dil - p.w.p; }
      else { y = o[1] + p.h.p - i; x = o[2] + p.w.p - j; ok = y >= 0 && x >= 0 && y % p.h.s == 0 && x % p.w.s == 0; if (ok) y /= p.h.s, x /= p.w.s; }
      ok = ok && y >= 0 && y < p.h.in && x >= 0 && x < p.w.in;
      for (int c = 0; c < (dw ? 1 : p.ci); c++) {
        int ii[5] = {b, y, x, 0, dw ? oc : c}, wi[5] = {0, i, j, c, oc}, di[3] = {i, j, oc};
        a += (int64_t)(ok ? m.in.v[m.in.at(ii)] : m.iz) * (m.wt.v[m.wt.at(dw ? di : wi)] - m.wz[oc]);
      }
    }
    v = wrap32(a);
  });
}
template <class RT, class CS> inline void convBind(Case &c, K3 &k, const ConvP &p, ConvRef &m, CS *cs, const int *ti, const int *to, int tco, unsigned tiles) {
  // weight tile: whole kernel, tco channels
  int tw[5]; for (int i = 0; i < m.wt.R; i++) tw[i] = m.wt.d[i]; tw[m.wt.R - 1] = tco; bool dw = p.kind == 1;
  int one[5]; (void)one;
  Region ri = k.alloc(0, p.fullbuf ? m.in.ext() : bufBytes(m.in, ti), 1), rw = k.alloc(1, p.fullbuf ? m.wt.ext() : bufBytes(m.wt, tw), 1), ro = k.alloc(p.hist & 1, p.fullbuf ? m.out.ext() * 4 : bufBytes(m.out, to), 4),
         rz = k.alloc(1, 1, 1), rwz = k.alloc(0, tco, 1);
  k.seal(); OB none(0, 0, 0, 1);
  if (cs->GetEncodedInpZeroPtsSize() != 1) c.fail("encoded-size", "%s: one input zero point, GetEncodedInpZeroPtsSize %u", k.what, cs->GetEncodedInpZeroPtsSize());
  if ((int)cs->GetEncodedWtsZeroPtsSize() != p.co) c.fail("encoded-size", "%s: %d weight zero points, GetEncodedWtsZeroPtsSize %u", k.what, p.co, cs->GetEncodedWtsZeroPtsSize());
  if ((int)cs->GetEncodedWeightsSize() < m.wt.ext()) c.fail("encoded-size", "%s: weights take %d elements, GetEncodedWeightsSize %u", k.what, m.wt.ext(), cs->GetEncodedWeightsSize());
  bool attached = false;
  if constexpr (!std::is_same<CS, L::TransposeConv2D_CS>::value) if (p.iface == 2 && ((p.co + p.h.k) & 1)) {      // the deprecated form for tensors of rank 4
    uint32_t d4[4] = {1, 1, 1, 1}; L::Tensor<OB, 4> i4(ri.ob(), d4), o4(ro.ob(), d4); OB wb = rw.ob(), zb = rz.ob(), wzb = rwz.ob(); attached = true;
    if (cs->AttachBufferOffsets(i4, o4, wb, zb, wzb, none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  }
  if (!attached && cs->AttachBufferOffsets(ri.ob(), ro.ob(), rw.ob(), rz.ob(), rwz.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  std::vector<int8_t> wsrc(m.wt.v.begin(), m.wt.v.end()), zsrc(m.wz.begin(), m.wz.end()), wenc(wsrc.size() + 8, 77), zenc(p.co + 8, 77); int8_t izs = (int8_t)m.iz, ize[2] = {55, 55};
  constexpr unsigned WR = std::is_same<CS, L::DepthwiseConv2d_CS>::value ? 3 : 5;
  uint32_t wd[WR]; int32_t ws_[WR]; for (unsigned i = 0; i < WR; i++) wd[i] = m.wt.d[i], ws_[i] = m.wt.s[i];
  auto encodeNew = [&] {
    uint32_t n = (uint32_t)wsrc.size(), zd[1] = {(uint32_t)p.co}, od[1] = {1}; std::vector<int8_t> e(n + p.co + 8, 77); Buf wb(wsrc.data(), n), zb(zsrc.data(), p.co), eb(e.data(), n + p.co), ib(&izs, 1), ie(ize, 1);
    L::Tensor<Buf, WR> wt(wb, wd, ws_); L::Tensor<Buf, 1> zt(zb, zd), itn(ib, od); TensorIterator<Buf, WR, 5> wi(wt); TensorIterator<Buf, 1, 5> zi(zt), ii(itn);
    if (cs->EncodeWeightsAndZeroPts(wi, zi, eb) != MLI_STATUS_OK) c.fail("status", "%s: EncodeWeightsAndZeroPts", k.what);
    if (cs->EncodeInpZeroPts(ii, ie) != MLI_STATUS_OK) c.fail("status", "%s: EncodeInpZeroPts", k.what);
    for (size_t i = 0; i < e.size(); i++) { int x = i < n ? wsrc[i] : i < n + p.co ? zsrc[i - n] : 77; if (e[i] != x) c.fail("encode", "%s: encoded weights and zero points, element %zu is %d, expected %d", k.what, i, e[i], x); }
    if (ize[0] != izs || ize[1] != 55) c.fail("encode", "%s: encoded input zero point %d %d", k.what, ize[0], ize[1]);
    memcpy(wenc.data(), e.data(), n); memcpy(zenc.data(), e.data() + n, p.co);
  };
  auto encode = [&] {
    if (p.encf) { encodeNew(); return; }
    uint32_t zd[1] = {(uint32_t)p.co}; Buf zb(zsrc.data(), p.co), ze(zenc.data(), p.co); L::Tensor<Buf, 1> zt(zb, zd);
    if (cs->EncodeWtsZeroPts(zt, ze) != MLI_STATUS_OK) c.fail("status", "%s: EncodeWtsZeroPts", k.what);
    uint32_t od[1] = {1}; Buf ib(&izs, 1), ie(ize, 1); L::Tensor<Buf, 1> itn(ib, od);
    if (cs->EncodeInpZeroPts(itn, ie) != MLI_STATUS_OK) c.fail("status", "%s: EncodeInpZeroPts", k.what);
    Buf wb(wsrc.data(), (uint32_t)wsrc.size()), we(wenc.data(), (uint32_t)wsrc.size());
    L::Tensor<Buf, WR> wt(wb, wd, ws_); if (cs->EncodeWeights(wt, we, L::compression_mode_t::Uncompressed) != MLI_STATUS_OK) c.fail("status", "%s: EncodeWeights", k.what);
    for (size_t i = 0; i < wenc.size(); i++) if (wenc[i] != (i < wsrc.size() ? wsrc[i] : 77)) c.fail("encode", "%s: encoded weight %zu is %d", k.what, i, wenc[i]);
    for (size_t i = 0; i < zenc.size(); i++) if (zenc[i] != (i < zsrc.size() ? zsrc[i] : 77)) c.fail("encode", "%s: encoded weight zero point %zu is %d", k.what, i, zenc[i]);
    if (ize[0] != izs || ize[1] != 55) c.fail("encode", "%s: encoded input zero point %d %d", k.what, ize[0], ize[1]);
  };
  if (!p.enc) encode(); k.finishCompile(cs); if (p.enc) encode();
  Op wenco = m.wt; for (size_t i = 0; i < wenco.v.size(); i++) wenco.v[i] = wenc[i];
  uint32_t is[5], os[5], ws[5]; int32_t io[5], oo[5], wo[5]; Tile it, ot, wt;
  auto sizes = [&](RT *r) { for (int i = 0; i < 5; i++) is[i] = os[i] = ws[i] = 0xabcd, io[i] = oo[i] = wo[i] = -77; r->GetIOSizesAndOffsets(is, os, ws, io, oo, wo); it = mkTile<5>(io, is); ot = mkTile<5>(oo, os); wt.R = m.wt.R; for (int i = 0; i < wt.R; i++) wt.pos[i] = wo[i], wt.sz[i] = ws[i];
    if (it.pos[0] >= 0 && it.pos[0] < p.b) { int nb = std::min(p.tb, p.b - it.pos[0]); if (it.sz[0] != nb || ot.sz[0] != nb) { c.fail(dw ? "dw-tile-batch-size" : "tile-range", "%s: the tile at batch %d covers %d batches, GetIOSizesAndOffsets reports %d (input) and %d (output)", k.what, it.pos[0], nb, it.sz[0], ot.sz[0]); it.sz[0] = ot.sz[0] = nb; } } };
  k.deploy<RT>(p.hist, tiles, m.out.cnt(), [&] { k.poke(rz, {(int32_t)ize[0]}); },
    [&](RT *r) { sizes(r); k.stage(m.in, it, ri); k.stage(wenco, wt, rw); int ax = wt.R - 1; std::vector<int32_t> z; for (int i = 0; i < wt.sz[ax]; i++) z.push_back(zenc[wt.pos[ax] + i]); k.poke(rwz, z); },
    [&](RT *, std::vector<uint8_t> &cov) { k.expect(m.out, ot, ro, cov); });
}
inline void runConv(Case &c, const ConvP &p, uint32_t seed) {
  if (!begin(c)) return; static const char *nm[] = {"Conv2d", "DepthwiseConv2d", "TransposeConv2D"}; K3 k(c, nm[p.kind], seed); k.obj4 = seed & 1; k.vkey = over255(p.h, p.w);
  setNote(c, "%s b %d/%d  h in %d out %d tile %d k %d s %d dil %d pad %d,%d  w in %d out %d tile %d k %d s %d dil %d pad %d,%d  ci %d co %d/%d gaps %d%d%d izp %d wzp %d val %d iface %d hist %d enc %d%d", nm[p.kind], p.b, p.tb,
    p.h.in, p.h.out, p.h.tile, p.h.k, p.h.s, p.h.dil, p.h.p, p.h.pe, p.w.in, p.w.out, p.w.tile, p.w.k, p.w.s, p.w.dil, p.w.p, p.w.pe, p.ci, p.co, p.toc, p.gi, p.go, p.gw, p.izk, p.wzk, p.vk, p.iface, p.hist, p.enc, p.encf);
  ConvRef m; convModel(p, m); L::PlatformDescription pd; LR::KernelsFactory f(pd);
  int32_t ord[5] = {0, 1, 2, 3, 4}; uint32_t ek[5] = {1, (uint32_t)p.h.ek(), (uint32_t)p.w.ek(), 1, (uint32_t)p.ci}, st[5] = {1, (uint32_t)p.h.s, (uint32_t)p.w.s, 1, 0}, pp[5] = {0, (uint32_t)p.h.p, (uint32_t)p.w.p, 0, 0};
  int32_t msk[5] = {1, 1, 1, 1, 0}, zord[5] = {-1, -1, -1, -1, 0}, dord[5] = {-1, 0, 1, -1, 2}; uint32_t one[1] = {1}, cod[1] = {(uint32_t)p.co}; L::Tensor<NB, 1> izt(one), wzt(cod);
  TensorIterator<NB, 1, 5> izi(izt); uint32_t tl[5] = {(uint32_t)p.tb, (uint32_t)p.h.tile, (uint32_t)p.w.tile, 1, (uint32_t)p.toc};
  int ti[5], to[5];
  if (p.kind == 2) {
    for (int i = 0; i < 3; i++) { }
    uint32_t itl[5] = {1, (uint32_t)p.h.tile, (uint32_t)p.w.tile, 1, (uint32_t)p.ci};
    L::TransposeConv2DConfig cfg(p.h.s, p.w.s, p.h.p, p.w.p, p.h.pe, p.w.pe);
    auto [ii, wi, zi, oi] = L::GetDeconvTensorIterators(m.in.nb<5>(), itl, m.out.nb<5>(), p.toc, m.wt.nb<5>(), ek, st, pp, ord);
    void *b = k.csbuf(f.TransposeConv2D_CS_GetSize(), seed ^ 3);
    auto *cs = p.iface ? f.TransposeConv2D_CS(b, ii, wi, zi, cfg, oi) : f.TransposeConv2D_CS(b, ii, izi, wi, zi, cfg, oi);
    tileMax<5>(ii, ti); tileMax<5>(oi, to); convBind<LR::TransposeConv2D>(c, k, p, m, cs, ti, to, std::min(p.toc, p.co), oi.GetTotalCount()); return;
  }
  TensorIterator<NB, 5, 5> oi(m.out.nb<5>(), tl, ord);
  if (p.kind == 1) { ek[4] = 1; st[4] = 1; }
  TensorIterator<NB, 5, 5> ii(m.in.nb<5>(), oi, ek, st, pp); tileMax<5>(ii, ti); tileMax<5>(oi, to);
  if (p.kind == 0) {
    TensorIterator<NB, 5, 5> wi(m.wt.nb<5>(), oi, nullptr, msk); TensorIterator<NB, 1, 5> zi(wzt, oi, zord, msk);
    L::Conv2DConfig cfg(p.h.s, p.w.s, p.h.p, p.w.p, p.h.pe, p.w.pe, p.h.dil, p.w.dil, 1); void *b = k.csbuf(f.Conv2d_CS_GetSize(), seed ^ 3);
    if (p.iface == 2) {
      uint32_t d[4]; int32_t s[4]; int q[4] = {0, 1, 2, 4}; for (int i = 0; i < 4; i++) d[i] = m.in.d[q[i]], s[i] = m.in.s[q[i]]; L::Tensor<NB, 4> in4(d, s); for (int i = 0; i < 4; i++) d[i] = m.out.d[q[i]], s[i] = m.out.s[q[i]]; L::Tensor<NB, 4> out4(d, s);
      auto *cs = f.Conv2d_CS(b, in4, m.wt.nb<5>(), cfg, out4); convBind<LR::Conv2d>(c, k, p, m, cs, m.in.d, m.out.d, p.co, 1); return;
    }
    auto *cs = p.iface ? f.Conv2d_CS(b, ii, wi, zi, cfg, oi) : f.Conv2d_CS(b, ii, izi, wi, zi, cfg, oi);
    convBind<LR::Conv2d>(c, k, p, m, cs, ti, to, to[4], oi.GetTotalCount());
  } else {
    TensorIterator<NB, 3, 5> wi(m.wt.nb<3>(), oi, dord, msk); TensorIterator<NB, 1, 5> zi(wzt, oi, zord, msk);
    L::DwConv2DConfig cfg(p.h.s, p.w.s, p.h.p, p.w.p, p.h.pe, p.w.pe, p.h.dil, p.w.dil); void *b = k.csbuf(f.DepthwiseConv2d_CS_GetSize(), seed ^ 3);
    if (p.iface == 2) {
      uint32_t d[4]; int32_t s[4]; int q[4] = {0, 1, 2, 4}; for (int i = 0; i < 4; i++) d[i] = m.in.d[q[i]], s[i] = m.in.s[q[i]]; L::Tensor<NB, 4> in4(d, s); for (int i = 0; i < 4; i++) d[i] = m.out.d[q[i]], s[i] = m.out.s[q[i]]; L::Tensor<NB, 4> out4(d, s);
      auto *cs = f.DepthwiseConv2d_CS(b, in4, m.wt.nb<3>(), cfg, out4); convBind<LR::DepthwiseConv2d>(c, k, p, m, cs, m.in.d, m.out.d, p.co, 1); return;
    }
    auto *cs = p.iface ? f.DepthwiseConv2d_CS(b, ii, wi, zi, cfg, oi) : f.DepthwiseConv2d_CS(b, ii, izi, wi, zi, cfg, oi);
    convBind<LR::DepthwiseConv2d>(c, k, p, m, cs, ti, to, to[4], oi.GetTotalCount());
  }
}
// ---- fully connected ----------------------------------------------------------------------------------------------
struct FcP { int ic = 1, oc = 1, gi = 0, go = 0, gw = 0, wzk = 2, per = 1, vk = 0, iface = 0, hist = 0, enc = 0; };   // per: zero point per channel; iface 0 iterators, 1 tensors, 2 tensors without zero point tensor
inline void runFc(Case &c, const FcP &p, uint32_t seed) {
  if (!begin(c)) return; setNote(c, "FullyConnected ic %d oc %d gaps %d%d%d wzp %d %s val %d iface %d hist %d enc %d", p.ic, p.oc, p.gi, p.go, p.gw, p.wzk, p.per ? "per channel" : "per tensor", p.vk, p.iface, p.hist, p.enc);
  K3 k(c, "FullyConnected", seed); k.obj4 = seed & 1; Op in, wt, out; in.shape({1, p.ic}, 1, p.gi); wt.shape({p.ic, p.oc}, 1, p.gw); out.shape({1, p.oc}, 4, p.go); fillOp(in, p.vk, 3); fillOp(wt, p.vk == 1 ? 4 : p.vk, 555);
  int nz = p.per ? p.oc : 1; std::vector<int8_t> zsrc, wsrc(wt.v.begin(), wt.v.end()); for (int i = 0; i < nz; i++) zsrc.push_back(zpOf(p.wzk, i));
  out.each([&](const int *o, int32_t &v) { int64_t a = 0; for (int i = 0; i < p.ic; i++) { int ii[2] = {0, i}, wi[2] = {i, o[1]}; a += (int64_t)in.v[in.at(ii)] * (wt.v[wt.at(wi)] - zsrc[p.per ? o[1] : 0]); } v = wrap32(a); });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); uint32_t zd[1] = {(uint32_t)nz}; L::Tensor<NB, 1> zt(zd); void *b = k.csbuf(f.FullyConnected_CS_GetSize(), seed ^ 3); L::FullyConnected_CS *cs;
  constexpr unsigned IR = L::kFullyConnectedIterRank; using I2 = TensorIterator<NB, 2, IR>;
  if (p.iface == 0) cs = f.FullyConnected_CS(b, I2(in.nb<2>()), I2(wt.nb<2>()), TensorIterator<NB, 1, IR>(zt), L::FullyConnectedConfig(), I2(out.nb<2>()));
  else if (p.iface == 1) cs = f.FullyConnected_CS(b, in.nb<2>(), wt.nb<2>(), zt, out.nb<2>());
  else cs = f.FullyConnected_CS(b, in.nb<2>(), wt.nb<2>(), out.nb<2>());
  unsigned wn = cs->GetWeightsBufferSize(); if ((int)wn < wt.ext() || (int)cs->GetInputBufferSize() < in.ext() || (int)cs->GetOutputBufferSize() < out.ext() || (int)cs->GetEncodedWeightsSize() < wt.ext()) c.fail("buffer-size", "%s: reports %u input, %u weight, %u output elements for %d, %d, %d", k.what, cs->GetInputBufferSize(), wn, cs->GetOutputBufferSize(), in.ext(), wt.ext(), out.ext());
  if (p.iface < 2 && (int)cs->GetEncodedWtsZeroPtsSize() != nz) c.fail("encoded-size", "%s: %d weight zero points, GetEncodedWtsZeroPtsSize %u", k.what, nz, cs->GetEncodedWtsZeroPtsSize());
  wsrc.resize(wn, 33); int tot = wn + nz; Region ri = k.alloc(0, cs->GetInputBufferSize(), 1), ro = k.alloc(p.hist & 1, cs->GetOutputBufferSize() * 4, 4), rw, rz;
  if (p.iface == 0) rw = k.alloc(1, tot, 1); else rw = k.alloc(1, wn, 1), rz = k.alloc(0, nz * 2, 2);
  k.seal(); OB none(0, 0, 0, 1); std::vector<int8_t> e(tot + 8, 77); std::vector<int16_t> ez(nz + 4, 0x1234);
  if (p.iface == 0) { if (cs->AttachBufferOffsets(ri.ob(), ro.ob(), rw.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  else { uint32_t d[2] = {1, (uint32_t)p.ic}, od[2] = {1, (uint32_t)p.oc}; L::Tensor<OB, 2> ti(ri.ob(), d), to(ro.ob(), od); if (cs->AttachBufferOffsets(ti, to, rw.ob(), rz.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  auto encode = [&] {
    uint32_t wd[2] = {(uint32_t)p.ic, (uint32_t)p.oc}; int32_t ws[2] = {wt.s[0], wt.s[1]}; Buf wb(wsrc.data(), wn), zb(zsrc.data(), nz); L::Tensor<Buf, 2> wtt(wb, wd, ws); L::Tensor<Buf, 1> ztt(zb, zd);
    if (p.iface == 0) { Buf eb(e.data(), tot); TensorIterator<Buf, 2, IR> wi(wtt); TensorIterator<Buf, 1, IR> zi(ztt); if (cs->EncodeWeightsAndZeroPts(wi, zi, eb) != MLI_STATUS_OK) c.fail("status", "%s: EncodeWeightsAndZeroPts", k.what);
      for (int i = 0; i < tot + 8; i++) { int x = i < (int)wn ? wsrc[i] : i < tot ? zsrc[i - wn] : 77; if (e[i] != x) c.fail("encode", "%s: encoded weights and zero points, element %d is %d, expected %d", k.what, i, e[i], x); } }
    else { Buf eb(e.data(), wn); if (cs->EncodeWeights(wtt, eb) != MLI_STATUS_OK) c.fail("status", "%s: EncodeWeights", k.what); for (int i = 0; i < tot + 8; i++) if (e[i] != (i < (int)wn ? wsrc[i] : 77)) c.fail("encode", "%s: encoded weights, element %d is %d", k.what, i, e[i]);
      std::vector<int8_t> zs2(zsrc); zs2.resize(nz * 2); Buf zb2(zs2.data(), nz * 2), ezb(ez.data(), nz * 2, 2); L::Tensor<Buf, 1> zt2(zb2, zd);
      if (p.iface == 1) { if (cs->EncodeWtsZeroPts(zt2, ezb) != MLI_STATUS_OK) c.fail("status", "%s: EncodeWtsZeroPts", k.what); for (int i = 0; i < nz + 4; i++) if (ez[i] != (i < nz ? zsrc[i] : 0x1234)) c.fail("encode", "%s: encoded zero point %d is %d", k.what, i, ez[i]); }
      else for (int i = 0; i < nz; i++) ez[i] = zsrc[i]; }
  };
  if (!p.enc) encode(); k.finishCompile(cs); if (p.enc) encode();
  Tile ti{2, {0, 0}, {1, p.ic}}, to{2, {0, 0}, {1, p.oc}};
  k.deploy<LR::FullyConnected>(p.hist, 1, out.cnt(), [&] { k.pokeBytes(rw, (uint8_t *)e.data(), p.iface ? wn : tot); if (p.iface) k.pokeBytes(rz, (uint8_t *)ez.data(), nz * 2); },
    [&](LR::FullyConnected *) { k.stage(in, ti, ri); }, [&](LR::FullyConnected *, std::vector<uint8_t> &cov) { k.expect(out, to, ro, cov); });
}

// ---- matrix multiplication ----------------------------------------------------------------------------------------
struct MmP { int h = 1, k = 1, w = 1, th = 1, tw = 1, gl = 0, gr = 0, go = 0, lz = 0, rz = 0, vk = 0, hist = 0, enc = 0; };
inline void runMatmul(Case &c, const MmP &p, uint32_t seed) {
  if (!begin(c)) return; setNote(c, "MatMul h %d/%d k %d w %d/%d gaps %d%d%d zp %d %d val %d hist %d enc %d", p.h, p.th, p.k, p.w, p.tw, p.gl, p.gr, p.go, p.lz, p.rz, p.vk, p.hist, p.enc);
  K3 k(c, "MatMul", seed); k.obj4 = seed & 1; Op l, r, o; l.shape({p.h, p.k}, 1, p.gl); r.shape({p.k, p.w}, 1, p.gr); o.shape({p.h, p.w}, 4, p.go); fillOp(l, p.vk, 3); fillOp(r, p.vk == 1 ? 4 : p.vk, 777);
  o.each([&](const int *i, int32_t &v) { int64_t a = 0; for (int q = 0; q < p.k; q++) { int li[2] = {i[0], q}, ri[2] = {q, i[1]}; a += (int64_t)(l.v[l.at(li)] - p.lz) * (r.v[r.at(ri)] - p.rz); } v = wrap32(a); });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); int32_t ord[2] = {0, 1}, ml[2] = {0, 1}, mr[2] = {1, 0}; uint32_t ot[2] = {(uint32_t)p.th, (uint32_t)p.tw};
  TensorIterator<NB, 2, 2> oi(o.nb<2>(), ot, ord), li(l.nb<2>(), oi, ord, ml), ri(r.nb<2>(), oi, ord, mr);
  auto *cs = f.MatMul_CS(k.csbuf(f.MatMul_CS_GetSize(), seed ^ 3), li, ri, oi);
  int tl[2] = {p.th, p.k}, tr[2] = {p.k, p.tw}, to[2] = {p.th, p.tw}; Region rl = k.alloc(0, bufBytes(l, tl), 1), rr = k.alloc(1, bufBytes(r, tr), 1), ro = k.alloc(p.hist & 1, bufBytes(o, to), 4), rp = k.alloc(1, 2, 1); k.seal(); OB none(0, 0, 0, 1);
  if (cs->AttachBufferOffsets(rl.ob(), rr.ob(), ro.ob(), rp.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  int8_t e[4] = {77, 77, 77, 77}, z1 = (int8_t)p.lz, z2 = (int8_t)p.rz; if (cs->GetEncodedParamsSize() != 2) c.fail("encoded-size", "%s: GetEncodedParamsSize %u", k.what, cs->GetEncodedParamsSize());
  auto encode = [&] { Buf b1(&z1, 1), b2(&z2, 1), be(e, 2); if (cs->EncodeParams(b1, b2, be) != MLI_STATUS_OK) c.fail("status", "%s: EncodeParams", k.what); if (e[2] != 77) c.fail("encode", "%s: EncodeParams writes more than 2 bytes", k.what); };
  if (!p.enc) encode(); k.finishCompile(cs); if (p.enc) encode();
  Tile A, B, O; auto sizes = [&](LR::MatMul *q) { uint32_t a[2], b[2], s[2]; int32_t x[2], y[2], z[2]; q->GetIOSizesAndOffsets(a, b, s, x, y, z); A = mkTile<2>(x, a); B = mkTile<2>(y, b); O = mkTile<2>(z, s); };
  k.deploy<LR::MatMul>(p.hist, oi.GetTotalCount(), o.cnt(), [&] { k.pokeBytes(rp, (uint8_t *)e, 2); }, [&](LR::MatMul *q) { sizes(q); k.stage(l, A, rl); k.stage(r, B, rr); }, [&](LR::MatMul *, std::vector<uint8_t> &cov) { k.expect(o, O, ro, cov); });
}

// ---- pooling ------------------------------------------------------------------------------------------------------
struct PoolP { int kind = 0; /* 0 max int8, 1 max int16, 2 sum */ Win h{1, 1, 1, 1, 1, 0, 0, 1}, w{1, 1, 1, 1, 1, 0, 0, 1}; int b = 1, tb = 1, c = 1, tc = 1, gi = 0, go = 0, vk = 0, iface = 0, hist = 0; };
template <class RT, class CS> inline void poolBind(Case &c, K3 &k, const PoolP &p, Op &in, Op &out, CS *cs, const int *ti, const int *to, unsigned tiles) {
  Region ri = k.alloc(0, bufBytes(in, ti), in.el), ro = k.alloc(p.hist & 1, bufBytes(out, to), out.el); k.seal(); OB none(0, 0, 0, 1);
  if (p.iface < 2) { if (cs->AttachBufferOffsets(ri.ob(), ro.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  else { uint32_t a[4], b[4]; for (int i = 0; i < 4; i++) a[i] = in.d[i], b[i] = out.d[i]; L::Tensor<OB, 4> x(ri.ob(), a), y(ro.ob(), b); if (cs->AttachBufferOffsets(x, y, none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  if ((int)cs->GetInputBufferSize() < in.ext() || (int)cs->GetOutputBufferSize() < out.ext()) c.fail("buffer-size", "%s: buffers of %u and %u elements reported, %d and %d needed", k.what, cs->GetInputBufferSize(), cs->GetOutputBufferSize(), in.ext(), out.ext());
  k.finishCompile(cs); Tile A, O; auto sizes = [&](RT *q) { uint32_t a[4], s[4]; int32_t x[4], z[4]; q->GetIOSizesAndOffsets(a, s, x, z); A = mkTile<4>(x, a); O = mkTile<4>(z, s); };
  k.deploy<RT>(p.hist, tiles, out.cnt(), [] {}, [&](RT *q) { sizes(q); k.stage(in, A, ri); }, [&](RT *, std::vector<uint8_t> &cov) { k.expect(out, O, ro, cov); });
}
inline void runPool(Case &c, const PoolP &p, uint32_t seed) {
  if (!begin(c)) return; static const char *nm[] = {"MaxPool2D int8", "MaxPool2D int16", "SumPool2D"}; K3 k(c, nm[p.kind], seed); k.obj4 = seed & 1; k.vkey = over255(p.h, p.w, true);
  setNote(c, "%s b %d/%d c %d/%d  h in %d out %d tile %d k %d s %d pad %d,%d  w in %d out %d tile %d k %d s %d pad %d,%d gaps %d%d val %d iface %d hist %d", nm[p.kind], p.b, p.tb, p.c, p.tc, p.h.in, p.h.out, p.h.tile, p.h.k, p.h.s, p.h.p, p.h.pe, p.w.in, p.w.out, p.w.tile, p.w.k, p.w.s, p.w.p, p.w.pe, p.gi, p.go, p.vk, p.iface, p.hist);
  int el = p.kind == 1 ? 2 : 1; Op in, out; in.shape({p.b, p.h.in, p.w.in, p.c}, el, p.gi); out.shape({p.b, p.h.out, p.w.out, p.c}, p.kind == 2 ? 4 : el, p.go); fillOp(in, p.vk, 9);
  out.each([&](const int *o, int32_t &v) { bool first = true; int64_t a = 0; for (int i = 0; i < p.h.k; i++) for (int j = 0; j < p.w.k; j++) { int ii[4] = {o[0], o[1] * p.h.s + i - p.h.p, o[2] * p.w.s + j - p.w.p, o[3]}; if (ii[1] < 0 || ii[1] >= p.h.in || ii[2] < 0 || ii[2] >= p.w.in) continue;
      int x = in.v[in.at(ii)]; a = p.kind == 2 ? a + x : first ? x : std::max<int64_t>(a, x); first = false; } v = (int32_t)a; });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); int32_t ord[4] = {0, 1, 2, 3}; uint32_t ek[4] = {1, (uint32_t)p.h.k, (uint32_t)p.w.k, 1}, st[4] = {1, (uint32_t)p.h.s, (uint32_t)p.w.s, 1}, pp[4] = {0, (uint32_t)p.h.p, (uint32_t)p.w.p, 0}, tl[4] = {(uint32_t)p.tb, (uint32_t)p.h.tile, (uint32_t)p.w.tile, (uint32_t)p.tc};
  TensorIterator<NB, 4, 4> oi(out.nb<4>(), tl, ord), ii(in.nb<4>(), oi, ek, st, pp); int ti[4], to[4]; tileMax<4>(ii, ti); tileMax<4>(oi, to); L::PoolOpConfig cfg(p.h.k, p.w.k, p.h.s, p.w.s, p.h.p, p.w.p, p.h.pe, p.w.pe);
  unsigned tiles = oi.GetTotalCount(); if (p.iface == 2) { tiles = 1; for (int i = 0; i < 4; i++) ti[i] = in.d[i], to[i] = out.d[i]; }
  if (p.kind == 2) { void *b = k.csbuf(f.SumPool2D_CS_GetSize(), seed ^ 3); auto *cs = p.iface == 2 ? f.SumPool2D_CS(b, in.nb<4>(), cfg, out.nb<4>()) : f.SumPool2D_CS(b, ii, cfg, oi); poolBind<LR::SumPool2D>(c, k, p, in, out, cs, ti, to, tiles); }
  else { void *b = k.csbuf(f.MaxPool2D_CS_GetSize(), seed ^ 3); auto *cs = p.iface == 2 ? f.MaxPool2D_CS(b, in.nb<4>(), cfg, out.nb<4>()) : f.MaxPool2D_CS(b, ii, cfg, oi); poolBind<LR::MaxPool2D>(c, k, p, in, out, cs, ti, to, tiles); }
}

// ---- reductions ---------------------------------------------------------------------------------------------------
struct RedP { int sum = 0, el = 1, axis = 0, d[4] = {1, 1, 1, 1}, t[4] = {1, 1, 1, 1}, gi = 0, go = 0, vk = 0, hist = 0; };
template <class RT, class CS> inline void redBind(Case &c, K3 &k, const RedP &p, Op &in, Op &out, CS *cs, const int *ti, const int *to, unsigned tiles) {
  Region ri = k.alloc(0, bufBytes(in, ti), p.el), ro = k.alloc(p.hist & 1, bufBytes(out, to), p.el); k.seal(); OB none(0, 0, 0, 1);
  if (cs->AttachBufferOffsets(ri.ob(), ro.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); k.finishCompile(cs);
  Tile A, O; auto sizes = [&](RT *q) { uint32_t a[4], s[4]; int32_t x[4], z[4]; q->GetIOSizesAndOffsets(a, s, x, z); A = mkTile<4>(x, a); O = mkTile<4>(z, s); };
  k.deploy<RT>(p.hist, tiles, out.cnt(), [] {}, [&](RT *q) { sizes(q); k.stage(in, A, ri); }, [&](RT *, std::vector<uint8_t> &cov) { k.expect(out, O, ro, cov); });
}
inline void runReduce(Case &c, const RedP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, p.sum ? "ReduceSum" : "ReduceMax", seed); k.obj4 = seed & 1;
  setNote(c, "%s int%d axis %d shape %d/%d %d/%d %d/%d %d/%d gaps %d%d val %d hist %d", k.what, p.el * 8, p.axis, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.gi, p.go, p.vk, p.hist);
  Op in, out; int od[4]; for (int i = 0; i < 4; i++) od[i] = i == p.axis ? 1 : p.d[i]; in.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.el, p.gi); out.shape({od[0], od[1], od[2], od[3]}, p.el, p.go); fillOp(in, p.vk, 5);
  if (p.sum) in.each([&](const int *, int32_t &v) { v /= p.d[p.axis]; });   // partial sums stay in the type: precondition
  out.each([&](const int *o, int32_t &v) { int64_t a = 0; for (int i = 0; i < p.d[p.axis]; i++) { int j[4] = {o[0], o[1], o[2], o[3]}; j[p.axis] = i; int x = in.v[in.at(j)]; a = p.sum ? a + x : i ? std::max<int64_t>(a, x) : x; } v = (int32_t)a; });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); int32_t ord[4] = {0, 1, 2, 3}; uint32_t it[4], ot[4]; for (int i = 0; i < 4; i++) it[i] = i == p.axis ? p.d[i] : p.t[i], ot[i] = i == p.axis ? 1 : p.t[i];
  TensorIterator<NB, 4, 4> oi(out.nb<4>(), ot, ord), ii(in.nb<4>(), it, ord); int ti[4], to[4]; for (int i = 0; i < 4; i++) ti[i] = it[i], to[i] = ot[i]; unsigned tiles = oi.GetTotalCount(); if (ii.GetTotalCount() != tiles) c.fail("harness", "tile counts");
  if (p.sum) { auto *cs = f.ReduceSum_CS(k.csbuf(f.ReduceSum_CS_GetSize(), seed ^ 3), ii, L::ReduceOpConfig(p.axis), oi); redBind<LR::ReduceSum>(c, k, p, in, out, cs, ti, to, tiles); }
  else { auto *cs = f.ReduceMax_CS(k.csbuf(f.ReduceMax_CS_GetSize(), seed ^ 3), ii, L::ReduceOpConfig(p.axis), oi); redBind<LR::ReduceMax>(c, k, p, in, out, cs, ti, to, tiles); }
}

// ---- element-wise -------------------------------------------------------------------------------------------------
struct EltP { int op = 0; /* add sub mul max min */ int el = 1, d[4] = {1, 1, 1, 1}, t[4] = {1, 1, 1, 1}, bc = 0; /* 1 left scalar 2 right scalar */ int gl = 0, gr = 0, go = 0, vl = 0, vr = 0, iface = 0, hist = 0, ord = 0; };
static const int32_t ORDERS[][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}};
inline void reorder(int32_t *pos, int o) { int32_t t[4]; for (int i = 0; i < 4; i++) t[ORDERS[o][i]] = pos[i]; memcpy(pos, t, sizeof t); }   // positions come in iteration order, sizes in tensor order
inline int32_t satTo(int64_t v, int el) { int64_t lo = el == 1 ? -128 : el == 2 ? -32768 : INT32_MIN; return (int32_t)std::min(std::max(v, lo), -lo - 1); }
template <class RT, class CS> inline void eltBind(Case &c, K3 &k, const EltP &p, Op &l, Op &r, Op &o, CS *cs, unsigned tiles) {
  int whole[4]; const int *tt = p.iface == 1 ? p.d : p.t; (void)whole; int one[4] = {1, 1, 1, 1};
  Region rl = k.alloc(0, bufBytes(l, p.bc == 1 ? one : tt), l.el), rr = k.alloc(1, bufBytes(r, p.bc == 2 ? one : tt), r.el), ro = k.alloc(p.hist & 1, bufBytes(o, tt), o.el); k.seal(); OB none(0, 0, 0, 1);
  if (p.iface == 0) { if (cs->AttachBufferOffsets(rl.ob(), rr.ob(), ro.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  else { uint32_t a[4], b[4], d[4]; for (int i = 0; i < 4; i++) a[i] = l.d[i], b[i] = r.d[i], d[i] = o.d[i]; L::Tensor<OB, 4> x(rl.ob(), a), y(rr.ob(), b), z(ro.ob(), d); if (cs->AttachBufferOffsets(x, y, z, none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  if ((int)cs->GetInputLeftBufferSize() < l.ext() || (int)cs->GetInputRightBufferSize() < r.ext() || (int)cs->GetOutputBufferSize() < o.ext()) c.fail("buffer-size", "%s: buffers of %u, %u and %u elements reported, %d, %d and %d needed", k.what, cs->GetInputLeftBufferSize(), cs->GetInputRightBufferSize(), cs->GetOutputBufferSize(), l.ext(), r.ext(), o.ext());
  k.finishCompile(cs); Tile A, B, O; auto sizes = [&](RT *q) { uint32_t a[4], b[4], s[4]; int32_t x[4], y[4], z[4]; q->GetIOSizesAndOffsets(a, b, s, x, y, z); reorder(x, p.ord); reorder(y, p.ord); reorder(z, p.ord); A = mkTile<4>(x, a); B = mkTile<4>(y, b); O = mkTile<4>(z, s); };
  Tile whole1{4, {0, 0, 0, 0}, {1, 1, 1, 1}};
  k.deploy<RT>(p.hist, tiles, o.cnt(), [&] { if (l.cnt() == 1) k.stage(l, whole1, rl); if (r.cnt() == 1) k.stage(r, whole1, rr); },
    [&](RT *q) { sizes(q); k.stage(l, A, rl); k.stage(r, B, rr); }, [&](RT *, std::vector<uint8_t> &cov) { k.expect(o, O, ro, cov); });
}
inline void runElt(Case &c, const EltP &p, uint32_t seed) {
  if (!begin(c)) return; static const char *nm[] = {"Add", "Sub", "Mul", "Max", "Min"}; K3 k(c, nm[p.op], seed); k.obj4 = seed & 1;
  setNote(c, "%s int%d shape %d/%d %d/%d %d/%d %d/%d bc %d gaps %d%d%d val %d %d iface %d hist %d order %d", k.what, p.el * 8, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.bc, p.gl, p.gr, p.go, p.vl, p.vr, p.iface, p.hist, p.ord);
  Op l, r, o; if (p.bc == 1) l.shape({1, 1, 1, 1}, p.el, p.gl); else l.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.el, p.gl); if (p.bc == 2) r.shape({1, 1, 1, 1}, p.el, p.gr); else r.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.el, p.gr);
  o.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.op == 2 ? 4 : p.el, p.go); fillOp(l, p.vl, p.vl > 4 ? 0 : 5); fillOp(r, p.vr, p.vr > 4 ? 0 : 90);
  o.each([&](const int *i, int32_t &v) { int z[4] = {0, 0, 0, 0}; int64_t a = l.v[l.at(p.bc == 1 ? z : i)], b = r.v[r.at(p.bc == 2 ? z : i)]; v = p.op == 0 ? satTo(a + b, p.el) : p.op == 1 ? satTo(a - b, p.el) : p.op == 2 ? (int32_t)(a * b) : p.op == 3 ? std::max(a, b) : std::min(a, b); });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); uint32_t tl[4], one[4] = {1, 1, 1, 1}; for (int i = 0; i < 4; i++) tl[i] = p.t[i]; (void)one;
  using I4 = TensorIterator<NB, 4, 4>; int32_t all1[4] = {1, 1, 1, 1}; I4 oi(o.nb<4>(), tl, ORDERS[p.ord]); unsigned tiles = p.iface ? 1 : oi.GetTotalCount();
  auto mk = [&](Op &q, bool sc) { return sc ? I4(q.nb<4>(), oi, nullptr, all1) : I4(q.nb<4>(), tl, ORDERS[p.ord]); }; I4 li = mk(l, p.bc == 1), ri = mk(r, p.bc == 2);
#define ELT(N) { void *b = k.csbuf(f.N##_CS_GetSize(), seed ^ 3); auto *cs = p.iface ? f.N##_CS(b, l.nb<4>(), r.nb<4>(), o.nb<4>()) : f.N##_CS(b, li, ri, oi); eltBind<LR::N>(c, k, p, l, r, o, cs, tiles); }
  switch (p.op) { case 0: ELT(Add) break; case 1: ELT(Sub) break; case 2: ELT(Mul) break; case 3: ELT(Max) break; default: ELT(Min) }
#undef ELT
}

// ---- rescale, clip, parametric ReLU ---------------------------------------------------------------------------------
// tiles of a tensor in the order of an iterator over it (iterators themselves are C26's subject)
template <unsigned N> struct Walk {
  std::vector<Tile> t; size_t i = 0; Walk(const int *d) { Tile a; a.R = N; for (unsigned k = 0; k < N; k++) a.pos[k] = 0, a.sz[k] = d[k]; t.push_back(a); }   // one tile, the whole tensor
  Walk(TensorIterator<NB, N, N> it, const int32_t *ord) {
    unsigned n = it.GetTotalCount(); it.Reset();
    for (unsigned k = 0; k < n; k++) { int32_t p[N], q[N]; it.get_pos(p); for (unsigned d = 0; d < N; d++) q[ord[d]] = p[d]; uint32_t s[N]; it.GetSubTensor().get_dims(s); t.push_back(mkTile<N>(q, s)); it.Next(); }
  }
  const Tile &cur() const { return t[i % t.size()]; }
};
inline int32_t scaleOf(int kind, int c) { switch (kind) { case 0: return (c * 7919 + 1234) % 32768; case 1: return 32767; case 2: return -32768; case 3: return c % 2 ? -32768 : 32767; case 4: return 1; default: return c % 3 - 1; } }
inline int32_t shiftOf(int kind, int c) { switch (kind) { case 0: return 15 + c % 9; case 1: return 0; case 2: return -3 - c % 7; case 3: return 63; case 4: return 127; case 5: return -128; case 6: return c % 2 ? -63 : 62; case 7: return 1 + c % 3; default: return 30 + c % 12; } }
inline int32_t biasOf(int kind, int c, int el) { switch (kind) { case 0: return 0; case 1: return satTo(c * 3 - 1, el); case 2: return satTo(c % 2 ? INT32_MAX : INT32_MIN, el); case 3: return satTo(c % 2 ? INT32_MIN : INT32_MAX, el); default: return satTo((c + 1) * 1000003, el) / 3; } }
inline int32_t rescaleOne(int64_t x, int64_t ib, int64_t sc, int sh, int64_t ob, int oe) {
  int64_t v = satn((i128)x - ib, 32); v = shr(v * sc, std::max(-63, std::min(sh, 63)), 64); return (int32_t)satn((i128)v + ob, oe * 8);
}
struct RsP { int ie = 4, oe = 1, axis = -1, d[4] = {1, 1, 1, 1}, t[4] = {1, 1, 1, 1}, gi = 0, go = 0, vk = 0, sk = 0, hk = 0, ik = 0, ok = 0, hist = 0, enc = 0, ip = 0, whole = 0; };
inline void runRescale(Case &c, const RsP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, "Rescale", seed); k.obj4 = seed & 1;
  setNote(c, "Rescale int%d->int%d axis %d shape %d/%d %d/%d %d/%d %d/%d gaps %d%d val %d scale %d shift %d in_bias %d out_bias %d hist %d enc %d in-place %d", p.ie * 8, p.oe * 8, p.axis, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.gi, p.go, p.vk, p.sk, p.hk, p.ik, p.ok, p.hist, p.enc, p.ip);
  Op in, out; in.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.ie, p.gi); out.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.oe, p.ip ? p.gi : p.go); fillOp(in, p.vk, p.vk > 4 ? 0 : 11);
  int n = p.axis < 0 ? 1 : p.d[p.axis]; std::vector<int32_t> ib, sc, sh, ob; for (int i = 0; i < n; i++) ib.push_back(biasOf(p.ik, i, p.ie)), sc.push_back(scaleOf(p.sk, i)), sh.push_back(shiftOf(p.hk, i)), ob.push_back(biasOf(p.ok, i, p.oe));
  out.each([&](const int *o, int32_t &v) { int a = p.axis < 0 ? 0 : o[p.axis]; v = rescaleOne(in.v[in.at(o)], ib[a], sc[a], sh[a], ob[a], p.oe); });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); int32_t ord[4] = {0, 1, 2, 3}; uint32_t tl[4]; for (int i = 0; i < 4; i++) tl[i] = p.t[i]; using I4 = TensorIterator<NB, 4, 4>;
  I4 ii = p.whole ? I4(in.nb<4>()) : I4(in.nb<4>(), tl, ord), oi = p.whole ? I4(out.nb<4>()) : I4(out.nb<4>(), tl, ord); const int *tt = p.whole ? p.d : p.t;
  uint32_t ed[1] = {(uint32_t)n}; L::Tensor<NB, 1> et(ed); int32_t eo[4], ez[4]; for (int i = 0; i < 4; i++) eo[i] = i == p.axis ? 0 : L::kSkipIterDim, ez[i] = i != p.axis;
  TensorIterator<NB, 1, 4> ei(et, oi, eo, ez); auto *cs = f.Rescale_CS(k.csbuf(f.Rescale_CS_GetSize(), seed ^ 3), ii, L::RescaleConfig(p.axis), ei, oi);
  if ((int)cs->GetInputBufferSize() < in.ext() || (int)cs->GetOutputBufferSize() < out.ext()) c.fail("buffer-size", "%s: buffers of %u and %u elements reported, %d and %d needed", k.what, cs->GetInputBufferSize(), cs->GetOutputBufferSize(), in.ext(), out.ext());
  int es = p.ie + 2 + 1 + p.oe; std::vector<uint8_t> enc(11 * n + 16, 0x77), raw[4]; auto put = [&](int q, const std::vector<int32_t> &v, int el) { raw[q].resize(v.size() * el); for (size_t i = 0; i < v.size(); i++) wrm(&raw[q][i * el], el, v[i]); }; put(0, ib, p.ie); put(1, sc, 2); put(2, sh, 1); put(3, ob, p.oe);
  auto encode = [&] {
    if ((int)cs->GetEncodedParamsSize() < es * n) c.fail("encoded-size", "%s: %d parameters of %d bytes, GetEncodedParamsSize %u", k.what, n, es, cs->GetEncodedParamsSize());
    Buf a(raw[0].data(), n * p.ie, p.ie), b(raw[1].data(), n * 2, 2), d(raw[2].data(), n, 1), e(raw[3].data(), n * p.oe, p.oe), eb(enc.data(), es * n, 1); L::Tensor<Buf, 1> ta(a, ed), tb(b, ed), td(d, ed), te(e, ed);
    if (cs->EncodeParams(ta, tb, td, te, eb) != MLI_STATUS_OK) c.fail("status", "%s: EncodeParams", k.what);
    size_t o = 0; for (auto &r : raw) { for (uint8_t x : r) { if (enc[o] != x) c.fail("encode", "%s: encoded parameters, byte %zu is %02x, expected %02x", k.what, o, enc[o], x); o++; } } for (; o < enc.size(); o++) if (enc[o] != 0x77) c.fail("encode", "%s: EncodeParams wrote byte %zu of %d", k.what, o, es * n);
    if ((int)cs->GetEncodedParamsSize() != es * n) c.fail("encoded-size", "%s: after encoding %d bytes GetEncodedParamsSize is %u", k.what, es * n, cs->GetEncodedParamsSize());
  };
  if (!p.enc) encode(); uint32_t epb = cs->GetEncodedParamsSize(); auto bytes = [&](const Op &o) { return bufBytes(o, tt); };
  // equal element counts are required of the two buffers
  uint32_t ne = std::max(bytes(in) / p.ie, bytes(out) / p.oe); Region ri = k.alloc(0, ne * p.ie, p.ie), ro = p.ip ? ri : k.alloc(p.hist & 1, ne * p.oe, p.oe), rp = k.alloc(1, epb, 4); rp.el = 1; k.seal(); OB none(0, 0, 0, 1);
  if (cs->AttachBufferOffsets(ri.ob(), ro.ob(), rp.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  k.finishCompile(cs); if (p.enc) encode(); Walk<4> w(oi, ord);
  auto param = [&](int at, uint32_t off0, uint32_t off1, uint32_t off2, uint32_t off3, int cnt) { uint32_t of[4] = {off0, off1, off2, off3}; int el[4] = {p.ie, 2, 1, p.oe}; for (int q = 0; q < 4; q++) { if (of[q] + cnt * el[q] > rp.size) c.fail("buffer-size", "%s: parameters at %u + %d of %u bytes", k.what, of[q], cnt * el[q], rp.size); memcpy(k.base(rp.m) + rp.off + of[q], &raw[q][at * el[q]], cnt * el[q]); memset(&k.par[rp.m][rp.off + of[q]], 1, cnt * el[q]); } };
  k.walk = &w.i;  k.deploy<LR::Rescale>(p.hist, (unsigned)w.t.size(), out.cnt(), [&] { w.i = 0; if (p.axis < 0) param(0, 0, p.ie, p.ie + 2, p.ie + 3, 1); },
    [&](LR::Rescale *q) { uint32_t n0, o0, o1, o2, o3; q->GetIOSizesAndOffsets(n0, o0, o1, o2, o3); const Tile &t = w.cur(); int cnt = p.axis < 0 ? 1 : t.sz[p.axis], at = p.axis < 0 ? 0 : t.pos[p.axis]; if ((int)n0 != cnt) c.fail("param-count", "%s: tile needs %d parameters, reported %u", k.what, cnt, n0); k.stage(in, t, ri); param(at, o0, o1, o2, o3, cnt); },
    [&](LR::Rescale *, std::vector<uint8_t> &cov) { k.expect(out, w.cur(), ro, cov); w.i++; });
}
struct ClP { int d[4] = {1, 1, 1, 1}, t[4] = {1, 1, 1, 1}, rank = 4, gi = 0, go = 0, vk = 0, lo = -128, hi = 127, iface = 0, hist = 0, enc = 0, ip = 0, ord = 0; };
inline void runClip(Case &c, const ClP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, "Clip", seed); k.obj4 = seed & 1;
  setNote(c, "Clip rank %d shape %d/%d %d/%d %d/%d %d/%d gaps %d%d val %d limits %d %d iface %d hist %d enc %d in-place %d order %d", p.rank, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.gi, p.go, p.vk, p.lo, p.hi, p.iface, p.hist, p.enc, p.ip, p.ord);
  Op in, out; in.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, 1, p.gi); out.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, 1, p.ip ? p.gi : p.go); fillOp(in, p.vk, p.vk > 4 ? 0 : 11);
  out.each([&](const int *o, int32_t &v) { int x = in.v[in.at(o)]; v = std::min(std::max(x, p.lo), p.hi); });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); uint32_t tl[4]; for (int i = 0; i < 4; i++) tl[i] = p.t[i]; using I4 = TensorIterator<NB, 4, 4>;
  I4 ii(in.nb<4>(), tl, ORDERS[p.ord]), oi(out.nb<4>(), tl, ORDERS[p.ord]); void *b = k.csbuf(f.Clip_CS_GetSize(), seed ^ 3); L::Clip_CS *cs; const int *tt = p.iface ? p.d : p.t; int skip = 4 - p.rank;
  auto low = [&](const Op &o) { uint32_t d[4]; int32_t s[4]; for (int i = 0; i < p.rank; i++) d[i] = o.d[i + skip], s[i] = o.s[i + skip]; return L::Tensor<NB, 4>(d, s, p.rank); };
  if (p.iface == 0) cs = f.Clip_CS(b, ii, oi); else cs = f.Clip_CS(b, low(in), low(out));
  if ((int)cs->GetInputBufferSize() < in.ext() || (int)cs->GetOutputBufferSize() < out.ext() || cs->GetEncodedParamsSize() < 2 || cs->GetParamsBufferSize() < 2) c.fail("buffer-size", "%s: buffers of %u and %u elements, %u and %u parameters reported", k.what, cs->GetInputBufferSize(), cs->GetOutputBufferSize(), cs->GetParamsBufferSize(), cs->GetEncodedParamsSize());
  uint32_t n = std::max(bufBytes(in, tt), bufBytes(out, tt)); Region ri = k.alloc(0, n, 1), ro = p.ip ? ri : k.alloc(p.hist & 1, n, 1), rp = k.alloc(1, 2, 1); k.seal(); OB none(0, 0, 0, 1);
  std::vector<int8_t> lo(1, (int8_t)p.lo), hi(1, (int8_t)p.hi), enc(10, 77); uint32_t one[1] = {1};
  auto encode = [&] { Buf a(lo.data(), 1), d(hi.data(), 1), e(enc.data(), 2); L::Tensor<Buf, 1> ta(a, one), td(d, one); if (cs->EncodeParams(ta, td, e) != MLI_STATUS_OK) c.fail("status", "%s: EncodeParams", k.what); for (int i = 0; i < 10; i++) if (enc[i] != (i == 0 ? p.lo : i == 1 ? p.hi : 77)) c.fail("encode", "%s: encoded limits, byte %d is %d", k.what, i, enc[i]); };
  if (!p.enc) encode();
  if (p.iface == 0) { if (cs->AttachBufferOffsets(ri.ob(), ro.ob(), rp.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  else { uint32_t d[4]; for (int i = 0; i < p.rank; i++) d[i] = in.d[i + skip]; L::Tensor<OB, 4> x(ri.ob(), d, p.rank), y(ro.ob(), d, p.rank); if (cs->AttachBufferOffsets(x, y, rp.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what); }
  k.finishCompile(cs); if (p.enc) encode(); Walk<4> w(oi, ORDERS[p.ord]); if (p.iface) { w.t.resize(1); w.t[0] = Tile{4, {0, 0, 0, 0}, {p.d[0], p.d[1], p.d[2], p.d[3]}}; }
  k.walk = &w.i;  k.deploy<LR::Clip>(p.hist, (unsigned)w.t.size(), out.cnt(), [&] { w.i = 0; k.pokeBytes(rp, (uint8_t *)enc.data(), 2); }, [&](LR::Clip *) { k.stage(in, w.cur(), ri); }, [&](LR::Clip *, std::vector<uint8_t> &cov) { k.expect(out, w.cur(), ro, cov); w.i++; });
}
struct PrP { int d[5] = {1, 1, 1, 1, 1}, t[5] = {1, 1, 1, 1, 1}, axis = 4, gi = 0, go = 0, vk = 0, sk = 0, nk = 3, hk = 0, gk = 0, ik = 0, ok = 0, hist = 0, enc = 0, iface = 0; };
inline void runPrelu(Case &c, const PrP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, "Prelu", seed); k.obj4 = seed & 1;
  setNote(c, "Prelu axis %d shape %d/%d %d/%d %d/%d %d/%d %d/%d gaps %d%d val %d scales %d %d shifts %d %d in_bias %d out_bias %d hist %d enc %d iface %d", p.axis, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.d[4], p.t[4], p.gi, p.go, p.vk, p.sk, p.nk, p.hk, p.gk, p.ik, p.ok, p.hist, p.enc, p.iface);
  Op in, out; in.shape({p.d[0], p.d[1], p.d[2], p.d[3], p.d[4]}, 4, p.gi); out.shape({p.d[0], p.d[1], p.d[2], p.d[3], p.d[4]}, 1, p.go); fillOp(in, p.vk, p.vk > 4 ? 0 : 11);
  int n = p.axis < 0 ? 1 : p.d[4]; std::vector<int32_t> v[6]; for (int i = 0; i < n; i++) { v[0].push_back(biasOf(p.ik, i, 4)); v[1].push_back(scaleOf(p.sk, i)); v[2].push_back(scaleOf(p.nk, i + 3)); v[3].push_back(shiftOf(p.hk, i)); v[4].push_back(shiftOf(p.gk, i + 1)); v[5].push_back(biasOf(p.ok, i, 1)); }
  out.each([&](const int *o, int32_t &r) { int a = p.axis < 0 ? 0 : o[4]; int64_t x = in.v[in.at(o)]; bool neg = x < v[0][a]; r = rescaleOne(x, v[0][a], v[neg ? 2 : 1][a], v[neg ? 4 : 3][a], v[5][a], 1); });
  L::PlatformDescription pd; LR::KernelsFactory f(pd); int32_t ord[5] = {0, 1, 2, 3, 4}; uint32_t tl[5]; for (int i = 0; i < 5; i++) tl[i] = p.t[i]; using I5 = TensorIterator<NB, 5, 5>;
  I5 ii(in.nb<5>(), tl, ord), oi(out.nb<5>(), tl, ord); void *b = k.csbuf(f.Prelu_CS_GetSize(), seed ^ 3); L::Prelu_CS *cs; const int *tt = p.iface ? p.d : p.t;
  if (p.iface == 0) cs = f.Prelu_CS(b, ii, L::PreluOpConfig(p.axis), oi);
  else { auto four = [&](const Op &o) { uint32_t d[4]; int32_t s[4]; for (int i = 0; i < 4; i++) { int q = i == 3 ? 4 : i; d[i] = o.d[q]; s[i] = o.s[q]; } return TensorIterator<NB, 4, 4>(L::Tensor<NB, 4>(d, s)); }; cs = f.Prelu_CS(b, four(in), L::PreluOpConfig(p.axis < 0 ? -1 : 3), four(out), 1); }
  static const int EL[6] = {4, 2, 2, 1, 1, 1}; std::vector<uint8_t> raw[6], enc(11 * n + 16, 0x77); for (int q = 0; q < 6; q++) { raw[q].resize(n * EL[q]); for (int i = 0; i < n; i++) wrm(&raw[q][i * EL[q]], EL[q], v[q][i]); }
  uint32_t ed[1] = {(uint32_t)n}; static_assert(L::kPreluParamRank >= 1, ""); constexpr unsigned PR = L::kPreluParamRank;
  auto encode = [&] {
    if ((int)cs->GetEncodedParamsSize() < 11 * n) c.fail("encoded-size", "%s: %d parameters of 11 bytes, GetEncodedParamsSize %u", k.what, n, cs->GetEncodedParamsSize());
    std::vector<L::Tensor<Buf, PR>> ts; for (int q = 0; q < 6; q++) { uint32_t e2[PR]; for (unsigned z = 0; z < PR; z++) e2[z] = 1; e2[0] = n; ts.push_back(L::Tensor<Buf, PR>(Buf(raw[q].data(), n * EL[q], EL[q]), e2)); } Buf eb(enc.data(), 11 * n, 1);
    if (cs->EncodeParams(ts[0], ts[1], ts[2], ts[3], ts[4], ts[5], eb) != MLI_STATUS_OK) c.fail("status", "%s: EncodeParams", k.what);
    size_t o = 0; for (auto &r : raw) { for (uint8_t x : r) { if (enc[o] != x) c.fail("encode", "%s: encoded parameters, byte %zu is %02x, expected %02x", k.what, o, enc[o], x); o++; } } for (; o < enc.size(); o++) if (enc[o] != 0x77) c.fail("encode", "%s: EncodeParams wrote byte %zu of %d", k.what, o, 11 * n);
  }; (void)ed;
  if (!p.enc) encode(); Region ri = k.alloc(0, bufBytes(in, tt), 4), ro = k.alloc(p.hist & 1, bufBytes(out, tt), 1), rp = k.alloc(1, cs->GetEncodedParamsSize(), 4); rp.el = 1; k.seal(); OB none(0, 0, 0, 1);
  if (cs->AttachBufferOffsets(ri.ob(), ro.ob(), rp.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  k.finishCompile(cs); if (p.enc) encode(); Walk<5> w(oi, ord); if (p.iface) { w.t.resize(1); w.t[0] = Tile{5, {0, 0, 0, 0, 0}, {p.d[0], p.d[1], p.d[2], p.d[3], p.d[4]}}; }
  k.walk = &w.i;  k.deploy<LR::Prelu>(p.hist, (unsigned)w.t.size(), out.cnt(), [&] { w.i = 0; },
    [&](LR::Prelu *q) { uint32_t n0, of[6]; q->GetIOSizesAndOffsets(n0, of[0], of[1], of[2], of[3], of[4], of[5]); const Tile &t = w.cur(); int cnt = p.axis < 0 ? 1 : t.sz[4], at = p.axis < 0 ? 0 : t.pos[4]; if (p.axis >= 0 && (int)n0 != cnt) c.fail("param-count", "%s: tile needs %d parameters, reported %u", k.what, cnt, n0); k.stage(in, t, ri);
      for (int z = 0; z < 6; z++) { if (of[z] + cnt * EL[z] > rp.size) c.fail("buffer-size", "%s: parameters at %u + %d of %u bytes", k.what, of[z], cnt * EL[z], rp.size); memcpy(k.base(rp.m) + rp.off + of[z], &raw[z][at * EL[z]], cnt * EL[z]); memset(&k.par[rp.m][rp.off + of[z]], 1, cnt * EL[z]); } },
    [&](LR::Prelu *, std::vector<uint8_t> &cov) { k.expect(out, w.cur(), ro, cov); w.i++; });
}

// ---- data movement -----------------------------------------------------------------------------------------------------
// src/dst side: 0 the full tensor walked by a moving iterator, 1 a tile buffer declared by the number of buffered tiles,
// 2 a tile buffer declared by zero increments.  win: the source tiles overlap (window iterator).
struct MvP { int d[5] = {1, 1, 1, 1, 1}, t[5] = {1, 1, 1, 1, 1}, el = 1, gs = 0, gd = 0, side = 0 /* 0 full->full 1 full->buffer 2 buffer->full */, lk = 1, ctor = 0, attach = 0, dir = 0, hist = 0, ord = 0, tr = 0, rank = 5; Win w[5]; bool win = false; };
static const int32_t ORD5[][5] = {{0, 1, 2, 3, 4}, {1, 0, 2, 3, 4}, {4, 3, 2, 1, 0}, {1, 2, 0, 4, 3}};
inline void trStrides(Op &o, int tr) { if (!tr) return; int st = 1; for (int i = 0; i < o.R; i++) { o.s[i] = st; st *= o.d[i]; } o.v.assign(o.ext(), 0); }   // column-major memory
inline void runMove(Case &c, const MvP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, "Move", seed); if (p.ord) { k.key = "move-permuted-order"; k.slack = 8192; } k.obj4 = seed & 1; int sd[5], tm[5]; for (int i = 0; i < 5; i++) sd[i] = p.win ? p.w[i].in : p.d[i];
  setNote(c, "Move rank %d shape %d/%d %d/%d %d/%d %d/%d %d/%d el %d gaps %d%d colmajor %d side %d buf-kind %d window %d (k %d s %d pad %d, k %d s %d pad %d) ctor %d attach %d dir %d order %d%d%d%d%d hist %d", p.rank, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.d[4], p.t[4], p.el, p.gs, p.gd, p.tr, p.side, p.lk, p.win, p.w[0].k, p.w[0].s, p.w[0].p, p.w[1].k, p.w[1].s, p.w[1].p, p.ctor, p.attach, p.dir, ORD5[p.ord][0], ORD5[p.ord][1], ORD5[p.ord][2], ORD5[p.ord][3], ORD5[p.ord][4], p.hist);
  using I5 = TensorIterator<NB, 5, 5>; L::PlatformDescription pd; LR::KernelsFactory f(pd); uint32_t tl[5], ek[5], st[5], pp[5]; for (int i = 0; i < 5; i++) tl[i] = p.t[i], ek[i] = p.win ? p.w[i].ek() : 1, st[i] = p.win ? p.w[i].s : 1, pp[i] = p.win ? p.w[i].p : 0;
  Op src, dst, out; src.shape({sd[0], sd[1], sd[2], sd[3], sd[4]}, p.el, p.gs); trStrides(src, p.tr & 1); fillOp(src, 0, 17); out.shape({p.d[0], p.d[1], p.d[2], p.d[3], p.d[4]}, p.el, p.gd); trStrides(out, p.tr >> 1); const int32_t *ord = ORD5[p.ord];
  // the walk over the full tensor
  L::Tensor<NB, 5> ot = out.nb<5>(); I5 oi(ot, tl, ord); I5 fi = p.win ? I5(src.nb<5>(), oi, ek, st, pp) : I5(src.nb<5>(), tl, ord); tileMax<5>(fi, tm); int bm[5]; for (int i = 0; i < 5; i++) bm[ord[i]] = tm[i]; if (p.win) for (int i = 0; i < 5; i++) bm[i] = std::min(bm[i], sd[i]);
  Op buf; buf.shape({bm[0], bm[1], bm[2], bm[3], bm[4]}, p.el, p.lk == 2 ? p.gd : -1);
  I5 si = fi, di = oi; I5 bi;
  if (p.side) {
    const auto &fc = fi.get_config();
    if (p.lk == 1) { int32_t o[5], n[5], fa[5], in[5], la[5], fs[5], sz[5], ls[5]; for (int i = 0; i < 5; i++) { o[i] = ord[i]; n[i] = fc.get_count(i); fa[i] = fc.get_first_inc(i); in[i] = fc.get_inc(i); la[i] = fc.get_last_inc(i); fs[i] = fc.get_first_size(i); sz[i] = fc.get_size(i); ls[i] = fc.get_last_size(i); } bi = I5(p.side == 1 ? src.nb<5>() : ot, IteratorCfg<5>(o, n, fa, in, la, fs, sz, ls, 1)); }
    else bi = I5(buf.nb<5>(), IteratorCfg<5>(fc, false));
    if (p.side == 1) di = bi; else { si = bi; di = oi; }
  }
  int32_t bs[5] = {0}; if (p.side) { if (p.lk == 1) bi.get_mem_strides(bs); else for (int i = 0; i < 5; i++) bs[i] = buf.s[i]; }
  Walk<5> w(fi, ord); for (auto &t : w.t) for (int i = 0; i < 5; i++) tm[i] = std::max(tm[i], t.sz[i]); int be = 1; if (p.side) for (int i = 0; i < 5; i++) be += (std::max(bm[i], 1) - 1) * std::max(bs[i], 0);
  void *b = k.csbuf(f.Move_CS_GetSize(), seed ^ 3); L::Move_CS *cs; auto dir = p.dir ? L::kMoveDataDirectionOutput : L::kMoveDataDirectionInput;
  if (p.ctor == 0) cs = f.Move_CS(b, si, di, dir); else if (p.ctor == 1) cs = f.Move_CS(b, si.get_tensor(), si.get_config(), di.get_tensor(), di.get_config(), dir); else cs = f.Move_CS(b, src.nbr<5>(p.rank), out.nbr<5>(p.rank), dir);
  unsigned tiles = (unsigned)w.t.size(); if (p.ctor == 2) { tiles = 1; w.t.resize(1); w.t[0].R = 5; for (int i = 0; i < 5; i++) w.t[0].pos[i] = 0, w.t[0].sz[i] = p.d[i]; }
  Region rs = k.alloc(0, (p.side == 2 ? be : src.ext()) * p.el, p.el), rd = k.alloc(p.hist & 1, (p.side == 1 ? be : out.ext()) * p.el, p.el), rc = k.alloc(1, std::max(1u, cs->GetCtrlBufferSize()), 1); if (p.ord) { k.alloc(0, 8192, 1); k.alloc(1, 8192, 1); } k.seal();
  mli_status s0;
  if (p.attach == 0) s0 = cs->AttachBufferOffsets(rs.ob(), rd.ob(), rc.ob());
  else { auto ten = [](const L::Tensor<NB, 5> &t, OB ob) { uint32_t a[5]; int32_t m[5]; t.get_dims(a); t.get_mem_strides(m); return L::Tensor<OB, 5>(ob, a, m); }; s0 = cs->AttachBufferOffsets(ten(p.ctor == 2 ? src.nbr<5>(p.rank) : si.get_tensor(), rs.ob()), ten(p.ctor == 2 ? out.nbr<5>(p.rank) : di.get_tensor(), rd.ob())); }
  if (s0 != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  k.finishCompile(cs); bool whole = p.side != 1; std::vector<uint8_t> seen;
  k.walk = &w.i;  k.deploy<LR::Move>(p.hist, tiles, p.side == 1 ? 0 : out.cnt(), [&] { w.i = 0; },
    [&](LR::Move *) { const Tile &t = w.cur(); if (p.side != 2) { Tile a; a.R = 5; for (int i = 0; i < 5; i++) a.pos[i] = 0, a.sz[i] = sd[i]; k.stage(src, a, rs); } else eachIdx(t, [&](const int *i) { int j[5]; long o = 0; for (int q = 0; q < 5; q++) j[q] = t.pos[q] + i[q], o += (long)i[q] * bs[q]; wrm(k.at(rs, o), p.el, src.v[src.at(j)]); memset(&k.vol[rs.m][rs.off + o * p.el], 1, p.el); }); },
    [&](LR::Move *, std::vector<uint8_t> &cov) { const Tile &t = w.cur(); eachIdx(t, [&](const int *i) { int j[5]; long o = 0; for (int q = 0; q < 5; q++) j[q] = t.pos[q] + i[q], o += (long)i[q] * (whole ? 0 : bs[q]); if (whole) o = out.at(j); int lin = 0; for (int q = 0; q < 5; q++) lin = lin * sd[q] + j[q]; k.want(rd, o, lin, src.v[src.at(j)]); if (whole) cov[lin]++; }); w.i++; });
}

// broadcast of a tensor along the dimensions in mask
struct BcP { int d[4] = {1, 1, 1, 1}, t[4] = {1, 1, 1, 1}, mask = 0, rank = 4, el = 1, gs = 0, gd = 0, whole = 0, hist = 0, own = 0; };
inline void runBroadcast(Case &c, const BcP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, "MoveBroadcast", seed); k.obj4 = seed & 1; int sd[4]; for (int i = 0; i < 4; i++) sd[i] = p.mask >> i & 1 ? 1 : p.d[i];
  setNote(c, "MoveBroadcast rank %d dst %d/%d %d/%d %d/%d %d/%d mask %d el %d gaps %d%d whole %d hist %d", p.rank, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.mask, p.el, p.gs, p.gd, p.whole, p.hist);
  using I4 = TensorIterator<NB, 4, 4>; L::PlatformDescription pd; LR::KernelsFactory f(pd); int32_t ord[4] = {0, 1, 2, 3}, zm[4]; uint32_t tl[4], st[4]; for (int i = 0; i < 4; i++) tl[i] = p.t[i], zm[i] = p.mask >> i & 1, st[i] = std::min(p.t[i], sd[i]);
  Op src, dst; src.shape({sd[0], sd[1], sd[2], sd[3]}, p.el, p.gs); dst.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.el, p.gd); fillOp(src, 0, 5); dst.each([&](const int *i, int32_t &v) { int j[4]; for (int q = 0; q < 4; q++) j[q] = std::min(i[q], sd[q] - 1); v = src.v[src.at(j)]; });
  I4 di = p.whole ? I4(dst.nbr<4>(p.rank)) : I4(dst.nb<4>(), tl, ord); I4 si; bool single = true; for (int i = 0; i < 4; i++) single &= !(zm[i] && p.t[i] < p.d[i]);
  if (p.whole) si = I4(src.nbr<4>(p.rank)); else if (p.own && single) si = I4(src.nb<4>(), st, ord); else si = I4(src.nb<4>(), di, nullptr, zm);
  Walk<4> w = p.whole ? Walk<4>(p.d) : Walk<4>(di, ord); const int *tt = p.whole ? p.d : p.t; int ts[4]; for (int i = 0; i < 4; i++) ts[i] = std::min(tt[i], sd[i]);
  L::MoveDataDirection dr = p.hist & 1 ? L::kMoveDataDirectionOutput : L::kMoveDataDirectionInput; auto *cs = f.MoveBroadcast_CS(k.csbuf(f.MoveBroadcast_CS_GetSize(), seed ^ 3), si, di, dr);
  Region rs = k.alloc(0, bufBytes(src, ts), p.el), rd = k.alloc(p.hist & 1, bufBytes(dst, tt), p.el); k.seal(); OB none(0, 0, 0, 1);
  if (cs->AttachBufferOffsets(rs.ob(), rd.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  k.finishCompile(cs); Tile cur;
  k.walk = &w.i;  k.deploy<LR::MoveBroadcast>(p.hist, (unsigned)w.t.size(), dst.cnt(), [&] { w.i = 0; },
    [&](LR::MoveBroadcast *q) { uint32_t ss[4], ds[4]; int32_t so[4], dd[4]; q->GetIOSizesAndOffsets(ss, ds, so, dd); for (int i = p.rank; i < 4; i++) ss[i] = ds[i] = 1, so[i] = dd[i] = 0; Tile a = mkTile<4>(so, ss); cur = mkTile<4>(dd, ds); k.stage(src, a, rs); for (int i = 0; i < 4; i++) { int e = zm[i] ? 1 : cur.sz[i], o = zm[i] ? 0 : cur.pos[i]; if (a.sz[i] != e || a.pos[i] != o) c.fail("tile-range", "%s: dim %d, destination at %d size %d, source at %d size %d", k.what, i, cur.pos[i], cur.sz[i], a.pos[i], a.sz[i]); } },
    [&](LR::MoveBroadcast *, std::vector<uint8_t> &cov) { k.expect(dst, cur, rd, cov); w.i++; });
}
struct PmP { int d[4] = {1, 1, 1, 1} /* output */, t[4] = {1, 1, 1, 1}, rank = 4, el = 1, gi = 0, go = 0, whole = 0, hist = 0, ord = 0, perm[4] = {0, 1, 2, 3}; };
inline void runPermute(Case &c, const PmP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, "Permute", seed); k.obj4 = seed & 1;
  setNote(c, "Permute rank %d out %d/%d %d/%d %d/%d %d/%d perm %d%d%d%d el %d gaps %d%d whole %d order %d hist %d", p.rank, p.d[0], p.t[0], p.d[1], p.t[1], p.d[2], p.t[2], p.d[3], p.t[3], p.perm[0], p.perm[1], p.perm[2], p.perm[3], p.el, p.gi, p.go, p.whole, p.ord, p.hist);
  using I4 = TensorIterator<NB, 4, 4>; L::PlatformDescription pd; LR::KernelsFactory f(pd); int id[4], it[4]; int32_t oo[4], io[4]; uint32_t ot[4], itl[4];
  for (int q = 0; q < 4; q++) { id[p.perm[q]] = p.d[q]; it[p.perm[q]] = p.t[q]; oo[q] = ORDERS[p.ord][q]; ot[q] = p.t[q]; } for (int q = 0; q < 4; q++) { io[q] = p.perm[oo[q]]; itl[q] = it[q]; }
  Op in, out; in.shape({id[0], id[1], id[2], id[3]}, p.el, p.gi); out.shape({p.d[0], p.d[1], p.d[2], p.d[3]}, p.el, p.go); fillOp(in, 0, 3); out.each([&](const int *o, int32_t &v) { int j[4]; for (int q = 0; q < 4; q++) j[p.perm[q]] = o[q]; v = in.v[in.at(j)]; });
  I4 ii = p.whole ? I4(in.nbr<4>(p.rank)) : I4(in.nb<4>(), itl, io), oi = p.whole ? I4(out.nbr<4>(p.rank)) : I4(out.nb<4>(), ot, oo); uint8_t pm[4]; for (int q = 0; q < 4; q++) pm[q] = (uint8_t)p.perm[q];
  auto *cs = f.Permute_CS(k.csbuf(f.Permute_CS_GetSize(), seed ^ 3), ii, L::PermuteOpConfig(pm), oi); Walk<4> w = p.whole ? Walk<4>(p.d) : Walk<4>(oi, oo);
  Region ri = k.alloc(0, bufBytes(in, p.whole ? id : it), p.el), ro = k.alloc(p.hist & 1, bufBytes(out, p.whole ? p.d : p.t), p.el); k.seal(); OB none(0, 0, 0, 1);
  if (cs->AttachBufferOffsets(ri.ob(), ro.ob(), none) != MLI_STATUS_OK) c.fail("status", "%s: AttachBufferOffsets", k.what);
  k.finishCompile(cs); Tile cur;
  k.walk = &w.i;  k.deploy<LR::Permute>(p.hist, (unsigned)w.t.size(), out.cnt(), [&] { w.i = 0; },
    [&](LR::Permute *q) { uint32_t is[4], os[4]; int32_t ip[4], op[4], ia[4], oa[4]; q->GetIOSizesAndOffsets(is, os, ip, op); for (int z = p.rank; z < 4; z++) is[z] = os[z] = 1, ip[z] = op[z] = 0; for (int z = 0; z < 4; z++) { ia[p.whole ? z : io[z]] = ip[z]; oa[p.whole ? z : oo[z]] = op[z]; } Tile a = mkTile<4>(ia, is); cur = mkTile<4>(oa, os); k.stage(in, a, ri);
      for (int z = 0; z < 4; z++) if (a.sz[p.perm[z]] != cur.sz[z] || a.pos[p.perm[z]] != cur.pos[z]) c.fail("tile-range", "%s: output dim %d at %d size %d, input at %d size %d", k.what, z, cur.pos[z], cur.sz[z], a.pos[p.perm[z]], a.sz[p.perm[z]]); },
    [&](LR::Permute *, std::vector<uint8_t> &cov) { k.expect(out, cur, ro, cov); w.i++; });
}
struct RzP { int b = 1, ih = 1, iw = 1, oh = 1, ow = 1, ch = 1, st[2] = {1, 1}, of[2] = {0, 0}, sh = 1, gi = 0, go = 0, vk = 0; };
inline void runResize(Case &c, const RzP &p, uint32_t seed) {
  if (!begin(c)) return; K3 k(c, "ResizeBilinear", seed);
  setNote(c, "ResizeBilinear %dx%d -> %dx%d batch %d channels %d stride %d %d offset %d %d shift %d gaps %d%d val %d", p.ih, p.iw, p.oh, p.ow, p.b, p.ch, p.st[0], p.st[1], p.of[0], p.of[1], p.sh, p.gi, p.go, p.vk);
  Op in, out; in.shape({p.b, p.ih, p.iw, p.ch}, 1, p.gi); out.shape({p.b, p.oh, p.ow, p.ch}, 4, p.go); fillOp(in, p.vk, 3); int64_t one = 1 << p.sh;
  auto cl = [](int64_t v, int n) { return (int)std::min<int64_t>(std::max<int64_t>(v, 0), n - 1); }; auto fdiv = [&](int64_t v) { return v >= 0 ? v / one : -((-v + one - 1) / one); };
  out.each([&](const int *o, int32_t &v) { int64_t y = (int64_t)o[1] * p.st[0] + p.of[0], x = (int64_t)o[2] * p.st[1] + p.of[1], yi = fdiv(y), xi = fdiv(x), dy = y - yi * one, dx = x - xi * one; int64_t s = 0; for (int q = 0; q < 4; q++) { int i[4] = {o[0], cl(yi + (q >> 1), p.ih), cl(xi + (q & 1), p.iw), o[3]}; s += in.v[in.at(i)] * (q >> 1 ? dy : one - dy) * (q & 1 ? dx : one - dx); } v = (int32_t)s; });
  Region ri = k.alloc(0, in.ext(), 1), ro = k.alloc(1, out.ext() * 4, 4); k.seal(); Tile ti{4, {0, 0, 0, 0}, {p.b, p.ih, p.iw, p.ch}}, to{4, {0, 0, 0, 0}, {p.b, p.oh, p.ow, p.ch}}; k.stage(in, ti, ri); k.snapshot(); std::vector<uint8_t> cov(out.cnt(), 0); k.expect(out, to, ro, cov);
  auto ten = [&](const Op &o, const Region &r) { mli_tensor t; memset((void *)&t, 0, sizeof t); t.rank = 4; for (int i = 0; i < 4; i++) t.shape[i] = o.d[i], t.mem_stride[i] = o.s[i]; t.data.mem.pi8 = (int8_t *)k.at(r, 0); t.data.capacity = r.size; t.el_type = o.el == 1 ? MLI_EL_SA_8 : MLI_EL_SA_32; t.el_params.sa.dim = -1; return t; };
  int16_t st[2] = {(int16_t)p.st[0], (int16_t)p.st[1]}, of[2] = {(int16_t)p.of[0], (int16_t)p.of[1]};
  struct Args { mli_tensor a, b; L::ResizeOpConfig cfg; }; Guarded ob; ob.init(sizeof(Args), seed ^ 0x77); Args *g = new (ob.p) Args{ten(in, ri), ten(out, ro), L::ResizeOpConfig(st, of, (int8_t)p.sh)}; k.spoil();
  k.op(ob, "Issue", [&] { LR::run_mli_resize_bilinear_standalone(&g->a, g->cfg, &g->b); return MLI_STATUS_OK; }); c.call(); if (!ob.ok()) c.fail("stray-write", "%s: write beside its tensors", k.what); k.compare(); c.out(k.h); if (!mode.begun) c.trace();
}
}  // namespace k3
