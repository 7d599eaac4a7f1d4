// Tensors for the checks and reference integer arithmetic, written independently of the library.
#pragma once
#include "mc.h"
#include "mli_api.h"
#include "mli_config.h"
#include <cmath>

#if defined(CFG_CONVERGENT)
constexpr bool kConv = true;
#else
constexpr bool kConv = false;
#endif
#if defined(CFG_FULLACCU)
constexpr bool kFull = true;
#else
constexpr bool kFull = false;
#endif

typedef __int128 i128;
typedef int64_t i64;

// ---- arithmetic ------------------------------------------------------------------------------------------------
inline i64 satn(i128 v, int bits) {
  i128 hi = ((i128)1 << (bits - 1)) - 1, lo = -((i128)1 << (bits - 1));
  return (i64)(v > hi ? hi : v < lo ? lo : v);
}
inline i128 floordiv2(i128 v, int n) { return v >> n; }  // arithmetic shift = floor division by 2^n
// Right shift by n with the built rounding mode inside a container of `bits` bits; negative n: saturating left shift.
inline i64 shr(i64 v, int n, int bits) {
  if (n < 0) {
    if (-n > 100) return v == 0 ? 0 : satn(v < 0 ? -((i128)1 << 100) : ((i128)1 << 100), bits);
    return satn((i128)v * ((i128)1 << (-n > 62 ? 62 : -n)), bits);
  }
  if (n == 0) return v;
  if (n > bits - 1) return 0;
  if (!kConv) {                                   // add half, clamp to the container, floor
    i128 t = satn((i128)v + ((i128)1 << (n - 1)), bits);
    return (i64)floordiv2(t, n);
  }
  i128 q = floordiv2(v, n), r = (i128)v - q * ((i128)1 << n), half = (i128)1 << (n - 1);
  if (r > half || (r == half && (q & 1))) q += 1;
  return satn(q, bits);
}
inline int norm(i64 v, int bits) {               // redundant sign bits
  if (v == 0) return bits - 1;
  int r = 0; while (r < bits - 1) { i64 lim = (i64)1 << (bits - 2 - r); if (v >= lim || v < -lim) break; r++; }
  return r;
}
inline i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }

// ---- tensors ---------------------------------------------------------------------------------------------------
inline int esize(mli_element_type t) { return t == MLI_EL_FX_16 ? 2 : (t == MLI_EL_SA_32 || t == MLI_EL_FP_32) ? 4 : 1; }
inline int ebits(mli_element_type t) { return esize(t) * 8; }
inline uint8_t canary(size_t i) { return (uint8_t)(0xA5 ^ (i * 37) ^ (i >> 8)); }

struct Ten {
  mli_tensor t;
  std::vector<uint8_t> mem;   // backing store with guard zones
  size_t off = 0;             // data offset in mem
  size_t extent = 0;          // elements spanned
  std::vector<int16_t> zps, scs; std::vector<int8_t> fbs;
  static constexpr size_t G = 64;
  Ten() { memset(&t, 0, sizeof t); }
  Ten(const Ten &o) { *this = o; }
  Ten &operator=(const Ten &o) {
    t = o.t; mem = o.mem; off = o.off; extent = o.extent; zps = o.zps; scs = o.scs; fbs = o.fbs; place = o.place;
    rebind(); if (t.rank == 0) { t.data = o.t.data; } return *this;
  }
  size_t place = 0;           // byte offset of the data from a 16-byte boundary
  void rebind() {
    if (!mem.empty()) { size_t a = (16 - ((uintptr_t)mem.data() & 15)) & 15; (void)a; t.data.mem.pi32 = (int32_t *)(base()); }
    if (!zps.empty()) bindq();
  }
  uint8_t *base() { return (uint8_t *)(((uintptr_t)mem.data() + off + 15) & ~(uintptr_t)15) + place; }
  const uint8_t *base() const { return const_cast<Ten *>(this)->base(); }
  // pad[d]: extra elements added to the stride of dimension d (beyond dense)
  Ten(mli_element_type el, std::vector<int> shape, std::vector<int> pad = {}, int inner = 1) { make(el, shape, pad, inner); }
  void make(mli_element_type el, std::vector<int> shape, std::vector<int> pad = {}, int inner = 1) {
    memset(&t, 0, sizeof t);
    t.el_type = el; t.rank = shape.size();
    i64 s = inner;
    for (int d = (int)shape.size() - 1; d >= 0; d--) {
      if (d < (int)pad.size()) s += pad[d];
      t.shape[d] = shape[d]; t.mem_stride[d] = (int32_t)s; s *= shape[d];
    }
    size_t e = 1; for (size_t d = 0; d < shape.size(); d++) e += (size_t)(shape[d] - 1) * t.mem_stride[d];
    alloc(e);
  }
  void alloc(size_t e) {
    extent = e; mem.resize(e * esize(t.el_type) + 2 * G + 16 + place); off = G;
    uint8_t *b = base(); (void)b;
    fillCanary(); t.data.mem.pi32 = (int32_t *)base(); t.data.capacity = e * esize(t.el_type);
  }
  // canaries are relative to base() so that copies compare equal
  uint8_t can(i64 rel) const { return canary((size_t)(rel + 4096)); }
  void fillCanary() { i64 b0 = base() - mem.data(); for (size_t i = 0; i < mem.size(); i++) mem[i] = can((i64)i - b0); }
  int dim(int d) const { return t.shape[d]; }
  int rank() const { return t.rank; }
  size_t count() const { size_t n = 1; for (unsigned d = 0; d < t.rank; d++) n *= t.shape[d]; return n; }
  size_t lin2off(size_t lin) const { size_t o = 0; for (int d = (int)t.rank - 1; d >= 0; d--) { o += (lin % t.shape[d]) * t.mem_stride[d]; lin /= t.shape[d]; } return o; }
  size_t offs(int a = 0, int b = 0, int c = 0, int d = 0) const { const int x[4] = {a, b, c, d}; size_t o = 0; for (unsigned i = 0; i < t.rank; i++) o += (size_t)x[i] * t.mem_stride[i]; return o; }
  i64 raw(size_t o) const {
    const uint8_t *p = base();
    switch (esize(t.el_type)) { case 1: return (int8_t)p[o]; case 2: return ((const int16_t *)p)[o]; default: return ((const int32_t *)p)[o]; }
  }
  void wraw(size_t o, i64 v) {
    uint8_t *p = base();
    switch (esize(t.el_type)) { case 1: p[o] = (uint8_t)v; break; case 2: ((int16_t *)p)[o] = (int16_t)v; break; default: ((int32_t *)p)[o] = (int32_t)v; }
  }
  i64 get(size_t lin) const { return raw(lin2off(lin)); }
  void set(size_t lin, i64 v) { wraw(lin2off(lin), v); }
  i64 at(int a = 0, int b = 0, int c = 0, int d = 0) const { return raw(offs(a, b, c, d)); }
  void put(i64 v, int a, int b = 0, int c = 0, int d = 0) { wraw(offs(a, b, c, d), v); }
  float fget(size_t lin) const { return ((const float *)base())[lin2off(lin)]; }
  void fset(size_t lin, float v) { ((float *)base())[lin2off(lin)] = v; }
  Ten &fx(int frac) { t.el_params.fx.frac_bits = frac; return *this; }
  int frac() const { return t.el_params.fx.frac_bits; }
  Ten &sa(int zp, int scale, int fb) {
    zps.clear(); memset(&t.el_params, 0, sizeof t.el_params);
    t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16; t.el_params.sa.dim = -1;
    t.el_params.sa.zero_point.mem.i16 = zp; t.el_params.sa.scale.mem.i16 = scale; t.el_params.sa.scale_frac_bits.mem.i8 = fb;
    return *this;
  }
  Ten &saAxis(int dim, std::vector<int16_t> zp, std::vector<int16_t> sc, std::vector<int8_t> fb) {
    memset(&t.el_params, 0, sizeof t.el_params);
    zps = zp; scs = sc; fbs = fb; t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16; t.el_params.sa.dim = dim; bindq(); return *this;
  }
  void bindq() {
    auto &s = t.el_params.sa;
    s.zero_point.mem.pi16 = zps.data(); s.zero_point.capacity = zps.size() * 2;
    s.scale.mem.pi16 = scs.data(); s.scale.capacity = scs.size() * 2;
    s.scale_frac_bits.mem.pi8 = fbs.data(); s.scale_frac_bits.capacity = fbs.size();
  }
  bool perAxis() const { return t.el_params.sa.dim >= 0; }
  int zp(int i = 0) const { return perAxis() ? t.el_params.sa.zero_point.mem.pi16[i] : t.el_params.sa.zero_point.mem.i16; }
  int scale(int i = 0) const { return perAxis() ? t.el_params.sa.scale.mem.pi16[i] : t.el_params.sa.scale.mem.i16; }
  int fb(int i = 0) const { return perAxis() ? t.el_params.sa.scale_frac_bits.mem.pi8[i] : t.el_params.sa.scale_frac_bits.mem.i8; }
  // bytes of the backing store that hold no element must still carry the canary
  bool gapsIntact(i64 *where = nullptr) const {
    std::vector<uint8_t> m(mem.size(), 0); int es = esize(t.el_type); size_t b0 = base() - mem.data();
    size_t n = count(); for (size_t i = 0; i < n; i++) { size_t o = lin2off(i) * es; for (int k = 0; k < es; k++) m[b0 + o + k] = 1; }
    for (size_t i = 0; i < mem.size(); i++) if (!m[i] && mem[i] != can((i64)i - (i64)b0)) { if (where) *where = (i64)i - (i64)b0; return false; }
    return true;
  }
  uint64_t hash() const { uint64_t h = mc::mixb(t.rank, t.shape, sizeof(t.shape[0]) * t.rank); size_t n = count(); for (size_t i = 0; i < n; i++) h = mc::mix(h, (uint64_t)get(i)); return h; }
  std::string str(size_t maxn = 24) const { std::string s = "["; size_t n = count(); for (size_t i = 0; i < n && i < maxn; i++) { if (i) s += " "; s += std::to_string(get(i)); } if (n > maxn) s += " ..."; return s + "]"; }
  Ten(Ten &&o) : Ten((const Ten &)o) {}
};

// ---- data patterns -----------------------------------------------------------------------------------------------
// Every pattern is a fixed function of (pattern, seed, index): position coded pseudo-random data in a chosen
// amplitude, or extremes.  lim = 2^(bits-1).
inline uint32_t h32(uint32_t a) { a ^= a >> 16; a *= 0x7feb352du; a ^= a >> 15; a *= 0x846ca68bu; a ^= a >> 16; return a; }
enum Pat { P_RND, P_SMALL, P_MAX, P_MIN, P_ALT, P_ZERO, P_ONEHOT, P_RAMP };
inline i64 patval(int pat, uint32_t seed, size_t i, int bits) {
  i64 lim = (i64)1 << (bits - 1);
  uint32_t r = h32(h32((uint32_t)i * 2654435761u + seed * 40503u + 17u) + (uint32_t)i);
  switch (pat) {
    case P_RND: return (i64)(r % (uint64_t)(2 * lim)) - lim;
    case P_SMALL: return (i64)(r % 7) - 3;
    case P_MAX: return lim - 1;
    case P_MIN: return -lim;
    case P_ALT: return (i + seed) & 1 ? lim - 1 : -lim;
    case P_ZERO: return 0;
    case P_ONEHOT: return i == seed ? 1 : 0;
    case P_RAMP: return (i64)((i * 3 + seed) % (uint64_t)(2 * lim)) - lim;
  }
  return 0;
}
inline void fill(Ten &t, int pat, uint32_t seed, i64 amp = 0) {
  int bits = ebits(t.t.el_type); size_t n = t.count();
  for (size_t i = 0; i < n; i++) {
    i64 v = patval(pat, seed, i, bits);
    if (amp && pat == P_RND) v = (i64)(h32(h32((uint32_t)i + seed * 7919u) + 3u) % (uint64_t)(2 * amp + 1)) - amp;
    t.set(i, v);
  }
}

// ---- quantisation formulas of the documentation -------------------------------------------------------------------
// Reference of the 16-bit scale handling used for asymmetric data: multiplier/shift for in_scale*w_scale/out_scale.
struct SaMul { i64 mul; int shift; };
inline SaMul sa_mul(int in_sc, int in_fb, int w_sc, int w_fb, int out_sc, int out_fb) {
  int n = norm(in_sc, 32);
  i64 q = ((i64)in_sc << n) / out_sc;                 // in/out ratio, 32 bit
  int n2 = norm(q, 32);
  i64 ratio = satn(shr(q, 16 - n2, 32), 16);          // kept in 16 bits
  int sh = in_fb + n - out_fb - (16 - n2);
  SaMul r{ratio * w_sc, sh + w_fb};
  if (!kFull) { int k = norm(r.mul, 32); r.mul = r.mul << k; r.shift += k; }
  return r;
}
inline i64 sa_requant(i64 acc, SaMul m, int out_zp) {
  i64 mul = m.mul; int sh = m.shift, pre = 0; i64 a = acc;
  if (!kFull) {
    mul = shr(mul, 16, 32); sh -= 16;
    pre = (int)clampi(sh - 21, 0, 8);
    a = satn(shr(a, pre, 32), 16);
  }
  i64 p = a * mul;
  int s = sh - pre; if (s > 63) s = 63;
  i64 o = satn(shr(p, s, 64), 16);
  o = satn((i128)o + out_zp, 16);
  return satn(o, 8);
}
inline i64 sa_bias(i64 b) {
  if (kFull) return b;
  int s = 16 - norm(b, 32); if (s < 0) s = 0;
  return satn((i128)(b >> s) * ((i128)1 << s), 32);
}
// ReLU limits in the output tensor's own representation
struct Lim { i64 lo, hi; };
inline Lim relu_limits(int relu, const Ten &out) {
  int bits = ebits(out.t.el_type); i64 mx = ((i64)1 << (bits - 1)) - 1, mn = -mx - 1;
  bool fx = out.t.el_type == MLI_EL_FX_8 || out.t.el_type == MLI_EL_FX_16;
  if (relu == MLI_RELU_NONE) return {mn, mx};
  i64 zero = fx ? 0 : out.zp(), sc = fx ? 1 : out.scale(); int f = fx ? out.frac() : out.fb();
  if (relu == MLI_RELU_GEN) return {clampi(zero, mn, mx), mx};
  i128 k = relu == MLI_RELU_6 ? 6 : 1;               // |limit| in quanta, inside the real interval
  i128 q = f >= 0 ? (k << (f > 60 ? 60 : f)) / sc : (k >> (-f > 60 ? 60 : -f)) / sc;
  return {relu == MLI_RELU_6 ? clampi(zero, mn, mx) : satn(zero - q, bits), satn(zero + q, bits)};
}
// Reference of the requantisation parameters (in -> out) used by several kernels: 16-bit multiplier, shift, 16-bit offset.
struct Rq { i64 scale; int shift; i64 offset; };
inline Rq requant(int isc, int ifb, int izp, int osc, int ofb, int ozp) {
  int pre = norm(isc, 32) - norm(osc, 16);
  i64 q = ((i64)isc << pre) / osc; int ns = 16 - norm(q, 32);
  Rq r; r.scale = satn(shr(q, ns, 32), 16); r.shift = pre + ifb - ofb - ns;
  r.offset = satn((i128)ozp - satn(shr(r.scale * izp, r.shift, 32), 16), 16);
  return r;
}
inline Rq requant(const Ten &in, const Ten &out) { return requant(in.scale(), in.fb(), in.zp(), out.scale(), out.fb(), out.zp()); }
