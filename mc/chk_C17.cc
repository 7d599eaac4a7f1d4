// C17: tensor conversion.
#include "ref.h"
using namespace mc;
typedef std::vector<int> V; typedef long double ld;
enum { FX8, FX16, SA8, SA32, FP32 };
static const mli_element_type kT[5] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32};
static const char *tn(int t) { static const char *n[5] = {"fx8", "fx16", "sa8", "sa32", "fp32"}; return n[t]; }
struct Q { int zp, sc, fb; };
static Q q0(const Ten &t, int ty, int i) { if (ty < SA8) return {0, 1, t.frac()}; if (ty == FP32) return {0, 1, 0}; return {t.zp(i), t.scale(i), t.fb(i)}; }
static bool exactRatio(Q s, Q d) { int o = d.sc; while (!(o & 1)) o >>= 1; return s.sc % o == 0; }
// round(v * num / 2^sh) with the built rounding mode
static i64 rnd128(i128 v, int sh) { if (sh <= 0) return sh < -60 ? satn(v ? (v < 0 ? -((i128)1 << 100) : (i128)1 << 100) : 0, 62) : satn(v * ((i128)1 << -sh), 62); if (sh > 100) return 0; i128 q = v >> sh, r = v - q * ((i128)1 << sh), h = (i128)1 << (sh - 1); if (r > h || (r == h && (kConv ? (q & 1) : 1))) q++; return satn(q, 62); }
// accepted results for one integer -> integer element
static bool okInt(i64 x, Q s, Q d, int bits, i64 got, i64 &want) {
  i64 v = x - s.zp;
  if (exactRatio(s, d)) { int o = d.sc, k = 0; while (!(o & 1)) { o >>= 1; k++; } i64 m = s.sc / o; want = satn((i128)rnd128((i128)v * m, s.fb - d.fb + k) + d.zp, bits); return got == want; }
  ld real = (ld)v * s.sc / d.sc * powl(2, d.fb - s.fb) , y = real + d.zp, hi = powl(2, bits - 1) - 1, lo = -hi - 1; ld c = y > hi ? hi : y < lo ? lo : y; want = (i64)floorl(c + 0.5L);
  return fabsl((ld)got - c) <= 0.5L + fabsl(real) * powl(2, -14) + 1e-9L;
}
static bool okQuant(float f, Q d, int bits, i64 got, i64 &want) {
  ld hi = powl(2, bits - 1) - 1, lo = -hi - 1, real = (ld)f / d.sc * powl(2, d.fb), y = real + d.zp, c = y > hi ? hi : y < lo ? lo : y; want = (i64)floorl(c + 0.5L);
  if (std::isinf(f)) return got == want; return fabsl((ld)got - c) <= 0.5L + (fabsl(real) < 1e12L ? fabsl(real) : 1e12L) * powl(2, -22) + powl(2, -22);
}
static bool okDeq(i64 x, Q s, float got, ld &want) { want = (ld)(x - s.zp) * s.sc * powl(2, -s.fb); return fabsl((ld)got - want) <= fabsl(want) * powl(2, -22); }
static void setq(Ten &t, int ty, Q q) { if (ty < SA8) t.fx(q.fb); else if (ty < FP32) t.sa(q.zp, q.sc, q.fb); else memset(&t.t.el_params, 0x5A, sizeof t.t.el_params); }
static int convert(Case &cs, int fn, const Ten &s, Ten &d) { cs.call(); return fn ? mli_hlp_convert_tensor_safx(&s.t, &d.t) : mli_hlp_convert_tensor(&s.t, &d.t); }
// compares every element and everything that must not change; sax/dax: index of the parameter set per element
static void verify(Case &cs, const char *how, int a, int b, const Ten &s, const Ten &d, const Ten &s0) {
  int bits = ebits(kT[b]); size_t n = s.count();
  for (size_t i = 0; i < n; i++) {
    int idx[4] = {0, 0, 0, 0}; size_t l = i; for (int k = s.rank() - 1; k >= 0; k--) { idx[k] = l % s.dim(k); l /= s.dim(k); }
    int si = (a == SA8 || a == SA32) && s.perAxis() ? idx[s.t.el_params.sa.dim] : 0, di = (b == SA8 || b == SA32) && d.perAxis() ? idx[d.t.el_params.sa.dim] : 0; Q qs = q0(s, a, si), qd = q0(d, b, di);
    if (a == FP32 && b == FP32) { if (s0.get(i) != d.get(i)) cs.fail("float-copy", "%s: element %zu %g became %g", how, i, s0.fget(i), d.fget(i)); }
    else if (b == FP32) { ld w; i64 x = s0.get(i); if (!okDeq(x, qs, d.fget(i), w)) cs.fail("dequantise", "%s element %zu: %s %" PRId64 " (zp %d scale %d/2^%d) became %.9g, expected %.9Lg", how, i, tn(a), x, qs.zp, qs.sc, qs.fb, d.fget(i), w); }
    else if (a == FP32) { i64 w; if (!okQuant(s0.fget(i), qd, bits, d.get(i), w)) cs.fail("quantise", "%s element %zu: %.9g became %s %" PRId64 " (zp %d scale %d/2^%d), expected %" PRId64, how, i, s0.fget(i), tn(b), d.get(i), qd.zp, qd.sc, qd.fb, w); }
    else { i64 w, x = s0.get(i); if (!okInt(x, qs, qd, bits, d.get(i), w)) cs.fail("value", "%s element %zu: %s %" PRId64 " (zp %d scale %d/2^%d) became %s %" PRId64 " (zp %d scale %d/2^%d), expected %" PRId64, how, i, tn(a), x, qs.zp, qs.sc, qs.fb, tn(b), d.get(i), qd.zp, qd.sc, qd.fb, w); }
  }
}
static std::vector<i64> values(int ty) {
  std::vector<i64> v; if (ty == FX8 || ty == SA8) for (int i = -128; i < 128; i++) v.push_back(i); else if (ty == FX16) for (int i = -32768; i < 32768; i++) v.push_back(i);
  else if (ty == SA32) { auto add = [&](i64 x) { if (x >= INT32_MIN && x <= INT32_MAX) v.push_back(x); }; for (int i = -300; i <= 300; i++) add(i); for (int k = 7; k < 32; k++) for (i64 m : {1, 3, 5, 7, 11, 13}) for (i64 e : {-3, -2, -1, 0, 1, 2, 3}) { i64 x = (((i64)1 << k) * m) / 4 + e; add(x); add(-x); } for (int i = 0; i < 2000; i++) add((int32_t)h32(i + 1)); for (int i = 0; i < 40; i++) { add((i64)INT32_MIN + i); add((i64)INT32_MAX - i); } }
  return v;
}
static std::vector<float> fvalues(Q d, int bits) {
  std::vector<float> f; auto add = [&](double x) { f.push_back((float)x); f.push_back((float)-x); }; for (double x : {0.0, 1e-45, 1e-38, 1e-20, 0.1, 0.499999970, 0.5, 1.0, 1.5, 3.14159, 100.0, 127.0, 128.0, 255.5, 32767.0, 32768.0, 65536.0, 1e6, 8388607.5, 16777216.0, 2147483520.0, 2147483648.0, 4294967296.0, 1e12, 1e20, 3.4e38, (double)INFINITY}) add(x);
  double u = ldexp((double)d.sc, -d.fb); i64 lim = (i64)1 << (bits - 1); for (i64 n : {(i64)0, (i64)1, (i64)2, (i64)3, (i64)10, lim / 2 - 1, lim / 2, lim - 2, lim - 1, lim, lim + 1, 2 * lim}) for (int h = -4; h <= 4; h++) add(u * (n + h * 0.125)); for (int i = 0; i < 400; i++) add(u * (double)(h32(i + 77) % (uint64_t)(2 * lim)) * 0.75); return f;
}
static const Q kFx[] = {{0, 1, 0}, {0, 1, 4}, {0, 1, 7}, {0, 1, 12}, {0, 1, 15}, {0, 1, 20}, {0, 1, 31}}, kS8[] = {{0, 1, 0}, {-128, 1, 8}, {5, 77, 9}, {127, 32767, 15}, {-3, 16384, 14}, {1, 3, 0}, {0, 1, 31}, {9, 21001, 22}, {-1, 5, -3}}, kS32[] = {{0, 1, 0}, {0, 1, 16}, {-5, 77, 9}, {32767, 30000, 20}, {-32768, 5, 30}, {0, 1, 31}, {100, 16384, 14}};
static int nq(int ty) { return ty < SA8 ? 7 : ty == SA8 ? 9 : ty == SA32 ? 7 : 1; }
static Q pickq(int ty, int k) { return ty < SA8 ? kFx[k] : ty == SA8 ? kS8[k] : ty == SA32 ? kS32[k] : Q{0, 1, 0}; }
// every source value for every pair of types and quantisations
static void vals(Case &cs) {
  auto &c = cs.ch; int a = c.pick("src", 5), b = c.pick("dst", 5), qa = c.pick("sq", nq(a)), qb = c.pick("dq", nq(b)); int fn = a == FP32 || b == FP32 ? 0 : c.pick("fn", 2); if (!cs.begin()) return;
  Q Qa = pickq(a, qa), Qb = pickq(b, qb); Ten s, d; if (a == FP32) { auto f = fvalues(Qb, ebits(kT[b])); s = Ten(kT[a], {(int)f.size()}); for (size_t i = 0; i < f.size(); i++) s.fset(i, f[i]); } else { auto v = values(a); s = Ten(kT[a], {(int)v.size()}); for (size_t i = 0; i < v.size(); i++) s.set(i, v[i]); }
  d = Ten(kT[b], {(int)s.count()}); setq(s, a, Qa); setq(d, b, Qb); Ten s0 = s; mli_tensor dt = d.t; int st = convert(cs, fn, s, d); char how[80]; snprintf(how, 80, "%s -> %s", tn(a), tn(b)); if (st) cs.fail("status", "%s: status %d", how, st);
  verify(cs, how, a, b, s, d, s0); if (!d.gapsIntact()) cs.fail("gap", "%s: wrote outside the destination", how); if (s.mem != s0.mem) cs.fail("input", "%s: source modified", how); if (memcmp(&dt, &d.t, sizeof dt)) cs.fail("descriptor", "%s: destination descriptor modified", how); cs.state(d.hash()); cs.out(d.hash()); cs.trace();
}
// shapes, memory strides, quantisation axes
static Q axq(int ty, int i, int salt) { return ty == SA8 ? Q{(i * 7 + salt) % 256 - 128, 1 + ((i + salt) * 997) % 3000, 6 + (i + salt) % 5} : Q{(i * 7 + salt) % 300 - 128, 1 + ((i + salt) * 991) % 3000, 8 + (i + salt) % 9}; }
static void setAxis(Ten &t, int ty, int ax, int salt) { if (ty != SA8 && ty != SA32) return setq(t, ty, {0, 1, ty == FX8 ? 4 : 8}); if (ax < 0) return setq(t, ty, axq(ty, 1, salt)); std::vector<int16_t> z, s; std::vector<int8_t> f; for (int i = 0; i < t.dim(ax); i++) { Q q = axq(ty, i, salt); z.push_back(q.zp); s.push_back(q.sc); f.push_back(q.fb); } t.saAxis(ax, z, s, f); }
static void fillT(Ten &t, int ty, uint32_t seed) { for (size_t i = 0; i < t.count(); i++) if (ty == FP32) t.fset(i, ((int)(h32(i * 7 + seed) % 4001) - 2000) / 64.0f); else if (ty == SA32) t.set(i, (i64)(h32(i * 5 + seed) % 20001) - 10000); else t.set(i, patval(P_RND, seed, i, ebits(kT[ty]))); }
static void layout(Case &cs) {
  auto &c = cs.ch; int a = c.pick("src", 5), b = c.pick("dst", 5), R = c.range("rank", 1, 4); static const V S[5][3] = {{}, {{1}, {3}, {7}}, {{1, 3}, {2, 2}, {3, 4}}, {{2, 3, 2}, {3, 1, 2}, {2, 2, 3}}, {{2, 1, 3, 2}, {2, 3, 2, 2}, {1, 2, 1, 3}}}; V sh = S[R][c.pick("shape", 3)];
  bool sa = a == SA8 || a == SA32, sb = b == SA8 || b == SA32; int ax = sa || sb ? c.range("axis", -1, R - 1) : -1, who = ax >= 0 && sa && sb ? c.pick("who", 3) : 0; V pads[3] = {{}, {0, 1, 2, 0}, {3, 2, 1, 0}}; for (auto &p : pads) { p.resize(p.empty() ? 0 : R); if (!p.empty()) p[R - 1] = 0; } int ps = c.pick("spad", 3), pd = c.pick("dpad", 3); int seed = c.pick("data", tier(1, 2)); if (!cs.begin()) return;
  Ten s(kT[a], sh, pads[ps]), d(kT[b], sh, pads[pd]); fillT(s, a, seed + 3); setAxis(s, a, sa && who != 1 ? ax : -1, 3); setAxis(d, b, sb && who != 2 ? ax : -1, 11); Ten s0 = s; mli_tensor dt = d.t; auto z = d.zps; char how[120]; snprintf(how, 120, "%s -> %s rank %d axis %d/%d strides %d/%d", tn(a), tn(b), R, sa && who != 1 ? ax : -1, sb && who != 2 ? ax : -1, ps, pd);
  int st = convert(cs, 0, s, d); if (st) cs.fail("status", "%s: status %d", how, st); verify(cs, how, a, b, s, d, s0); i64 w; if (!d.gapsIntact(&w)) cs.fail("gap", "%s: wrote outside the destination at byte %" PRId64, how, w); if (s.mem != s0.mem) cs.fail("input", "%s: source modified", how); if (memcmp(&dt, &d.t, sizeof dt) || z != d.zps) cs.fail("descriptor", "%s: destination description modified", how); cs.state(d.hash()); cs.out(d.hash());
  // same container: in place
  if (esize(kT[a]) == esize(kT[b]) && ps == pd) { Ten e = s0; e.zps = d.zps; e.scs = d.scs; e.fbs = d.fbs; e.t.el_type = kT[b]; e.t.el_params = d.t.el_params; e.rebind(); mli_tensor sv = s0.t; sv.data = e.t.data; std::vector<int16_t> k1 = s0.zps, k2 = s0.scs; cs.call(); st = mli_hlp_convert_tensor(&sv, &e.t); if (st) cs.fail("status", "%s in place: status %d", how, st); if (e.mem.size() != d.mem.size()) return; for (size_t i = 0; i < e.count(); i++) if (e.get(i) != d.get(i)) cs.fail("inplace", "%s in place: element %zu is %" PRId64 ", out of place %" PRId64, how, i, e.get(i), d.get(i)); if (!e.gapsIntact()) cs.fail("gap", "%s in place: wrote outside the elements", how); }
  cs.trace();
}
// the same quantisation is the identity; widening then narrowing restores
static void roundtrip(Case &cs) {
  auto &c = cs.ch; static const int P[][2] = {{FX8, FX8}, {FX16, FX16}, {SA8, SA8}, {SA32, SA32}, {FX8, FX16}, {SA8, SA32}, {FX8, SA32}, {FX16, SA32}, {FX8, FP32}, {FX16, FP32}, {SA8, FP32}, {SA8, FX16}}; int k = c.pick("pair", 12), a = P[k][0], b = P[k][1], qa = c.pick("q", nq(a)), extra = b == FX16 && a == FX8 ? c.range("extra", 0, 8) : b == SA32 && a != b ? c.range("extra", 0, 12) : 0; if (!cs.begin()) return;
  Q q = pickq(a, qa), m = a == b ? q : b == FX16 ? Q{0, 1, q.fb + extra} : b == SA32 ? Q{a == SA8 ? 50 : -7, q.sc, q.fb + extra} : Q{0, 1, 0}; if (a == SA8 && b == FX16) { if (q.sc != 1 && q.sc != 16384) return; m.fb = q.fb - (q.sc == 1 ? 0 : 14) + 4; }
  auto v = values(a); Ten s(kT[a], {(int)v.size()}), w(kT[b], {(int)v.size()}), r(kT[a], {(int)v.size()}); for (size_t i = 0; i < v.size(); i++) s.set(i, v[i]); setq(s, a, q); setq(w, b, m); setq(r, a, q);
  int st = convert(cs, 0, s, w); if (!st && a != b) st = convert(cs, 0, w, r); if (st) cs.fail("status", "%s -> %s -> back: status %d", tn(a), tn(b), st);
  for (size_t i = 0; i < v.size(); i++) { i64 g = a == b ? w.get(i) : r.get(i); if (g != v[i]) cs.fail(a == b ? "identity" : "roundtrip", "%s (zp %d scale %d/2^%d) -> %s (2^%d) -> back: %" PRId64 " became %" PRId64, tn(a), q.zp, q.sc, q.fb, tn(b), m.fb, v[i], g); } cs.trace();
}
static void large(Case &cs) {
  auto &c = cs.ch; int a = c.pick("src", 5), b = c.pick("dst", 5), k = c.pick("shape", 3), ax = a == SA8 || b == SA8 || a == SA32 || b == SA32 ? c.range("axis", -1, 1) : -1; if (!cs.begin()) return; static const V S[3] = {{3, 70000}, {70000, 2}, {300, 301}}; V sh = S[k];
  Ten s(kT[a], sh), d(kT[b], sh, {3}); fillT(s, a, 5); setAxis(s, a, ax, 3); setAxis(d, b, ax, 11); Ten s0 = s; char how[80]; snprintf(how, 80, "large %s -> %s axis %d", tn(a), tn(b), ax); int st = convert(cs, 0, s, d); if (st) cs.fail("status", "%s: status %d", how, st); verify(cs, how, a, b, s, d, s0); if (!d.gapsIntact()) cs.fail("gap", "%s: wrote outside", how); cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"vals", vals}, {"roundtrip", roundtrip}, {"layout", layout}, {"large", large}}); }
