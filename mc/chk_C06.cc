// C06: max and average pooling over exactly the in-image part of every window.
#include "convlib.h"
using namespace mc;
typedef mli_status (*PoolFn)(const mli_tensor *, const mli_pool_cfg *, mli_tensor *);
static const PoolFn kFn[2][3][3] = {   // [max, ave][fx16, fx8, sa8][generic, 2x2, 3x3]
  {{mli_krn_maxpool_hwc_fx16, mli_krn_maxpool_hwc_fx16_k2x2, mli_krn_maxpool_hwc_fx16_k3x3}, {mli_krn_maxpool_hwc_fx8, mli_krn_maxpool_hwc_fx8_k2x2, mli_krn_maxpool_hwc_fx8_k3x3}, {mli_krn_maxpool_hwc_sa8, mli_krn_maxpool_hwc_sa8_k2x2, mli_krn_maxpool_hwc_sa8_k3x3}},
  {{mli_krn_avepool_hwc_fx16, mli_krn_avepool_hwc_fx16_k2x2, mli_krn_avepool_hwc_fx16_k3x3}, {mli_krn_avepool_hwc_fx8, mli_krn_avepool_hwc_fx8_k2x2, mli_krn_avepool_hwc_fx8_k3x3}, {mli_krn_avepool_hwc_sa8, mli_krn_avepool_hwc_sa8_k2x2, mli_krn_avepool_hwc_sa8_k3x3}}};
static const mli_element_type kT[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8};
static const char *kN[3] = {"fx16", "fx8", "sa8"};
#ifdef CFG_AVE16
constexpr int kMulBits = 16;
#else
constexpr int kMulBits = 8;
#endif
// 1/n as a 15-bit mantissa and a shift (powers of two are exact)
static void recip(int n, i64 &mul, int &sh) {
  int k = 0; while (((i64)1 << k) < n) k++;
  if (((i64)1 << k) == n) { mul = 0x4000; sh = 14 + k; } else { mul = ((i64)1 << (14 + k)) / n; sh = 14 + k; }
}
struct Q { int fi, fo, zi, si, ei, zo, so, eo; };
static i64 ave(int f, const std::vector<i64> &v, const Q &q, bool *over, double *real, double *tol) {
  i64 mul; int sh; recip(v.size(), mul, sh); i64 sum = 0; for (i64 x : v) sum += x; double n = v.size();
  if (f < 2) {
    sh += q.fi - q.fo; int bits = f == 0 ? 64 : 32; i64 acc = sum * mul;
    i64 amax = 0; for (i64 x : v) amax += llabs(x) * mul; if (bits == 32 && amax > INT32_MAX) *over = true;
    *real = sum / n * pow(2, q.fo - q.fi); *tol = 0.5001 + fabs(*real) / 8192;
    return satn(shr(acc, sh, bits), f == 0 ? 16 : 8);
  }
  Rq r = requant(q.si, q.ei, q.zi, q.so, q.eo, q.zo);
  i64 p = r.scale * mul; int ns = 32 - kMulBits - norm(p, 32); i64 m = satn(shr(p, ns, 32), kMulBits); int s = r.shift + sh - ns;
  if (s > 22) { *over = true; return 0; }          // offset << s must fit the 32-bit accumulator
  i128 b = s >= 0 ? (i128)r.offset * ((i128)1 << s) : (i128)(r.offset >> (-s > 31 ? 31 : -s));
  i64 amax = 0; for (i64 x : v) amax += llabs(x) * m;
  if ((b < 0 ? -b : b) + amax > INT32_MAX) *over = true;
  double ratio = q.si * pow(2, -q.ei) / (q.so * pow(2, -q.eo));
  *real = (sum / n - q.zi) * ratio + q.zo; *tol = 1.001 + (fabs(sum / n) + fabs(q.zi)) * ratio * pow(2, -(kMulBits - 2)) * 1.1;
  return satn(shr((i64)b + sum * m, s, 32), 8);
}
static void runPool(Case &cs, int kind, int f, const Geo &g, const Q &q, int pat, uint32_t seed, std::vector<int> pi, std::vector<int> po, bool tight = true) {
  Ten in(kT[f], {g.H, g.W, g.Ci}, pi), out(kT[f], {g.OH(), g.OW(), g.Ci}, po);
  if (f < 2) { in.fx(q.fi); out.fx(q.fo); } else { in.sa(q.zi, q.si, q.ei); out.sa(q.zo, q.so, q.eo); }
  fill(in, pat, seed);
  std::vector<i64> r; bool over = false;
  for (int y = 0; y < g.OH(); y++) for (int x = 0; x < g.OW(); x++) for (int c = 0; c < g.Ci; c++) {
    std::vector<i64> v;
    for (int i = 0; i < g.kh; i++) for (int j = 0; j < g.kw; j++) { int iy = y * g.sh - g.pt + i, ix = x * g.sw - g.pl + j; if (iy >= 0 && iy < g.H && ix >= 0 && ix < g.W) v.push_back(in.at(iy, ix, c)); }
    if (kind == 0) r.push_back(*std::max_element(v.begin(), v.end()));
    else {
      double real, tol; i64 e = ave(f, v, q, &over, &real, &tol); if (over) { cs.skip(); return; }
      int bits = ebits(kT[f]); double lo = -pow(2, bits - 1), hi = -lo - 1, rc = real < lo ? lo : real > hi ? hi : real;
      if (tight && fabs((double)e - rc) > tol) cs.fail("model", "reference model %" PRId64 " is not within %.3f of the real average %.4f", e, tol, rc);
      r.push_back(e);
    }
  }
  mli_pool_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.kernel_width = g.kw; cfg.kernel_height = g.kh; cfg.stride_width = g.sw; cfg.stride_height = g.sh;
  cfg.padding_left = g.pl; cfg.padding_right = g.pr; cfg.padding_top = g.pt; cfg.padding_bottom = g.pb;
  for (int v = 0; v < 3; v++) {
    if (v && !(g.kh == v + 1 && g.kw == v + 1)) continue;
    Ten o = out; mli_status st = kFn[kind][f][v](&in.t, &cfg, &o.t); cs.call();
    std::string nm = std::string(kind ? "avepool " : "maxpool ") + kN[f] + (v == 0 ? "" : v == 1 ? " k2x2" : " k3x3");
    struct { Ten &out; } T{o};
    if (st != MLI_STATUS_OK) cs.fail(kind ? "ave" : "max", "%s: status %d on %s", nm.c_str(), st, g.str().c_str());
    for (size_t i = 0; i < o.count(); i++) if (o.get(i) != r[i])
      cs.fail(kind ? "ave" : "max", "%s: out(%zu,%zu,%zu) = %" PRId64 ", expected %" PRId64 "; %s", nm.c_str(), i / g.Ci / g.OW(), i / g.Ci % g.OW(), i % g.Ci, o.get(i), r[i], g.str().c_str());
    Ten &ref = kind ? out : in;
    if (f < 2 ? o.frac() != ref.frac() : (o.zp() != ref.zp() || o.scale() != ref.scale() || o.fb() != ref.fb() || o.t.el_params.sa.dim != -1))
      cs.fail("params", "%s: output quantisation parameters are not those of the %s", nm.c_str(), kind ? "caller" : "input");
    for (int d = 0; d < 3; d++) if (o.t.shape[d] != out.t.shape[d] || o.t.mem_stride[d] != out.t.mem_stride[d]) cs.fail("params", "%s: output shape or strides changed", nm.c_str());
    cs.out(o.hash());
  }
  cs.trace();
}
static const Q kQ = {4, 4, 3, 77, 8, -9, 91, 8};
static void geom(Case &cs) {
  static auto A = thorough() ? axes(6, 4, 4, 1, 3) : axes(4, 3, 3, 1, 2);
  auto &c = cs.ch; int kind = c.pick("kind", 2), f = c.pick("fmt", 3); int a = c.pick("h", A.size()), b = c.pick("w", A.size());
  if (!cs.begin()) return;
  Geo g = geo(A[a], A[b], 1 + (a + b) % 3, 1);
  runPool(cs, kind, f, g, kQ, P_RND, a * 131 + b, {}, {});
}
static void medium(Case &cs) {
  static auto A = mediumAxes(false, 1); static const int STEP = tier(3, 1);
  auto &c = cs.ch; int kind = c.pick("kind", 2), f = c.pick("fmt", 3); int a = c.pick("h", A.size()), b = c.pick("w", (A.size() - 1) / STEP + 1) * STEP; b = (b + a % STEP) % (int)A.size();
  if (!cs.begin()) return;
  runPool(cs, kind, f, geo(A[a], A[b], 3, 1), kQ, P_RND, a * 131 + b, {}, {});
}
static void axis1(Case &cs) {
  static auto A = thorough() ? axes(14, 10, 6, 1, 9) : axes(10, 7, 4, 1, 6);
  static const std::vector<Axis> B = {{1, 1, 1, 1, 0, 0}, {4, 2, 2, 1, 1, 1}, {3, 3, 1, 1, 1, 2}};
  auto &c = cs.ch; int kind = c.pick("kind", 2), f = c.pick("fmt", 3); int a = c.pick("axis", A.size()), b = c.pick("other", B.size()); bool tr = c.flag("transposed");
  if (!cs.begin()) return;
  runPool(cs, kind, f, tr ? geo(B[b], A[a], 2, 1) : geo(A[a], B[b], 2, 1), kQ, P_RND, a + b, {}, {});
}
// channels x memory layout x value patterns
static void chans(Case &cs) {
  static const std::vector<std::pair<Axis, Axis>> S = {{{1, 1, 1, 1, 0, 0}, {1, 1, 1, 1, 0, 0}}, {{4, 2, 2, 1, 0, 1}, {5, 2, 1, 1, 1, 0}}, {{5, 3, 1, 1, 1, 1}, {4, 3, 2, 1, 2, 1}}, {{3, 3, 1, 1, 2, 2}, {2, 3, 1, 1, 1, 1}}, {{6, 4, 3, 1, 3, 3}, {7, 5, 2, 1, 4, 0}}};
  auto &c = cs.ch; int kind = c.pick("kind", 2), f = c.pick("fmt", 3), s = c.pick("shape", S.size()), ch = c.range("ch", 1, tier(12, 40)), ps = c.pick("strides", 4), pat = c.of("pat", {P_RND, P_MAX, P_MIN, P_ALT, P_SMALL, P_RAMP});
  if (!cs.begin()) return;
  std::vector<int> pi, po; if (ps & 1) pi = {3, 2}; if (ps & 2) po = {1, 5};
  runPool(cs, kind, f, geo(S[s].first, S[s].second, ch, 1), kQ, pat, ch, pi, po);
}
// every divisor: windows w x h, fully inside the image
static void divisors(Case &cs) {
  auto &c = cs.ch; int kind = c.pick("kind", 2), f = c.pick("fmt", 3), kh = c.range("kh", 1, tier(12, 24)), kw = c.range("kw", 1, tier(12, 24)), pat = c.of("pat", {P_RND, P_MAX, P_MIN});
  if (!cs.begin()) return;
  runPool(cs, kind, f, Geo{kh + 1, kw + 1, 1, 1, kh, kw, 1, 1, 1, 1, 0, 0, 0, 0, 1}, kQ, pat, kh * 31 + kw, {}, {});
}
// requantisation
static void quant(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 3); Q q = kQ;
  if (f < 2) { q.fi = c.of("fi", {0, 1, 4, 7, 8, 12, 15}); q.fo = c.of("fo", {0, 1, 3, 7, 9, 13, 15}); }
  else {
    q.zi = c.of("zi", {0, -128, 127, 9}); q.zo = c.of("zo", {0, -128, 127, -5}); q.si = c.of("si", {1, 77, 16384, 32767}); q.so = c.of("so", {1, 91, 20000, 32767});
    int m = c.of("m", {0, 1, 2, 4, -1, -3, 7}); q.ei = c.of("ei", {10, 0, -2, 15}); q.eo = q.ei - (int)floor(log2((double)q.si / q.so) + 0.5) - m;
  }
  int k = c.pick("k", 5), pat = c.of("pat", {P_RND, P_ALT, P_MAX, P_MIN, P_RAMP});
  if (!cs.begin()) return;
  static const int K[5][2] = {{1, 1}, {2, 2}, {3, 3}, {5, 7}, {7, 3}};
  runPool(cs, 1, f, Geo{K[k][0] + 2, K[k][1] + 3, 2, 1, K[k][0], K[k][1], 1, 1, 1, 1, k ? 1 : 0, 0, 0, k ? 1 : 0, 1}, q, pat, k, {}, {}, q.fo <= q.fi + 2);
}
static void big(Case &cs) {
  static const std::vector<Geo> GS = {{300, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1}, {2, 300, 1, 1, 1, 3, 1, 1, 1, 1, 0, 0, 1, 1, 1}, {2, 2, 300, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1}, {3, 3, 261, 1, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1},
    {40, 40, 2, 1, 20, 21, 3, 2, 1, 1, 9, 10, 11, 12, 1}, {260, 261, 1, 1, 1, 1, 130, 255, 1, 1, 0, 0, 0, 0, 1}, {200, 200, 2, 1, 2, 2, 1, 1, 1, 1, 0, 0, 0, 0, 1}, {300, 1, 2, 1, 255, 1, 3, 1, 1, 1, 254, 200, 0, 0, 1}, {1, 300, 2, 1, 1, 255, 1, 3, 1, 1, 0, 0, 254, 200, 1}, {33000, 1, 1, 1, 2, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1}, {1, 33000, 1, 1, 1, 2, 1, 1, 1, 1, 0, 0, 0, 0, 1}, {3, 300, 230, 1, 2, 2, 1, 2, 1, 1, 1, 0, 0, 1, 1}, {100, 90, 1, 1, 97, 88, 1, 1, 1, 1, 10, 10, 5, 5, 1}};
  auto &c = cs.ch; int kind = c.pick("kind", 2), f = c.pick("fmt", 3), w = c.pick("which", GS.size());
  if (!cs.begin()) return;
  runPool(cs, kind, f, GS[w], kQ, P_RND, w, {}, {}, false);
}
int main(int argc, char **argv) {
  return run_main(argc, argv, {{"geometry2d", geom}, {"medium2d", medium}, {"axis", axis1}, {"channels_strides", chans}, {"divisors", divisors}, {"quantisation", quant}, {"large_extents", big}});
}
