// C01-C04: standard, depthwise, group and transposed convolution against the exact integer model (-DKIND=1..4).
#include "convlib.h"
using namespace mc;
#define FN3(k, suf) {mli_krn_##k##_hwcn_fx16##suf, mli_krn_##k##_hwcn_fx16_fx8_fx8##suf, mli_krn_##k##_hwcn_sa8_sa8_sa32##suf}
struct Spec { int k, s; ConvFn fn[3]; };          // fixed kernel size (and stride, 0 = any)
#if KIND == 1
static const ConvFn kGen[3] = FN3(conv2d, );
static const Spec kSpec[] = {{1, 0, FN3(conv2d, _k1x1)}, {3, 0, FN3(conv2d, _k3x3)}, {5, 0, FN3(conv2d, _k5x5)}};
#elif KIND == 2
static const ConvFn kGen[3] = FN3(depthwise_conv2d, );
static const Spec kSpec[] = {{3, 0, FN3(depthwise_conv2d, _k3x3)}, {5, 0, FN3(depthwise_conv2d, _k5x5)}};
#elif KIND == 3
static const ConvFn kGen[3] = FN3(group_conv2d, );
static const Spec kSpec[] = {{3, 0, FN3(group_conv2d, _k3x3)}, {5, 0, FN3(group_conv2d, _k5x5)}};
#else
static const ConvFn kGen[3] = FN3(transpose_conv2d, );
static const Spec kSpec[] = {{2, 2, FN3(transpose_conv2d, _k2x2_str2)}, {4, 2, FN3(transpose_conv2d, _k4x4_str2)}};
#endif
constexpr bool kTr = KIND == 4;
static int OH(const Geo &g) { return kTr ? (g.H - 1) * g.sh + g.kh - g.pt - g.pb : g.OH(); }
static int OW(const Geo &g) { return kTr ? (g.W - 1) * g.sw + g.kw - g.pl - g.pr : g.OW(); }
// a geometry with the channel structure of the kind: n selects channels per group / filters per group / groups
static Geo mk(const Axis &h, const Axis &w, int ci, int co) {
  if (KIND == 2) return geo(h, w, ci, ci, ci);
  if (KIND == 3) return geo(h, w, ci * 2, co * 2, 2);
  return geo(h, w, ci, co, 1);
}
static std::vector<Axis> AX(int maxin, int maxk, int maxs, int maxd, int maxpad) {
  if (!kTr) return axes(maxin, maxk, maxs, maxd, maxpad);
  std::vector<Axis> v;
  for (int in = 1; in <= maxin; in++) for (int k = 1; k <= maxk; k++) for (int s = 1; s <= std::min(maxs, k); s++)
    for (int pb = 0; pb < k; pb++) for (int pe = 0; pe < k; pe++) if ((in - 1) * s + 1 >= k && (in - 1) * s + k - pb - pe >= 1) v.push_back({in, k, s, 1, pb, pe});
  return v;
}
static void runAll(Case &cs, int fmt, const Geo &g, ConvTensors &T, int relu) {
  bool over = false; auto r = kTr ? ref_tconv(fmt, g, T, relu, &over) : ref_conv(fmt, g, T, relu, &over);
  if (over) { cs.skip(); return; }
  mli_conv2d_cfg cfg = convCfg(g, relu);
  mli_status st = kGen[fmt](&T.in.t, &T.w.t, &T.b.t, &cfg, &T.out.t); cs.call();
  std::string nm = std::string("generic kernel ") + fmtName(fmt);
  compareConv(cs, "generic", nm.c_str(), g, T, st, r);
  cs.out(T.out.hash());
  for (auto &sp : kSpec) if (g.kh == sp.k && g.kw == sp.k && (!sp.s || (g.sh == sp.s && g.sw == sp.s))) {
    T.out.fillCanary();
    st = sp.fn[fmt](&T.in.t, &T.w.t, &T.b.t, &cfg, &T.out.t); cs.call();
    compareConv(cs, "specialised", (nm + ", entry point for size " + std::to_string(sp.k)).c_str(), g, T, st, r);
  }
  cs.trace();
}
// every 2-D geometry = product of two 1-D geometries
static void geom(Case &cs) {
  static auto A = kTr ? (thorough() ? AX(4, 4, 3, 1, 3) : AX(3, 4, 2, 1, 3)) : thorough() ? AX(5, 3, 3, 3, 2) : AX(4, 3, 2, 2, 2);
  auto &c = cs.ch; int fmt = c.pick("fmt", 3); int a = c.pick("haxis", A.size()), b = c.pick("waxis", A.size());
  int variant = (a * 7 + b * 3) % 4; Geo g = mk(A[a], A[b], 1 + (variant & 1), 1 + (variant >> 1));
  if (!cs.begin()) return;
  Quant q = dfltQ(fmt); ConvTensors T = makeConv(fmt, g, q, OH(g), OW(g));
  dataConv(T, fmt, P_RND, a * 1000 + b, 4000);
  runAll(cs, fmt, g, T, MLI_RELU_NONE);
}
// products of medium 1-D geometries; in the quick tier one of STEP for the second dimension, shifted with the first
static void medium(Case &cs) {
  static auto A = mediumAxes(kTr, 3); static const int STEP = tier(kTr ? 3 : 11, 1);
  auto &c = cs.ch; int fmt = c.pick("fmt", 3); int a = c.pick("h", A.size()), b = c.pick("w", (A.size() - 1) / STEP + 1) * STEP; b = (b + a % STEP) % (int)A.size();
  Geo g = mk(A[a], A[b], 2, 3);
  if (!cs.begin()) return;
  Quant q = dfltQ(fmt); ConvTensors T = makeConv(fmt, g, q, OH(g), OW(g)); dataConv(T, fmt, P_RND, a * 31 + b, 4000);
  if (fmt != SA8) fill(T.in, P_RND, 3 + a, 3000);
  runAll(cs, fmt, g, T, MLI_RELU_NONE);
}
// longer axes (dilation x stride x padding up to the effective kernel size) in one dimension at a time
static void axis1(Case &cs) {
  static auto A = kTr ? (thorough() ? AX(8, 7, 6, 1, 6) : AX(6, 5, 4, 1, 4)) : thorough() ? AX(12, 6, 4, 4, 20) : AX(9, 5, 3, 3, 8);
  static const std::vector<Axis> B = {{1, 1, 1, 1, 0, 0}, {3, 3, 1, 1, 1, 1}, {4, 2, 2, 1, 0, 1}};
  auto &c = cs.ch; int fmt = c.pick("fmt", 3); int a = c.pick("axis", A.size()); int b = c.pick("other", B.size()); bool tr = c.flag("transposed");
  Geo g = tr ? mk(B[b], A[a], 1, 2) : mk(A[a], B[b], 1, 2);
  if (!cs.begin()) return;
  Quant q = dfltQ(fmt); ConvTensors T = makeConv(fmt, g, q, OH(g), OW(g));
  dataConv(T, fmt, P_RND, a + 31 * b, 4000);
  runAll(cs, fmt, g, T, MLI_RELU_NONE);
}
// channel structure x layouts x ReLU kinds
static void chans(Case &cs) {
  static const std::vector<std::pair<Axis, Axis>> S = kTr
    ? std::vector<std::pair<Axis, Axis>>{{{1, 1, 1, 1, 0, 0}, {1, 1, 1, 1, 0, 0}}, {{3, 3, 1, 1, 1, 1}, {3, 3, 2, 1, 1, 0}}, {{3, 2, 2, 1, 1, 0}, {2, 2, 2, 1, 0, 1}}, {{3, 4, 2, 1, 2, 1}, {4, 4, 2, 1, 3, 0}}, {{3, 5, 3, 1, 0, 3}, {4, 3, 1, 1, 0, 2}}}
    : std::vector<std::pair<Axis, Axis>>{{{1, 1, 1, 1, 0, 0}, {1, 1, 1, 1, 0, 0}}, {{3, 3, 1, 1, 1, 1}, {3, 3, 1, 1, 1, 1}}, {{4, 2, 2, 1, 1, 0}, {5, 3, 1, 2, 2, 2}}, {{5, 5, 1, 1, 2, 2}, {5, 5, 2, 1, 2, 2}}, {{4, 4, 1, 1, 0, 3}, {6, 1, 3, 1, 0, 0}}};
  auto &c = cs.ch; int fmt = c.pick("fmt", 3); int s = c.pick("shape", S.size());
  Geo g;
  if (KIND == 2) { int n = c.range("ci", 1, tier(20, 40)); g = geo(S[s].first, S[s].second, n, n, n); }
  else if (KIND == 3) { int G = c.range("groups", 1, tier(4, 6)), a = c.range("cpg", 1, tier(3, 5)), b = c.range("fpg", 1, tier(3, 5)); g = geo(S[s].first, S[s].second, G * a, G * b, G); }
  else { int ci = c.range("ci", 1, tier(5, 9)), co = c.range("co", 1, tier(5, 9)); g = geo(S[s].first, S[s].second, ci, co); }
  int ps = c.pick("strides", 8), relu = c.pick("relu", 4);
  if (!cs.begin()) return;
  std::vector<int> pi, pw, po; if (ps & 1) pi = {3, 2}; if (ps & 2) pw = {5, 1, 2}; if (ps & 4) po = {1, 3};
  ConvTensors T = makeConv(fmt, g, dfltQ(fmt), OH(g), OW(g), pi, pw, po); dataConv(T, fmt, P_RND, s * 100 + g.Ci * 10 + g.Co, 4000);
  runAll(cs, fmt, g, T, relu);
}
static void quantFx(Case &cs) {
  static const std::vector<int> F16 = {0, 1, 7, 8, 14, 15}, F8 = {0, 1, 4, 7};
  auto &c = cs.ch; int fmt = c.pick("fmt", 2);
  Quant q = dfltQ(fmt); q.fi = c.of("fi", thorough() ? std::vector<int>{0, 1, 3, 7, 8, 12, 14, 15} : F16); q.fw = fmt == FX16 ? c.of("fw", F16) : c.of("fw", F8);
  int sum = q.fi + q.fw;
  q.fb = fmt == FX16 ? c.of("fb", F16) : c.of("fb", F8); q.fo = c.of("fo", std::vector<int>{0, 1, 3, 7, 8, 11, 14, 15});
  if (q.fb > sum || q.fo > sum) return;
  int relu = c.pick("relu", 4), pat = c.of("pat", {P_SMALL, P_RND, P_MAX, P_MIN, P_ALT}), ks = c.pick("kernel", 3);
  if (!cs.begin()) return;
  Axis A[3] = {{1, 1, 1, 1, 0, 0}, {3, 3, 1, 1, 1, 1}, {2, 2, kTr ? 2 : 1, 1, 1, 0}};
  Geo g = mk(A[ks], A[ks], 2, KIND == 3 ? 1 : 3);
  ConvTensors T = makeConv(fmt, g, q, OH(g), OW(g)); dataConv(T, fmt, pat, relu + 3, 4000);
  runAll(cs, fmt, g, T, relu);
}
static void quantSa(Case &cs) {
  auto &c = cs.ch; Quant q = dfltQ(SA8);
  q.zi = c.of("zi", {0, -128, 127, 3}); q.zo = c.of("zo", {0, -128, 127, -5});
  q.si = c.of("si", {1, 77, 16384, 32767}); q.so = c.of("so", {1, 91, 20000, 32767}); q.sw0 = c.of("sw", {1, 50, 32767}); q.axis = c.flag("axis");
  // real multiplier si*sw/so * 2^-(ei+ew-eo): choose ew so that it lands around 2^-m
  int m = c.of("m", {0, 4, 8, 12, 16, -2, 20}); int eo = c.of("eo", {8, 0, 15, -3}), ei = c.of("ei", {10, 15, 2});
  q.ei = ei; q.eo = eo; double lg = log2((double)q.si * q.sw0 / q.so); q.ew0 = (int)floor(lg + m - ei + eo + 0.5);
  if (q.ew0 > 120 || q.ew0 < -120) return;
  int relu = c.pick("relu", 4), pat = c.of("pat", {P_RND, P_ALT, P_MAX}); 
  if (!cs.begin()) return;
  Axis A{2, 2, kTr ? 2 : 1, 1, 1, 0}; Geo g = mk(A, A, 2, KIND == 3 ? 1 : 3);
  ConvTensors T = makeConv(SA8, g, q, OH(g), OW(g)); dataConv(T, SA8, pat, relu + 3 + m, (i64)1 << clampi(m + 6, 4, 30));
  runAll(cs, SA8, g, T, relu);
}
// extents beyond 8-bit / 16-bit index ranges, one at a time
static void big(Case &cs) {
  static const std::vector<Geo> GS = {
#if KIND == 1
    {300, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1}, {2, 300, 1, 1, 1, 3, 1, 1, 1, 1, 0, 0, 1, 1, 1}, {2, 2, 300, 2, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1}, {2, 2, 2, 300, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1},
    {40, 40, 3, 5, 20, 21, 3, 2, 1, 1, 9, 10, 11, 12, 1}, {140, 3, 1, 1, 3, 3, 1, 1, 60, 1, 100, 110, 1, 1, 1}, {3, 140, 1, 1, 3, 3, 1, 1, 1, 60, 1, 1, 110, 100, 1}, {260, 261, 1, 1, 1, 1, 130, 255, 1, 1, 0, 0, 0, 0, 1},
    {200, 200, 2, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1}, {5, 5, 33, 65, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {300, 1, 1, 2, 270, 1, 3, 1, 1, 1, 255, 200, 0, 0, 1}, {1, 300, 1, 2, 1, 270, 1, 3, 1, 1, 0, 0, 255, 200, 1}
#elif KIND == 2
    {300, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1}, {2, 300, 1, 1, 1, 3, 1, 1, 1, 1, 0, 0, 1, 1, 1}, {2, 2, 300, 300, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 300}, {3, 3, 261, 261, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 261},
    {40, 40, 3, 3, 20, 21, 3, 2, 1, 1, 9, 10, 11, 12, 3}, {140, 3, 1, 1, 3, 3, 1, 1, 60, 1, 100, 110, 1, 1, 1}, {3, 140, 1, 1, 3, 3, 1, 1, 1, 60, 1, 1, 110, 100, 1}, {260, 261, 2, 2, 1, 1, 130, 255, 1, 1, 0, 0, 0, 0, 2},
    {200, 200, 2, 2, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 2}, {300, 1, 2, 2, 270, 1, 3, 1, 1, 1, 255, 200, 0, 0, 2}, {1, 300, 2, 2, 1, 270, 1, 3, 1, 1, 0, 0, 255, 200, 2}
#elif KIND == 3
    {1, 1, 120, 180, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 60}, {1, 1, 120, 420, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 60}, {300, 2, 2, 2, 3, 1, 1, 1, 1, 1, 1, 1, 0, 0, 2}, {2, 300, 2, 4, 1, 3, 1, 1, 1, 1, 0, 0, 1, 1, 2}, {2, 2, 600, 4, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 2}, {2, 2, 2, 600, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 2}, {2, 2, 300, 300, 2, 1, 1, 1, 1, 1, 1, 0, 0, 0, 300},
    {40, 40, 4, 6, 20, 21, 3, 2, 1, 1, 9, 10, 11, 12, 2}, {140, 3, 2, 2, 3, 3, 1, 1, 60, 1, 100, 110, 1, 1, 2}, {3, 140, 2, 2, 3, 3, 1, 1, 1, 60, 1, 1, 110, 100, 2}, {260, 261, 2, 2, 1, 1, 130, 255, 1, 1, 0, 0, 0, 0, 2}, {5, 5, 66, 99, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 33}
#else
    {300, 2, 1, 1, 3, 2, 2, 1, 1, 1, 1, 1, 0, 0, 1}, {2, 300, 1, 1, 1, 3, 1, 2, 1, 1, 0, 0, 1, 1, 1}, {2, 2, 300, 2, 2, 2, 2, 2, 1, 1, 0, 0, 0, 0, 1}, {2, 2, 2, 300, 2, 2, 2, 2, 1, 1, 0, 0, 0, 0, 1},
    {9, 8, 3, 5, 20, 21, 3, 4, 1, 1, 9, 10, 11, 12, 1}, {3, 2, 1, 1, 150, 2, 140, 1, 1, 1, 100, 131, 1, 1, 1}, {2, 3, 1, 1, 2, 150, 1, 140, 1, 1, 1, 1, 131, 100, 1}, {130, 130, 1, 1, 4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1}, {5, 5, 33, 65, 4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1}
#endif
  };
  auto &c = cs.ch; int fmt = c.pick("fmt", 3), which = c.pick("which", GS.size());
  if (!cs.begin()) return;
  Geo g = GS[which]; Quant q = dfltQ(fmt);
  ConvTensors T = makeConv(fmt, g, q, OH(g), OW(g));
  dataConv(T, fmt, P_RND, which, 4000); if (fmt != SA8) fill(T.in, P_RND, 3, 2000);
  runAll(cs, fmt, g, T, MLI_RELU_NONE);
}
int main(int argc, char **argv) {
  return run_main(argc, argv, {{"geometry2d", geom}, {"medium2d", medium}, {"axis", axis1}, {"channels_strides", chans}, {"quant_fx", quantFx}, {"quant_sa8", quantSa}, {"large_extents", big}});
}
