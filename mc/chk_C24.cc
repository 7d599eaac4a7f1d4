// C24: MLI 3.0 rescale, clip and parametric ReLU through their whole life cycle, tile by tile.
#include "k3long.h"
using namespace k3;
static const int TY[][2] = {{4, 1}, {1, 1}, {1, 4}};
static void shapes(Case &c, int *d, int *t, int n) { static const int D[][5] = {{1, 5, 4, 1, 3}, {2, 1, 3, 1, 7}, {3, 4, 1, 1, 2}, {5, 2, 6, 1, 1}, {1, 1, 1, 1, 33}, {1, 2, 2, 3, 4}, {1, 1, 1, 1, 1}}; const int *s = D[c.ch.range("shape", 0, 6)]; int tk = c.ch.range("tile", 0, 5);
  for (int i = 0; i < n; i++) { int q = n == 4 && i == 3 ? 4 : i; d[i] = s[q]; t[i] = tk == 5 ? d[i] : i == tk ? 1 : std::min(d[i], 2 + (i & 1)); } }
static void rs_shape(Case &c) {
  RsP p; const int *ty = TY[c.ch.pick("type", 3)]; p.ie = ty[0]; p.oe = ty[1]; p.axis = c.ch.range("axis", -1, 3); for (int i = 0; i < 4; i++) { p.d[i] = c.ch.range("d", 1, i == 2 ? tier(2, 3) : 3); p.t[i] = c.ch.range("t", 1, p.d[i]); } int g = c.ch.range("gaps", 0, 3); p.gi = g & 1; p.go = g >> 1; p.ik = 1; p.ok = 1; runRescale(c, p, 91);
}
static void rs_config(Case &c) {
  RsP p; const int *ty = TY[c.ch.pick("type", 3)]; p.ie = ty[0]; p.oe = ty[1]; p.axis = c.ch.range("axis", -1, 3); shapes(c, p.d, p.t, 4); p.hist = c.ch.range("hist", 0, 3); p.enc = c.ch.flag("enc"); p.ip = p.ie == p.oe && c.ch.flag("in_place"); p.gi = c.ch.range("gi", 0, 1); p.ik = 4; p.ok = 1; bool all = true; for (int i = 0; i < 4; i++) all &= p.t[i] == p.d[i]; if (all) p.whole = c.ch.flag("whole"); runRescale(c, p, 92 + p.hist);
}
// every combination of value, scale, shift and bias patterns
static void rs_values(Case &c) {
  RsP p; const int *ty = TY[c.ch.pick("type", 3)]; p.ie = ty[0]; p.oe = ty[1]; p.axis = c.ch.flag("per_axis") ? 3 : -1; p.d[2] = p.t[2] = p.ie == 1 ? 16 : 5; p.d[3] = p.t[3] = p.ie == 1 ? 16 : 6; p.vk = c.ch.range("vk", 0, p.ie == 1 ? 6 : 4); p.sk = c.ch.range("scale", 0, 5); p.hk = c.ch.range("shift", 0, 8); p.ik = c.ch.range("in_bias", 0, 4); p.ok = c.ch.range("out_bias", 0, 4); runRescale(c, p, 93);
}
static void clip_shape(Case &c) {
  ClP p; for (int i = 0; i < 4; i++) { p.d[i] = c.ch.range("d", 1, i == 2 ? tier(2, 3) : 3); p.t[i] = c.ch.range("t", 1, p.d[i]); } int g = c.ch.range("gaps", 0, 3); p.gi = g & 1; p.go = g >> 1; p.ord = c.ch.range("ord", 0, 2); p.lo = -20; p.hi = 60; runClip(c, p, 94);
}
static void clip_config(Case &c) {
  ClP p; shapes(c, p.d, p.t, 4); bool all = true; for (int i = 0; i < 4; i++) all &= p.t[i] == p.d[i]; if (all) p.iface = c.ch.flag("tensors"); p.hist = c.ch.range("hist", 0, 3); p.enc = c.ch.flag("enc"); p.ip = c.ch.flag("in_place"); p.gi = c.ch.range("gi", 0, 1); if (!p.ip) p.go = c.ch.range("go", 0, 1); if (p.iface) { p.rank = c.ch.range("rank", 1, 4); for (int i = 0; i < 4 - p.rank; i++) p.d[i] = p.t[i] = 1; } p.lo = -100; p.hi = 3; runClip(c, p, 95 + p.hist);
}
// all values against every pair of limits
static void clip_values(Case &c) {
  static const int V[] = {-128, -127, -64, -3, -1, 0, 1, 2, 63, 100, 126, 127}; ClP p; int nl = thorough() ? 256 : 12; int a = c.ch.pick("lo", nl), b = c.ch.pick("hi", nl - a) + a; p.lo = thorough() ? a - 128 : V[a]; p.hi = thorough() ? b - 128 : V[b]; p.d[2] = p.t[2] = p.d[3] = p.t[3] = 16; p.vk = 6; runClip(c, p, 96);
}
static void prelu_shape(Case &c) {
  PrP p; for (int i = 0; i < 5; i++) { p.d[i] = c.ch.range("d", 1, i == 4 ? 4 : i == 3 || i == 0 ? 2 : tier(2, 3)); p.t[i] = c.ch.range("t", 1, p.d[i]); } p.axis = c.ch.flag("per_axis") ? 4 : -1; int g = c.ch.range("gaps", 0, 3); p.gi = g & 1; p.go = g >> 1; p.ik = 1; p.ok = 1; runPrelu(c, p, 97);
}
static void prelu_config(Case &c) {
  PrP p; shapes(c, p.d, p.t, 5); bool all = true; for (int i = 0; i < 5; i++) all &= p.t[i] == p.d[i]; p.axis = c.ch.flag("per_axis") ? 4 : -1; if (all && p.d[3] == 1) p.iface = c.ch.flag("four"); p.hist = c.ch.range("hist", 0, 3); p.enc = c.ch.flag("enc"); p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.ik = 1; p.ok = 1; runPrelu(c, p, 98 + p.hist);
}
static void prelu_values(Case &c) {
  PrP p; p.axis = c.ch.flag("per_axis") ? 4 : -1; p.d[2] = p.t[2] = 5; p.d[4] = p.t[4] = 6; p.vk = c.ch.range("vk", 0, 4); p.sk = c.ch.range("pscale", 0, 5); p.nk = c.ch.range("nscale", 0, 5); p.hk = c.ch.range("pshift", 0, 8); p.gk = c.ch.range("nshift", 0, 8); p.ik = c.ch.range("in_bias", 0, 4); p.ok = c.ch.range("out_bias", 0, 3); runPrelu(c, p, 99);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"rescale_shape", rs_shape}, {"rescale_config", rs_config}, {"rescale_values", rs_values}, {"clip_shape", clip_shape}, {"clip_config", clip_config}, {"clip_values", clip_values}, {"prelu_shape", prelu_shape}, {"prelu_config", prelu_config}, {"prelu_values", prelu_values}, {"long_rescale", longRescale}, {"long_clip", longClip}, {"long_prelu", longPrelu}}); }
