// C22: MLI 3.0 multiply-accumulate kernels through their whole life cycle, tile by tile.
#include "k3long.h"
using namespace k3;
static std::vector<Win> wins(int maxOut, int maxK, int maxS, int maxD) {
  std::vector<Win> v;
  for (int out = 1; out <= maxOut; out++) for (int tile = 1; tile <= out; tile++) for (int k = 1; k <= maxK; k++) for (int s = 1; s <= maxS; s++) for (int d = 1; d <= maxD; d++) {
    if (k == 1 && d > 1) continue; int ek = (k - 1) * d + 1;
    for (int p = 0; p < ek; p++) for (int pe = 0; pe < ek; pe++) for (int rem = 0; rem < s && rem < 2; rem++) { Win w{out, tile, k, s, d, p, pe, 0}; if (finishWin(w, rem)) v.push_back(w); }
  }
  return v;
}
static std::vector<Win> dwins(int maxIn, int maxK) {
  std::vector<Win> v;
  for (int in = 1; in <= maxIn; in++) for (int tile = 1; tile <= in; tile++) for (int k = 1; k <= maxK; k++) for (int s = 1; s <= k && s <= 3; s++) for (int p = 0; p < k; p++) for (int pe = 0; pe < k; pe++) {
    Win w{0, tile, k, s, 1, p, pe, in}; if (finishDeconv(w)) v.push_back(w); }
  return v;
}
static const Win ONE{1, 1, 1, 1, 1, 0, 0, 1}, A{3, 2, 3, 1, 1, 1, 1, 3}, B{2, 1, 2, 2, 1, 0, 0, 4}, C3{3, 3, 2, 1, 2, 1, 0, 4};
// window geometry of one dimension, exhaustively; the other dimension one of a few
static void convWin(Case &c, int kind) {
  static auto W = wins(tier(5, 7), tier(3, 4), 3, tier(2, 3)); ConvP p; p.kind = kind;
  const Win o[] = {ONE, A, B, C3}; bool sw = c.ch.flag("sw"); int x = c.ch.range("x", 0, 3); Win a = W[c.ch.pick("x", (int)W.size())]; p.h = sw ? o[x] : a; p.w = sw ? a : o[x];
  p.ci = 2; p.co = kind == 1 ? 3 : 3; if (kind == 1) p.ci = p.co; p.toc = 2; p.izk = 2; p.wzk = 2; p.gi = 0; runConv(c, p, 11);
}
static void conv_window(Case &c) { convWin(c, 0); }
static void dw_window(Case &c) { convWin(c, 1); }
// everything but the geometry
static void convCfg(Case &c, int kind) {
  ConvP p; p.kind = kind; p.h = A; p.w = c.ch.flag("w") ? B : C3; p.co = c.ch.range("co", 1, 3); p.toc = c.ch.range("toc", 1, p.co); p.ci = kind == 1 ? p.co : c.ch.range("x", 1, 3); p.iface = c.ch.range("iface", 0, 2); if (p.iface == 2) { p.toc = p.co; p.h.tile = p.h.out; p.w.tile = p.w.out; }
  switch (c.ch.range("x", 0, 3)) {
    case 0: p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.gw = c.ch.range("gw", 0, 1); break;
    case 1: p.izk = c.ch.range("izk", 0, 4); p.wzk = c.ch.range("wzk", 0, 5); break;
    case 2: p.vk = c.ch.range("vk", 0, 4); p.wzk = c.ch.range("wzk", 3, 5); p.izk = c.ch.range("izk", 3, 4); break;
    case 3: p.hist = c.ch.range("hist", 0, 3); p.enc = c.ch.range("enc", 0, 1); p.encf = c.ch.range("encf", 0, 1); p.gi = c.ch.range("gi", 0, 1); break;
  }
  if (p.co == 1 && p.enc) { c.skip(); return; }
  runConv(c, p, 5 + p.hist);
}
static void conv_config(Case &c) { convCfg(c, 0); }
static void dw_config(Case &c) { convCfg(c, 1); }
static void dw_batch(Case &c) {
  ConvP p; p.kind = 1; p.b = c.ch.range("b", 1, 4); p.tb = c.ch.range("tb", 1, p.b); p.co = p.ci = c.ch.range("ci", 1, 2); p.toc = c.ch.range("toc", 1, p.co); p.h = A; p.w = c.ch.flag("w") ? B : ONE; p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.hist = c.ch.range("hist", 0, 2); runConv(c, p, 9);
}
static void deconv_window(Case &c) {
  static auto W = dwins(tier(6, 8), tier(4, 6)); ConvP p; p.kind = 2; Win o[] = {{0, 1, 1, 1, 1, 0, 0, 1}, {0, 2, 2, 1, 1, 1, 0, 4}, {0, 3, 3, 2, 1, 1, 1, 5}}; for (auto &w : o) finishDeconv(w);
  bool sw = c.ch.flag("sw"); int x = c.ch.range("x", 0, 2); Win a = W[c.ch.pick("x", (int)W.size())]; p.h = sw ? o[x] : a; p.w = sw ? a : o[x]; p.ci = 2; p.co = 3; p.toc = 2; p.izk = 2; p.wzk = 2; runConv(c, p, 21);
}
static void deconv_config(Case &c) {
  ConvP p; p.kind = 2; Win o[] = {{0, 2, 3, 2, 1, 1, 1, 4}, {0, 4, 2, 2, 1, 0, 1, 4}, {0, 2, 1, 1, 1, 0, 0, 3}, {0, 1, 2, 2, 1, 1, 0, 3}}; for (auto &w : o) finishDeconv(w);
  p.h = o[c.ch.range("h", 0, 3)]; p.w = o[c.ch.range("w", 0, tier(1, 3))]; p.co = c.ch.range("co", 1, 3); p.toc = c.ch.range("toc", 1, p.co); p.ci = c.ch.range("ci", 1, 2); p.iface = c.ch.range("iface", 0, 1);
  switch (c.ch.range("x", 0, 3)) {
    case 0: p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.gw = c.ch.range("gw", 0, 1); break;
    case 1: p.izk = c.ch.range("izk", 0, 4); p.wzk = c.ch.range("wzk", 0, 5); break;
    case 2: p.vk = c.ch.range("vk", 0, 4); p.wzk = c.ch.range("wzk", 3, 5); p.izk = c.ch.range("izk", 3, 4); break;
    case 3: p.hist = c.ch.range("hist", 0, 3); p.enc = c.ch.range("enc", 0, 1); p.encf = c.ch.range("encf", 0, 1); p.go = c.ch.range("go", 0, 1); break;
  }
  runConv(c, p, 7 + p.hist);
}
static void fc_shape(Case &c) {
  FcP p; p.ic = c.ch.range("ic", 1, tier(8, 16)); p.oc = c.ch.range("oc", 1, tier(8, 16)); p.iface = c.ch.range("iface", 0, 2); p.per = p.iface == 2 ? 0 : c.ch.range("per", 0, 1); p.gi = 0; p.gw = c.ch.range("gw", 0, 1); p.go = c.ch.range("go", 0, 1); p.wzk = c.ch.range("wzk", 2, 5); p.vk = c.ch.range("vk", 0, tier(1, 4)); runFc(c, p, 31);
}
static void fc_config(Case &c) {
  FcP p; p.ic = c.ch.of("ic", {1, 7, 33, 300}); p.oc = c.ch.of("oc", {1, 5, 18}); p.iface = c.ch.range("iface", 0, 2); p.per = p.iface == 2 ? 0 : c.ch.range("per", 0, 1); p.wzk = c.ch.range("wzk", 0, 5); p.vk = c.ch.range("vk", 0, 4); p.hist = c.ch.range("hist", 0, 3); p.enc = c.ch.range("enc", 0, 1); runFc(c, p, 32 + p.hist);
}
static void mm_shape(Case &c) {
  MmP p; p.h = c.ch.range("h", 1, tier(5, 7)); p.th = c.ch.range("th", 1, p.h); p.k = c.ch.range("k", 1, tier(4, 6)); p.w = c.ch.range("w", 1, tier(5, 7)); p.tw = c.ch.range("tw", 1, p.w); p.gl = c.ch.range("gl", 0, 1); p.gr = c.ch.range("gr", 0, 1); p.go = c.ch.range("go", 0, 1); p.lz = 5; p.rz = -9; runMatmul(c, p, 41);
}
static void mm_config(Case &c) {
  MmP p; p.h = c.ch.of("h", {1, 3, 5}); p.th = c.ch.range("th", 1, std::min(p.h, 2)); p.k = c.ch.of("k", {1, 4, 65}); p.w = c.ch.of("w", {1, 3, 4}); p.tw = c.ch.range("tw", 1, std::min(p.w, 2)); static const int Z[] = {0, -128, 127, 7}; p.lz = Z[c.ch.pick("lz", 4)]; p.rz = Z[c.ch.pick("rz", 4)]; p.vk = c.ch.range("vk", 0, 4); p.hist = c.ch.range("hist", 0, 3); p.enc = c.ch.range("enc", 0, 1); runMatmul(c, p, 42 + p.hist);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"conv_window", conv_window}, {"conv_config", conv_config}, {"dw_window", dw_window}, {"dw_config", dw_config}, {"dw_batch", dw_batch}, {"deconv_window", deconv_window}, {"deconv_config", deconv_config}, {"fc_shape", fc_shape}, {"fc_config", fc_config}, {"mm_shape", mm_shape}, {"mm_config", mm_config}, {"medium_conv", mediumConv}, {"long_conv", longConv}, {"long_fc", longFc}, {"long_matmul", longMm}}); }
