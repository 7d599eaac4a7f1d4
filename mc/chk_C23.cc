// C23: MLI 3.0 pooling, reduction and element-wise kernels through their whole life cycle, tile by tile.
#include "k3long.h"
using namespace k3;
static std::vector<Win> wins(int maxOut, int maxK, int maxS) {
  std::vector<Win> v;
  for (int out = 1; out <= maxOut; out++) for (int tile = 1; tile <= out; tile++) for (int k = 1; k <= maxK; k++) for (int s = 1; s <= maxS; s++) for (int p = 0; p < k; p++) for (int pe = 0; pe < k; pe++) for (int rem = 0; rem < s && rem < 2; rem++) { Win w{out, tile, k, s, 1, p, pe, 0}; if (finishWin(w, rem)) v.push_back(w); }
  return v;
}
static const Win PO[] = {{1, 1, 1, 1, 1, 0, 0, 1}, {3, 2, 3, 1, 1, 1, 1, 3}, {2, 1, 2, 2, 1, 0, 0, 4}, {4, 3, 3, 2, 1, 2, 2, 5}};
static void pool_window(Case &c) {
  static auto W = wins(tier(6, 8), tier(4, 5), tier(3, 4)); PoolP p; p.kind = c.ch.range("kind", 0, 2); bool sw = c.ch.flag("sw"); int x = c.ch.range("other", 0, 3); Win a = W[c.ch.pick("win", (int)W.size())]; p.h = sw ? PO[x] : a; p.w = sw ? a : PO[x]; p.c = 2; p.tc = 1; runPool(c, p, 51);
}
static void pool_config(Case &c) {
  PoolP p; p.kind = c.ch.range("kind", 0, 2); p.h = PO[c.ch.range("h", 0, 3)]; p.w = PO[c.ch.range("w", 0, 3)]; p.b = c.ch.range("b", 1, 3); p.tb = c.ch.range("tb", 1, p.b); p.c = c.ch.range("c", 1, 3); p.tc = c.ch.range("tc", 1, p.c); p.iface = c.ch.flag("tensors") ? 2 : 0;
  if (p.iface) { p.tb = p.b; p.tc = p.c; p.h.tile = p.h.out; p.w.tile = p.w.out; }
  switch (c.ch.range("x", 0, 2)) { case 0: p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); break; case 1: p.vk = c.ch.range("vk", 0, 4); break; case 2: p.hist = c.ch.range("hist", 0, 3); p.gi = c.ch.range("gi", 0, 1); break; }
  runPool(c, p, 52 + p.hist);
}
static void reduce(Case &c) {
  RedP p; p.sum = c.ch.flag("sum"); static const int E[] = {1, 2, 4}; p.el = E[c.ch.pick("el", 3)]; p.axis = c.ch.range("axis", 0, 3); for (int i = 0; i < 4; i++) { p.d[i] = c.ch.range("d", 1, tier(2, 3)); if (i != p.axis) p.t[i] = c.ch.range("t", 1, p.d[i]); }
  p.gi = c.ch.range("gi", 0, 2); p.go = c.ch.range("go", 0, 2); runReduce(c, p, 61);
}
static void reduce_config(Case &c) {
  RedP p; p.sum = c.ch.flag("sum"); static const int E[] = {1, 2, 4}; p.el = E[c.ch.pick("el", 3)]; p.axis = c.ch.range("axis", 0, 3); static const int D[][4] = {{1, 5, 4, 3}, {2, 1, 3, 7}, {3, 4, 1, 2}, {5, 2, 6, 1}}; const int *d = D[c.ch.range("shape", 0, 3)];
  for (int i = 0; i < 4; i++) { p.d[i] = d[i]; if (i != p.axis) p.t[i] = c.ch.range("t", 1, std::min(d[i], 3)); } p.vk = c.ch.range("vk", 0, 4); p.hist = c.ch.range("hist", 0, 3); runReduce(c, p, 62 + p.hist);
}
static void pickElt(Case &c, EltP &p) { p.op = c.ch.range("op", 0, 4); static const int E[] = {1, 2, 4}; p.el = E[c.ch.pick("el", p.op == 2 ? 2 : 3)]; p.bc = c.ch.range("bc", 0, 2); }
static void elt_shape(Case &c) {
  EltP p; pickElt(c, p); for (int i = 0; i < 4; i++) { p.d[i] = c.ch.range("d", 1, i == 2 ? tier(2, 3) : 3); p.t[i] = c.ch.range("t", 1, p.d[i]); } int g = c.ch.range("gaps", 0, 3); p.gl = g & 1; p.gr = g == 2 ? 1 : 0; p.go = g >> 1 & 1; runElt(c, p, 71);
}
static void elt_config(Case &c) {
  EltP p; pickElt(c, p); static const int D[][4] = {{1, 5, 4, 3}, {2, 3, 2, 3}, {2, 1, 3, 7}, {3, 4, 1, 2}, {5, 2, 6, 1}, {1, 1, 1, 33}}; const int *d = D[c.ch.range("shape", 0, 5)]; int tk = c.ch.range("tile", 0, 3); for (int i = 0; i < 4; i++) { p.d[i] = d[i]; p.t[i] = tk == 3 ? d[i] : i == tk ? 1 : std::min(d[i], 2 + (i & 1)); }
  if (tk == 3) p.iface = c.ch.range("iface", 0, 1);
  switch (c.ch.range("x", 0, 3)) { case 0: p.gl = c.ch.range("gl", 0, 1); p.gr = c.ch.range("gr", 0, 1); p.go = c.ch.range("go", 0, 1); break; case 1: p.vl = c.ch.range("vl", 0, 4); p.vr = c.ch.range("vr", 0, 4); break; case 2: p.hist = c.ch.range("hist", 0, 3); p.gl = c.ch.range("gl", 0, 1); break; case 3: p.ord = c.ch.range("ord", 0, 2); p.go = c.ch.range("go", 0, 1); break; }
  runElt(c, p, 72 + p.hist);
}
// all pairs of int8 values, all int8 values against every scalar
static void elt_values(Case &c) {
  EltP p; p.op = c.ch.range("op", 0, 4); p.el = c.ch.range("el", 1, 2); p.bc = c.ch.range("bc", 0, 2); for (int i = 0; i < 4; i++) p.d[i] = p.t[i] = i < 2 && p.bc ? 1 : 16; p.vl = 5; p.vr = 6; if (p.bc == 1) p.vl = c.ch.range("vl", 0, 4); if (p.bc == 2) p.vl = 6, p.vr = c.ch.range("vr", 0, 4); runElt(c, p, 81);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"pool_window", pool_window}, {"pool_config", pool_config}, {"reduce", reduce}, {"reduce_config", reduce_config}, {"elt_shape", elt_shape}, {"elt_config", elt_config}, {"elt_values", elt_values}, {"medium_pool", mediumPool}, {"long_pool", longPool}, {"long_reduce", longReduce}, {"long_elementwise", longElt}}); }
