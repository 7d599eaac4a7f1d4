// C25: for every MLI 3.0 kernel, one issue per tile gives what one issue of the whole tensor gives, for every tiling.
// The reference is the kernel itself: the whole-tensor run of the same case is recorded, then the tiled run is compared with it.
#include "k3drv.h"
using namespace k3;
template <class P> static void both(Case &c, void (*run)(Case &, const P &, uint32_t), const P &whole, const P &tiled, uint32_t seed) {
  if (!c.begin()) return;
  struct Guard { Guard() { mode = Mode(); mode.begun = true; mode.kind = 1; } ~Guard() { mode = Mode(); } } g;
  run(c, whole, seed); mode.kind = 2; run(c, tiled, seed + 1000); c.trace();
}
static std::vector<Win> tilings(std::initializer_list<Win> geo, bool deconv = false) {
  std::vector<Win> v; for (Win g : geo) { int n = deconv ? g.in : g.out; for (int t = 1; t <= n; t++) { Win w = g; w.tile = t; if (deconv) { if (finishDeconv(w)) v.push_back(w); } else { Win q = w; if (finishWin(q, g.in) ) v.push_back(q); } } } return v;
}
static Win wholeOf(Win w, bool deconv = false) { w.tile = deconv ? w.in : w.out; return w; }
// the last number of a geometry is the rest that the stride does not reach (0 or 1); for the transposed convolution the input size
static const std::vector<Win> &CW() { static auto v = tilings({{1, 1, 1, 1, 1, 0, 0, 0}, {5, 1, 1, 1, 1, 0, 0, 0}, {6, 1, 3, 1, 1, 1, 1, 0}, {5, 1, 2, 2, 1, 0, 0, 1}, {4, 1, 3, 2, 1, 1, 0, 1}, {5, 1, 2, 1, 3, 2, 1, 0}, {4, 1, 5, 1, 1, 2, 2, 0}, {3, 1, 2, 3, 2, 1, 1, 0}, {7, 1, 3, 1, 2, 2, 2, 0}, {3, 1, 1, 3, 1, 0, 0, 1}}); return v; }
static const std::vector<Win> &PW() { static auto v = tilings({{1, 1, 1, 1, 1, 0, 0, 0}, {5, 1, 1, 1, 1, 0, 0, 0}, {6, 1, 3, 1, 1, 1, 1, 0}, {5, 1, 2, 2, 1, 0, 0, 1}, {4, 1, 3, 2, 1, 1, 0, 1}, {4, 1, 5, 1, 1, 2, 2, 0}, {3, 1, 2, 3, 1, 1, 1, 0}, {7, 1, 4, 1, 1, 3, 3, 0}, {3, 1, 1, 3, 1, 0, 0, 1}, {3, 1, 3, 3, 1, 2, 2, 0}}); return v; }
static const std::vector<Win> &DW() { static auto v = tilings({{0, 1, 1, 1, 1, 0, 0, 4}, {0, 1, 2, 2, 1, 0, 0, 4}, {0, 1, 3, 2, 1, 1, 1, 5}, {0, 1, 3, 1, 1, 1, 1, 5}, {0, 1, 4, 2, 1, 2, 1, 4}, {0, 1, 3, 3, 1, 1, 0, 3}, {0, 1, 2, 1, 1, 1, 0, 6}, {0, 1, 5, 1, 1, 4, 4, 5}}, true); return v; }
static void conv2(Case &c, int kind) {
  const auto &W = kind == 2 ? DW() : CW(); ConvP p; p.kind = kind; p.h = W[c.ch.pick("h", (int)W.size())]; p.w = W[c.ch.pick("w", (int)W.size())]; p.co = 3; p.toc = c.ch.range("toc", 1, 3); p.ci = kind == 1 ? 3 : 2; if (kind == 1) { p.b = c.ch.range("b", 1, 2); p.tb = c.ch.range("tb", 1, p.b); } p.izk = 2; p.wzk = 2;
  ConvP q = p; q.h = wholeOf(p.h, kind == 2); q.w = wholeOf(p.w, kind == 2); q.tb = q.b; q.toc = q.co; p.hist = 1; both(c, runConv, q, p, 10 + kind);
}
static void conv(Case &c) { conv2(c, 0); }
static void dw(Case &c) { conv2(c, 1); }
static void deconv(Case &c) { conv2(c, 2); }
// long lines: many tiles along one dimension
static void conv_line(Case &c) {
  ConvP p; p.kind = c.ch.range("kind", 0, 2); bool sw = c.ch.flag("sw"); Win w; w.s = c.ch.range("s", 1, 3); w.k = c.ch.range("k", 1, tier(4, 5)); w.dil = p.kind < 2 && w.k > 1 ? c.ch.range("dil", 1, 2) : 1; w.p = c.ch.range("p", 0, w.ek() - 1); w.pe = c.ch.range("pe", 0, std::min(2, w.ek() - 1)); bool ok;
  if (p.kind == 2) { w.in = c.ch.range("in", 1, tier(9, 14)); w.tile = c.ch.range("tile", 1, w.in); ok = finishDeconv(w); } else { w.out = c.ch.range("out", 1, tier(9, 14)); w.tile = c.ch.range("tile", 1, w.out); ok = finishWin(w, 0); }
  if (!ok) { if (c.begin()) c.skip(); return; }
  Win o{1, 1, 1, 1, 1, 0, 0, 1}; p.h = sw ? o : w; p.w = sw ? w : o; p.ci = p.co = p.toc = 2; p.izk = 2; p.wzk = 5; ConvP q = p; q.h = wholeOf(p.h, p.kind == 2); q.w = wholeOf(p.w, p.kind == 2); both(c, runConv, q, p, 13);
}
static void matmul(Case &c) {
  MmP p; p.h = c.ch.range("h", 1, tier(7, 10)); p.th = c.ch.range("th", 1, p.h); p.w = c.ch.range("w", 1, tier(7, 10)); p.tw = c.ch.range("tw", 1, p.w); p.k = c.ch.of("k", {1, 3, 6}); int g = c.ch.range("gaps", 0, 2); p.gl = g == 1; p.gr = p.go = g == 2; p.lz = 5; p.rz = -9; MmP q = p; q.th = q.h; q.tw = q.w; p.hist = 1; both(c, runMatmul, q, p, 41);
}
static void pool(Case &c) {
  const auto &W = PW(); PoolP p; p.kind = c.ch.range("kind", 0, 2); p.h = W[c.ch.pick("h", (int)W.size())]; p.w = W[c.ch.pick("w", (int)W.size())]; p.b = c.ch.range("b", 1, 3); p.tb = c.ch.range("tb", 1, p.b); p.c = 3; p.tc = c.ch.range("tc", 1, 3); PoolP q = p; q.h = wholeOf(p.h); q.w = wholeOf(p.w); q.tb = q.b; q.tc = q.c; p.hist = 1; both(c, runPool, q, p, 51);
}
static void pool_line(Case &c) {
  PoolP p; p.kind = c.ch.range("kind", 0, 2); bool sw = c.ch.flag("sw"); Win w; w.dil = 1; w.s = c.ch.range("s", 1, 3); w.k = c.ch.range("k", 1, tier(5, 6)); w.p = c.ch.range("p", 0, w.k - 1); w.pe = c.ch.range("pe", 0, w.k - 1); w.out = c.ch.range("out", 1, tier(9, 14)); w.tile = c.ch.range("tile", 1, w.out);
  if (!finishWin(w, 0)) { if (c.begin()) c.skip(); return; } Win o{1, 1, 1, 1, 1, 0, 0, 1}; p.h = sw ? o : w; p.w = sw ? w : o; PoolP q = p; q.h = wholeOf(p.h); q.w = wholeOf(p.w); both(c, runPool, q, p, 52);
}
// shapes with every tile of every dimension
static const int SH[][5] = {{1, 1, 1, 1, 1}, {1, 4, 3, 1, 5}, {3, 1, 5, 1, 2}, {2, 6, 1, 1, 4}, {5, 2, 2, 1, 3}, {1, 7, 7, 1, 1}, {4, 3, 2, 2, 3}};
static void shapeTiles(Case &c, int *d, int *t, int n, int keep = -1) { const int *s = SH[c.ch.pick("shape", n == 5 ? 7 : 6)]; for (int i = 0; i < n; i++) { d[i] = s[n == 4 && i == 3 ? 4 : i]; t[i] = i == keep ? d[i] : c.ch.range("tile", 1, d[i]); } }
template <class P> static P wholeT(P p, int n) { for (int i = 0; i < n; i++) p.t[i] = p.d[i]; return p; }
static const int ELS[] = {1, 2, 4};
static void reduce(Case &c) { RedP p; p.sum = c.ch.flag("sum"); p.el = ELS[c.ch.pick("el", 3)]; p.axis = c.ch.range("axis", 0, 3); shapeTiles(c, p.d, p.t, 4, p.axis); p.gi = c.ch.range("gi", 0, 1); p.hist = 1; RedP q = wholeT(p, 4); q.hist = 0; both(c, runReduce, q, p, 61); }
static void elt(Case &c) { EltP p; p.op = c.ch.range("op", 0, 4); p.el = ELS[c.ch.pick("el", p.op == 2 ? 2 : 3)]; p.bc = c.ch.range("bc", 0, 2); shapeTiles(c, p.d, p.t, 4); p.ord = c.ch.range("order", 0, 2); p.gl = c.ch.range("gl", 0, 1); p.hist = 1; EltP q = wholeT(p, 4); q.hist = q.ord = 0; both(c, runElt, q, p, 71); }
static void rescale(Case &c) { static const int TY[][2] = {{4, 1}, {1, 1}, {1, 4}}; RsP p; const int *ty = TY[c.ch.pick("type", 3)]; p.ie = ty[0]; p.oe = ty[1]; p.axis = c.ch.range("axis", -1, 3); shapeTiles(c, p.d, p.t, 4); p.gi = c.ch.range("gi", 0, 1); p.ik = 1; p.ok = 1; p.hist = 1; RsP q = wholeT(p, 4); q.hist = 0; both(c, runRescale, q, p, 91); }
static void clip(Case &c) { ClP p; shapeTiles(c, p.d, p.t, 4); p.ord = c.ch.range("order", 0, 2); p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.lo = -20; p.hi = 60; p.hist = 1; ClP q = wholeT(p, 4); q.hist = q.ord = 0; both(c, runClip, q, p, 94); }
static void prelu(Case &c) { PrP p; p.axis = c.ch.flag("per_axis") ? 4 : -1; shapeTiles(c, p.d, p.t, 5); p.gi = c.ch.range("gi", 0, 1); p.ik = 1; p.ok = 1; p.hist = 1; PrP q = wholeT(p, 5); q.hist = 0; both(c, runPrelu, q, p, 97); }
static void move(Case &c) { MvP p; p.el = ELS[c.ch.pick("el", 3)]; p.side = c.ch.range("side", 0, 2); p.lk = p.side ? c.ch.range("kind", 1, 2) : 1; shapeTiles(c, p.d, p.t, 5); p.gs = c.ch.range("gs", 0, 1); p.hist = 1; MvP q = wholeT(p, 5); q.side = q.hist = 0; both(c, runMove, q, p, 21); }
static void broadcast(Case &c) { BcP p; p.mask = c.ch.range("mask", 0, 15); shapeTiles(c, p.d, p.t, 4); p.gs = c.ch.range("gs", 0, 1); p.gd = c.ch.range("gd", 0, 1); p.hist = 1; BcP q = wholeT(p, 4); q.hist = 0; both(c, runBroadcast, q, p, 31); }
static void permute(Case &c) {
  PmP p; bool used[4] = {false}; for (int i = 0; i < 4; i++) { int k = c.ch.pick("perm", 4 - i); for (int q = 0; q < 4; q++) if (!used[q] && k-- == 0) { p.perm[i] = q; used[q] = true; break; } }
  shapeTiles(c, p.d, p.t, 4); p.ord = c.ch.range("order", 0, 2); p.hist = 1; PmP q = wholeT(p, 4); q.hist = q.ord = 0; both(c, runPermute, q, p, 41);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"conv", conv}, {"depthwise", dw}, {"transposed", deconv}, {"conv_line", conv_line}, {"matmul", matmul}, {"pool", pool}, {"pool_line", pool_line}, {"reduce", reduce}, {"elementwise", elt}, {"rescale", rescale}, {"clip", clip}, {"prelu", prelu}, {"move", move}, {"broadcast", broadcast}, {"permute", permute}}); }
