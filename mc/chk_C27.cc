// C27: the MLI 3.0 compile / deploy life cycle.  The reference is the kernel itself: its first deployment is recorded, then every
// deployment program (creations at other addresses, abandoned and repeated inferences, two interleaved instances of one
// private data) must reproduce it.  All buffers have exactly the reported sizes and are guarded; memory outside the output
// tiles must keep its bytes.
#include "k3jobs.h"
using namespace k3;
struct Scope { Scope() { mode = Mode(); mode.begun = true; mode.kind = 1; } ~Scope() { mode = Mode(); } };
template <class P> static void program(Case &c, void (*run)(Case &, const P &, uint32_t), P p, uint32_t seed) {
  int n = tier(4, 6); std::vector<int> prog; bool b = false; for (int i = 0; i < n; i++) { int op = i == 0 ? c.ch.range("op", 0, 3) : c.ch.range("op", 0, b ? 8 : 6); prog.push_back(op); if (op == 6) b = true; }
  if (!c.begin()) return; Scope g; p.hist = 0; run(c, p, seed); mode.kind = 2; mode.useProg = true; mode.prog = prog; run(c, p, seed + 1); c.trace();
}
// configurations: a tiled one with a smaller last tile, and one with gaps and other options
static void conv(Case &c) {
  ConvP p; p.kind = c.ch.range("kind", 0, 2); int k = c.ch.range("cfg", 0, 2); p.ci = 2; p.co = 3; p.toc = k ? 3 : 2; if (p.kind == 1) p.ci = 3;
  if (p.kind == 2) { p.h = Win{0, 2, 2, 1, 1, 1, 0, 3}; p.w = Win{0, k == 2 ? 4 : 3, 3, 2, 1, 1, 1, 4}; finishDeconv(p.h); finishDeconv(p.w); }
  else { p.h = Win{3, 2, 3, 1, 1, 1, 1, 0}; p.w = Win{2, k == 2 ? 2 : 1, 2, 2, 1, 0, 0, 0}; finishWin(p.h, 0); finishWin(p.w, 0); }
  p.izk = 2; p.wzk = 2; p.gi = p.go = p.gw = k == 1; p.iface = k == 2; program(c, runConv, p, 10 + p.kind);
}
static void fc(Case &c) { FcP p; int k = c.ch.range("cfg", 0, 2); p.ic = 5; p.oc = 4; p.iface = k; p.per = k < 2; p.go = k & 1; program(c, runFc, p, 31); }
static void matmul(Case &c) { MmP p; int k = c.ch.range("cfg", 0, 1); p.h = 3; p.th = 2; p.w = 5; p.tw = k ? 5 : 2; p.k = 4; p.gl = p.gr = p.go = k; p.lz = 5; p.rz = -9; program(c, runMatmul, p, 41); }
static void pool(Case &c) { PoolP p; p.kind = c.ch.range("kind", 0, 2); int k = c.ch.range("cfg", 0, 1); p.h = Win{3, 2, 3, 1, 1, 1, 1, 0}; p.w = Win{2, 1, 2, 2, 1, 1, 0, 0}; finishWin(p.h, 0); finishWin(p.w, 0); p.b = 3; p.tb = 2; p.c = 3; p.tc = k ? 3 : 2; p.gi = p.go = k; program(c, runPool, p, 51); }
static const int ELS[] = {1, 2, 4};
static void shape(int *d, int *t, int n, int k) { static const int D[][5] = {{2, 3, 3, 1, 3}, {1, 5, 2, 2, 3}}; for (int i = 0; i < n; i++) { d[i] = D[k][n == 4 && i == 3 ? 4 : i]; t[i] = std::min(d[i], 2); } }
static void reduce(Case &c) { RedP p; p.sum = c.ch.flag("sum"); p.el = ELS[c.ch.pick("el", 3)]; p.axis = c.ch.range("axis", 0, 3); shape(p.d, p.t, 4, 0); p.t[p.axis] = p.d[p.axis]; p.gi = p.axis & 1; program(c, runReduce, p, 61); }
static void elt(Case &c) { EltP p; p.op = c.ch.range("op", 0, 4); p.el = ELS[c.ch.pick("el", p.op == 2 ? 2 : 3)]; p.bc = c.ch.range("bc", 0, 2); shape(p.d, p.t, 4, p.bc & 1); p.gl = p.go = p.op & 1; program(c, runElt, p, 71); }
static void rescale(Case &c) { static const int TY[][2] = {{4, 1}, {1, 1}, {1, 4}}; RsP p; const int *ty = TY[c.ch.pick("type", 3)]; p.ie = ty[0]; p.oe = ty[1]; p.axis = c.ch.of("axis", {-1, 1, 3}); shape(p.d, p.t, 4, 0); p.gi = p.axis == 1; p.ik = p.ok = 1; program(c, runRescale, p, 91); }
static void clip(Case &c) { ClP p; int k = c.ch.range("cfg", 0, 2); shape(p.d, p.t, 4, k & 1); p.gi = p.go = k & 1; p.ord = k; p.lo = -20; p.hi = 60; program(c, runClip, p, 94); }
static void prelu(Case &c) { PrP p; p.axis = c.ch.flag("per_axis") ? 4 : -1; shape(p.d, p.t, 5, c.ch.range("shape", 0, 1)); p.ik = p.ok = 1; p.go = 1; program(c, runPrelu, p, 97); }
static void move(Case &c) { MvP p; p.side = c.ch.range("side", 0, 2); p.lk = p.side ? c.ch.range("kind", 1, 2) : 1; p.el = ELS[c.ch.pick("el", 3)]; shape(p.d, p.t, 5, 1); p.gs = 1; program(c, runMove, p, 21); }
static void broadcast(Case &c) { BcP p; p.mask = c.ch.of("mask", {0, 1, 4, 8, 6}); shape(p.d, p.t, 4, 0); p.gd = 1; p.el = ELS[c.ch.pick("el", 3)]; program(c, runBroadcast, p, 31); }
static void permute(Case &c) { static const int P[][4] = {{0, 1, 2, 3}, {2, 0, 1, 3}, {3, 2, 1, 0}}; PmP p; const int *q = P[c.ch.pick("perm", 3)]; for (int i = 0; i < 4; i++) p.perm[i] = q[i]; shape(p.d, p.t, 4, 0); p.gi = q[0] == 2; p.ord = q[0] == 3; program(c, runPermute, p, 41); }

// sizes: what the kernels report is enough, over many shapes and layouts, with parameters encoded before or after the private data
// are taken, and whatever the buffers held before
template <class P> static void once(Case &c, void (*run)(Case &, const P &, uint32_t), P p) {
  int s = c.ch.range("garbage", 0, 2); p.hist = c.ch.of("hist", {0, 2}); if (!c.begin()) return; Scope g; run(c, p, 1000 + s); c.trace();
}
static void size_conv(Case &c) {
  ConvP p; p.kind = c.ch.range("kind", 0, 2); p.co = c.ch.of("co", {1, 2, 5}); p.toc = c.ch.range("toc", 1, std::min(3, p.co)); p.ci = p.kind == 1 ? p.co : c.ch.of("ci", {1, 4}); Win o[4] = {{1, 1, 1, 1, 1, 0, 0, 0}, {6, 4, 3, 1, 1, 1, 1, 0}, {4, 1, 3, 2, 2, 1, 1, 0}, {3, 3, 2, 3, 1, 0, 0, 0}}; if (p.kind == 2) { o[1] = Win{0, 4, 3, 1, 1, 1, 1, 6}; o[2] = Win{0, 1, 3, 2, 1, 1, 1, 4}; o[3] = Win{0, 3, 3, 3, 1, 0, 0, 3}; o[0].in = 1; for (auto &w : o) finishDeconv(w); } else for (auto &w : o) finishWin(w, 0);
  p.h = o[c.ch.range("h", 0, 3)]; p.w = o[c.ch.range("w", 0, 3)]; p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.gw = c.ch.range("gw", 0, 1); p.encf = c.ch.flag("encf"); p.enc = p.co > 1 && c.ch.flag("enc"); once(c, runConv, p);
}
static void size_fc(Case &c) { FcP p; p.ic = c.ch.range("ic", 1, tier(9, 20)); p.oc = c.ch.range("oc", 1, tier(9, 20)); p.iface = c.ch.range("iface", 0, 2); p.per = p.iface == 2 ? 0 : c.ch.range("per", 0, 1); p.gw = c.ch.range("gw", 0, 1); p.go = c.ch.range("go", 0, 1); p.enc = c.ch.flag("enc"); once(c, runFc, p); }
static void size_matmul(Case &c) { MmP p; p.h = c.ch.range("h", 1, 4); p.th = c.ch.range("th", 1, p.h); p.k = c.ch.of("k", {1, 5}); p.w = c.ch.range("w", 1, 4); p.tw = c.ch.range("tw", 1, p.w); p.gl = c.ch.range("gl", 0, 1); p.gr = c.ch.range("gr", 0, 1); p.go = c.ch.range("go", 0, 1); p.enc = c.ch.flag("enc"); once(c, runMatmul, p); }
static void size_pool(Case &c) { PoolP p; p.kind = c.ch.range("kind", 0, 2); Win o[4] = {{1, 1, 1, 1, 1, 0, 0, 0}, {6, 4, 3, 1, 1, 1, 1, 0}, {4, 1, 3, 2, 1, 1, 1, 0}, {3, 3, 2, 3, 1, 0, 0, 0}}; for (auto &w : o) finishWin(w, 0); p.h = o[c.ch.range("h", 0, 3)]; p.w = o[c.ch.range("w", 0, 3)]; p.b = c.ch.range("b", 1, 3); p.tb = c.ch.range("tb", 1, p.b); p.c = c.ch.of("c", {1, 3}); p.tc = c.ch.range("tc", 1, std::min(2, p.c)); p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); once(c, runPool, p); }
static const int SH[][5] = {{1, 1, 1, 1, 1}, {1, 4, 3, 1, 5}, {3, 1, 5, 1, 2}, {5, 2, 2, 1, 3}, {2, 3, 2, 2, 3}};
static void shp(Case &c, int *d, int *t, int n, int keep = -1) { const int *s = SH[c.ch.pick("shape", n == 5 ? 5 : 4)]; int k = c.ch.range("tile", 0, 5); for (int i = 0; i < n; i++) { d[i] = s[n == 4 && i == 3 ? 4 : i]; t[i] = i == keep || k == 5 ? d[i] : i == k ? 1 : std::min(d[i], 2); } }
static void size_reduce(Case &c) { RedP p; p.sum = c.ch.flag("sum"); p.el = ELS[c.ch.pick("el", 3)]; p.axis = c.ch.range("axis", 0, 3); shp(c, p.d, p.t, 4, p.axis); p.gi = c.ch.range("gi", 0, 2); p.go = c.ch.range("go", 0, 2); once(c, runReduce, p); }
static void size_elt(Case &c) { EltP p; p.op = c.ch.range("op", 0, 4); p.el = ELS[c.ch.pick("el", p.op == 2 ? 2 : 3)]; p.bc = c.ch.range("bc", 0, 2); shp(c, p.d, p.t, 4); p.gl = c.ch.range("gl", 0, 1); p.gr = c.ch.range("gr", 0, 1); p.go = c.ch.range("go", 0, 1); once(c, runElt, p); }
static void size_rescale(Case &c) { static const int TY[][2] = {{4, 1}, {1, 1}, {1, 4}}; RsP p; const int *ty = TY[c.ch.pick("type", 3)]; p.ie = ty[0]; p.oe = ty[1]; p.axis = c.ch.range("axis", -1, 3); shp(c, p.d, p.t, 4); p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.ik = p.ok = 1; p.enc = c.ch.flag("enc"); once(c, runRescale, p); }
static void size_clip(Case &c) { ClP p; shp(c, p.d, p.t, 4); p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.enc = c.ch.flag("enc"); p.lo = -7; p.hi = 9; once(c, runClip, p); }
static void size_prelu(Case &c) { PrP p; p.axis = c.ch.flag("per_axis") ? 4 : -1; shp(c, p.d, p.t, 5); p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); p.ik = p.ok = 1; p.enc = c.ch.flag("enc"); once(c, runPrelu, p); }
static void size_move(Case &c) { MvP p; p.el = ELS[c.ch.pick("el", 3)]; p.side = c.ch.range("side", 0, 2); p.lk = p.side ? c.ch.range("kind", 1, 2) : 1; shp(c, p.d, p.t, 5); p.gs = c.ch.range("gs", 0, 2); p.gd = c.ch.range("gd", 0, 2); p.attach = c.ch.flag("attach"); once(c, runMove, p); }
static void size_perm(Case &c) { PmP p; bool used[4] = {false}; for (int i = 0; i < 4; i++) { int k = c.ch.pick("perm", 4 - i); for (int q = 0; q < 4; q++) if (!used[q] && k-- == 0) { p.perm[i] = q; used[q] = true; break; } } shp(c, p.d, p.t, 4); p.el = ELS[c.ch.pick("el", 3)]; p.gi = c.ch.range("gi", 0, 1); p.go = c.ch.range("go", 0, 1); once(c, runPermute, p); }
// Memories: the regions of a kernel lie in any two of several memories, or all in one, at any distance from its base.  Offsets are 32
// bits wide, base addresses 64.
static void memories(Case &c) {
  static const uint32_t S[] = {0, 0x100, 0x8000, 0x10000, 0x7fff0000, 0x7ffffff0, 0x80000010, 0xff000000}; struct Reset { ~Reset() { place = Place(); mode = Mode(); } } g;
  int j = c.ch.pick("job", jobs().size()); place.n = thorough() ? c.ch.range("memories", 1, 8) : c.ch.of("memories", {1, 2, 3, 8});
  place.idx[0] = c.ch.range("first", 0, place.n - 1); place.one = place.n == 1 || c.ch.flag("one"); if (!place.one) { place.idx[1] = c.ch.range("second", 0, place.n - 2); place.idx[1] += place.idx[1] >= place.idx[0]; }
  place.shift[0] = S[c.ch.pick("offset", 8)]; if (!place.one) place.shift[1] = S[c.ch.pick("offset2", 8)];
  if (!c.begin()) return; mode.begun = true; jobs()[j].run(c, 71 + j); c.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"conv", conv}, {"fc", fc}, {"matmul", matmul}, {"pool", pool}, {"reduce", reduce}, {"elementwise", elt}, {"rescale", rescale}, {"clip", clip}, {"prelu", prelu}, {"move", move}, {"broadcast", broadcast}, {"permute", permute}, {"two_kernels", interleaveJobs}, {"memories", memories},
  {"size_conv", size_conv}, {"size_fc", size_fc}, {"size_matmul", size_matmul}, {"size_pool", size_pool}, {"size_reduce", size_reduce}, {"size_elementwise", size_elt}, {"size_rescale", size_rescale}, {"size_clip", size_clip}, {"size_prelu", size_prelu}, {"size_move", size_move}, {"size_permute", size_perm}}); }
