// C28: MLI 3.0 move, broadcast, permute and bilinear resize.
#include "k3long.h"
using namespace k3;
static const int ELS[] = {1, 2, 4};
static void mv_full(Case &c) {
  MvP p; for (int i = 0; i < 5; i++) { p.d[i] = c.ch.range("d", 1, i == 3 ? 1 : i == 2 ? 4 : tier(2, 3)); p.t[i] = c.ch.range("t", 1, p.d[i]); } int g = c.ch.range("gaps", 0, 4); p.gs = g < 4 ? g & 1 : 2; p.gd = g < 4 ? g >> 1 : 2; p.el = 1; p.hist = 1; runMove(c, p, 21);
}
// element sizes, memory layouts (gaps, column-major), interfaces, tile buffers of both kinds, both directions, histories
static void mv_shapes(Case &c, MvP &p) { static const int D[][5] = {{2, 5, 4, 1, 3}, {4, 1, 3, 2, 5}, {1, 3, 2, 2, 2}, {5, 7, 1, 1, 1}, {3, 1, 1, 1, 9}, {1, 1, 1, 1, 1}, {1, 6, 3, 1, 2}}; const int *s = D[c.ch.range("shape", 0, 6)]; int tk = c.ch.range("tile", 0, 6);
  for (int i = 0; i < 5; i++) { p.d[i] = s[i]; p.t[i] = tk == 6 ? s[i] : i == tk ? 1 : tk == 5 ? std::max(1, s[i] - 1) : std::min(s[i], 2 + (i & 1)); } }
static void mv_config(Case &c) {
  MvP p; mv_shapes(c, p); p.el = ELS[c.ch.pick("el", 3)]; p.ctor = c.ch.range("ctor", 0, 2); p.attach = c.ch.flag("attach"); p.dir = c.ch.flag("dir"); p.hist = c.ch.range("hist", 0, 3);
  if (p.ctor == 2) { p.rank = c.ch.range("rank", 1, 5); for (int i = p.rank; i < 5; i++) p.d[i] = p.t[i] = 1; } if (p.ctor < 2) { p.side = c.ch.range("side", 0, 2); if (p.side) p.lk = c.ch.range("kind", 1, 2); } p.gs = c.ch.range("gs", 0, 2); p.gd = c.ch.range("gd", 0, 2); runMove(c, p, 22 + p.hist);
}
static void mv_order(Case &c) {
  MvP p; mv_shapes(c, p); p.ord = c.ch.range("ord", 1, 3); p.side = c.ch.range("side", 0, 1); p.lk = 2; runMove(c, p, 26);
}
static void mv_colmajor(Case &c) {
  MvP p; mv_shapes(c, p); p.el = ELS[c.ch.pick("el", 3)]; p.tr = c.ch.range("layout", 1, 3); p.side = c.ch.range("side", 0, 2); p.lk = 2; p.hist = 1; runMove(c, p, 27);
}
// overlapping source tiles (halo of a filter) gathered in a tile buffer
static void mv_window(Case &c) {
  MvP p; p.win = true; bool ok = true; int n = c.ch.pick("axes", 2) + 1; for (int i = 0; i < 5; i++) p.w[i] = Win{1, 1, 1, 1, 1, 0, 0, 1};
  for (int i = 0; i < 2; i++) { int ax = n == 1 ? (i ? 4 : c.ch.pick("axis", 4)) : i + 1; Win &w = p.w[ax]; if (i < n) { w.out = c.ch.range("out", 1, tier(4, 6)); w.tile = c.ch.range("tile", 1, w.out); w.k = c.ch.range("k", 1, 3); w.s = c.ch.range("s", 1, 2); w.p = c.ch.range("p", 0, w.k - 1); w.pe = c.ch.range("pe", 0, w.k - 1); if (!finishWin(w, 0)) ok = false; } else { w.out = w.in = 2; w.tile = 1; } }
  if (!ok) { if (c.begin()) c.skip(); return; } for (int i = 0; i < 5; i++) p.d[i] = p.w[i].out, p.t[i] = p.w[i].tile; p.side = 1; p.lk = 2; p.gs = 1; p.hist = 1; runMove(c, p, 28);
}
static void bc_shape(Case &c) {
  BcP p; for (int i = 0; i < 4; i++) { p.d[i] = c.ch.range("d", 1, i == 2 ? tier(2, 4) : 3); p.t[i] = c.ch.range("t", 1, p.d[i]); } p.mask = c.ch.range("mask", 0, 15); int g = c.ch.range("gaps", 0, 3); p.gs = g & 1; p.gd = g >> 1; runBroadcast(c, p, 31);
}
static void bc_config(Case &c) {
  static const int D[][4] = {{2, 5, 4, 3}, {1, 3, 1, 7}, {4, 1, 6, 1}, {5, 2, 1, 2}, {1, 1, 1, 33}, {3, 2, 2, 4}, {1, 1, 1, 1}}; BcP p; const int *s = D[c.ch.range("shape", 0, 6)]; int tk = c.ch.range("tile", 0, 5); for (int i = 0; i < 4; i++) { p.d[i] = s[i]; p.t[i] = tk == 5 ? s[i] : i == tk ? 1 : std::min(s[i], 2 + (i & 1)); }
  p.mask = c.ch.range("mask", 0, 15); p.el = ELS[c.ch.pick("el", 3)]; p.hist = c.ch.range("hist", 0, 3); if (tk == 5) p.whole = c.ch.flag("whole"); if (p.whole) { p.rank = c.ch.range("rank", 1, 4); for (int i = p.rank; i < 4; i++) p.d[i] = p.t[i] = 1; } p.own = c.ch.flag("own"); p.gs = c.ch.range("gs", 0, 2); p.gd = c.ch.range("gd", 0, 2); runBroadcast(c, p, 32 + p.hist);
}
static void perms(Case &c, int *perm, int n) { bool used[4] = {false}; for (int i = 0; i < 4; i++) perm[i] = i; for (int i = 0; i < n; i++) { int k = c.ch.pick("perm", n - i); for (int q = 0; q < n; q++) if (!used[q] && k-- == 0) { perm[i] = q; used[q] = true; break; } } }
static void pm_shape(Case &c) {
  PmP p; perms(c, p.perm, 4); for (int i = 0; i < 4; i++) { p.d[i] = c.ch.range("d", 1, i == 2 ? tier(2, 4) : i == 0 ? 2 : 3); p.t[i] = c.ch.range("t", 1, p.d[i]); } int g = c.ch.range("gaps", 0, 2); p.gi = g & 1; p.go = g >> 1; runPermute(c, p, 41);
}
static void pm_config(Case &c) {
  static const int D[][4] = {{2, 5, 4, 3}, {1, 3, 1, 7}, {4, 1, 6, 1}, {5, 2, 1, 2}, {1, 1, 1, 33}, {3, 2, 2, 4}, {1, 1, 1, 1}}; PmP p; p.rank = c.ch.range("rank", 1, 4); perms(c, p.perm, p.rank); const int *s = D[c.ch.range("shape", 0, 6)]; int tk = p.rank < 4 ? 5 : c.ch.range("tile", 0, 5); for (int i = 0; i < 4; i++) { p.d[i] = s[i]; p.t[i] = tk == 5 ? s[i] : i == tk ? 1 : std::min(s[i], 2 + (i & 1)); }
  p.el = ELS[c.ch.pick("el", 3)]; p.hist = c.ch.range("hist", 0, 3); if (p.rank < 4) { p.whole = 1; for (int i = p.rank; i < 4; i++) p.d[i] = p.t[i] = 1; } else if (tk == 5) p.whole = c.ch.flag("whole"); else p.ord = c.ch.range("ord", 0, 2); p.gi = c.ch.range("gi", 0, 2); p.go = c.ch.range("go", 0, 2); runPermute(c, p, 42 + p.hist);
}
static const int OFS[] = {0, 1, -1, 3, -4, 7, -9, 100};
// every geometry: scale steps and start offsets on both sides of the image borders
static void rz_geom(Case &c) {
  RzP p; p.sh = c.ch.of("shift", {1, 2, 4, 8, 11}); p.ih = c.ch.range("ih", 1, 4); p.iw = c.ch.range("iw", 1, 3); p.oh = c.ch.range("oh", 1, 5); p.ow = c.ch.range("ow", 1, tier(2, 4)); int q = c.ch.range("stride", 0, 5); int one = 1 << p.sh; const int S[] = {one, std::max(1, one / 2), one + one / 2, std::max(1, one / 3), 2 * one - 1, 3 * one + 1};
  p.st[0] = S[q]; p.st[1] = S[(q * 2 + 1) % 6]; int o = c.ch.range("offset", 0, 7); auto off = [&](int k) { int v = OFS[k] * one / 2 + (k % 3 == 1 ? 1 : 0); return std::max(-16 * one + 1, std::min(v, 16 * one - 1)); }; p.of[0] = off(o); p.of[1] = off((o + c.ch.range("doff", 0, 2)) & 7); p.ch = 2; p.vk = 0; p.gi = q & 1; p.go = o & 1; runResize(c, p, 51);
}
static void rz_config(Case &c) {
  RzP p; p.sh = c.ch.range("shift", 1, 11); p.b = c.ch.range("b", 1, 2); p.ch = c.ch.of("c", {1, 3, 17}); p.ih = c.ch.of("ih", {1, 2, 9}); p.iw = c.ch.of("iw", {1, 3, 8}); p.oh = 5; p.ow = c.ch.of("ow", {1, 6, 13}); p.vk = c.ch.range("val", 0, 4); p.gi = c.ch.range("gi", 0, 2); p.go = c.ch.range("go", 0, 2); int k = c.ch.range("step", 0, 2); int one = 1 << p.sh; int lo = p.sh >= 4 ? (one >> 4) + 1 : 1; p.st[0] = std::max(lo, (p.ih * one + k) / 5); p.st[1] = std::max(lo, (p.iw * one + k) / p.ow); p.of[0] = k - 1; p.of[1] = -k * one / 2; runResize(c, p, 52);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"move_full", mv_full}, {"move_config", mv_config}, {"move_colmajor", mv_colmajor}, {"move_window", mv_window}, {"broadcast_shape", bc_shape}, {"broadcast_config", bc_config}, {"permute_shape", pm_shape}, {"permute_config", pm_config}, {"resize_geometry", rz_geom}, {"resize_config", rz_config}, {"move_order", mv_order}, {"long_move", longMove}, {"long_broadcast", longBroadcast}, {"long_permute", longPermute}}); }
