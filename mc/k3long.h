// MLI 3.0 kernels with one long dimension (beyond 8 and 16 bits), whole and cut into tiles
#pragma once
#include "k3drv.h"
namespace k3 {
// which: 22 multiply-accumulate, 23 pooling/reduction/element-wise, 24 requantisation, 28 relocation
inline const std::vector<int> &longs() { static const std::vector<int> q{200, 300, 33000}, t{200, 300, 33000, 70000}; return thorough() ? t : q; }
inline int longTile(Case &c, int L) { int k = c.ch.range("tile", 0, 3); return k == 0 ? L : k == 1 ? L - 1 - L / 9 : k == 2 ? (L + 1) / 2 : std::max(7, L / 30); }
template <int N> inline void longShape(Case &c, int *d, int *t, int L, int other = 2) { int a = c.ch.pick("axis", N), tl = longTile(c, L); for (int i = 0; i < N; i++) d[i] = t[i] = i == a ? L : i % 2 ? other : 1; t[a] = tl; }
inline Win longWin(Case &c, int L, bool de) {   // 0 long image, small window; 1 window as long as the image; 2 long stride; 3 long dilation; 4 long padding
  int w = c.ch.range("window", 0, de ? 2 : 4), t; Win r{1, 1, 1, 1, 1, 0, 0, 1};
  if (w == 0) { t = longTile(c, L); if (de) r = Win{0, t, 3, 2, 1, 1, 1, L}; else r = Win{L, t, 3, 1 + (t & 1), 1, 1, 1, 0}; }
  else if (w == 1) r = de ? Win{0, 2, L, 2, 1, 0, 0, 2} : Win{2, 2, L, 1, 1, 0, 0, 0};
  else if (w == 2) r = de ? Win{0, 2, L, L, 1, 0, 0, 2} : Win{2, 1, 2, L, 1, 0, 0, 0};
  else if (w == 3) r = Win{3, 2, 2, 2, L, 0, 0, 0};
  else r = Win{3, 3, L, 3, 1, L - 2, 0, 0};
  if (w && L > 300) r.k = 0;   // window parameters beyond 8 bits are a known finding; one length shows it
#ifdef CFG_DBG
  if (w && L > 255) r.k = 0;   // there the truncated parameters run into assertions of the library
#endif
  return r;
}
// windows of medium size: every kernel size up to 7 with every stride and dilation up to 3, five padding patterns, whole and in tiles
inline std::vector<Win> mediumWins(bool de, int maxd) {
  std::vector<Win> v;
  for (int k = 1; k <= 7; k++) for (int s = 1; s <= (de ? std::min(k, 4) : 3); s++) for (int d = 1; d <= (k == 1 || de ? 1 : maxd); d++) {
    int e = (k - 1) * d + 1; const int P[][2] = {{0, 0}, {e / 2, (e - 1) / 2}, {e - 1, 0}, {0, e - 1}, {std::min(1, e - 1), std::max(0, e - 2)}};
    for (int q = 0; q < (k == 1 ? 1 : 5); q++) for (int o : {3, 5}) for (int t = 0; t < 2; t++) {
      if (de) { int in = (k - 1 + s - 1) / s + 1 + (o == 5 ? 3 : 0); Win w{0, t ? in : in - 1, k, s, 1, P[q][0], P[q][1], in}; if (w.tile && finishDeconv(w)) v.push_back(w); }
      else { Win w{o, t ? o : (e + o) % o < 2 ? 2 : (e + o) % o, k, s, d, P[q][0], P[q][1], 0}; if (finishWin(w, 0)) v.push_back(w); }
    }
  }
  return v;
}
inline void mediumConv(Case &c) {
  static const std::vector<Win> W[2] = {mediumWins(false, 3), mediumWins(true, 1)}; ConvP p; p.kind = c.ch.range("kind", 0, 2); auto &V = W[p.kind == 2]; int n = (int)V.size(), step = tier(p.kind == 2 ? 5 : 29, 3);
  int a = c.ch.pick("h", n), b = c.ch.pick("w", (n - 1) / step + 1) * step; b = (b + a % step) % n; p.h = V[a]; p.w = V[b]; p.co = 3; p.ci = p.kind == 1 ? 3 : 2; p.toc = 2; p.izk = p.wzk = 2; runConv(c, p, 17);
}
inline void mediumPool(Case &c) {
  static const std::vector<Win> V = mediumWins(false, 1); PoolP p; p.kind = c.ch.range("kind", 0, 2); int n = (int)V.size(), step = tier(5, 1);
  int a = c.ch.pick("h", n), b = c.ch.pick("w", (n - 1) / step + 1) * step; b = (b + a % step) % n; p.h = V[a]; p.w = V[b]; p.c = 3; p.tc = 2; runPool(c, p, 57);
}
inline bool finish(Win &w, bool de) { return !w.k ? false : de ? finishDeconv(w) : finishWin(w, 0); }
inline void longConv(Case &c) {
  int kind = c.ch.range("kind", 0, 2), L = c.ch.of("length", longs()), axis = c.ch.range("axis", 0, kind == 1 ? 2 : 3); bool de = kind == 2; ConvP p; p.kind = kind; Win s = de ? Win{0, 2, 2, 1, 1, 0, 1, 2} : Win{2, 1, 2, 1, 1, 0, 0, 0};
  Win l = s; bool ok = finish(s, de); p.ci = p.co = kind == 1 ? 2 : 1; p.toc = 1; if (axis < 2) { l = longWin(c, L, de); ok = ok && finish(l, de); p.h = axis ? s : l; p.w = axis ? l : s; if (!axis) p.w = de ? p.w : Win{1, 1, 1, 1, 1, 0, 0, 1}; }
  else { p.h = p.w = Win{1, 1, 1, 1, 1, 0, 0, 1}; if (de) { p.h.out = p.w.out = 0; ok = finish(p.h, true) && finish(p.w, true); } int tl = axis == 2 ? longTile(c, L) : 1; if (axis == 2) { p.co = L; p.toc = tl; if (kind == 1) p.ci = L; } else p.ci = L; }
  p.izk = 2; p.wzk = 3; p.iface = c.ch.range("iface", 0, 1);
  if (!ok) { if (c.begin()) c.skip(); return; }
  runConv(c, p, 301);
}
inline void longFc(Case &c) { FcP p; int L = c.ch.of("length", longs()), a = c.ch.flag("axis"); p.ic = a ? L : 2; p.oc = a ? 2 : L; p.iface = c.ch.range("iface", 0, 2); p.per = p.iface == 2 ? 0 : c.ch.range("per", 0, 1); p.enc = c.ch.flag("enc"); runFc(c, p, 302); }
inline void longMm(Case &c) { MmP p; int L = c.ch.of("length", longs()), a = c.ch.range("axis", 0, 2), t = longTile(c, L); p.h = p.th = 2; p.w = p.tw = 2; p.k = 2; if (a == 0) p.h = L, p.th = t; else if (a == 1) p.w = L, p.tw = t; else p.k = L; p.lz = 3; p.rz = -4; runMatmul(c, p, 303); }
inline void longPool(Case &c) {
  PoolP p; p.kind = c.ch.range("kind", 0, 2); int L = c.ch.of("length", longs()), axis = c.ch.range("axis", 0, 3); Win s{2, 1, 2, 1, 1, 0, 0, 0}; finishWin(s, 0); p.h = p.w = s; bool ok = true;
  if (axis < 2) { Win l = longWin(c, L, false); if (l.dil > 1) ok = false; ok = ok && finish(l, false); (axis ? p.w : p.h) = l; } else if (axis == 2) { p.b = L; p.tb = longTile(c, L); } else { p.c = L; p.tc = longTile(c, L); }
  if (!ok) { if (c.begin()) c.skip(); return; }
  runPool(c, p, 304);
}
inline void longReduce(Case &c) { RedP p; p.sum = c.ch.range("sum", 0, 1); p.el = c.ch.of("el", {1, 2, 4}); p.axis = c.ch.range("reduced", 0, 3); longShape<4>(c, p.d, p.t, c.ch.of("length", longs())); runReduce(c, p, 305); }
inline void longElt(Case &c) { EltP p; p.op = c.ch.range("op", 0, 4); p.el = c.ch.of("el", {1, 2}); p.bc = c.ch.range("bc", 0, 2); longShape<4>(c, p.d, p.t, c.ch.of("length", longs())); runElt(c, p, 306); }
inline void longRescale(Case &c) { RsP p; int T[][2] = {{4, 1}, {1, 1}, {1, 4}}, k = c.ch.range("type", 0, 2); p.ie = T[k][0]; p.oe = T[k][1]; p.axis = c.ch.range("axis", -1, 3); longShape<4>(c, p.d, p.t, c.ch.of("length", longs())); p.enc = c.ch.flag("enc"); runRescale(c, p, 307); }
inline void longClip(Case &c) { ClP p; longShape<4>(c, p.d, p.t, c.ch.of("length", longs())); p.lo = -50; p.hi = 70; runClip(c, p, 308); }
inline void longPrelu(Case &c) { PrP p; p.axis = c.ch.flag("per_channel") ? 4 : -1; longShape<5>(c, p.d, p.t, c.ch.of("length", longs())); if (p.axis == 4) p.t[4] = std::min(p.t[4], p.d[4]); p.ik = p.ok = 1; runPrelu(c, p, 309); }
inline void longMove(Case &c) { MvP p; p.side = c.ch.range("side", 0, 2); p.lk = p.side ? c.ch.range("kind", 1, 2) : 1; p.el = c.ch.of("el", {1, 4}); longShape<5>(c, p.d, p.t, c.ch.of("length", longs())); runMove(c, p, 310); }
inline void longBroadcast(Case &c) { BcP p; p.mask = c.ch.range("mask", 0, 15); p.el = c.ch.of("el", {1, 4}); longShape<4>(c, p.d, p.t, c.ch.of("length", longs())); runBroadcast(c, p, 311); }
inline void longPermute(Case &c) { PmP p; static const int P[][4] = {{2, 0, 1, 3}, {3, 2, 1, 0}, {0, 3, 2, 1}, {1, 0, 3, 2}}; int k = c.ch.range("perm", 0, 3); for (int i = 0; i < 4; i++) p.perm[i] = P[k][i]; p.el = c.ch.of("el", {1, 2}); longShape<4>(c, p.d, p.t, c.ch.of("length", longs())); runPermute(c, p, 312); }
}
