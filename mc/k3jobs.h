// a catalogue of small MLI 3.0 life cycles, and the interleavings of two of them
#pragma once
#include "k3drv.h"
namespace k3 {
struct Job { std::string nm; std::function<void(Case &, uint32_t)> run; };
inline const std::vector<Job> &jobs() {
  static const std::vector<Job> J = [] {
    std::vector<Job> v; static const int E[] = {1, 2, 4}, D[][5] = {{2, 3, 3, 1, 3}, {1, 5, 2, 2, 3}};
    auto shape = [&](int *d, int *t, int n, int k, int keep = -1) { for (int i = 0; i < n; i++) { d[i] = D[k][n == 4 && i == 3 ? 4 : i]; t[i] = i == keep ? d[i] : std::min(d[i], 2); } };
    for (int kind = 0; kind < 3; kind++) for (int k = 0; k < 2; k++) {
      ConvP p; p.kind = kind; p.ci = kind == 1 ? 3 : 2; p.co = 3; p.toc = k ? 3 : 2; if (kind == 2) { p.h = Win{0, 2, 2, 1, 1, 1, 0, 3}; p.w = Win{0, k ? 4 : 3, 3, 2, 1, 1, 1, 4}; finishDeconv(p.h); finishDeconv(p.w); } else { p.h = Win{3, k ? 3 : 2, 3, 1, 1, 1, 1, 0}; p.w = Win{2, k ? 2 : 1, 2, 2, 1, 0, 0, 0}; finishWin(p.h, 0); finishWin(p.w, 0); }
      p.izk = 2 + k; p.wzk = 2 + 3 * k; p.gi = p.go = p.gw = k; p.vk = k * 2; v.push_back({"convolution", [p](Case &c, uint32_t s) { runConv(c, p, s); }}); }
    for (int k = 0; k < 2; k++) { FcP p; p.ic = 5 + k; p.oc = 4 - k; p.iface = k; p.per = 1 - k; p.go = k; p.vk = k; v.push_back({"dense", [p](Case &c, uint32_t s) { runFc(c, p, s); }}); }
    for (int k = 0; k < 2; k++) { MmP p; p.h = 3; p.th = 2; p.w = 5 - k; p.tw = k ? 4 : 2; p.k = 4 + k; p.gl = p.gr = p.go = k; p.lz = 5 - 9 * k; p.rz = -9 + 11 * k; v.push_back({"matmul", [p](Case &c, uint32_t s) { runMatmul(c, p, s); }}); }
    for (int k = 0; k < 4; k++) { PoolP p; p.kind = k % 3; p.h = Win{3, k == 3 ? 3 : 2, 3, 1, 1, 1, 1, 0}; p.w = Win{2, 1, 2, 2, 1, 1, 0, 0}; finishWin(p.h, 0); finishWin(p.w, 0); p.b = 2; p.tb = k == 3 ? 2 : 1; p.c = 3; p.tc = 2; p.gi = p.go = k & 1; v.push_back({"pool", [p](Case &c, uint32_t s) { runPool(c, p, s); }}); }
    for (int k = 0; k < 4; k++) { RedP p; p.sum = k & 1; p.el = E[k % 3]; p.axis = k; shape(p.d, p.t, 4, k & 1, k); v.push_back({"reduce", [p](Case &c, uint32_t s) { runReduce(c, p, s); }}); }
    for (int op = 0; op < 5; op++) for (int k = 0; k < 2; k++) { EltP p; p.op = op; p.el = E[op == 2 ? k : 2 * k]; p.bc = k ? 1 + op % 2 : 0; shape(p.d, p.t, 4, k); p.go = k; v.push_back({"elementwise", [p](Case &c, uint32_t s) { runElt(c, p, s); }}); }
    static const int TY[][2] = {{4, 1}, {1, 1}, {1, 4}}; for (int k = 0; k < 3; k++) { RsP p; p.ie = TY[k][0]; p.oe = TY[k][1]; p.axis = k == 1 ? -1 : k == 2 ? 1 : 3; shape(p.d, p.t, 4, k & 1); p.ik = p.ok = 1; v.push_back({"rescale", [p](Case &c, uint32_t s) { runRescale(c, p, s); }}); }
    for (int k = 0; k < 2; k++) { ClP p; shape(p.d, p.t, 4, k); p.lo = -20 - 30 * k; p.hi = 60 - 50 * k; v.push_back({"clip", [p](Case &c, uint32_t s) { runClip(c, p, s); }}); }
    for (int k = 0; k < 2; k++) { PrP p; p.axis = k ? 4 : -1; shape(p.d, p.t, 5, k); p.ik = p.ok = 1; p.go = k; v.push_back({"prelu", [p](Case &c, uint32_t s) { runPrelu(c, p, s); }}); }
    for (int k = 0; k < 3; k++) { MvP p; p.side = k; p.lk = k ? k : 1; p.el = E[k]; shape(p.d, p.t, 5, k & 1); p.gs = k & 1; v.push_back({"move", [p](Case &c, uint32_t s) { runMove(c, p, s); }}); }
    for (int k = 0; k < 2; k++) { BcP p; p.mask = k ? 6 : 1; shape(p.d, p.t, 4, 0); p.gd = k; p.el = E[k]; v.push_back({"broadcast", [p](Case &c, uint32_t s) { runBroadcast(c, p, s); }}); }
    static const int P[][4] = {{2, 0, 1, 3}, {3, 2, 1, 0}}; for (int k = 0; k < 2; k++) { PmP p; for (int i = 0; i < 4; i++) p.perm[i] = P[k][i]; shape(p.d, p.t, 4, 0); p.el = E[2 * k]; v.push_back({"permute", [p](Case &c, uint32_t s) { runPermute(c, p, s); }}); }
    for (int k = 0; k < 3; k++) { RzP p; p.sh = 1 + k; p.b = k ? 1 : 2; p.ih = k == 2 ? 1 : 3; p.iw = k ? 4 : 2; p.oh = p.ow = k == 2 ? 5 : 6; p.ch = 3; p.st[0] = 1 + k; p.st[1] = 2 + k; p.of[0] = k == 1 ? -5 : 1; p.of[1] = -3; p.gi = p.go = k & 1; p.vk = k; v.push_back({"resize", [p](Case &c, uint32_t s) { runResize(c, p, s); }}); }
    return v;
  }();
  return J;
}
// A is stopped between any two of its operations; B goes from compilation to the end of an inference there; A goes on
inline void interleaveJobs(Case &c) {
  int a = c.ch.pick("A", jobs().size()), b = c.ch.pick("B", jobs().size());
  if (!c.begin()) return;
  struct Guard { ~Guard() { mode = Mode(); } } g; const Job &A = jobs()[a], &B = jobs()[b];
  for (int i = 0;; i++) {
    mode = Mode(); mode.begun = true; mode.stop = i; bool ran = false; mode.other = [&] { ran = true; B.run(c, 501 + i); };
    A.run(c, 11); if (!ran) break; c.trace();
  }
}
// the layouts and placement of a run: every tensor dense, with gaps, with an innermost stride of 2 or (one tensor only) with planes far apart
inline void pickLayout(Case &c, const Job &j) { place = Place(); int most = j.nm == "reduce" || j.nm == "move" ? 2 : 1;   // the others require an innermost stride of 1
  int far = c.ch.range("far", 0, 3); for (int i = 0; i < 3; i++) place.gaps.push_back(far ? (far == i + 1 ? 3 : 0) : c.ch.range("layout", 0, most)); place.pad = far ? 0 : c.ch.of("pad", {0, 1, 2, 3, 5}); }
// a run whose results are compared with those of a run with dense tensors
inline void layoutJobs(Case &c) {
  struct Reset { ~Reset() { place = Place(); mode = Mode(); } } g; int j = c.ch.pick("job", jobs().size()); pickLayout(c, jobs()[j]); if (!c.begin()) return;
  Place p = place; place = Place(); place.gaps = {0}; mode = Mode(); mode.begun = true; mode.kind = 1; jobs()[j].run(c, 81);
  place = p; mode.kind = 2; jobs()[j].run(c, 82); c.trace();
}
}
