// C05: fully connected and RNN dense against the exact integer model.
#include "convlib.h"
using namespace mc;
typedef mli_status (*FcFn)(const mli_tensor *, const mli_tensor *, const mli_tensor *, const mli_fully_connected_cfg *, mli_tensor *);
typedef mli_status (*RdFn)(const mli_tensor **, const mli_tensor **, const mli_tensor *, const mli_rnn_dense_cfg *, mli_tensor *);
static const FcFn kFc[3] = {mli_krn_fully_connected_fx16, mli_krn_fully_connected_fx16_fx8_fx8, mli_krn_fully_connected_sa8_sa8_sa32};
static const RdFn kRd[3] = {mli_krn_rnn_dense_fx16, mli_krn_rnn_dense_fx16_fx8_fx8, mli_krn_rnn_dense_sa8_sa8_sa32};

static ConvTensors makeFc(int fmt, std::vector<int> ishape, int M, int wpad, const Quant &q) {
  ConvTensors T; T.in = Ten(inT(fmt), ishape); int N = T.in.count();
  T.w = Ten(wT(fmt), {N, M}, {wpad}); T.b = Ten(bT(fmt), {M}); T.out = Ten(inT(fmt), {M});
  setQuant(T, fmt, q, 1, M); return T;
}
static void runFc(Case &cs, int fmt, ConvTensors &T, int relu) {
  int N = T.w.dim(0), M = T.w.dim(1); bool over = false; Lim lim = relu_limits(relu, T.out); int zi = fmt == SA8 ? T.in.zp() : 0;
  std::vector<i64> r(M), re(M); ConvTensors X = T;
  for (int o = 0; o < M; o++) {
    i64 a = 0, raw = 0, ws = 0, mag = 0;
    for (int i = 0; i < N; i++) { i64 w = T.w.at(i, o), x = T.in.get(i); a += (x - zi) * w; raw += x * w; ws += w; mag += std::llabs(x * w) + std::llabs(zi * w); }
    if (fmt != FX16 && mag > INT32_MAX) over = true;
    r[o] = conv_finish(fmt, a, T.b.at(o), o, T, lim, &over);
    if (fmt == SA8) { i64 eb = satn((i128)T.b.at(o) - zi * ws, 32); X.b.put(eb, o); re[o] = conv_finish(fmt, raw, eb, o, T, lim, &over); }
  }
  if (over) { cs.skip(); return; }
  mli_fully_connected_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.relu.type = (mli_relu_type)relu;
  mli_status st = kFc[fmt](&T.in.t, &T.w.t, &T.b.t, &cfg, &T.out.t); cs.call();
  if (st != MLI_STATUS_OK) cs.fail("fc", "status %d", (int)st);
  for (int o = 0; o < M; o++) if (T.out.at(o) != r[o]) cs.fail("fc", "fully connected %s N=%d M=%d: out[%d]=%" PRId64 " expected %" PRId64, fmtName(fmt), N, M, o, T.out.at(o), r[o]);
  cs.out(T.out.hash());
  if (fmt == SA8) {
    st = mli_krn_fully_connected_sa8_sa8_sa32_ext_bias(&X.in.t, &X.w.t, &X.b.t, &cfg, &X.out.t); cs.call();
    if (st != MLI_STATUS_OK) cs.fail("fc-ext", "status %d", (int)st);
    for (int o = 0; o < M; o++) if (X.out.at(o) != re[o]) cs.fail("fc-ext", "fully connected sa8 with pre-compensated bias N=%d M=%d: out[%d]=%" PRId64 " expected %" PRId64, N, M, o, X.out.at(o), re[o]);
  }
  cs.trace();
}
static void fcShape(Case &cs) {
  auto &c = cs.ch; int fmt = c.pick("fmt", 3); int rank = c.range("rank", 1, 4); std::vector<int> s;
  for (int i = 0; i < rank; i++) s.push_back(c.range("d", 1, rank == 1 ? tier(12, 40) : 3));
  int M = c.range("M", 1, tier(5, 12)), wp = c.of("wpad", {0, 1, 7}), relu = c.pick("relu", 4), pat = c.of("pat", {P_RND, P_SMALL});
  if (!cs.begin()) return;
  auto T = makeFc(fmt, s, M, wp, dfltQ(fmt)); dataConv(T, fmt, pat, M * 7 + rank, 4000); runFc(cs, fmt, T, relu);
}
static void fcQuantFx(Case &cs) {
  auto &c = cs.ch; int fmt = c.pick("fmt", 2); static const std::vector<int> F16 = {0, 1, 3, 7, 8, 12, 14, 15}, F8 = {0, 1, 4, 7};
  Quant q = dfltQ(fmt); q.fi = c.of("fi", F16); q.fw = c.of("fw", fmt == FX16 ? F16 : F8); q.fb = c.of("fb", fmt == FX16 ? F16 : F8); q.fo = c.of("fo", F16);
  if (q.fb > q.fi + q.fw || q.fo > q.fi + q.fw) return;
  int relu = c.pick("relu", 4), pat = c.of("pat", {P_SMALL, P_RND, P_MAX, P_MIN, P_ALT}), n = c.of("n", {1, 5});
  if (!cs.begin()) return;
  auto T = makeFc(fmt, {n}, 3, 0, q); dataConv(T, fmt, pat, relu, 4000); runFc(cs, fmt, T, relu);
}
static void fcQuantSa(Case &cs) {
  auto &c = cs.ch; Quant q = dfltQ(SA8);
  q.zi = c.of("zi", {0, -128, 127, 3}); q.zo = c.of("zo", {0, -128, 127, -5}); q.si = c.of("si", {1, 77, 16384, 32767}); q.so = c.of("so", {1, 91, 20000, 32767}); q.sw0 = c.of("sw", {1, 50, 32767}); q.axis = c.flag("axis");
  int m = c.of("m", {0, 4, 8, 12, 16, -2, 20}); q.eo = c.of("eo", {8, 15, -3}); q.ei = c.of("ei", {10, 2});
  double lg = log2((double)q.si * q.sw0 / q.so); q.ew0 = (int)floor(lg + m - q.ei + q.eo + 0.5); if (q.ew0 > 120 || q.ew0 < -120) return;
  int relu = c.pick("relu", 4), pat = c.of("pat", {P_RND, P_ALT});
  if (!cs.begin()) return;
  auto T = makeFc(SA8, {5}, 4, 1, q); dataConv(T, SA8, pat, relu + m, (i64)1 << clampi(m + 6, 4, 30)); runFc(cs, SA8, T, relu);
}
static void fcBig(Case &cs) {
  auto &c = cs.ch; int fmt = c.pick("fmt", 3), which = c.pick("which", 8); static const int S[8][2] = {{300, 2}, {2, 300}, {600, 70}, {4, 5000}, {1500, 3}, {40000, 2}, {2, 40000}, {70000, 1}};
  if (!cs.begin()) return;
  auto T = makeFc(fmt, {S[which][0]}, S[which][1], which & 1, dfltQ(fmt)); dataConv(T, fmt, P_RND, which, 4000); if (fmt != SA8) fill(T.in, P_RND, 3, S[which][0] > 10000 ? 20 : 900);
  runFc(cs, fmt, T, 0);
}
// the kernel for 8-bit fixed point operands
static void fcFx8(Case &cs) {
  auto &c = cs.ch; static const std::vector<int> F = {0, 1, 4, 7}; Quant q = dfltQ(FX16_8); q.fi = c.of("fi", F); q.fw = c.of("fw", F); q.fb = c.of("fb", F); q.fo = c.of("fo", F); if (q.fb > q.fi + q.fw || q.fo > q.fi + q.fw) return;
  int relu = c.pick("relu", 4), pat = c.of("pat", {P_SMALL, P_RND, P_MAX, P_MIN, P_ALT}), n = c.of("n", {1, 2, 5, 9, 40}), M = c.of("M", {1, 3, 6}), wp = c.of("wpad", {0, 3});
  if (!cs.begin()) return;
  ConvTensors T; T.in = Ten(MLI_EL_FX_8, {n}); T.w = Ten(MLI_EL_FX_8, {n, M}, {wp}); T.b = Ten(MLI_EL_FX_8, {M}); T.out = Ten(MLI_EL_FX_8, {M}); setQuant(T, FX16_8, q, 1, M); dataConv(T, FX16_8, pat, relu + n, 100); Lim lim = relu_limits(relu, T.out);
  int bs = q.fi + q.fw - q.fb, os = q.fi + q.fw - q.fo; mli_fully_connected_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.relu.type = (mli_relu_type)relu;
  mli_status st = mli_krn_fully_connected_fx8(&T.in.t, &T.w.t, &T.b.t, &cfg, &T.out.t); cs.call(); if (st != MLI_STATUS_OK) cs.fail("fc-fx8", "status %d", (int)st);
  for (int o = 0; o < M; o++) { i64 a = 0; for (int i = 0; i < n; i++) a += T.in.get(i) * T.w.at(i, o); a = satn((i128)a + shr(T.b.at(o), -bs, 32), 32); i64 e = clampi(satn(shr(a, os, 32), 8), lim.lo, lim.hi); if (T.out.at(o) != e) cs.fail("fc-fx8", "fully connected fx8 N=%d M=%d: out[%d]=%" PRId64 " expected %" PRId64, n, M, o, T.out.at(o), e); }
  cs.out(T.out.hash()); cs.trace();
}
// ---- RNN dense -----------------------------------------------------------------------------------------------------
struct RQ { int fi, fw, z, si, ei, sw, ew; };
static void runRd(Case &cs, int fmt, std::vector<Ten> &in, std::vector<Ten> &w, Ten &b, Ten &out) {
  int K = in.size(), M = out.dim(0); bool over = false; std::vector<i64> r(M); int bits = fmt == FX16 ? 64 : 32;
  for (int o = 0; o < M; o++) {
    i64 res = 0;
    for (int k = 0; k < K; k++) {
      i64 acc = 0, mag = 0; int zi = fmt == SA8 ? in[k].zp() : 0;
      if (k == 0) acc = fmt == SA8 ? sa_bias(b.at(o)) : shr(b.at(o), b.frac() - in[0].frac() - w[0].frac(), bits);
      mag = std::llabs(acc);
      for (int i = 0; i < w[k].dim(0); i++) { i64 x = in[k].get(i), ww = w[k].at(i, o); acc += (x - zi) * ww; mag += std::llabs(x * ww) + std::llabs(zi * ww); }
      if (bits == 32 && mag > INT32_MAX) over = true;
      i64 ir;
      if (fmt == SA8) { SaMul m = sa_mul(in[k].scale(), in[k].fb(), w[k].scale(), w[k].fb(), out.scale(), out.fb()); ir = satn(shr(acc * m.mul, std::min(m.shift, 63), 64), 32); }
      else ir = shr(acc, in[k].frac() + w[k].frac() - out.frac(), bits);
      res = satn((i128)res + ir, bits);
    }
    r[o] = fmt == SA8 ? satn((i128)satn(satn(res, 16) + out.zp(), 16), 8) : satn(res, 16);
  }
  if (over) { cs.skip(); return; }
  const mli_tensor *ip[4], *wp[4]; for (int k = 0; k < K; k++) { ip[k] = &in[k].t; wp[k] = &w[k].t; }
  mli_rnn_dense_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.inputs_num = K;
  mli_status st = kRd[fmt](ip, wp, &b.t, &cfg, &out.t); cs.call();
  if (st != MLI_STATUS_OK) cs.fail("rnn_dense", "status %d", (int)st);
  for (int o = 0; o < M; o++) if (out.at(o) != r[o]) cs.fail("rnn_dense", "rnn_dense %s with %d inputs M=%d: out[%d]=%" PRId64 " expected %" PRId64, fmtName(fmt), K, M, o, out.at(o), r[o]);
  cs.out(out.hash()); cs.trace();
}
static void mkRd(int fmt, const std::vector<int> &n, int M, const std::vector<int> &wpad, const std::vector<RQ> &q, int fb, int fo, int zo, int so, int eo, int pat, int seed, i64 bamp,
                 std::vector<Ten> &in, std::vector<Ten> &w, Ten &b, Ten &out) {
  for (size_t k = 0; k < n.size(); k++) {
    in.push_back(Ten(inT(fmt), k & 1 ? std::vector<int>{n[k], 1} : std::vector<int>{n[k]})); w.push_back(Ten(wT(fmt), {n[k], M}, {wpad[k]}));
    if (fmt == SA8) { in[k].sa(q[k].z, q[k].si, q[k].ei); w[k].sa(0, q[k].sw, q[k].ew); } else { in[k].fx(q[k].fi); w[k].fx(q[k].fw); }
    fill(in[k], pat, seed + 10 * k); fill(w[k], pat, seed + 10 * k + 1);
  }
  b = Ten(bT(fmt), {M}); out = Ten(inT(fmt), {M});
  if (fmt == SA8) { int sb, eb; biasScale(q[0].si, q[0].ei, q[0].sw, q[0].ew, sb, eb); b.sa(0, sb, eb); out.sa(zo, so, eo); fill(b, P_RND, seed + 5, bamp); }
  else { b.fx(fb); out.fx(fo); fill(b, pat, seed + 5); }
}
static void rdShape(Case &cs) {
  auto &c = cs.ch; int fmt = c.pick("fmt", 3), K = c.range("inputs", 1, MLI_RNN_MAX_INPUT); std::vector<int> n, wp; std::vector<RQ> q;
  for (int k = 0; k < K; k++) { n.push_back(c.range("n", 1, K < 3 ? 6 : tier(3, 4))); }
  int M = c.range("M", 1, tier(4, 9)), st = c.pick("wstride", 3), pat = c.of("pat", {P_RND, P_SMALL, P_ALT});
  if (!cs.begin()) return;
  Quant d = dfltQ(fmt);
  for (int k = 0; k < K; k++) { wp.push_back(st == 0 ? 0 : st == 1 ? k + 1 : (3 - k) & 3); q.push_back({d.fi + (k * 2 % 3) - 1, d.fw + (k % 2), d.zi + 17 * k - 20, d.si + 9 * k, d.ei - (k & 1), d.sw0 + 5 * k, d.ew0 + k - 1}); }
  std::vector<Ten> in, w; Ten b, out; mkRd(fmt, n, M, wp, q, d.fb, d.fo, d.zo, d.so, d.eo, pat, M + K, 3000, in, w, b, out);
  runRd(cs, fmt, in, w, b, out);
}
static void rdQuantFx(Case &cs) {
  auto &c = cs.ch; int fmt = c.pick("fmt", 2), K = c.range("inputs", 1, 3); static const std::vector<int> F16 = {0, 5, 11, 15}, F8 = {0, 4, 7}; std::vector<RQ> q; int mn = 99;
  for (int k = 0; k < K; k++) { RQ r{}; r.fi = c.of("fi", F16); r.fw = c.of("fw", fmt == FX16 ? F16 : F8); mn = std::min(mn, r.fi + r.fw); q.push_back(r); }
  int fb = c.of("fb", fmt == FX16 ? F16 : F8), fo = c.of("fo", {0, 4, 9, 15}); if (fb > q[0].fi + q[0].fw || fo > mn) return;
  int pat = c.of("pat", {P_SMALL, P_RND, P_MAX, P_MIN, P_ALT});
  if (!cs.begin()) return;
  std::vector<Ten> in, w; Ten b, out; mkRd(fmt, {3, 2, 1}, 3, {0, 0, 0}, q.size() == 3 ? q : (q.resize(3, q[0]), q), fb, fo, 0, 1, 0, pat, K, 0, in, w, b, out);
  in.resize(K); w.resize(K); runRd(cs, fmt, in, w, b, out);
}
static void rdQuantSa(Case &cs) {
  auto &c = cs.ch; int K = c.range("inputs", 1, 2); std::vector<RQ> q; int zo = c.of("zo", {0, -128, 127}), so = c.of("so", {1, 91, 32767}), eo = c.of("eo", {8, -3});
  for (int k = 0; k < K; k++) { RQ r{}; r.z = c.of("zi", {0, -128, 127}); r.si = c.of("si", {1, 77, 32767}); r.sw = c.of("sw", {1, 50, 32767}); r.ei = 9 + k; int m = c.of("m", {0, 6, 12, 20}); r.ew = (int)floor(log2((double)r.si * r.sw / so) + m - r.ei + eo + 0.5); q.push_back(r); }
  int pat = c.of("pat", {P_RND, P_ALT});
  if (!cs.begin()) return;
  std::vector<Ten> in, w; Ten b, out; if (K == 1) q.push_back(q[0]);
  mkRd(SA8, {4, 3}, 3, {0, 2}, q, 0, 0, zo, so, eo, pat, K, 5000, in, w, b, out);
  in.resize(K); w.resize(K); runRd(cs, SA8, in, w, b, out);
}
int main(int argc, char **argv) {
  return run_main(argc, argv, {{"fc_shape", fcShape}, {"fc_quant_fx", fcQuantFx}, {"fc_quant_sa8", fcQuantSa}, {"fc_large", fcBig}, {"fc_fx8", fcFx8}, {"rnn_dense_shape", rdShape}, {"rnn_dense_quant_fx", rdQuantFx}, {"rnn_dense_quant_sa8", rdQuantSa}});
}
