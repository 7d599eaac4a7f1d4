// C13: LSTM and GRU cells: histories of calls.
#include "lutlib.h"
using namespace mc;
enum { FX16, FX168, SA8 };
static const char *kN[3] = {"fx16", "fx16_fx8_fx8", "sa8_sa8_sa32"}, *kC[2] = {"lstm_cell", "gru_cell"};
static const mli_element_type kIn[3] = {MLI_EL_FX_16, MLI_EL_FX_16, MLI_EL_SA_8}, kW[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8}, kB[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_32};
static Lut &tab(int th) { static Lut s(mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut), t(mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut); return th ? t : s; }
struct QT { int fi, fwi, fwo, fb, fo, fc; int zi, si, ei, zo, so, eo, zc, sc, ec; bool gate; int sw, ew; };
static const QT kQ[] = {
  {12, 12, 13, 14, 14, 13, 0, 16, 10, 5, 9, 10, 0, 12, 10, false, 23, 11},
  {15, 15, 15, 10, 15, 15, -128, 77, 12, -3, 3, 9, 10, 33, 10, true, 91, 13},
  {3, 14, 11, 3, 12, 10, 127, 255, 14, 0, 1, 7, -128, 1, 5, true, 32000, 21},
  {8, 7, 9, 15, 9, 4, 1, 1, 6, 127, 3000, 18, 0, 1, 3, false, 3, 9}};
struct Net {
  int kernel, fmt, G, N, M; QT q; Ten wi, wo, b; mli_rnn_out_activation act = RNN_ACT_TANH;
  std::vector<int16_t> gs(const Ten &w) const { return w.scs; }
  Ten frames(int T) const { Ten t(kIn[fmt], {T, N}); sq(t, q.fi, q.zi, q.si, q.ei); return t; }
  Ten vec(bool cell) const { Ten t(kIn[fmt], {M}); if (cell) sq(t, q.fc, q.zc, q.sc, q.ec); else sq(t, q.fo, q.zo, q.so, q.eo); return t; }
  void sq(Ten &t, int f, int z, int s, int e) const { if (fmt == SA8) t.sa(z, s, e); else t.fx(f); }
};
static int lim8(int fmt, int f) { return fmt == FX168 ? std::min(f, 7) : f; }
static Net make(int kernel, int fmt, int N, int M, int pad, QT q, int amp, int seed) {
  Net n; n.kernel = kernel; n.fmt = fmt; n.G = kernel ? 3 : 4; n.N = N; n.M = M; n.q = q; int G = n.G;
  n.wi = Ten(kW[fmt], {G, N, M}, {pad ? 3 : 0, pad}); n.wo = Ten(kW[fmt], {G, M, M}, {pad ? 1 : 0, pad ? pad + 1 : 0}); n.b = Ten(kB[fmt], {G, M}, {pad ? pad + 2 : 0});
  // spread of the products: scale the amplitude with the dot product length
  i64 full = fmt == FX16 ? 32767 : 127, a = amp == 2 ? full : amp == 1 ? std::max<i64>(full / 4 / (N + M), 2) : 1;
  fill(n.wi, P_RND, seed, a); fill(n.wo, P_RND, seed + 1, a); fill(n.b, P_RND, seed + 2, fmt == SA8 ? (amp == 2 ? 200000 : 3000) : amp == 2 ? full : full / 3);
  if (fmt == SA8) {
    auto set = [&](Ten &t, int s, int e) { if (!q.gate) { t.sa(0, s, e); return; } std::vector<int16_t> z(G, 0), sc; std::vector<int8_t> f; for (int g = 0; g < G; g++) { sc.push_back(std::min(32767, s + s * g / 4)); f.push_back(e - (g & 1)); } t.saAxis(0, z, sc, f); };
    set(n.wi, q.sw, q.ew); set(n.wo, std::max(1, q.sw / 2), q.ew + 1);
    set(n.b, (int)std::min(32767., std::max(1., floor((double)q.si * q.sw / 1024))), q.ei + q.ew - 10);
  } else { n.wi.fx(lim8(fmt, q.fwi)); n.wo.fx(lim8(fmt, q.fwo)); n.b.fx(std::min(lim8(fmt, q.fb), q.fi + n.wi.frac())); }
  return n;
}
struct Canaried { std::vector<uint8_t> m; int n; explicit Canaried(int bytes) : m(bytes + 128), n(bytes) { for (size_t i = 0; i < m.size(); i++) m[i] = canary(i); } uint8_t *p() { return m.data() + 64 - ((uintptr_t)m.data() & 15); }
  bool ok() { size_t o = p() - m.data(); for (size_t i = 0; i < m.size(); i++) if ((i < o || i >= o + n) && m[i] != canary(i)) return false; return true; } };
// one library call; returns rows produced, updates cell
static std::vector<std::vector<i64>> call(Case &cs, Net &n, const Ten &in, const std::vector<i64> &h0, Ten *cell, bool back, bool all, bool alias) {
  int T = in.dim(0), M = n.M, rows = all ? T : 1; mli_rnn_cell_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.direction = back ? RNN_DIR_BACKWARD : RNN_DIR_FORWARD; cfg.results = all ? RNN_OUT_ALL : RNN_OUT_LAST; cfg.act = n.act;
  int es = n.fmt == SA8 ? 1 : 2; Canaried scratch(n.G * M * es); cfg.scratch_data.mem.pi8 = (int8_t *)scratch.p(); cfg.scratch_data.capacity = n.G * M * es;
  Ten out(kIn[n.fmt], {rows * M}); n.sq(out, n.q.fo, n.q.zo, n.q.so, n.q.eo); Ten prev = n.vec(false); for (int i = 0; i < M; i++) prev.set(i, h0[i]);
  mli_tensor pv = prev.t; if (alias) { for (int i = 0; i < M; i++) out.set(i, h0[i]); pv.data = out.t.data; }
  std::vector<uint8_t> k0 = in.mem, k1 = n.wi.mem, k2 = n.wo.mem, k3 = n.b.mem, k4 = prev.mem; mli_rnn_cell_cfg c0 = cfg; mli_status st;
  if (n.kernel == 0) { auto f = n.fmt == FX16 ? mli_krn_lstm_cell_fx16 : n.fmt == FX168 ? mli_krn_lstm_cell_fx16_fx8_fx8 : mli_krn_lstm_cell_sa8_sa8_sa32; st = f(&in.t, &pv, &n.wi.t, &n.wo.t, &n.b.t, &tab(1).l, &tab(0).l, &cfg, &cell->t, &out.t); }
  else { auto f = n.fmt == FX16 ? mli_krn_gru_cell_fx16 : n.fmt == FX168 ? mli_krn_gru_cell_fx16_fx8_fx8 : mli_krn_gru_cell_sa8_sa8_sa32; st = f(&in.t, &pv, &n.wi.t, &n.wo.t, &n.b.t, &tab(1).l, &tab(0).l, &cfg, &out.t); }
  cs.call();
  if (st != MLI_STATUS_OK) cs.fail("status", "%s_%s: status %d", kC[n.kernel], kN[n.fmt], st);
  if (out.t.rank != 2 || (int)out.t.shape[0] != rows || (int)out.t.shape[1] != M || out.t.mem_stride[0] != M || out.t.mem_stride[1] != 1) cs.fail("shape", "%s_%s: output shape (%u,%u) of rank %u, expected (%d,%d)", kC[n.kernel], kN[n.fmt], out.t.shape[0], out.t.shape[1], out.t.rank, rows, M);
  Ten po = n.vec(false); if (n.fmt == SA8 ? (out.zp() != po.zp() || out.scale() != po.scale() || out.fb() != po.fb() || out.t.el_params.sa.dim != po.t.el_params.sa.dim) : out.frac() != po.frac()) cs.fail("params", "%s_%s: output quantisation changed", kC[n.kernel], kN[n.fmt]);
  if (!out.gapsIntact() || !scratch.ok() || (cell && !cell->gapsIntact())) cs.fail("gap", "%s_%s: wrote outside of output, cell or scratch memory", kC[n.kernel], kN[n.fmt]);
  if (in.mem != k0 || n.wi.mem != k1 || n.wo.mem != k2 || n.b.mem != k3 || prev.mem != k4 || memcmp(&c0, &cfg, sizeof cfg)) cs.fail("input", "%s_%s: an input was modified", kC[n.kernel], kN[n.fmt]);
  std::vector<std::vector<i64>> r(rows, std::vector<i64>(M)); for (int t = 0; t < rows; t++) for (int i = 0; i < M; i++) r[t][i] = out.get(t * M + i); return r;
}
// ---- one step computed with the element-wise, dense and activation kernels (each decided by its own check) -------------
static void act(Case &cs, int fmt, int th, Ten &a) { Lut &l = tab(th); mli_status st = fmt == SA8 ? (th ? mli_krn_tanh_sa8 : mli_krn_sigm_sa8)(&a.t, &l.l, &a.t) : (th ? mli_krn_tanh_fx16 : mli_krn_sigm_fx16)(&a.t, &l.l, &a.t); if (st) cs.fail("step", "activation status %d", st); }
typedef mli_status (*Elt)(const mli_tensor *, const mli_tensor *, mli_tensor *);
static Ten elt(Case &cs, int fmt, int op, const Ten &a, const Ten &b, const mli_element_params &p) {
  static const Elt F[3][2] = {{mli_krn_eltwise_mul_fx16, mli_krn_eltwise_mul_sa8}, {mli_krn_eltwise_add_fx16, mli_krn_eltwise_add_sa8}, {mli_krn_eltwise_sub_fx16, mli_krn_eltwise_sub_sa8}};
  Ten o(kIn[fmt], {(int)b.count()}); o.t.el_params = p; mli_status st = F[op][fmt == SA8](&a.t, &b.t, &o.t); if (st) cs.fail("step", "eltwise status %d", st); o.t.el_params = p; return o;
}
static Ten dense(Case &cs, Net &n, int g, const Ten &x, const Ten &h, const mli_element_params &p) {
  auto view = [&](Ten &w) { mli_tensor t = w.t; t.rank = 2; for (int d = 0; d < 2; d++) { t.shape[d] = w.t.shape[d + 1]; t.mem_stride[d] = w.t.mem_stride[d + 1]; }
    if (kW[n.fmt] == MLI_EL_FX_16) t.data.mem.pi16 += g * w.t.mem_stride[0]; else t.data.mem.pi8 += g * w.t.mem_stride[0]; t.data.capacity -= g * w.t.mem_stride[0] * esize(w.t.el_type);
    if (n.fmt == SA8) { int z = w.zp(w.perAxis() ? g : 0), s = w.scale(w.perAxis() ? g : 0), f = w.fb(w.perAxis() ? g : 0); Ten q; q.sa(z, s, f); t.el_params = q.t.el_params; } return t; };
  mli_tensor wi = view(n.wi), wo = view(n.wo); Ten b(kB[n.fmt], {n.M}); for (int i = 0; i < n.M; i++) b.set(i, n.b.at(g, i)); b.t.el_params = n.b.t.el_params; if (n.fmt == SA8) { int k = n.b.perAxis() ? g : 0; int z = n.b.zp(k), s = n.b.scale(k), f = n.b.fb(k); b.sa(z, s, f); }
  Ten o(kIn[n.fmt], {n.M}); o.t.el_params = p; const mli_tensor *ins[2] = {&x.t, &h.t}, *ws[2] = {&wi, &wo}; mli_rnn_dense_cfg c; memset(&c, 0, sizeof c); c.inputs_num = 2;
  auto f = n.fmt == FX16 ? mli_krn_rnn_dense_fx16 : n.fmt == FX168 ? mli_krn_rnn_dense_fx16_fx8_fx8 : mli_krn_rnn_dense_sa8_sa8_sa32; mli_status st = f(ins, ws, &b.t, &c, &o.t); if (st) cs.fail("step", "dense status %d", st); o.t.el_params = p; return o;
}
static double rv(const Ten &t, size_t i) { i64 v = t.get(i); return t.t.el_type == MLI_EL_SA_8 || t.t.el_type == MLI_EL_SA_32 ? (double)(v - t.zp()) * t.scale() * pow(2, -t.fb()) : v * pow(2, -t.frac()); }
static double worst[2][3];
static void step(Case &cs, Net &n, const Ten &x, std::vector<i64> &h, Ten *cell, bool real) {
  Ten H = n.vec(false); for (int i = 0; i < n.M; i++) H.set(i, h[i]); Ten ir; int f = n.fmt, M = n.M;
  if (f == SA8) { if (n.kernel) ir.sa(0, 21, 9); else ir.sa(0, 1, 4); } else ir.fx(std::min(n.kernel ? 11 : 10, n.wi.frac() + x.frac())); mli_element_params ip = ir.t.el_params;
  Ten o; std::vector<double> want(M), cw(M);
  // documented equations in real arithmetic, from the same quantised state
  auto lin = [&](int g, int j, const std::vector<double> &hv) { double s; int k = n.b.perAxis() && f == SA8 ? g : 0; if (f == SA8) s = n.b.at(g, j) * (double)x.scale() * pow(2, -x.fb()) * n.wi.scale(k) * pow(2, -n.wi.fb(k)); else s = n.b.at(g, j) * pow(2, -n.b.frac());
    for (int i = 0; i < n.N; i++) s += rv(x, i) * n.wi.at(g, i, j) * (f == SA8 ? n.wi.scale(k) * pow(2, -n.wi.fb(k)) : pow(2, -n.wi.frac()));
    for (int i = 0; i < M; i++) s += hv[i] * n.wo.at(g, i, j) * (f == SA8 ? n.wo.scale(k) * pow(2, -n.wo.fb(k)) : pow(2, -n.wo.frac())); return s; };
  auto sg = [](double v) { return 1 / (1 + exp(-v)); }; std::vector<double> hv(M); for (int i = 0; i < M; i++) hv[i] = rv(H, i);
  auto cl = [&](double v, const Ten &t) { double s = f == SA8 ? t.scale() * pow(2, -t.fb()) : pow(2, -t.frac()), lo = (f == SA8 ? -128 - t.zp() : -32768) * s, hi = (f == SA8 ? 127 - t.zp() : 32767) * s; return std::min(std::max(v, lo), hi); };
  if (real) {
    if (n.kernel == 0) for (int j = 0; j < M; j++) { double i = sg(lin(0, j, hv)), g = tanh(lin(1, j, hv)), fg = sg(lin(2, j, hv)), og = sg(lin(3, j, hv)); cw[j] = cl(cl(fg * rv(*cell, j), *cell) + g * i, *cell); double a = n.act == RNN_ACT_NONE ? cw[j] : n.act == RNN_ACT_TANH ? tanh(cw[j]) : sg(cw[j]); want[j] = cl(og * a, H); }
    else { std::vector<double> z(M), rh(M); for (int j = 0; j < M; j++) { z[j] = sg(lin(0, j, hv)); rh[j] = cl(sg(lin(1, j, hv)) * hv[j], H); } for (int j = 0; j < M; j++) want[j] = cl(cl(z[j] * hv[j], H) + cl((1 - z[j]) * tanh(lin(2, j, rh)), H), H); }
  }
  if (n.kernel == 0) {
    Ten i = dense(cs, n, 0, x, H, ip), g = dense(cs, n, 1, x, H, ip), fg = dense(cs, n, 2, x, H, ip), og = dense(cs, n, 3, x, H, ip);
    act(cs, f, 0, i); act(cs, f, 1, g); act(cs, f, 0, fg); act(cs, f, 0, og); mli_element_params cp = cell->t.el_params;
    Ten c1 = elt(cs, f, 0, *cell, fg, cp), gi = elt(cs, f, 0, g, i, g.t.el_params), c2 = elt(cs, f, 1, c1, gi, cp); for (int j = 0; j < M; j++) cell->set(j, c2.get(j));
    Ten a = c2; if (n.act != RNN_ACT_NONE) act(cs, f, n.act == RNN_ACT_TANH, a); o = elt(cs, f, 0, a, og, H.t.el_params);
  } else {
    Ten z = dense(cs, n, 0, x, H, ip), r = dense(cs, n, 1, x, H, ip); act(cs, f, 0, z); act(cs, f, 0, r);
    Ten rh = elt(cs, f, 0, r, H, H.t.el_params), zh = elt(cs, f, 0, H, z, H.t.el_params), one(kIn[f], {1}); one.t.el_params = z.t.el_params; one.set(0, f == SA8 ? 127 : 32767); Ten zi = elt(cs, f, 2, one, z, z.t.el_params);
    Ten u = dense(cs, n, 2, x, rh, ip); act(cs, f, 1, u); Ten t = elt(cs, f, 0, u, zi, H.t.el_params); o = elt(cs, f, 1, t, zh, H.t.el_params);
  }
  for (int j = 0; j < M; j++) h[j] = o.get(j);
  if (real) {
    double so = f == SA8 ? H.scale() * pow(2, -H.fb()) : pow(2, -H.frac()), sc = cell ? (f == SA8 ? cell->scale() * pow(2, -cell->fb()) : pow(2, -cell->frac())) : 0;
    // limits: intermediate results saturate at +-8 (LSTM sa8), +-5 (GRU sa8) and are rounded to the intermediate format
    double irq = f == SA8 ? (n.kernel ? 21. / 512 : 1. / 16) : pow(2, -ir.frac());
    double tol = (f == SA8 ? 0.02 : 0.0008) + 2.1 * so + 1.6 * sc + irq * 0.75 * (n.kernel == 0 && f == SA8 && cell ? 1 + fabs(127. * sc) * 0.25 : 1 + 0.5 * fabs(so * (f == SA8 ? 255 : 65535)));
    if (n.kernel == 1) { double m = 0; for (int j = 0; j < M; j++) { double s = 0; for (int i = 0; i < M; i++) { int k = n.wo.perAxis() && f == SA8 ? 2 : 0; s += fabs((double)n.wo.at(2, i, j)) * (f == SA8 ? n.wo.scale(k) * pow(2, -n.wo.fb(k)) : pow(2, -n.wo.frac())); } m = std::max(m, s); } tol += m * (so + irq * .3 * so * (f == SA8 ? 255 : 65535)); }
    for (int j = 0; j < M; j++) { double e = fabs(rv(o, j) - want[j]) / tol; if (e > worst[n.kernel][f]) { worst[n.kernel][f] = e; if (getenv("C13_MEASURE")) fprintf(stderr, "%s %s rel %.3f got %g want %g\n", kC[n.kernel], kN[f], e, rv(o, j), want[j]); }
      if (e > 1) cs.fail("equations", "%s_%s: unit %d: %g, the gate equations give %g (tolerance %g)", kC[n.kernel], kN[f], j, rv(o, j), want[j], tol); }
  }
}
static void fillFrame(Net &n, Ten &in, int t, int sym) { int bits = n.fmt == SA8 ? 8 : 16; for (int i = 0; i < n.N; i++) in.put(sym == 0 ? patval(P_RND, 11, i, bits) : sym == 1 ? patval(P_RND, 29, i, bits) / 9 : sym == 2 ? patval(P_ALT, 0, i, bits) : patval(P_RND, 100 + sym, i, bits), t, i); }
struct Run { std::vector<std::vector<i64>> rows; std::vector<i64> cell; };
static void history(Case &cs, Net &n, const std::vector<int> &sym, int start, bool deep) {
  int T = sym.size(), M = n.M; Ten in = n.frames(T), rev = n.frames(T); for (int t = 0; t < T; t++) { fillFrame(n, in, t, sym[t]); fillFrame(n, rev, T - 1 - t, sym[t]); }
  int bits = n.fmt == SA8 ? 8 : 16; std::vector<i64> h0(M); for (int i = 0; i < M; i++) h0[i] = start == 0 ? (n.fmt == SA8 ? n.q.zo : 0) : patval(start == 1 ? P_RND : P_ALT, 77, i, bits);
  auto cell0 = [&]() { Ten c = n.vec(true); for (int i = 0; i < M; i++) c.set(i, start == 0 ? (n.fmt == SA8 ? n.q.zc : 0) : patval(start == 1 ? P_RND : P_ALT, 78, i, bits)); return c; };
  auto run = [&](const Ten &x, bool back, bool all, bool alias) { Ten c = cell0(); Run r; r.rows = call(cs, n, x, h0, n.kernel ? nullptr : &c, back, all, alias); for (int i = 0; i < M; i++) r.cell.push_back(c.get(i)); return r; };
  const char *nm = kC[n.kernel], *fm = kN[n.fmt];
  // reference: the documented equations, step by step
  Run ref; { Ten c = cell0(); std::vector<i64> h = h0; for (int t = 0; t < T; t++) { Ten x(kIn[n.fmt], {n.N}); x.t.el_params = in.t.el_params; for (int i = 0; i < n.N; i++) x.set(i, in.at(t, i)); step(cs, n, x, h, n.kernel ? nullptr : &c, deep); ref.rows.push_back(h); uint64_t hs = 0; for (auto v : h) hs = mix(hs, v); for (int i = 0; i < M; i++) hs = mix(hs, c.get(i)); cs.state(hs); } for (int i = 0; i < M; i++) ref.cell.push_back(c.get(i)); }
  Run all = run(in, false, true, false);
  for (int t = 0; t < T; t++) for (int i = 0; i < M; i++) if (all.rows[t][i] != ref.rows[t][i]) cs.fail("step", "%s_%s: step %d unit %d: %" PRId64 ", the gate equations evaluated with the library's kernels give %" PRId64, nm, fm, t, i, all.rows[t][i], ref.rows[t][i]);
  if (n.kernel == 0 && all.cell != ref.cell) cs.fail("cell", "%s_%s: final cell state differs from the gate equations", nm, fm);
  auto same = [&](const Run &r, bool last, const char *key, const char *what) {
    if (last ? r.rows[0] != all.rows[T - 1] : r.rows != all.rows) cs.fail(key, "%s_%s T=%d N=%d M=%d: %s: outputs differ", nm, fm, T, n.N, M, what);
    if (n.kernel == 0 && r.cell != all.cell) cs.fail(key, "%s_%s T=%d: %s: cell state differs", nm, fm, T, what); };
  same(run(in, false, false, false), true, "last", "last-step mode against all-steps mode");
  same(run(rev, true, true, false), false, "backward", "backward processing of the reversed sequence");
  same(run(rev, true, false, false), true, "backward", "backward last-step processing of the reversed sequence");
  same(run(in, false, false, true), true, "alias", "previous output sharing the output memory (last)");
  same(run(in, false, true, true), false, "alias", "previous output sharing the output memory (all)");
  // every split into consecutive calls, every assignment of result modes to them
  for (int mask = 1; mask < (1 << (T - 1)); mask++) for (int mode = 0; mode < 3; mode++) {
    Run r; Ten c = cell0(); std::vector<i64> h = h0; int t0 = 0, k = 0;
    for (int t = 1; t <= T; t++) if (t == T || (mask >> (t - 1) & 1)) {
      Ten x = n.frames(t - t0); bool a = mode == 0 || (mode == 2 && (k & 1)), bk = mode == 2; for (int s = t0; s < t; s++) for (int i = 0; i < n.N; i++) x.put(in.at(s, i), bk ? t - 1 - s : s - t0, i);
      auto rows = call(cs, n, x, h, n.kernel ? nullptr : &c, bk, a, false); if (a) for (auto &v : rows) r.rows.push_back(v); h = rows.back(); if (!a && h != all.rows[t - 1]) cs.fail("split", "%s_%s T=%d split %d: last step of part %d differs", nm, fm, T, mask, k); t0 = t; k++;
    }
    for (int i = 0; i < M; i++) r.cell.push_back(c.get(i)); if (h != all.rows[T - 1] || (mode == 0 && r.rows != all.rows)) cs.fail("split", "%s_%s T=%d: split %d (mode %d): outputs differ", nm, fm, T, mask, mode);
    if (n.kernel == 0 && r.cell != all.cell) cs.fail("split", "%s_%s T=%d: split %d: cell state differs", nm, fm, T, mask);
  }
  uint64_t o = 0; for (auto &v : all.rows) for (auto x : v) o = mix(o, x); cs.out(o); cs.trace();
}
static mli_rnn_out_activation pickAct(Chooser &c, int k) { return k ? RNN_ACT_TANH : c.of("act", {RNN_ACT_TANH, RNN_ACT_SIGM, RNN_ACT_NONE}); }
static void histories(Case &cs) {
  auto &c = cs.ch; int k = c.pick("kernel", 2), f = c.pick("fmt", 3), q = c.pick("quant", 4), T = c.range("T", 1, tier(4, 5)); std::vector<int> s; for (int t = 0; t < T; t++) s.push_back(c.pick("frame", T == 5 ? 2 : 3)); int start = c.pick("start", 3), amp = c.of("amp", {1, 2}); auto a = pickAct(c, k);
  if (!cs.begin()) return;
  Net n = make(k, f, 2, 3, 0, kQ[q], amp, 5); n.act = a; history(cs, n, s, start, amp == 1);
}
static void sizes(Case &cs) {
  auto &c = cs.ch; int k = c.pick("kernel", 2), f = c.pick("fmt", 3), N = c.range("N", 1, tier(5, 9)), M = c.range("M", 1, tier(5, 9)), pad = c.of("pad", {0, 1, 4}), q = c.pick("quant", 4), T = c.of("T", {1, 3}), amp = c.pick("amp", 3); auto a = pickAct(c, k);
  if (!cs.begin()) return;
  Net n = make(k, f, N, M, pad, kQ[q], amp, N * 3 + M); n.act = a; std::vector<int> s; for (int t = 0; t < T; t++) s.push_back(3 + t); history(cs, n, s, 1, amp == 1);
}
static void quant(Case &cs) {
  auto &c = cs.ch; int k = c.pick("kernel", 2), f = c.pick("fmt", 3); QT q = kQ[0];
  if (f == SA8) { q.zi = c.of("zi", {-128, 0, 127}); q.zo = c.of("zo", {-128, 3, 127}); q.so = c.of("so", {1, 200}); q.eo = q.so == 1 ? 7 : 14; if (!k) { q.zc = c.of("zc", {-128, 0, 127}); q.sc = c.of("sc", {1, 300}); q.ec = q.sc == 1 ? 5 : 14; } q.gate = c.flag("gate"); int w = c.of("w", {9, 1, 32767}); q.sw = w; q.ew = (int)(log2((double)w) + 6.5) + c.of("wspan", {0, 2}); }
  else { q.fi = c.of("fi", {0, 5, 11, 15}); q.fwi = c.of("fwi", {3, 7, 15}); q.fwo = c.of("fwo", {0, 6, 15}); q.fb = c.of("fb", {0, 7, 15}); q.fo = c.of("fo", {3, 9, 15}); if (!k) q.fc = c.of("fc", {0, 8, 15}); if (f == FX168 && (q.fwi > 7 || q.fwo > 7)) return; }
  auto a = pickAct(c, k); int amp = c.of("amp", {1, 2});
  if (!cs.begin()) return;
  Net n = make(k, f, 3, 2, 1, q, amp, 9); n.act = a; history(cs, n, {3, 4}, 1, false);
}
static void large(Case &cs) {
  static const int S[6][3] = {{300, 3, 3}, {2, 270, 2}, {3, 2, 300}, {70, 70, 3}, {20000, 2, 2}, {1, 600, 1}};
  auto &c = cs.ch; int k = c.pick("kernel", 2), f = c.pick("fmt", 3), s = c.pick("size", 6), q = c.pick("quant", 2);
  if (!cs.begin()) return;
  Net n = make(k, f, S[s][0], S[s][1], s & 1, kQ[q], 1, s); std::vector<int> sy; int T = S[s][2];
  if (T < 5) { for (int t = 0; t < T; t++) sy.push_back(3 + t); history(cs, n, sy, 1, false); return; }
  // long sequence: one call against T single-step calls
  Ten in = n.frames(T); for (int t = 0; t < T; t++) fillFrame(n, in, t, 3 + t); std::vector<i64> h(n.M, 0), h0 = h; Ten a = n.vec(true), b = n.vec(true); for (int i = 0; i < n.M; i++) { a.set(i, 1); b.set(i, 1); }
  auto rows = call(cs, n, in, h0, k ? nullptr : &a, false, true, false);
  for (int t = 0; t < T; t++) { Ten x = n.frames(1); for (int i = 0; i < n.N; i++) x.put(in.at(t, i), 0, i); h = call(cs, n, x, h, k ? nullptr : &b, t & 1, t & 2, false)[0]; if (h != rows[t]) cs.fail("split", "%s_%s: step %d of %d differs from single-step calls", kC[k], kN[f], t, T); }
  for (int i = 0; i < n.M && !k; i++) if (a.get(i) != b.get(i)) cs.fail("split", "%s: cell state differs after %d steps", kC[k], T);
  cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"histories", histories}, {"sizes", sizes}, {"quant", quant}, {"large", large}}); }
