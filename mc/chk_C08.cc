// C08: ReLU, leaky ReLU and parametric ReLU.
#include "ref.h"
using namespace mc;
static const mli_element_type kT[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8};
static const char *kN[3] = {"fx16", "fx8", "sa8"};
typedef mli_status (*ReluFn)(const mli_tensor *, const mli_relu_cfg *, mli_tensor *);
typedef mli_status (*LeakyFn)(const mli_tensor *, const mli_tensor *, mli_tensor *);
typedef mli_status (*PreluFn)(const mli_tensor *, const mli_tensor *, const mli_prelu_cfg *, mli_tensor *);
static const ReluFn kRelu[3] = {mli_krn_relu_fx16, mli_krn_relu_fx8, mli_krn_relu_sa8};
static const LeakyFn kLeaky[3] = {mli_krn_leaky_relu_fx16, mli_krn_leaky_relu_fx8, mli_krn_leaky_relu_sa8};
static const PreluFn kPrelu[3] = {mli_krn_prelu_fx16, mli_krn_prelu_fx8, mli_krn_prelu_sa8};
static const int kMode[4] = {MLI_RELU_GEN, MLI_RELU_1, MLI_RELU_6, MLI_RELU_NONE};

// ---- reference ---------------------------------------------------------------------------------------------------
struct Q { int fi, fs; int zi, si, ei, za, sa, ea, zo, so, eo; };
struct Id { i64 m; int s; };
static Id ident(const Q &q) {
  Rq r = requant(q.si, q.ei, 0, q.so, q.eo, 0); Id d{r.scale, r.shift};
  if (d.s < 0) { d.m = shr(d.m, d.s, 16); d.s = 0; }
  return d;
}
static Id neg(const Q &q, const Id &id, i64 alpha) {
  i64 av = (alpha - q.za) * q.sa; int n = norm(av, 32); i64 a16 = satn(shr(av, 16 - n, 32), 16);
  i64 m = id.m * a16; int k = norm(m, 32);
  return {satn(shr(m, 16 - k, 32), 16), id.s + q.ea - (16 - n) - (16 - k)};
}
static i64 slope(int f, const Q &q, const Id &id, i64 x, i64 alpha) {
  if (f < 2) { int b = f == 0 ? 16 : 8; return x >= 0 ? x : satn(shr(x * alpha, std::min(q.fs, 31), 32), b); }
  Id d = x >= q.zi ? id : neg(q, id, alpha);
  return satn(satn((i128)shr(d.m * (x - q.zi), d.s, 32) + q.zo, 32), 8);
}
static void sane(Case &cs, int f, const Q &q, i64 x, i64 a, i64 e) {
  double r, tol; int b = f == 0 ? 16 : 8; double hi = pow(2, b - 1) - 1;
  if (f < 2) { r = x >= 0 ? x : (double)x * a * pow(2, -q.fs); tol = 0.5001; }
  else {
    double ratio = (double)q.si / q.so * pow(2, q.eo - q.ei); if (ratio > 16000) return;
    double v = (x - q.zi) * ratio; if (x < q.zi) v *= (double)(a - q.za) * q.sa * pow(2, -q.ea); r = v + q.zo; tol = 0.51 + fabs(v) * 2.5e-4;
    if (fabs(v) > 1e5) return;
  }
  r = std::max(-hi - 1, std::min(hi, r));
  if (fabs(r - e) > tol) cs.fail("model", "reference %s: x=%d slope=%d -> %d, real %.4f", kN[f], (int)x, (int)a, (int)e, r);
}
static void setq(Ten &t, int f, int fr, int z, int s, int e) { if (f < 2) t.fx(fr); else t.sa(z, s, e); }
static Ten scalarTen(int f, int kind, i64 v) {       // kind 0: rank 0 value in the descriptor, 1..4: one element of that rank
  if (kind == 0) { Ten t; t.t.el_type = kT[f]; t.t.rank = 0; t.t.data.mem.i32 = 0x5a5a5a5a; if (f == 0) t.t.data.mem.i16 = v; else t.t.data.mem.i8 = v; return t; }
  Ten t(kT[f], std::vector<int>(kind, 1)); t.set(0, v); return t;
}
static void paramsKept(Case &cs, const Ten &before, const Ten &after, const char *what) {
  if (memcmp(&before.t, &after.t, offsetof(mli_tensor, data)) || before.t.rank != after.t.rank || memcmp(before.t.shape, after.t.shape, sizeof before.t.shape) || memcmp(before.t.mem_stride, after.t.mem_stride, sizeof before.t.mem_stride) || before.t.el_type != after.t.el_type)
    cs.fail("descriptor", "%s: output descriptor changed", what);
}

// one call of a layer on given tensors, compared element by element.
// op 0..3 relu modes, 4 leaky, 5 prelu (axis), slopeForm 0 = rank-1 slope, 1 = same-rank slope with unit dimensions
static void runOne(Case &cs, int op, int f, const Q &q, Ten &in, Ten &out, Ten &sl, int axis, const char *how, bool sanity) {
  setq(in, f, q.fi, q.zi, q.si, q.ei);
  setq(out, f, op < 4 ? 3 : q.fi, op < 4 ? 5 : q.zo, op < 4 ? 99 : q.so, op < 4 ? 2 : q.eo);
  Ten before = out; mli_status st;
  if (op < 4) { mli_relu_cfg c; c.type = (mli_relu_type)kMode[op]; st = kRelu[f](&in.t, &c, &out.t); }
  else if (op == 4) st = kLeaky[f](&in.t, &sl.t, &out.t);
  else { mli_prelu_cfg c; c.axis = axis; st = kPrelu[f](&in.t, &sl.t, &c, &out.t); }
  cs.call();
  if (st != MLI_STATUS_OK) cs.fail("status", "%s %s: status %d", kN[f], how, st);
  paramsKept(cs, before, out, how);
  if (op < 4) {
    if (f < 2 ? out.frac() != in.frac() : out.zp() != in.zp() || out.scale() != in.scale() || out.fb() != in.fb() || out.t.el_params.sa.dim != in.t.el_params.sa.dim)
      cs.fail("params", "relu %s %s: output quantisation differs from the input's", kN[f], how);
  } else if (f < 2 ? out.frac() != q.fi : out.zp() != q.zo || out.scale() != q.so || out.fb() != q.eo) cs.fail("params", "%s %s: output quantisation changed", kN[f], how);
  Lim L{}; if (op < 4) L = relu_limits(kMode[op], in);
  Id id{}; if (f == 2) id = ident(q);
  size_t n = in.count(); i64 s0 = op < 4 ? 0 : sl.t.rank ? sl.get(0) : f == 0 ? sl.t.data.mem.i16 : sl.t.data.mem.i8;
  size_t post = 1; if (op == 5 && axis >= 0) for (int d = axis + 1; d < in.rank(); d++) post *= in.dim(d);
  for (size_t i = 0; i < n; i++) {
    i64 x = in.get(i), a = s0, e;
    if (op == 5 && axis >= 0) a = sl.get(i / post % in.dim(axis));
    e = op < 4 ? clampi(x, L.lo, L.hi) : slope(f, q, id, x, a);
    if (out.get(i) != e) cs.fail(op < 4 ? "relu" : op == 4 ? "leaky" : "prelu", "%s %s (%s): element %zu of %zu: in %" PRId64 " slope %" PRId64 " -> %" PRId64 ", expected %" PRId64, op < 4 ? "relu" : op == 4 ? "leaky_relu" : "prelu", kN[f], how, i, n, x, a, out.get(i), e);
    if (sanity && op >= 4) sane(cs, f, q, x, a, e);
  }
  cs.out(out.hash());
}
static const Q kQ = {4, 5, 5, 77, 9, -11, 91, 11, -7, 83, 9};
static const std::vector<std::vector<int>> kShapes = {{1}, {2}, {9}, {1, 1}, {2, 3}, {3, 1}, {1, 4}, {5, 9}, {2, 2, 3}, {1, 3, 2}, {3, 2, 1}, {4, 1, 5}, {2, 3, 2, 4}, {1, 2, 1, 3}, {3, 1, 2, 1}, {2, 2, 2, 2}, {1, 1, 1, 1}};
static void shapes(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 3), s = c.pick("shape", kShapes.size()); auto &sh = kShapes[s]; int R = sh.size();
  int op = c.pick("op", 6), form = 0, axis = -1; if (op == 4) form = c.pick("slope_rank", 5); if (op == 5) { axis = c.range("axis", -3, R - 1); form = c.pick("form", axis < 0 ? 5 : 2); }
  int pi = c.pick("padin", 1 << (R - 1)), po = c.pick("padout", 1 << (R - 1)), ps = (op == 5 && axis >= 0 && form == 1) ? c.pick("padslope", 2) : 0;
  if (!cs.begin()) return;
  auto pads = [&](int p, int base) { std::vector<int> v(R, 0); for (int d = 0; d < R - 1; d++) if (p >> d & 1) v[d] = base + d; return v; };
  Ten in(kT[f], sh, pads(pi, 1)), out(kT[f], sh, pads(po, 2)), sl; fill(in, P_RND, s + 3);
  if (op == 4 || (op == 5 && axis < 0)) sl = scalarTen(f, form, f == 0 ? -1234 : 45);
  else if (op == 5) {
    if (form == 0) { sl = Ten(kT[f], {sh[axis]}); for (int d = 1; d < 4; d++) { sl.t.shape[d] = 0; sl.t.mem_stride[d] = 0; } }
    else { std::vector<int> ss(R, 1); ss[axis] = sh[axis]; sl = Ten(kT[f], ss); if (ps) for (int d = 0; d < R - 1; d++) if (d != axis) sl.t.mem_stride[d] += 5; }
    fill(sl, P_RND, s + 91);
  }
  if (op >= 4) setq(sl, f, kQ.fs, kQ.za, kQ.sa, kQ.ea);
  char how[120]; snprintf(how, sizeof how, "rank %d, op %d, axis %d, slope form %d, strides %d/%d", R, op, axis, form, pi, po);
  runOne(cs, op, f, kQ, in, out, sl, axis, how, true); cs.trace();
}
// all values against all limits
static void reluValues(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 3), op = c.pick("op", 4); Q q = kQ;
  if (f < 2) q.fi = c.pick("frac", f == 0 ? 16 : 8);
  else { q.zi = thorough() ? c.range("zp", -128, 127) : c.of("zp", {-128, -127, -100, -64, -33, -8, -2, -1, 0, 1, 2, 3, 5, 17, 31, 63, 64, 90, 121, 122, 123, 126, 127}); q.si = c.of("scale", {1, 2, 3, 77, 127, 128, 255, 16384, 21845, 32767}); q.ei = c.of("fb", {-5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 18, 20, 22, 24, 30}); }
  if (!cs.begin()) return;
  int n = f == 0 ? 65536 : 256; Ten in(kT[f], {n}), out(kT[f], {n}), sl; for (int i = 0; i < n; i++) in.set(i, i - n / 2);
  runOne(cs, op, f, q, in, out, sl, -1, "all values", true);
  // real interval: every result lies in it, and values inside are untouched
  setq(in, f, q.fi, q.zi, q.si, q.ei); double sc = f < 2 ? pow(2, -q.fi) : q.si * pow(2, -q.ei); int z = f < 2 ? 0 : q.zi; double lo = op == 1 ? -1 : 0, hi = op == 1 ? 1 : op == 2 ? 6 : 1e30;
  for (int i = 0; i < n; i++) {
    double x = (in.get(i) - z) * sc, y = (out.get(i) - z) * sc;
    bool in_ok = op == 3 || (x >= lo && x <= hi);
    if (in_ok ? y != x : (y < lo - 1e-9 || y > hi + 1e-9)) {
      if (!in_ok && y >= lo - sc && y <= hi + sc && (op == 3)) continue;
      cs.fail("interval", "relu %s mode %d scale %g zp %d: %g -> %g outside [%g,%g]", kN[f], op, sc, z, x, y, lo, hi);
    }
  }
  cs.trace();
}
static std::vector<i64> slopes16() { return {-32768, -32767, -20000, -16385, -16384, -4096, -257, -256, -100, -17, -3, -2, -1, 0, 1, 2, 3, 5, 99, 128, 1000, 4095, 8192, 16383, 16384, 21845, 32766, 32767}; }
// every (value, slope) pair, leaky and prelu with the slope along either axis
static void pairsFx(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 2); Q q = kQ; q.fs = c.pick("slope_frac", f == 0 ? 16 : 8); q.fi = c.of("frac", {0, 7}); int way = c.pick("way", 3);
  auto s16 = slopes16(); int k = (way == 2) ? c.pick("slope", f == 0 ? (int)s16.size() : 256) : 0;
  if (!cs.begin()) return;
  if (way == 2) {
    i64 a = f == 0 ? s16[k] : k - 128; int n = f == 0 ? 65536 : 256; Ten in(kT[f], {n}), out(kT[f], {n}); for (int i = 0; i < n; i++) in.set(i, i - n / 2);
    Ten sl = scalarTen(f, 0, a); sl.fx(q.fs); runOne(cs, 4, f, q, in, out, sl, -1, "all values", true); cs.trace(); return;
  }
  int ns = f == 0 ? s16.size() : 256, nv = f == 0 ? (thorough() ? 65536 : 8192) : 256; std::vector<int> sh = way == 0 ? std::vector<int>{ns, nv} : std::vector<int>{nv, ns};
  Ten in(kT[f], sh), out(kT[f], sh), sl(kT[f], {ns}); for (int i = 0; i < ns; i++) sl.set(i, f == 0 ? s16[i] : i - 128);
  for (int i = 0; i < ns; i++) for (int j = 0; j < nv; j++) { i64 v = f == 0 ? (nv == 65536 ? j - 32768 : (j < 4096 ? j * 8 - 32768 + (j & 7) : j - 6144)) : j - 128; if (way == 0) in.put(v, i, j); else in.put(v, j, i); }
  sl.fx(q.fs); runOne(cs, 5, f, q, in, out, sl, way, "all pairs", true); cs.trace();
}
static void pairsSa(Case &cs) {
  auto &c = cs.ch; Q q = kQ; q.zi = c.of("zi", {5, -128, 127}); int kz = c.pick("zo_za", tier(4, 6)); static const int Z[6][2] = {{-9, 0}, {-128, 16383}, {127, -16384}, {0, 127}, {-128, -128}, {127, 11}}; q.zo = Z[kz][0]; q.za = Z[kz][1];
  int S = c.pick("scales", 5); int m = c.of("m", {0, 1, 3, 6, -1, -4, -9, 12, -14}); int em = c.of("em", {7, 12, 20, 0, -3, 27}); int way = thorough() ? c.pick("way", 2) : (S + m + em + kz) & 1;
  if (!cs.begin()) return;
  static const int T[5][3] = {{77, 91, 83}, {1, 1, 1}, {32767, 32767, 16384}, {16384, 3, 32767}, {1, 32767, 32767}};
  q.si = T[S][0]; q.sa = T[S][1]; q.so = T[S][2]; q.ei = 9; q.eo = 9 + (int)floor(log2((double)q.so / q.si) + 0.5) + m; q.ea = em;
  std::vector<int> sh = {256, 256}; Ten in(kT[2], sh), out(kT[2], sh), sl(kT[2], {256}); for (int i = 0; i < 256; i++) sl.set(i, i - 128);
  for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) { if (way == 0) in.put(j - 128, i, j); else in.put(j - 128, j, i); }
  sl.sa(q.za, q.sa, q.ea); runOne(cs, 5, 2, q, in, out, sl, way, "all pairs", m > -10); cs.trace();
}
// leaky with every slope value over all inputs must equal prelu of the same slope: also exercises the scalar path per quantisation
static void leakySa(Case &cs) {
  auto &c = cs.ch; Q q = kQ; q.zi = c.of("zi", {-128, 127, 5}); q.zo = c.of("zo", {-128, 127, -9}); q.za = c.of("za", {0, -16384, 16383}); q.ea = c.of("ea", {0, 8, 20}); q.eo = c.of("eo", {3, 9, 14}); int a = c.range("alpha", -128, 127);
  if (!cs.begin()) return;
  Ten in(kT[2], {256}), out(kT[2], {256}); for (int i = 0; i < 256; i++) in.set(i, i - 128);
  Ten sl = scalarTen(2, a & 3, a); sl.sa(q.za, q.sa, q.ea); runOne(cs, 4, 2, q, in, out, sl, -1, "all values", true); cs.trace();
}
static void big(Case &cs) {
  static const std::vector<std::vector<int>> S = {{70000}, {300, 260}, {2, 33000}, {33000, 2}, {3, 5, 300}, {257, 2, 2, 3}, {2, 3, 4, 300}, {300, 3, 3}, {2, 300, 3}, {3, 2, 300, 2}};
  auto &c = cs.ch; int f = c.pick("fmt", 3), s = c.pick("shape", S.size()); int R = S[s].size(); int op = c.pick("op", 6), axis = op == 5 ? c.range("axis", 0, R - 1) : -1, pad = R > 1 ? c.pick("pad", 4) : 0;
  if (!cs.begin()) return;
  std::vector<int> pi(R, 0), po(R, 0); int wide = S[s][0] > 1000 ? 3 : 40000; if (pad & 1) pi[0] = wide; if (pad & 2) po[R - 2] = S[s][0] > 100 ? 5 : 33000;
  Ten in(kT[f], S[s], pi), out(kT[f], S[s], po), sl; fill(in, P_RND, s);
  if (op == 4) sl = scalarTen(f, 1, -77); else if (op == 5) { sl = Ten(kT[f], {S[s][axis]}); fill(sl, P_RND, s + 5); }
  if (op >= 4) setq(sl, f, kQ.fs, kQ.za, kQ.sa, kQ.ea);
  runOne(cs, op, f, kQ, in, out, sl, axis, "large", false); cs.trace();
}
int main(int argc, char **argv) {
  return run_main(argc, argv, {{"shapes_axes_strides", shapes}, {"relu_all_values", reluValues}, {"slope_pairs_fx", pairsFx}, {"slope_pairs_sa8", pairsSa}, {"leaky_sa8", leakySa}, {"large_extents", big}});
}
