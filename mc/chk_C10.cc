// C10: softmax and L2 normalisation of slices.
#include "lutlib.h"
using namespace mc;
typedef std::vector<i64> V;
static Lut &tab(int l2) { static Lut a(mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut), b(mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut); return l2 ? b : a; }
static const mli_element_type kT[3] = {MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_FX_8};
static const char *kN[3] = {"fx16", "sa8", "fx8"}, *kF[2] = {"softmax", "l2_normalize"};
struct Q { int frac, zp, sc, fb; };
static mli_status run(int l2, int f, const mli_tensor *in, int axis, mli_tensor *out) {
  mli_softmax_cfg c; c.axis = axis; Lut &t = tab(l2);
  if (l2) return f == 0 ? mli_krn_l2_normalize_fx16(in, nullptr, &t.l, &c, out) : mli_krn_l2_normalize_sa8(in, nullptr, &t.l, &c, out);
  return f == 0 ? mli_krn_softmax_fx16(in, &t.l, &c, out) : f == 1 ? mli_krn_softmax_sa8(in, &t.l, &c, out) : mli_krn_softmax_fx8(in, &t.l, &c, out);
}
static V softmax(int f, const Q &q, const V &x) {
  Lut &t = tab(0); i64 mx = *std::max_element(x.begin(), x.end()); V e(x.size()); i64 sum = 0;
  for (size_t i = 0; i < x.size(); i++) { int fr = t.l.in_frac_bits + 8; e[i] = f == 0 ? interp(t, x[i] - mx, q.frac) : interp(t, shr((x[i] - mx) * q.sc, q.fb - fr, 32), fr); sum = satn((i128)sum + e[i], 32); }
  int n = norm(sum, 32); i64 m = satn(shr(sum, 16 - n, 32), 16), rec = std::min<i64>((1 << 29) / m, 32767);
  int sh = std::min(2 * t.l.out_frac_bits + 15 - n - (f == 0 ? 15 : 8), 31);
  for (auto &v : e) { v = shr(rec * v, sh, 32); v = f == 0 ? satn(v, 16) : satn(v - 128, 8); }
  return e;
}
static V l2norm(int f, const Q &q, const V &x) {
  Lut &t = tab(1); i64 s = 0, zp = f ? q.zp : 0; for (auto v : x) s += (v - zp) * (v - zp);
  int ns = 48 - norm(s, 64); if (ns & 1) ns++;
  i64 s16 = satn(shr(s, ns, 64), 16), v = interp(t, s16, 8); int sh = t.l.out_frac_bits + ((ns + 8) >> 1) - (f ? 7 : 15);
  V y(x.size()); for (size_t i = 0; i < x.size(); i++) y[i] = satn(shr(v * (x[i] - zp), sh, 32), f ? 8 : 16); return y;
}
static double worst[2][2];
static void slice(Case &cs, int l2, int f, const Q &q, const V &x, const V &y, const char *how) {
  V e = l2 ? l2norm(f, q, x) : softmax(f, q, x);
  for (size_t i = 0; i < x.size(); i++) if (y[i] != e[i])
    cs.fail("value", "%s_%s (%s): slice of %zu, element %zu (input %" PRId64 ") = %" PRId64 ", expected %" PRId64, kF[l2], kN[f], how, x.size(), i, x[i], y[i], e[i]);
  double sum = 0, sc = f == 0 ? pow(2, -q.frac) : q.sc * pow(2, -q.fb); i64 mx = *std::max_element(x.begin(), x.end()); i64 zp = f && l2 ? q.zp : 0;
  for (auto v : x) { double r = l2 ? (double)(v - zp) : (double)(v - mx) * sc; sum += l2 ? r * r : exp(r); }
  double os = f == 0 ? 32768 : l2 ? 128 : 256, oz = f && !l2 ? -128 : 0, hi = f == 0 ? 32767 : 127, tol = l2 ? (f ? 0.55 : 6.0) : (f ? 0.55 : 4.5);
  for (size_t i = 0; i < x.size(); i++) {
    double r = l2 ? (sum > 0 ? (x[i] - zp) / sqrt(sum) : 0) : exp((double)(x[i] - mx) * sc) / sum; 
    // the resolution of the exponent table (one 16-bit quantum per element) limits the sum of long slices
    double lim = tol + (l2 ? 0 : r * os * x.size() / 32768 / sum); r = std::min(r * os + oz, hi);
    double er = fabs(r - y[i]); if (er > worst[l2][f]) { worst[l2][f] = er; if (getenv("C10_MEASURE")) fprintf(stderr, "%s %s err %.3f  x=%d n=%zu frac %d sc %d fb %d how %s\n", kF[l2], kN[f], er, (int)x[i], x.size(), q.frac, q.sc, q.fb, how); }
    if (er > lim) cs.fail("accuracy", "%s_%s (%s): slice of %zu, element %zu = %" PRId64 ", true value %.3f (in output quanta)", kF[l2], kN[f], how, x.size(), i, y[i], r);
    if (l2 && (x[i] - zp) && y[i] && ((x[i] - zp) < 0) != (y[i] < 0)) cs.fail("sign", "%s_%s: sign of element %zu flipped", kF[l2], kN[f], i);
    if (!l2 && y[i] < oz) cs.fail("range", "%s_%s (%s): negative probability at %zu", kF[l2], kN[f], how, i);
  }
  std::vector<std::pair<i64, i64>> p(x.size()); for (size_t i = 0; i < x.size(); i++) p[i] = {x[i], y[i]};
  std::sort(p.begin(), p.end());
  for (size_t i = 1; i < p.size(); i++) if (p[i].second < p[i - 1].second || (p[i].first == p[i - 1].first && p[i].second != p[i - 1].second))
    cs.fail("order", "%s_%s (%s): inputs %" PRId64 " <= %" PRId64 " give outputs %" PRId64 ", %" PRId64, kF[l2], kN[f], how, p[i - 1].first, p[i].first, p[i - 1].second, p[i].second);
}
static void setq(Ten &t, int f, const Q &q) { if (f == 1) t.sa(q.zp, q.sc, q.fb); else t.fx(q.frac); }
static void params(Case &cs, int l2, int f, const Ten &out, mli_status st) {
  if (st != MLI_STATUS_OK) cs.fail("status", "%s_%s: status %d", kF[l2], kN[f], st);
  if (f == 1 ? (out.zp() != (l2 ? 0 : -128) || out.t.el_params.sa.dim >= 0 || out.scale() != 1 || out.fb() != (l2 ? 7 : 8) || out.t.el_params.sa.type != MLI_EL_PARAM_SC16_ZP16) : out.frac() != (f ? 7 : 15))
    cs.fail("params", "%s_%s: wrong output quantisation", kF[l2], kN[f]);
}
static void whole(Case &cs, int l2, int f, const Q &q, const V &x, const char *how) {
  int n = x.size(); Ten in(kT[f], {n}), out(kT[f], {n}); for (int i = 0; i < n; i++) in.set(i, x[i]);
  setq(in, f, q); setq(out, f, Q{4, 5, 6, 7}); mli_status st = run(l2, f, &in.t, -1, &out.t); cs.call(); params(cs, l2, f, out, st);
  V y(n); for (int i = 0; i < n; i++) y[i] = out.get(i);
  slice(cs, l2, f, q, x, y, how); cs.out(out.hash()); cs.trace();
}
static Q pickq(Chooser &c, int l2, int f) {
  Q q{}; if (f == 0) { q.frac = l2 ? 9 : c.pick("frac", 16); return q; }
  q.zp = c.of("zp", {-128, -1, 0, 3, 77, 127});
  if (l2) { q.sc = 1; q.fb = 4; } else { q.sc = c.of("scale", {1, 3, 128, 255, 16384, 32767}); q.fb = c.of("fb", {0, 3, 5, 7, 9, 11, 13, 15, 17, 20, 23, 26}); }
  return q;
}
static void tuples(Case &cs) {
  auto &c = cs.ch; int l2 = c.pick("kernel", 2), f = c.pick("fmt", 2), n = c.range("len", 1, l2 ? 4 : f ? 2 : 3); Q q = pickq(c, l2, f);
  static const std::vector<int> A16 = {-32768, -32767, -20000, -1000, -129, -3, -1, 0, 1, 2, 31, 500, 4096, 16383, 23170, 32767}, A8 = {-128, -127, -90, -33, -2, -1, 0, 1, 3, 17, 64, 126, 127};
  V x(n); for (int i = 0; i < n; i++) x[i] = f ? c.of("x", A8) : c.of("x", A16);
  if (!cs.begin()) return;
  whole(cs, l2, f, q, x, "tuples");
}
// every distance between two elements (softmax) / every value beside a fixed partner (L2)
static void pairs(Case &cs) {
  auto &c = cs.ch; int l2 = c.pick("kernel", 2), f = c.pick("fmt", 2); Q q = pickq(c, l2, f); int partner = f ? c.of("y", {-128, -1, 0, 64, 127}) : c.of("y", {-32768, -1, 0, 1, 181, 20000, 32767});
  int lo = f ? -128 : -32768, hi = f ? 127 : 32767, chunk = c.pick("chunk", f ? 1 : 8), step = f ? 1 : thorough() ? 3 : 37;
  if (!cs.begin()) return;
  int n = (hi - lo + 1) / (f ? 1 : 8); for (int v = lo + chunk * n; v < lo + (chunk + 1) * n; v += step) whole(cs, l2, f, q, V{v, partner}, "pairs");
}
// magnitude classes: slice lengths x patterns x amplitude
static void magnitudes(Case &cs) {
  auto &c = cs.ch; int l2 = c.pick("kernel", 2), f = c.pick("fmt", 2); Q q = pickq(c, l2, f);
  int n = c.of("len", {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 256, 257, 1000, 4095, 4097, 32767, 32769, 65535, 65537, 70000}), pat = c.pick("pat", 10);
  if (!l2 && n > 300 && pat > 3) return;
  if (!cs.begin()) return;
  V x(n); int bits = f ? 8 : 16; i64 lim = 1 << (bits - 1);
  for (int i = 0; i < n; i++) switch (pat) {
    case 0: x[i] = patval(P_RND, n, i, bits); break; case 1: x[i] = lim - 1; break; case 2: x[i] = -lim; break; case 3: x[i] = i == n / 2 ? lim - 1 : -lim; break; case 4: x[i] = i == n - 1 ? 5 : 4; break;
    case 5: x[i] = patval(P_SMALL, n, i, bits); break; case 6: x[i] = i == 0 ? 1 : 0; break; case 7: x[i] = f ? q.zp : 0; break; case 8: x[i] = patval(P_ALT, 0, i, bits); break; case 9: x[i] = patval(P_RAMP, 1, i, bits); break; }
  whole(cs, l2, f, q, x, "magnitudes");
}
static void layouts(Case &cs) {
  static const std::vector<std::vector<int>> S = {{1}, {2}, {9}, {1, 1}, {2, 3}, {3, 1}, {1, 4}, {5, 9}, {2, 2, 3}, {1, 3, 2}, {3, 2, 1}, {4, 1, 5}, {2, 1, 1}, {2, 3, 2, 4}, {1, 2, 1, 3}, {3, 1, 2, 1}, {2, 2, 2, 2}, {1, 1, 3, 1}, {2, 3, 4, 5}, {3, 5, 300}, {300, 2, 3}, {257, 2, 2, 3}, {2, 300, 3}};
  auto &c = cs.ch; int l2 = c.pick("kernel", 2), f = c.pick("fmt", l2 ? 2 : 3), s = c.pick("shape", S.size()); int R = S[s].size(), axis = c.range("axis", -2, R - 1); int pi = c.pick("padin", 1 << (R - 1)), po = c.pick("padout", 1 << (R - 1)), amp = c.pick("amp", 2), inpl = c.flag("inplace");
  if (inpl && pi != po) return;
  if (!cs.begin()) return;
  auto pads = [&](int p, int base) { std::vector<int> v(R, 0); for (int d = 0; d < R - 1; d++) if (p >> d & 1) v[d] = base + d; return v; };
  Q q{11, -9, 33, 9}; Ten in(kT[f], S[s], pads(pi, 2)), out(kT[f], S[s], pads(po, inpl ? 2 : 3)); fill(in, P_RND, s, amp ? (f ? 60 : 4000) : 0);
  setq(in, f, q); setq(out, f, Q{1, 2, 3, 4}); Ten orig = in; mli_status st;
  if (inpl) { out = in; st = run(l2, f, &out.t, axis, &out.t); } else st = run(l2, f, &in.t, axis, &out.t);
  cs.call(); params(cs, l2, f, out, st); char how[100]; snprintf(how, sizeof how, "rank %d axis %d strides %d/%d%s", R, axis, pi, po, inpl ? " in place" : "");
  i64 w; if (!out.gapsIntact(&w)) cs.fail("gap", "%s_%s (%s): byte %" PRId64 " outside the tensor was written", kF[l2], kN[f], how, w);
  if (!inpl && in.mem != orig.mem) cs.fail("input", "%s_%s (%s): input modified", kF[l2], kN[f], how);
  int n = orig.count(), inner = 1, len = n; if (axis >= 0) { len = S[s][axis]; for (int d = axis + 1; d < R; d++) inner *= S[s][d]; }
  for (int o = 0; o < n / len; o++) {
    V x, y; for (int k = 0; k < len; k++) { size_t i = axis < 0 ? k : (size_t)(o / inner) * len * inner + (size_t)k * inner + o % inner; x.push_back(orig.get(i)); y.push_back(out.get(i)); }
    if (f < 2) { slice(cs, l2, f, q, x, y, how); continue; }
    Ten a(kT[f], {len}), b(kT[f], {len}); for (int k = 0; k < len; k++) a.set(k, x[k]); setq(a, f, q); setq(b, f, q); run(l2, f, &a.t, 0, &b.t); cs.call();
    for (int k = 0; k < len; k++) if (b.get(k) != y[k]) cs.fail("slice", "%s_%s (%s): slice %d differs from the slice alone", kF[l2], kN[f], how, o);
  }
  cs.out(out.hash()); cs.trace();
}
static void tables(Case &cs) {
  auto &c = cs.ch; int l2 = c.pick("kernel", 2), extra = c.of("extra", {0, 4, 64});
  if (!cs.begin()) return;
  LutSize z = l2 ? mli_krn_l2_normalize_get_lut_size : mli_krn_softmax_get_lut_size; LutCreate k = l2 ? mli_krn_l2_normalize_create_lut : mli_krn_softmax_create_lut;
  Lut t(z, k, extra), u(z, k, extra); cs.call(4); ssize_t w;
  if (t.st != MLI_STATUS_OK) cs.fail("status", "%s_create_lut: status %d", kF[l2], t.st);
  if (t.cap <= 0 || t.l.length <= 1 || (i64)t.l.length * 2 > t.cap) cs.fail("size", "%s: %d entries in a table of %d bytes", kF[l2], (int)t.l.length, t.cap);
  if (!t.guardsIntact(&w)) cs.fail("overrun", "%s_create_lut wrote outside the reported size (offset %zd)", kF[l2], w);
  if (memcmp(t.base(), u.base(), t.cap)) cs.fail("repeat", "%s: two created tables differ", kF[l2]);
  for (int i = 0; i < (int)t.l.length; i++) {
    double x = (i - (double)t.l.input_offset) * pow(2, -t.l.in_frac_bits), r = (l2 ? 1 / sqrt(x) : exp(x)) * pow(2, t.l.out_frac_bits);
    if ((l2 || x <= 0) && fabs(std::min(r, 32767.) - t.d(i)) > 2.1) cs.fail("table", "%s table[%d] = %d, true value %.2f", kF[l2], i, (int)t.d(i), r);
  }
  cs.out(mixb(0, t.base(), t.cap)); cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"tables", tables}, {"tuples", tuples}, {"pairs", pairs}, {"magnitudes", magnitudes}, {"layouts", layouts}}); }
