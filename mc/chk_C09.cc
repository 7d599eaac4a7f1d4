// C09: sigmoid and tanh through the run-time created look-up tables.
#include "ref.h"
using namespace mc;
static const mli_element_type kT[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8};
static const char *kN[3] = {"fx16", "fx8", "sa8"}, *kF[2] = {"sigm", "tanh"};
typedef mli_status (*Fn)(const mli_tensor *, const mli_lut *, mli_tensor *);
static const Fn kFn[2][3] = {{mli_krn_sigm_fx16, mli_krn_sigm_fx8, mli_krn_sigm_sa8}, {mli_krn_tanh_fx16, mli_krn_tanh_fx8, mli_krn_tanh_sa8}};
static double truth(int fn, double x) { return fn == 0 ? 1.0 / (1.0 + exp(-x)) : tanh(x); }

struct Lut {
  mli_lut l; std::vector<uint8_t> mem; int cap; size_t pad = 32;
  explicit Lut(int fn, int extra = 0) {
    memset(&l, 0, sizeof l); cap = fn == 0 ? mli_krn_sigm_get_lut_size() : mli_krn_tanh_get_lut_size();
    mem.resize(cap + extra + 2 * pad + 4); for (size_t i = 0; i < mem.size(); i++) mem[i] = canary(i);
    l.data.mem.pi16 = (int16_t *)base(); l.data.capacity = cap + extra;
    st = fn == 0 ? mli_krn_sigm_create_lut(&l) : mli_krn_tanh_create_lut(&l);
  }
  uint8_t *base() { return (uint8_t *)(((uintptr_t)mem.data() + pad + 3) & ~(uintptr_t)3); }
  mli_status st; i64 d(i64 i) const { return l.data.mem.pi16[i]; }
};
static Lut &shared(int fn) { static Lut a(0), b(1); return fn == 0 ? a : b; }
// piecewise linear interpolation of the table at x / 2^frac
static i64 interp(const Lut &t, i64 x, int frac) {
  int sh = frac - t.l.in_frac_bits; i64 L = t.l.length, off = t.l.input_offset;
  if (sh <= 0) return t.d(clampi(satn((i128)x * ((i64)1 << -sh), 32) + off, 0, L - 1));
  i64 i = clampi((x >> sh) + off, 0, L - 2), fr = x & (((i64)1 << sh) - 1);
  return t.d(i) - shr((t.d(i) - t.d(i + 1)) * fr, sh, 32);
}
struct Q { int frac, zp, sc, fb; };
static i64 model(const Lut &t, int fn, int f, const Q &q, i64 x) {
  if (f == 0) return interp(t, x, q.frac);
  if (f == 1) return satn(shr(interp(t, x, q.frac), 8, 16), 8);
  int fr = t.l.in_frac_bits + 8; i64 r = interp(t, shr((x - q.zp) * q.sc, q.fb - fr, 32), fr); int of = fn == 0 ? 8 : 7, oz = fn == 0 ? -128 : 0;
  return satn(shr(r, t.l.out_frac_bits - of, 32) + oz, 8);
}
static void checkAll(Case &cs, int fn, int f, const Q &q, const Ten &in, const Ten &out, mli_status st, const char *how) {
  Lut &t = shared(fn);
  if (st != MLI_STATUS_OK) cs.fail("status", "%s_%s (%s): status %d", kF[fn], kN[f], how, st);
  if (f == 0 ? out.frac() != 15 : f == 1 ? out.frac() != 7 : (out.zp() != (fn ? 0 : -128) || out.t.el_params.sa.dim >= 0 || out.scale() != 1 || out.fb() != (fn ? 7 : 8) || out.t.el_params.sa.type != MLI_EL_PARAM_SC16_ZP16))
    cs.fail("params", "%s_%s (%s): wrong output quantisation", kF[fn], kN[f], how);
  double os = f == 0 ? 32768 : f == 1 ? 128 : fn ? 128 : 256; double oz = f == 2 && fn == 0 ? -128 : 0;
  double lim = f == 0 ? 32767 : 127, tol = f == 0 ? (fn ? 4.5 : 3.0) : 0.62;
  size_t n = in.count(); i64 px = 0, py = 0;
  for (size_t i = 0; i < n; i++) {
    i64 x = in.get(i), y = out.get(i), e = model(t, fn, f, q, x);
    if (y != e) cs.fail("value", "%s_%s (%s): element %zu: f(%" PRId64 ") = %" PRId64 ", expected %" PRId64, kF[fn], kN[f], how, i, x, y, e);
    double rx = f < 2 ? x * pow(2, -q.frac) : (double)(x - q.zp) * q.sc * pow(2, -q.fb), r = truth(fn, rx) * os + oz; r = std::min(r, lim);
    if (fabs(y - r) > tol) cs.fail("accuracy", "%s_%s (%s): f(%g) = %g, true value %g (in output quanta)", kF[fn], kN[f], how, rx, (double)y, r);
    double v = (y - oz) / os; if (v < (fn ? -1 : 0) || v > 1) cs.fail("range", "%s_%s (%s): f(%g) = %g leaves the function's range", kF[fn], kN[f], how, rx, v);
    // non-decreasing; at the saturated table ends fx16 may repeat the last table step (one output quantum)
    if (i && x > px && y < py - (f == 0 && fabs(rx) > 5 ? 1 : 0)) cs.fail("monotonic", "%s_%s (%s): f(%" PRId64 ") = %" PRId64 " but f(%" PRId64 ") = %" PRId64, kF[fn], kN[f], how, px, py, x, y);
    px = x; py = y;
  }
  cs.out(out.hash());
}
static void setq(Ten &t, int f, const Q &q) { if (f < 2) t.fx(q.frac); else t.sa(q.zp, q.sc, q.fb); }
static void values(Case &cs) {
  auto &c = cs.ch; int fn = c.pick("fn", 2), f = c.pick("fmt", 3); Q q{};
  if (f < 2) q.frac = c.pick("frac", f == 0 ? 16 : 8);
  else { q.zp = thorough() ? c.range("zp", -128, 127) : c.of("zp", {-128, -127, -64, -33, -2, -1, 0, 1, 5, 17, 64, 100, 126, 127}); q.sc = c.of("scale", {1, 2, 3, 7, 77, 127, 128, 255, 1000, 4097, 16384, 21845, 32767}); q.fb = c.of("fb", {-2, 0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 30, 31}); }
  if (!cs.begin()) return;
  int n = f == 0 ? 65536 : 256; Ten in(kT[f], {n}), out(kT[f], {n}); for (int i = 0; i < n; i++) in.set(i, i - n / 2);
  setq(in, f, q); setq(out, f, Q{3, 4, 5, 6});
  mli_status st = kFn[fn][f](&in.t, &shared(fn).l, &out.t); cs.call();
  checkAll(cs, fn, f, q, in, out, st, "all values"); cs.trace();
}
static void layouts(Case &cs) {
  static const std::vector<std::vector<int>> S = {{1}, {2}, {9}, {1, 1}, {2, 3}, {3, 1}, {1, 4}, {5, 9}, {2, 2, 3}, {1, 3, 2}, {3, 2, 1}, {4, 1, 5}, {2, 3, 2, 4}, {1, 2, 1, 3}, {3, 1, 2, 1}, {2, 2, 2, 2}, {70000}, {300, 260}, {2, 33000}, {33000, 2}, {3, 5, 300}, {257, 2, 2, 3}, {2, 300, 3}};
  auto &c = cs.ch; int fn = c.pick("fn", 2), f = c.pick("fmt", 3), s = c.pick("shape", S.size()); int R = S[s].size(); int pi = c.pick("padin", 1 << (R - 1)), po = c.pick("padout", 1 << (R - 1)), fr = c.pick("res", 2), inpl = c.flag("inplace");
  if (inpl && pi != po) return;
  if (!cs.begin()) return;
  auto pads = [&](int p, int base) { std::vector<int> v(R, 0); for (int d = 0; d < R - 1; d++) if (p >> d & 1) v[d] = base + d; return v; };
  Q q{fr ? (f == 0 ? 11 : 6) : 3, -9, 33, fr ? 9 : 7}; Ten in(kT[f], S[s], pads(pi, 2)), out(kT[f], S[s], pads(po, inpl ? 2 : 3)); fill(in, P_RND, s);
  // runs of equal neighbours and sorted data would hide dependence between elements; random data does not
  setq(in, f, q); setq(out, f, Q{1, 2, 3, 4}); Ten orig = in; mli_status st;
  if (inpl) { out = in; st = kFn[fn][f](&out.t, &shared(fn).l, &out.t); } else st = kFn[fn][f](&in.t, &shared(fn).l, &out.t);
  cs.call(); char how[100]; snprintf(how, sizeof how, "rank %d strides %d/%d%s", R, pi, po, inpl ? " in place" : "");
  checkAll(cs, fn, f, q, orig, out, st, how); cs.trace();
}
// table creation: size reported is sufficient, nothing beyond it is written, repeated creation is identical, the table samples the function
static void tables(Case &cs) {
  auto &c = cs.ch; int fn = c.pick("fn", 2), extra = c.of("extra", {0, 4, 64});
  if (!cs.begin()) return;
  Lut t(fn, extra), u(fn, extra); cs.call(4);
  if (t.st != MLI_STATUS_OK) cs.fail("status", "%s_create_lut: status %d", kF[fn], t.st);
  if (t.cap <= 0 || t.l.length <= 1 || (i64)t.l.length * 2 > t.cap) cs.fail("size", "%s: %d entries in a table of %d bytes", kF[fn], (int)t.l.length, t.cap);
  if (t.l.data.mem.pi16 != (int16_t *)t.base() || (int)t.l.data.capacity != t.cap + extra) cs.fail("container", "%s: create_lut changed the data container", kF[fn]);
  size_t b = t.base() - t.mem.data(); for (size_t i = 0; i < t.mem.size(); i++) if ((i < b || i >= b + t.cap) && t.mem[i] != canary(i)) cs.fail("overrun", "%s_create_lut wrote outside the reported size (offset %zd)", kF[fn], (ssize_t)i - (ssize_t)b);
  if (memcmp(t.base(), u.base(), t.cap)) cs.fail("repeat", "%s: two created tables differ", kF[fn]);
  for (int i = 0; i < (int)t.l.length; i++) { double r = truth(fn, (i - (double)t.l.input_offset) * pow(2, -t.l.in_frac_bits)) * 32768; if (fabs(r - t.d(i)) > 2.1) cs.fail("table", "%s table[%d] = %d, true value %.2f", kF[fn], i, (int)t.d(i), r); }
  cs.out(mixb(0, t.base(), t.cap)); cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"tables", tables}, {"all_values", values}, {"layouts", layouts}}); }
