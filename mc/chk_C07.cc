// C07: element-wise add, sub, mul, max, min with scalar broadcasting.
#include "ref.h"
using namespace mc;
enum { ADD, SUB, MUL, MAXO, MINO };
typedef mli_status (*EltFn)(const mli_tensor *, const mli_tensor *, mli_tensor *);
#define ROW(o) {mli_krn_eltwise_##o##_fx16, mli_krn_eltwise_##o##_fx8, mli_krn_eltwise_##o##_sa8}
static const EltFn kFn[5][3] = {ROW(add), ROW(sub), ROW(mul), ROW(max), ROW(min)};
static const char *kOp[5] = {"add", "sub", "mul", "max", "min"};
static const char *kN[3] = {"fx16", "fx8", "sa8"};
static const mli_element_type kT[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8};
struct Q { int f1, f2, fo; int z1, s1, e1, z2, s2, e2, zo, so, eo; };

// multiplier/shift of one operand: scale ratio normalised to 16 bits
struct Ms { i64 m; int s; };
static Ms ratio(i64 num, int nfb, int den, int dfb, int hi) {
  int n1 = norm(num, 32); i64 q = (num << n1) / den; int n2 = norm(q, 32);
  Ms r; r.m = satn(shr(q, 16 - n2, 32), 16); r.s = nfb - dfb + n1 - (16 - n2);
  int k = 0; if (r.s > hi) k = r.s - hi; if (r.s < -31) k += r.s + 31;
  r.m = shr(r.m, k, 16); r.s -= k; return r;
}
struct Par { Ms a, b; int post; };
static Par prep(int op, int f, const Q &q) {
  Par p{}; if (f < 2) {
    int bits = f == 0 ? 16 : 8, lim = (op == MAXO || op == MINO) ? bits - 1 : 2 * bits - 1;
    p.post = op == MUL ? q.f1 + q.f2 - q.fo : op == MAXO || op == MINO ? q.f1 - q.fo : std::max(q.f1, q.f2) - q.fo; p.post = std::min(p.post, lim); return p;
  }
  if (op == MUL) p.a = ratio((i64)q.s1 * q.s2, q.e1 + q.e2, q.so, q.eo, 31);
  else { p.a = ratio(q.s1, q.e1, q.so, q.eo, 23); p.b = op == MAXO || op == MINO ? p.a : ratio(q.s2, q.e2, q.so, q.eo, 23); }
  return p;
}
static i64 elt(int op, int f, const Q &q, const Par &p, i64 x, i64 y) {
  if (f < 2) {
    int bits = f == 0 ? 16 : 8, m = std::max(q.f1, q.f2); i64 a;
    switch (op) {
      case ADD: case SUB: { i64 u = x * ((i64)1 << (m - q.f1)), v = y * ((i64)1 << (m - q.f2)); a = op == ADD ? u + v : u - v; return satn(shr(a, p.post, 64), bits); }
      case MUL: return satn(shr(x * y, p.post, 64), bits);
      default: a = op == MAXO ? std::max(x, y) : std::min(x, y); return shr(a, p.post, bits);
    }
  }
  i64 u = x - q.z1, v = y - q.z2, o;
  if (op == MUL) {
    int pre = (int)clampi(p.a.s - 21, 0, 3);
    o = satn(shr(u * v, pre, 32), 16) * p.a.m; o = satn(shr(o, p.a.s - pre, 32), 16);
  } else if (op == ADD || op == SUB) {
    i64 a = shr(u * p.a.m, p.a.s, 32), b = shr(v * p.b.m, p.b.s, 32); o = satn(op == ADD ? (i128)a + b : (i128)a - b, 16);
  } else { i64 a = u * p.a.m, b = v * p.a.m; o = satn(shr(op == MAXO ? std::max(a, b) : std::min(a, b), p.a.s, 32), 16); }
  return satn(satn((i128)o + q.zo, 16), 8);
}
// real-number sanity bound of the model itself
static void sane(Case &cs, int op, int f, const Q &q, i64 x, i64 y, i64 e) {
  double a, b, so, zo; int bits = f == 0 ? 16 : 8;
  if (f < 2) { a = x * pow(2, -q.f1); b = y * pow(2, -q.f2); so = pow(2, -q.fo); zo = 0; }
  else { a = (x - q.z1) * (double)q.s1 * pow(2, -q.e1); b = (y - q.z2) * (double)q.s2 * pow(2, -q.e2); so = q.so * pow(2, -q.eo); zo = q.zo; }
  double r = (op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : op == MAXO ? std::max(a, b) : std::min(a, b)) / so + zo, lo = -pow(2, bits - 1), hi = -lo - 1;
  double mag = (op == MUL ? fabs(a * b) : fabs(a) + fabs(b)) / so; r = r < lo ? lo : r > hi ? hi : r;
  double tol = f == 2 ? 1.01 + (op == ADD || op == SUB ? mag * 2e-4 : std::min(mag, 512.) * 2e-4) : (op == MAXO || op == MINO) ? 1.0 : 0.5001;
  if (fabs(e - r) > tol) cs.fail("model", "reference %s %s(%d,%d) = %d, real %.4f", kOp[op], kN[f], (int)x, (int)y, (int)e, r);
}
static void setq(Ten &t, int f, int fr, int z, int s, int e) { if (f < 2) t.fx(fr); else t.sa(z, s, e); }
static void cmp(Case &cs, int op, int f, const Q &q, const Ten &a, bool sa, const Ten &b, bool sb, const Ten &o, mli_status st, const char *how, bool sanity = true) {
  if (st != MLI_STATUS_OK) cs.fail("status", "%s_%s (%s): status %d", kOp[op], kN[f], how, st);
  Par p = prep(op, f, q);
  i64 x0 = sa ? (a.t.rank ? a.get(0) : f == 0 ? a.t.data.mem.i16 : a.t.data.mem.i8) : 0, y0 = sb ? (b.t.rank ? b.get(0) : f == 0 ? b.t.data.mem.i16 : b.t.data.mem.i8) : 0;
  size_t n = o.count();
  for (size_t i = 0; i < n; i++) {
    i64 x = sa ? x0 : a.get(i), y = sb ? y0 : b.get(i), e = elt(op, f, q, p, x, y);
    if (o.get(i) != e) cs.fail(kOp[op], "%s_%s (%s): element %zu of %zu: op(%" PRId64 ", %" PRId64 ") = %" PRId64 ", expected %" PRId64, kOp[op], kN[f], how, i, n, x, y, o.get(i), e);
    if (sanity) sane(cs, op, f, q, x, y, e);
  }
}
static const Q kQ = {5, 3, 2, 5, 77, 9, -7, 91, 10, 3, 83, 8};
static Q forOp(int op, Q q) { if (op == MAXO || op == MINO) { q.f2 = q.f1; q.z2 = q.z1; q.s2 = q.s1; q.e2 = q.e1; } return q; }
// all operand pairs of the 8-bit formats / boundary pairs of fx16
static std::vector<i64> vals16(bool big) {
  std::vector<i64> v; for (i64 b : {0, 1, 2, 3, 7, 127, 128, 255, 256, 1000, 4095, 8192, 16383, 16384, 21845, 32766, 32767}) { v.push_back(b); v.push_back(-b - 1); }
  if (big) for (int i = 0; i < 94; i++) v.push_back((i64)(h32(i + 5) & 0xffff) - 32768); return v;
}
static void pairs(Case &cs, int op, int f, const Q &q, bool full, bool sanity) {
  std::vector<i64> v; if (f == 0) v = vals16(full); else if (full) for (int i = -128; i < 128; i++) v.push_back(i); else v = {-128, -127, -100, -65, -64, -33, -8, -3, -2, -1, 0, 1, 2, 3, 5, 17, 31, 63, 64, 90, 126, 127};
  int n = v.size(); Ten a(kT[f], {n, n}), b(kT[f], {n, n}), o(kT[f], {n, n});
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { a.put(v[i], i, j); b.put(v[j], i, j); }
  setq(a, f, q.f1, q.z1, q.s1, q.e1); setq(b, f, q.f2, q.z2, q.s2, q.e2); setq(o, f, q.fo, q.zo, q.so, q.eo);
  mli_status st = kFn[op][f](&a.t, &b.t, &o.t); cs.call();
  cmp(cs, op, f, q, a, false, b, false, o, st, "pairs", sanity); cs.out(o.hash()); cs.trace();
}
static void allPairsFx(Case &cs) {
  auto &c = cs.ch; int op = c.pick("op", 5), f = c.pick("fmt", 2); Q q = kQ; int mx = f == 0 ? 15 : 7;
  q.f1 = c.of("f1", {0, 1, 3, mx / 2, mx - 1, mx}); q.f2 = op >= MAXO ? q.f1 : c.of("f2", {0, 1, 3, mx / 2, mx - 1, mx}); q.fo = c.of("fo", {0, 1, 3, mx / 2, mx - 1, mx});
  if (!cs.begin()) return;
  pairs(cs, op, f, q, true, true);
}
static void allPairsSa(Case &cs) {
  auto &c = cs.ch; int op = c.pick("op", 5); Q q = kQ;
  q.z1 = c.of("z1", {0, -128, 127}); q.z2 = op >= MAXO ? q.z1 : c.of("z2", {0, -128, 127}); q.zo = c.of("zo", {0, -128, 127, 11});
  int m = c.of("m", {0, 2, 5, -2}); int k = c.pick("scales", tier(2, 4));
  static const int S[4][3] = {{77, 91, 101}, {16384, 32767, 16385}, {1, 1, 1}, {32767, 5, 129}};
  if (!cs.begin()) return;
  q.s1 = S[k][0]; q.s2 = S[k][1]; q.so = S[k][2]; q.e1 = 9; q.e2 = 10;
  double l = op == MUL ? log2((double)q.s1 * q.s2) - 19 + 7 : log2((double)q.s1) - 9; q.eo = (int)floor(log2((double)q.so) - l + 0.5) - m;
  if (op >= MAXO) { q.s2 = q.s1; q.e2 = q.e1; }
  pairs(cs, op, 2, q, true, true);
}
static void quantSa(Case &cs) {
  auto &c = cs.ch; int op = c.pick("op", 5); Q q = kQ;
  q.s1 = c.of("s1", {1, 77, 16384, 32767}); q.s2 = op >= MAXO ? q.s1 : c.of("s2", {1, 91, 20000, 32767}); q.so = c.of("so", {1, 101, 16384, 32767});
  q.e1 = c.of("e1", {10, 0, -3, 15}); q.e2 = op >= MAXO ? q.e1 : c.of("e2", {10, 1, 22}); int m = c.of("m", {0, 1, 3, 7, 12, 20, -1, -5, -12}); int z = c.pick("z", 3);
  double l = op == MUL ? log2((double)q.s1 * q.s2) - q.e1 - q.e2 + 7 : log2((double)q.s1) - q.e1; q.eo = (int)floor(log2((double)q.so) - l + 0.5) - m;
  if (q.eo < -100 || q.eo > 100) return;
  if (!cs.begin()) return;
  if (z == 0) q.z1 = q.z2 = q.zo = 0; if (z == 1) { q.z1 = -128; q.z2 = op >= MAXO ? -128 : 127; q.zo = 127; } if (op >= MAXO) q.z2 = q.z1;
  pairs(cs, op, 2, q, false, false);
}
// shapes, ranks, memory strides, scalars on either side
static void shapes(Case &cs) {
  static const std::vector<std::vector<int>> S = {{1}, {2}, {7}, {17}, {1, 1}, {2, 3}, {3, 1}, {1, 4}, {5, 9}, {2, 2, 3}, {1, 3, 2}, {3, 2, 1}, {4, 1, 5}, {2, 3, 2, 4}, {1, 1, 1, 1}, {1, 2, 1, 3}, {3, 1, 2, 1}, {2, 2, 2, 2}};
  auto &c = cs.ch; int op = c.pick("op", 5), f = c.pick("fmt", 3); int s = c.pick("shape", S.size());
  // operand role: 0 both tensors; 1..4 left scalar (rank 0, or one element of rank 1, 2, 4); 5..8 right scalar
  int role = c.pick("role", 9); int p1 = c.pick("pad1", 8), p2 = c.pick("pad2", 8), po = c.pick("pado", 8);
  auto &sh = S[s]; int R = sh.size();
  auto dup = [&](int p) { return p >> (R - 1) != 0; };   // pads only exist for the R-1 outer strides
  if (dup(p1) || dup(p2) || dup(po)) return;
  if ((role >= 1 && role <= 4 && p1) || (role >= 5 && p2)) return;
  if (!cs.begin()) return;
  auto pads = [&](int p, int base) { std::vector<int> v(R, 0); for (int d = 0; d < R - 1; d++) if (p >> d & 1) v[d] = base + d; return v; };
  Q q = forOp(op, kQ); Ten a(kT[f], sh, pads(p1, 1)), b(kT[f], sh, pads(p2, 2)), o(kT[f], sh, pads(po, 3));
  fill(a, P_RND, s); fill(b, P_RND, s + 77);
  auto scalar = [&](Ten &t, int kind, i64 v) {
    if (kind == 1) { t = Ten(); t.t.el_type = kT[f]; t.t.rank = 0; t.t.data.mem.i32 = 0x5a5a5a5a; t.t.data.capacity = 0; if (f == 0) t.t.data.mem.i16 = v; else t.t.data.mem.i8 = v; }
    else { t = Ten(kT[f], std::vector<int>(kind == 2 ? 1 : kind == 3 ? 2 : 4, 1)); t.set(0, v); }
  };
  i64 sv = f == 0 ? 1234 : 45; bool sa = false, sb = false;
  if (role >= 1 && role <= 4) { scalar(a, role, sv); sa = true; } else if (role >= 5) { scalar(b, role - 4, -sv); sb = true; }
  setq(a, f, q.f1, q.z1, q.s1, q.e1); setq(b, f, q.f2, q.z2, q.s2, q.e2); setq(o, f, q.fo, q.zo, q.so, q.eo);
  mli_status st = kFn[op][f](&a.t, &b.t, &o.t); cs.call();
  char how[100]; snprintf(how, sizeof how, "rank %d, operand role %d, strides %d/%d/%d", R, role, p1, p2, po);
  cmp(cs, op, f, q, a, sa, b, sb, o, st, how); cs.out(o.hash());
  // structural laws on the real results: swapping operands (and their quantisation)
  Ten o2 = o; o2.fillCanary();
  if (op != SUB) {
    st = kFn[op][f](&b.t, &a.t, &o2.t); cs.call();
    for (size_t i = 0; i < o.count(); i++) if (st != MLI_STATUS_OK || o2.get(i) != o.get(i)) cs.fail("swap", "%s_%s (%s): swapping the operands changes element %zu: %" PRId64 " vs %" PRId64, kOp[op], kN[f], how, i, o.get(i), o2.get(i));
  }
  cs.trace();
}
static void big(Case &cs) {
  static const std::vector<std::vector<int>> S = {{70000}, {300, 260}, {2, 33000}, {33000, 2}, {3, 5, 300}, {257, 2, 2, 3}, {2, 3, 4, 300}};
  auto &c = cs.ch; int op = c.pick("op", 5), f = c.pick("fmt", 3), s = c.pick("shape", S.size()), pad = c.pick("pad", 3), role = c.pick("role", 3);
  if (!cs.begin()) return;
  int R = S[s].size(); std::vector<int> pd(R, 0); if (R > 1) pd[0] = pad == 1 ? 3 : pad == 2 ? 40000 : 0; Q q = forOp(op, kQ);
  Ten a(kT[f], S[s], S[s].size() == 2 && pad == 2 && S[s][0] > 1000 ? std::vector<int>{5, 0} : pd), b(kT[f], S[s]), o(kT[f], S[s]);
  fill(a, P_RND, 1); fill(b, P_RND, 2); if (role == 1) { a = Ten(kT[f], {1}); a.set(0, 99); } if (role == 2) { b = Ten(kT[f], {1}); b.set(0, -99); }
  setq(a, f, q.f1, q.z1, q.s1, q.e1); setq(b, f, q.f2, q.z2, q.s2, q.e2); setq(o, f, q.fo, q.zo, q.so, q.eo);
  mli_status st = kFn[op][f](&a.t, &b.t, &o.t); cs.call();
  cmp(cs, op, f, q, a, role == 1, b, role == 2, o, st, "large", false); cs.out(o.hash()); cs.trace();
}
int main(int argc, char **argv) {
  return run_main(argc, argv, {{"shapes_scalars_strides", shapes}, {"all_pairs_fx", allPairsFx}, {"all_pairs_sa8", allPairsSa}, {"quant_sa8", quantSa}, {"large_extents", big}});
}
