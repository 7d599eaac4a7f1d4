// C11: argmax / top-k positions.
#include "ref.h"
#include <set>
using namespace mc;
static mli_status run(int f, const Ten &in, int axis, int k, Ten &out) {
  mli_argmax_cfg c; c.axis = axis; c.topk = k; return f ? mli_krn_argmax_sa8(&in.t, &c, &out.t) : mli_krn_argmax_fx16(&in.t, &c, &out.t);
}
static void setq(Ten &t, int f) { if (f) t.sa(3, 7, 4); else t.fx(5); }
static void one(Case &cs, int f, const Ten &in, int axis, int k) {
  int R = in.rank(), rows = axis < 0 ? 1 : in.dim(axis); size_t n = in.count(), per = n / rows;
  Ten out(MLI_EL_SA_32, {rows, k}); out.sa(9, 9, 9); out.t.el_params.sa.dim = 1; uint64_t h0 = mixb(0, in.mem.data(), in.mem.size());
  mli_status st = run(f, in, axis, k, out); cs.call();
  char how[80]; snprintf(how, sizeof how, "argmax_%s rank %d axis %d k %d", f ? "sa8" : "fx16", R, axis, k);
  if (st != MLI_STATUS_OK) cs.fail("status", "%s: status %d", how, st);
  if (out.t.el_params.sa.dim >= 0 || out.zp() != 0 || out.scale() != 1 || out.fb() != 0 || out.t.el_params.sa.type != MLI_EL_PARAM_SC16_ZP16) cs.fail("params", "%s: output quantisation", how);
  i64 w; if (!out.gapsIntact(&w)) cs.fail("gap", "%s: wrote outside the output at %" PRId64, how, w);
  if (h0 != mixb(0, in.mem.data(), in.mem.size())) cs.fail("input", "%s: input modified", how);
  // members of each slice: memory offset -> slice
  std::vector<int> owner(in.extent, -1); std::vector<std::vector<i64>> vals(rows); i64 inner = 1; if (axis >= 0) for (int d = axis + 1; d < R; d++) inner *= in.dim(d);
  for (size_t i = 0; i < n; i++) { int r = axis < 0 ? 0 : (i / inner) % rows; size_t o = in.lin2off(i); owner[o] = r; vals[r].push_back(in.raw(o)); }
  for (int r = 0; r < rows; r++) {
    std::sort(vals[r].begin(), vals[r].end(), std::greater<i64>()); std::set<i64> seen;
    for (int j = 0; j < k; j++) {
      i64 p = out.at(r, j); if (p < 0 || p >= (i64)in.extent || owner[p] != r) cs.fail("position", "%s: slice %d result %d is %" PRId64 ", not a position of the slice", how, r, j, p);
      if (!seen.insert(p).second) cs.fail("duplicate", "%s: slice %d returns position %" PRId64 " twice", how, r, p);
      if (in.raw(p) != vals[r][j]) cs.fail("value", "%s: slice %d result %d points to value %" PRId64 ", expected %" PRId64 " (slice of %zu)", how, r, j, in.raw(p), vals[r][j], per);
    }
  }
  cs.out(out.hash()); cs.trace();
}
static std::vector<int> padv(int R, int p) { std::vector<int> v(R, 0); for (int d = 0; d < R - 1; d++) if (p >> d & 1) v[d] = 1 + d; return v; }
static void allk(Case &cs, int f, const Ten &in, int axis) { int per = in.count() / (axis < 0 ? 1 : in.dim(axis)); for (int k = 1; k <= per; k++) one(cs, f, in, axis, k); }
static const std::vector<std::vector<int>> kS = {{1}, {2}, {3}, {5}, {7}, {8}, {2, 2}, {2, 3}, {3, 2}, {2, 4}, {4, 2}, {7, 1}, {1, 6}, {2, 2, 2}, {1, 3, 2}, {2, 1, 3}, {3, 2, 1}, {1, 2, 2, 2}, {2, 1, 2, 2}, {2, 2, 1, 2}, {2, 2, 2, 1}};
// every tensor over a three-value alphabet (ties everywhere, extremes)
static void ties(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 2), s = c.pick("shape", kS.size()), R = kS[s].size(), pad = R > 1 ? c.of("pad", {0, (1 << (R - 1)) - 1}) : 0; bool shifted = c.flag("alphabet");
  size_t n = 1; for (int d : kS[s]) n *= d;
  std::vector<int> v(n); for (auto &x : v) x = c.pick("v", 3);
  if (!cs.begin()) return;
  Ten in(f ? MLI_EL_SA_8 : MLI_EL_FX_16, kS[s], padv(R, pad)); setq(in, f); i64 lim = f ? 128 : 32768;
  for (size_t i = 0; i < n; i++) in.set(i, shifted ? v[i] - 1 : v[i] == 0 ? -lim : v[i] == 1 ? 0 : lim - 1);
  for (int axis = -1; axis < R; axis++) allk(cs, f, in, axis);
}
// every order of distinct elements
static void orders(Case &cs) {
  static const std::vector<std::vector<int>> S = {{4}, {6}, {7}, {2, 3}, {7, 1}, {1, 2, 3}, {3, 2, 1}, {2, 1, 1, 3}, {8}, {2, 2, 2}, {9}};
  auto &c = cs.ch; int f = c.pick("fmt", 2), s = c.pick("shape", tier(8, 11)), R = S[s].size(), pad = R > 1 ? c.of("pad", {0, (1 << (R - 1)) - 1}) : 0;
  int n = 1; for (int d : S[s]) n *= d;
  std::vector<int> pool, v; for (int i = 0; i < n; i++) pool.push_back(i);
  for (int i = 0; i < n; i++) { int j = c.pick("o", pool.size()); v.push_back(pool[j]); pool.erase(pool.begin() + j); }
  if (!cs.begin()) return;
  Ten in(f ? MLI_EL_SA_8 : MLI_EL_FX_16, S[s], padv(R, pad)); setq(in, f); i64 step = (f ? 255 : 65535) / std::max(1, n - 1), lim = f ? 128 : 32768;
  for (int i = 0; i < n; i++) in.set(i, v[i] * step - lim);
  for (int axis = -1; axis < R; axis++) allk(cs, f, in, axis);
}
static void shapes(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 2), R = c.range("rank", 1, 4); std::vector<int> S; for (int d = 0; d < R; d++) S.push_back(R == 1 ? c.of("dim", {1, 2, 3, 17, 40}) : R < 4 ? c.of("dim", {1, 2, 3, 5}) : c.of("dim", {1, 2, 3}));
  int pad = c.pick("pad", 1 << (R - 1)), axis = c.range("axis", -2, R - 1), pat = c.of("pat", {P_RND, P_SMALL, P_ZERO, P_RAMP});
  if (!cs.begin()) return;
  Ten in(f ? MLI_EL_SA_8 : MLI_EL_FX_16, S, padv(R, pad)); setq(in, f); fill(in, pat, R * 7 + pad);
  int per = in.count() / (axis < 0 ? 1 : S[axis]); std::set<int> K = {1, 2, 3, per / 2, per - 1, per}; for (int k : K) if (k >= 1 && k <= per) one(cs, f, in, axis, k);
}
static void large(Case &cs) {
  static const std::vector<std::vector<int>> S = {{70000}, {300, 260}, {2, 33000}, {33000, 2}, {3, 5, 300}, {257, 2, 2, 3}, {2, 300, 3}, {2, 2, 2, 300}, {40, 30, 30, 2}};
  auto &c = cs.ch; int f = c.pick("fmt", 2), s = c.pick("shape", S.size()), R = S[s].size(), pad = R > 1 ? c.of("pad", {0, (1 << (R - 1)) - 1}) : 0, axis = c.range("axis", -1, R - 1), pat = c.of("pat", {P_RND, P_SMALL, P_RAMP, P_ALT}), kk = c.pick("k", 6);
  if (!cs.begin()) return;
  Ten in(f ? MLI_EL_SA_8 : MLI_EL_FX_16, S[s], padv(R, pad)); setq(in, f); fill(in, pat, s);
  int per = in.count() / (axis < 0 ? 1 : S[s][axis]), k = std::min(per, kk == 5 ? per : std::vector<int>{1, 3, 10, 257, 1000}[kk]); one(cs, f, in, axis, k);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"ties", ties}, {"orders", orders}, {"shapes", shapes}, {"large", large}}); }
