// C12: permute.
#include "ref.h"
using namespace mc;
static const mli_element_type kT[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8};
static const char *kN[3] = {"fx16", "fx8", "sa8"};
static mli_status run(int f, const Ten &in, const std::vector<int> &p, Ten &out) {
  mli_permute_cfg c; for (int i = 0; i < 4; i++) c.perm_dim[i] = i < (int)p.size() ? p[i] : 0xEE; // entries beyond the rank are not considered
  return f == 0 ? mli_krn_permute_fx16(&in.t, &c, &out.t) : f == 1 ? mli_krn_permute_fx8(&in.t, &c, &out.t) : mli_krn_permute_sa8(&in.t, &c, &out.t);
}
static std::vector<int> pickperm(Chooser &c, int R) { std::vector<int> pool, p; for (int i = 0; i < R; i++) pool.push_back(i); while (!pool.empty()) { int j = pool.size() > 1 ? c.pick("perm", pool.size()) : 0; p.push_back(pool[j]); pool.erase(pool.begin() + j); } return p; }
static std::vector<int> padv(int R, int p, int b) { std::vector<int> v(R, 0); for (int d = 0; d < R; d++) if (p >> d & 1) v[d] = b + d; return v; }
static void body(Case &cs, int f, const std::vector<int> &S, const std::vector<int> &p, int pi, int po, int q, int init, int pat) {
  int R = S.size(); std::vector<int> So(R); for (int d = 0; d < R; d++) So[d] = S[p[d]];
  Ten in(kT[f], S, padv(R, pi, 2)), out(kT[f], So, padv(R, po, 1)), back(kT[f], S); fill(in, pat, R);
  int n = q >= 0 ? S[q] : 0; std::vector<int16_t> Z(n + 2, 1111), C(n + 2, 1111); std::vector<int8_t> B(n + 2, 111);
  if (f < 2) { in.fx(6); out.fx(1); back.fx(2); }
  else {
    if (q < 0) in.sa(-5, 77, 9); else { std::vector<int16_t> z, s; std::vector<int8_t> b; for (int i = 0; i < n; i++) { z.push_back(i * 5 % 240 - 120); s.push_back(i * 3 % 32767 + 1); b.push_back(i % 17); } in.saAxis(q, z, s, b); }
    out.sa(0, 0, 0); back.sa(0, 0, 0);
    if (q >= 0) { auto &o = out.t.el_params.sa; auto &i = in.t.el_params.sa; back.t.el_params.sa.zero_point.mem.pi16 = back.t.el_params.sa.scale.mem.pi16 = nullptr; back.t.el_params.sa.scale_frac_bits.mem.pi8 = nullptr;
      if (init == 0) { o.zero_point.mem.pi16 = nullptr; o.scale.mem.pi16 = nullptr; o.scale_frac_bits.mem.pi8 = nullptr; }
      else if (init == 1) { o.zero_point = i.zero_point; o.scale = i.scale; o.scale_frac_bits = i.scale_frac_bits; }
      else { o.zero_point.mem.pi16 = Z.data() + 1; o.zero_point.capacity = 2 * n; o.scale.mem.pi16 = C.data() + 1; o.scale.capacity = 2 * n; o.scale_frac_bits.mem.pi8 = B.data() + 1; o.scale_frac_bits.capacity = n; } }
  }
  std::vector<uint8_t> m0 = in.mem; mli_tensor t0 = in.t, o0 = out.t; mli_status st = run(f, in, p, out); cs.call();
  char how[100]; snprintf(how, sizeof how, "permute_%s rank %d order", kN[f], R); for (int x : p) { char b[8]; snprintf(b, 8, " %d", x); strcat(how, b); }
  if (st != MLI_STATUS_OK) cs.fail("status", "%s: status %d", how, st);
  size_t cnt = in.count(); for (size_t i = 0; i < cnt; i++) {
    int idx[4] = {0, 0, 0, 0}, src[4] = {0, 0, 0, 0}; size_t l = i; for (int d = R - 1; d >= 0; d--) { idx[d] = l % So[d]; l /= So[d]; } for (int d = 0; d < R; d++) src[p[d]] = idx[d];
    if (out.get(i) != in.at(src[0], src[1], src[2], src[3])) cs.fail("value", "%s (strides %d/%d): output [%d %d %d %d] = %" PRId64 ", source has %" PRId64, how, pi, po, idx[0], idx[1], idx[2], idx[3], out.get(i), in.at(src[0], src[1], src[2], src[3]));
  }
  i64 w; if (!out.gapsIntact(&w)) cs.fail("gap", "%s (strides %d/%d): wrote outside the output elements at byte %" PRId64, how, pi, po, w);
  if (in.mem != m0 || memcmp(&t0, &in.t, sizeof t0)) cs.fail("input", "%s: input modified", how);
  if (out.t.rank != o0.rank || memcmp(out.t.shape, o0.shape, sizeof o0.shape) || memcmp(out.t.mem_stride, o0.mem_stride, sizeof o0.mem_stride) || out.t.el_type != o0.el_type || out.t.data.mem.pi8 != o0.data.mem.pi8 || out.t.data.capacity != o0.data.capacity) cs.fail("descriptor", "%s: output descriptor changed", how);
  if (f < 2) { if (out.frac() != in.frac()) cs.fail("params", "%s: fractional bits", how); }
  else if (q < 0) { if (out.t.el_params.sa.dim >= 0 || out.zp() != in.zp() || out.scale() != in.scale() || out.fb() != in.fb()) cs.fail("params", "%s: per-tensor parameters", how); }
  else {
    auto &o = out.t.el_params.sa; auto &i = in.t.el_params.sa; int od = o.dim; if (od < 0 || od >= R || p[od] != q) cs.fail("params", "%s: quantisation axis %d became %d", how, q, od);
    for (int k = 0; k < n; k++) if (out.zp(k) != in.zp(k) || out.scale(k) != in.scale(k) || out.fb(k) != in.fb(k)) cs.fail("params", "%s: parameters of channel %d", how, k);
    if (init < 2 && (o.zero_point.mem.pi16 != i.zero_point.mem.pi16 || o.scale.mem.pi16 != i.scale.mem.pi16 || o.scale_frac_bits.mem.pi8 != i.scale_frac_bits.mem.pi8 || o.zero_point.capacity != i.zero_point.capacity || o.scale.capacity != i.scale.capacity || o.scale_frac_bits.capacity != i.scale_frac_bits.capacity)) cs.fail("params", "%s: parameter containers not shared", how);
    if (init == 2 && (o.zero_point.mem.pi16 != Z.data() + 1 || o.scale.mem.pi16 != C.data() + 1 || o.scale_frac_bits.mem.pi8 != B.data() + 1 || Z[0] != 1111 || C[0] != 1111 || B[0] != 111 || Z[n + 1] != 1111 || C[n + 1] != 1111 || B[n + 1] != 111)) cs.fail("params", "%s: parameter containers overrun or replaced", how);
  }
  std::vector<int> inv(R); for (int d = 0; d < R; d++) inv[p[d]] = d;
  st = run(f, out, inv, back); cs.call(); if (st != MLI_STATUS_OK) cs.fail("status", "%s: inverse status %d", how, st);
  for (size_t i = 0; i < cnt; i++) if (back.get(i) != in.get(i)) cs.fail("inverse", "%s: inverse permutation does not restore element %zu", how, i);
  if (f == 2 && q >= 0 && back.t.el_params.sa.dim != q) cs.fail("inverse", "%s: inverse does not restore the quantisation axis", how);
  cs.out(out.hash()); cs.trace();
}
static void small(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 3), R = c.range("rank", 1, 4); std::vector<int> S; for (int d = 0; d < R; d++) S.push_back(R == 4 && !thorough() ? c.of("dim", {1, 2, 3}) : c.of("dim", {1, 2, 3, 5}));
  auto p = pickperm(c, R); int pi = c.pick("padin", 1 << R), po = c.pick("padout", R == 4 && !thorough() ? 4 : 1 << R); if (R == 4 && !thorough()) po = po * 5;
  if (!cs.begin()) return;
  body(cs, f, S, p, pi, po, -1, 0, P_RND);
}
static void quant(Case &cs) {
  auto &c = cs.ch; int R = c.range("rank", 1, 4); std::vector<int> S; for (int d = 0; d < R; d++) S.push_back(c.of("dim", {1, 2, 4})); auto p = pickperm(c, R); int q = c.range("axis", -1, R - 1), init = c.pick("containers", q < 0 ? 1 : 3);
  if (!cs.begin()) return;
  body(cs, 2, S, p, 0, 0, q, init, P_RND);
}
static void large(Case &cs) {
  static const std::vector<std::vector<int>> T = {{70000}, {300, 260}, {2, 33000}, {33000, 2}, {3, 5, 300}, {257, 2, 2, 3}, {2, 300, 3}, {2, 2, 2, 300}, {40, 30, 30, 2}, {129, 257, 2}};
  auto &c = cs.ch; int f = c.pick("fmt", 3), s = c.pick("shape", T.size()), R = T[s].size(); auto p = pickperm(c, R); int pi = c.of("padin", {0, (1 << R) - 1}), po = c.of("padout", {0, (1 << R) - 1}), q = f == 2 ? c.range("axis", -1, R - 1) : -1;
  if (!cs.begin()) return;
  body(cs, f, T[s], p, pi, po, q, 2, P_RND);
}
// every value of the element type survives
static void values(Case &cs) {
  auto &c = cs.ch; int f = c.pick("fmt", 3), pat = c.of("pat", {P_RAMP, P_ALT, P_MIN, P_MAX}); std::vector<int> S = f ? std::vector<int>{16, 16} : std::vector<int>{256, 256}; auto p = pickperm(c, 2);
  if (!cs.begin()) return;
  if (pat != P_RAMP) { body(cs, f, S, p, 0, 0, -1, 0, pat); return; }
  Ten in(kT[f], S), out(kT[f], S); if (f < 2) { in.fx(3); } else { in.sa(1, 2, 3); } out.t.el_params = in.t.el_params; int n = in.count(); for (int i = 0; i < n; i++) in.set(i, i - n / 2);
  run(f, in, p, out); cs.call(); for (int i = 0; i < n; i++) { int a = i / S[0], b = i % S[0]; if (out.get(i) != (p[0] ? in.at(b, a) : in.at(a, b))) cs.fail("value", "permute_%s: value at %d not preserved", kN[f], i); }
  cs.out(out.hash()); cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"small", small}, {"quant", quant}, {"large", large}, {"values", values}}); }
