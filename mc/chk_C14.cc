// C14: synchronous data movement places exactly the configured elements.
#include "ref.h"
using namespace mc;
struct D { int n, off, size, sub, pre, post, doff; };
static const mli_element_type kT[4] = {MLI_EL_SA_8, MLI_EL_FX_16, MLI_EL_SA_32, MLI_EL_FX_8};
static int cpy(const D &d) { return d.size ? d.size : d.n - d.off + d.pre + d.post; }
static bool ok(const D &d) { return d.off < d.n && (d.size == 0 || d.off + d.size <= d.n + d.pre + d.post); }
static int wr(const D &d) { return (cpy(d) + d.sub - 1) / d.sub; }
// one move: ds[source dim], perm, layout modes; axis >= 0: per-axis quantised source; qmode 0 preallocated, 1 null, 2 same pointers
static void one(Case &cs, int ty, const std::vector<D> &ds, const std::vector<int> &perm, const std::vector<int> &srcPad, int srcInner, int mode, int axis = -1, int qmode = 0) {
  int R = ds.size(); std::vector<int> sh; for (auto &d : ds) sh.push_back(d.n);
  Ten src(kT[ty], sh, srcPad, srcInner); for (size_t i = 0; i < src.count(); i++) src.set(i, 1 + (i64)i * 2654435 + (i64)(i >> 3) * 77); // no zero among neighbours
  for (size_t i = 0; i < src.count(); i++) if (!src.get(i)) src.set(i, 5);
  bool sa = kT[ty] == MLI_EL_SA_8 || kT[ty] == MLI_EL_SA_32;
  std::vector<int16_t> z, s; std::vector<int8_t> f;
  if (sa && axis >= 0) { for (int i = 0; i < ds[axis].n; i++) { z.push_back(-100 + i); s.push_back(300 + i * 7); f.push_back(1 + i % 30); } src.saAxis(axis, z, s, f); }
  else if (sa) src.sa(-7, 12345, 11); else src.fx(5);
  mli_mov_cfg_t cfg; memset(&cfg, 0x55, sizeof cfg); std::vector<int> osh(R), ost(R), w(R);
  for (int d = 0; d < R; d++) { cfg.offset[d] = ds[d].off; cfg.size[d] = ds[d].size; cfg.sub_sample_step[d] = ds[d].sub; cfg.padding_pre[d] = ds[d].pre; cfg.padding_post[d] = ds[d].post; cfg.perm_dim[d] = perm[d]; }
  int dax = -1; for (int d = 0; d < R; d++) { w[d] = wr(ds[perm[d]]); osh[d] = w[d] + ds[d].doff; cfg.dst_offset[d] = ds[d].doff; if (perm[d] == axis) dax = d; }
  // 0 dense by default, 1 cfg strides, 2 tensor strides, 3 cfg strides with an inner step, 4 outer stride from cfg only
  int st = mode == 3 ? 2 : 1; size_t ext = 1; for (int d = R - 1; d >= 0; d--) { if ((mode == 1 || mode == 2 || mode == 3) && d < R - 1) st += 1 + d; if (mode == 4 && d == 0 && R > 1) st += 3; ost[d] = st; ext += (size_t)(osh[d] - 1) * st; st *= osh[d]; }
  for (int d = 0; d < R; d++) cfg.dst_mem_stride[d] = mode == 1 || mode == 3 || (mode == 4 && d == 0) ? ost[d] : 0;
  Ten dst(kT[ty], {1}); dst.t.rank = 0; dst.alloc(ext); dst.t.el_type = MLI_EL_FX_8; for (int d = 0; d < MLI_MAX_RANK; d++) { dst.t.shape[d] = 0; dst.t.mem_stride[d] = mode == 2 && d < R ? ost[d] : 0; }
  dst.t.el_type = kT[ty]; dst.fillCanary(); memset(&dst.t.el_params, 0, sizeof dst.t.el_params);
  int qn = dax >= 0 ? osh[dax] : 0; std::vector<int16_t> oz(qn + 4, 0x5a5a), os(qn + 4, 0x5b5b); std::vector<int8_t> of(qn + 4, 0x5c); auto oz0 = oz, os0 = os; auto of0 = of;
  if (axis >= 0) { auto &e = dst.t.el_params.sa; e.type = MLI_EL_PARAM_SC16_ZP16; if (qmode == 0) { e.zero_point.mem.pi16 = oz.data() + 2; e.zero_point.capacity = qn * 2; e.scale.mem.pi16 = os.data() + 2; e.scale.capacity = qn * 2; e.scale_frac_bits.mem.pi8 = of.data() + 2; e.scale_frac_bits.capacity = qn; } else if (qmode == 2) e = src.t.el_params.sa; }
  auto b0 = src.mem; mli_tensor t0 = src.t; mli_mov_cfg_t c0 = cfg; const void *dp = dst.t.data.mem.pi8; auto dcap = dst.t.data.capacity;
  mli_status r = mli_mov_tensor_sync(&src.t, &cfg, &dst.t); cs.call();
  auto why = [&]() { static char b[400]; int k = snprintf(b, sizeof b, "type %d rank %d mode %d:", ty, R, mode); for (int d = 0; d < R; d++) k += snprintf(b + k, sizeof b - k, " [n%d off%d size%d sub%d pad%d,%d doff%d perm%d]", ds[d].n, ds[d].off, ds[d].size, ds[d].sub, ds[d].pre, ds[d].post, ds[d].doff, perm[d]); return b; };
  if (r != MLI_STATUS_OK) cs.fail("status", "status %d for %s", r, why());
  if (src.mem != b0 || memcmp(&t0, &src.t, sizeof t0) || memcmp(&c0, &cfg, sizeof cfg)) cs.fail("input", "source or configuration changed: %s", why());
  if ((int)dst.t.rank != R || dst.t.el_type != kT[ty] || dst.t.data.mem.pi8 != dp || dst.t.data.capacity != dcap) cs.fail("desc", "destination rank, type or buffer wrong: %s", why());
  for (int d = 0; d < R; d++) if ((int)dst.t.shape[d] != osh[d] || dst.t.mem_stride[d] != ost[d]) cs.fail("shape", "destination dim %d: shape %u stride %d, expected %d and %d: %s", d, dst.t.shape[d], dst.t.mem_stride[d], osh[d], ost[d], why());
  // data: expected image of the whole destination memory
  Ten want = dst; want.fillCanary(); for (int d = 0; d < R; d++) want.t.shape[d] = w[d]; size_t base = 0; for (int d = 0; d < R; d++) base += (size_t)ds[d].doff * ost[d];
  size_t n = 1; for (int d = 0; d < R; d++) n *= w[d];
  for (size_t l = 0; l < n; l++) { size_t q = l, o = base, so = 0; bool pad = false; for (int d = R - 1; d >= 0; d--) { int i = q % w[d]; q /= w[d]; o += (size_t)i * ost[d]; const D &c = ds[perm[d]]; int p = i * c.sub + c.off - c.pre; if (p < 0 || p >= c.n) pad = true; else so += (size_t)p * src.t.mem_stride[perm[d]]; } want.wraw(o, pad ? 0 : src.raw(so)); }
  if (dst.mem != want.mem) { for (size_t o = 0; o < ext; o++) if (dst.raw(o) != want.raw(o)) cs.fail("data", "destination offset %zu: %" PRId64 ", expected %" PRId64 ": %s", o, dst.raw(o), want.raw(o), why()); cs.fail("outside", "memory around the destination changed: %s", why()); }
  if (!sa) { if (dst.frac() != 5) cs.fail("quant", "frac bits %d: %s", dst.frac(), why()); }
  else if (axis < 0) { auto &e = dst.t.el_params.sa; if (e.dim >= 0 || e.zero_point.mem.i16 != -7 || e.scale.mem.i16 != 12345 || e.scale_frac_bits.mem.i8 != 11) cs.fail("quant", "quantisation of the destination: %s", why()); }
  else {
    auto &e = dst.t.el_params.sa; if (e.dim != dax) cs.fail("axis", "quantised dimension %d, expected %d: %s", e.dim, dax, why());
    if (qmode) { if (e.zero_point.mem.pi16 != t0.el_params.sa.zero_point.mem.pi16 || e.scale.mem.pi16 != t0.el_params.sa.scale.mem.pi16 || e.scale_frac_bits.mem.pi8 != t0.el_params.sa.scale_frac_bits.mem.pi8 || e.scale.capacity != t0.el_params.sa.scale.capacity || e.zero_point.capacity != t0.el_params.sa.zero_point.capacity || e.scale_frac_bits.capacity != t0.el_params.sa.scale_frac_bits.capacity) cs.fail("qptr", "parameter pointers not those of the source: %s", why()); }
    else {
      for (int i = 0; i < w[dax]; i++) { const D &c = ds[axis]; int p = i * c.sub + c.off - c.pre, k = 2 + ds[dax].doff + i; bool in = p >= 0 && p < c.n; oz0[k] = in ? z[p] : 0; os0[k] = in ? s[p] : 1; of0[k] = in ? f[p] : 0; }
      if (e.zero_point.mem.pi16 != oz.data() + 2 || e.scale.mem.pi16 != os.data() + 2 || e.scale_frac_bits.mem.pi8 != of.data() + 2) cs.fail("qptr", "preallocated parameter pointers replaced: %s", why());
      if (oz != oz0 || os != os0 || of != of0) cs.fail("params", "per-axis parameters of the destination: %s", why());
    }
  }
  cs.state(want.hash()); cs.out(dst.hash()); cs.trace();
}
static std::vector<int> permOf(int R, int k) { std::vector<int> p(R); for (int i = 0; i < R; i++) p[i] = i; while (k--) std::next_permutation(p.begin(), p.end()); return p; }
static int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
static D full(Chooser &c, int nmax, int pmax, int dmax) { D d; d.n = c.range("n", 1, nmax); d.off = c.pick("off", d.n); d.pre = c.range("pre", 0, pmax); d.post = c.range("post", 0, pmax); d.size = c.range("size", 0, d.n + d.pre + d.post - d.off); d.sub = c.range("sub", 1, 3); d.doff = c.range("doff", 0, dmax); return d; }
static void line(Case &cs) { auto &c = cs.ch; int ty = c.pick("type", 4), mode = c.pick("mode", 4), in = c.range("inner", 1, 2); D d = full(c, tier(4, 6), 2, 2); if (!cs.begin()) return; one(cs, ty, {d}, {0}, {}, in, mode); }
static const std::vector<D> &set2() { static std::vector<D> v; if (v.empty()) for (int n : {1, 3, 4}) for (int k = 0; k < 4; k++) for (int s : {1, 2}) for (int p = 0; p < 4; p++) for (int o : {0, 1}) { static const int O[4][2] = {{0, 0}, {1, 0}, {0, 2}, {1, 2}}, P[4][2] = {{0, 0}, {1, 0}, {0, 2}, {2, 1}}; D d = {n, O[k][0], O[k][1], s, P[p][0], P[p][1], o}; if (ok(d) && !(n == 1 && s == 2 && p == 0)) v.push_back(d); } return v; }
static const D kS3[] = {{3, 0, 0, 1, 0, 0, 0}, {2, 0, 0, 1, 0, 0, 1}, {4, 1, 2, 1, 0, 0, 0}, {4, 0, 0, 2, 0, 0, 0}, {2, 0, 0, 1, 1, 0, 0}, {2, 0, 0, 1, 0, 2, 0}, {3, 1, 3, 2, 1, 1, 1}, {1, 0, 0, 1, 0, 0, 0}, {3, 0, 2, 1, 0, 0, 1}, {5, 2, 0, 3, 2, 0, 0}, {2, 1, 0, 1, 0, 0, 1}, {2, 0, 3, 1, 2, 2, 2}};
static void plane(Case &cs) { auto &c = cs.ch; int ty = c.pick("type", 3), mode = c.pick("mode", 5), in = c.range("inner", 1, tier(1, 2)); auto &S = set2(); D a = S[c.pick("d0", S.size())], b = S[c.pick("d1", S.size())]; int p = c.pick("perm", 2); if (!cs.begin()) return; one(cs, ty, {a, b}, permOf(2, p), {in - 1 ? 2 : 0}, in, mode); }
static void cube(Case &cs) { auto &c = cs.ch; int ty = c.pick("type", 3), mode = c.pick("mode", 5), pad = c.pick("pad", 3); std::vector<D> v; for (int i = 0; i < 3; i++) v.push_back(kS3[c.pick("d", tier(9, 12))]); int p = c.pick("perm", 6); if (!cs.begin()) return; one(cs, ty, v, permOf(3, p), pad == 1 ? std::vector<int>{3, 2, 0} : std::vector<int>{}, pad == 2 ? 2 : 1, mode); }
static void hyper(Case &cs) { auto &c = cs.ch; int mode = c.pick("mode", 5); std::vector<D> v; for (int i = 0; i < 4; i++) v.push_back(kS3[c.pick("d", tier(5, 8))]); int p = c.pick("perm", 24); if (!cs.begin()) return; int ty = (p + mode) % 3; one(cs, ty, v, permOf(4, p), mode & 1 ? std::vector<int>{1, 4, 2, 0} : std::vector<int>{}, 1, mode); }
static void axis(Case &cs) {
  auto &c = cs.ch; int ty = c.of("type", {0, 2}), R = c.range("rank", 1, 3), ax = c.pick("axis", R); std::vector<D> v;
  for (int i = 0; i < R; i++) v.push_back(i == ax && R < 3 ? full(c, 4, 2, 1) : i == ax ? kS3[c.pick("a", 12)] : kS3[c.pick("d", R == 2 ? 12 : 7)]);
  int p = c.pick("perm", fact(R)), q = c.pick("qmode", 3), mode = c.of("mode", {0, 1}); auto pm = permOf(R, p); int dax = 0; for (int d = 0; d < R; d++) if (pm[d] == ax) dax = d; const D &a = v[ax];
  if (q && (a.off || (a.size && a.size != a.n) || a.pre || a.post || a.sub != 1 || v[dax].doff)) return;
  if (!cs.begin()) return; one(cs, ty, v, pm, {}, 1, mode, ax, q);
}
static void large(Case &cs) {
  auto &c = cs.ch; int ty = c.pick("type", 3), k = c.pick("case", 8), mode = c.pick("mode", 4); if (!cs.begin()) return;
  static const std::vector<D> V[8] = {{{40000, 0, 0, 1, 0, 0, 0}}, {{40000, 33000, 0, 1, 255, 255, 5}}, {{70000, 1, 65600, 1, 200, 3, 300}}, {{300, 0, 0, 1, 255, 254, 2}, {3, 0, 0, 1, 200, 130, 1}}, {{3, 0, 0, 1, 1, 0, 0}, {70000, 3, 0, 257, 0, 9, 1}}, {{260, 0, 0, 1, 0, 0, 0}, {260, 0, 0, 1, 0, 0, 0}, {3, 0, 0, 1, 0, 0, 0}}, {{2, 0, 0, 1, 0, 0, 0}, {130, 0, 0, 1, 130, 140, 0}, {140, 2, 0, 3, 129, 1, 0}, {3, 0, 0, 1, 0, 0, 0}}, {{5, 0, 0, 1, 0, 0, 0}, {2, 0, 0, 1, 0, 0, 0}, {3, 0, 0, 1, 0, 0, 0}, {20000, 0, 0, 1, 0, 0, 0}}};
  int R = V[k].size(); for (int p = 0; p < fact(R); p += std::max(1, fact(R) / 6)) one(cs, ty, V[k], permOf(R, p), {}, 1, mode);
}
// the configuration helpers fill exactly the documented fields, neutral values elsewhere
static void helpers(Case &cs) {
  auto &c = cs.ch; int k = c.pick("helper", 8), seed = c.pick("values", 6); if (!cs.begin()) return;
  int a[8][4]; uint8_t pd[4], pp[4]; for (int i = 0; i < 8; i++) for (int d = 0; d < 4; d++) a[i][d] = seed == 5 ? 100000 + 1000 * i + d : 1 + (i * 4 + d) * (seed + 1) % 23; auto p = permOf(4, seed * 4 + 3); for (int d = 0; d < 4; d++) { pd[d] = p[d]; pp[d] = seed == 5 ? 255 - d : 1 + (d * 5 + seed) % 7; }
  mli_mov_cfg_t g, w; memset(&g, 0x77, sizeof g); memset(&w, 0, sizeof w); for (int d = 0; d < 4; d++) { w.sub_sample_step[d] = 1; w.perm_dim[d] = d; } mli_status r = MLI_STATUS_OK;
  auto put = [](auto *f, int *v) { for (int d = 0; d < 4; d++) f[d] = v[d]; };
  switch (k) {
    case 0: r = mli_mov_cfg_for_copy(&g); break;
    case 1: r = mli_mov_cfg_for_slice(&g, a[0], a[1], a[4]); put(w.offset, a[0]); put(w.size, a[1]); put(w.dst_mem_stride, a[4]); break;
    case 2: r = mli_mov_cfg_for_concat(&g, a[3], a[4]); put(w.dst_offset, a[3]); put(w.dst_mem_stride, a[4]); break;
    case 3: r = mli_mov_cfg_for_subsample(&g, a[2], a[4]); put(w.sub_sample_step, a[2]); put(w.dst_mem_stride, a[4]); break;
    case 4: r = mli_mov_cfg_for_permute(&g, pd); for (int d = 0; d < 4; d++) w.perm_dim[d] = pd[d]; break;
    case 5: case 6: r = (k == 5 ? mli_mov_cfg_for_padding2d_chw : mli_mov_cfg_for_padding2d_hwc)(&g, pp[0], pp[1], pp[2], pp[3], a[4]); { int h = k == 5 ? 1 : 0; w.padding_pre[h + 1] = pp[0]; w.padding_post[h + 1] = pp[1]; w.padding_pre[h] = pp[2]; w.padding_post[h] = pp[3]; } put(w.dst_mem_stride, a[4]); break;
    case 7: r = mli_mov_cfg_all(&g, a[0], a[1], a[2], a[3], a[4], pd, pp[0], pp[1], pp[2], pp[3]); put(w.offset, a[0]); put(w.size, a[1]); put(w.sub_sample_step, a[2]); put(w.dst_offset, a[3]); put(w.dst_mem_stride, a[4]); for (int d = 0; d < 4; d++) w.perm_dim[d] = pd[d]; w.padding_pre[1] = pp[0]; w.padding_post[1] = pp[1]; w.padding_pre[0] = pp[2]; w.padding_post[0] = pp[3]; break;
  }
  cs.call(); if (r != MLI_STATUS_OK) cs.fail("helper", "helper %d: status %d", k, r);
  for (int d = 0; d < 4; d++) if (g.offset[d] != w.offset[d] || g.size[d] != w.size[d] || g.sub_sample_step[d] != w.sub_sample_step[d] || g.dst_offset[d] != w.dst_offset[d] || g.dst_mem_stride[d] != w.dst_mem_stride[d] || g.perm_dim[d] != w.perm_dim[d] || g.padding_pre[d] != w.padding_pre[d] || g.padding_post[d] != w.padding_post[d]) cs.fail("helper", "helper %d: field of dimension %d wrong", k, d);
  cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"helpers", helpers}, {"line", line}, {"plane", plane}, {"cube", cube}, {"hyper", hyper}, {"axis", axis}, {"large", large}}); }
