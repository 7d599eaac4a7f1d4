// C16: sub-tensor views and tensor queries.
#include "ref.h"
using namespace mc;
static const mli_element_type kT[5] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32};
static const char *tn(int t) { static const char *n[5] = {"fx8", "fx16", "sa8", "sa32", "fp32"}; return n[t]; }
typedef std::vector<int> V;
// parent tensor with a distinct quantisation per channel; kept alive by the caller
static Ten parent(int ty, const V &sh, const V &pad, int axis) {
  Ten t(kT[ty], sh, pad); for (size_t i = 0; i < t.count(); i++) t.set(i, 3 + (i64)i * 31);
  if (ty == 2 || ty == 3) { if (axis >= 0) { std::vector<int16_t> z, s; std::vector<int8_t> f; for (int i = 0; i < sh[axis]; i++) { z.push_back(ty == 2 ? -9 + i : i * 3); s.push_back(1000 + i); f.push_back(i % 24); } t.saAxis(axis, z, s, f); } else t.sa(-5, 777, 13); } else t.fx(ty == 0 ? 4 : 9);
  return t;
}
struct View { V off, size; int rank; };
// description of the expected view
struct Want { size_t addr; V shape, stride; int axis; int first; };
static Want expect(const Ten &p, const V &stride, int axis, const View &v) {
  Want w; w.addr = 0; w.axis = -1; w.first = axis >= 0 ? v.off[axis] : 0; int R = v.off.size(), drop = R - v.rank;
  for (int d = 0; d < R; d++) { w.addr += (size_t)v.off[d] * stride[d]; if (drop > 0 && v.size[d] == 1) { drop--; continue; } if (d == axis) w.axis = w.shape.size(); w.shape.push_back(v.size[d]); w.stride.push_back(stride[d]); }
  return w;
}
static bool checkView(Case &cs, const Ten &p, int ty, int paxis, const mli_tensor &o, const Want &w, const char *what) {
  int es = esize(kT[ty]); auto bad = [&](const char *k, const char *m, i64 g, i64 e) { cs.fail(k, "%s %s: %s is %" PRId64 ", expected %" PRId64, what, tn(ty), m, g, e); };
  if (o.rank != w.shape.size()) bad("rank", "rank", o.rank, w.shape.size());
  if (o.el_type != kT[ty]) bad("type", "element type", o.el_type, kT[ty]);
  if ((const uint8_t *)o.data.mem.pi8 != p.base() + w.addr * es) bad("address", "first element offset", (const uint8_t *)o.data.mem.pi8 - p.base(), w.addr * es);
  size_t n = 1, last = 0; for (size_t d = 0; d < w.shape.size(); d++) { if ((int)o.shape[d] != w.shape[d]) bad("shape", "extent", o.shape[d], w.shape[d]); if (w.shape[d] > 1 && o.mem_stride[d] != w.stride[d]) bad("stride", "stride", o.mem_stride[d], w.stride[d]); n *= w.shape[d]; last += (size_t)(w.shape[d] - 1) * w.stride[d]; }
  if (o.data.capacity != p.t.data.capacity - w.addr * es) bad("capacity", "capacity", o.data.capacity, p.t.data.capacity - w.addr * es);
  if ((last + 1) * es > o.data.capacity) bad("capacity", "capacity does not hold the view;", o.data.capacity, (last + 1) * es);
  if (ty == 2 || ty == 3) {
    auto &e = o.el_params.sa;
    if (paxis < 0) { if (e.dim >= 0 || e.zero_point.mem.i16 != -5 || e.scale.mem.i16 != 777 || e.scale_frac_bits.mem.i8 != 13) bad("quant", "scale", e.scale.mem.i16, 777); }
    else {
      if (e.dim != w.axis && !(e.dim < 0 && w.axis < 0)) bad("axis", "quantised dimension", e.dim, w.axis);
      int k = w.axis < 0 ? 1 : w.shape[w.axis];
      for (int i = 0; i < k; i++) { int g = w.first + i; i64 z = mli_hlp_tensor_zero_offset(&o, i), s = mli_hlp_tensor_scale(&o, i), f = mli_hlp_tensor_scale_shift(&o, i); if (z != p.zps[g]) bad("zp", "zero point", z, p.zps[g]); if (s != p.scs[g]) bad("scale", "scale", s, p.scs[g]); if (f != p.fbs[g]) bad("shift", "scale shift", f, p.fbs[g]); }
      int total = p.scs.size(), left = w.axis < 0 ? 0 : total - w.first;
      if (w.axis >= 0 && ((int)e.scale.capacity > 2 * left || (int)e.zero_point.capacity > 2 * left || (int)e.scale_frac_bits.capacity > left)) bad("qcapacity", "capacity of the scales", e.scale.capacity, 2 * left);
      if (w.axis >= 0 && ((int)e.scale.capacity < 2 * w.shape[w.axis] || (int)e.zero_point.capacity < 2 * w.shape[w.axis] || (int)e.scale_frac_bits.capacity < w.shape[w.axis])) bad("qcapacity", "capacity of the scales too small:", e.scale.capacity, 2 * left);
    }
  } else if (ty < 2 && o.el_params.fx.frac_bits != p.frac()) bad("frac", "frac bits", o.el_params.fx.frac_bits, p.frac());
  if (mli_hlp_count_elem_num(&o, 0) != n) bad("count", "element count", mli_hlp_count_elem_num(&o, 0), n);
  return true;
}
static mli_sub_tensor_cfg cfgOf(const View &v) { mli_sub_tensor_cfg c; memset(&c, 0x7f, sizeof c); for (size_t d = 0; d < v.off.size(); d++) { c.offset[d] = v.off[d]; c.size[d] = v.size[d]; } c.sub_tensor_rank = v.rank; return c; }
static mli_tensor make(Case &cs, const mli_tensor &p, const View &v, int ty) {
  mli_sub_tensor_cfg c = cfgOf(v), c0 = c; mli_tensor o, p0 = p; memset(&o, 0xA7, sizeof o);
  mli_status st = mli_hlp_create_subtensor(&p, &c, &o); cs.call(); if (st != MLI_STATUS_OK) cs.fail("status", "create_subtensor %s: status %d", tn(ty), st);
  if (memcmp(&p, &p0, sizeof p) || memcmp(&c, &c0, sizeof c)) cs.fail("input", "create_subtensor changed its input"); return o;
}
static V strides(const Ten &t) { V s; for (int d = 0; d < t.rank(); d++) s.push_back(t.t.mem_stride[d]); return s; }
static View pickView(Chooser &c, const V &sh) { View v; int ones = 0; for (int n : sh) { int o = c.pick("off", n), s = c.range("size", 1, n - o); v.off.push_back(o); v.size.push_back(s); ones += s == 1; } int R = sh.size(); v.rank = R - c.pick("drop", std::min(ones, R - 1) + 1); return v; }
static const std::vector<V> &shapes(int R) { static const std::vector<V> s[5] = {{}, {{1}, {2}, {5}}, {{1, 1}, {2, 3}, {3, 2}, {4, 4}}, {{2, 2, 2}, {1, 3, 2}, {3, 1, 3}, {2, 3, 4}}, {{1, 2, 2, 2}, {2, 2, 1, 3}, {2, 2, 2, 2}, {3, 2, 2, 3}}}; return s[R]; }
static void views(Case &cs) {
  auto &c = cs.ch; int ty = c.pick("type", 4), R = c.range("rank", 1, 4); V sh = shapes(R)[c.pick("shape", shapes(R).size())]; int pad = c.pick("pad", tier(2, 3)), axis = ty >= 2 ? c.range("axis", -1, R - 1) : -1; View v = pickView(c, sh);
  if (!cs.begin()) return;
  Ten p = parent(ty, sh, pad == 0 ? V{} : pad == 1 ? V{2, 1, 3, 0} : V{0, 0, 2, 1}, axis); auto m0 = p.mem; mli_tensor o = make(cs, p.t, v, ty); if (p.mem != m0) cs.fail("data", "create_subtensor touched data");
  checkView(cs, p, ty, axis, o, expect(p, strides(p), axis, v), "view"); uint64_t h = o.rank; for (unsigned d = 0; d < o.rank; d++) h = mix(mix(h, o.shape[d]), o.mem_stride[d]); h = mix(h, (uint8_t *)o.data.mem.pi8 - p.base()); cs.out(h); cs.state(h); cs.trace();
}
static void nested(Case &cs) {
  auto &c = cs.ch; int ty = c.of("type", {1, 2}), R = c.range("rank", 1, 3); V sh = R == 1 ? V{5} : R == 2 ? V{3, 3} : c.pick("shape", 2) ? V{2, 2, 3} : V{3, 2, 2}; int axis = ty >= 2 ? c.range("axis", -1, R - 1) : -1, pad = c.pick("pad", 2); View a = pickView(c, sh);
  V s1; { int drop = R - a.rank; for (int d = 0; d < R; d++) { if (drop > 0 && a.size[d] == 1) { drop--; continue; } s1.push_back(a.size[d]); } } View b = pickView(c, s1);
  if (!cs.begin()) return;
  Ten p = parent(ty, sh, pad ? V{1, 2, 0} : V{}, axis); mli_tensor o1 = make(cs, p.t, a, ty), o2 = make(cs, o1, b, ty);
  // the directly computed view: compose coordinates, then drop what either view dropped
  Want w1 = expect(p, strides(p), axis, a), w; w.axis = -1; w.addr = w1.addr; int drop = (int)s1.size() - b.rank; w.first = w1.first + (w1.axis >= 0 ? b.off[w1.axis] : 0);
  for (size_t d = 0; d < s1.size(); d++) { w.addr += (size_t)b.off[d] * w1.stride[d]; if (drop > 0 && b.size[d] == 1) { drop--; continue; } if ((int)d == w1.axis) w.axis = w.shape.size(); w.shape.push_back(b.size[d]); w.stride.push_back(w1.stride[d]); }
  checkView(cs, p, ty, axis, o2, w, "view of a view"); cs.state(mix(w.addr, w.shape.size())); cs.out(mix(w.addr, o2.rank)); cs.trace();
}
static void large(Case &cs) {
  auto &c = cs.ch; int ty = c.pick("type", 4), k = c.pick("shape", 5), pos = c.pick("pos", 6), dr = c.pick("drop", 2), ax = ty >= 2 ? c.range("axis", -1, 2) : -1; static const V S[5] = {{3, 70000, 2}, {300, 3, 300}, {2, 2, 70000}, {1000, 16, 20}, {70000, 1, 3}}; if (!cs.begin()) return;
  V sh = S[k]; Ten p = parent(ty, sh, {0, 3, 0}, ax); View v; for (int d = 0; d < 3; d++) { int n = sh[d], o = pos == 0 ? 0 : pos == 1 ? n - 1 : pos == 2 ? n / 2 : pos == 3 ? n / 3 : pos == 4 ? (d == 1 ? n - 1 : 0) : (d ? 0 : n - 1); v.off.push_back(o); v.size.push_back(dr || n - o < 2 ? 1 : n - o); } v.rank = 3; for (int d = 0; d < 3 && v.rank > 1; d++) if (v.size[d] == 1) v.rank--;
  mli_tensor o = make(cs, p.t, v, ty); checkView(cs, p, ty, ax, o, expect(p, strides(p), ax, v), "large view"); cs.trace();
}
// deprecated point_to_subtensor: contiguous parents, per-tensor quantisation
static void points(Case &cs) {
  auto &c = cs.ch; int ty = c.pick("type", 5), R = c.range("rank", 1, 4); V sh = shapes(R)[c.pick("shape", shapes(R).size())]; int k = c.range("coords", 1, R); V o; for (int d = 0; d < k; d++) o.push_back(c.pick("start", sh[d])); int n = c.range("first", 1, sh[k - 1] - o[k - 1]);
#if defined CFG_RET || defined CFG_DBG
  if (R - k) return; // with full checking the deprecated entry only serves one-dimensional results
#endif
  if (!cs.begin()) return;
  Ten p = parent(ty, sh, {}, -1); auto m0 = p.mem; mli_point_to_subtsr_cfg g; memset(&g, 0x7f, sizeof g); for (int d = 0; d < k; d++) g.start_coord[d] = o[d]; g.coord_num = k; g.first_out_dim_size = n;
  mli_tensor t; memset(&t, 0xA7, sizeof t); { int s = 1; for (int d = R - k; d >= 0; d--) { t.mem_stride[d] = s; s *= d ? sh[k - 1 + d] : n; } } mli_status st = mli_hlp_point_to_subtensor(&p.t, &g, &t); cs.call(); if (st != MLI_STATUS_OK) cs.fail("status", "point_to_subtensor %s: status %d", tn(ty), st); if (p.mem != m0) cs.fail("data", "point_to_subtensor touched data");
  size_t a = 0; for (int d = 0; d < k; d++) a += (size_t)o[d] * p.t.mem_stride[d]; size_t cnt = n; bool ok = (int)t.rank == R - k + 1 && (int)t.shape[0] == n; for (int d = 1; d < (int)t.rank && d < 4; d++) { ok &= (int)t.shape[d] == sh[k - 1 + d]; cnt *= sh[k - 1 + d]; }
  if (!ok || t.el_type != kT[ty]) cs.fail("shape", "point_to_subtensor %s: rank %u shape[0] %u", tn(ty), t.rank, t.shape[0]);
  if ((const uint8_t *)t.data.mem.pi8 != p.base() + a * esize(kT[ty])) cs.fail("address", "point_to_subtensor %s: data pointer is off by %td bytes", tn(ty), (const uint8_t *)t.data.mem.pi8 - (p.base() + a * esize(kT[ty])));
  if (t.data.capacity > p.t.data.capacity - a * esize(kT[ty]) || t.data.capacity < cnt * esize(kT[ty])) cs.fail("capacity", "point_to_subtensor: capacity %u", t.data.capacity);
  if (ty < 2 ? t.el_params.fx.frac_bits != p.frac() : ty < 4 && (t.el_params.sa.scale.mem.i16 != 777 || t.el_params.sa.zero_point.mem.i16 != -5 || t.el_params.sa.scale_frac_bits.mem.i8 != 13 || t.el_params.sa.dim >= 0)) cs.fail("quant", "point_to_subtensor: quantisation"); cs.out(mix(a, cnt)); cs.trace();
}
// queries
static void queries(Case &cs) {
  auto &c = cs.ch; int ty = c.pick("type", 5), R = c.range("rank", 0, 4), axis = (ty == 2 || ty == 3) && R ? c.range("axis", -1, R - 1) : -1; V sh; for (int d = 0; d < R; d++) sh.push_back(c.of("n", {1, 2, 3, 300})); if (!cs.begin()) return;
  mli_tensor t; memset(&t, 0xA5, sizeof t); t.el_type = kT[ty]; t.rank = R; for (int d = 0; d < R; d++) t.shape[d] = sh[d]; int na = axis >= 0 ? sh[axis] : 1;
  std::vector<int16_t> z(na), s(na); std::vector<int8_t> f(na); for (int i = 0; i < na; i++) { z[i] = i * 5 - 700; s[i] = 32767 - i; f[i] = i % 40 - 4; }
  if (ty < 2) t.el_params.fx.frac_bits = 6; else if (ty < 4) { auto &e = t.el_params.sa; e.type = MLI_EL_PARAM_SC16_ZP16; e.dim = axis; if (axis >= 0) { e.zero_point.mem.pi16 = z.data(); e.scale.mem.pi16 = s.data(); e.scale_frac_bits.mem.pi8 = f.data(); } else { e.zero_point.mem.i16 = z[0]; e.scale.mem.i16 = s[0]; e.scale_frac_bits.mem.i8 = f[0]; } }
  for (int d = 0; d < R; d++) { uint64_t n = 1; for (int k = d; k < R; k++) n *= sh[k]; cs.call(); if (n <= 0x7fffffff && mli_hlp_count_elem_num(&t, d) != n) cs.fail("count", "count_elem_num from dimension %d: %u, expected %" PRIu64, d, mli_hlp_count_elem_num(&t, d), n); }
  if ((int)mli_hlp_tensor_element_size(&t) != esize(kT[ty])) cs.fail("esize", "element size of %s: %u", tn(ty), mli_hlp_tensor_element_size(&t));
  for (int i = 0; i < na; i++) { i64 S = mli_hlp_tensor_scale(&t, i), F = mli_hlp_tensor_scale_shift(&t, i), Z = mli_hlp_tensor_zero_offset(&t, i), eS = ty == 2 || ty == 3 ? s[i] : 1, eF = ty < 2 ? 6 : ty < 4 ? f[i] : 0, eZ = ty == 2 || ty == 3 ? z[i] : 0; if (S != eS || F != eF || Z != eZ) cs.fail("params", "%s parameter %d: scale %" PRId64 " shift %" PRId64 " zero %" PRId64, tn(ty), i, S, F, Z); }
  if (R) { mli_tensor q = t; mli_hlp_set_tensor_mem_strides(&q); int64_t e = 1; for (int d = R - 1; d >= 0; d--) { if (e <= 0x7fffffff && q.mem_stride[d] != e) cs.fail("strides", "dense stride of dimension %d: %d, expected %" PRId64, d, q.mem_stride[d], e); e *= sh[d]; }
    for (int u = 0; u < 5; u++) { mli_tensor b = t; static int32_t buf[4]; t.data.mem.pi32 = buf; b.data.mem.pi32 = buf; b.el_type = kT[u]; if (mli_hlp_tensor_data_ptr_cmp(&t, &b) != (u == ty)) cs.fail("cmp", "data_ptr_cmp of equal pointers, types %s and %s", tn(ty), tn(u)); b.data.mem.pi8 = (int8_t *)buf + (u & 1 ? 4 : 8); if (mli_hlp_tensor_data_ptr_cmp(&t, &b)) cs.fail("cmp", "data_ptr_cmp of different pointers"); b.data.mem.pi32 = buf; b.rank = 0; if (mli_hlp_tensor_data_ptr_cmp(&t, &b) || mli_hlp_tensor_data_ptr_cmp(&b, &t)) cs.fail("cmp", "data_ptr_cmp with a scalar tensor"); } }
#ifndef CFG_DBG
  mli_tensor u = t; u.el_type = (mli_element_type)0x333; if (mli_hlp_tensor_element_size(&u) != 0) cs.fail("esize", "element size of an unknown type: %u", mli_hlp_tensor_element_size(&u));
#endif
  cs.trace();
}
#ifdef CFG_RET
// requests outside of the parent are refused, all others accepted
static void refused(Case &cs) {
  auto &c = cs.ch; int ty = c.pick("type", 4), R = c.range("rank", 1, 3); static const V S[4] = {{}, {3}, {2, 3}, {2, 1, 2}}; V sh = S[R]; std::vector<uint32_t> o, s; bool ok = true; int ones = 0;
  for (int d = 0; d < R; d++) { static const uint32_t X[] = {0xffffffffu, 0x80000000u, 0x100u}; int n = sh[d]; int k = c.pick("off", n + 2 + (R < 3 ? 3 : 1)), m = c.range("size", 1, n + 1 + (R < 3 ? 3 : 2)); o.push_back(k <= n + 1 ? k : X[k - n - 2]); s.push_back(m <= n + 1 ? m : X[m - n - 2]); ok &= (uint64_t)o[d] < (uint64_t)n && (uint64_t)o[d] + s[d] <= (uint64_t)n; ones += s[d] == 1; }
  int sr = c.range("subrank", 1, R + 1); ok &= sr <= R && R - sr <= ones; if (!cs.begin()) return;
  Ten p = parent(ty, sh, {}, -1); mli_sub_tensor_cfg g; memset(&g, 0, sizeof g); for (int d = 0; d < R; d++) { g.offset[d] = o[d]; g.size[d] = s[d]; } g.sub_tensor_rank = sr; mli_tensor t; memset(&t, 0xA7, sizeof t);
  mli_status st = mli_hlp_create_subtensor(&p.t, &g, &t); cs.call(); if ((st == MLI_STATUS_OK) != ok) cs.fail(ok ? "accepted" : "refused", "create_subtensor of rank %d: offset[0]=%u size[0]=%u last offset=%u size=%u of %d, sub rank %d: status %d", R, o[0], s[0], o[R - 1], s[R - 1], sh[R - 1], sr, st);
  mli_point_to_subtsr_cfg q; memset(&q, 0, sizeof q); for (int k = 1; k <= R; k++) { q.coord_num = k; bool v = true; for (int d = 0; d < k; d++) { q.start_coord[d] = o[d]; v &= o[d] < (uint32_t)sh[d]; } if (s[k - 1] > 255) continue; q.first_out_dim_size = s[k - 1]; v &= (uint64_t)o[k - 1] + s[k - 1] <= (uint64_t)sh[k - 1]; mli_tensor b; memset(&b, 0, sizeof b); { int e = 1; for (int d = R - k; d >= 0; d--) { b.mem_stride[d] = e; e *= sh[k - 1 + d]; } } st = mli_hlp_point_to_subtensor(&p.t, &q, &b); cs.call(); if ((st == MLI_STATUS_OK) != v && !(v && k < R)) cs.fail("point", "point_to_subtensor: %d coordinates, last start %u size %u of %d: status %d", k, o[k - 1], s[k - 1], sh[k - 1], st); }
  for (uint32_t d : {0u, 1u, 2u, 3u, 5u, 0xffffffffu}) { uint32_t n = 1; for (int k = d; k < R && d < 4; k++) n *= sh[k]; uint32_t g2 = mli_hlp_count_elem_num(&p.t, d); if (g2 != (d < (uint32_t)R ? n : 0)) cs.fail("count", "count_elem_num from dimension %u of rank %d: %u", d, R, g2); }
  cs.trace();
}
#endif
int main(int argc, char **argv) { return run_main(argc, argv, {{"queries", queries}, {"views", views}, {"nested", nested}, {"large", large}, {"points", points},
#ifdef CFG_RET
  {"refused", refused}
#endif
  }); }
