// C18: every load and store of a call stays inside what was passed to it.
#include "reg.h"
#include "mon.h"
#include "k3jobs.h"
using namespace mc;
static void elements(const Ten &t, int perm, const char *name) {     // elements get perm, gaps and guard zones nothing
  uint8_t *p = mon::add(t.mem.data(), t.mem.size(), 0, name); int es = esize(t.t.el_type); size_t b = t.base() - t.mem.data(), n = t.count();
  for (size_t i = 0; i < n; i++) memset(p + b + t.lin2off(i) * es, perm, es);
}
static void params(const Ten &t, const char *name, int perm) { if (!t.zps.empty()) { mon::add(t.zps.data(), t.zps.size() * 2, perm, name); mon::add(t.scs.data(), t.scs.size() * 2, perm, name); mon::add(t.fbs.data(), t.fbs.size(), perm, name); } }
static void permit(Call &k) {
  for (auto &o : k.ops) {
    elements(o.t, o.role == IN ? mon::R : o.role == OUT ? mon::W : mon::R | mon::W, o.name.c_str());
    mon::add(&o.t.t, sizeof(mli_tensor), o.role == IN ? mon::R : mon::R | mon::W, o.name.c_str()); params(o.t, o.name.c_str(), o.role != IN && o.setsQuant ? mon::R | mon::W : mon::R);   // a call that sets the output quantisation writes the caller's arrays
  }
  for (auto &b : k.blks) { mon::add(b.b->data() + b.off, b.n, b.rw ? mon::W : mon::R, b.name.c_str()); }
  for (auto *l : k.luts) { mon::add(&l->l, sizeof l->l, mon::R, "look-up table"); mon::add(l->l.data.mem.pi16, l->l.length * 2, mon::R, "look-up table data"); }
}
static mli_status guarded(Case &cs, Call &k, const char *what) {
  mon::clear(); permit(k); std::vector<mli_tensor> d0; std::vector<std::vector<uint8_t>> m0; std::vector<std::vector<uint8_t>> c0; for (auto &o : k.ops) { d0.push_back(o.t.t); m0.push_back(o.role == IN ? o.t.mem : std::vector<uint8_t>()); } for (auto &b : k.blks) c0.push_back(b.rw ? std::vector<uint8_t>() : *b.b);
  mon::stackTop = (uintptr_t)__builtin_frame_address(0); mon::start(); mli_status st = k(); mon::stop(); cs.call();
  if (st != MLI_STATUS_OK) cs.fail("status", "%s: status %d", what, st);
  if (!mon::bad.empty()) cs.fail("access", "%s: %s", what, mon::bad.c_str());
  if (mon::globalWrites) cs.fail("global", "%s: %" PRIu64 " write(s) to static data of the library", what, mon::globalWrites);
  if (!mon::accesses) cs.fail("monitor", "%s: no access observed", what);
  std::string w; if (!k.guards(w)) cs.fail("gap", "%s: wrote outside the elements of %s", what, w.c_str());
  for (size_t i = 0; i < k.ops.size(); i++) {
    auto &o = k.ops[i]; if (o.role == IN) { if (o.t.mem != m0[i] || memcmp(&o.t.t, &d0[i], sizeof(mli_tensor))) cs.fail("input", "%s: %s modified", what, o.name.c_str()); continue; }
    mli_tensor a = d0[i], b = o.t.t; if (o.setsQuant) a.el_params = b.el_params; if (o.setsShape) { a.rank = b.rank; memcpy(a.shape, b.shape, sizeof a.shape); memcpy(a.mem_stride, b.mem_stride, sizeof a.mem_stride); }
    if (a.rank != b.rank || a.el_type != b.el_type || memcmp(a.shape, b.shape, sizeof a.shape) || memcmp(a.mem_stride, b.mem_stride, sizeof a.mem_stride) || memcmp(&a.el_params, &b.el_params, sizeof a.el_params) || memcmp(&a.data, &b.data, sizeof a.data)) cs.fail("descriptor", "%s: descriptor of %s changed beyond the documented fields", what, o.name.c_str());
    // every output element must have been written
    if (o.role == OUT) for (auto &r : mon::regions) if (r.a == (uintptr_t)o.t.mem.data()) { int es = esize(o.t.t.el_type); size_t bb = o.t.base() - o.t.mem.data(), n = o.t.count(); for (size_t e = 0; e < n; e++) if (!(r.perm[bb + o.t.lin2off(e) * es] & mon::FRESH)) cs.fail("unwritten", "%s: element %zu of %s never written", what, e, o.name.c_str()); }
  }
  for (size_t i = 0; i < k.blks.size(); i++) if (!k.blks[i].rw && *k.blks[i].b != c0[i] && k.blks[i].name.find("list") == std::string::npos) cs.fail("cfg", "%s: %s modified", what, k.blks[i].name.c_str());
  cs.out(mix(k.result(), mon::accesses)); cs.trace(); return st;
}
static void registry(Case &cs, bool big) {
  reg::bigShapes() = big; auto &c = cs.ch; int fam, var; reg::pick(c, fam, var); int style = c.of("style", {0, 1, 2, 3}), place = c.of("place", {0, 1}), seed = big ? 1 : c.range("seed", 1, tier(3, 10)); if (big && place) return;
  if (!cs.begin()) return;
  Layout l; { Call p; reg::make(p, fam, var); l.style.assign(p.ops.size(), style); l.place.assign(p.ops.size(), place); }
  Call k; reg::make(k, fam, var, l, seed); guarded(cs, k, k.name.c_str());
}
static void small(Case &cs) { registry(cs, false); }
static void larger(Case &cs) { registry(cs, true); }
// convolutions: every geometry, with the window hanging over each border
static std::vector<Axis> trAxes(int maxin, int maxk, int maxs) {
  std::vector<Axis> v; for (int in = 1; in <= maxin; in++) for (int k = 1; k <= maxk; k++) for (int s = 1; s <= std::min(maxs, k); s++) for (int pb = 0; pb < k; pb++) for (int pe = 0; pe < k; pe++) if ((in - 1) * s + 1 >= k && (in - 1) * s + k - pb - pe >= 1) v.push_back({in, k, s, 1, pb, pe}); return v;
}
static void convGeo(Case &cs, int kind, int fmt, const Geo &g, int style) {
  struct Fx { const char *nm; int kh, sh; ConvFn fn[3]; };
  static const std::vector<Fx> F[4] = {
    {{"conv2d", 0, 0, FN3(conv2d, )}, {"conv2d_k1x1", 1, 0, FN3(conv2d, _k1x1)}, {"conv2d_k3x3", 3, 0, FN3(conv2d, _k3x3)}, {"conv2d_k5x5", 5, 0, FN3(conv2d, _k5x5)}},
    {{"depthwise", 0, 0, FN3(depthwise_conv2d, )}, {"depthwise_k3x3", 3, 0, FN3(depthwise_conv2d, _k3x3)}, {"depthwise_k5x5", 5, 0, FN3(depthwise_conv2d, _k5x5)}},
    {{"group", 0, 0, FN3(group_conv2d, )}, {"group_k3x3", 3, 0, FN3(group_conv2d, _k3x3)}, {"group_k5x5", 5, 0, FN3(group_conv2d, _k5x5)}},
    {{"transpose", 0, 0, FN3(transpose_conv2d, )}, {"transpose_k2x2", 2, 2, FN3(transpose_conv2d, _k2x2_str2)}, {"transpose_k4x4", 4, 2, FN3(transpose_conv2d, _k4x4_str2)}}};
  bool tr = kind == 3; int OH = tr ? (g.H - 1) * g.sh + g.kh - g.pt - g.pb : g.OH(), OW = tr ? (g.W - 1) * g.sw + g.kw - g.pl - g.pr : g.OW();
  for (auto &f : F[kind]) {
    if (f.kh && (g.kh != f.kh || g.kw != f.kh)) continue; if (f.sh && (g.sh != f.sh || g.sw != f.sh)) continue;
    Call K; K.lay.style.assign(4, style); Ten &in = K.op("input", IN, inT(fmt), {g.H, g.W, g.Ci}, 3), &w = K.op("weights", IN, wT(fmt), {g.kh, g.kw, g.Ci / g.G, g.Co}, 7), &b = K.op("bias", IN, bT(fmt), {g.Co}), &out = K.op("output", OUT, inT(fmt), {OH, OW, g.Co}, 3);
    ConvTensors X; X.in = in; X.w = w; X.b = b; X.out = out; setQuant(X, fmt, dfltQ(fmt), 3, g.Co); dataConv(X, fmt, P_RND, 3, 4000); in = X.in; w = X.w; b = X.b; out = X.out;
    mli_conv2d_cfg *cfg = K.cfg<mli_conv2d_cfg>(); *cfg = convCfg(g, MLI_RELU_NONE); ConvFn fn = f.fn[fmt]; K.run = [fn, cfg](Call &k) { return fn(k.p(0), k.p(1), k.p(2), cfg, k.p(3)); };
    std::string nm = std::string(f.nm) + " " + fmtName(fmt) + " " + g.str(); guarded(cs, K, nm.c_str());
  }
}
static void geometry(Case &cs) {
  static auto A = thorough() ? axes(4, 3, 3, 2, 2) : axes(3, 3, 2, 2, 2), T = thorough() ? trAxes(4, 4, 3) : trAxes(3, 4, 2);
  auto &c = cs.ch; int kind = c.pick("kind", 4), fmt = c.pick("fmt", 3), a = c.pick("haxis", kind == 3 ? T.size() : A.size()), b = c.pick("waxis", kind == 3 ? T.size() : A.size());
  if (!cs.begin()) return;
  auto &L = kind == 3 ? T : A; int n = 1 + (a + b) % 2; Geo g = geo(L[a], L[b], kind == 1 ? 2 : n * (kind == 2 ? 2 : 1), kind == 1 ? 2 : kind == 2 ? 2 : 3 - n, kind == 1 || kind == 2 ? 2 : 1); convGeo(cs, kind, fmt, g, (a + 2 * b) % 4);
}
static void longAxis(Case &cs) {
  static auto A = thorough() ? axes(9, 5, 3, 3, 8) : axes(6, 5, 3, 3, 5), T = trAxes(6, 5, 4); static const Axis B[2] = {{2, 2, 1, 1, 1, 0}, {3, 3, 1, 1, 1, 1}};
  auto &c = cs.ch; int kind = c.pick("kind", 4), a = c.pick("axis", kind == 3 ? T.size() : A.size()), b = c.pick("other", 2), tr = c.pick("transposed", 2), fmt = c.pick("fmt", 3);
  if (!cs.begin()) return;
  if (kind == 3 && b == 0) { cs.skip(); return; }
  auto &L = kind == 3 ? T : A; Geo g = tr ? geo(B[b], L[a], 2, 2, kind == 1 || kind == 2 ? 2 : 1) : geo(L[a], B[b], 2, 2, kind == 1 || kind == 2 ? 2 : 1); convGeo(cs, kind, fmt, g, (a + b) % 4);
}
static void pools(Case &cs) {
  static auto A = [] { std::vector<Axis> v; for (auto &x : axes(thorough() ? 5 : 4, 4, 2, 1, 3)) if (x.pb < x.k && x.pe < x.k) v.push_back(x); return v; }();
  auto &c = cs.ch; int kind = c.pick("kind", 2), f = c.pick("fmt", 3), a = c.pick("haxis", A.size()), b = c.pick("waxis", A.size());
  if (!cs.begin()) return;
  static const reg::PoolFn F[2][3][3] = {
    {{mli_krn_maxpool_hwc_fx16, mli_krn_maxpool_hwc_fx16_k2x2, mli_krn_maxpool_hwc_fx16_k3x3}, {mli_krn_maxpool_hwc_fx8, mli_krn_maxpool_hwc_fx8_k2x2, mli_krn_maxpool_hwc_fx8_k3x3}, {mli_krn_maxpool_hwc_sa8, mli_krn_maxpool_hwc_sa8_k2x2, mli_krn_maxpool_hwc_sa8_k3x3}},
    {{mli_krn_avepool_hwc_fx16, mli_krn_avepool_hwc_fx16_k2x2, mli_krn_avepool_hwc_fx16_k3x3}, {mli_krn_avepool_hwc_fx8, mli_krn_avepool_hwc_fx8_k2x2, mli_krn_avepool_hwc_fx8_k3x3}, {mli_krn_avepool_hwc_sa8, mli_krn_avepool_hwc_sa8_k2x2, mli_krn_avepool_hwc_sa8_k3x3}}};
  Geo g = geo(A[a], A[b], 1 + (a ^ b) % 3, 0);
  for (int z = 0; z < 3; z++) {
    if (z && (g.kh != z + 1 || g.kw != z + 1)) continue;
    Call K; K.lay.style.assign(2, (a + b) % 4); Ten &in = K.op("input", IN, kE3[f], {g.H, g.W, g.Ci}, 3), &out = K.op("output", OUT, kE3[f], {g.OH(), g.OW(), g.Ci}, 3); K.ops.back().setsQuant = kind == 0; fill(in, P_RND, a); setq3(in, f, 5, 7, 23, 10); setq3(out, f, 4, -5, 31, 10);
    auto *p = K.cfg<mli_pool_cfg>(); p->kernel_width = g.kw; p->kernel_height = g.kh; p->stride_width = g.sw; p->stride_height = g.sh; p->padding_left = g.pl; p->padding_right = g.pr; p->padding_top = g.pt; p->padding_bottom = g.pb; auto fn = F[kind][f][z]; K.run = [=](Call &k) { return fn(k.p(0), p, k.p(1)); };
    std::string nm = std::string(kind ? "avepool " : "maxpool ") + kE3n[f] + " variant " + std::to_string(z) + " " + g.str(); guarded(cs, K, nm.c_str());
  }
}
// table creation writes only the announced bytes of the table
static void tables(Case &cs) {
  auto &c = cs.ch; int t = c.pick("table", 4), extra = c.of("extra capacity", {0, 2, 64, 512});
  if (!cs.begin()) return;
  static const LutSize S[4] = {mli_krn_sigm_get_lut_size, mli_krn_tanh_get_lut_size, mli_krn_softmax_get_lut_size, mli_krn_l2_normalize_get_lut_size}; static const LutCreate C[4] = {mli_krn_sigm_create_lut, mli_krn_tanh_create_lut, mli_krn_softmax_create_lut, mli_krn_l2_normalize_create_lut};
  int n = S[t](); std::vector<uint8_t> m(n + extra + 128); for (size_t i = 0; i < m.size(); i++) m[i] = canary(i); static mli_lut *l = new mli_lut; memset(l, 0, sizeof *l); l->data.mem.pi8 = (int8_t *)m.data() + 64; l->data.capacity = n + extra;
  mon::clear(); mon::add(l, sizeof *l, mon::R | mon::W, "table descriptor"); uint8_t *p = mon::add(m.data(), m.size(), 0, "table buffer"); memset(p + 64, mon::W, n); mon::stackTop = (uintptr_t)__builtin_frame_address(0); mon::start(); mli_status st = C[t](l); mon::stop(); cs.call();
  if (st || !mon::bad.empty() || mon::globalWrites) cs.fail("access", "creating table %d: status %d %s", t, st, mon::bad.c_str());
  cs.out(mixb(1, m.data(), m.size())); cs.trace();
}
// MLI 3.0: while a tile is computed only its operands, the parameters and the runtime object are read, and only its output and the
// runtime object written; stepping from tile to tile touches nothing but the runtime object
struct Watch30 : k3::Watch {
  Case &c; uint64_t n = 0; Watch30(Case &c_) : c(c_) {}
  void before(k3::K3 &k, const k3::Guarded &ob, bool issue) override {
    mon::clear(); mon::add(ob.p, ob.n, mon::R | mon::W, "runtime object");
    for (int m = 0; m < 2; m++) { auto &b = k.bank[k.cp[m]][m]; uint8_t *q = mon::add(b.data(), b.size() * 8, 0, m ? "memory bank 1" : "memory bank 0"); if (!issue) continue; q += k.base(m) - (uint8_t *)b.data(); for (size_t i = 0; i < k.vol[m].size(); i++) q[i] = (k.vol[m][i] | k.par[m][i] ? mon::R : 0) | (k.isOut[m][i] ? mon::W : 0); }
    mon::stackTop = (uintptr_t)__builtin_frame_address(0); mon::start();
  }
  void after(k3::K3 &k, const char *op) override {
    mon::stop(); n += mon::accesses; if (!mon::bad.empty()) c.fail("access", "%s %s: %s", k.what, op, mon::bad.c_str());
    if (mon::globalWrites) c.fail("global", "%s %s: write to static data of the library", k.what, op);
  }
};
static void kernels30(Case &cs) {
  auto &J = k3::jobs(); struct Reset { ~Reset() { mon::stop(); k3::place = k3::Place(); k3::mode = k3::Mode(); } } g; int j = cs.ch.pick("job", J.size()); k3::pickLayout(cs, J[j]); if (!cs.begin()) return;
  Watch30 w(cs); k3::mode = k3::Mode(); k3::mode.begun = true; k3::mode.watch = &w; J[j].run(cs, 91); if (!w.n) cs.fail("monitor", "%s: no access observed", J[j].nm.c_str()); cs.trace();
}
int main(int argc, char **argv) { for (int i = 0; i < 4; i++) lutOf(i); return run_main(argc, argv, {{"tables", tables}, {"registry", small}, {"registry_large", larger}, {"geometry", geometry}, {"long_axis", longAxis}, {"pooling", pools}, {"kernels30", kernels30}}); }
