// C20: a layer computed tile by tile, from views or copies of the matching parts of its operands, gives the bytes of one whole call.
#include "geocall.h"
#include <map>
#include <cmath>
using namespace mc; using namespace reg;
enum Fam { CONV, FC, RNND, RNN, POOL, ELT, RELU, LEAKY, PRELU, ACT, NORM, ARGMAX, PERM, CONVERT, MOV };
typedef std::vector<std::pair<int, int>> Box;                                  // per dimension: offset, size
struct Plan { int out; Box box; std::vector<std::pair<int, Box>> in; bool ok = true; };
template <class C> static C *cfgOf(Call &k) { return (C *)(k.blks[0].b->data() + k.blks[0].off); }
static Box whole(const Ten &t) { Box b; for (int d = 0; d < t.rank(); d++) b.push_back({0, t.dim(d)}); return b; }
static int outOf(int fam) { static const int o[] = {3, 3, 1, 5, 1, 2, 1, 2, 2, 1, 1, 1, 1, 1, 1}; return o[fam]; }

// input rows a window range needs, and the padding left at the borders
static bool window(int o0, int n, int stride, int ek, int pad, int in, int &i0, int &ni, int &p0, int &p1) {
  int a = o0 * stride - pad, e = (o0 + n - 1) * stride + ek - pad; p0 = a < 0 ? -a : 0; p1 = e > in ? e - in : 0; i0 = a < 0 ? 0 : a; ni = std::min(e, in) - i0; return ni > 0;
}
// the same for a transposed convolution: the inputs whose kernel reaches the outputs, and what of it is cut off
static bool twindow(int o0, int n, int stride, int k, int pad, int in, int &i0, int &ni, int &p0, int &p1) {
  auto fl = [](int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
  int lo = fl(o0 + pad - k, stride) + 1, hi = fl(o0 + n - 1 + pad, stride); lo = std::max(lo, 0); hi = std::min(hi, in - 1); i0 = lo; ni = hi - lo + 1; if (ni < 1) return false;
  p0 = o0 + pad - lo * stride; p1 = (ni - 1) * stride + k - p0 - n; return p0 >= 0 && p0 < k && p1 >= 0 && p1 < k;
}
// operands and configuration of the tile `box` of the output; ok is false when the layer has no such tile
static Plan plan(int fam, Call &k, const Box &box) {
  Plan p; p.out = outOf(fam); p.box = box; const std::string &nm = k.name; auto same = [&](int i) { p.in.push_back({i, box}); };
  switch (fam) {
    case CONV: case POOL: {
      Ten &in = k.o(0); Box bi = whole(in); uint8_t *pad[4]; int sh, sw, ekh, ekw; bool tr = fam == CONV && nm.compare(0, 5, "trans") == 0;
      if (fam == CONV) { auto *c = cfgOf<mli_conv2d_cfg>(k); pad[0] = &c->padding_top; pad[1] = &c->padding_bottom; pad[2] = &c->padding_left; pad[3] = &c->padding_right; sh = c->stride_height; sw = c->stride_width; ekh = tr ? k.o(1).dim(0) : (k.o(1).dim(0) - 1) * c->dilation_height + 1; ekw = tr ? k.o(1).dim(1) : (k.o(1).dim(1) - 1) * c->dilation_width + 1; }
      else { auto *c = cfgOf<mli_pool_cfg>(k); pad[0] = &c->padding_top; pad[1] = &c->padding_bottom; pad[2] = &c->padding_left; pad[3] = &c->padding_right; sh = c->stride_height; sw = c->stride_width; ekh = c->kernel_height; ekw = c->kernel_width; }
      int a[4], b[4]; auto f = tr ? twindow : window;
      if (!f(box[0].first, box[0].second, sh, ekh, *pad[0], in.dim(0), a[0], a[1], a[2], a[3]) || !f(box[1].first, box[1].second, sw, ekw, *pad[2], in.dim(1), b[0], b[1], b[2], b[3])) { p.ok = false; return p; }
      *pad[0] = a[2]; *pad[1] = a[3]; *pad[2] = b[2]; *pad[3] = b[3]; bi[0] = {a[0], a[1]}; bi[1] = {b[0], b[1]};
      if (fam == POOL) bi[2] = box[2];
      else {
        Ten &w = k.o(1); Box bw = whole(w); bw[3] = box[2]; p.in.push_back({2, {box[2]}});
        if (nm.compare(0, 5, "depth") == 0) bi[2] = box[2];
        else if (nm.compare(0, 5, "group") == 0) { int g = in.dim(2) / w.dim(2), per = w.dim(3) / g; if (box[2].first % per || box[2].second % per) { p.ok = false; return p; } bi[2] = {box[2].first / per * w.dim(2), box[2].second / per * w.dim(2)}; }
        p.in.push_back({1, bw});
      }
      p.in.push_back({0, bi}); break; }
    case FC: { Box w = whole(k.o(1)); w[1] = box[0]; p.in = {{1, w}, {2, box}}; break; }
    case RNND: { p.in.push_back({0, box}); for (int i = 3; i < (int)k.ops.size(); i += 2) { Box w = whole(k.o(i)); w[1] = box[0]; p.in.push_back({i, w}); } break; }
    case ELT: for (int i = 0; i < 2; i++) if (k.o(i).count() > 1 || (k.o(i).rank() == k.o(2).rank() && k.o(2).count() == 1)) same(i); break;
    case RELU: case ACT: case CONVERT: same(0); break;
    case LEAKY: same(0); break;
    case PRELU: { same(0); int ax = cfgOf<mli_prelu_cfg>(k)->axis; Ten &s = k.o(1); if (ax >= 0 && s.count() > 1) { if (s.rank() == 1) p.in.push_back({1, {box[ax]}}); else { Box b = whole(s); b[ax] = box[ax]; p.in.push_back({1, b}); } } break; }
    case NORM: { int ax = cfgOf<mli_softmax_cfg>(k)->axis; Ten &in = k.o(0); for (int d = 0; d < in.rank(); d++) if ((ax < 0 || d == ax) && box[d].second != in.dim(d)) p.ok = false; same(0); break; }
    case PERM: { Box b(box.size()); auto *c = cfgOf<mli_permute_cfg>(k); for (size_t d = 0; d < box.size(); d++) b[c->perm_dim[d]] = box[d]; p.in.push_back({0, b}); break; }
    default: p.ok = false;
  }
  return p;
}
static std::string str(const Box &b) { std::string s; for (auto &x : b) s += "[" + std::to_string(x.first) + "," + std::to_string(x.first + x.second) + ")"; return s; }
// the part of a tensor as a view of its memory; the helper makes per-axis quantisation follow the part
static mli_tensor view(Case &cs, const Ten &t, const Box &b) {
  if (t.t.el_type == MLI_EL_FP_32) { mli_tensor v = t.t; size_t o = 0; for (size_t d = 0; d < b.size(); d++) { v.shape[d] = b[d].second; o += b[d].first * t.t.mem_stride[d]; } v.data.mem.pf32 += o; v.data.capacity -= 4 * o; return v; }      // windows of float tensors are not supported
  mli_sub_tensor_cfg c; memset(&c, 0, sizeof c); for (size_t d = 0; d < b.size(); d++) { c.offset[d] = b[d].first; c.size[d] = b[d].second; } c.sub_tensor_rank = t.rank();
  mli_tensor v; memset(&v, 0, sizeof v); mli_status st = mli_hlp_create_subtensor(&t.t, &c, &v); cs.call(); if (st != MLI_STATUS_OK) cs.fail("view", "mli_hlp_create_subtensor of %s: status %d", str(b).c_str(), st);
  return v;
}
// the part as a tensor of its own
static std::vector<int> sizes(const Box &b) { std::vector<int> v; for (auto &x : b) v.push_back(x.second); return v; }
static size_t lin(const Ten &t, const Box &b, size_t i) { size_t o = 0, m = 1; for (int d = (int)b.size() - 1; d >= 0; d--) { o += (b[d].first + i % b[d].second) * m; i /= b[d].second; m *= t.dim(d); } return o; }
static void quantOf(Ten &n, const Ten &t, const Box &b) {
  if ((t.t.el_type == MLI_EL_SA_8 || t.t.el_type == MLI_EL_SA_32) && t.perAxis()) { int d = t.t.el_params.sa.dim, o = b[d].first, e = o + b[d].second; n.saAxis(d, {t.zps.begin() + o, t.zps.begin() + e}, {t.scs.begin() + o, t.scs.begin() + e}, {t.fbs.begin() + o, t.fbs.begin() + e}); } else n.t.el_params = t.t.el_params;
}
static void copyOf(Ten &n, const Ten &t, const Box &b, bool data) {
  n.make(t.t.el_type, sizes(b)); quantOf(n, t, b); if (data) for (size_t i = 0; i < n.count(); i++) if (t.t.el_type == MLI_EL_FP_32) n.fset(i, t.fget(lin(t, b, i))); else n.set(i, t.get(lin(t, b, i)));
}
static bool perTensor(const Ten &t) { return !((t.t.el_type == MLI_EL_SA_8 || t.t.el_type == MLI_EL_SA_32) && t.perAxis()); }
static mli_tensor move(Case &cs, const mli_tensor &from, mli_tensor to, const Box *b) {
  mli_mov_cfg_t c; memset(&c, 0, sizeof c); for (unsigned d = 0; d < 4; d++) { c.sub_sample_step[d] = 1; c.perm_dim[d] = d; if (d < from.rank) { c.dst_mem_stride[d] = to.mem_stride[d]; if (b) { c.offset[d] = (*b)[d].first; c.size[d] = (*b)[d].second; } } }
  mli_status st = mli_mov_tensor_sync(&from, &c, &to); cs.call(); if (st != MLI_STATUS_OK) cs.fail("move", "mli_mov_tensor_sync: status %d", st);
  return to;
}
static uint64_t bits(const Ten &t, size_t i) { if (t.t.el_type != MLI_EL_FP_32) return (uint64_t)t.get(i); float f = t.fget(i); uint32_t u; memcpy(&u, &f, 4); return u; }
static bool inside(const Ten &t, const Box &b, size_t i) { for (int d = t.rank() - 1; d >= 0; d--) { int x = i % t.dim(d); i /= t.dim(d); if (x < b[d].first || x >= b[d].first + b[d].second) return false; } return true; }

// computes one tile of call k (whose operands are those of the whole call) into U.  access: 0 views of everything, 1 copies, 2 copies
// made and put back by data movement, 3 views of the inputs and an own output, 4 copied inputs and a view of the output
static void tile(Case &cs, int fam, Call &k, const Box &box, Ten &U, int access) {
  Plan p = plan(fam, k, box); if (!p.ok) cs.fail("plan", "no tile %s", str(box).c_str());
  std::deque<Ten> own; bool vin = access == 0 || access == 3, vout = access == 0 || access == 4;
  for (auto &x : p.in) {
    Ten &t = k.o(x.first); if (vin) { mli_tensor v = view(cs, t, x.second); t.t = v; continue; }
    own.emplace_back(); bool mv = access == 2; Ten &n = own.back(); copyOf(n, t, x.second, !mv); if (mv) { for (auto &z : n.zps) z = 0x55; for (auto &z : n.scs) z = 0x55; for (auto &z : n.fbs) z = 0x55; t.t = move(cs, t.t, n.t, &x.second); } else t.t = n.t;
  }
  Ten &o = k.o(p.out); mli_element_params q = o.t.el_params; Ten mine;
  if (vout) { o.t = view(cs, U, box); if (!perTensor(U)) {} else o.t.el_params = q; } else { copyOf(mine, U, box, false); if (perTensor(U)) mine.t.el_params = q; o.t = mine.t; }
  mli_tensor before = o.t; mli_status st = k(); cs.call(); if (st != MLI_STATUS_OK) cs.fail("status", "tile %s: status %d", str(box).c_str(), st);
  if (before.rank != o.t.rank || memcmp(before.shape, o.t.shape, sizeof before.shape[0] * before.rank) || before.data.mem.pi8 != o.t.data.mem.pi8) cs.fail("shape", "tile %s: the call changed the shape or place of its output", str(box).c_str());
  if (k.ops[p.out].setsQuant) U.t.el_params = o.t.el_params;
  if (!vout) { std::string w; i64 at; if (!mine.gapsIntact(&at)) cs.fail("guard", "tile %s: wrote outside of the tile", str(box).c_str());
    if (access == 2 && perTensor(U)) move(cs, mine.t, view(cs, U, box), nullptr); else for (size_t i = 0; i < mine.count(); i++) { size_t e = lin(U, box, i); if (U.t.el_type == MLI_EL_FP_32) U.fset(e, mine.fget(i)); else U.set(e, mine.get(i)); } }
  for (auto &x : own) { i64 at; if (!x.gapsIntact(&at)) cs.fail("guard", "tile %s: wrote outside of a copied operand", str(box).c_str()); }
}
static void compare(Case &cs, const Ten &W, const Ten &U, const Ten &U0, const Box *box, const char *what, Call &k) {
  i64 at; Ten c = U; if (!c.gapsIntact(&at)) cs.fail("gap", "%s: wrote between the elements of the output, byte %lld", what, (long long)at);
  for (size_t i = 0; i < U.count(); i++) { bool in = !box || inside(U, *box, i); uint64_t want = in ? bits(W, i) : bits(U0, i); if (bits(U, i) != want) cs.fail(in ? "differs" : "outside", in ? "%s: %s: element %zu is %lld, in the whole %lld" : "%s: %s: element %zu outside of the tile became %lld from %lld", k.name.c_str(), what, i, (long long)bits(U, i), (long long)want); }
  if (Call::qhash(W) != Call::qhash(U)) cs.fail("params", "%s: %s: quantisation of the result differs from the whole", k.name.c_str(), what);
}
// intervals of one dimension: all of a small one, the characteristic ones of a large one
static std::vector<std::pair<int, int>> cuts(int n, bool all) {
  std::vector<std::pair<int, int>> v; if (all || n <= 6) { for (int a = 0; a < n; a++) for (int b = a + 1; b <= n; b++) v.push_back({a, b - a}); return v; }
  static const std::vector<std::array<int, 4>> F = {{0, 1, 1, 2}, {1, 2, 1, 1}, {1, 3, 2, 3}, {0, 1, 1, 1}};      // fractions of the dimension
  for (auto &f : F) v.push_back({n * f[0] / f[1], n * f[2] / f[3] - n * f[0] / f[1]}); v.push_back({n - 1, 1}); if (thorough()) { v.push_back({0, 1}); v.push_back({1, n - 2}); } else v.erase(v.begin() + 3); return v;
}
static const std::vector<std::array<int, 2>> &list(bool big) {
  static std::vector<std::array<int, 2>> L[2]; auto &l = L[big]; if (l.empty()) { bool was = bigShapes(); bigShapes() = big; for (int f : {CONV, FC, RNND, POOL, ELT, RELU, LEAKY, PRELU, ACT, NORM, PERM, CONVERT}) for (int v = 0; v < families()[f].n; v++) l.push_back({f, v}); bigShapes() = was; } return l;
}
static Layout styled(int fam, int var, int style) { Layout l; Call p; make(p, fam, var); l.style.assign(p.ops.size(), style); return l; }
static std::vector<int> &outShape(int fam, int var, bool big) { static std::map<std::array<int, 3>, std::vector<int>> M; auto &s = M[{fam, var, big}]; if (s.empty()) { Call p; make(p, fam, var); Ten &o = p.o(outOf(fam)); for (int d = 0; d < o.rank(); d++) s.push_back(o.dim(d)); } return s; }
// a whole call and every one of its tiles
static void tiles(Case &cs, bool big) {
  bigShapes() = big; auto &c = cs.ch; auto &L = list(big); auto h = L[c.pick("call", L.size())]; int fam = h[0], var = h[1]; auto &sh = outShape(fam, var, big);
  Box box; for (size_t d = 0; d < sh.size(); d++) { auto v = cuts(sh[d], !big && thorough()); box.push_back(v[c.pick("interval", v.size())]); }
  int access = big ? c.of("access", tier<std::vector<int>>({0}, {0, 1, 2, 3, 4})) : c.pick("access", 5), style = c.of("style", tier<std::vector<int>>({1}, {0, 1, 3})), seed = c.range("data", 1, tier(1, 3));
  if (!cs.begin()) return;
  Layout l = styled(fam, var, style); Call w, k; make(w, fam, var, l, seed); make(k, fam, var, l, seed); { Call q; make(q, fam, var, l, seed); if (!plan(fam, q, box).ok) { cs.skip(); return; } }
  Ten U = k.o(outOf(fam)), U0 = U; mli_status st = w(); cs.call(); if (st != MLI_STATUS_OK) cs.fail("status", "%s: status %d", w.name.c_str(), st);
  tile(cs, fam, k, box, U, access); compare(cs, w.o(outOf(fam)), U, U0, &box, str(box).c_str(), k); cs.out(mix(U.hash(), access)); cs.trace(); bigShapes() = false;
}
static void small(Case &cs) { tiles(cs, false); }
static void larger(Case &cs) { tiles(cs, true); }
// every partition of the rows and of the columns of an image, processed tile after tile into one output
static void partition(Case &cs) {
  bigShapes() = false; auto &c = cs.ch; static std::vector<std::array<int, 2>> L; if (L.empty()) for (auto &h : list(false)) if (outShape(h[0], h[1], false).size() >= 2) L.push_back(h);
  auto h = L[c.pick("call", L.size())]; int fam = h[0], var = h[1]; auto sh = outShape(fam, var, false); auto comp = [&](int n) { std::vector<int> e; for (int i = 1; i < n; i++) if (c.flag("cut")) e.push_back(i); e.push_back(n); return e; };
  auto e0 = comp(std::min(sh[0], 5)), e1 = comp(std::min(sh[1], 5)); e0.back() = sh[0]; e1.back() = sh[1]; bool reverse = c.flag("reverse"); int access = c.of("access", tier<std::vector<int>>({0, 2}, {0, 1, 2, 3, 4}));
  if (!cs.begin()) return;
  Layout l = styled(fam, var, 1); Call w; make(w, fam, var, l, 1); mli_status st = w(); cs.call(); if (st != MLI_STATUS_OK) cs.fail("status", "%s: status %d", w.name.c_str(), st);
  Call k0; make(k0, fam, var, l, 1); Ten U = k0.o(outOf(fam)), U0 = U; int n = e0.size() * e1.size();
  for (int i = 0; i < n; i++) { int j = reverse ? n - 1 - i : i, y = j / e1.size(), x = j % e1.size(); Box b; for (int d : sh) b.push_back({0, d}); b[0] = {y ? e0[y - 1] : 0, 0}; b[0].second = e0[y] - b[0].first; b[1] = {x ? e1[x - 1] : 0, 0}; b[1].second = e1[x] - b[1].first;
    { Call q; make(q, fam, var, l, 1); if (!plan(fam, q, b).ok) { cs.skip(); return; } }
    Call k; make(k, fam, var, l, 1); tile(cs, fam, k, b, U, access); }
  compare(cs, w.o(outOf(fam)), U, U0, nullptr, "all tiles", k0); cs.out(U.hash()); cs.trace();
}
// one axis of a window layer in every small geometry, cut into every interval of its output
static void geometry(Case &cs) {
  static auto A = thorough() ? axes(8, 4, 3, 3, 6) : axes(6, 4, 3, 2, 3), T = thorough() ? trAxes(6, 5, 4) : trAxes(5, 4, 3);
  static auto P = [] { std::vector<Axis> v; for (auto &x : axes(thorough() ? 8 : 6, 4, 3, 1, 3)) if (x.pb < x.k && x.pe < x.k) v.push_back(x); return v; }(); static const Axis B[3] = {{2, 2, 1, 1, 1, 0}, {3, 3, 1, 1, 1, 1}, {1, 1, 1, 1, 0, 0}};
  auto &c = cs.ch; int kind = c.pick("kind", 6); auto &L = kind == 3 ? T : kind > 3 ? P : A; int a = c.pick("axis", L.size()), tr = c.pick("orientation", 2), fmt = c.pick("fmt", 3), b = kind == 3 ? 1 : c.of("other", tier<std::vector<int>>({1}, {0, 1, 2}));
  const Axis &x = L[a]; int n = kind == 3 ? (x.in - 1) * x.s + x.k - x.pb - x.pe : (x.in + x.pb + x.pe - ((x.k - 1) * x.d + 1)) / x.s + 1; int o = c.pick("from", n), m = c.range("size", 1, n - o), access = c.of("access", tier<std::vector<int>>({0}, {0, 1}));
  if (!cs.begin()) return;
  Geo g = tr ? geo(B[b], x, 2, 2, kind == 1 || kind == 2 ? 2 : 1) : geo(x, B[b], 2, 2, kind == 1 || kind == 2 ? 2 : 1); int fam = kind > 3 ? POOL : CONV, style = (a + o) % 4; bool any = false;
  std::vector<Ten> W; auto each = [&](const std::function<void(Call &)> &f) { if (kind > 3) poolCalls(kind - 4, fmt, g, style, 1 + a % 5, f); else convCalls(kind, fmt, g, style, 1 + a % 5, f); };
  each([&](Call &w) { mli_status st = w(); cs.call(); if (st != MLI_STATUS_OK) cs.fail("status", "%s: status %d", w.name.c_str(), st); W.push_back(w.o(outOf(fam))); });
  size_t i = 0; each([&](Call &k) {
    Ten &out = k.o(outOf(fam)); Box box = whole(out); box[tr ? 1 : 0] = {o, m}; Ten U = out, U0 = U; size_t at = i++; uint8_t p0[200]; size_t nb = std::min<size_t>(k.blks[0].n, 200); memcpy(p0, k.blks[0].b->data() + k.blks[0].off, nb); bool ok = plan(fam, k, box).ok; memcpy(k.blks[0].b->data() + k.blks[0].off, p0, nb); if (!ok) return;
    tile(cs, fam, k, box, U, access); compare(cs, W[at], U, U0, &box, str(box).c_str(), k); cs.out(U.hash()); any = true; });
  if (any) cs.trace(); else cs.skip();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"small", small}, {"larger", larger}, {"geometry", geometry}, {"partition", partition}}); }
