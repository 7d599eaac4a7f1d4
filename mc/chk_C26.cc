// C26: tensor iterators and tensor descriptors, explored exhaustively over small shapes.
#include "mc.h"
#include "mli_types.hpp"
#include "mli_iterator.hpp"
using namespace mc;
namespace L = snps_arc::metaware::mli;
using NB = L::NoBuffer; using OB = L::OffsetBuffer; using IB = L::InternalBuffer;

static void perms(int r, std::vector<std::vector<int>> &out) { std::vector<int> p(r); for (int i = 0; i < r; i++) p[i] = i; do out.push_back(p); while (std::next_permutation(p.begin(), p.end())); }
static const std::vector<std::vector<int>> &permTab(int r) { static std::vector<std::vector<int>> t[6]; if (t[r].empty()) perms(r, t[r]); return t[r]; }

// expectation for one iteration dimension: list of (position, size)
struct Seg { int pos, size; };
typedef std::vector<Seg> Segs;

// walk an iterator for `cycles` rounds and compare every observable with the expected list of tiles
template <class B, unsigned TR, unsigned IR>
static void walk(Case &c, L::TensorIterator<B, TR, IR> it, const Segs *sg, const int *order, const int *dims, const int *str, int cycles, bool incs, bool sameCfgSize, const char *what) {
  int idx[IR] = {0}; uint64_t h = 0;
  int total = 1; for (unsigned i = 0; i < IR; i++) total *= (int)sg[i].size();
  if ((int)it.GetTotalCount() != total) c.fail("total-count", "%s: GetTotalCount %u, expected %d", what, it.GetTotalCount(), total);
  L::TensorIterator<B, TR, IR> ito = it, itp = it;   // walked with the increment-reporting variants
  long off = 0; int32_t base[TR]; for (unsigned i = 0; i < TR; i++) base[i] = 0;
  for (unsigned i = 0; i < IR; i++) if (order[i] >= 0) { base[order[i]] = sg[i][0].pos; off += (long)sg[i][0].pos * str[order[i]]; }
  std::map<uint32_t, std::vector<int>> upd;
  for (long step = 0; step < (long)total * cycles + 1; step++) {
    int32_t pos[IR], ti[IR]; it.get_pos(pos); it.get_tile_idx(ti);
    for (unsigned i = 0; i < IR; i++) {
      int n = (int)sg[i].size();
      if (ti[i] != idx[i]) c.fail("tile-index", "%s step %ld: tile index of iteration dim %u is %d, expected %d", what, step, i, ti[i], idx[i]);
      if (order[i] >= 0 && pos[i] != sg[i][idx[i]].pos) c.fail("position", "%s step %ld: position of iteration dim %u is %d, expected %d", what, step, i, pos[i], sg[i][idx[i]].pos);
      if (it.GetPos(i) != pos[i]) c.fail("getpos", "%s step %ld: GetPos(%u)", what, step, i);
      if (it.is_first_tile(i) != (idx[i] == 0) || it.is_last_tile(i) != (idx[i] == n - 1)) c.fail("first-last", "%s step %ld: first/last flag of iteration dim %u (tile %d of %d) are %d/%d", what, step, i, idx[i], n, it.is_first_tile(i), it.is_last_tile(i));
    }
    auto s = it.GetSubTensor();
    long eo = 0; uint32_t es[TR]; for (unsigned d = 0; d < TR; d++) es[d] = dims[d];
    for (unsigned i = 0; i < IR; i++) if (order[i] >= 0) { es[order[i]] = sg[i][idx[i]].size; eo += (long)sg[i][idx[i]].pos * str[order[i]]; }
    for (unsigned d = 0; d < TR; d++) {
      if (s.get_dim(d) != es[d]) c.fail("sub-shape", "%s step %ld: sub-tensor dim %u is %u, expected %u", what, step, d, s.get_dim(d), es[d]);
      if (s.get_mem_stride(d) != str[d]) c.fail("sub-stride", "%s step %ld: sub-tensor stride %u is %d, expected %d", what, step, d, s.get_mem_stride(d), str[d]);
    }
    if ((long)(int32_t)s.get_offs() != eo) c.fail("sub-offset", "%s step %ld: sub-tensor offset %d, expected %ld", what, step, (int32_t)s.get_offs(), eo);
    if (sameCfgSize) {
      std::vector<int> sz; for (unsigned i = 0; i < IR; i++) sz.push_back(sg[i][idx[i]].size);
      uint32_t u = it.get_update_idx(); auto f = upd.find(u);
      if (f == upd.end()) { for (auto &k : upd) if (k.second == sz) c.fail("update-index", "%s step %ld: tiles of equal shape have different update indexes %u and %u", what, step, k.first, u); upd[u] = sz; }
      else if (f->second != sz) c.fail("update-index", "%s step %ld: update index %u stands for two different tile shapes", what, step, u);
    }
    if (incs) {
      if (off != eo) c.fail("offset-inc", "%s step %ld: offset accumulated from Next(offset_inc) is %ld, tile is at %ld", what, step, off, eo);
      for (unsigned i = 0; i < IR; i++) if (order[i] >= 0 && base[order[i]] != sg[i][idx[i]].pos) c.fail("pos-inc", "%s step %ld: position accumulated from Next(pos_inc) is %d in dim %d, expected %d", what, step, base[order[i]], order[i], sg[i][idx[i]].pos);
    }
    h = mixb(h, es, sizeof es); h = mix(h, eo);
    // advance
    bool done = it.Next(), ed = false;
    for (unsigned i = 0; i < IR; i++) { if (++idx[i] < (int)sg[i].size()) break; idx[i] = 0; if (i == IR - 1) ed = true; }
    if (done != ed) c.fail("done", "%s step %ld: Next() says %s, expected %s", what, step, done ? "done" : "more", ed ? "done" : "more");
    if (incs) {
      int32_t o; if (ito.Next(o) != ed) c.fail("done-offset", "%s step %ld: Next(offset_inc) done flag", what, step);
      off += o; int32_t pi[TR]; if (itp.Next(pi) != ed) c.fail("done-pos", "%s step %ld: Next(pos_inc) done flag", what, step);
      for (unsigned d = 0; d < TR; d++) base[d] += pi[d];
    }
    c.call();
  }
  c.out(h); c.trace();
}

// disjoint tiling of one dimension
static Segs tiles(int dim, int tile, int skew) {
  Segs s; int p = 0, first = tile - skew; if (first > dim) first = dim;
  if (first > 0) { s.push_back({0, first}); p = first; }
  while (p < dim) { int n = std::min(tile, dim - p); s.push_back({p, n}); p += n; }
  return s;
}

template <unsigned R> static void setup_strides(const int *dims, int layout, int *str) {
  int st = 1;
  if (layout == 2) for (unsigned d = 0; d < R; d++) { str[d] = st; st *= dims[d]; }        // first axis innermost
  else for (int d = R - 1; d >= 0; d--) { str[d] = st; st *= dims[d] + (layout ? (d % 2 ? 2 : 1) : 0); }
}

template <unsigned R> static void disjoint(Case &c, const std::vector<int> &ds, int layouts, bool skews, bool seven) {
  int dims[R]; uint32_t tile[R], sh[R]; int32_t order[R], str[R];
  for (unsigned d = 0; d < R; d++) dims[d] = c.ch.of("dim", ds);
  for (unsigned d = 0; d < R; d++) tile[d] = c.ch.range("tile", 1, dims[d]);
  auto &P = permTab(R); auto &p = P[c.ch.pick("order", (int)P.size())];
  for (unsigned d = 0; d < R; d++) order[d] = p[d], sh[d] = dims[d];
  int lay = c.ch.pick("layout", layouts);
  int skew = skews ? c.ch.pick("skew", (int)tile[order[0]]) : 0;
  if (!c.begin()) return;
  setup_strides<R>(dims, lay, str);
  Segs sg[R]; for (unsigned i = 0; i < R; i++) sg[i] = tiles(dims[order[i]], tile[order[i]], i == 0 ? skew : 0);
  int want = 1; for (unsigned i = 0; i < R; i++) want *= (int)sg[i].size();
  // a skew that makes the single tile start before the tensor: count = ceil((dim+skew)/tile) is what the declared tiling says
  L::Tensor<NB, R> t(sh, str);
  if (skew) { L::IteratorCfg<R> cfg(t, tile, order, skew); walk(c, L::TensorIterator<NB, R, R>(t, cfg), sg, order, dims, str, 2, true, true, "skewed"); return; }
  L::TensorIterator<NB, R, R> it(t, tile, order);
  walk(c, it, sg, order, dims, str, 2, true, true, "tiled");
  // binding to buffers keeps the state, at every point of the cycle
  long at = 0; (void)seven;
  L::TensorIterator<OB, R, R> ob(it); ob.set_buf(OB(64, 1, 4096, 1));
  uint64_t bases[2] = {0x1000, 0x20000};
  walk(c, ob, sg, order, dims, str, 1, true, true, "offset-buffer");
  L::TensorIterator<NB, R, R> cur = it; int n = want;
  for (at = 0; at < n; at++) {
    L::TensorIterator<OB, R, R> o2(cur); o2.set_buf(OB(64, 1, 4096, 1));
    L::TensorIterator<IB, R, R> i2(o2, bases, 2);
    int32_t a[R], b[R], d[R]; cur.get_pos(a); o2.get_pos(b); i2.get_pos(d);
    if (memcmp(a, b, sizeof a) || memcmp(a, d, sizeof a)) c.fail("copy-pos", "copy at step %ld changes the position", at);
    cur.get_tile_idx(a); o2.get_tile_idx(b); i2.get_tile_idx(d);
    if (memcmp(a, b, sizeof a) || memcmp(a, d, sizeof a)) c.fail("copy-idx", "copy at step %ld changes the tile index", at);
    auto s0 = cur.GetSubTensor(); auto s2 = i2.GetSubTensor();
    for (unsigned k = 0; k < R; k++) if (s0.get_dim(k) != s2.get_dim(k) || s0.get_mem_stride(k) != s2.get_mem_stride(k)) c.fail("copy-sub", "copy at step %ld: sub-tensor dim %u differs", at, k);
    if (s0.get_offs() != s2.get_offs()) c.fail("copy-offs", "copy at step %ld: sub-tensor offset differs", at);
    IB ib = s2.get_buf();
    if ((uint64_t)ib.template get_ptr<char>() != 0x20000 + 64) c.fail("copy-base", "buffer is not at base + offset");
    bool d0 = cur.Next(), d1 = o2.Next(), d2 = i2.Next();
    if (d0 != d1 || d0 != d2) c.fail("copy-done", "copy at step %ld: done flag differs", at);
    auto r2 = i2; r2.Reset(); r2.get_tile_idx(a); for (unsigned k = 0; k < R; k++) if (a[k]) c.fail("reset", "Reset leaves a tile index at %d", a[k]);
    r2.get_pos(a); for (unsigned k = 0; k < R; k++) if (a[k]) c.fail("reset", "Reset leaves a position at %d", a[k]);
  }
  // each element exactly once
  std::vector<int> seen; int vol = 1; for (unsigned d = 0; d < R; d++) vol *= dims[d]; seen.assign(vol, 0);
  for (at = 0; at < n; at++) {
    auto s = it.GetSubTensor(); int32_t ps[R]; it.get_pos(ps); int p0[R]; for (unsigned i = 0; i < R; i++) p0[order[i]] = ps[i];
    int e[R] = {0};
    for (;;) { int ix = 0; for (unsigned d = 0; d < R; d++) { int q = p0[d] + e[d]; if (q >= dims[d]) c.fail("cover", "tile reaches element %d of dim %u with extent %d", q, d, dims[d]); ix = ix * dims[d] + q; } seen[ix]++;
      int d = R - 1; while (d >= 0 && ++e[d] >= (int)s.get_dim(d)) e[d--] = 0; if (d < 0) break; }
    it.Next();
  }
  for (int i = 0; i < vol; i++) if (seen[i] != 1) c.fail("cover", "element %d visited %d times", i, seen[i]);
}
static void r1(Case &c) { disjoint<1>(c, tier<std::vector<int>>({1, 2, 3, 4, 5, 6, 7, 8, 9, 17}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33}), 2, true, true); }
static void r2(Case &c) { disjoint<2>(c, tier<std::vector<int>>({1, 2, 3, 4, 5, 6, 7, 8, 9}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17}), 3, true, true); }
static void r3(Case &c) { disjoint<3>(c, tier<std::vector<int>>({1, 2, 3, 4, 5}, {1, 2, 3, 4, 5, 6, 7, 8}), 2, true, true); }
static void r4(Case &c) { disjoint<4>(c, tier<std::vector<int>>({1, 2, 4}, {1, 2, 3, 4, 5}), tier(3, 2), false, true); }
static void r4s(Case &c) { disjoint<4>(c, {2, 3}, 1, true, true); }
static void r5(Case &c) { disjoint<5>(c, tier<std::vector<int>>({1, 3}, {1, 2, 4}), tier(3, 1), tier(true, false), true); }

// explicit configuration: any count / first, middle, last increments and sizes
static void explicitCfg(Case &c) {
  constexpr unsigned R = 2; int dims[R] = {12, 9}, str[R] = {9, 1}; uint32_t sh[R] = {12, 9};
  int32_t cnt[R], fi[R], in[R], li[R], fs[R], sz[R], ls[R], order[R]; Segs sg[R];
  bool sw = c.ch.flag("swap"); order[0] = sw ? 1 : 0; order[1] = sw ? 0 : 1;
  for (unsigned i = 0; i < R; i++) {
    cnt[i] = c.ch.range("count", 1, 4); fi[i] = c.ch.range("first_inc", 0, tier(2, 2)); in[i] = c.ch.range("inc", 0, tier(2, 2));
    fs[i] = c.ch.of("first_size", {1, 3}); sz[i] = c.ch.of("size", {1, 2}); ls[i] = c.ch.of("last_size", {1, 2});
  }
  bool cyclic = c.ch.flag("returning");
  if (!c.begin()) return;
  for (unsigned i = 0; i < R; i++) {
    int p = 0; sg[i].clear();
    for (int k = 0; k < cnt[i]; k++) { sg[i].push_back({p, k == cnt[i] - 1 ? ls[i] : k == 0 ? fs[i] : sz[i]}); p += k == 0 ? fi[i] : in[i]; }
    li[i] = cyclic ? -sg[i].back().pos : 5;
    if (cyclic && cnt[i] > 1) { int32_t g = L::service::get_last_increment(cnt[i], fi[i], in[i]); if (g != li[i]) c.fail("last-increment", "get_last_increment(%d,%d,%d) = %d, expected %d", cnt[i], fi[i], in[i], g, li[i]); }
  }
  L::Tensor<NB, R> t(sh, str); L::IteratorCfg<R> cfg(order, cnt, fi, in, li, fs, sz, ls);
  for (unsigned i = 0; i < R; i++) if (cfg.get_order(i) != order[i] || cfg.get_count(i) != cnt[i] || cfg.get_first_inc(i) != fi[i] || cfg.get_inc(i) != in[i] || cfg.get_last_inc(i) != li[i] || (int)cfg.get_first_size(i) != fs[i] || (int)cfg.get_size(i) != sz[i] || (int)cfg.get_last_size(i) != ls[i]) c.fail("cfg-getters", "configuration of dim %u is not kept", i);
  walk(c, L::TensorIterator<NB, R, R>(t, cfg), sg, order, dims, str, 2, cyclic, false, "explicit");
  // update index: equal index exactly when the declared sizes are equal
  { L::TensorIterator<NB, R, R> it(t, cfg); std::map<uint32_t, std::vector<int>> m; int n = cnt[0] * cnt[1];
    for (int k = 0; k < n; k++) { int a = k % cnt[0], b = k / cnt[0]; std::vector<int> v{sg[0][a].size, sg[1][b].size}; uint32_t u = it.get_update_idx();
      if (m.count(u) && m[u] != v) c.fail("update-index", "update index %u stands for tiles %dx%d and %dx%d", u, m[u][0], m[u][1], v[0], v[1]);
      for (auto &q : m) if (q.second == v && q.first != u) c.fail("update-index", "tiles of shape %dx%d have update indexes %u and %u", v[0], v[1], q.first, u);
      m[u] = v; it.Next(); } }
}

// input tiles derived from output tiles through a window
struct Win { int out, tile, k, s, p, in; };
static bool pickWin(Case &c, Win &w, int maxo, int maxk, int maxs) {
  w.out = c.ch.range("out", 1, maxo); w.tile = c.ch.range("tile", 1, w.out); w.k = c.ch.range("k", 1, maxk); w.s = c.ch.range("s", 1, maxs);
  w.p = c.ch.range("pad", 0, w.k - 1); int pe = c.ch.range("pad_end", 0, w.k - 1); int rem = c.ch.range("rem", 0, w.s - 1);
  w.in = (w.out - 1) * w.s + w.k - w.p - pe + rem;
  if (pe > 0 && rem > 0) return false;                // the remainder would be part of the padding
  return w.in >= 1 && w.in + w.p >= w.k - pe && (w.in + w.p + pe - w.k) / w.s + 1 == w.out && w.tile * w.s >= w.p;
}
static bool winSegs(const Win &w, Segs &sg) {
  sg.clear(); Segs o = tiles(w.out, w.tile, 0);
  for (size_t i = 0; i < o.size(); i++) {
    int b = o[i].pos * w.s - w.p, e = (o[i].pos + o[i].size - 1) * w.s + w.k - w.p;
    if (b < 0) b = 0; if (e > w.in) e = w.in; if (i + 1 == o.size()) e = w.in;   // the last tile reaches the end of the tensor
    if (e - b <= 0) return false;                     // a tile that only sees padding is outside the domain
    sg.push_back({b, e - b});
  }
  return true;
}
static void window1(Case &c) {
  Win w; bool ok = pickWin(c, w, tier(10, 16), tier(6, 8), tier(4, 5)); if (!c.begin()) return; if (!ok) { c.skip(); return; }
  Segs sg[1]; if (!winSegs(w, sg[0])) { c.skip(); return; }
  uint32_t so[1] = {(uint32_t)w.out}, si[1] = {(uint32_t)w.in}, tl[1] = {(uint32_t)w.tile}, ek[1] = {(uint32_t)w.k}, st[1] = {(uint32_t)w.s}, pp[1] = {(uint32_t)w.p}; int32_t order[1] = {0}; int dims[1] = {w.in}, str[1] = {1};
  L::TensorIterator<NB, 1, 1> ot(L::Tensor<NB, 1>(so), tl, order); L::Tensor<NB, 1> ti(si);
  L::TensorIterator<NB, 1, 1> it(ti, ot, ek, st, pp);
  walk(c, it, sg, order, dims, str, 2, true, false, "window");
  // equal update index => equal declared shape, hence equal padded extent
  // without the overlap between neighbours: same union, disjoint
  bool clip = false; { Segs o = tiles(w.out, w.tile, 0); for (size_t i = 0; i + 1 < o.size(); i++) if ((o[i].pos + o[i].size - 1) * w.s + w.k - w.p > w.in) clip = true; }
  if (sg[0].size() > 1 && !clip && w.k >= w.s) {
    Segs d[1]; int e = 0; for (auto &x : sg[0]) { d[0].push_back({e, x.pos + x.size - e}); e = x.pos + x.size; }
    bool pos = true; for (auto &x : d[0]) if (x.size <= 0) pos = false;
    if (pos) { L::TensorIterator<NB, 1, 1> r = it; r.RemoveOverlapAdjacentTiles(); walk(c, r, d, order, dims, str, 2, true, false, "without overlap"); }
  }
  // positions in the padded coordinate system
  { L::TensorIterator<NB, 1, 1> r = it; r.ApplyPrePadding(pp); L::TensorIterator<NB, 1, 1> o2 = ot;
    for (size_t k = 0; k < sg[0].size() * 2; k++) { if (r.GetPos(0) != o2.GetPos(0) * w.s) c.fail("pre-padding", "tile %zu: position %d in padded coordinates, expected %d", k, r.GetPos(0), o2.GetPos(0) * w.s); r.Next(); o2.Next(); } }
}
static void window2(Case &c) {  // two windowed dimensions among five, iterated in any order
  constexpr unsigned R = 5; Win h, w; bool ok = pickWin(c, h, tier(3, 4), tier(3, 3), 2) & pickWin(c, w, tier(3, 4), tier(2, 3), tier(1, 2));
  auto &P = permTab(5); auto &p = P[tier(c.ch.pick("order", 8) * 15 + 4, c.ch.pick("order15", 8) * 15 + 4)];
  int nc = c.ch.of("channels", {1, 3}), tc = c.ch.range("ctile", 1, nc);
  if (!c.begin()) return; if (!ok) { c.skip(); return; }
  uint32_t so[R] = {1, (uint32_t)h.out, (uint32_t)w.out, 1, (uint32_t)nc}, si[R] = {1, (uint32_t)h.in, (uint32_t)w.in, 1, 2}, tl[R] = {1, (uint32_t)h.tile, (uint32_t)w.tile, 1, (uint32_t)tc};
  uint32_t ek[R] = {1, (uint32_t)h.k, (uint32_t)w.k, 1, 2}, st[R] = {1, (uint32_t)h.s, (uint32_t)w.s, 1, 0}, pp[R] = {0, (uint32_t)h.p, (uint32_t)w.p, 0, 0};
  int32_t order[R]; for (unsigned i = 0; i < R; i++) order[i] = p[i];
  Segs a, b; if (!winSegs(h, a) || !winSegs(w, b)) { c.skip(); return; }
  int dims[R], str[R]; for (unsigned d = 0; d < R; d++) dims[d] = si[d]; setup_strides<R>(dims, 1, str);
  L::TensorIterator<NB, R, R> ot(L::Tensor<NB, R>(so), tl, order); L::Tensor<NB, R> ti(si, str);
  L::TensorIterator<NB, R, R> it(ti, ot, ek, st, pp);
  Segs sg[R]; int nct = (int)tiles(nc, tc, 0).size();
  for (unsigned i = 0; i < R; i++) switch (order[i]) { case 1: sg[i] = a; break; case 2: sg[i] = b; break; case 4: for (int k = 0; k < nct; k++) sg[i].push_back({0, 2}); break; default: sg[i].push_back({0, 1}); }
  walk(c, it, sg, order, dims, str, 1, true, false, "window2");
  // weights follow the channel tile only, zero points likewise (the order arrays the library documents)
  {
    uint32_t ws[R] = {1, (uint32_t)h.k, (uint32_t)w.k, 2, (uint32_t)nc}; int wd[R], wst[R]; for (unsigned d = 0; d < R; d++) wd[d] = ws[d]; setup_strides<R>(wd, 0, wst);
    bool ident = true; for (unsigned i = 0; i < R; i++) ident &= order[i] == (int)i;
    int32_t mask[R]; for (unsigned i = 0; i < R; i++) mask[i] = order[i] != 4; Segs ws_[R]; Segs ct = tiles(nc, tc, 0);
    for (unsigned i = 0; i < R; i++) { int n = (int)sg[i].size(); if (order[i] == 4) ws_[i] = ct; else for (int k = 0; k < n; k++) ws_[i].push_back({0, wd[order[i]]}); }
    if (ident) {
      L::TensorIterator<NB, R, R> wi(L::Tensor<NB, R>(ws, wst), ot, nullptr, mask); walk(c, wi, ws_, order, wd, wst, 1, true, false, "weights");
      uint32_t zs[1] = {(uint32_t)nc}; int zd[1] = {nc}, zst[1] = {1}; int32_t zo[R] = {-1, -1, -1, -1, 0};
      L::TensorIterator<NB, 1, R> zi(L::Tensor<NB, 1>(zs), ot, zo, mask); Segs zg[R]; for (unsigned i = 0; i < R; i++) { if (i == 4) zg[i] = ct; else zg[i].assign(sg[i].size(), Seg{0, 0}); }
      walk(c, zi, zg, zo, zd, zst, 1, true, false, "zero points");
      uint32_t ds_[3] = {(uint32_t)h.k, (uint32_t)w.k, (uint32_t)nc}; int dd[3] = {h.k, w.k, nc}, dst[3]; setup_strides<3>(dd, 0, dst); int32_t dor[R] = {-1, 0, 1, -1, 2};
      L::TensorIterator<NB, 3, R> di(L::Tensor<NB, 3>(ds_, dst), ot, dor, mask); Segs dg[R]; for (unsigned i = 0; i < R; i++) { int n = (int)sg[i].size(); if (dor[i] < 0) dg[i].assign(n, Seg{0, 0}); else if (i == 4) dg[i] = ct; else dg[i].assign(n, Seg{0, dd[dor[i]]}); }
      walk(c, di, dg, dor, dd, dst, 1, true, false, "depthwise weights");
    }
  }
}

// configurations derived from others
static void derived(Case &c) {
  constexpr unsigned R = 3; int dims[R]; uint32_t tile[R], sh[R]; int32_t str[R];
  for (unsigned d = 0; d < R; d++) dims[d] = c.ch.range("dim", 1, tier(4, 5));
  for (unsigned d = 0; d < R; d++) tile[d] = c.ch.range("tile", 1, dims[d]), sh[d] = dims[d];
  int skew = c.ch.pick("skew", (int)tile[0]);
  auto &P = permTab(R); auto &p = P[c.ch.pick("perm", 6)]; auto &q = P[c.ch.pick("order", 6)];
  if (!c.begin()) return;
  setup_strides<R>(dims, 1, str); int32_t ident[R] = {0, 1, 2};
  L::Tensor<NB, R> t(sh, str); L::IteratorCfg<R> cfg(t, tile, ident, skew);
  if (p[0] == 0 && p[1] == 1 && q[0] == 0 && q[1] == 1) for (unsigned ax = 0; ax < R; ax++) {     // drop one axis
    L::IteratorCfg<2> c2(cfg, ax); uint32_t s2[2]; int d2[2], st2[2]; Segs sg[2]; int32_t o2[2] = {0, 1}; int j = 0;
    for (unsigned i = 0; i < R; i++) if (i != ax) { s2[j] = sh[i]; d2[j] = dims[i]; st2[j] = str[i]; sg[j] = tiles(dims[i], tile[i], i == 0 ? skew : 0); j++; }
    walk(c, L::TensorIterator<NB, 2, 2>(L::Tensor<NB, 2>(s2, st2), c2), sg, o2, d2, st2, 2, true, true, "dropped axis");
  }
  if (skew == 0) {   // transposed tensor and iterator visit the same tiles in the same iteration order
    int32_t order[R], no[R]; uint32_t pn[R]; int dn[R], sn[R]; for (unsigned d = 0; d < R; d++) order[d] = q[d], pn[d] = p[d], dn[d] = dims[p[d]], sn[d] = str[p[d]];
    for (unsigned i = 0; i < R; i++) for (unsigned a = 0; a < R; a++) if ((int)pn[a] == order[i]) no[i] = a;
    Segs sg[R]; for (unsigned i = 0; i < R; i++) sg[i] = tiles(dims[order[i]], tile[order[i]], 0);
    L::TensorIterator<NB, R, R> it(t, tile, order); auto tr = it.transpose(pn);
    walk(c, tr, sg, no, dn, sn, 2, true, true, "transposed");
    if (p[0] == 0 && p[1] == 1) for (uint32_t al = 1; al <= 3; al++) {   // a buffer for one tile; sizes in units of the writer
      uint32_t aligns[R] = {al, al == 2 ? 1 : al, al}; int big[R], ss[R]; long n = 1; Segs z[R];
      for (unsigned i = 0; i < R; i++) { int m = 0; for (auto &x : sg[i]) m = std::max(m, x.size), z[i].push_back({0, x.size}); big[order[i]] = (m + (int)aligns[order[i]] - 1) / (int)aligns[order[i]] * (int)aligns[order[i]]; }
      for (int d = R - 1; d >= 0; d--) ss[d] = (int)n, n *= big[d];
      L::TensorIterator<NB, R, R> s(t, tile, order); uint32_t got = s.ShrinkBuffer(1, false, aligns);
      if ((long)got != n) c.fail("shrink-size", "ShrinkBuffer for one tile: %u elements, the largest tile has %ld", got, n);
      walk(c, s, z, order, dims, ss, 2, true, true, "shrunk");
      L::TensorIterator<NB, R, R> s2(t, tile, order); if ((long)s2.ShrinkBuffer(2, false, aligns) < 2 * n) c.fail("shrink-size", "ShrinkBuffer for two tiles: fewer than %ld elements", 2 * n);
      L::TensorIterator<NB, R, R> w(t, tile, order); w.ApplyAlignsToSizes(aligns); const auto &g = w.get_config();
      for (unsigned i = 0; i < R; i++) { int k = (int)sg[i].size(), u = aligns[order[i]]; auto up = [&](int x) { return k > 1 ? (x + u - 1) / u * u : x; };
        if ((int)g.get_first_size(i) != up(sg[i][0].size) || (int)g.get_last_size(i) != up(sg[i][k - 1].size) || (k > 2 && (int)g.get_size(i) != up(sg[i][1].size))) c.fail("aligned-sizes", "ApplyAlignsToSizes: sizes of iteration dim %u are %u %u %u", i, g.get_first_size(i), g.get_size(i), g.get_last_size(i)); }
    }
  }
  c.trace();
}

// tensor descriptors: element addresses of slices, transposes, splits, joins, changed granularity
static void descriptors(Case &c) {
  constexpr unsigned R = 3; int dims[R]; uint32_t sh[R]; int32_t str[R];
  for (unsigned d = 0; d < R; d++) dims[d] = c.ch.range("dim", 1, 4), sh[d] = dims[d];
  int lay = c.ch.pick("layout", 3); int op = c.ch.pick("op", 4); uint32_t off0 = c.ch.of("offset", {0, 5});
  uint32_t a[R], n[R]; int ax = 0, ch = 1; bool left = false; const std::vector<int> *p = nullptr;
  if (op == 0) for (unsigned d = 0; d < R; d++) { a[d] = c.ch.pick("at", dims[d]); n[d] = c.ch.range("len", 1, dims[d] - a[d]); }
  else if (op == 1) p = &permTab(3)[c.ch.pick("perm", 6)];
  else if (op == 2) { ax = c.ch.pick("axis", 3); std::vector<int> dv; for (int k = 1; k <= dims[ax]; k++) if (dims[ax] % k == 0) dv.push_back(k); ch = c.ch.of("chunks", dv); left = c.ch.flag("left"); }
  if (!c.begin()) return;
  setup_strides<R>(dims, lay, str);
  static int8_t mem[4096]; for (int i = 0; i < 4096; i++) mem[i] = (int8_t)(i * 37 + (i >> 7));
  L::Tensor<L::Buffer, R> t(L::Buffer(mem, sizeof mem, 1), sh, str); t.set_offs(off0);
  auto addr = [&](int x, int y, int z) { return (int)off0 + x * str[0] + y * str[1] + z * str[2]; };
  auto rd = [&](auto &T, std::vector<int> ix) { uint32_t q[4]; for (size_t i = 0; i < ix.size(); i++) q[i] = ix[i]; return T.template read<int8_t>(T.get_offset(q)); };
  if (op == 0) {
    auto s = t.slice(a, n);
    for (unsigned d = 0; d < R; d++) if (s.get_dim(d) != n[d]) c.fail("slice-shape", "slice dim %u", d);
    for (unsigned x = 0; x < n[0]; x++) for (unsigned y = 0; y < n[1]; y++) for (unsigned z = 0; z < n[2]; z++) if (rd(s, {(int)x, (int)y, (int)z}) != mem[addr(a[0] + x, a[1] + y, a[2] + z)]) c.fail("slice", "slice element %u,%u,%u", x, y, z);
    auto s1 = t.slice(t.get_offset(a), n); if (s1.get_offs() != s.get_offs()) c.fail("slice-off", "slice by offset");
    auto s2 = t.slice(n); for (unsigned x = 0; x < n[0]; x++) if (rd(s2, {(int)x, 0, 0}) != mem[addr(x, 0, 0)]) c.fail("slice-head", "slice of the leading elements, element %u of a tensor at offset %u", x, off0);
    auto ss = s.slice(n); if (rd(ss, {0, 0, 0}) != mem[addr(a[0], a[1], a[2])]) c.fail("slice-head", "slice of the leading elements of a slice");
    uint32_t z0[R] = {0, 0, 0}; auto s3 = s.slice(z0, n); if (s3.get_offs() != s.get_offs()) c.fail("slice-slice", "slice of a slice");
    if (s.get_total_elem_num() != n[0] * n[1] * n[2]) c.fail("total", "total element number");
    unsigned bs = L::service::GetBufferSize(s), want = (n[0] - 1) * str[0] + (n[1] - 1) * str[1] + (n[2] - 1) * str[2] + 1;
    if (bs != want || L::service::GetBufferSize(3, n, str) != want) c.fail("buffer-size", "GetBufferSize %u, expected %u", bs, want);
    if (L::service::GetBufferSize(3, n) != n[0] * n[1] * n[2]) c.fail("buffer-size", "GetBufferSize of a dense tensor");
    // writing through the descriptor
    int8_t keep = mem[addr(a[0], a[1], a[2])]; s.write(0u, (int8_t)(keep ^ 0x55)); if (mem[addr(a[0], a[1], a[2])] != (int8_t)(keep ^ 0x55)) c.fail("write", "write through a slice"); mem[addr(a[0], a[1], a[2])] = keep;
  } else if (op == 1) {
    uint32_t no[R]; for (unsigned d = 0; d < R; d++) no[d] = (*p)[d]; auto s = t.transpose(no);
    int e[R]; for (e[0] = 0; e[0] < dims[0]; e[0]++) for (e[1] = 0; e[1] < dims[1]; e[1]++) for (e[2] = 0; e[2] < dims[2]; e[2]++) if (rd(s, {e[no[0]], e[no[1]], e[no[2]]}) != mem[addr(e[0], e[1], e[2])]) c.fail("transpose", "element %d,%d,%d", e[0], e[1], e[2]);
    for (unsigned d = 0; d < R; d++) if ((int)s.get_dim(d) != dims[no[d]]) c.fail("transpose-shape", "dim %u", d);
    if (s.get_rank() != R) c.fail("transpose-rank", "rank %u", s.get_rank());
  } else if (op == 2) {
    auto s = t.split(ax, ch, left); int in = dims[ax] / ch; if (s.get_rank() != 4) c.fail("split-rank", "rank %u", s.get_rank());
    int e[R]; for (e[0] = 0; e[0] < dims[0]; e[0]++) for (e[1] = 0; e[1] < dims[1]; e[1]++) for (e[2] = 0; e[2] < dims[2]; e[2]++) {
      std::vector<int> ix; for (int d = 0; d < 3; d++) if (d != ax) ix.push_back(e[d]); else { int hi = e[d] / in, lo = e[d] % in; if (left) { ix.push_back(hi); ix.push_back(lo); } else { ix.push_back(lo); ix.push_back(hi); } }
      for (int d = 0; d < 4; d++) if (ix[d] >= (int)s.get_dim(d)) c.fail("split-shape", "dim %d is %u", d, s.get_dim(d));
      if (rd(s, ix) != mem[addr(e[0], e[1], e[2])]) c.fail("split", "element %d,%d,%d", e[0], e[1], e[2]);
    }
    auto j = s.combine(ax, !left);          // joining what was split gives the original back
    for (int d = 0; d < 3; d++) if ((int)j.get_dim(d) != dims[d]) c.fail("combine-shape", "dim %d is %u, expected %d", d, j.get_dim(d), dims[d]);
    if (j.get_rank() != 3) c.fail("combine-rank", "rank %u", j.get_rank());
    for (e[0] = 0; e[0] < dims[0]; e[0]++) for (e[1] = 0; e[1] < dims[1]; e[1]++) for (e[2] = 0; e[2] < dims[2]; e[2]++) if (rd(j, {e[0], e[1], e[2]}) != mem[addr(e[0], e[1], e[2])]) c.fail("combine", "element %d,%d,%d after split and combine along %d", e[0], e[1], e[2], ax);
  } else {
    // copies: between buffer kinds, to higher rank, dense constructor
    L::Tensor<NB, R> nb(sh, str); L::Tensor<L::Buffer, 4> hi(L::Buffer(mem, sizeof mem, 1), nb); hi.set_offs(off0);
    L::Tensor<L::Buffer, 4> h2(t); L::Tensor<OB, R> ob(OB(3, 1, 4000, 1), nb); uint64_t bases[2] = {0, (uint64_t)(mem - 3)}; L::Tensor<IB, R> ib(ob, bases, 2);
    int e[R]; for (e[0] = 0; e[0] < dims[0]; e[0]++) for (e[1] = 0; e[1] < dims[1]; e[1]++) for (e[2] = 0; e[2] < dims[2]; e[2]++) {
      if (rd(h2, {e[0], e[1], e[2]}) != mem[addr(e[0], e[1], e[2])] || rd(hi, {e[0], e[1], e[2]}) != mem[addr(e[0], e[1], e[2])]) c.fail("copy", "copied descriptor");
      if (rd(ib, {e[0], e[1], e[2]}) != mem[addr(e[0], e[1], e[2]) - off0]) c.fail("bind", "descriptor bound to memory"); }
    L::Tensor<NB, R> dn(sh); int st = 1; for (int d = R - 1; d >= 0; d--) { if (dn.get_mem_stride(d) != st) c.fail("dense", "stride %d", d); st *= dims[d]; }
    // granularity: rows of wider vectors
    if (lay == 0) { L::Tensor<OB, R> g(OB(0, 0, (uint32_t)(dims[0] * dims[1] * dims[2] * 8), 1), sh, str);
      uint32_t shw[R] = {sh[0], sh[1], sh[2] * 8}; int32_t stw[R] = {dims[1] * dims[2] * 8, dims[2] * 8, 1}; L::Tensor<OB, R> w(OB(0, 0, (uint32_t)(dims[0] * dims[1] * dims[2] * 8), 1), shw, stw); w.ConvertGran(8);
      for (unsigned d = 0; d < R; d++) if (w.get_dim(d) != sh[d] || w.get_mem_stride(d) != str[d]) c.fail("gran", "dim %u after ConvertGran: %u/%d", d, w.get_dim(d), w.get_mem_stride(d)); }
  }
  c.out(mix(op, t.get_mem_stride(0))); c.call(); c.trace();
}
// element-wise walk (GetSubTensorIterator, the way data movement uses it)
template <class T> static void elements(Case &c) {
  constexpr unsigned R = 4; int dims[R]; uint32_t sh[R]; int32_t str[R];
  for (unsigned d = 0; d < R; d++) dims[d] = c.ch.range("dim", 1, tier(3, 4)), sh[d] = dims[d];
  int lay = c.ch.pick("layout", 3);
  if (!c.begin()) return;
  setup_strides<R>(dims, lay, str);
  std::vector<T> mem(2000, (T)7), ref(2000, (T)7); for (int i = 0; i < 2000; i++) mem[i] = ref[i] = (T)(i * 40503u + 11);
  L::Tensor<L::Buffer, R> t(L::Buffer(mem.data(), (uint32_t)(2000 * sizeof(T)), sizeof(T)), sh, str);
  L::TensorIterator<L::Buffer, R, R> it(t); auto e = it.GetSubTensorIterator(); int32_t cnt[R]; for (unsigned d = 0; d < R; d++) cnt[d] = e.GetTensorShape(d); e.SetCount(cnt);
  int n = dims[0] * dims[1] * dims[2] * dims[3], x[R] = {0};
  for (int k = 0; k < n; k++) {
    int o = 0; for (unsigned d = 0; d < R; d++) o += x[d] * str[d];
    if (e.get_offset() != o) c.fail("element-offset", "element %d,%d,%d,%d: offset %d, expected %d", x[0], x[1], x[2], x[3], e.get_offset(), o);
    if (e.template read<T>() != ref[o]) c.fail("element-read", "element %d,%d,%d,%d", x[0], x[1], x[2], x[3]);
    e.write((T)(k + 1)); ref[o] = (T)(k + 1);
    bool d = e.Next(), ed = true; for (unsigned i = 0; i < R; i++) { if (++x[i] < dims[i]) { ed = false; break; } x[i] = 0; }
    if (d != ed) c.fail("element-done", "done flag after %d elements", k + 1);
  }
  if (mem != ref) c.fail("element-write", "memory differs from the elements written");
  c.out(mixb(0, mem.data(), mem.size() * sizeof(T))); c.call(); c.trace();
}
static void services(Case &c) {
  uint32_t o = c.ch.range("out", 1, 9), k = c.ch.range("k", 1, 5), d = c.ch.range("d", 1, 4), s = c.ch.range("s", 1, 4), p = c.ch.pick("p", 4);
  if (!c.begin()) return;
  if (L::service::get_effective_kernel_size(k, d) != (k - 1) * d + 1) c.fail("eff-kernel", "get_effective_kernel_size(%u,%u)", k, d);
  long in = (long)o * s + (k - 1) * d - p; if (in > 0 && L::service::get_conv_input_size(o, p, k, d, s) != in) c.fail("conv-input", "get_conv_input_size");
  c.out(in); c.call(); c.trace();
}
int main(int argc, char **argv) {
  return run_main(argc, argv, {{"rank1", r1}, {"rank2", r2}, {"rank3", r3}, {"rank4", r4}, {"rank4skew", r4s}, {"rank5", r5}, {"explicit", explicitCfg}, {"window", window1}, {"window2", window2}, {"derived", derived}, {"descriptors", descriptors}, {"elements8", elements<uint8_t>}, {"elements16", elements<uint16_t>}, {"elements32", elements<uint32_t>}, {"services", services}});
}
