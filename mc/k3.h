// MLI 3.0 lifecycle harness: compile (support) object -> buffer offsets -> private data -> relocated deployment ->
// Prefetch / Issue / Update per tile.  All memory the kernel may touch lives in two memory banks ("arena") whose
// complete contents are predicted after every Issue: output tile elements as the reference model says, everything
// else unchanged.  Private data, runtime object and support object live in exactly sized, guarded, garbage-filled
// buffers.
#pragma once
#include <functional>
#include "mc.h"
#include "mli_types.h"
#include "mli_types.hpp"
#include "mli_iterator.hpp"
#include "mli_ref_compiler_api.hpp"
#include "mli_ref_runtime_api.hpp"
#include "mli_kernels_factory_ref.hpp"
namespace k3 {
using namespace mc;
namespace L = snps_arc::metaware::mli; namespace LR = snps_arc::metaware::mli::ref;
using NB = L::NoBuffer; using OB = L::OffsetBuffer; using Buf = L::Buffer;
template <unsigned R> using It = L::TensorIterator<NB, R, R>;

inline uint32_t lcg(uint32_t &s) { s = s * 1664525u + 1013904223u; return s >> 8; }
inline void garbage(void *p, size_t n, uint32_t seed) { uint8_t *b = (uint8_t *)p; for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(lcg(seed) >> 5); }

// exactly sized buffer with guard bytes on both sides, 4- or 8-aligned payload, varying garbage inside
struct Guarded {
  static constexpr size_t G = 24; std::vector<uint64_t> w; uint8_t *p = nullptr; size_t n = 0; uint32_t seed = 0; int al = 0;
  void init(size_t n_, uint32_t s, bool four = false) {
    n = n_; seed = s; al = four ? 4 : 0; w.resize((n + 2 * G + 24) / 8); uint8_t *b = (uint8_t *)w.data(); garbage(b, w.size() * 8, s); p = b + G + al;
  }
  bool ok() const {
    const uint8_t *b = (const uint8_t *)w.data(); uint32_t s = seed; size_t tot = w.size() * 8, lo = G + al, hi = lo + n;
    for (size_t i = 0; i < tot; i++) { uint8_t e = (uint8_t)(lcg(s) >> 5); if ((i < lo || i >= hi) && b[i] != e) return false; }
    return true;
  }
};

// How the two banks of the harness appear to the kernel: as memories idx[0] and idx[1] of n, every offset in them moved up by shift and
// the base address down by as much; one: both are the same memory.  The other memories have an address that must not be used.
// gaps: layout of the k-th tensor of a run, instead of the layouts of its parameters; pad: elements between a boundary of 8 bytes and every buffer.
struct Place { bool one = false; int n = 2, idx[2] = {0, 1}; uint32_t shift[2] = {0, 0}; std::vector<int> gaps; int k = 0, pad = 0; };
inline Place place;
struct Region { int m = 0; uint32_t off = 0, size = 0; int el = 1; OB ob() const { return OB(off + place.shift[m], place.idx[m], size, el); } };

// a full tensor in application memory: logical dims, element strides, values by element offset
struct Op {
  int R = 0; int d[5], s[5]; int el = 1; std::vector<int32_t> v;
  int ext() const { int e = 1; for (int i = 0; i < R; i++) e += (d[i] - 1) * s[i]; return e; }
  int cnt() const { int e = 1; for (int i = 0; i < R; i++) e *= d[i]; return e; }
  int at(const int *i) const { int o = 0; for (int k = 0; k < R; k++) o += i[k] * s[k]; return o; }
  // gap: 0 dense, 1 extra elements after every innermost row and every second level, 2 innermost stride 2, 3 more than 65536 elements
  // between the planes of the outermost dimension that has more than one; -1 the tensor has to be dense
  void shape(std::initializer_list<int> dims, int el_, int gap = -1) {
    if (gap >= 0 && !place.gaps.empty()) gap = place.gaps[place.k++ % place.gaps.size()];
    R = (int)dims.size(); el = el_; int k = 0; for (int x : dims) d[k++] = x; int st = gap == 2 ? 2 : 1, top = 0; while (top < R && d[top] == 1) top++;
    for (int i = R - 1; i >= 0; i--) { s[i] = st; if (gap == 3 && i == top && i < R - 1) s[i] = st += 70001; st *= d[i]; if (gap == 1) st += i == R - 1 ? 1 : (i % 2 ? 3 : 0); }
    v.assign(ext(), 0);
  }
  template <unsigned N> L::Tensor<NB, N> nb() const { uint32_t a[N]; int32_t b[N]; for (unsigned i = 0; i < N; i++) a[i] = d[i], b[i] = s[i]; L::Tensor<NB, N> t(a, b); return t; }
  template <unsigned N> L::Tensor<NB, N> nbr(int r) const { uint32_t a[N]; int32_t b[N]; for (unsigned i = 0; i < N; i++) a[i] = d[i], b[i] = s[i]; L::Tensor<NB, N> t(a, b, (uint32_t)r); return t; }   // declared with rank r < N
  template <class F> void each(F f) { int i[5] = {0}; if (cnt() == 0) return; for (;;) { f(i, v[at(i)]); int k = R - 1; while (k >= 0 && ++i[k] == d[k]) i[k--] = 0; if (k < 0) break; } }
};
inline int32_t rdm(const uint8_t *p, int el) { if (el == 1) return (int8_t)*p; if (el == 2) { int16_t x; memcpy(&x, p, 2); return x; } int32_t x; memcpy(&x, p, 4); return x; }
inline void wrm(uint8_t *p, int el, int32_t v) { if (el == 1) *p = (uint8_t)v; else if (el == 2) { int16_t x = (int16_t)v; memcpy(p, &x, 2); } else memcpy(p, &v, 4); }

struct Tile { int R; int pos[5], sz[5]; };
template <class F> inline void eachIdx(const Tile &t, F f) { int i[5] = {0}; for (int k = 0; k < t.R; k++) if (t.sz[k] <= 0) return; for (;;) { f(i); int k = t.R - 1; while (k >= 0 && ++i[k] == t.sz[k]) i[k--] = 0; if (k < 0) break; } }

// What the outputs are compared with.  0: the reference model.  1: nothing, they are recorded (by logical index).  2: the recording.
// prog: a deployment program (see deployProgram) instead of one of the fixed histories.
struct Mode { int kind = 0; bool begun = false, useProg = false; std::vector<int32_t> vals; std::vector<int> prog; int stop = -1, seen = 0; std::function<void()> other; struct Watch *watch = nullptr; };
inline Mode mode;
// between any two operations of the life cycle another life cycle can run
inline void point() { if (mode.other && mode.seen++ == mode.stop) { Mode keep; std::swap(keep, mode); mode.begun = true; keep.other(); std::swap(keep, mode); } }
inline bool begin(Case &c) { return mode.begun || c.begin(); }

struct K3;
// observer of the operations of a runtime object
struct Watch { virtual void before(K3 &, const Guarded &obj, bool issue) = 0; virtual void after(K3 &, const char *op) = 0; };
struct K3 {
  Case &c; uint32_t seed; const char *what;
  Guarded cs, priv, priv2, obj, obj2; std::vector<uint64_t> bank[2][2]; size_t used[2] = {0, 0}; int cp[2] = {0, 0}; size_t slack = 16, *walk = nullptr; struct Pend { int lin; Region r; long rel; }; std::vector<Pend> pend; int maxLin = 0;
  std::vector<uint8_t> snap[2]; std::vector<uint8_t> isOut[2], vol[2], par[2];   // vol: bytes staged or produced for the tile at hand
  static constexpr int MEMS = 8; uint64_t bases[MEMS]; bool hist = false; uint64_t h = 0; bool obj4 = false; const char *key = nullptr, *vkey = nullptr;   // known findings: any byte, output bytes only
 
  K3(Case &c_, const char *w, uint32_t s) : c(c_), seed(s), what(w) {}
  uint8_t *base(int m) { return (uint8_t *)bank[cp[m]][m].data() + 16 + 8 * cp[m]; }
  Region alloc(int m, uint32_t bytes, int el) { if (place.one) m = 0; uint32_t o = (uint32_t)(used[m] + slack); o = (o + 7) & ~7u; if (el == 1) o += 3; else if (el == 2) o += 2; else o += 4; o += place.pad * el; used[m] = o + bytes; return Region{m, o, bytes, el}; }
  // memory banks (two copies at different addresses, for relocation); contents garbage
  void seal() { for (int k = 0; k < 2; k++) for (int m = 0; m < 2; m++) { bank[k][m].resize((used[m] + 16 + 64) / 8 + 1); garbage(bank[k][m].data(), bank[k][m].size() * 8, seed + 77 * k + 13 * m); } for (int m = 0; m < 2; m++) isOut[m].assign(used[m] + 64, 0), vol[m].assign(used[m] + 64, 0), par[m].assign(used[m] + 64, 0); }
  uint8_t *at(const Region &r, long elem) { return base(r.m) + r.off + elem * r.el; }
  void *csbuf(unsigned n, uint32_t s) { cs.init(n, s, obj4); return cs.p; }
  // stage the part `t` of tensor `o` at the beginning of region `r`, with the strides of the full tensor
  void stage(const Op &o, const Tile &t, const Region &r) {
    for (int k = 0; k < o.R; k++) if (t.pos[k] < 0 || t.sz[k] <= 0 || t.pos[k] + t.sz[k] > o.d[k]) c.fail("tile-range", "%s: tile dim %d at %d size %d of %d", what, k, t.pos[k], t.sz[k], o.d[k]);
    eachIdx(t, [&](const int *i) { int j[5]; long rel = 0; for (int k = 0; k < o.R; k++) j[k] = t.pos[k] + i[k], rel += (long)i[k] * o.s[k];
      if ((rel + 1) * r.el > (long)r.size) c.fail("buffer-size", "%s: tile needs element %ld, the buffer reported by the kernel holds %u bytes", what, rel, r.size);
      wrm(at(r, rel), r.el, o.v[o.at(j)]); memset(&vol[r.m][r.off + rel * r.el], 1, r.el); });
  }
  void poke(const Region &r, const std::vector<int32_t> &v) { for (size_t i = 0; i < v.size(); i++) { if ((i + 1) * r.el > r.size) c.fail("buffer-size", "%s: parameter %zu is outside the buffer of %u bytes", what, i, r.size); wrm(at(r, i), r.el, v[i]); memset(&par[r.m][r.off + i * r.el], 1, r.el); } }
  void pokeBytes(const Region &r, const uint8_t *b, size_t n) { if (n > r.size) c.fail("buffer-size", "%s: %zu encoded bytes for a buffer of %u", what, n, r.size); memcpy(base(r.m) + r.off, b, n); memset(&par[r.m][r.off], 1, n); }
  void snapshot() { for (int m = 0; m < 2; m++) { const uint8_t *b = (uint8_t *)bank[cp[m]][m].data(); snap[m].assign(b, b + bank[cp[m]][m].size() * 8); std::fill(isOut[m].begin(), isOut[m].end(), 0); } }
  uint8_t *snapAt(const Region &r, long elem) { return snap[r.m].data() + (base(r.m) - (uint8_t *)bank[cp[r.m]][r.m].data()) + r.off + elem * r.el; }
  // declare that element rel of r must become the element of the result with logical index lin, e according to the reference
  void want(const Region &r, long rel, int lin, int32_t e) {
    if (mode.kind == 2) { if (lin >= (int)mode.vals.size()) c.fail("tile-range", "%s: output element %d is not part of the result", what, lin); e = mode.vals[lin]; }
    if (mode.kind == 1) pend.push_back({lin, r, rel}); else h = mix(h, (uint32_t)e);
    wrm(snapAt(r, rel), r.el, e); memset(&isOut[r.m][r.off + rel * r.el], 1, r.el);
  }
  // declare what the output tile must hold
  void expect(const Op &o, const Tile &t, const Region &r, std::vector<uint8_t> &cov) {
    for (int k = 0; k < o.R; k++) if (t.pos[k] < 0 || t.sz[k] <= 0 || t.pos[k] + t.sz[k] > o.d[k]) c.fail("tile-range", "%s: output tile dim %d at %d size %d of %d", what, k, t.pos[k], t.sz[k], o.d[k]);
    eachIdx(t, [&](const int *i) { int j[5]; long rel = 0; for (int k = 0; k < o.R; k++) j[k] = t.pos[k] + i[k], rel += (long)i[k] * o.s[k];
      if ((rel + 1) * r.el > (long)r.size) c.fail("buffer-size", "%s: output tile needs element %ld, the buffer reported by the kernel holds %u bytes", what, rel, r.size);
      int lin = 0; for (int k = 0; k < o.R; k++) lin = lin * o.d[k] + j[k]; cov[lin]++; want(r, rel, lin, o.v[o.at(j)]); });
  }
  // nothing of the previous tile survives in memory: neither its operands nor its results can stand in for those of this tile
  void scramble(uint32_t sd) { for (int m = 0; m < 2; m++) for (size_t i = 0; i < vol[m].size(); i++) if (vol[m][i] | isOut[m][i]) base(m)[i] = (uint8_t)(lcg(sd) >> 5), vol[m][i] = isOut[m][i] = 0; }
  // the output holds wrong values before the kernel runs
  void spoil() { for (int m = 0; m < 2; m++) for (size_t i = 0; i < isOut[m].size(); i++) if (isOut[m][i] && !vol[m][i]) base(m)[i] = (uint8_t)~snap[m][(base(m) - (uint8_t *)bank[cp[m]][m].data()) + i]; }
  void compare() {
    if (mode.kind == 1) {
      for (auto &q : pend) { if (q.lin >= (int)mode.vals.size()) mode.vals.resize(q.lin + 1); int32_t e = rdm(at(q.r, q.rel), q.r.el); mode.vals[q.lin] = e; h = mix(h, (uint32_t)e); wrm(snapAt(q.r, q.rel), q.r.el, e); }
      pend.clear();
    }
    for (int m = 0; m < 2; m++) {
      const uint8_t *b = (uint8_t *)bank[cp[m]][m].data(); size_t n = snap[m].size(); if (!memcmp(b, snap[m].data(), n)) continue;
      size_t lead = base(m) - b; for (size_t i = 0; i < n; i++) if (b[i] != snap[m][i]) {
        long o = (long)i - (long)lead; bool out = o >= 0 && o < (long)isOut[m].size() && isOut[m][o];
        char s[300]; int k = 0; s[0] = 0; for (size_t q = i; q < n && q < i + 12; q++) k += snprintf(s + k, sizeof s - k, " %02x(%02x)", b[q], snap[m][q]);
        c.fail(key ? key : out && vkey ? vkey : out ? "value" : "stray-write", "%s: %s byte %ld of bank %d is %02x, expected %02x; bytes from there, got(expected):%s", what, out ? "output" : "non-output", o, m, b[i], snap[m][i], s);
      }
    }
  }
  template <class CS> void finishCompile(CS *o) {
    point(); priv.init(o->GetKernelPrivateDataSize(), seed ^ 0x51); if (o->GetKernelPrivateData(priv.p) != MLI_STATUS_OK) c.fail("status", "%s: GetKernelPrivateData", what);
    if (!priv.ok()) c.fail("private-data-size", "%s: GetKernelPrivateData wrote beyond the %zu bytes it reports", what, priv.n);
    L::PrivateData pd; memcpy(&pd, priv.p, sizeof pd); if (pd.size != priv.n) c.fail("private-data-size", "%s: private data say %u bytes, reported %zu", what, pd.size, priv.n);
    point(); obj.init(o->GetRuntimeObjectSize(), seed ^ 0x93, obj4);
    if (!cs.ok()) c.fail("support-object-size", "%s: the support object exceeds the size the factory reports", what);
  }
  template <class RT> RT *create(uint32_t salt, Guarded *ob = nullptr) {
    Guarded &obj = ob ? *ob : this->obj; size_t on = this->obj.n;
    // deploy: the private data travel to another address, the object buffer holds garbage
    priv2.init(priv.n, seed + salt * 7 + 1); memcpy(priv2.p, priv.p, priv.n); obj.init(on, seed + salt * 31 + 5, obj4);
    for (int m = 0; m < MEMS; m++) bases[m] = 0xdead0000; for (int m = place.one ? 0 : 1; m >= 0; m--) bases[place.idx[m]] = (uint64_t)base(m) - place.shift[m];
    auto *e = L::ExecutionInterface::Create(obj.p, (uint32_t)obj.n, priv2.p, (uint32_t)priv2.n, bases, place.n);
    if (!e) c.fail("create", "%s: ExecutionInterface::Create refused a buffer of the reported size", what);
    RT *r = dynamic_cast<RT *>(e); if (!r) c.fail("create", "%s: Create returned an object of another class", what);
    if ((uint8_t *)r < obj.p || (uint8_t *)r >= obj.p + obj.n) c.fail("create", "%s: object outside its buffer", what);
    garbage(priv2.p, priv2.n, salt + 99); for (int m = 0; m < MEMS; m++) bases[m] = 0xdead0000;   // neither is needed any longer
    point(); c.call(); return r;
  }
  template <class F> mli_status op(const Guarded &ob, const char *nm, F f) { if (mode.watch) mode.watch->before(*this, ob, nm[0] == 'I'); mli_status st = f(); if (mode.watch) mode.watch->after(*this, nm); return st; }
  template <class RT, class St, class Ck> void step(RT *r, unsigned t, std::vector<uint8_t> &cov, St stageTile, Ck checkTile) {
    const Guarded &ob = (uint8_t *)r >= obj2.p && (uint8_t *)r < obj2.p + obj2.n ? obj2 : obj;
    if (op(ob, "Prefetch", [&] { return r->Prefetch(); }) != MLI_STATUS_OK) c.fail("status", "%s tile %u: Prefetch", what, t);
    point(); stageTile(r); snapshot(); checkTile(r, cov); spoil(); point();
    mli_status st = op(ob, "Issue", [&] { return r->Issue(); }); if (st != MLI_STATUS_OK) c.fail("status", "%s tile %u: Issue returned %d", what, t, st);
    point(); compare(); scramble(seed + 1000 * t + 7); point(); if (op(ob, "Update", [&] { return r->Update(); }) != MLI_STATUS_OK) c.fail("status", "%s tile %u: Update", what, t);
    point(); c.call();
  }
  // one inference: all tiles
  template <class RT, class St, class Ck> void pass(RT *r, unsigned tiles, int outCnt, St stageTile, Ck checkTile, Guarded *ob = nullptr) {
    std::vector<uint8_t> cov(outCnt, 0);
    for (unsigned t = 0; t < tiles; t++) step(r, t, cov, stageTile, checkTile);
    for (int i = 0; i < outCnt; i++) if (cov[i] != 1) c.fail("coverage", "%s: output element %d is produced %d times by the %u tiles", what, i, cov[i], tiles);
    if (!(ob ? ob : &obj)->ok()) c.fail("runtime-object-size", "%s: the runtime object exceeds its reported %zu bytes", what, obj.n);
  }
  void at_(int k) { cp[0] = k & 1; cp[1] = k >> 1 & 1; }
  void forget() { for (auto &x : vol) std::fill(x.begin(), x.end(), 0); for (auto &x : isOut) std::fill(x.begin(), x.end(), 0); }
  // deployment history. 0: create, run; 1: create, run twice; 2: create, run, re-create at other bases in the same buffer, run;
  // 3: create at other bases, abandon after one tile step, re-create, run twice
  template <class RT, class Par, class St, class Ck> void deploy(int hist, unsigned tiles, int outCnt, Par params, St stageTile, Ck checkTile) {
    if (mode.useProg) { deployProgram<RT>(tiles, outCnt, params, stageTile, checkTile); return; }
    auto put = [&] { params(); forget(); };
    at_(0); put(); RT *r = create<RT>(1);
    if (hist == 3) { stageTile(r); r->Issue(); r->Update(); at_(3); put(); r = create<RT>(2); pass(r, tiles, outCnt, stageTile, checkTile); pass(r, tiles, outCnt, stageTile, checkTile); c.out(h); if (!mode.begun) c.trace(); return; }
    pass(r, tiles, outCnt, stageTile, checkTile);
    if (hist == 1) pass(r, tiles, outCnt, stageTile, checkTile);
    if (hist == 2) { at_(3); put(); r = create<RT>(3); pass(r, tiles, outCnt, stageTile, checkTile); at_(0); put(); r = create<RT>(4); pass(r, tiles, outCnt, stageTile, checkTile); }
    c.out(h); if (!mode.begun) c.trace();
  }
  // a program over two instances A and B of one private data.  0..3: create A (again) in its buffer with the two memory banks at
  // their first or second address each; 4: A one tile; 5: A a whole pass; 6: create B, every bank where A's is not; 7: B one tile; 8: B a whole pass.
  // Every instance ends with one more whole pass.
  template <class RT, class Par, class St, class Ck> void deployProgram(unsigned tiles, int outCnt, Par params, St stageTile, Ck checkTile) {
    RT *r[2] = {nullptr, nullptr}; int where[2] = {0, 0}; size_t w[2] = {0, 0}; unsigned n[2] = {0, 0}; Guarded *ob[2] = {&obj, &obj2}; uint32_t salt = 10; std::vector<uint8_t> any(std::max(outCnt, 1), 0);
    auto use = [&](int i) { at_(where[i]); if (walk) *walk = w[i]; }; auto keep = [&](int i) { if (walk) w[i] = *walk; };
    auto make = [&](int i, int k) { where[i] = k; at_(k); params(); forget(); keep(i); r[i] = create<RT>(salt++, ob[i]); n[i] = 0; };
    auto one = [&](int i) { use(i); step(r[i], n[i]++, any, stageTile, checkTile); keep(i); if (!ob[i]->ok()) c.fail("runtime-object-size", "%s: the runtime object exceeds its reported %zu bytes", what, obj.n); };
    auto all = [&](int i) { use(i); pass(r[i], tiles, outCnt, stageTile, checkTile, ob[i]); keep(i); };
    for (int o : mode.prog) { if (o < 4) make(0, o); else if (o == 4) one(0); else if (o == 5) all(0); else if (o == 6) make(1, where[0] ^ 3); else if (o == 7) one(1); else all(1); }
    all(0); if (r[1]) all(1); all(0); c.out(h);
  }
};
template <unsigned N> inline Tile mkTile(const int32_t *pos, const uint32_t *sz) { Tile t; t.R = N; for (unsigned i = 0; i < N; i++) t.pos[i] = pos[i], t.sz[i] = (int)sz[i]; return t; }

// deterministic, extreme-rich operand values
inline int32_t pat(int kind, int i, int el) {
  int64_t lo = el == 1 ? -128 : el == 2 ? -32768 : INT32_MIN, hi = -lo - 1;
  switch (kind) {
    case 0: { uint32_t s = 12345u + i * 2654435761u; lcg(s); return (int32_t)(lo + (int64_t)(lcg(s) ^ (lcg(s) << 12)) % (hi - lo + 1)); }
    case 1: return (int32_t)(i % 2 ? hi : lo);
    case 2: return (int32_t)(i * 7 % 23 - 11);
    case 3: return (int32_t)lo;
    case 5: return i / 256 % 256 - 128;
    case 6: return i % 256 - 128;
    default: return (int32_t)hi;
  }
}
inline void fillOp(Op &o, int kind, int salt) { int n = salt; o.each([&](const int *, int32_t &v) { v = pat(kind, n++, o.el); }); for (auto &x : o.v) (void)x; }

// window geometry of one dimension: output size, tile, kernel, stride, dilation, begin/end padding; input size follows
struct Win { int out, tile, k, s, dil, p, pe, in; int ek() const { return (k - 1) * dil + 1; } };
inline bool finishWin(Win &w, int rem) {
  w.in = (w.out - 1) * w.s + w.ek() - w.p - w.pe + rem; if (w.pe > 0 && rem > 0) return false; if (w.in < 1 || w.p >= w.ek() || w.pe >= w.ek()) return false;
  if (w.in + w.p + w.pe < w.ek() || (w.in + w.p + w.pe - w.ek()) / w.s + 1 != w.out) return false;
  if (w.tile * w.s < w.p && w.tile < w.out) return false; if (w.out * w.s < w.p) return false;   // IteratorCfg precondition
  int n = (w.out + w.tile - 1) / w.tile;
  for (int i = 0; i < n; i++) { int b = i * w.tile * w.s - w.p; if (i == n - 1 && std::max(b, 0) >= w.in) return false; }
  for (int i = 0; i < n; i++) { int b = i * w.tile * w.s - w.p, e = (std::min((i + 1) * w.tile, w.out) - 1) * w.s + w.ek() - w.p; if (std::min(e, w.in) - std::max(b, 0) <= 0) return false; }
  return true;
}
}  // namespace k3
