// C32: IDX files (examples/auxiliary/idx_file.c).  Every file lives in memory behind fopencookie; every operation of a history can
// fail, the disk can be full after any byte, the writer can die after any byte, and every damaged file is read again.
#include "mc.h"
#include <cerrno>
#include <csetjmp>
using namespace mc;
typedef std::vector<uint8_t> B;
namespace disk {
  struct File { B data; };
  static std::map<std::string, File> files; static std::vector<B> snaps;      // contents after every write: the crash points
  struct Plan { int kind = 0, n = 0; bool unbuf = false; } plan;               // 1: operation n fails once, 2: all from n on, 3: room for n bytes, 4: open fails, 5: close fails
  static int ops, fired, opened; static bool seekFired; static size_t written;
  struct Fd { File *f; size_t pos; bool wr; };
  static bool fail() { int k = ops++; if ((plan.kind == 1 && k == plan.n) || (plan.kind == 2 && k >= plan.n)) { fired++; return true; } return false; }
  static ssize_t rd(void *c, char *b, size_t n) { Fd *d = (Fd *)c; if (fail()) { errno = EIO; return -1; } size_t m = d->pos < d->f->data.size() ? std::min(n, d->f->data.size() - d->pos) : 0; memcpy(b, d->f->data.data() + d->pos, m); d->pos += m; return m; }
  static ssize_t wr(void *c, const char *b, size_t n) {
    Fd *d = (Fd *)c; if (fail()) { errno = EIO; return 0; } size_t m = n;
    if (plan.kind == 3) { size_t room = (size_t)plan.n > written ? plan.n - written : 0; if (m > room) { m = room; fired++; if (!m) { errno = ENOSPC; return 0; } } }
    for (size_t i = 0; i < m; i++) { if (d->pos >= d->f->data.size()) d->f->data.resize(d->pos + 1); d->f->data[d->pos++] = b[i]; snaps.push_back(d->f->data); }
    written += m; return m;
  }
  static int sk(void *c, off64_t *o, int w) { Fd *d = (Fd *)c; if (fail()) { seekFired = true; errno = EIO; return -1; } off64_t p = *o + (w == SEEK_CUR ? (off64_t)d->pos : w == SEEK_END ? (off64_t)d->f->data.size() : 0); if (p < 0) { errno = EINVAL; return -1; } d->pos = p; *o = p; return 0; }
  static int cl(void *c) { delete (Fd *)c; opened--; if (plan.kind == 5) { fired++; errno = EIO; return -1; } return 0; }
  static FILE *open(const char *path, const char *mode) {
    if (plan.kind == 4) { fired++; errno = EACCES; return nullptr; }
    bool w = mode[0] == 'w'; auto it = files.find(path); if (!w && it == files.end()) { errno = ENOENT; return nullptr; }
    File &f = files[path]; if (w) f.data.clear(); Fd *d = new Fd{&f, 0, w}; opened++;
    FILE *s = fopencookie(d, w ? "w+" : "r", {rd, wr, sk, cl}); if (plan.unbuf) setvbuf(s, nullptr, _IONBF, 0); return s;
  }
  static void reset(Plan p = Plan()) { plan = p; ops = fired = 0; seekFired = false; written = 0; snaps.clear(); }
}
#define fopen disk::open
#include "idx_file.c"
#undef fopen
static const tIdxDataType kT[6] = {IDX_DT_UBYTE_1B, IDX_DT_BYTE_1B, IDX_DT_SHORT_2B, IDX_DT_INT_4B, IDX_DT_FLOAT_4B, IDX_DT_DOUBLE_8B}; static const int kS[6] = {1, 1, 2, 4, 4, 8};
typedef std::vector<uint32_t> V;
static int sizeOf(int type) { for (int i = 0; i < 6; i++) if (kT[i] == type) return kS[i]; return 0; }
struct Arr { int t; V shape; B data; size_t count() const { size_t n = 1; for (auto s : shape) n *= s; return n; } int es() const { return kS[t]; } };
static Arr arr(int t, const V &s, int pat) { Arr a{t, s, {}}; a.data.resize(a.count() * kS[t]); uint32_t x = 12345 + pat; for (size_t i = 0; i < a.data.size(); i++) { x = x * 1664525 + 1013904223; a.data[i] = pat == 0 ? (uint8_t)(i * 37 + 1) : pat == 1 ? (uint8_t)(x >> 24) : pat == 2 ? 0xff : 0; } return a; }
// the file format, independently: magic 0 0 type rank, big-endian dimensions, big-endian elements
static B header(int type, const V &s) { B f = {0, 0, (uint8_t)type, (uint8_t)s.size()}; for (auto d : s) for (int k = 3; k >= 0; k--) f.push_back(d >> (8 * k)); return f; }
static B fileOf(const Arr &a) { B f = header(kT[a.t], a.shape); for (size_t i = 0; i < a.count(); i++) for (int k = a.es() - 1; k >= 0; k--) f.push_back(a.data[i * a.es() + k]); return f; }
static uint8_t can(size_t i) { return 0xa5 ^ (uint8_t)(i * 29); }
struct Guarded { B m; size_t n; Guarded(size_t n) : m(n + 64), n(n) { for (size_t i = 0; i < m.size(); i++) m[i] = can(i); } uint8_t *p() { return m.data() + 32; } bool kept(size_t from = 0) { for (size_t i = 0; i < m.size(); i++) if ((i < 32 || i >= 32 + from) && m[i] != can(i)) return false; return true; } };
// reads a file completely and compares; must: 1 has to be accepted, 0 has to be refused, 2 either, but an accepted one must be right
static tIdxRetVal readBack(Case &cs, const char *what, const B &content, const Arr *right, int must, size_t cap = 1 << 14, uint32_t dims = 260, const char *key = nullptr) {
  disk::files["r"].data = content; Guarded g(cap), sh(4 * (size_t)dims); uint32_t n = cap, d = dims; tIdxDataType t = (tIdxDataType)0x77;
  tIdxRetVal r = idx_file_read_completely("r", g.p(), &n, (uint32_t *)sh.p(), &d, &t); cs.call();
  if (disk::opened) cs.fail("leak", "%s: the file stays open", what);
  if (!g.kept(cap) || !sh.kept(4 * (size_t)dims)) cs.fail("overrun", "%s: written beyond the given buffers", what);
  if (r == IDX_ERR_NONE) {
    if (must == 0) cs.fail(key ? key : "accepted", "%s: read without error: %u bytes, rank %u", what, n, d);
    if (right) { if (t != kT[right->t] || d != right->shape.size() || n != right->data.size()) cs.fail("info", "%s: type %d rank %u bytes %u", what, t, d, n); for (size_t i = 0; i < right->shape.size(); i++) if (((uint32_t *)sh.p())[i] != right->shape[i]) cs.fail("shape", "%s: dimension %zu", what, i); if (memcmp(g.p(), right->data.data(), n)) cs.fail("data", "%s: other data", what);
      if (!g.kept(n) || !sh.kept(4 * d)) cs.fail("beyond", "%s: more than the array written", what); }
  } else if (must == 1) cs.fail("refused", "%s: error %d", what, r);
  cs.out(mix(r, n)); return r;
}
static const std::vector<V> &shapes() { static std::vector<V> s = [] { std::vector<V> v; for (uint32_t n : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257}) v.push_back({n}); for (uint32_t a : {1, 2, 3, 7}) for (uint32_t b : {1, 2, 5, 16}) { v.push_back({a, b}); for (uint32_t c : {1, 3}) { v.push_back({a, b, c}); v.push_back({a, c, 2, b}); v.push_back({1, a, b, 1, c}); } } for (int r : {15, 16, 17, 18, 32, 33, 255}) { V x(r, 1); x[r / 2] = 3; x[r - 1] = 2; v.push_back(x); } return v; }(); return s; }
static void roundtrip(Case &cs) {
  auto &c = cs.ch; int t = c.pick("type", 6), s = c.pick("shape", shapes().size()), pat = c.pick("data", 4), unbuf = c.pick("unbuffered", 2);
  if (!cs.begin()) return;
  Arr a = arr(t, shapes()[s], pat), b = a; disk::Plan p; p.unbuf = unbuf; disk::reset(p); tIdxRetVal r = idx_file_write_completely("w", b.data.data(), b.shape.data(), b.shape.size(), kT[t]); cs.call();
  if (r) cs.fail("write", "writing: error %d", r); if (disk::opened) cs.fail("leak", "the written file stays open"); if (b.data != a.data || b.shape != a.shape) cs.fail("source", "writing changed its source");
  if (disk::files["w"].data != fileOf(a)) cs.fail("format", "the file is not the documented one"); readBack(cs, "reading", disk::files["w"].data, &a, 1); readBack(cs, "reading into exact buffers", disk::files["w"].data, &a, 1, a.data.size(), a.shape.size()); cs.trace();
}
// portions: every composition of the elements into consecutive calls
static const std::vector<V> &parts(uint32_t n) { static std::map<uint32_t, std::vector<V>> m; auto &v = m[n]; if (v.empty()) { if (n <= 7) for (uint32_t b = 0; b < 1u << (n - 1); b++) { V p; uint32_t k = 1; for (uint32_t i = 0; i + 1 < n; i++) if (b >> i & 1) { p.push_back(k); k = 1; } else k++; p.push_back(k); v.push_back(p); } else { for (uint32_t x : {1u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u}) if (x < n) { v.push_back({x, n - x}); if (x < n / 2) v.push_back({x, n - 2 * x, x}); } v.push_back({n}); } } return v; }
static tIdxRetVal writeParts(Case &cs, const Arr &a, const V &p, int order, bool &lost) {        // order 0: data first, header last; 1: header, data, no placeholder; 2: the header so far after every part
  FILE *f = disk::open("w", "wb"); lost = false; if (!f) return IDX_ERR_FILE_ACC; tIdxDescr d; d.opened_file = f; d.num_dim = a.shape.size(); d.data_type = kT[a.t]; tIdxRetVal r = IDX_ERR_NONE; size_t off = 0;
  if (order == 1) { d.num_elements = a.count(); r = idx_file_write_header(&d, a.shape.data()); cs.call(); }
  for (auto n : p) { if (r) break; d.num_elements = n; r = idx_file_write_data(&d, a.data.data() + off); cs.call(); off += (size_t)n * a.es(); if (order == 2 && !r) { V sh(a.shape.size(), 1); sh[0] = off / a.es(); r = idx_file_write_header(&d, sh.data()); cs.call(); } }
  if (order != 1 && !r) { d.num_elements = a.count(); r = idx_file_write_header(&d, a.shape.data()); cs.call(); }
  if (fclose(f)) lost = true; return r;
}
static tIdxRetVal readParts(Case &cs, const Arr &a, const V &p, B &data, V &shape, bool ask = false) {
  FILE *f = disk::open("r", "rb"); if (!f) return IDX_ERR_FILE_ACC; tIdxDescr d; memset(&d, 0, sizeof d); d.opened_file = f; tIdxRetVal r = idx_file_check_and_get_info(&d); cs.call(); size_t off = 0;
  if (!r && (d.num_elements != a.count() || d.num_dim != a.shape.size() || d.data_type != kT[a.t])) { fclose(f); cs.fail("info", "%u elements, rank %d, type %d", d.num_elements, d.num_dim, d.data_type); }
  for (size_t i = 0; i < p.size() && !r; i++) { d.num_elements = p[i]; r = idx_file_read_data(&d, data.data() + off, i ? nullptr : shape.data()); cs.call(); if (ask && !r) { r = idx_file_check_and_get_info(&d); cs.call(); } off += (size_t)p[i] * a.es(); }
  fclose(f); return r;
}
static const std::vector<V> &small() { static std::vector<V> s = {{1}, {2}, {5}, {7}, {2, 3}, {3, 2}, {1, 7}, {2, 1, 3}, {1, 2, 2, 1}, {20}, {40}, {70}, {3, 30}}; return s; }
static void portions(Case &cs) {
  auto &c = cs.ch; int t = c.pick("type", 6), s = c.pick("shape", small().size()); uint32_t n = 1; for (auto x : small()[s]) n *= x; int k = c.pick("parts", parts(n).size()), way = c.pick("way", 5), unbuf = c.pick("unbuffered", 2);
  if (!cs.begin()) return;
  Arr a = arr(t, small()[s], 1); disk::Plan p; p.unbuf = unbuf; disk::reset(p); B want = fileOf(a);
  if (way < 3) { bool lost; tIdxRetVal r = writeParts(cs, a, parts(n)[k], way, lost); if (r || lost) cs.fail("write", "writing: error %d", r); if (disk::files["w"].data != want) cs.fail("format", "written in parts, the file differs from the documented one"); }
  else { disk::files["r"].data = want; B d(a.data.size()); V sh(a.shape.size()); tIdxRetVal r = readParts(cs, a, parts(n)[k], d, sh, way == 4); if (r) cs.fail("read", "reading: error %d", r); if (d != a.data || sh != a.shape) cs.fail("data", "read in parts, the array differs"); }
  cs.out(k); cs.trace();
}
// what a content says, in exact arithmetic: 1 valid, 0 invalid, 2 open
// big: the elements cannot be counted in 32 bits
static int verdict(const B &f, Arr &a, bool &big) {
  big = false; if (f.size() < 4) return 0; int es = sizeOf(f[2]), nd = f[3]; if (!es || f.size() < 4 + 4 * (size_t)nd) return 0; a.shape.clear(); unsigned __int128 n = 1; bool zero = false;
  for (int i = 0; i < nd; i++) { uint32_t d = 0; for (int k = 0; k < 4; k++) d = d << 8 | f[4 + 4 * i + k]; a.shape.push_back(d); if (!d) zero = true; if (n < ((unsigned __int128)1 << 80)) n *= d; } if (zero) n = 0; big = (n * es) >> 32 != 0;
  if (n * es != f.size() - 4 - 4 * (size_t)nd) return 0; for (int i = 0; i < 6; i++) if (kT[i] == f[2]) a.t = i; a.data.resize((size_t)n * es); const uint8_t *s = f.data() + 4 + 4 * nd; for (size_t i = 0; i < (size_t)n; i++) for (int k = 0; k < es; k++) a.data[i * es + k] = s[i * es + es - 1 - k];
  return f[0] || f[1] || !nd || zero ? 2 : 1;
}
static void judge(Case &cs, const char *what, const B &f) { Arr a; bool big; int v = verdict(f, a, big); readBack(cs, what, f, v ? &a : nullptr, v, 1 << 14, 260, big ? "idx-over-32-bits" : nullptr); }
static void damaged(Case &cs) {
  auto &c = cs.ch; int t = c.pick("type", 6), s = c.pick("shape", 9), kind = c.pick("damage", 3); Arr a = arr(t, small()[s], 1); B f = fileOf(a); size_t h = 4 + 4 * a.shape.size(); int at = 0, val = 0;
  if (kind == 0) at = c.pick("length", f.size() + 9); else if (kind == 1) { at = c.pick("header byte", h); val = c.pick("value", 256); } else { at = c.pick("two header bytes", h * h); val = c.pick("values", 16); }
  if (!cs.begin()) return;
  disk::reset(); if (kind == 0) { f.resize(at, 0x3c); } else if (kind == 1) f[at] = val; else { static const uint8_t X[4] = {0, 1, 2, 0xff}; f[at / h] = X[val & 3]; f[at % h] = X[val >> 2]; }
  judge(cs, "damaged file", f); cs.trace();
}
// dimensions whose product does not fit 32 bits, with as many bytes as the product modulo 2^32 asks for
static void overflow(Case &cs) {
  auto &c = cs.ch; static const V X = {0, 1, 2, 3, 5, 16, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0x1000000, 0x40000000, 0x55555556, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaab, 0xffffffff}; int t = c.pick("type", 6), R = c.range("rank", 1, tier(3, 4)); V d; for (int i = 0; i < R; i++) d.push_back(X[c.pick("dim", R == 4 ? 12 : X.size())]); int how = c.pick("size", 3);
  if (!cs.begin()) return;
  disk::reset(); uint32_t n32 = 1; for (auto x : d) n32 *= x; uint64_t b = how == 0 ? (uint32_t)(n32 * kS[t]) : how == 1 ? (uint64_t)n32 * kS[t] : 0; if (b > 3000) { cs.skip(); return; }
  B f = header(kT[t], d); f.resize(f.size() + b, 0x11); judge(cs, "header with large dimensions", f); cs.trace();
}
// every buffer size around the needed one
static void capacity(Case &cs) {
  auto &c = cs.ch; int t = c.pick("type", 6), s = c.pick("shape", small().size()); Arr a = arr(t, small()[s], 0); uint32_t need = a.data.size(), nd = a.shape.size(); uint32_t cap = c.pick("bytes", need + 3), dims = c.pick("dims", nd + 2);
  if (!cs.begin()) return;
  disk::reset(); disk::files["r"].data = fileOf(a); Guarded g(cap), sh(4 * dims); uint32_t n = cap, d = dims; tIdxDataType ty; tIdxRetVal r = idx_file_read_completely("r", g.p(), &n, (uint32_t *)sh.p(), &d, &ty); cs.call();
  if (disk::opened) cs.fail("leak", "file stays open"); if (n != need || d != nd) cs.fail("sizes", "reported %u bytes and %u dimensions, not %u and %u", n, d, need, nd);
  if (cap < need || dims < nd) { if (r != IDX_ERR_NOT_ENOUGH_MEM) cs.fail("status", "status %d", r); if (!g.kept() || !sh.kept()) cs.fail("written", "wrote into buffers that are too small"); }
  else { if (r) cs.fail("status", "status %d", r); if (memcmp(g.p(), a.data.data(), need) || !g.kept(need) || !sh.kept(4 * nd)) cs.fail("data", "data or surroundings differ"); }
  cs.out(r); cs.trace();
}
// histories under faults: success must mean that everything arrived
static void faults(Case &cs) {
  auto &c = cs.ch; int t = c.of("type", {0, 2, 5}), s = c.pick("shape", small().size()); uint32_t n = 1; for (auto x : small()[s]) n *= x; int hist = c.pick("history", 5), k = 0; if (hist == 1 || hist == 2 || hist == 4) k = c.pick("parts", std::min<size_t>(parts(n).size(), tier(8, 64)));
  disk::Plan p; p.unbuf = c.pick("unbuffered", 2); p.kind = c.range("fault", 0, 5); if (p.kind == 1 || p.kind == 2) p.n = c.pick("operation", tier(60, 400)); if (p.kind == 3) p.n = c.pick("room", 4 + 4 * small()[s].size() + n * kS[t] + 40);
  if (!cs.begin()) return;
  if (hist == 0 || hist == 3) k = 0; Arr a = arr(t, small()[s], 1), b = a; B want = fileOf(a); disk::files["r"].data = want; disk::files.erase("w"); disk::reset(p); tIdxRetVal r; bool lost = false;
  if (hist < 3) {
    if (hist == 0) { r = idx_file_write_completely("w", b.data.data(), b.shape.data(), b.shape.size(), kT[t]); cs.call(); } else r = writeParts(cs, a, parts(n)[k], hist - 1, lost);
    if (disk::opened) cs.fail("leak", "file stays open");
    // known: failed positioning, flushing and closing, and a failed placeholder header, are not reported
    const char *known = disk::fired && (!p.unbuf || disk::seekFired || p.kind == 5 || (hist && hist != 2)) ? "idx-io-status" : "lost";
    if (r == IDX_ERR_NONE && !lost && disk::files["w"].data != want) cs.fail(known, "success is reported, but the file has %zu bytes of %zu or other contents", disk::files["w"].data.size(), want.size());
    if (!disk::fired && (r || lost)) cs.fail("spurious", "error %d without a fault", r);
  } else if (hist == 3) {
    B d(a.data.size()); V sh(a.shape.size()); uint32_t nb = d.size(), nd = sh.size(); tIdxDataType ty = (tIdxDataType)0; r = idx_file_read_completely("r", d.data(), &nb, sh.data(), &nd, &ty); cs.call(); if (disk::opened) cs.fail("leak", "file stays open");
    if (r == IDX_ERR_NONE && (d != a.data || sh != a.shape || ty != kT[t])) cs.fail(disk::seekFired ? "idx-io-status" : "wrong", "success is reported, but the array differs"); if (!disk::fired && r) cs.fail("spurious", "error %d without a fault", r);
  } else { B d(a.data.size()); V sh(a.shape.size()); r = readParts(cs, a, parts(n)[k], d, sh); if (r == IDX_ERR_NONE && (d != a.data || sh != a.shape)) cs.fail(disk::seekFired ? "idx-io-status" : "wrong", "success is reported, but the array differs"); if (!disk::fired && r) cs.fail("spurious", "error %d without a fault", r); }
  if (p.kind && !disk::fired) { cs.skip(); return; }
  cs.out(mix(r, disk::fired)); cs.trace();
}
// the writer dies after any byte has reached the disk: what is left is refused or is the whole array
static void crash(Case &cs) {
  auto &c = cs.ch; int t = c.pick("type", 6), s = c.pick("shape", small().size()); uint32_t n = 1; for (auto x : small()[s]) n *= x; int hist = c.pick("history", 3), k = hist ? c.pick("parts", std::min<size_t>(parts(n).size(), tier(4, 64))) : 0, unbuf = c.pick("unbuffered", 2), pat = c.of("data", {1, 2, 3});
  if (!cs.begin()) return;
  Arr a = arr(t, small()[s], pat), b = a; disk::Plan p; p.unbuf = unbuf; disk::reset(p); bool lost; tIdxRetVal r; if (hist == 0) { r = idx_file_write_completely("w", b.data.data(), b.shape.data(), b.shape.size(), kT[t]); cs.call(); } else r = writeParts(cs, a, parts(n)[k], hist - 1, lost);
  if (r) cs.fail("write", "error %d", r); std::vector<B> sn = disk::snaps; disk::reset(); B want = fileOf(a);
  for (size_t i = 0; i < sn.size(); i++) { char w[80]; snprintf(w, sizeof w, "what is left after %zu of %zu bytes", i + 1, sn.size()); Arr e; bool big; bool empty = verdict(sn[i], e, big) && !e.count(); readBack(cs, w, sn[i], empty ? &e : &a, sn[i] == want ? 1 : 2); cs.trace(); }  // a file that has only its placeholder reads as an array without elements
}
static sigjmp_buf fpe; static void onFpe(int) { siglongjmp(fpe, 1); }
static void arguments(Case &cs) {
  auto &c = cs.ch; int k = c.pick("case", 12);
  if (!cs.begin()) return;
  disk::reset(); Arr a = arr(2, {2, 3}, 1); disk::files["r"].data = fileOf(a); disk::files.erase("w"); disk::files.erase("none"); B d(a.data.size()); V sh(2); uint32_t n = d.size(), nd = 2; tIdxDataType ty; tIdxRetVal r = IDX_ERR_NONE; bool bad = true;
  switch (k) {
    case 0: r = idx_file_read_completely(nullptr, d.data(), &n, sh.data(), &nd, &ty); break;
    case 1: r = idx_file_read_completely("r", d.data(), nullptr, sh.data(), &nd, &ty); break;
    case 2: r = idx_file_read_completely("r", d.data(), &n, sh.data(), nullptr, &ty); break;
    case 3: r = idx_file_read_completely("none", d.data(), &n, sh.data(), &nd, &ty); break;
    case 4: r = idx_file_write_completely("w", nullptr, a.shape.data(), 2, kT[2]); break;
    case 5: r = idx_file_write_completely("w", a.data.data(), nullptr, 2, kT[2]); break;
    case 6: r = idx_file_write_completely("w", a.data.data(), a.shape.data(), 0, kT[2]); break;
    case 7: signal(SIGFPE, onFpe); for (volatile int t = 0; t < 256; t++) if (!sizeOf(t)) { if (sigsetjmp(fpe, 1)) { cs.fail("idx-unknown-type", "writing elements of type %d divides by zero", (int)t); disk::opened = 0; continue; } r = idx_file_write_completely("w", a.data.data(), a.shape.data(), 2, (tIdxDataType)t); cs.call(); if (!r) { cs.fail("accepted", "type %d written", (int)t); } } r = IDX_ERR_INCORR_FUNC_INPUT; signal(SIGFPE, SIG_DFL); break;
    case 8: { V s(256, 1); r = idx_file_write_completely("w", a.data.data(), s.data(), 256, kT[0]); break; }              // the format has one byte for the rank
    case 9: { V s = {65536, 65536}; r = idx_file_write_completely("w", a.data.data(), s.data(), 2, kT[0]); break; }      // more elements than can be counted
    case 10: r = idx_file_read_completely("r", d.data(), &n, sh.data(), &nd, nullptr); bad = false; if (r || d != a.data) cs.fail("optional", "the element type is optional: error %d", r); break;
    case 11: for (int t = 0; t < 256; t++) if (data_elem_size((tIdxDataType)t) != sizeOf(t)) cs.fail("size", "element size of type %d", t); bad = false; break;
  }
  cs.call(); if (bad && !r) cs.fail(k == 8 ? "idx-rank-over-255" : k == 9 ? "idx-over-32-bits" : "accepted", "invalid request %d is answered with success", k); if (disk::opened) cs.fail("leak", "file stays open"); cs.out(mix(k, r)); cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"arguments", arguments}, {"roundtrip", roundtrip}, {"portions", portions}, {"capacity", capacity}, {"damaged", damaged}, {"overflow", overflow}, {"faults", faults}, {"crash", crash}}); }
