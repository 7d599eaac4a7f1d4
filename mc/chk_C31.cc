// C31: the same call in every build of the library.  Debug modes leave exactly the bytes and the status of the release build;
// rounding and accumulator options change results by at most a rounding step, and not at all where the exact value is
// representable.  Each build is a shared object with the call registry (c31mod.cc) loaded next to the others.
#include "geocall.h"
#include "c31mod.h"
#include <dlfcn.h>
using namespace mc; using namespace reg;
enum Fam { CONV, FC, RNND, RNN, POOL, ELT, RELU, LEAKY, PRELU, ACT, NORM, ARGMAX, PERM, CONVERT, MOV };
static BuildFn load(const char *cfg) {
  std::string p = std::string(MODS) + cfg + ".so"; void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
  auto f = (BuildFn)dlsym(h, "build_call"); if (!f) exit(3); return f;
}
static const char *DBG[] = {"ret", "asrt", "debug", "dbg"}, *RND[] = {"conv", "full", "cfull"};
static BuildFn fn(int i) { static BuildFn f[8]; static bool d = false; if (!d) { f[0] = load("up"); for (int k = 0; k < 4; k++) f[1 + k] = load(DBG[k]); for (int k = 0; k < 3; k++) f[5 + k] = load(RND[k]); d = true; } return f[i]; }
static BR &slot(int i) { static std::vector<BR> s(2); return s[i]; }
static std::string show(const BQ &q, const BR &r) { return std::string(r.name) + " seed " + std::to_string(q.seed) + " data " + std::to_string(q.data); }
// how far the builds may be apart, in units of the output's last place; 0: no rounding that depends on an option
static int tolerance(const BQ &q, const BR &r) {
  std::string n = r.name; int fam = q.kind < 2 ? q.fam : q.kind == 2 ? CONV : POOL;
  switch (fam) {
    case RELU: case ARGMAX: case PERM: case MOV: return 0;
    case POOL: return n.compare(0, 3, "max") == 0 ? 0 : n.find("sa8") != std::string::npos ? 2 : 1;
    case ELT: return n.find("_max") != std::string::npos || n.find("_min") != std::string::npos ? 0 : 1;
    case RNND: return n[n.size() - 1] - '0';
    case RNN: return 8;                       // the steps of a cell feed each other
    case NORM: return 2;
  }
  return 1;
}
// false: there is no such call
static bool compareAll(Case &cs, const BQ &q, bool exact) {
  BR &a = slot(0), &b = slot(1); if (!fn(0)(&q, &a)) return false; std::string w = show(q, a); cs.note = w; cs.call();
  if (a.status != MLI_STATUS_OK) cs.fail("status", "%s: status %d in the release build", w.c_str(), a.status);
  for (int k = 0; k < 4; k++) {
    if (!fn(1 + k)(&q, &b)) cs.fail("debug", "%s: call missing in %s", w.c_str(), DBG[k]); cs.call();
    if (b.status != MLI_STATUS_OK) cs.fail("debug-status", "%s: status %d in build %s", w.c_str(), b.status, DBG[k]);
    for (int i = 0; i < a.n; i++) if (a.v[i] != b.v[i]) cs.fail("debug-value", "%s: element %d is %" PRId64 " in the release build, %" PRId64 " in build %s", w.c_str(), i, a.v[i], b.v[i], DBG[k]);
    if (a.n != b.n || a.desc != b.desc) cs.fail("debug-descriptor", "%s: descriptors differ in build %s", w.c_str(), DBG[k]);
    if (a.mem != b.mem) cs.fail("debug-memory", "%s: memory outside the output elements differs in build %s", w.c_str(), DBG[k]);
  }
  int tol = exact ? 0 : tolerance(q, a); uint64_t h = a.mem;
  bool conv32 = q.kind < 2 && q.fam == CONVERT;      // the ratio of the scales is rounded to 16 bits, with the built mode
  for (int k = 0; k < 3; k++) {
    if (!fn(5 + k)(&q, &b)) cs.fail("build", "%s: call missing in %s", w.c_str(), RND[k]); cs.call();
    if (b.status != MLI_STATUS_OK) cs.fail("build-status", "%s: status %d in build %s", w.c_str(), b.status, RND[k]);
    for (int i = 0; i < a.n; i++) { i64 d = a.v[i] - b.v[i]; if (d < 0) d = -d; if (d > tol + (!exact && conv32 ? (std::abs(a.v[i]) + 40) >> 14 : 0)) cs.fail(exact ? "exact-value" : "rounding", "%s: element %d is %" PRId64 " in the default build, %" PRId64 " in build %s (%s)", w.c_str(), i, a.v[i], b.v[i], RND[k], exact ? "the exact value is representable" : ("at most " + std::to_string(tol) + " apart").c_str()); if (getenv("C31MAX") && d > 1) { static int mx = 0; if (d > mx) { mx = d; fprintf(stderr, "D %d %s %s\n", mx, w.c_str(), RND[k]); } } }
    if (a.n != b.n || a.desc != b.desc) cs.fail("build-descriptor", "%s: descriptors differ in build %s", w.c_str(), RND[k]);
    h = mix(h, b.mem);
  }
  cs.out(h); return true;
}
static void one(Case &cs, const BQ &q, bool exact) { if (compareAll(cs, q, exact)) cs.trace(); else cs.skip(); }
// every call of the registry, dense and with gaps, random and extreme data
static void calls(Case &cs) {
  auto &c = cs.ch; BQ q; reg::pick(c, q.fam, q.var); q.data = c.of("data", {0, 2}); int st = c.of("layout", tier<std::vector<int>>({0, 1, 2, 3}, {0, 1, 2, 3, 4, 5})); q.seed = c.range("seed", 1, tier(8, 8));
  if (!cs.begin()) return; for (auto &s : q.style) s = st; one(cs, q, false);
}
static void larger(Case &cs) { auto &c = cs.ch; BQ q; q.kind = 1; reg::pick(c, q.fam, q.var); q.seed = c.range("seed", 1, tier(3, 8)); if (!cs.begin()) return; for (auto &s : q.style) s = q.var % 4; one(cs, q, false); }
// data and formats with which every result is representable
static void representable(Case &cs) {
  auto &c = cs.ch; BQ q; reg::pick(c, q.fam, q.var); q.data = 1; q.seed = c.range("seed", 1, tier(6, 24)); if (!cs.begin()) return; one(cs, q, true);
}
// one axis of a window layer in every small geometry
static void geometry(Case &cs) {
  static auto A = thorough() ? axes(8, 4, 3, 3, 6) : axes(6, 4, 3, 2, 3), T = thorough() ? trAxes(6, 5, 4) : trAxes(5, 4, 3);
  static auto P = [] { std::vector<Axis> v; for (auto &x : axes(thorough() ? 8 : 6, 4, 3, 1, 3)) if (x.pb < x.k && x.pe < x.k) v.push_back(x); return v; }(); static const Axis B[3] = {{2, 2, 1, 1, 1, 0}, {3, 3, 1, 1, 1, 1}, {1, 1, 1, 1, 0, 0}};
  auto &c = cs.ch; int kind = c.pick("kind", 6); auto &L = kind == 3 ? T : kind > 3 ? P : A; int a = c.pick("axis", L.size()), tr = c.pick("orientation", 2), b = kind == 3 ? 1 : c.of("other", tier<std::vector<int>>({1}, {0, 1, 2})); BQ q; q.var = c.pick("fmt", 3); q.data = c.of("data", tier<std::vector<int>>({0}, {0, 2}));
  if (!cs.begin()) return;
  Geo g = tr ? geo(B[b], L[a], 2, 2, kind == 1 || kind == 2 ? 2 : 1) : geo(L[a], B[b], 2, 2, kind == 1 || kind == 2 ? 2 : 1); int v[16] = {g.H, g.W, g.Ci, g.Co, g.kh, g.kw, g.sh, g.sw, g.dh, g.dw, g.pt, g.pb, g.pl, g.pr, g.G}; memcpy(q.geo, v, sizeof v);
  q.kind = kind > 3 ? 3 : 2; q.fam = kind > 3 ? kind - 4 : kind; q.style[0] = a % 4; q.seed = 1 + a % 5; int n = 0; for (q.index = 0; compareAll(cs, q, false); q.index++) n++; if (n) cs.trace(); else cs.skip();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"calls", calls}, {"larger", larger}, {"representable", representable}, {"geometry", geometry}}); }
