// C21: calls are re-entrant and history free.
//  up:  every ordered pair of registered calls (A, B, A), depth-3 histories over a reduced set, and histories that re-use the same
//       buffers with other contents, each compared with what the call computes as the first call of a process.
//  mon: the shared footprint of every call (everything but its own outputs, state and scratch).  No write to shared memory means that
//       any two calls commute step by step, so all interleavings are equivalent to running them one after the other; otherwise, and
//       for a reduced set in any case, every pre-emption point of A is explored with B running to completion there (bound 1; bound 2
//       for the smallest), on shared inputs and shared tables.
#include "reg.h"
#include "k3jobs.h"
#ifdef CFG_MON
#include "mon.h"
#endif
using namespace mc;
static std::vector<std::pair<int, int>> all; static uint64_t *base; static const int kSeeds = 3;
static const LutSize LS[4] = {mli_krn_sigm_get_lut_size, mli_krn_tanh_get_lut_size, mli_krn_softmax_get_lut_size, mli_krn_l2_normalize_get_lut_size}; static const LutCreate LC[4] = {mli_krn_sigm_create_lut, mli_krn_tanh_create_lut, mli_krn_softmax_create_lut, mli_krn_l2_normalize_create_lut};
static uint64_t table(int t) { int n = LS[t](); std::vector<uint8_t> m(n + 64); mli_lut l; memset(&l, 0, sizeof l); l.data.mem.pi8 = (int8_t *)m.data(); l.data.capacity = n + 2; mli_status st = LC[t](&l); uint64_t h = mixb(st, m.data(), m.size()); h = mix(h, l.length); h = mix(h, l.out_frac_bits); return mix(h, l.in_frac_bits); }
static int N() { return all.size() + 4; }
static uint64_t one(int id, int seed, std::string *nm = nullptr) {
  if (id >= (int)all.size()) { if (nm) *nm = "create table " + std::to_string(id - all.size()); return table(id - all.size()); }
  Call k; reg::make(k, all[id].first, all[id].second, {}, seed); if (nm) *nm = k.name; mli_status st = k(); return mix(k.result(), st);
}
static void prepare() {
  for (int f = 0; f < (int)reg::families().size(); f++) for (int v = 0; v < reg::families()[f].n; v++) all.push_back({f, v});
  int n = N() * kSeeds; base = (uint64_t *)mmap(0, n * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::vector<pid_t> w;
  for (int p = 0; p < 8; p++) if (pid_t c = fork()) w.push_back(c); else { for (int i = p; i < n; i += 8) { pid_t q = fork(); if (!q) { base[i] = one(i / kSeeds, i % kSeeds + 1); _exit(0); } int st; waitpid(q, &st, 0); } _exit(0); }
  int st; for (pid_t c : w) waitpid(c, &st, 0);
}
static void expect(Case &cs, int id, int seed, uint64_t h, const char *how) { cs.call(); if (h != base[id * kSeeds + seed - 1]) { std::string n; one(id, seed, &n); cs.fail("history", "%s (data set %d) gives another result %s than as the first call", n.c_str(), seed, how); } cs.out(h); }
#ifndef CFG_MON
static void pairs(Case &cs) {
  auto &c = cs.ch; int a = c.pick("first", N()), part = c.pick("part", 4);
  if (!cs.begin()) return;
  expect(cs, a, 1, one(a, 1), "when run once more");
  for (int b = part; b < N(); b += 4) { one(a, 1); std::string n; expect(cs, b, 2, one(b, 2), ("after " + (one(a, 1, &n), n)).c_str()); expect(cs, a, 1, one(a, 1), "after another call"); }
  cs.trace();
}
static void triples(Case &cs) {
  static const int S = thorough() ? 5 : 13; auto &c = cs.ch; int n = N() / S, a = c.pick("first", n), b = c.pick("second", n);
  if (!cs.begin()) return;
  for (int x = 0; x < n; x += tier(3, 1)) { int k = (x + a + b) % n; one(a * S, 1); one(b * S, 2); expect(cs, k * S, 3, one(k * S, 3), "after two other calls"); }
  cs.trace();
}
// the same buffers hold other contents (and other descriptors of the same extent) in the next call
static void put(Call &k, Call &n) {
  for (size_t i = 0; i < k.ops.size(); i++) { auto &d = k.ops[i].t, &s = n.ops[i].t; memcpy(d.mem.data(), s.mem.data(), d.mem.size()); mli_tensor t = s.t; t.data = d.t.data; d.zps = s.zps; d.scs = s.scs; d.fbs = s.fbs; if (s.perAxis()) { t.el_params.sa.zero_point.mem.pi16 = d.zps.data(); t.el_params.sa.scale.mem.pi16 = d.scs.data(); t.el_params.sa.scale_frac_bits.mem.pi8 = d.fbs.data(); } d.t = t; }
}
static void reuse(Case &cs) {
  auto &c = cs.ch; int id = c.pick("call", all.size()), s1 = c.range("seed", 1, 3);
  if (!cs.begin()) return;
  auto [f, v] = all[id]; Call k; reg::make(k, f, v, {}, s1); k();
  for (int s2 = 1; s2 <= 3; s2++) { Call n; reg::make(n, f, v, {}, s2); put(k, n); mli_status st = k(); expect(cs, id, s2, mix(k.result(), st), "when its buffers held other data in the previous call"); }
  for (int w = 0; w < reg::families()[f].n; w++) { Call n; reg::make(n, f, w, {}, 2); if (n.ops.size() != k.ops.size()) continue; bool same = true; for (size_t i = 0; i < n.ops.size(); i++) same &= n.ops[i].t.mem.size() == k.ops[i].t.mem.size() && n.ops[i].t.t.el_type == k.ops[i].t.t.el_type; if (!same) continue;
    put(k, n); mli_status st = n.run(k); int jd = id - v + w; expect(cs, jd, 2, mix(k.result(), st), "when its buffers were used by another variant before"); }
  cs.trace();
}
#else
static bool in(uintptr_t a, const void *p, size_t n) { return a >= (uintptr_t)p && a < (uintptr_t)p + n; }
static bool own(Call &k, uintptr_t a) {
  for (auto &o : k.ops) if (o.role != IN) { if (in(a, o.t.mem.data(), o.t.mem.size()) || in(a, &o.t.t, sizeof o.t.t) || (o.t.zps.size() && (in(a, o.t.zps.data(), o.t.zps.size() * 2) || in(a, o.t.scs.data(), o.t.scs.size() * 2) || in(a, o.t.fbs.data(), o.t.fbs.size())))) return true; }
  for (auto &b : k.blks) if (b.rw && in(a, b.b->data(), b.b->size())) return true;
  return false;
}
static void __attribute__((noinline)) logged(Call &k) { mon::clear(); mon::logging = true; mon::stackTop = (uintptr_t)__builtin_frame_address(0); mon::start(); k(); mon::stop(); mon::logging = false; }
static std::function<void()> preempt; static uint64_t at, seen; static uint64_t at2;
static void hook(uintptr_t, size_t, bool) { if (seen == at || seen == at2) preempt(); seen++; }
static void __attribute__((noinline)) interleave(Call &k, uint64_t i, uint64_t j) { mon::clear(); at = i; at2 = j; seen = 0; mon::hook = hook; mon::stackTop = (uintptr_t)__builtin_frame_address(0); mon::start(); k(); mon::stop(); mon::hook = nullptr; }
static void shareInputs(Call &b, Call &a) { for (size_t i = 0; i < a.ops.size(); i++) if (a.ops[i].role == IN) b.ops[i].t.t = a.ops[i].t.t; }
static uint64_t alone(int f, int v, int seed) { for (size_t i = 0; i < all.size(); i++) if (all[i].first == f && all[i].second == v) return base[i * kSeeds + seed - 1]; return 0; }
// B runs to completion at each chosen pre-emption point of A
static void explore(Case &cs, int fa, int va, int fb, int vb, bool shared, const std::vector<std::pair<uint64_t, uint64_t>> &points) {
  uint64_t ea = alone(fa, va, 1), eb = shared ? ea : alone(fb, vb, 2);
  auto run = [&](uint64_t i, uint64_t j) {
    Call a; reg::make(a, fa, va, {}, 1); std::deque<std::unique_ptr<Call>> bs; std::vector<uint64_t> rb;
    for (int q = 0; q < (j != ~0ull ? 2 : 1); q++) { bs.emplace_back(new Call); reg::make(*bs.back(), fb, vb, {}, shared ? 1 : 2); if (shared) shareInputs(*bs.back(), a); }
    size_t q = 0; preempt = [&] { if (q < bs.size()) { mli_status st = (*bs[q])(); rb.push_back(mix(bs[q]->result(), st)); q++; } };
    interleave(a, i, j); cs.call(2);
    uint64_t ra = mix(a.result(), MLI_STATUS_OK); if (ra != ea) cs.fail("preempted", "%s, pre-empted before access %" PRIu64 " by %s%s, gives another result than alone", a.name.c_str(), i, bs[0]->name.c_str(), shared ? " on the same inputs" : "");
    for (auto r : rb) if (r != eb) cs.fail("preempting", "%s%s, started before access %" PRIu64 " of %s, gives another result than alone", bs[0]->name.c_str(), shared ? " on the same inputs" : "", i, a.name.c_str());
    cs.out(mix(mix(ra, i), j)); cs.trace();
  };
  for (auto &x : points) run(x.first, x.second);
}
typedef std::vector<std::pair<uint64_t, uint64_t>> Points;
static Points upTo(const std::vector<uint64_t> &v, bool two) { Points p; for (size_t i = 0; i < v.size(); i++) { p.push_back({v[i], ~0ull}); if (two) for (size_t j = i + 1; j < v.size(); j++) p.push_back({v[i], v[j]}); } return p; }
static std::vector<uint64_t> conflicts(Call &k, bool &writes) { std::vector<uint64_t> v; writes = false; std::unordered_set<uintptr_t> w; for (auto &x : mon::log) if (x.w && !own(k, x.a)) { writes = true; for (uint32_t i = 0; i < x.n; i++) w.insert(x.a + i); }
  for (size_t i = 0; i < mon::log.size(); i++) for (uint32_t j = 0; j < mon::log[i].n; j++) if (w.count(mon::log[i].a + j)) { v.push_back(i); if (i + 1 < mon::log.size()) v.push_back(i + 1); break; } return v; }
static void footprint(Case &cs) {
  auto &c = cs.ch; int fam, var; reg::pick(c, fam, var); int style = c.pick("style", 2); bool big = c.flag("big");
  if (!cs.begin()) return;
  reg::bigShapes() = big; Layout l; { Call p; reg::make(p, fam, var); l.style.assign(p.ops.size(), style); }
  Call k; reg::make(k, fam, var, l, 1); logged(k); cs.call(); bool w; auto v = conflicts(k, w); uint64_t h = mon::log.size(); for (auto &x : mon::log) if (!own(k, x.a)) h = mix(h, x.n * 2 + x.w); cs.state(h); std::string nm = k.name; reg::bigShapes() = false;
  if (w) {   // shared memory is written: the calls are not independent; explore every interleaving at the conflicting accesses
    int f0 = fam; for (int vb = 0; vb < reg::families()[f0].n; vb += 1 + reg::families()[f0].n / 12) explore(cs, fam, var, f0, vb, false, upTo(v, v.size() < 24));
    explore(cs, fam, var, fam, var, true, upTo(v, v.size() < 24));
  }
  cs.out(h); cs.trace();
}
// unconditional exploration of a reduced set at every access outside the stack
static void preemption(Case &cs) {
  static const std::vector<std::pair<int, int>> R = [] { std::vector<std::pair<int, int>> r; for (int f = 0; f < (int)reg::families().size(); f++) { int n = reg::families()[f].n, s = tier(1 + n / 24, 1 + n / 96); for (int v = 0; v < n; v += s) r.push_back({f, v}); } return r; }();
  auto &c = cs.ch; int a = c.pick("first", R.size()), b = c.pick("second", tier(9, 16)), chunk = c.pick("chunk", 4);
  if (!cs.begin()) return;
  auto [fa, va] = R[a]; int F = reg::families().size(); bool shared = b == 0; int fb = b <= 1 ? fa : (fa + (b - 1) * 4) % F, vb = shared ? va : (va + 1 + b * 7) % reg::families()[fb].n;
  uint64_t n; { Call k; reg::make(k, fa, va, {}, 1); logged(k); n = mon::log.size(); } Points p; for (uint64_t i = chunk; i < n && i < 4000; i += 4) p.push_back({i, ~0ull}); explore(cs, fa, va, fb, vb, shared, p);
}
static void twice(Case &cs) {
  static const std::vector<std::pair<int, int>> R = [] { std::vector<std::pair<int, int>> r; for (int f = 0; f < (int)reg::families().size(); f++) { int n = reg::families()[f].n, best = 0; size_t bn = 1 << 30; for (int v = 0; v < n; v += 1 + n / 16) { Call k; reg::make(k, f, v, {}, 1); logged(k); if (mon::log.size() < bn) { bn = mon::log.size(); best = v; } } r.push_back({f, best}); } return r; }();
  auto &c = cs.ch; int a = c.pick("first", R.size()), shared = c.pick("shared", 2), chunk = c.pick("chunk", 16);
  if (!cs.begin()) return;
  auto [fa, va] = R[a]; uint64_t n; { Call k; reg::make(k, fa, va, {}, 1); logged(k); n = mon::log.size(); } uint64_t cap = tier(200, 600), st = (n + cap - 1) / cap; Points p; for (uint64_t i = chunk * st; i < n; i += 16 * st) for (uint64_t j = i + st; j < n; j += st) p.push_back({i, j}); explore(cs, fa, va, fa, va, shared, p);
  cs.trace();
}
// MLI 3.0: no operation of a life cycle writes static data (the first run is not judged: tables may be built on first use)
static void kernels30Static(Case &cs) {
  auto &J = k3::jobs(); int a = cs.ch.pick("kernel", J.size());
  if (!cs.begin()) return;
  struct Guard { ~Guard() { mon::stop(); k3::mode = k3::Mode(); } } g; k3::mode = k3::Mode(); k3::mode.begun = true;
  J[a].run(cs, 11); mon::clear(); mon::stackTop = (uintptr_t)__builtin_frame_address(0); mon::start(); J[a].run(cs, 12); mon::stop();
  if (mon::globalWrites) cs.fail("static", "%s (MLI 3.0): %" PRIu64 " write(s) to static data", J[a].nm.c_str(), mon::globalWrites);
  if (!mon::accesses) cs.fail("monitor", "%s: no access observed", J[a].nm.c_str());
  cs.out(mix(a, mon::accesses)); cs.trace();
}
#endif
int main(int argc, char **argv) {
  prepare();
#ifdef CFG_MON
  return run_main(argc, argv, {{"footprint", footprint}, {"preemption", preemption}, {"preempted_twice", twice}, {"kernels30_static", kernels30Static}});
#else
  return run_main(argc, argv, {{"pairs", pairs}, {"triples", triples}, {"reuse", reuse}, {"kernels30_interleaved", k3::interleaveJobs}});
#endif
}
