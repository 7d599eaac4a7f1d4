// C29: in-place calls leave the bytes that a call with a separate output buffer produces.
#include "reg.h"
#include <array>
using namespace mc;
// mode 0: distinct descriptors, same data; 1: the same descriptor is input and output (equal quantisation needed)
static void body(Case &cs, int fam, int var, size_t pair, int style, int place, int mode, int seed) {
  Call ref, k; Layout l; { Call p; reg::make(p, fam, var); l.style.assign(p.ops.size(), style); l.place.assign(p.ops.size(), place); }
  reg::make(ref, fam, var, l, seed); reg::make(k, fam, var, l, seed);
  auto pr = k.inplace[pair]; Op &in = k.ops[pr.first], &out = k.ops[pr.second];
  if (mode == 1) { if (!out.setsQuant) ref.ops[pr.second].t.t.el_params = ref.ops[pr.first].t.t.el_params; }
  std::vector<std::vector<uint8_t>> keep; for (auto &o : k.ops) keep.push_back(o.t.mem);
  mli_status s0 = ref(), s1;
  mli_tensor in0 = in.t.t, out0 = out.t.t;
  if (mode == 0) { out.t.t.data = in.t.t.data; s1 = k(); }
  else { Ten both = in.t; (void)both; mli_tensor sv = out.t.t; auto d = in.t.t; // the registry addresses operands by index: make both indices name one descriptor
    k.alias = {pr.second, pr.first}; s1 = k(); k.alias = {-1, -1}; out.t.t = in.t.t; in.t.t = d; (void)sv; }
  cs.call(2);
  char how[300]; snprintf(how, sizeof how, "%s, output over %s, style %d, %s", k.name.c_str(), in.name.c_str(), style, mode ? "one descriptor" : "two descriptors");
  if (s0 || s1) cs.fail("status", "%s: status %d separate, %d in place", how, s0, s1);
  // expected image of the shared buffer: input memory with the elements of the separate output
  Ten want = in.t; want.mem = keep[pr.first]; want.rebind(); Ten &ro = ref.ops[pr.second].t; size_t n = ro.count();
  want.t = in0; want.t.el_type = ro.t.el_type; want.t.data.mem.pi32 = (int32_t *)want.base();
  for (size_t i = 0; i < n; i++) want.set(i, ro.get(i));
  if (want.mem != in.t.mem) {
    Ten got = want; got.mem = in.t.mem; got.rebind(); got.t.data.mem.pi32 = (int32_t *)got.base();
    for (size_t i = 0; i < n; i++) if (got.get(i) != want.get(i)) cs.fail("value", "%s: element %zu is %" PRId64 ", with a separate buffer %" PRId64, how, i, got.get(i), want.get(i));
    cs.fail("outside", "%s: bytes outside the elements changed", how);
  }
  for (size_t i = 0; i < k.ops.size(); i++) if ((int)i != pr.first && k.ops[i].t.mem != keep[i]) cs.fail("other", "%s: buffer of %s changed", how, k.ops[i].name.c_str());
  Ten o2 = ro; o2.t = out.t.t; if (Call::qhash(out.t) != Call::qhash(ro)) cs.fail("quant", "%s: quantisation of the output differs", how);
  if (out.t.t.rank != ro.t.rank || memcmp(out.t.t.shape, ro.t.shape, 4 * ro.t.rank) || memcmp(out.t.t.mem_stride, ro.t.mem_stride, 4 * ro.t.rank) || out.t.t.el_type != ro.t.el_type || out.t.t.data.mem.pi8 != in0.data.mem.pi8) cs.fail("descriptor", "%s: output descriptor", how);
  cs.out(ref.result()); cs.trace();
}
static void kernelsN(Case &cs, bool big) {
  reg::bigShapes() = big; static std::vector<std::array<int, 3>> L; if (L.empty()) for (size_t f = 0; f < reg::families().size(); f++) for (int v = 0; v < reg::families()[f].n; v++) { Call k; reg::make(k, f, v); for (size_t p = 0; p < k.inplace.size(); p++) L.push_back({(int)f, v, (int)p}); }
  auto &c = cs.ch; auto e = L[c.pick("call", L.size())]; int style = c.pick("style", 4), place = c.of("place", {0, 1, 3}), mode = c.pick("mode", 2), seed = big ? c.range("seed", 1, tier(2, 8)) : c.range("seed", 1, tier(12, 60));
  if (!cs.begin()) return;
  if (mode == 1) { Call k; reg::make(k, e[0], e[1]); auto &i = k.ops[k.inplace[e[2]].first], &o = k.ops[k.inplace[e[2]].second]; if (i.t.t.el_type != o.t.t.el_type) { cs.skip(); return; } }
  body(cs, e[0], e[1], e[2], style, place, mode, seed);
}
static void kernels(Case &cs) { kernelsN(cs, false); }
static void larger(Case &cs) { kernelsN(cs, true); }
// both operands of a binary operator and the output share one buffer
static void square(Case &cs) {
  reg::bigShapes() = false;
  auto &c = cs.ch; int op = c.pick("op", 5), f = c.pick("fmt", 3), r = c.pick("shape", 4), style = c.pick("style", 4), seed = c.range("seed", 1, tier(10, 40)), same = c.pick("one input descriptor", 2);
  if (!cs.begin()) return;
  int v = op + 5 * (f + 3 * (0 + 3 * r)); Layout l; l.style.assign(3, style); Call ref, k; reg::make(ref, 5, v, l, seed); reg::make(k, 5, v, l, seed);
  if (same) ref.o(1).t.el_params = k.o(1).t.el_params = k.o(0).t.el_params; size_t n = ref.o(0).count(); for (size_t i = 0; i < n; i++) ref.o(1).set(i, ref.o(0).get(i));
  mli_status s0 = ref(); k.o(1).t.data = k.o(0).t.data; k.o(2).t.data = k.o(0).t.data; mli_status s1 = k(); cs.call(2);
  if (s0 || s1) cs.fail("status", "%s on one buffer: status %d / %d", k.name.c_str(), s0, s1);
  for (size_t i = 0; i < n; i++) if (k.o(0).get(i) != ref.o(2).get(i)) cs.fail("value", "%s with all operands in one buffer: element %zu is %" PRId64 ", separately %" PRId64, k.name.c_str(), i, k.o(0).get(i), ref.o(2).get(i));
  std::string w; if (!k.guards(w)) cs.fail("outside", "%s: %s", k.name.c_str(), w.c_str());
  cs.out(k.o(0).hash()); cs.trace();
}
// recurrent cells: the previous output may be overwritten by the output
static void cells(Case &cs) {
  reg::bigShapes() = false;
  auto &c = cs.ch; int v = c.pick("variant", reg::families()[3].n), seed = c.range("seed", 1, tier(12, 60)), style = c.pick("style", 4);
  if (!cs.begin()) return;
  Layout l; l.style.assign(8, style); Call ref, k; reg::make(ref, 3, v, l, seed); reg::make(k, 3, v, l, seed); int M = k.o(1).dim(0);
  for (int i = 0; i < M; i++) k.o(5).wraw(i, k.o(1).raw(i)); k.o(1).t.data = k.o(5).t.data; mli_status s0 = ref(), s1 = k(); cs.call(2);
  if (s0 || s1) cs.fail("status", "%s: status %d / %d", k.name.c_str(), s0, s1);
  size_t n = ref.o(5).count(); for (size_t i = 0; i < n; i++) if (ref.o(5).get(i) != k.o(5).get(i)) cs.fail("value", "%s over the previous output: element %zu is %" PRId64 ", separately %" PRId64, k.name.c_str(), i, k.o(5).get(i), ref.o(5).get(i));
  if (k.ops.size() > 6) for (int i = 0; i < M; i++) if (ref.o(6).get(i) != k.o(6).get(i)) cs.fail("value", "%s over the previous output: cell state %d differs", k.name.c_str(), i);
  cs.out(ref.result()); cs.trace();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"kernels", kernels}, {"larger", larger}, {"one_buffer", square}, {"cells", cells}}); }
