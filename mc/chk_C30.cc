// C30: results do not depend on memory strides or on where the tensors lie.
#include "reg.h"
#include "k3jobs.h"
using namespace mc;
static std::vector<mli_tensor> desc(Call &k) { std::vector<mli_tensor> v; for (auto &o : k.ops) v.push_back(o.t.t); return v; }
// run with a layout and compare with the dense, aligned run
static void against(Case &cs, int fam, int var, const Layout &l, int seed) {
  Call ref, k; reg::make(ref, fam, var, {}, seed); reg::make(k, fam, var, l, seed);
  mli_status s0 = ref(), s1; auto d0 = desc(k); std::vector<std::vector<uint8_t>> in0; for (auto &o : k.ops) in0.push_back(o.role == IN ? o.t.mem : std::vector<uint8_t>());
  s1 = k(); cs.call(2);
  if (s0 != MLI_STATUS_OK || s1 != MLI_STATUS_OK) cs.fail("status", "%s: status %d dense, %d with the layout", k.name.c_str(), s0, s1);
  for (size_t i = 0; i < k.ops.size(); i++) {
    auto &o = k.ops[i], &r = ref.ops[i]; if (o.role == IN) { if (o.t.mem != in0[i]) cs.fail("input", "%s: %s modified", k.name.c_str(), o.name.c_str()); continue; }
    if (o.t.t.rank != r.t.t.rank || memcmp(o.t.t.shape, r.t.t.shape, 4 * o.t.t.rank)) cs.fail("shape", "%s: shape of %s differs", k.name.c_str(), o.name.c_str());
    if (memcmp(o.t.t.mem_stride, d0[i].mem_stride, 4 * o.t.t.rank) || o.t.t.data.mem.pi8 != d0[i].data.mem.pi8 || o.t.t.data.capacity != d0[i].data.capacity) cs.fail("strides", "%s: given strides or buffer of %s replaced", k.name.c_str(), o.name.c_str());
    size_t n = r.t.count(); for (size_t e = 0; e < n; e++) if (o.t.get(e) != r.t.get(e)) cs.fail("value", "%s: element %zu of %s is %" PRId64 ", with dense operands it is %" PRId64, k.name.c_str(), e, o.name.c_str(), o.t.get(e), r.t.get(e));
    if (Call::qhash(o.t) != Call::qhash(r.t)) cs.fail("quant", "%s: quantisation of %s depends on the layout", k.name.c_str(), o.name.c_str());
  }
  std::string w; if (!k.guards(w)) cs.fail("gap", "%s: wrote outside the elements of %s", k.name.c_str(), w.c_str());
  cs.out(k.result()); cs.trace();
}
static bool strided(const Call &k, size_t i) { return k.ops[i].padmask && !(k.offsets && k.ops[i].role == IN); }
// every combination of stride styles over all operands
static void strides(Case &cs) {
  reg::bigShapes() = false;
  auto &c = cs.ch; int fam, var; reg::pick(c, fam, var); Layout l; { Call probe; reg::make(probe, fam, var); for (size_t i = 0; i < probe.ops.size(); i++) l.style.push_back(strided(probe, i) ? c.pick("style", 4) : 0); }
  if (!cs.begin()) return;
  against(cs, fam, var, l, 1 + var % 3);
}
// every combination of placements (offsets from a 16-byte boundary in elements)
static void placement(Case &cs) {
  reg::bigShapes() = false;
  auto &c = cs.ch; int fam, var; reg::pick(c, fam, var); Layout l; { Call probe; reg::make(probe, fam, var); int n = probe.ops.size(); for (int i = 0; i < n; i++) l.place.push_back(n > 4 ? c.of("place", {0, 1}) : c.of("place", {0, 1, 2, 3})); }
  if (!cs.begin()) return;
  against(cs, fam, var, l, 2);
}
// strides and placements together, one operand at a time against all others
static void bothN(Case &cs, bool big) {
  reg::bigShapes() = big;
  auto &c = cs.ch; int fam, var; reg::pick(c, fam, var); int which, s, p, so, po, n; { Call probe; reg::make(probe, fam, var); n = probe.ops.size(); }
  which = c.pick("operand", n); s = c.pick("style", 4); p = big ? 0 : c.of("place", {0, 1, 5, 7}); so = c.pick("other styles", 4); po = big ? 1 : c.of("other places", {0, 1});
  if (!cs.begin()) return;
  Layout l; Call probe; reg::make(probe, fam, var); for (int i = 0; i < n; i++) { l.style.push_back(strided(probe, i) ? i == which ? s : so : 0); l.place.push_back(i == which ? p : po); }
  against(cs, fam, var, l, 3);
}
static void both(Case &cs) { bothN(cs, false); }
static void larger(Case &cs) { bothN(cs, true); }
// strides beyond 16-bit ranges
static void far(Case &cs) {
  reg::bigShapes() = false;
  auto &c = cs.ch; int fam, var; reg::pick(c, fam, var); int n; { Call probe; reg::make(probe, fam, var); n = probe.ops.size(); } int which = c.pick("operand", n), s = 4 + c.pick("style", 2);
  if (!cs.begin()) return;
  Layout l; Call probe; reg::make(probe, fam, var); if (!strided(probe, which)) { cs.skip(); return; } for (int i = 0; i < n; i++) l.style.push_back(i == which ? s : 0);
  against(cs, fam, var, l, 4);
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"strides", strides}, {"placement", placement}, {"both", both}, {"larger", larger}, {"far", far}, {"kernels30", k3::layoutJobs}}); }
