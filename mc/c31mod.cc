// One build configuration of the library with the call registry: makes the requested call and reports everything it left behind.
#include "geocall.h"
#include "c31mod.h"
using namespace reg;
enum Fam { CONV, FC, RNND, RNN, POOL, ELT, RELU, LEAKY, PRELU, ACT, NORM, ARGMAX, PERM, CONVERT, MOV };
static bool isSa(const Ten &t) { return t.t.el_type == MLI_EL_SA_8 || t.t.el_type == MLI_EL_SA_32; }
// quantum 2^-f, zero point z (fixed point: f fractional bits)
static void quantum(Ten &t, int f, int z) {
  if (!isSa(t)) { if (t.t.el_type != MLI_EL_FP_32) t.fx(f); return; }
  if (!t.perAxis()) { t.sa(z, 1 << 14, 14 + f); return; }
  int n = t.dim(t.t.el_params.sa.dim); for (int i = 0; i < n; i++) { t.t.el_params.sa.scale.mem.pi16[i] = 1 << 14; t.t.el_params.sa.scale_frac_bits.mem.pi8[i] = 14 + f; t.t.el_params.sa.zero_point.mem.pi16[i] = z; }
}
static i64 noise(size_t i, int seed) { return (i64)(((i * 2654435761u + seed * 40503u) >> 7) % 5) - 2; }
static void small(Ten &t, int seed, int mul, int z) { size_t n = t.count(); for (size_t i = 0; i < n; i++) if (t.t.el_type == MLI_EL_FP_32) t.fset(i, (float)(noise(i, seed) * mul) * 0.25f); else t.set(i, noise(i, seed) * mul + (isSa(t) ? z : 0)); }
// data and formats with which the exact value of every output element is representable; false: not for this family
static bool representable(Call &k, int fam, int seed) {
  auto W = [&](Ten &t, int s) { small(t, s, 1, 0); };
  switch (fam) {
    case CONV: case FC: { Ten &in = k.o(0), &w = k.o(1), &b = k.o(2), &o = k.o(3); int zi = isSa(in) ? seed % 7 - 3 : 0; quantum(in, 2, zi); quantum(w, 3, 0); quantum(b, 5, 0); quantum(o, 5, isSa(o) ? 5 - seed % 4 : 0); small(in, seed, 1, zi); W(w, seed + 1); W(b, seed + 2);
      if (k.name.find("ext_bias") != std::string::npos) return false; return true; }
    case RNND: { quantum(k.o(0), 5, 0); quantum(k.o(1), 5, isSa(k.o(1)) ? 3 : 0); W(k.o(0), seed); for (size_t i = 2; i < k.ops.size(); i += 2) { int z = isSa(k.o(i)) ? (int)i - 3 : 0; quantum(k.o(i), 2, z); small(k.o(i), seed + i, 1, z); quantum(k.o(i + 1), 3, 0); W(k.o(i + 1), seed + 2 * i); } return true; }
    case POOL: { Ten &in = k.o(0), &o = k.o(1); int z = isSa(in) ? 4 : 0; size_t n = in.count(); int ch = in.dim(2); quantum(in, 3, z); quantum(o, 3, isSa(o) ? -2 : 0); for (size_t i = 0; i < n; i++) in.set(i, (i64)((i % ch) * 5 + seed) % 23 - 11 + z); return true; }
    case ELT: { int op = k.name.find("_mul") != std::string::npos, z = isSa(k.o(0)) ? 2 : 0; bool mm = k.name.find("_m") != std::string::npos && !op; quantum(k.o(0), 2, z); quantum(k.o(1), op ? 3 : 2, mm ? z : -z); quantum(k.o(2), op ? 5 : 2, mm ? z : 2 * z); small(k.o(0), seed, 1, z); small(k.o(1), seed + 1, 1, mm ? z : -z); return true; }
    case LEAKY: case PRELU: { int z = isSa(k.o(0)) ? 1 : 0; quantum(k.o(0), 4, z); quantum(k.o(1), 2, 2 * z); quantum(k.o(2), 4, -z); small(k.o(0), seed, 4, z); small(k.o(1), seed + 1, 1, 2 * z); return true; }
    case CONVERT: { int z = 3; quantum(k.o(0), 2, z); quantum(k.o(1), 2, -z); small(k.o(0), seed, 1, z); return true; }
  }
  return false;
}
static void extremes(Call &k, int seed) {
  for (auto &o : k.ops) if (o.role != OUT && o.t.t.el_type != MLI_EL_FP_32) { int bits = 8 * esize(o.t.t.el_type) - (o.t.t.el_type == MLI_EL_SA_32 ? 8 : 0); i64 hi = ((i64)1 << (bits - 1)) - 1; size_t n = o.t.count(); for (size_t i = 0; i < n; i++) { int s = (int)((i * 7 + seed) % 6); o.t.set(i, s < 2 ? hi : s < 4 ? -hi - 1 : s == 4 ? 0 : hi - 1); } }
}
static void report(Call &k, BR *r, mli_status st) {
  r->status = st; snprintf(r->name, sizeof r->name, "%s", k.name.c_str()); r->n = 0; r->desc = r->mem = 3; 
  for (auto &o : k.ops) { r->mem = mc::mix(r->mem, mc::mixb(1, o.t.mem.data(), o.t.mem.size())); r->desc = mc::mix(r->desc, o.t.t.el_type); r->desc = mc::mix(r->desc, o.t.t.rank); for (unsigned d = 0; d < o.t.t.rank; d++) { r->desc = mc::mix(r->desc, o.t.t.shape[d]); r->desc = mc::mix(r->desc, (uint32_t)o.t.t.mem_stride[d]); } r->desc = mc::mix(r->desc, o.t.t.data.capacity); r->desc = mc::mix(r->desc, Call::qhash(o.t));
    if (o.role == IN) continue; size_t n = o.t.count(); for (size_t i = 0; i < n && r->n < BR::CAP; i++) { int64_t x; if (o.t.t.el_type == MLI_EL_FP_32) { float f = o.t.fget(i); int32_t b; memcpy(&b, &f, 4); x = b; } else x = o.t.get(i); r->v[r->n++] = x; } }
  for (auto *l : k.luts) r->mem = mc::mix(r->mem, mc::mixb(2, l->mem.data(), l->mem.size()));
  std::string w; if (!k.guards(w)) { r->mem ^= 0x5555; }
}
extern "C" __attribute__((visibility("default"))) int build_call(const BQ *q, BR *r) {
  if (q->kind == 0 || q->kind == 1) {
    bigShapes() = q->kind == 1; Call k; Layout l; for (int i = 0; i < 16; i++) { l.style.push_back(q->style[i]); l.place.push_back(q->place[i]); }
    reg::make(k, q->fam, q->var, l, q->seed); if (q->data == 1 && !representable(k, q->fam, q->seed)) return 0; if (q->data == 2) extremes(k, q->seed);
    mli_status st = k(); report(k, r, st); return 1;
  }
  const int *g = q->geo; Geo G; memset(&G, 0, sizeof G); G.H = g[0]; G.W = g[1]; G.Ci = g[2]; G.Co = g[3]; G.kh = g[4]; G.kw = g[5]; G.sh = g[6]; G.sw = g[7]; G.dh = g[8]; G.dw = g[9]; G.pt = g[10]; G.pb = g[11]; G.pl = g[12]; G.pr = g[13]; G.G = g[14];
  int i = 0, found = 0; auto use = [&](Call &k) { if (i++ != q->index) return; if (q->data == 2) extremes(k, q->seed); mli_status st = k(); report(k, r, st); found = 1; };
  if (q->kind == 2) convCalls(q->fam, q->var, G, q->style[0], q->seed, use); else poolCalls(q->fam, q->var, G, q->style[0], q->seed, use);
  return found;
}
