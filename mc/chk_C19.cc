// C19: with return codes enabled, calls that violate a documented constraint are refused, valid calls are accepted.
#include "valid.h"
#include <sstream>
#include <map>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
using namespace mc; using namespace valid;
static sigjmp_buf jb; static volatile sig_atomic_t armed;
static void onsig(int s) { if (armed) { armed = 0; siglongjmp(jb, s); } signal(s, SIG_DFL); raise(s); }
static void hook() { static bool done = false; if (done) return; done = true; struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onsig; a.sa_flags = SA_NODEFER; for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGABRT}) sigaction(s, &a, nullptr); }
// status of the call; -signal when it crashed
static int guarded(Call &k) { hook(); int s = sigsetjmp(jb, 1); if (s) return -s; armed = 1; int r = k(); armed = 0; return r; }

// first quantisation values, also of a tensor whose array pointers another mutation has removed
static int zp0(const Ten &t) { return !t.perAxis() ? t.zp() : t.zps.empty() ? 0 : t.zps[0]; }
static int sc0(const Ten &t) { return !t.perAxis() ? t.scale() : t.scs.empty() ? 64 : t.scs[0]; }
static int fb0(const Ten &t) { return !t.perAxis() ? t.fb() : t.fbs.empty() ? 9 : t.fbs[0]; }
// memory of operands that were replaced stays allocated until the end of the case: other operands may still point into it
static std::vector<std::vector<uint8_t>> &grave() { static std::vector<std::vector<uint8_t>> g; return g; }
static void bury(Ten &t) { grave().push_back(std::move(t.mem)); t.mem.clear(); }
// puts the data of one operand at the start of another one, whose memory grows to hold it
static void onto(Ten &y, Ten &x) { if (y.t.data.capacity > 1000000) return; std::vector<uint8_t> c = x.mem; bury(x); x.mem = c; x.mem.resize(c.size() + y.t.data.capacity, 1); x.rebind(); y.t.data.mem = x.t.data.mem; }
struct Mut { std::string name; std::function<void(Call &)> f; };
// rebuild an operand with another shape, type or inner stride; quantisation stays valid for the new shape
static void rebuild(Ten &t, std::vector<int> sh, mli_element_type el, int inner = 1) {
  // an operand another mutation has made too large (or empty) to allocate: the descriptor alone
  double big = 1; for (int d : sh) big *= d <= 0 ? 1e9 : d; if (big > 1e6 || sh.size() > 4) { t.t.rank = sh.size(); for (size_t d = 0; d < sh.size() && d < 4; d++) t.t.shape[d] = sh[d]; if (isSa(t.t.el_type) == isSa(el)) t.t.el_type = el; return; }
  Ten n; n.make(el, sh, {}, inner); bool was = isSa(t.t.el_type), is = isSa(el);
  if (was && is && t.perAxis() && !t.zps.empty()) { auto z = t.zps, s = t.scs; auto f = t.fbs; int d = t.t.el_params.sa.dim; size_t len = d < (int)sh.size() ? sh[d] : 1; z.resize(len, z[0]); s.resize(len, s[0]); f.resize(len, f[0]); n.saAxis(d, z, s, f); }
  else if (was == is) n.t.el_params = t.t.el_params; else if (is) n.sa(0, 64, 9); else n.fx(3);
  fill(n, P_RND, 77); bury(t); t = n;
}
static std::vector<int> shapeOf(const Ten &t) { return std::vector<int>(t.t.shape, t.t.shape + std::min(t.t.rank, 4u)); }
static void perAxisOf(Ten &t, int d, int len) { int z = zp0(t), s = sc0(t), f = fb0(t); t.saAxis(d, std::vector<int16_t>(len, z), std::vector<int16_t>(len, s), std::vector<int8_t>(len, f)); }

static std::vector<Mut> muts(int fam, Call &K) {
  std::vector<Mut> m;
  auto add = [&](std::string n, std::function<void(Call &)> f) { m.push_back({n, f}); };
  for (int i = 0; i < (int)K.ops.size(); i++) {
    Ten &t = K.o(i); int R = t.rank(); std::string o = K.ops[i].name + std::to_string(i) + " ";
    add(o + "null", [=](Call &k) { k.nullOp = i; });
    add(o + "data null", [=](Call &k) { k.o(i).t.data.mem.pi8 = nullptr; });
    add(o + "capacity-1", [=](Call &k) { k.o(i).t.data.capacity--; });
    add(o + "capacity 0", [=](Call &k) { k.o(i).t.data.capacity = 0; });
    add(o + "rank 5", [=](Call &k) { k.o(i).t.rank = 5; });
    add(o + "rank+1", [=](Call &k) { if (k.o(i).rank() == 4) { k.o(i).t.rank = 5; return; } auto s = shapeOf(k.o(i)); s.insert(s.begin(), 1); rebuild(k.o(i), s, k.o(i).t.el_type); });
    add(o + "rank+1 back", [=](Call &k) { if (k.o(i).rank() == 4) { k.o(i).t.rank = 5; return; } auto s = shapeOf(k.o(i)); s.push_back(1); rebuild(k.o(i), s, k.o(i).t.el_type); });
    if (R > 1) add(o + "rank-1", [=](Call &k) { auto s = shapeOf(k.o(i)); if (s.size() < 2) return; int p = s.back(); s.pop_back(); s.back() *= p; rebuild(k.o(i), s, k.o(i).t.el_type); });
    for (int d = 0; d < R; d++) {
      std::string D = "dim " + std::to_string(d) + " ";
      add(o + D + "zero", [=](Call &k) { k.o(i).t.shape[d] = 0; });
      add(o + D + "stride zero", [=](Call &k) { k.o(i).t.mem_stride[d] = 0; });
      add(o + D + "stride negative", [=](Call &k) { k.o(i).t.mem_stride[d] = -k.o(i).t.mem_stride[d]; });
      if (d < R - 1 && t.t.mem_stride[d] > 1) add(o + D + "stride short", [=](Call &k) { k.o(i).t.mem_stride[d]--; });
      add(o + D + "+1", [=](Call &k) { auto s = shapeOf(k.o(i)); if (d >= (int)s.size()) return; s[d]++; rebuild(k.o(i), s, k.o(i).t.el_type); });
      if (t.dim(d) > 1) add(o + D + "-1", [=](Call &k) { auto s = shapeOf(k.o(i)); if (d >= (int)s.size() || s[d] < 2) return; s[d]--; rebuild(k.o(i), s, k.o(i).t.el_type); });
    }
    // the extent is a multiple of 2^32 bytes plus the true one, and far above the capacity
    for (int d = 0; d < R; d++) add(o + "dim " + std::to_string(d) + " wraps", [=](Call &k) { auto &T = k.o(i).t; if (d >= (int)T.rank || T.rank > 4) return; uint64_t st = (uint64_t)T.mem_stride[d] * esize(T.el_type), n = st && !(st & (st - 1)) ? (1ull << 32) / st : 0; if (n == 0 || n > INT32_MAX - 4096u) n = 1u << 30; T.shape[d] += (uint32_t)n; if (d) { for (int e = d - 1; e >= 0; e--) T.shape[e] = 1, T.mem_stride[e] = INT32_MAX; } });
    if (R > 1) add(o + "65536 squared", [=](Call &k) { auto &T = k.o(i).t; if (T.rank < 2 || T.rank > 4) return; for (unsigned d = 0; d < T.rank; d++) { T.shape[d] = d < 2 ? 65536 : 1; T.mem_stride[d] = d < 1 ? 65536 : 1; } });
    add(o + "inner stride 2", [=](Call &k) { rebuild(k.o(i), shapeOf(k.o(i)), k.o(i).t.el_type, 2); });
    if (R > 1) add(o + "row stride larger", [=](Call &k) { Ten n; int R = shapeOf(k.o(i)).size(); if (R < 2) return; std::vector<int> pad(R, 0); pad[R - 2] = 3; double big = 1; for (int d : shapeOf(k.o(i))) big *= d <= 0 ? 1e9 : d; if (big > 1e6) return; n.make(k.o(i).t.el_type, shapeOf(k.o(i)), pad); n.t.el_params = k.o(i).t.el_params; n.zps = k.o(i).zps; n.scs = k.o(i).scs; n.fbs = k.o(i).fbs; n.rebind(); fill(n, P_RND, 7); bury(k.o(i)); k.o(i) = n; });
    for (mli_element_type e : {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}) if (e != t.t.el_type) add(o + "type " + std::to_string((int)e), [=](Call &k) { rebuild(k.o(i), shapeOf(k.o(i)), e); });
    if (isSa(t.t.el_type)) {
      bool ax = t.perAxis(); int d0 = t.t.el_params.sa.dim;
      add(o + "axis = rank", [=](Call &k) { if (ax) k.o(i).t.el_params.sa.dim = R; else perAxisOf(k.o(i), R, 8); });
      for (int d = 0; d < R; d++) if (!ax || d != d0) add(o + "axis " + std::to_string(d), [=](Call &k) { auto &T = k.o(i); int len = d < (int)T.rank() && d < 4 ? T.dim(d) : 1; if (len < 1 || len > 4096) len = 1; int z = zp0(T), s = sc0(T), f = fb0(T); T.saAxis(d, std::vector<int16_t>(len, z), std::vector<int16_t>(len, s), std::vector<int8_t>(len, f)); });
      if (ax) {
        add(o + "per tensor", [=](Call &k) { auto &T = k.o(i); T.sa(zp0(T), sc0(T), fb0(T)); });
        add(o + "zp capacity", [=](Call &k) { k.o(i).t.el_params.sa.zero_point.capacity--; });
        add(o + "scale capacity", [=](Call &k) { k.o(i).t.el_params.sa.scale.capacity--; });
        add(o + "frac capacity", [=](Call &k) { k.o(i).t.el_params.sa.scale_frac_bits.capacity--; });
        add(o + "zp null", [=](Call &k) { k.o(i).t.el_params.sa.zero_point.mem.pi16 = nullptr; });
        add(o + "scale null", [=](Call &k) { k.o(i).t.el_params.sa.scale.mem.pi16 = nullptr; });
        add(o + "frac null", [=](Call &k) { k.o(i).t.el_params.sa.scale_frac_bits.mem.pi8 = nullptr; });
      }
      int nq = ax ? t.dim(d0) : 1;
      for (int q = 0; q < nq; q++) {
        std::string Q = "[" + std::to_string(q) + "]";
        for (int v : {0, -1, -32768}) add(o + "scale" + Q + " " + std::to_string(v), [=](Call &k) { auto &T = k.o(i); if (ax && q < (int)T.scs.size()) T.scs[q] = v; else if (!T.perAxis()) T.t.el_params.sa.scale.mem.i16 = v; });
        for (int v : {1, -1, 127, -128, 128, -129, 16383, -16384, 16384, -16385, 32767, -32768}) add(o + "zp" + Q + " " + std::to_string(v), [=](Call &k) { auto &T = k.o(i); if (ax && q < (int)T.zps.size()) T.zps[q] = v; else if (!T.perAxis()) T.t.el_params.sa.zero_point.mem.i16 = v; });
        if (K.ops[i].name == "bias") for (int v : {1, -1, 2, -2, 100}) add(o + "scale" + Q + (v > 0 ? "+" : "") + std::to_string(v), [=](Call &k) { auto &T = k.o(i); if (ax && q < (int)T.scs.size()) T.scs[q] += v; else if (!T.perAxis()) T.t.el_params.sa.scale.mem.i16 += v; });
        if (K.ops[i].name == "bias") for (int v : {1, -1}) add(o + "scale bits" + Q + (v > 0 ? "+" : "") + std::to_string(v), [=](Call &k) { auto &T = k.o(i); if (ax && q < (int)T.fbs.size()) T.fbs[q] += v; else if (!T.perAxis()) T.t.el_params.sa.scale_frac_bits.mem.i8 += v; });
      }
    } else if (t.t.el_type != MLI_EL_FP_32) {
      for (int v : {1, -1, 40}) add(o + "frac" + (v > 0 ? "+" : "") + std::to_string(v), [=](Call &k) { auto &T = k.o(i); T.t.el_params.fx.frac_bits += v; });
    }
  }
  for (size_t i = 0; i < K.luts.size(); i++) { Lut *L = K.luts[i]; std::string o = "lut" + std::to_string(i) + " "; add(o + "capacity-1", [=](Call &) { L->l.data.capacity = L->cap - 1; }); add(o + "null", [=](Call &k) { k.nullLut = i; }); add(o + "data null", [=](Call &) { L->l.data.mem.pi16 = nullptr; }); }
  if (!K.blks.empty()) add("cfg null", [=](Call &k) { k.nullCfg = true; });
  if (fam == RNND) { add("inputs null", [=](Call &k) { k.nullList = 0; }); add("weights null", [=](Call &k) { k.nullList = 1; }); for (int n : {0, MLI_RNN_MAX_INPUT + 1, 200}) add("inputs_num " + std::to_string(n), [=](Call &k) { cfgOf<mli_rnn_dense_cfg>(k)->inputs_num = n; }); }
  if (fam == CONV) {
    typedef mli_conv2d_cfg C; Ten &w = K.o(1); C c = *cfgOf<C>(K); bool tr = K.name.compare(0, 9, "transpose") == 0; int kh = tr ? w.dim(0) : (w.dim(0) - 1) * c.dilation_height + 1, kw = tr ? w.dim(1) : (w.dim(1) - 1) * c.dilation_width + 1;
#define CF(f, v) { int vv = v; if ((int)c.f != vv) add(std::string("cfg " #f " = " #v), [=](Call &k) { cfgOf<C>(k)->f = vv; }); }
    CF(padding_left, kw) CF(padding_right, kw) CF(padding_top, kh) CF(padding_bottom, kh) CF(padding_left, 255) CF(padding_top, 255) CF(stride_width, 0) CF(stride_height, 0) CF(dilation_width, 0) CF(dilation_height, 0)
    CF(padding_left, (kw-1)) CF(padding_right, (kw-1)) CF(padding_top, (kh-1)) CF(padding_bottom, (kh-1)) CF(dilation_width, (c.dilation_width+1)) CF(dilation_height, (c.dilation_height+1)) CF(stride_width, (c.stride_width+1)) CF(stride_height, (c.stride_height+1)) CF(stride_width, (kw+1)) CF(stride_height, (kh+1))
  }
  if (fam == POOL) {
    typedef mli_pool_cfg C; C c = *cfgOf<C>(K); int kh = c.kernel_height, kw = c.kernel_width;
    CF(padding_left, kw) CF(padding_right, kw) CF(padding_top, kh) CF(padding_bottom, kh) CF(padding_left, (kw-1)) CF(padding_right, (kw-1)) CF(padding_top, (kh-1)) CF(padding_bottom, (kh-1)) CF(stride_width, 0) CF(stride_height, 0) CF(kernel_width, 0) CF(kernel_height, 0) CF(kernel_width, (kw+1)) CF(kernel_height, (kh+1)) CF(kernel_width, (kw-1)) CF(kernel_height, (kh-1)) CF(kernel_width, (K.o(0).dim(1)+c.padding_left+c.padding_right+1)) CF(kernel_height, (K.o(0).dim(0)+c.padding_top+c.padding_bottom+1)) CF(stride_width, (c.stride_width+1)) CF(stride_height, (c.stride_height+1))
  }
  if (fam == PRELU || fam == NORM || fam == ARGMAX) { int R = K.o(0).rank(); for (int a : {R, R + 1, 127}) add("cfg axis " + std::string(a == R ? "rank" : a == 127 ? "127" : "rank+1"), [=](Call &k) { *(fam == PRELU ? &cfgOf<mli_prelu_cfg>(k)->axis : fam == NORM ? &cfgOf<mli_softmax_cfg>(k)->axis : &cfgOf<mli_argmax_cfg>(k)->axis) = a; }); }
  if (fam == ARGMAX) { int n = K.o(0).count() / K.o(1).dim(0); add("topk over", [=](Call &k) { cfgOf<mli_argmax_cfg>(k)->topk = n + 1; rebuild(k.o(1), {k.o(1).dim(0), n + 1}, MLI_EL_SA_32); }); add("topk 0", [=](Call &k) { cfgOf<mli_argmax_cfg>(k)->topk = 0; }); add("topk+1", [=](Call &k) { cfgOf<mli_argmax_cfg>(k)->topk++; }); add("topk-1", [=](Call &k) { cfgOf<mli_argmax_cfg>(k)->topk--; }); }
  if (fam == PERM) { int R = K.o(0).rank(); for (int d = 0; d < R; d++) { add("perm_dim " + std::to_string(d) + " = rank", [=](Call &k) { cfgOf<mli_permute_cfg>(k)->perm_dim[d] = R; }); add("perm_dim " + std::to_string(d) + " = 255", [=](Call &k) { cfgOf<mli_permute_cfg>(k)->perm_dim[d] = 255; }); if (R > 1) add("perm_dim " + std::to_string(d) + " duplicate", [=](Call &k) { auto *c = cfgOf<mli_permute_cfg>(k); c->perm_dim[d] = c->perm_dim[(d + 1) % R]; }); } }
  if (fam == RNN) { typedef mli_rnn_cell_cfg C; add("scratch null", [=](Call &k) { cfgOf<C>(k)->scratch_data.mem.pi8 = nullptr; }); add("scratch capacity-1", [=](Call &k) { cfgOf<C>(k)->scratch_data.capacity--; }); add("scratch over input", [=](Call &k) { auto *c = cfgOf<C>(k); c->scratch_data.mem = k.o(0).t.data.mem; }); add("act 99", [=](Call &k) { cfgOf<C>(k)->act = (mli_rnn_out_activation)99; }); add("direction 9", [=](Call &k) { cfgOf<C>(k)->direction = (mli_rnn_direction)9; }); add("results 9", [=](Call &k) { cfgOf<C>(k)->results = (mli_rnn_results)9; }); }
  if (fam == RELU) add("relu type 9", [=](Call &k) { cfgOf<mli_relu_cfg>(k)->type = (mli_relu_type)9; });
  if (fam == CONV) add("relu type 9", [=](Call &k) { cfgOf<mli_conv2d_cfg>(k)->relu.type = (mli_relu_type)9; });
  // overlapping input and output
  auto both = [](Call &k, int a, int b, int delta) { Ten &x = k.o(a), &y = k.o(b); (void)delta; if (x.t.data.capacity > 1000000 || y.t.data.capacity > 1000000) return; std::vector<uint8_t> z(x.mem.size() + y.mem.size() + 64); size_t yo = y.t.data.capacity; { std::vector<uint8_t> c = y.mem; bury(y); y.mem = c; } y.mem.resize(y.mem.size() + x.t.data.capacity + 256, 1); y.rebind(); x.t.data.mem.pi8 = y.t.data.mem.pi8 + (delta < 0 ? -(int)x.t.data.capacity - delta : (int)yo - delta); if (delta < 0) { y.t.data.mem.pi8 += x.t.data.capacity; x.t.data.mem.pi8 += x.t.data.capacity; } };
  if (fam == CONV) { add("overlap one byte after", [=](Call &k) { both(k, 0, 3, 1); }); add("overlap one byte before", [=](Call &k) { both(k, 0, 3, -1); }); add("overlap same", [=](Call &k) { onto(k.o(3), k.o(0)); }); }
  int oo = fam == FC ? 3 : fam == RNND ? 1 : fam == POOL || fam == PERM || fam == MOV ? 1 : -1, ii = fam == RNND ? 2 : 0;
  if (oo > 0) { add("overlap one byte after", [=](Call &k) { both(k, ii, oo, 1); }); add("overlap one byte before", [=](Call &k) { both(k, ii, oo, -1); }); add("overlap same", [=](Call &k) { onto(k.o(oo), k.o(ii)); }); }
  for (auto &p : K.inplace) { int a = p.first, b = p.second; add("in place " + std::to_string(a), [=](Call &k) { k.alias = {-1, -1}; k.o(b).t.data.mem = k.o(a).t.data.mem; if (k.o(b).t.data.capacity > k.o(a).t.data.capacity) k.o(b).t.data.capacity = k.o(a).t.data.capacity; }); }
  if (fam == ELT || fam == LEAKY || fam == PRELU) for (int i = 0; i < 2; i++) if (K.o(i).count() == 1) add("bare scalar " + std::to_string(i), [=](Call &k) { Ten &x = k.o(i); i64 v = x.count() == 1 ? x.get(0) : 1; x.t.rank = 0; x.t.data.capacity = 0; x.t.data.mem.pi8 = nullptr; if (esize(x.t.el_type) == 2) x.t.data.mem.i16 = v; else if (esize(x.t.el_type) == 1) x.t.data.mem.i8 = v; else x.t.data.mem.i32 = v; });
  return m;
}
static void restoreLuts(Call &k) { for (Lut *L : k.luts) { L->l.data.capacity = L->cap; L->l.data.mem.pi16 = (int16_t *)L->base(); } }
// the mutations of a call are the same for every call of one (family, variant)
struct Known { Spec spec; std::vector<Mut> m; };
static Known &known(int fam, int var) {
  static std::map<std::pair<int, int>, Known> C; auto &e = C[{fam, var}]; if (e.m.empty()) { if (C.size() > 40) { C.clear(); return known(fam, var); } Call p; reg::make(p, fam, var, {}, 1); e.spec = specOf(fam, p); e.m = muts(fam, p); e.m.insert(e.m.begin(), {"unchanged", [](Call &) {}}); } return e;
}
static bool dump() { static bool d = getenv("C19_DUMP"); return d; }
struct Snap { std::vector<std::vector<uint8_t>> mem; std::vector<mli_tensor> d; std::vector<std::vector<uint8_t>> b;
  int fam; Snap(Call &k, int fam_) : fam(fam_) { for (auto &o : k.ops) { mem.push_back(o.t.mem); d.push_back(o.t.t); } for (auto &x : k.blks) b.push_back(*x.b); } };
// an accepted call changes nothing but elements of its operands (by their descriptors before and after the call) and its blocks
static bool within(Call &k, const Snap &s, std::string &why) {
  for (auto &b : k.blks) for (size_t i = 0; i < b.b->size(); i++) if ((i < b.off || i >= b.off + b.n) && (*b.b)[i] != canary(i)) { why = b.name; return false; }
  auto holds = [](const mli_tensor &t, uintptr_t at) {
    if (t.rank > 4 || t.rank == 0) return false; uintptr_t p = (uintptr_t)t.data.mem.pi8; int es = esize(t.el_type); if (at < p) return false; i64 e = (i64)(at - p) / es;
    std::function<bool(unsigned, i64)> go = [&](unsigned d, i64 left) { if (d == t.rank) return left == 0; for (i64 i = 0; i < (i64)t.shape[d] && i * t.mem_stride[d] <= left; i++) if (go(d + 1, left - i * t.mem_stride[d])) return true; return false; };
    return go(0, e);
  };
  for (size_t i = 0; i < k.ops.size(); i++) for (size_t x = 0; x < s.mem[i].size(); x++) if (k.ops[i].t.mem[x] != s.mem[i][x]) {
    bool in = false; for (size_t o = 0; o < k.ops.size() && !in; o++) in = (s.fam != MOV && holds(s.d[o], (uintptr_t)&k.ops[i].t.mem[x])) || holds(k.ops[o].t.t, (uintptr_t)&k.ops[i].t.mem[x]);
    if (!in) { why = k.ops[i].name + " at byte " + std::to_string((i64)x - (i64)(k.ops[i].t.base() - k.ops[i].t.mem.data())); return false; }
  }
  return true;
}
static void decide(Case &cs, Call &k, const Spec &sp, const std::string &what, bool mayStop = true) {
  (void)mayStop; J j = judge(sp, k);
  if (j.v == valid::FREE && !(dump() && getenv("C19_FREE"))) { restoreLuts(k); cs.skip(); return; }      // nothing is demanded of the call, so it is not made: its effects are undefined
  Snap s(k, sp.fam); int st = guarded(k); restoreLuts(k); cs.call(1);
  std::string touched; for (size_t i = 0; i < k.ops.size(); i++) if (k.ops[i].t.mem != s.mem[i]) touched = "data of " + k.ops[i].name; else if (sp.fam != MOV && memcmp(&s.d[i], &k.ops[i].t.t, sizeof s.d[i])) { if (touched.empty()) touched = "descriptor of " + k.ops[i].name; }
  if (touched.empty()) for (size_t i = 0; i < k.blks.size(); i++) if (k.blks[i].name != "input list" && k.blks[i].name != "weights list" && *k.blks[i].b != s.b[i]) touched = k.blks[i].name;
  std::string w = k.name + ": " + what;
  if (dump()) { static FILE *f = nullptr; if (!f) { char b[100]; snprintf(b, 100, "/tmp/c19/%d", getpid()); f = fopen(b, "a"); setvbuf(f, 0, _IOLBF, 0); } const char *r = st < 0 ? "CRASH" : st == 0 ? "accepted" : "refused", *e = j.v == BAD ? "BAD" : j.v == FREE ? "FREE" : "OK"; bool wrong = (j.v == BAD && (st <= 0 || !touched.empty())) || (j.v == valid::OK && st); fprintf(f, "%s%s | %s | %s | %s %s | %s\n", wrong ? "WRONG " : "", k.name.c_str(), what.c_str(), e, r, st > 0 ? touched.c_str() : "", j.why.c_str()); }
  cs.state(mc::mix(mc::mix(sp.fam, st), j.v)); cs.out(st); cs.trace();
  if (dump()) return;
  if (j.v == BAD) {
    if (st < 0) cs.fail("crash", "%s (%s): the call was not refused but raised signal %d", w.c_str(), j.why.c_str(), -st);
    if (st == 0) cs.fail("accepted", "%s: invalid (%s) but accepted", w.c_str(), j.why.c_str());
    if (!touched.empty()) cs.fail("touched", "%s (%s): refused with status %d, but the %s changed", w.c_str(), j.why.c_str(), st, touched.c_str());
  } else if (j.v == valid::OK) {
    if (st < 0) cs.fail("validcrash", "%s: valid, but raised signal %d", w.c_str(), -st);
    if (st > 0) cs.fail("refused", "%s: valid, but refused with status %d", w.c_str(), st);
    std::string why; if (!within(k, s, why)) cs.fail("guard", "%s: accepted, but wrote outside of its operands: %s", w.c_str(), why.c_str());
  }
}
static void single(Case &cs) {
  reg::bigShapes() = false; auto &c = cs.ch; int fam, var; reg::pick(c, fam, var); Known &kn = known(fam, var); int which = c.pick("mutation", kn.m.size());
  if (!cs.begin()) return;
  grave().clear(); Call k; reg::make(k, fam, var, {}, 1); kn.m[which].f(k); decide(cs, k, kn.spec, kn.m[which].name);
}
// valid calls with larger operands and every data set, unchanged: none may be refused
static void plain(Case &cs) {
  auto &c = cs.ch; int fam, var; bool big = c.flag("large"); reg::bigShapes() = big; reg::pick(c, fam, var); int data = c.range("data", 1, 8);
  if (!cs.begin()) { reg::bigShapes() = false; return; }
  grave().clear(); Call k; reg::make(k, fam, var, {}, data); Spec sp = specOf(fam, k); decide(cs, k, sp, "unchanged"); reg::bigShapes() = false;
}
// every pair of mutations, for one variant of every entry point (quick) or several (thorough)
static const std::vector<std::pair<int, int>> &heads() {
  static std::vector<std::pair<int, int>> v = [] { reg::bigShapes() = false; std::vector<std::pair<int, int>> r; std::map<std::string, int> seen; for (int f = 0; f < (int)reg::families().size(); f++) for (int x = 0; x < reg::families()[f].n; x++) { Call p; reg::make(p, f, x, {}, 1); std::istringstream is(p.name); std::string a, b; is >> a >> b; std::string key = std::to_string(f) + a + (f == CONVERT || f == MOV ? p.name.substr(0, p.name.find("rank") + 6) : b); if (seen[key]++ < tier(1, 3)) r.push_back({f, x}); } return r; }(); return v;
}
static void pairs(Case &cs) {
  reg::bigShapes() = false; auto &c = cs.ch; auto &H = heads(); auto h = H[c.pick("call", H.size())]; Known &kn = known(h.first, h.second); int n = kn.m.size(), a = c.range("first", 1, n - 2), b = c.range("second", a + 1, n - 1);
  if (!cs.begin()) return;
  grave().clear(); Call k; reg::make(k, h.first, h.second, {}, 1); bool swap = (a + b) & 1; kn.m[swap ? b : a].f(k); kn.m[swap ? a : b].f(k); decide(cs, k, kn.spec, kn.m[swap ? b : a].name + " and " + kn.m[swap ? a : b].name);
}
// every three mutations of one variant of every entry point (thorough)
static void triples(Case &cs) {
  reg::bigShapes() = false; auto &c = cs.ch; auto &H = heads(); auto h = H[c.pick("call", H.size())]; Known &kn = known(h.first, h.second); int n = kn.m.size(); if (!thorough()) n = std::min(n, 12); int a = c.range("first", 1, n - 3), b = c.range("second", a + 1, n - 2), d = c.range("third", b + 1, n - 1);
  if (!cs.begin()) return;
  grave().clear(); Call k; reg::make(k, h.first, h.second, {}, 1); int o[3] = {a, b, d}; std::swap(o[0], o[(a + b + d) % 3]); for (int i : o) kn.m[i].f(k); decide(cs, k, kn.spec, kn.m[o[0]].name + ", " + kn.m[o[1]].name + " and " + kn.m[o[2]].name);
}
// operands placed anywhere in the address space: apart by multiples of 4 GiB, across 2 GiB and 4 GiB boundaries, touching or overlapping by one byte
static const size_t GB = 1ull << 30;
static uint8_t *arena() { static uint8_t *p = [] { uint8_t *q = (uint8_t *)mmap((void *)(64 * GB), 20 * GB, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q; }(); return p; }
static void open_(uint8_t *p, size_t n) { uintptr_t a = (uintptr_t)p & ~4095ul, e = ((uintptr_t)p + n + 4095) & ~4095ul; if (mprotect((void *)a, e - a, PROT_READ | PROT_WRITE)) abort(); }
static void far(Case &cs) {
  reg::bigShapes() = false; auto &c = cs.ch; auto &H = heads(); auto h = H[c.pick("call", H.size())]; Known &kn = known(h.first, h.second);
  static const int outs[] = {3, 3, 1, 5, 1, 2, 1, 2, 2, 1, 1, 1, 1, 1, 1}; int oi = outs[h.first], ii = h.first == RNND ? 2 : 0;
  int at = c.pick("boundary", 4), rel = c.pick("relation", 6);
  if (!cs.begin()) return;
  if (arena() == MAP_FAILED) { cs.skip(); return; }
  Call k; reg::make(k, h.first, h.second, {}, 1); Ten &in = k.o(ii), &out = k.o(oi); size_t ci = in.t.data.capacity, co = out.t.data.capacity;
  static const size_t B[4] = {66 * GB, 68 * GB, 70 * GB, 67 * GB}; uint8_t *mid = (uint8_t *)(((uintptr_t)arena() / (4 * GB)) * (4 * GB) + (B[at] - 64 * GB) + 4 * GB);
  size_t es = std::max(esize(in.t.el_type), esize(out.t.el_type)); uint8_t *pi, *po;
  auto up = [&](size_t x) { return (x + es - 1) / es * es; };
  if (rel == 0) pi = mid - up(ci), po = mid; else if (rel == 1) po = mid - up(co), pi = mid; else if (rel == 2) pi = mid - up(ci) + es, po = mid; else if (rel == 3) po = mid - up(co) + es, pi = mid; else if (rel == 4) pi = mid - es, po = mid - es + 4 * GB; else pi = mid + 8 * GB, po = mid;
  if (rel == 2 && in.t.data.capacity < (uint32_t)es) { cs.skip(); return; }
  open_(pi, ci); open_(po, co); memcpy(pi, in.base(), ci); in.t.data.mem.pi8 = (int8_t *)pi; out.t.data.mem.pi8 = (int8_t *)po;
  char b[80]; snprintf(b, sizeof b, "input at %p, output at %p", pi, po);
  decide(cs, k, kn.spec, b); mprotect(arena(), 20 * GB, PROT_NONE); madvise(pi, 1, MADV_DONTNEED);
}
// helpers with a status: windows of a tensor, element counts, tables
static void helper(Case &cs) {
  auto &c = cs.ch; int which = c.pick("helper", 3);
  if (which == 0) {      // mli_hlp_create_subtensor
    int R = c.range("rank", 1, 3), nul = c.pick("null", 4), sub = c.range("sub rank", 0, R + 1); static const uint32_t O[] = {0, 1, 2, 3, 0xffffffffu}; uint32_t off[3] = {}, sz[3] = {}; std::vector<int> sh = {2, 3, 2}; sh.resize(R);
    for (int d = 0; d < R; d++) { off[d] = O[c.pick("offset", d == 0 || thorough() ? 5 : 3)]; sz[d] = d == 0 || thorough() ? c.pick("size", 5) : c.pick("size", 4); }
    if (!cs.begin()) return;
    Ten in(MLI_EL_FX_16, sh, {}, 1); fill(in, P_RND, 3); in.fx(4); mli_tensor out; memset(&out, 0x5a, sizeof out); mli_tensor out0 = out; mli_sub_tensor_cfg cf; memset(&cf, 0, sizeof cf); for (int d = 0; d < R; d++) { cf.offset[d] = off[d]; cf.size[d] = sz[d]; } cf.sub_tensor_rank = sub;
    J j; j.need(nul == 0, "null"); int ones = 0; for (int d = 0; d < R; d++) { j.need((uint64_t)off[d] + sz[d] <= (uint64_t)sh[d] && off[d] < (uint32_t)sh[d], "window outside"); if (sz[d] == 0) j.free("size 0"); if (sz[d] == 1) ones++; } j.need(sub <= R, "rank above the input"); j.need(R - sub <= ones, "drops a dimension of more than one element"); if (sub == 0) j.free("rank 0");
    int st; { hook(); int s = sigsetjmp(jb, 1); if (s) st = -s; else { armed = 1; st = mli_hlp_create_subtensor(nul == 1 ? nullptr : &in.t, nul == 2 ? nullptr : &cf, nul == 3 ? nullptr : &out); armed = 0; } } cs.call(1); cs.out(st); cs.trace();
    if (j.v == BAD) { if (st <= 0) cs.fail("helper", "create_subtensor: invalid (%s) but result %d", j.why.c_str(), st); if (memcmp(&out, &out0, sizeof out)) cs.fail("helper", "create_subtensor refused (%s) but wrote the output descriptor", j.why.c_str()); } else if (j.v == valid::OK && st) cs.fail("helper", "create_subtensor: valid window refused with %d", st);
  } else if (which == 1) {   // mli_hlp_count_elem_num reports 0 for what it cannot count
    int R = c.range("rank", 0, 5), from = c.range("from", 0, 5); bool nul = c.flag("null");
    if (!cs.begin()) return;
    mli_tensor t; memset(&t, 0, sizeof t); t.rank = R; i64 want = 1; for (int d = 0; d < 4; d++) { t.shape[d] = d + 2; if (d < R && d >= from) want *= d + 2; } if (nul || R > 4 || (R && from >= R)) want = 0;
    int st = 0; i64 got = 0; { hook(); int s = sigsetjmp(jb, 1); if (s) st = -s; else { armed = 1; got = mli_hlp_count_elem_num(nul ? nullptr : &t, from); armed = 0; } } cs.call(1); cs.out(got); cs.trace();
    if (st || got != want) cs.fail("helper", "count_elem_num(rank %d%s, from %d) is %lld (signal %d), expected %lld", R, nul ? ", null" : "", from, (long long)got, -st, (long long)want);
  } else {                   // mli_krn_*_create_lut
    int l = c.pick("table", 4), bad = c.pick("defect", 6);
    if (!cs.begin()) return;
    typedef int32_t (*S)(); typedef mli_status (*C)(mli_lut *); static const S sz[4] = {mli_krn_sigm_get_lut_size, mli_krn_tanh_get_lut_size, mli_krn_softmax_get_lut_size, mli_krn_l2_normalize_get_lut_size}; static const C cr[4] = {mli_krn_sigm_create_lut, mli_krn_tanh_create_lut, mli_krn_softmax_create_lut, mli_krn_l2_normalize_create_lut};
    std::vector<int16_t> m(sz[l]() / 2 + 64, 0x5a5a), m0 = m; mli_lut t; memset(&t, 0, sizeof t); t.data.mem.pi16 = m.data() + 32; t.data.capacity = sz[l](); if (bad == 1) t.data.capacity--; if (bad == 2) t.data.capacity = 0; if (bad == 3) t.data.mem.pi16 = nullptr; if (bad == 5) t.data.capacity += 7;
    int st; { hook(); int s = sigsetjmp(jb, 1); if (s) st = -s; else { armed = 1; st = cr[l](bad == 4 ? nullptr : &t); armed = 0; } } cs.call(1); cs.out(st); cs.trace(); bool valid = bad == 0 || bad == 5;
    if (valid ? st != 0 : st <= 0) cs.fail("helper", "create_lut %d with defect %d: result %d", l, bad, st); if (!valid && m != m0) cs.fail("helper", "create_lut %d with defect %d wrote the table", l, bad);
    for (int i = 0; i < 32; i++) if (m[i] != m0[i] || m[m.size() - 1 - i] != m0[i]) cs.fail("helper", "create_lut %d wrote outside of the table", l);
  }
}
// destination arrays for per-axis parameters: every combination of absent, shared with the source, own (with and without enough room)
static void containers(Case &cs) {
  auto &c = cs.ch; int fn = c.pick("function", 3), R = c.range("rank", 1, tier(2, 3)), ax = c.pick("axis", R), p = 0; { int f = 1; for (int i = 2; i <= R; i++) f *= i; p = c.pick("perm", f); }
  static const int V[][6] = {{0, 0, 1, 0, 0, 0}, {0, 3, 1, 0, 0, 0}, {1, 0, 1, 0, 0, 0}, {0, 2, 1, 0, 0, 0}, {0, 0, 2, 0, 0, 0}, {0, 0, 1, 1, 0, 0}, {0, 0, 1, 0, 2, 0}, {0, 0, 1, 0, 0, 1}};   // offset, size, step, pre, post, destination offset
  int v = fn ? c.pick("axis change", 8) : 0, other = fn && R > 1 ? c.pick("other axis change", 8) : 0, st[3]; for (int i = 0; i < 3; i++) st[i] = c.pick("container", 6);
  if (!cs.begin()) return;
  std::vector<int> perm(R); for (int i = 0; i < R; i++) perm[i] = i; while (p--) std::next_permutation(perm.begin(), perm.end());
  mli_element_type el = fn == 2 ? MLI_EL_SA_32 : MLI_EL_SA_8; Ten in(el, std::vector<int>(R, 3), {}, 1); fill(in, P_RND, 3); in.saAxis(ax, {3, -7, 20}, {300, 77, 12000}, {4, 9, 11});
  auto at = [&](int d) { return V[d == ax ? v : other]; }; std::vector<int> osh(R); int dax = 0; for (int d = 0; d < R; d++) { const int *q = at(perm[d]); int n = q[1] ? q[1] : 3 - q[0] + q[3] + q[4]; osh[d] = fn ? (n + q[2] - 1) / q[2] + q[5] : 3; if (perm[d] == ax) dax = d; }
  Ten out(el, osh, {}, 1); out.fillCanary(); int need = osh[dax]; std::vector<int16_t> oz(16, 0x5a5a), os(16, 0x5b5b); std::vector<int8_t> of(16, 0x5c); auto oz0 = oz, os0 = os; auto of0 = of;
  auto &e = out.t.el_params.sa; memset(&e, 0, sizeof e); e.type = MLI_EL_PARAM_SC16_ZP16; auto &src = in.t.el_params.sa; auto cap = [&](int k, int es) { return (uint32_t)(st[k] == 2 ? need * es : st[k] == 3 ? need * es - 1 : st[k] == 4 ? 0 : need * es + 2); };
  if (st[0] == 1) e.zero_point = src.zero_point; else if (st[0]) { e.zero_point.mem.pi16 = oz.data() + 4; e.zero_point.capacity = cap(0, 2); }
  if (st[1] == 1) e.scale = src.scale; else if (st[1]) { e.scale.mem.pi16 = os.data() + 4; e.scale.capacity = cap(1, 2); }
  if (st[2] == 1) e.scale_frac_bits = src.scale_frac_bits; else if (st[2]) { e.scale_frac_bits.mem.pi8 = of.data() + 4; e.scale_frac_bits.capacity = cap(2, 1); }
  int own = 0, nul = 0, same = 0; bool room = true; for (int k = 0; k < 3; k++) { own += st[k] > 1; nul += st[k] == 0; same += st[k] == 1; if (st[k] == 3 || st[k] == 4) room = false; }
  J j; j.need(own == 3 || nul == 3 || same == 3, "arrays of different kinds"); if (own == 3) j.need(room, "array too small"); if (own < 3) j.need(v < 2, "shared arrays for changed parameters");
  mli_mov_cfg_t mc; memset(&mc, 0, sizeof mc); mli_permute_cfg pc; memset(&pc, 0, sizeof pc);
  for (int d = 0; d < R; d++) { const int *q = at(d); mc.offset[d] = q[0]; mc.size[d] = q[1]; mc.sub_sample_step[d] = q[2]; mc.padding_pre[d] = q[3]; mc.padding_post[d] = q[4]; mc.perm_dim[d] = pc.perm_dim[d] = perm[d]; mc.dst_offset[d] = at(perm[d])[5]; }
  if (!fn) { e.dim = dax; } auto mi = in.mem, mo = out.mem; mli_tensor ti = in.t, to = out.t; int r; { hook(); int s = sigsetjmp(jb, 1); if (s) r = -s; else { armed = 1; r = fn ? mli_mov_tensor_sync(&in.t, &mc, &out.t) : mli_krn_permute_sa8(&in.t, &pc, &out.t); armed = 0; } }
  cs.call(1); cs.out(mix(r, j.v)); cs.trace(); char b[200]; snprintf(b, sizeof b, "%s of rank %d, axis %d, dimensions %d%d%d, axis change %d, other %d, arrays %d %d %d", fn ? "move" : "permute", R, ax, perm[0], R > 1 ? perm[1] : 9, R > 2 ? perm[2] : 9, v, other, st[0], st[1], st[2]);
  if (j.v == BAD ? r <= 0 : r != 0) cs.fail(j.v == BAD ? "accepted" : "refused", "%s: %s, but result %d", b, j.v == BAD ? j.why.c_str() : "valid", r);
  if (mi != in.mem || memcmp(&ti, &in.t, sizeof ti)) cs.fail("wrote", "%s: source changed", b);
  if (j.v == BAD && (mo != out.mem || oz != oz0 || os != os0 || of != of0 || (!fn && memcmp(&to, &out.t, sizeof to)))) cs.fail("wrote", "%s: refused, but the destination was written", b);
  for (int i = 0; i < 16; i++) { bool w = own == 3 && i >= 4 && i < 4 + need; if (!w && (oz[i] != oz0[i] || os[i] != os0[i] || of[i] != of0[i])) cs.fail("wrote", "%s: wrote outside of the arrays", b); }
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"single", single}, {"plain", plain}, {"pairs", pairs}, {"triples", triples}, {"far", far}, {"helper", helper}, {"containers", containers}}); }
