// Registry of calls of the 2.0 API: every kernel and data helper, each with a family of small variants, built over operands
// whose memory strides and placement the check chooses.  Used by the cross-cutting checks (C18, C19, C21, C29, C30, C31).
#pragma once
#include "convlib.h"
#include "lutlib.h"
#include <deque>
#include <memory>

enum Role { IN, OUT, STATE };
struct Op {
  std::string name; Ten t; Role role; int padmask;      // bit d: dimension d may have a stride above the dense one
  bool setsShape = false, setsQuant = false;            // documented outputs of the call inside the descriptor
};
struct Layout { std::vector<int> style, place; };       // per operand: stride style, byte offset / element size
struct Call {
  std::string name; std::deque<Op> ops; Layout lay; std::function<mli_status(Call &)> run;
  std::vector<std::pair<int, int>> inplace;             // (input, output) that may share memory
  struct Blk { std::shared_ptr<std::vector<uint8_t>> b; size_t off, n; bool rw; std::string name; };
  std::deque<Blk> blks; bool offsets = false;           // offsets: results are memory offsets of the input
  std::vector<Lut *> luts; bool overlapOk = true;
  Call() {}
  Call(const Call &) = delete;
  Ten &op(const char *nm, Role r, mli_element_type el, std::vector<int> shape, int padmask = 0) {
    int i = ops.size(), st = i < (int)lay.style.size() ? lay.style[i] : 0, pl = i < (int)lay.place.size() ? lay.place[i] : 0;
    std::vector<int> pad; for (int d = 0; d + 1 < (int)shape.size(); d++) pad.push_back(!(padmask >> d & 1) || !st ? 0 : st == 4 ? (d == 0 ? 33000 : 0) : st == 5 ? (d == 1 || shape.size() == 2 ? 70000 : 0) : st == 1 ? 1 + d : st == 2 ? (d == 0 ? 7 : 0) : (d + 2 == (int)shape.size() ? 3 : 0));
    ops.push_back({nm, Ten(), r, padmask, false, false}); Ten &t = ops.back().t; t.place = (size_t)pl * esize(el); t.make(el, shape, pad); return t;
  }
  template <class T> T *blk(const char *nm, size_t bytes, bool rw) {
    auto b = std::make_shared<std::vector<uint8_t>>(bytes + 160); for (size_t i = 0; i < b->size(); i++) (*b)[i] = canary(i);
    size_t off = 64 + ((16 - ((uintptr_t)b->data() & 15)) & 15); blks.push_back({b, off, bytes, rw, nm}); if (!rw) memset(b->data() + off, 0, bytes); return (T *)(b->data() + off);
  }
  template <class C> C *cfg() { return blk<C>("configuration", sizeof(C), false); }
  Ten &o(int i) { return ops[i].t; }
  std::pair<int, int> alias{-1, -1};                    // operand index -> descriptor of another operand
  int nullOp = -1, nullLut = -1; bool nullCfg = false; int nullList = -1;   // pointers replaced by null (C19)
  mli_tensor *p(int i) { return i == nullOp ? nullptr : &ops[i == alias.first ? alias.second : i].t.t; }
  template <class C> C *c(C *x) { return nullCfg ? nullptr : x; }
  mli_lut *lut(mli_lut *l, int i = 0) { return nullLut == i ? nullptr : l; }
  mli_status operator()() { return run(*this); }
  bool guards(std::string &why) {
    for (auto &b : blks) for (size_t i = 0; i < b.b->size(); i++) if ((i < b.off || i >= b.off + b.n) && (*b.b)[i] != canary(i)) { why = b.name; return false; }
    for (auto &x : ops) { i64 w; if (!x.t.gapsIntact(&w)) { why = x.name + " at byte " + std::to_string(w); return false; } }
    return true;
  }
  // everything the caller can observe: element values of outputs and state, descriptor fields
  uint64_t result() {
    uint64_t h = 7; for (auto &x : ops) if (x.role != IN) { h = mc::mix(h, x.t.hash()); h = mc::mix(h, qhash(x.t)); } return h;
  }
  static uint64_t qhash(const Ten &t) {
    if (t.t.el_type == MLI_EL_FX_8 || t.t.el_type == MLI_EL_FX_16) return 1000 + t.frac();
    if (t.t.el_type == MLI_EL_FP_32) return 5;
    uint64_t h = mc::mix(9, t.t.el_params.sa.dim); int n = t.perAxis() ? t.dim(t.t.el_params.sa.dim) : 1;
    for (int i = 0; i < n; i++) { h = mc::mix(h, t.zp(i)); h = mc::mix(h, t.scale(i)); h = mc::mix(h, t.fb(i)); } return h;
  }
  std::string outStr() { std::string s; for (auto &x : ops) if (x.role != IN) s += x.name + x.t.str() + " "; return s; }
};
static const mli_element_type kE3[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8};
static const char *kE3n[3] = {"fx16", "fx8", "sa8"};
inline int &qv() { static int v = 0; return v; }      // quantisation parameters vary with the data set
inline int take(int &v, int n) { int r = v % n; v /= n; return r; }
inline void setq3(Ten &t, int f, int fr, int z, int s, int e) { if (t.t.el_type == MLI_EL_SA_8 || t.t.el_type == MLI_EL_SA_32) t.sa(z + 3 * (qv() % 8), s + 4 * (qv() % 8), e); else t.fx(fr > 1 ? fr - (qv() & 1) : fr); }
// parameters per index of a dimension (own memory), in every third data set
inline void axisq(Ten &t, int axis, int k) { std::vector<int16_t> z, s; std::vector<int8_t> b; for (int i = 0; i < t.dim(axis); i++) { z.push_back((i * 7 + k) % 40 - 20); s.push_back(60 + (i * 5 + k) % 50); b.push_back(8 + (i + k) % 3); } t.saAxis(axis, z, s, b); }
inline Quant vq(Quant q) { int v = qv() % 8; q.zi += v; q.si += 3 * v; q.zo -= v; q.so += v; if (q.fo > 1) q.fo -= v & 1; return q; }
inline Lut &lutOf(int k) {   // 0 sigm 1 tanh 2 softmax 3 l2
  static Lut a(mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut), b(mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut), c(mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut), d(mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut);
  return k == 0 ? a : k == 1 ? b : k == 2 ? c : d;
}
#define FN3(k, suf) {mli_krn_##k##_hwcn_fx16##suf, mli_krn_##k##_hwcn_fx16_fx8_fx8##suf, mli_krn_##k##_hwcn_sa8_sa8_sa32##suf}
namespace reg {
struct CK { const char *nm; int kind; ConvFn fn[3]; Geo g; };
inline const std::vector<CK> &convs() {
  static const std::vector<CK> v = {
    {"conv2d", 1, FN3(conv2d, ), {4, 5, 2, 3, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1}}, {"conv2d", 1, FN3(conv2d, ), {5, 4, 3, 2, 2, 3, 2, 1, 1, 2, 1, 0, 2, 1, 1}}, {"conv2d", 1, FN3(conv2d, ), {6, 7, 1, 2, 5, 4, 1, 2, 1, 1, 4, 3, 2, 3, 1}}, {"conv2d", 1, FN3(conv2d, ), {2, 2, 2, 2, 4, 4, 1, 1, 1, 1, 2, 3, 3, 2, 1}},
    {"conv2d_k1x1", 1, FN3(conv2d, _k1x1), {3, 3, 4, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1}}, {"conv2d_k3x3", 1, FN3(conv2d, _k3x3), {4, 5, 2, 3, 3, 3, 1, 2, 1, 1, 1, 1, 1, 1, 1}}, {"conv2d_k5x5", 1, FN3(conv2d, _k5x5), {5, 6, 1, 2, 5, 5, 1, 1, 1, 1, 2, 2, 2, 2, 1}},
    {"depthwise", 2, FN3(depthwise_conv2d, ), {4, 5, 3, 3, 3, 2, 1, 2, 1, 1, 1, 1, 1, 0, 3}}, {"depthwise", 2, FN3(depthwise_conv2d, ), {3, 3, 5, 5, 2, 2, 1, 1, 2, 2, 2, 1, 1, 2, 5}}, {"depthwise_k3x3", 2, FN3(depthwise_conv2d, _k3x3), {4, 4, 2, 2, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 2}}, {"depthwise_k5x5", 2, FN3(depthwise_conv2d, _k5x5), {5, 5, 2, 2, 5, 5, 2, 1, 1, 1, 2, 2, 2, 2, 2}},
    {"group", 3, FN3(group_conv2d, ), {4, 3, 4, 6, 2, 3, 1, 1, 1, 1, 1, 0, 1, 1, 2}}, {"group", 3, FN3(group_conv2d, ), {3, 4, 6, 3, 1, 1, 2, 1, 1, 1, 0, 0, 0, 0, 3}}, {"group_k3x3", 3, FN3(group_conv2d, _k3x3), {4, 4, 4, 2, 3, 3, 1, 2, 1, 1, 1, 1, 1, 1, 2}}, {"group_k5x5", 3, FN3(group_conv2d, _k5x5), {5, 5, 2, 2, 5, 5, 1, 1, 1, 1, 2, 2, 2, 2, 2}},
    {"transpose", 4, FN3(transpose_conv2d, ), {3, 3, 2, 2, 3, 2, 2, 1, 1, 1, 1, 0, 0, 1, 1}}, {"transpose", 4, FN3(transpose_conv2d, ), {3, 4, 1, 3, 3, 4, 3, 2, 1, 1, 2, 1, 1, 3, 1}}, {"transpose_k2x2", 4, FN3(transpose_conv2d, _k2x2_str2), {3, 2, 2, 3, 2, 2, 2, 2, 1, 1, 1, 0, 1, 0, 1}}, {"transpose_k4x4", 4, FN3(transpose_conv2d, _k4x4_str2), {3, 3, 2, 2, 4, 4, 2, 2, 1, 1, 1, 1, 2, 1, 1}}};
  return v;
}
inline void conv(Call &K, int v, int seed) {
  int fmt = take(v, 3), relu = take(v, 4); const CK &c = convs()[v]; const Geo &g = c.g; bool tr = c.kind == 4; Quant q = vq(dfltQ(fmt)); ConvFn fn = c.fn[fmt];
  K.name = std::string(c.nm) + " " + fmtName(fmt) + " relu " + std::to_string(relu) + " " + g.str();
  int OH = tr ? (g.H - 1) * g.sh + g.kh - g.pt - g.pb : g.OH(), OW = tr ? (g.W - 1) * g.sw + g.kw - g.pl - g.pr : g.OW();
  ConvTensors T; Ten &in = K.op("input", IN, inT(fmt), {g.H, g.W, g.Ci}, 3), &w = K.op("weights", IN, wT(fmt), {g.kh, g.kw, g.Ci / g.G, g.Co}, 7), &b = K.op("bias", IN, bT(fmt), {g.Co}), &out = K.op("output", OUT, inT(fmt), {OH, OW, g.Co}, 3);
  ConvTensors X; X.in = in; X.w = w; X.b = b; X.out = out; setQuant(X, fmt, q, 3, g.Co); dataConv(X, fmt, P_RND, seed + 3, 4000); in = X.in; w = X.w; b = X.b; out = X.out;
  mli_conv2d_cfg *cfg = K.cfg<mli_conv2d_cfg>(); *cfg = convCfg(g, relu); if (tr) { cfg->dilation_width = cfg->dilation_height = 1; }
  K.run = [fn, cfg](Call &k) { return fn(k.p(0), k.p(1), k.p(2), k.c(cfg), k.p(3)); };
}
inline int nConv() { return 12 * (int)convs().size(); }
inline void fc(Call &K, int v, int seed) {
  int fmt = take(v, 3), relu = take(v, 2) * 3, ext = take(v, 2); if (fmt != SA8) ext = 0; static const std::vector<int> S[3] = {{6}, {2, 3}, {1, 2, 2, 1}}; auto sh = S[v % 3]; int M = v == 1 ? 5 : 3;
  ConvTensors X; Ten &in = K.op("input", IN, inT(fmt), sh); int N = in.count(); Ten &w = K.op("weights", IN, wT(fmt), {N, M}, 1), &b = K.op("bias", IN, bT(fmt), {M}), &out = K.op("output", OUT, inT(fmt), {M});
  X.in = in; X.w = w; X.b = b; X.out = out; setQuant(X, fmt, vq(dfltQ(fmt)), 1, M); dataConv(X, fmt, P_RND, seed + 5, 4000); in = X.in; w = X.w; b = X.b; out = X.out;
  auto *cfg = K.cfg<mli_fully_connected_cfg>(); cfg->relu.type = (mli_relu_type)relu; K.name = std::string("fully_connected ") + fmtName(fmt) + (ext ? " ext_bias" : "") + " relu " + std::to_string(relu);
  auto fn = ext ? mli_krn_fully_connected_sa8_sa8_sa32_ext_bias : fmt == FX16 ? mli_krn_fully_connected_fx16 : fmt == FX16_8 ? mli_krn_fully_connected_fx16_fx8_fx8 : mli_krn_fully_connected_sa8_sa8_sa32;
  K.run = [fn, cfg](Call &k) { return fn(k.p(0), k.p(1), k.p(2), k.c(cfg), k.p(3)); };
}
inline void rnnDense(Call &K, int v, int seed) {
  int fmt = take(v, 3), n = take(v, 3) + 1, M = 4; Quant q = vq(dfltQ(fmt)); if (fmt == SA8) q.axis = false;
  Ten &b = K.op("bias", IN, bT(fmt), {M}), &out = K.op("output", OUT, inT(fmt), {M}); std::vector<Ten *> I, W;
  for (int i = 0; i < n; i++) { I.push_back(&K.op("input", IN, inT(fmt), {2 + i})); W.push_back(&K.op("weights", IN, wT(fmt), {2 + i, M}, 1)); }
  for (int i = 0; i < n; i++) { setq3(*I[i], 0, q.fi, q.zi + i, q.si, q.ei); setq3(*W[i], 0, q.fw, 0, q.sw0, q.ew0); if (fmt == SA8) W[i]->sa(0, W[i]->scale(0), W[i]->fb(0)); fill(*I[i], P_RND, seed + i); fill(*W[i], P_RND, seed + 50 + i); }
  int sb = 0, eb = 0; if (fmt == SA8) biasScale(I[0]->scale(0), I[0]->fb(0), W[0]->scale(0), W[0]->fb(0), sb, eb); setq3(out, 0, q.fo, q.zo, q.so, q.eo); if (fmt == SA8) b.sa(0, sb, eb); else setq3(b, 0, q.fb, 0, 0, 0); fill(b, P_RND, seed + 9, fmt == SA8 ? 4000 : 0);
  auto *cfg = K.cfg<mli_rnn_dense_cfg>(); cfg->inputs_num = n; auto *ip = K.blk<const mli_tensor *>("input list", 8 * MLI_RNN_MAX_INPUT, false), *wp = K.blk<const mli_tensor *>("weights list", 8 * MLI_RNN_MAX_INPUT, false);
  K.name = std::string("rnn_dense ") + fmtName(fmt) + " inputs " + std::to_string(n);
  K.run = [=](Call &k) { for (int i = 0; i < n; i++) { ip[i] = k.p(2 + 2 * i); wp[i] = k.p(3 + 2 * i); } auto fn = fmt == FX16 ? mli_krn_rnn_dense_fx16 : fmt == FX16_8 ? mli_krn_rnn_dense_fx16_fx8_fx8 : mli_krn_rnn_dense_sa8_sa8_sa32; return fn(k.nullList == 0 ? nullptr : ip, k.nullList == 1 ? nullptr : wp, k.p(0), k.c(cfg), k.p(1)); };
}
inline void rnn(Call &K, int v, int seed) {
  int fmt = take(v, 3), gru = take(v, 2), dir = take(v, 2), all = take(v, 2), actv = gru ? 0 : take(v, 3), T = 3, N = 3, M = 2, G = gru ? 3 : 4;
  Ten &in = K.op("input", IN, inT(fmt), {T, N}), &prev = K.op("prev_out", IN, inT(fmt), {M}), &wi = K.op("weights_in", IN, wT(fmt), {G, N, M}, 3), &wo = K.op("weights_out", IN, wT(fmt), {G, M, M}, 3), &b = K.op("bias", IN, bT(fmt), {G, M}, 1), &out = K.op("output", OUT, inT(fmt), {all ? T : 1, M});
  K.ops.back().setsShape = true; Ten *cell = gru ? nullptr : &K.op("cell", STATE, inT(fmt), {M});
  if (fmt == SA8) { in.sa(0, 16, 10); prev.sa(5, 9, 10); out.sa(5, 9, 10); if (cell) cell->sa(0, 12, 10); wi.sa(0, 23, 11); wo.sa(0, 11, 12); b.sa(0, 23 * 16, 21); }
  else { int L = fmt == FX16 ? 15 : 7; in.fx(12); prev.fx(14); out.fx(14); if (cell) cell->fx(13); wi.fx(std::min(12, L)); wo.fx(std::min(13, L)); b.fx(std::min(14, L)); }
  fill(in, P_RND, seed); fill(prev, P_RND, seed + 1); fill(wi, P_RND, seed + 2); fill(wo, P_RND, seed + 3); fill(b, P_RND, seed + 4, fmt == SA8 ? 3000 : 0); if (cell) fill(*cell, P_RND, seed + 5);
  auto *cfg = K.cfg<mli_rnn_cell_cfg>(); cfg->direction = dir ? RNN_DIR_BACKWARD : RNN_DIR_FORWARD; cfg->results = all ? RNN_OUT_ALL : RNN_OUT_LAST; cfg->act = actv == 0 ? RNN_ACT_TANH : actv == 1 ? RNN_ACT_SIGM : RNN_ACT_NONE;
  int es = esize(inT(fmt)); uint8_t *s = K.blk<uint8_t>("scratch", G * M * es, true); cfg->scratch_data.mem.pi8 = (int8_t *)s; cfg->scratch_data.capacity = G * M * es;
  K.luts = {&lutOf(0), &lutOf(1)}; K.name = std::string(gru ? "gru_cell " : "lstm_cell ") + fmtName(fmt) + (dir ? " backward" : " forward") + (all ? " all" : " last") + " act " + std::to_string(actv);
  K.run = [=](Call &k) { mli_lut *t = k.lut(&lutOf(1).l, 1), *s = k.lut(&lutOf(0).l, 0); auto *cc = k.c(cfg);
    if (gru) { auto fn = fmt == FX16 ? mli_krn_gru_cell_fx16 : fmt == FX16_8 ? mli_krn_gru_cell_fx16_fx8_fx8 : mli_krn_gru_cell_sa8_sa8_sa32; return fn(k.p(0), k.p(1), k.p(2), k.p(3), k.p(4), t, s, cc, k.p(5)); }
    auto fn = fmt == FX16 ? mli_krn_lstm_cell_fx16 : fmt == FX16_8 ? mli_krn_lstm_cell_fx16_fx8_fx8 : mli_krn_lstm_cell_sa8_sa8_sa32; return fn(k.p(0), k.p(1), k.p(2), k.p(3), k.p(4), t, s, cc, k.p(6), k.p(5)); };
  K.inplace = {};
}
typedef mli_status (*PoolFn)(const mli_tensor *, const mli_pool_cfg *, mli_tensor *);
inline void pool(Call &K, int v, int seed) {
  static const PoolFn F[2][3][3] = {
    {{mli_krn_maxpool_hwc_fx16, mli_krn_maxpool_hwc_fx16_k2x2, mli_krn_maxpool_hwc_fx16_k3x3}, {mli_krn_maxpool_hwc_fx8, mli_krn_maxpool_hwc_fx8_k2x2, mli_krn_maxpool_hwc_fx8_k3x3}, {mli_krn_maxpool_hwc_sa8, mli_krn_maxpool_hwc_sa8_k2x2, mli_krn_maxpool_hwc_sa8_k3x3}},
    {{mli_krn_avepool_hwc_fx16, mli_krn_avepool_hwc_fx16_k2x2, mli_krn_avepool_hwc_fx16_k3x3}, {mli_krn_avepool_hwc_fx8, mli_krn_avepool_hwc_fx8_k2x2, mli_krn_avepool_hwc_fx8_k3x3}, {mli_krn_avepool_hwc_sa8, mli_krn_avepool_hwc_sa8_k2x2, mli_krn_avepool_hwc_sa8_k3x3}}};
  int kind = take(v, 2), f = take(v, 3), sz = take(v, 3); static const Geo GS[4][3] = {{{6, 7, 2, 0, 6, 6, 1, 1, 1, 1, 0, 0, 0, 0, 1}, {4, 5, 4, 0, 2, 2, 3, 3, 1, 1, 1, 1, 1, 1, 1}, {3, 3, 1, 0, 3, 3, 1, 1, 1, 1, 0, 0, 0, 0, 1}}, {{9, 8, 3, 0, 6, 7, 1, 1, 1, 1, 2, 3, 1, 2, 1}, {4, 4, 1, 0, 2, 2, 2, 2, 1, 1, 0, 0, 0, 0, 1}, {6, 6, 1, 0, 3, 3, 3, 3, 1, 1, 0, 0, 0, 0, 1}}, {{4, 5, 3, 0, 3, 4, 1, 2, 1, 1, 1, 2, 3, 1, 1}, {5, 5, 2, 0, 2, 2, 2, 1, 1, 1, 1, 0, 0, 1, 1}, {5, 4, 2, 0, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1}}, {{3, 2, 1, 0, 3, 2, 3, 2, 1, 1, 0, 0, 0, 0, 1}, {2, 3, 5, 0, 2, 2, 1, 1, 1, 1, 0, 1, 1, 0, 1}, {3, 3, 4, 0, 3, 3, 2, 2, 1, 1, 2, 2, 2, 2, 1}}};
  const Geo &g = GS[v % 4][sz]; Ten &in = K.op("input", IN, kE3[f], {g.H, g.W, g.Ci}, 3), &out = K.op("output", OUT, kE3[f], {g.OH(), g.OW(), g.Ci}, 3); fill(in, P_RND, seed);
  setq3(in, f, 5, 7, 23, 10); if (kind) { setq3(out, f, 4, -5, 31, 10 - (qv() & 1)); if (f < 2 && qv() & 1) out.fx(4); } else { setq3(out, f, 1, 1, 1, 1); K.ops.back().setsQuant = true; } if (kind) K.ops.back().setsQuant = false;
  auto *c = K.cfg<mli_pool_cfg>(); c->kernel_width = g.kw; c->kernel_height = g.kh; c->stride_width = g.sw; c->stride_height = g.sh; c->padding_left = g.pl; c->padding_right = g.pr; c->padding_top = g.pt; c->padding_bottom = g.pb;
  K.name = std::string(kind ? "avepool " : "maxpool ") + kE3n[f] + " variant " + std::to_string(sz) + " " + g.str(); PoolFn fn = F[kind][f][sz]; K.run = [=](Call &k) { return fn(k.p(0), k.c(c), k.p(1)); };
}
typedef mli_status (*EltFn)(const mli_tensor *, const mli_tensor *, mli_tensor *);
#define ROWE(o) {mli_krn_eltwise_##o##_fx16, mli_krn_eltwise_##o##_fx8, mli_krn_eltwise_##o##_sa8}
inline bool &bigShapes() { static bool b = false; return b; }
inline const std::vector<int> &shp(int i) { static const std::vector<std::vector<int>> S = {{5}, {3, 4}, {2, 3, 3}, {2, 1, 3, 2}}, B = {{270}, {17, 19}, {5, 9, 11}, {3, 4, 7, 6}}; return bigShapes() ? B[i] : S[i]; }
inline void elt(Call &K, int v, int seed) {
  static const EltFn F[5][3] = {ROWE(add), ROWE(sub), ROWE(mul), ROWE(max), ROWE(min)}; static const char *N[5] = {"add", "sub", "mul", "max", "min"};
  int op = take(v, 5), f = take(v, 3), sc = take(v, 3); auto sh = shp(v % 4); std::vector<int> one(sh.size(), 1); int m = (1 << (sh.size() - 1)) - 1;
  Ten &a = K.op("input1", IN, kE3[f], sc == 1 ? std::vector<int>{1} : sh, sc == 1 ? 0 : m), &b = K.op("input2", IN, kE3[f], sc == 2 ? std::vector<int>{1} : sh, sc == 2 ? 0 : m), &o = K.op("output", OUT, kE3[f], sh, m);
  fill(a, P_RND, seed); fill(b, P_RND, seed + 1); bool mm = op > 2; setq3(a, f, 5, 3, 77, 9); if (mm) setq3(b, f, 5, 3, 77, 9); else setq3(b, f, 4, -9, 41, 9); if (mm) setq3(o, f, 5, 3, 77, 9); else setq3(o, f, op == 2 ? 4 : 3, 6, 99, 9);
  if (sc != 1) K.inplace.push_back({0, 2}); if (sc != 2) K.inplace.push_back({1, 2}); 
  EltFn fn = F[op][f]; K.name = std::string("eltwise_") + N[op] + " " + kE3n[f] + (sc == 1 ? " scalar first" : sc == 2 ? " scalar second" : "") + " rank " + std::to_string(sh.size()); K.run = [=](Call &k) { return fn(k.p(0), k.p(1), k.p(2)); };
}
inline void relu(Call &K, int v, int seed) {
  int f = take(v, 3), mode = take(v, 4); auto sh = shp(v % 4); int m = (1 << (sh.size() - 1)) - 1; Ten &in = K.op("input", IN, kE3[f], sh, m), &out = K.op("output", OUT, kE3[f], sh, m); K.ops.back().setsQuant = true; fill(in, P_RND, seed); setq3(in, f, 4, 7, 31, 8); setq3(out, f, 4, 7, 31, 8);
  auto *c = K.cfg<mli_relu_cfg>(); c->type = (mli_relu_type)mode; K.inplace = {{0, 1}}; K.name = std::string("relu ") + kE3n[f] + " mode " + std::to_string(mode) + " rank " + std::to_string(sh.size());
  auto fn = f == 0 ? mli_krn_relu_fx16 : f == 1 ? mli_krn_relu_fx8 : mli_krn_relu_sa8; K.run = [=](Call &k) { return fn(k.p(0), k.c(c), k.p(1)); };
}
inline void leaky(Call &K, int v, int seed) {
  int f = take(v, 3); auto sh = shp(v % 4); int m = (1 << (sh.size() - 1)) - 1; Ten &in = K.op("input", IN, kE3[f], sh, m), &sl = K.op("slope", IN, kE3[f], {1}), &out = K.op("output", OUT, kE3[f], sh, m); fill(in, P_RND, seed); sl.set(0, f == 0 ? 9000 : 45); setq3(in, f, 4, 7, 31, 8); setq3(sl, f, f == 0 ? 15 : 7, 2, 3, 9); setq3(out, f, 4, -3, 29, 8);
  K.inplace = {{0, 2}}; K.name = std::string("leaky_relu ") + kE3n[f] + " rank " + std::to_string(sh.size()); auto fn = f == 0 ? mli_krn_leaky_relu_fx16 : f == 1 ? mli_krn_leaky_relu_fx8 : mli_krn_leaky_relu_sa8; K.run = [=](Call &k) { return fn(k.p(0), k.p(1), k.p(2)); };
}
inline void prelu(Call &K, int v, int seed) {
  int f = take(v, 3), R = take(v, 4) + 1, axis = v % 4; if (axis >= R) axis = -1; auto sh = shp(R - 1); int m = (1 << (R - 1)) - 1; Ten &in = K.op("input", IN, kE3[f], sh, m), &sl = K.op("slope", IN, kE3[f], {axis < 0 ? 1 : sh[axis]}), &out = K.op("output", OUT, kE3[f], sh, m); fill(in, P_RND, seed); fill(sl, P_RND, seed + 3); setq3(in, f, 4, 7, 31, 8); setq3(sl, f, f == 0 ? 15 : 7, 2, 3, 9); setq3(out, f, 4, -3, 29, 8);
  auto *c = K.cfg<mli_prelu_cfg>(); c->axis = axis; K.inplace = {{0, 2}}; K.name = std::string("prelu ") + kE3n[f] + " rank " + std::to_string(R) + " axis " + std::to_string(axis); auto fn = f == 0 ? mli_krn_prelu_fx16 : f == 1 ? mli_krn_prelu_fx8 : mli_krn_prelu_sa8; K.run = [=](Call &k) { return fn(k.p(0), k.p(1), k.c(c), k.p(2)); };
}
inline void act(Call &K, int v, int seed) {
  int f = take(v, 3), th = take(v, 2); auto sh = shp(v % 4); int m = (1 << (sh.size() - 1)) - 1; Ten &in = K.op("input", IN, kE3[f], sh, m), &out = K.op("output", OUT, kE3[f], sh, m); K.ops.back().setsQuant = true; fill(in, P_RND, seed); setq3(in, f, f == 0 ? 12 : 4, 3, 23, 9); setq3(out, f, 1, 1, 1, 1);
  K.luts = {&lutOf(th)}; K.inplace = {{0, 1}}; K.name = std::string(th ? "tanh " : "sigm ") + kE3n[f] + " rank " + std::to_string(sh.size());
  K.run = [=](Call &k) { auto fn = th ? (f == 0 ? mli_krn_tanh_fx16 : f == 1 ? mli_krn_tanh_fx8 : mli_krn_tanh_sa8) : (f == 0 ? mli_krn_sigm_fx16 : f == 1 ? mli_krn_sigm_fx8 : mli_krn_sigm_sa8); return fn(k.p(0), k.lut(&lutOf(th).l), k.p(1)); };
}
inline void norms(Call &K, int v, int seed) {
  int which = take(v, 5), R = take(v, 4) + 1, axis = v % 5 - 1; if (axis >= R) axis = -1; int f = which == 0 || which == 3 ? 0 : which == 2 ? 1 : 2; auto sh = shp(R - 1); int m = (1 << (R - 1)) - 1;
  Ten &in = K.op("input", IN, kE3[f], sh, m), &out = K.op("output", OUT, kE3[f], sh, m); K.ops.back().setsQuant = true; fill(in, P_RND, seed); setq3(in, f, f == 0 ? 12 : 4, 3, 23, 9); setq3(out, f, 1, 1, 1, 1); auto *c = K.cfg<mli_softmax_cfg>(); c->axis = axis; bool l2 = which > 2; Lut *L = &lutOf(l2 ? 3 : 2); K.luts = {L}; K.inplace = {{0, 1}};
  K.name = std::string(l2 ? "l2_normalize " : "softmax ") + kE3n[f] + " rank " + std::to_string(R) + " axis " + std::to_string(axis);
  K.run = [=](Call &k) { if (l2) return (f == 0 ? mli_krn_l2_normalize_fx16 : mli_krn_l2_normalize_sa8)(k.p(0), nullptr, k.lut(&L->l), k.c(c), k.p(1)); return (f == 0 ? mli_krn_softmax_fx16 : f == 1 ? mli_krn_softmax_fx8 : mli_krn_softmax_sa8)(k.p(0), k.lut(&L->l), k.c(c), k.p(1)); };
}
inline void argmax(Call &K, int v, int seed) {
  int f = take(v, 2) * 2, R = take(v, 4) + 1, axis = v % 5 - 1; if (axis >= R) axis = -1; auto sh = shp(R - 1); int m = (1 << (R - 1)) - 1; int rows = axis < 0 ? 1 : sh[axis]; Ten &in = K.op("input", IN, kE3[f], sh, m); int n = in.count() / rows, k = std::min(n, 2); Ten &out = K.op("output", OUT, MLI_EL_SA_32, {rows, k}); K.ops.back().setsQuant = true; out.sa(0, 1, 0);
  size_t cnt = in.count(); for (size_t i = 0; i < cnt; i++) in.set(i, (i64)((i * 37 + seed * 5) % 101) - 50); setq3(in, f, 5, 3, 7, 4); auto *c = K.cfg<mli_argmax_cfg>(); c->axis = axis; c->topk = k; K.offsets = true; K.name = std::string("argmax ") + kE3n[f] + " rank " + std::to_string(R) + " axis " + std::to_string(axis);
  K.run = [=](Call &q) { return (f ? mli_krn_argmax_sa8 : mli_krn_argmax_fx16)(q.p(0), q.c(c), q.p(1)); };
}
inline void perm(Call &K, int v, int seed) {
  int f = take(v, 3), R = take(v, 4) + 1; auto sh = shp(R - 1); std::vector<int> p(R); for (int i = 0; i < R; i++) p[i] = i; for (int k = v % 24; k; k--) std::next_permutation(p.begin(), p.end()); std::vector<int> os(R); for (int i = 0; i < R; i++) os[i] = sh[p[i]]; int m = (1 << (R - 1)) - 1;
  Ten &in = K.op("input", IN, kE3[f], sh, m), &out = K.op("output", OUT, kE3[f], os, m); K.ops.back().setsQuant = true; fill(in, P_RND, seed); setq3(in, f, 5, 3, 77, 9); setq3(out, f, 5, 3, 77, 9); if (f == 2 && qv() % 3 == 1) { int ax = (v + qv()) % R, od = 0; while (p[od] != ax) od++; axisq(in, ax, qv()); axisq(out, od, qv() + 9); } auto *c = K.cfg<mli_permute_cfg>(); for (int i = 0; i < R; i++) c->perm_dim[i] = p[i];
  K.name = std::string("permute ") + kE3n[f] + " rank " + std::to_string(R) + " order " + std::to_string(v % 24); K.run = [=](Call &k) { return (f == 0 ? mli_krn_permute_fx16 : f == 1 ? mli_krn_permute_fx8 : mli_krn_permute_sa8)(k.p(0), k.c(c), k.p(1)); };
}
inline void convert(Call &K, int v, int seed) {
  static const mli_element_type E[5] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}; int a = take(v, 5), b = take(v, 5); auto sh = shp(v % 4); int m = (1 << (sh.size() - 1)) - 1; if (a == 4 && b == 4) b = 0;
  Ten &in = K.op("input", IN, E[a], sh, m), &out = K.op("output", OUT, E[b], sh, m); size_t n = in.count(); if (a == 4) for (size_t i = 0; i < n; i++) in.fset(i, (float)((int)((i * 31 + seed) % 200) - 100) * 0.25f); else fill(in, P_RND, seed, a == 3 ? 20000 : 0); if (a < 4) setq3(in, 0, 5, 3, 64, 9); if (b < 4) setq3(out, 0, 3, -2, 32, 9); { auto sa = [](int x) { return x == 2 || x == 3; }; int ax = (v + qv()) % sh.size(); if (qv() % 3 == 1 && (sa(a) || sa(b))) { if (sa(a)) axisq(in, ax, qv()); if (sa(b)) axisq(out, ax, qv() + 9); } }
  if (esize(E[a]) == esize(E[b])) K.inplace = {{0, 1}}; K.name = "convert type " + std::to_string(a) + " to " + std::to_string(b) + " rank " + std::to_string(sh.size()); K.run = [](Call &k) { return mli_hlp_convert_tensor(k.p(0), k.p(1)); };
}
inline void mov(Call &K, int v, int seed) {
  static const mli_element_type E[4] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8, MLI_EL_SA_32}; int t = take(v, 4), kind = take(v, 3), R = v % 4 + 1; auto sh = shp(R - 1); int m = (1 << (R - 1)) - 1; auto os = sh; int d0 = R - 1;
  auto *c = K.cfg<mli_mov_cfg_t>(); mli_mov_cfg_for_copy(c); if (kind == 1) { c->padding_pre[0] = 1; c->padding_post[0] = 2; os[0] += 3; } if (kind == 2) { c->offset[d0] = 1; c->size[d0] = sh[d0] - 1; os[d0] = sh[d0] - 1; }
  Ten &in = K.op("source", IN, E[t], sh, m), &out = K.op("destination", OUT, E[t], os, m); K.ops.back().setsQuant = K.ops.back().setsShape = true; fill(in, P_RND, seed); setq3(in, 0, 5, 3, 77, 9); setq3(out, 0, 5, 3, 77, 9); if (E[t] == MLI_EL_SA_8 && qv() % 3 == 1) { int ax = kind ? (kind == 1 ? 0 : d0) : v % R; axisq(in, ax, qv()); axisq(out, ax, qv() + 9); }
  for (int d = 0; d < R; d++) c->dst_mem_stride[d] = out.t.mem_stride[d];
  K.name = "mov type " + std::to_string(t) + " kind " + std::to_string(kind) + " rank " + std::to_string(R); K.run = [=](Call &k) { return mli_mov_tensor_sync(k.p(0), k.c(c), k.p(1)); };
}
struct Family { const char *name; int n; void (*build)(Call &, int, int); };
inline const std::vector<Family> &families() {
  static const std::vector<Family> v = {{"conv", nConv(), conv}, {"fully_connected", 3 * 2 * 2 * 3, fc}, {"rnn_dense", 9, rnnDense}, {"rnn", 3 * 2 * 4 * 3, rnn}, {"pool", 72, pool}, {"eltwise", 5 * 3 * 3 * 4, elt}, {"relu", 48, relu}, {"leaky", 12, leaky}, {"prelu", 48, prelu}, {"activation", 24, act}, {"norm", 100, norms}, {"argmax", 40, argmax}, {"permute", 3 * 4 * 24, perm}, {"convert", 100, convert}, {"mov", 48, mov}};
  return v;
}
inline void make(Call &K, int fam, int var, const Layout &l = {}, int seed = 1) { K.lay = l; qv() = seed - 1; families()[fam].build(K, var, seed); }
// picks (family, variant), skipping duplicates of a clamped variant is left to the caller
inline void pick(mc::Chooser &c, int &fam, int &var) { fam = c.pick("family", families().size()); var = c.pick("variant", families()[fam].n); }
}  // namespace reg
