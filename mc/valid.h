// Independent judgement of a 2.0-API call: does it satisfy the documented constraints?  Written from the documentation of the
// kernels (and the rules of the data structures), not from mli_check.cc.  Three-valued: BAD - the call must be refused; OK - the
// call must be accepted; FREE - the documentation does not settle it, so neither is demanded.
#pragma once
#include "reg.h"
namespace valid {
enum V { OK = 0, FREE = 1, BAD = 2 };
struct J {
  V v = OK; std::string why;
  void bad(const std::string &s) { if (v != BAD) why = s; v = BAD; }
  void free(const std::string &s) { if (v == OK) { v = FREE; why = s; } }
  bool need(bool ok, const std::string &s) { if (!ok) bad(s); return ok; }
};
enum Fam { CONV, FC, RNND, RNN, POOL, ELT, RELU, LEAKY, PRELU, ACT, NORM, ARGMAX, PERM, CONVERT, MOV };
typedef mli_tensor T;
inline bool isSa(mli_element_type e) { return e == MLI_EL_SA_8 || e == MLI_EL_SA_32; }
inline bool known(mli_element_type e) { return isSa(e) || e == MLI_EL_FX_8 || e == MLI_EL_FX_16 || e == MLI_EL_FP_32; }
inline i64 cnt(const T *t, unsigned from = 0) { i64 n = 1; for (unsigned d = from; d < t->rank; d++) n *= t->shape[d]; return n; }
inline i64 dimOf(const T *t, unsigned d) { return d < t->rank ? (i64)t->shape[d] : 0; }
inline i64 extent(const T *t) { i64 e = 1; for (unsigned d = 0; d < t->rank; d++) e += ((i64)t->shape[d] - 1) * (i64)t->mem_stride[d]; return e * (i64)esize(t->el_type); }
// the descriptor itself: false when nothing else may be read from it
inline bool tensor(J &j, const T *t, const std::string &n, bool scalarOk = false) {
  if (!j.need(t != nullptr, n + ": null")) return false;
  if (!j.need(t->rank <= 4, n + ": rank")) return false;
  if (!known(t->el_type)) { j.bad(n + ": type"); return false; }
  if (t->rank == 0) { if (!scalarOk) j.free(n + ": rank 0"); return true; }
  j.need(t->data.mem.pi8 != nullptr, n + ": no data");
  bool ok = true;
  for (unsigned d = 0; d < t->rank; d++) { ok &= j.need(t->shape[d] > 0 && t->shape[d] <= INT32_MAX, n + ": empty dimension"); ok &= j.need(t->mem_stride[d] > 0, n + ": stride not positive"); }
  if (!ok) return false;
  i64 dense = 1; unsigned __int128 wide = 1;
  for (int d = (int)t->rank - 1; d >= 0; d--) {
    i64 s = t->mem_stride[d], next = d + 1 < (int)t->rank ? t->mem_stride[d + 1] : 1, ns = d + 1 < (int)t->rank ? t->shape[d + 1] : 1;
    if (s < dense || s < next) { j.bad(n + ": rows overlap"); return false; } if (s < ns * next) j.free(n + ": interleaved rows");
    wide *= t->shape[d]; if (wide > (unsigned __int128)1 << 40) { j.bad(n + ": larger than any buffer"); return false; } dense = (i64)wide;
  }
  if (t->data.capacity > INT32_MAX) j.free(n + ": capacity above 2^31");
  j.need(extent(t) <= (i64)t->data.capacity, n + ": extent above the capacity");
  return true;
}
inline int16_t zpOf(const T *t, int i) { return t->el_params.sa.dim >= 0 ? t->el_params.sa.zero_point.mem.pi16[i] : t->el_params.sa.zero_point.mem.i16; }
inline int16_t scOf(const T *t, int i) { return t->el_params.sa.dim >= 0 ? t->el_params.sa.scale.mem.pi16[i] : t->el_params.sa.scale.mem.i16; }
inline int8_t fbOf(const T *t, int i) { return t->el_params.sa.dim >= 0 ? t->el_params.sa.scale_frac_bits.mem.pi8[i] : t->el_params.sa.scale_frac_bits.mem.i8; }
inline int nq(const T *t) { return t->el_params.sa.dim >= 0 ? (int)t->shape[t->el_params.sa.dim] : 1; }
// quantisation arrays can be read
inline bool arrays(J &j, const T *t, const std::string &n) {
  if (!isSa(t->el_type)) return true; auto &s = t->el_params.sa;
  if (s.dim < -1) j.free(n + ": axis below -1");
  if (s.dim < 0) { if (s.scale.capacity || s.zero_point.capacity || s.scale_frac_bits.capacity) j.free(n + ": capacity of a single value"); return true; }
  if (!j.need(s.dim < (int)t->rank, n + ": quantisation axis")) return false;
  int k = t->shape[s.dim]; bool a = s.scale.mem.pi16 && s.zero_point.mem.pi16 && s.scale_frac_bits.mem.pi8, b = s.scale.capacity >= 2u * k && s.zero_point.capacity >= 2u * k && s.scale_frac_bits.capacity >= (unsigned)k;
  j.need(a, n + ": no quantisation array"); j.need(b, n + ": quantisation arrays too short"); return a && b;
}
inline bool quant(J &j, const T *t, const std::string &n, int lo, int hi) {
  if (!isSa(t->el_type) || !arrays(j, t, n)) return false;
  for (int i = 0; i < nq(t); i++) { j.need(scOf(t, i) > 0, n + ": scale not positive"); j.need(zpOf(t, i) >= lo && zpOf(t, i) <= hi, n + ": zero point"); if (fbOf(t, i) < -8 || fbOf(t, i) > 40) j.free(n + ": scale bits"); }
  return true;
}
inline void perTensor(J &j, const T *t, const std::string &n) { if (isSa(t->el_type)) j.need(t->el_params.sa.dim < 0, n + ": per-tensor quantisation required"); }
inline void inner(J &j, const T *t, const std::string &n) { if (t->rank && t->mem_stride[t->rank - 1] != 1) { if (t->shape[t->rank - 1] > 1) j.bad(n + ": inner stride"); else j.free(n + ": inner stride of one element"); } }
inline void contiguous(J &j, const T *t, const std::string &n) { i64 s = 1; for (int d = (int)t->rank - 1; d >= 0; d--) { if (t->mem_stride[d] != s) { if (t->shape[d] > 1) j.bad(n + ": not contiguous"); else j.free(n + ": stride of one element"); } s *= t->shape[d]; } }
inline void same(J &j, const T *a, const T *b, const std::string &n) { bool s = a->rank == b->rank; for (unsigned d = 0; s && d < a->rank; d++) s = a->shape[d] == b->shape[d]; j.need(s, n + ": shapes differ"); }
inline void apart(J &j, const void *a, i64 ea, i64 ca, const void *b, i64 eb, i64 cb, const std::string &n) {
  uintptr_t x = (uintptr_t)a, y = (uintptr_t)b; if (x < y + eb && y < x + ea) j.bad(n + ": overlap"); else if (x < y + cb && y < x + ca) j.free(n + ": capacities overlap");
}
inline void apart(J &j, const T *a, const T *b, const std::string &n) { if (a->rank && b->rank) apart(j, a->data.mem.pi8, extent(a), a->data.capacity, b->data.mem.pi8, extent(b), b->data.capacity, n); }
inline void frac(J &j, const T *t) { if (!isSa(t->el_type) && t->el_type != MLI_EL_FP_32) { int f = t->el_params.fx.frac_bits; if (f < 0 || f > 31) j.free("extreme fractional bits"); } }
inline void fracSum(J &j, const T *in, const T *w, const T *x, const char *n) { frac(j, in); frac(j, w); frac(j, x); j.need(x->el_params.fx.frac_bits <= in->el_params.fx.frac_bits + w->el_params.fx.frac_bits, std::string(n) + ": more fractional bits than input and weights"); }
inline void biasScale(J &j, const T *in, const T *w, const T *b) {
  for (int i = 0; i < nq(w); i++) { double d = std::ldexp((double)scOf(in, 0) * scOf(w, i), fbOf(b, i) - fbOf(in, 0) - fbOf(w, i)) - scOf(b, i); d = std::fabs(d); if (d > 1.5) j.bad("bias scale is not input scale times weights scale"); else if (d > 1) j.free("bias scale at the rounding limit"); }
}
inline bool ends(const std::string &s, const char *e) { std::string h = s.substr(0, s.find(' ')); size_t n = strlen(e); return h.size() >= n && h.compare(h.size() - n, n, e) == 0; }

template <class C> C *cfgOf(Call &k) { return (C *)(k.blks[0].b->data() + k.blks[0].off); }
struct Spec { int fam; std::string name; std::vector<mli_element_type> el; std::vector<int> dims0; };   // el: types the entry point takes
inline Spec specOf(int fam, Call &k) { Spec s; s.fam = fam; s.name = k.name; for (auto &o : k.ops) s.el.push_back(o.t.t.el_type); return s; }

// weights-based quantisation: per tensor, or per output channel along wAxis with the bias along bAxis
inline void wquant(J &j, const T *in, const T *w, const T *b, const T *out, int wAxis) {
  bool a = quant(j, in, "input", -128, 127), c = quant(j, w, "weights", 0, 0), d = quant(j, b, "bias", 0, 0); quant(j, out, "output", -128, 127); perTensor(j, in, "input"); perTensor(j, out, "output");
  if (w->el_params.sa.dim < 0) j.need(b->el_params.sa.dim < 0, "bias: per-tensor quantisation like the weights required"); else { j.need(w->el_params.sa.dim == wAxis, "weights: quantisation axis"); j.need(b->el_params.sa.dim == 0, "bias: quantisation axis"); }
  if (a && c && d && j.v != BAD) biasScale(j, in, w, b);
}
inline J judge(const Spec &s, Call &k) {
  J j; auto t = [&](int i) -> const T * { return k.p(i); }; const std::string &nm = s.name; int nops = k.ops.size();
  bool hasCfg = !k.blks.empty(); if (hasCfg) j.need(!k.nullCfg, "no configuration");
  int scalars = s.fam == ELT ? 3 : s.fam == LEAKY || s.fam == PRELU ? 2 : 0;      // operands that may be scalars of rank 0
  bool ok = true; for (int i = 0; i < nops; i++) { if (s.fam == MOV && i == 1) { ok &= j.need(t(1) != nullptr, "destination: null"); continue; } ok &= tensor(j, t(i), k.ops[i].name, scalars >> i & 1); }
  for (size_t i = 0; i < k.luts.size(); i++) { Lut *L = k.luts[i]; j.need(k.nullLut != (int)i, "no table"); j.need(L->l.data.mem.pi16 != nullptr, "table without data"); j.need((i64)L->l.data.capacity >= L->cap, "table too small"); }
  if (s.fam == RNND) { j.need(k.nullList < 0, "no operand list"); if (!k.nullCfg) { int n = cfgOf<mli_rnn_dense_cfg>(k)->inputs_num; j.need(n > 0 && n <= MLI_RNN_MAX_INPUT, "number of inputs"); } }
  if (!ok || k.nullCfg || j.v == BAD) return j;
  for (int i = 0; i < nops; i++) if (s.fam != CONVERT && !(s.fam == MOV)) j.need(t(i)->el_type == s.el[i], k.ops[i].name + ": type of the entry point");
  if (j.v == BAD) return j;
  bool sa = isSa(s.el[0]);
  switch (s.fam) {
    case CONV: {
      const T *in = t(0), *w = t(1), *b = t(2), *out = t(3); auto *c = cfgOf<mli_conv2d_cfg>(k); bool dw = nm.compare(0, 5, "depth") == 0, gr = nm.compare(0, 5, "group") == 0, tr = nm.compare(0, 5, "trans") == 0;
      bool r = j.need(in->rank == 3, "input rank") & j.need(w->rank == 4, "weights rank") & j.need(b->rank == 1, "bias rank") & j.need(out->rank == 3, "output rank"); if (!r) return j;
      i64 H = in->shape[0], W = in->shape[1], Ci = in->shape[2], kh = w->shape[0], kw = w->shape[1], Cw = w->shape[2], Co = w->shape[3], OH = out->shape[0], OW = out->shape[1];
      for (int i = 0; i < 4; i++) inner(j, t(i), k.ops[i].name);
      j.need((i64)out->shape[2] == Co, "output channels"); j.need((i64)b->shape[0] == Co, "bias length");
      if (dw) { j.need(Cw == 1, "depthwise weights"); j.need(Co == Ci, "depthwise channels"); } else if (gr) { if (j.need(Ci % Cw == 0, "input channels of a group")) j.need(Co % (Ci / Cw) == 0, "filters of a group"); } else j.need(Cw == Ci, "input channels");
      int sp = ends(nm, "k1x1") ? 1 : ends(nm, "k2x2") ? 2 : ends(nm, "k3x3") ? 3 : ends(nm, "k4x4") ? 4 : ends(nm, "k5x5") ? 5 : 0; if (sp) j.need(kh == sp && kw == sp, "kernel size of the specialisation");
      j.need(c->stride_width > 0 && c->stride_height > 0, "stride 0"); if (c->relu.type < 0 || c->relu.type > 3) j.free("relu type");
      i64 eh = kh, ew = kw; if (!tr) { j.need(c->dilation_width > 0 && c->dilation_height > 0, "dilation 0"); eh = (kh - 1) * c->dilation_height + 1; ew = (kw - 1) * c->dilation_width + 1; }
      j.need(c->padding_left < ew && c->padding_right < ew && c->padding_top < eh && c->padding_bottom < eh, "padding not below the kernel size"); if (j.v == BAD) return j;
      if (tr) {
        j.need(c->dilation_width == 1 && c->dilation_height == 1, "dilation of a transposed convolution"); j.need(c->stride_width <= kw && c->stride_height <= kh, "stride above the kernel size"); if (!sp && (c->stride_width == kw || c->stride_height == kh)) j.free("stride equal to the kernel size");
        if (sp) j.need(c->stride_width == 2 && c->stride_height == 2, "stride of the specialisation");
        j.need(OH == (H - 1) * c->stride_height + kh - c->padding_top - c->padding_bottom && OW == (W - 1) * c->stride_width + kw - c->padding_left - c->padding_right, "output size");
      } else {
        i64 ph = H + c->padding_top + c->padding_bottom, pw = W + c->padding_left + c->padding_right, mh = ph < eh ? 0 : (ph - eh) / c->stride_height + 1, mw = pw < ew ? 0 : (pw - ew) / c->stride_width + 1;
        j.need(OH <= mh && OW <= mw, "output larger than the input allows"); if (OH < mh || OW < mw) j.free("output smaller than the input allows"); if (eh > H || ew > W) j.free("kernel larger than the input");
      }
      apart(j, in, out, "input and output");
      if (sa) wquant(j, in, w, b, out, 3); else { fracSum(j, in, w, b, "bias"); fracSum(j, in, w, out, "output"); }
      break; }
    case FC: {
      const T *in = t(0), *w = t(1), *b = t(2), *out = t(3); if (!(j.need(w->rank == 2, "weights rank") & j.need(b->rank == 1, "bias rank") & j.need(out->rank == 1, "output rank"))) return j;
      j.need(cnt(in) == (i64)w->shape[0], "input elements"); j.need(b->shape[0] == w->shape[1], "bias length"); j.need(out->shape[0] == w->shape[1], "output length");
      contiguous(j, in, "input"); contiguous(j, out, "output"); contiguous(j, b, "bias"); inner(j, w, "weights"); apart(j, in, out, "input and output"); auto *c = cfgOf<mli_fully_connected_cfg>(k); if (c->relu.type < 0 || c->relu.type > 3) j.free("relu type");
      if (sa) wquant(j, in, w, b, out, 1); else { fracSum(j, in, w, b, "bias"); fracSum(j, in, w, out, "output"); }
      break; }
    case RNND: {
      int n = cfgOf<mli_rnn_dense_cfg>(k)->inputs_num, have = (nops - 2) / 2; if (n > have) { j.bad("operand list shorter than the number of inputs"); return j; } const T *b = t(0), *out = t(1); if (n < have) j.free("fewer inputs than operands");
      if (!(j.need(b->rank == 1, "bias rank") & j.need(out->rank == 1, "output rank"))) return j; contiguous(j, out, "output"); inner(j, b, "bias"); j.need(out->shape[0] == b->shape[0], "output length");
      for (int i = 0; i < n; i++) { const T *x = t(2 + 2 * i), *w = t(3 + 2 * i); if (!j.need(w->rank == 2, "weights rank")) return j; j.need(cnt(x) == (i64)w->shape[0], "input elements"); j.need(w->shape[1] == b->shape[0], "weights outputs"); contiguous(j, x, "input"); inner(j, w, "weights"); apart(j, x, out, "input and output");
        if (sa || isSa(x->el_type)) { perTensor(j, x, "input"); perTensor(j, w, "weights"); quant(j, x, "input", -128, 127); quant(j, w, "weights", 0, 0); } else fracSum(j, x, w, out, "output"); }
      if (isSa(b->el_type)) { perTensor(j, b, "bias"); perTensor(j, out, "output"); quant(j, b, "bias", 0, 0); quant(j, out, "output", -128, 127); if (j.v != BAD) biasScale(j, t(2), t(3), b); } else fracSum(j, t(2), t(3), b, "bias");
      break; }
    case RNN: {
      bool gru = nm.compare(0, 3, "gru") == 0; const T *in = t(0), *pr = t(1), *wi = t(2), *wo = t(3), *b = t(4), *out = t(5), *cell = gru ? nullptr : t(6); auto *c = cfgOf<mli_rnn_cell_cfg>(k); i64 G = gru ? 3 : 4;
      if (!(j.need(in->rank == 2, "input rank") & j.need(pr->rank == 1, "prev_out rank") & j.need(wi->rank == 3, "weights rank") & j.need(wo->rank == 3, "weights rank") & j.need(b->rank == 2, "bias rank") & (gru || j.need(cell->rank == 1, "cell rank")))) return j;
      i64 N = in->shape[1], M = pr->shape[0]; j.need((i64)wi->shape[0] == G && (i64)wi->shape[1] == N && (i64)wi->shape[2] == M, "weights_in shape"); j.need((i64)wo->shape[0] == G && (i64)wo->shape[1] == M && (i64)wo->shape[2] == M, "weights_out shape"); j.need((i64)b->shape[0] == G && (i64)b->shape[1] == M, "bias shape"); if (!gru) j.need((i64)cell->shape[0] == M, "cell shape");
      contiguous(j, in, "input"); contiguous(j, pr, "prev_out"); contiguous(j, out, "output"); inner(j, wi, "weights_in"); inner(j, wo, "weights_out"); inner(j, b, "bias"); if (cell) contiguous(j, cell, "cell");
      i64 seq = c->results == RNN_OUT_ALL ? in->shape[0] : 1, es = esize(in->el_type); j.need(seq * M * es <= (i64)out->data.capacity, "output capacity"); if (!(out->rank == 2 && (i64)out->shape[0] == seq && (i64)out->shape[1] == M)) j.free("other output shape");
      if (c->results > 1 || c->direction > 1 || c->act > 2) j.free("enumeration value"); if (j.need(c->scratch_data.mem.pi8 != nullptr, "no scratch") & j.need((i64)c->scratch_data.capacity >= G * M * es, "scratch capacity")) { apart(j, in->data.mem.pi8, extent(in), in->data.capacity, c->scratch_data.mem.pi8, c->scratch_data.capacity, c->scratch_data.capacity, "input and scratch"); for (int i : {1, 2, 3, 4, 5}) { J q; apart(q, t(i)->data.mem.pi8, extent(t(i)), t(i)->data.capacity, c->scratch_data.mem.pi8, c->scratch_data.capacity, c->scratch_data.capacity, ""); if (q.v) j.free("scratch over another operand"); } }
      if (sa) { for (auto p : {std::make_pair(in, "input"), {pr, "prev_out"}, {out, "output"}, {cell, "cell"}}) if (p.first) { quant(j, p.first, p.second, -128, 127); perTensor(j, p.first, p.second); }
        bool q = quant(j, wi, "weights_in", 0, 0) & quant(j, wo, "weights_out", 0, 0) & quant(j, b, "bias", 0, 0); if (wi->el_params.sa.dim < 0) { j.need(wo->el_params.sa.dim < 0 && b->el_params.sa.dim < 0, "quantisation axis differs from weights_in"); } else j.need(wi->el_params.sa.dim == 0 && wo->el_params.sa.dim == 0 && b->el_params.sa.dim == 0, "quantisation axis not the first"); if (q && j.v != BAD) biasScale(j, in, wi, b); }
      else { for (int i = 0; i < nops; i++) frac(j, t(i)); fracSum(j, in, wi, b, "bias"); }
      break; }
    case POOL: {
      const T *in = t(0), *out = t(1); auto *c = cfgOf<mli_pool_cfg>(k); if (!(j.need(in->rank == 3, "input rank") & j.need(out->rank == 3, "output rank"))) return j; inner(j, in, "input"); inner(j, out, "output"); j.need(in->shape[2] == out->shape[2], "channels");
      size_t v = nm.find(" variant "); int sp = nm[v + 9] == '1' ? 2 : nm[v + 9] == '2' ? 3 : 0; i64 kh = c->kernel_height, kw = c->kernel_width; if (sp) j.need(kh == sp && kw == sp, "kernel size of the specialisation");
      j.need(c->stride_width > 0 && c->stride_height > 0, "stride 0"); j.need(kh > 0 && kw > 0, "kernel 0"); j.need(c->padding_left < kw && c->padding_right < kw && c->padding_top < kh && c->padding_bottom < kh, "padding not below the kernel size"); if (j.v == BAD) return j;
      i64 ph = in->shape[0] + c->padding_top + c->padding_bottom, pw = in->shape[1] + c->padding_left + c->padding_right, mh = ph < kh ? 0 : (ph - kh) / c->stride_height + 1, mw = pw < kw ? 0 : (pw - kw) / c->stride_width + 1; j.need(out->shape[0] <= mh && out->shape[1] <= mw, "output larger than the input allows"); if (out->shape[0] < mh || out->shape[1] < mw) j.free("output smaller than the input allows"); if (kh > in->shape[0] || kw > in->shape[1]) j.free("kernel larger than the input");
      apart(j, in, out, "input and output"); perTensor(j, in, "input"); J q; if (nm[0] == 'a') { if (sa) { quant(j, in, "input", -128, 127); quant(j, out, "output", -128, 127); } perTensor(j, out, "output"); } else if (sa) { quant(q, in, "", -128, 127); quant(q, out, "", -128, 127); perTensor(q, out, ""); if (q.v) j.free("unused quantisation"); } frac(j, in); frac(j, out);
      break; }
    case ELT: {
      const T *a = t(0), *b = t(1), *o = t(2); bool sa1 = cnt(a) == 1, sb1 = cnt(b) == 1; j.need(a->rank || b->rank, "both inputs are bare scalars"); if (!sa1) inner(j, a, "input1"); if (!sb1) inner(j, b, "input2"); inner(j, o, "output");
      if (!sa1 && !sb1) same(j, a, b, "inputs"); if (sa1 && sb1) { if (cnt(o) != 1) j.bad("output larger than the inputs"); else if (o->rank != a->rank || o->rank != b->rank) j.free("ranks of single elements"); } else same(j, sa1 ? b : a, o, "output");
      bool mm = nm.compare(8, 3, "max") == 0 || nm.compare(8, 3, "min") == 0; if (sa) { for (auto p : {std::make_pair(a, "input1"), {b, "input2"}, {o, "output"}}) { quant(j, p.first, p.second, -128, 127); perTensor(j, p.first, p.second); } } for (int i = 0; i < 3; i++) frac(j, t(i));
      if (mm && j.v != BAD) { if (sa) { j.need(zpOf(a, 0) == zpOf(b, 0) && scOf(a, 0) == scOf(b, 0) && fbOf(a, 0) == fbOf(b, 0), "inputs differ in quantisation"); if (!(zpOf(a, 0) == zpOf(o, 0) && scOf(a, 0) == scOf(o, 0) && fbOf(a, 0) == fbOf(o, 0))) j.free("output quantisation"); } else { j.need(a->el_params.fx.frac_bits == b->el_params.fx.frac_bits, "inputs differ in fractional bits"); if (a->el_params.fx.frac_bits != o->el_params.fx.frac_bits) j.free("output fractional bits"); } }
      break; }
    case RELU: case ACT: case NORM: {
      const T *in = t(0), *out = t(1); same(j, in, out, "output"); inner(j, in, "input"); inner(j, out, "output"); if (sa) { quant(j, in, "input", -128, 127); perTensor(j, in, "input"); J q; quant(q, out, "", -32768, 32767); perTensor(q, out, ""); if (q.v) j.free("overwritten quantisation"); } else { frac(j, in); }
      if (s.fam == RELU) { auto *c = cfgOf<mli_relu_cfg>(k); if (c->type < 0 || c->type > 3) j.free("relu type"); } if (s.fam == NORM) { int a = cfgOf<mli_softmax_cfg>(k)->axis; j.need(a < (int)in->rank, "axis"); if (a < -1) j.free("axis below -1"); }
      break; }
    case LEAKY: case PRELU: {
      const T *in = t(0), *sl = t(1), *out = t(2); same(j, in, out, "output"); inner(j, in, "input"); inner(j, out, "output"); int axis = -1; if (s.fam == PRELU) { axis = cfgOf<mli_prelu_cfg>(k)->axis; if (axis < -1) j.free("axis below -1"); if (!j.need(axis < (int)in->rank, "axis")) return j; }
      if (axis < 0) j.need(cnt(sl) == 1, "slope is not a scalar"); else if (sl->rank == 1) { j.need(dimOf(in, axis) == (i64)sl->shape[0], "slope length"); inner(j, sl, "slope"); } else { j.need(sl->rank == in->rank && dimOf(sl, axis) == dimOf(in, axis) && cnt(sl) == dimOf(in, axis), "slope shape"); j.free("slope of the rank of the input"); }
      if (sa) { quant(j, in, "input", -128, 127); quant(j, out, "output", -128, 127); quant(j, sl, "slope", -16384, 16383); perTensor(j, in, "input"); perTensor(j, out, "output"); perTensor(j, sl, "slope"); } else { frac(j, in); frac(j, sl); j.need(in->el_params.fx.frac_bits == out->el_params.fx.frac_bits, "input and output fractional bits"); }
      break; }
    case ARGMAX: {
      const T *in = t(0), *out = t(1); auto *c = cfgOf<mli_argmax_cfg>(k); inner(j, in, "input"); contiguous(j, out, "output"); if (c->axis < -1) j.free("axis below -1"); if (!j.need(c->axis < (int)in->rank, "axis") || !j.need(out->rank == 2, "output rank")) return j;
      i64 rows = c->axis < 0 ? 1 : in->shape[c->axis]; j.need((i64)out->shape[0] == rows, "output rows"); j.need(c->topk > 0 && (i64)out->shape[1] == c->topk, "output columns"); j.need(c->topk <= cnt(in) / rows, "topk above the slice"); perTensor(j, in, "input"); J q; if (sa) quant(q, in, "", -32768, 32767); quant(q, out, "", -32768, 32767); perTensor(q, out, ""); apart(q, in, out, ""); if (q.v) j.free("unused quantisation");
      break; }
    case PERM: {
      const T *in = t(0), *out = t(1); auto *c = cfgOf<mli_permute_cfg>(k); bool ok = true; unsigned seen = 0; for (unsigned d = 0; d < in->rank; d++) { ok &= j.need(c->perm_dim[d] < in->rank, "dimension of the order"); if (c->perm_dim[d] < 8) { ok &= j.need(!(seen >> c->perm_dim[d] & 1), "dimension twice in the order"); seen |= 1u << c->perm_dim[d]; } } if (!ok) return j;
      ok = j.need(in->rank == out->rank, "output rank"); for (unsigned d = 0; ok && d < in->rank; d++) j.need(out->shape[d] == in->shape[c->perm_dim[d]], "output shape"); apart(j, in, out, "input and output"); if (sa) { arrays(j, in, "input"); if (in->el_params.sa.dim >= 0) j.free("per-axis quantisation"); J q; if (j.v != BAD) quant(q, in, "", -32768, 32767); if (out->el_params.sa.dim >= 0) q.free(""); if (q.v) j.free("unused quantisation"); }
      break; }
    case CONVERT: {
      const T *in = t(0), *out = t(1); same(j, in, out, "output"); inner(j, in, "input"); inner(j, out, "output"); if (in->el_type == MLI_EL_FP_32 && out->el_type == MLI_EL_FP_32) j.free("float to float"); if (isSa(in->el_type)) quant(j, in, "input", -32768, 32767); if (isSa(out->el_type)) quant(j, out, "output", -32768, 32767);
      if (isSa(in->el_type) && isSa(out->el_type)) j.need(in->el_params.sa.dim < 0 || out->el_params.sa.dim < 0 || in->el_params.sa.dim == out->el_params.sa.dim, "axes differ"); frac(j, in); frac(j, out);
      if (in->data.mem.pi8 == out->data.mem.pi8) { j.need(esize(in->el_type) == esize(out->el_type), "in place with another container size"); bool st = in->rank == out->rank; for (unsigned d = 0; st && d < in->rank; d++) st = in->mem_stride[d] == out->mem_stride[d]; if (!st) j.free("in place with other strides"); } else { J q; apart(q, in, out, ""); if (q.v) j.free("partial overlap"); }
      break; }
    case MOV: {
      const T *in = t(0), *out = t(1); auto *c = cfgOf<mli_mov_cfg_t>(k); j.need(out->data.mem.pi8 != nullptr, "destination without data"); if (in->rank == 0) return j; bool ok = true; unsigned seen = 0;
      for (unsigned d = 0; d < in->rank; d++) { ok &= j.need(c->sub_sample_step[d] > 0, "sampling step 0"); ok &= j.need(c->perm_dim[d] < in->rank, "dimension of the order"); if (c->perm_dim[d] < 8) { if (seen >> c->perm_dim[d] & 1) j.free("dimension twice in the order"); seen |= 1u << c->perm_dim[d]; } i64 full = (i64)in->shape[d] + c->padding_pre[d] + c->padding_post[d]; ok &= j.need((i64)c->offset[d] + (i64)c->size[d] <= full, "window outside of the padded source"); }
      if (isSa(in->el_type)) { arrays(j, in, "source"); if (in->el_params.sa.dim >= 0) j.free("per-axis quantisation"); }
      if (!ok || j.v == BAD) return j;
      T d = *in; d.data = out->data; i64 dense = 1; for (int x = (int)in->rank - 1; x >= 0; x--) { int y = c->perm_dim[x]; i64 n = c->size[y] ? (i64)c->size[y] : (i64)in->shape[y] - (i64)c->offset[y] + c->padding_pre[y] + c->padding_post[y]; n = (n + c->sub_sample_step[y] - 1) / c->sub_sample_step[y] + c->dst_offset[x]; d.shape[x] = (uint32_t)n; d.mem_stride[x] = c->dst_mem_stride[x] ? c->dst_mem_stride[x] : out->mem_stride[x] ? out->mem_stride[x] : (int32_t)dense; dense = (i64)d.mem_stride[x] * n; }
      if (tensor(j, &d, "destination")) apart(j, in, &d, "source and destination");
      break; }
  }
  return j;
}
}  // namespace valid
