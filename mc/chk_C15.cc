// C15: asynchronous moves: handle protocol, channel pool, callbacks. Operation sequences on the real code against a model.
#include "ref.h"
#include <unordered_set>
#include <deque>
#include <string>
using namespace mc;
enum { NONE, OPEN, PREP, DONE };
static const int kPools[][2] = {{0, 2}, {1, 3}, {0, 1}, {14, 2}, {0, 16}, {12, 4}, {3, 2}};
static std::vector<std::pair<int, int>> gLog; // callback, cookie
static void cbA(int32_t k) { gLog.push_back({1, k}); }
static void cbB(int32_t k) { gLog.push_back({2, k}); }
struct MH { int st = NONE, ch = 0, n = 0, cb = 0, cookie = 0, job = 0; bool dirty = false; };
struct Op { char k; int h, a; };
struct World {
  Case &cs; int NH, base, size; bool used[16] = {}; MH m[3]; mli_mov_handle_t h[3]; int uses = 0; std::string log;
  Ten src[2], dst[3], sdst; mli_mov_cfg_t cfg[2];
  World(Case &c, int nh, int pool) : cs(c), NH(nh) {
    for (int ch = 0; ch < 16; ch++) { mli_mov_handle_t t; mli_mov_set_num_dma_ch(ch, 1); if (mli_mov_acquire_handle(1, &t) != MLI_STATUS_OK) c.fail("reset", "no handle from a fresh pool of one channel (%d)", ch); mli_mov_registercallback(&t, nullptr, 0); mli_mov_release_handle(&t); }
    gLog.clear(); memset(h, 0, sizeof h); setPool(pool);
    for (int j = 0; j < 2; j++) { src[j] = Ten(MLI_EL_FX_16, {2, 3 + j}); src[j].fx(3 + j); for (int i = 0; i < 6 + 2 * j; i++) src[j].set(i, 100 * (j + 1) + i); }
    mli_mov_cfg_for_copy(&cfg[0]); uint8_t p[4] = {1, 0, 2, 3}; mli_mov_cfg_for_permute(&cfg[1], p);
    for (int i = 0; i < 3; i++) dst[i] = blank(); 
  }
  Ten blank() { Ten t(MLI_EL_FX_16, {8}); for (int d = 0; d < 4; d++) t.t.mem_stride[d] = 0; return t; }
  void setPool(int p) { base = kPools[p][0]; size = kPools[p][1]; if (mli_mov_set_num_dma_ch(base, size) != MLI_STATUS_OK) cs.fail("pool", "pool configuration refused"); cs.call(); }
  bool held() const { for (int i = 0; i < NH; i++) if (m[i].st) return true; return false; }
  void checkData(Ten &d, int job, const char *what) {
    int R = job ? 4 : 2, C = job ? 2 : 3; if (d.t.rank != 2 || (int)d.t.shape[0] != R || (int)d.t.shape[1] != C || d.frac() != 3 + job || d.t.el_type != MLI_EL_FX_16) cs.fail("data", "%s: destination description wrong after%s", what, log.c_str());
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (d.at(i, j) != (job ? src[1].at(j, i) : src[0].at(i, j))) cs.fail("data", "%s: element (%d,%d) is %" PRId64 " after%s", what, i, j, d.at(i, j), log.c_str());
    d.t.shape[0] = 8; d.t.shape[1] = 1; d.t.mem_stride[0] = 1; Ten e = blank(); for (int i = 0; i < R * C; i++) e.wraw(i, d.raw(i)); if (e.mem != d.mem) cs.fail("data", "%s: memory beyond the destination changed", what);
  }
  std::vector<Op> ops(const std::vector<int> &acq, bool cbs, bool sync, int npool) const {
    std::vector<Op> v; bool first = true;
    for (int i = 0; i < NH; i++) if (m[i].st == NONE) { if (first) for (int n : acq) v.push_back({'a', i, n}); first = false; if (m[i].dirty) v.push_back({'R', i, 0}); }
    for (int i = 0; i < NH; i++) if (m[i].st) {
      if (m[i].st != PREP) { v.push_back({'p', i, 0}); v.push_back({'p', i, 1}); }
      if (cbs) { v.push_back({'c', i, m[i].cb == 1 ? 2 : 1}); }
      if (m[i].st == PREP) v.push_back({'s', i, 0}); if (m[i].st == DONE) v.push_back({'w', i, 0});
#ifdef CFG_RET
      if (m[i].st != PREP) v.push_back({'b', i, 0});
#endif
      v.push_back({'r', i, 0});
    }
    if (sync) { v.push_back({'y', 0, 0});
#ifdef CFG_RET
      v.push_back({'Y', 0, 0});
#endif
    }
    if (!held()) for (int p = 0; p < npool; p++) v.push_back({'o', 0, p});
    return v;
  }
  void apply(Op o) {
    char b[40]; snprintf(b, sizeof b, " %c%d.%d", o.k, o.h, o.a); log += b; MH &M = m[o.h]; mli_mov_handle_t &H = h[o.h]; mli_status r = MLI_STATUS_OK; size_t l0 = gLog.size(), expectCb = 0; cs.call();
    switch (o.k) {
      case 'a': {
        bool can = false; for (int c = base; c + o.a <= base + size && !can; c++) { bool f = true; for (int k = 0; k < o.a; k++) f &= !used[c + k]; can = f; }
        r = mli_mov_acquire_handle(o.a, &H);
        if ((r == MLI_STATUS_OK) != can) cs.fail("acquire", "acquiring %d channels from pool %d+%d: status %d, but %s after%s", o.a, base, size, r, can ? "enough adjacent channels are free" : "there are not enough free channels", log.c_str());
        if (can) { if (H.num_ch != o.a || H.dma_ch < base || H.dma_ch + o.a > base + size) cs.fail("range", "handle got channels %d+%d outside of pool %d+%d after%s", H.dma_ch, H.num_ch, base, size, log.c_str());
          for (int k = 0; k < o.a; k++) { if (used[H.dma_ch + k]) cs.fail("shared", "channel %d handed out twice after%s", H.dma_ch + k, log.c_str()); used[H.dma_ch + k] = true; }
          M = MH(); M.st = OPEN; M.ch = H.dma_ch; M.n = o.a; }
        r = MLI_STATUS_OK; break; }
      case 'p': dst[o.h] = blank(); r = mli_mov_prepare(&H, &src[o.a].t, &cfg[o.a], &dst[o.h].t); M.st = PREP; M.job = o.a; break;
      case 'b': { Ten d = blank(); mli_tensor bad = src[0].t; bad.data.mem.pi16 = nullptr; r = mli_mov_prepare(&H, &bad, &cfg[0], &d.t); if (r == MLI_STATUS_OK) cs.fail("bad", "prepare accepted a source without data"); if (d.mem != blank().mem) cs.fail("bad", "failed prepare wrote data"); r = MLI_STATUS_OK; break; }
      case 'c': M.cb = o.a; M.cookie = 1000 * (o.h + 1) + (++uses % 3); r = mli_mov_registercallback(&H, o.a == 1 ? cbA : cbB, M.cookie); break;
      case 's': r = mli_mov_start(&H, &src[M.job].t, &cfg[M.job], &dst[o.h].t); M.st = DONE; expectCb = M.cb != 0; break;
      case 'w': r = mli_mov_wait(&H); { Ten d = dst[o.h]; checkData(d, M.job, "asynchronous move"); } break;
      case 'r': for (int k = 0; k < M.n; k++) used[M.ch + k] = false; M = MH(); M.dirty = true; r = mli_mov_release_handle(&H); break;
      case 'R': r = mli_mov_release_handle(&H); break;
      case 'y': { Ten d = blank(); r = mli_mov_tensor_sync(&src[1].t, &cfg[1], &d.t); if (r == MLI_STATUS_OK) checkData(d, 1, "synchronous move"); break; }
      case 'Y': { Ten d = blank(); mli_tensor bad = src[0].t; bad.data.mem.pi16 = nullptr; if (mli_mov_tensor_sync(&bad, &cfg[0], &d.t) == MLI_STATUS_OK) cs.fail("bad", "synchronous move accepted a source without data"); break; }
      case 'o': setPool(o.a); break;
    }
    if (r != MLI_STATUS_OK) cs.fail("status", "status %d of the last operation of%s", r, log.c_str());
    if (gLog.size() - l0 != expectCb) cs.fail("callback", "%zu callbacks, expected %zu, from the last operation of%s (pool %d+%d)", gLog.size() - l0, expectCb, log.c_str(), base, size);
    if (expectCb && (gLog.back().first != M.cb || gLog.back().second != M.cookie)) cs.fail("cookie", "callback %d cookie %d, registered %d with %d:%s", gLog.back().first, gLog.back().second, M.cb, M.cookie, log.c_str());
    for (int i = 0; i < NH; i++) if (m[i].st || m[i].dirty) { bool d = mli_mov_isdone(&h[i]); if (d != (m[i].st == DONE)) cs.fail("isdone", "handle %d reports %s after%s", i, d ? "done" : "not done", log.c_str()); if (m[i].st && (h[i].dma_ch != m[i].ch || h[i].num_ch != m[i].n)) cs.fail("handle", "channels of handle %d changed after%s", i, log.c_str()); if (m[i].st == DONE) { Ten x = dst[i]; checkData(x, m[i].job, "finished move"); } }
  }
  // everything must be available again once all handles are released
  void finish() { for (int i = 0; i < NH; i++) if (m[i].st) apply({'r', i, 0}); if (size <= 16) { MH s = m[0]; apply({'a', 0, size}); if (m[0].st != OPEN) cs.fail("leak", "channels lost after%s", log.c_str()); apply({'p', 0, 1}); apply({'s', 0, 0}); apply({'w', 0, 0}); apply({'r', 0, 0}); } }
  std::string key() const { std::string s; for (int i = 0; i < 16; i++) s += used[i] ? '1' : '0'; for (int i = 0; i < NH; i++) { char b[60]; snprintf(b, sizeof b, "|%d.%d.%d.%d.%d.%d.%d", m[i].st, m[i].ch, m[i].n, m[i].cb, m[i].cookie, m[i].st ? m[i].job : 0, m[i].dirty); s += b; } s += (char)('a' + base); s += (char)('a' + size); return s; }
};
static uint64_t hs(const std::string &s) { uint64_t h = 7; for (char c : s) h = mix(h, c); return h; }
// all sequences of the given length
static void sequences(Case &cs) {
  auto &c = cs.ch; int pool = c.pick("pool", 4), L = tier(7, 8); std::vector<Op> path;
  // choices depend on the model state only, so the model is stepped while choosing


  // pure model of the enabled operations
  bool used[16] = {}; MH m[3]; int base = kPools[pool][0], size = kPools[pool][1], NH = 3;
  for (int s = 0; s < L; s++) {
    std::vector<Op> v; bool first = true;
    for (int i = 0; i < NH; i++) if (!m[i].st) { if (first) for (int n : {1, 2, 3}) v.push_back({'a', i, n}); first = false; if (m[i].dirty && s == L - 1) v.push_back({'R', i, 0}); }
    for (int i = 0; i < NH; i++) if (m[i].st) { if (m[i].st != PREP) v.push_back({'p', i, s & 1}); if (m[i].cb < 2) v.push_back({'c', i, m[i].cb + 1}); if (m[i].st == PREP) v.push_back({'s', i, 0}); v.push_back({'r', i, 0}); }
    v.push_back({'y', 0, 0});
    Op o = v[c.pick("op", v.size())]; path.push_back(o); MH &M = m[o.h];
    if (o.k == 'a') { for (int b = base; b + o.a <= base + size; b++) { bool f = true; for (int k = 0; k < o.a; k++) f &= !used[b + k]; if (f) { for (int k = 0; k < o.a; k++) used[b + k] = true; M = MH(); M.st = OPEN; M.ch = b; M.n = o.a; break; } } if (!M.st) { o.k = 'x'; } }
    else if (o.k == 'p') M.st = PREP; else if (o.k == 's') M.st = DONE; else if (o.k == 'c') M.cb = o.a; else if (o.k == 'r') { for (int k = 0; k < M.n; k++) used[M.ch + k] = false; M = MH(); M.dirty = true; }
  }
  if (!cs.begin()) return;
  World x(cs, 3, pool); for (auto &o : path) { if (o.k != 'a' && o.k != 'y' && o.k != 'R' && !x.m[o.h].st) continue; x.apply(o); cs.state(hs(x.key())); } x.finish(); cs.out(hs(x.log)); cs.trace();
}
// complete reachable state graph of the protocol, every transition replayed on the real code from the initial state
static void graph(Case &cs) {
  auto &c = cs.ch; int pool = c.pick("pool", 7), NH = c.range("handles", 1, tier(2, 3)), acqs = c.pick("acquire", 3);
  if (!cs.begin()) return;
  std::vector<int> acq = acqs == 0 ? std::vector<int>{1} : acqs == 1 ? std::vector<int>{1, 2} : std::vector<int>{1, 2, 3, kPools[pool][1], kPools[pool][1] + 1};
  std::sort(acq.begin(), acq.end()); acq.erase(std::unique(acq.begin(), acq.end()), acq.end());
  std::unordered_set<std::string> seen; std::deque<std::vector<Op>> q; q.push_back({}); { World w(cs, NH, pool); seen.insert(w.key()); } size_t cap = tier(60000, 300000), n = 0;
  while (!q.empty() && n < cap) {
    auto path = q.front(); q.pop_front(); n++; std::vector<Op> en; { World w(cs, NH, pool); for (auto &o : path) w.apply(o); en = w.ops(acq, true, true, 2); }
    for (auto &o : en) { World w(cs, NH, pool); for (auto &p : path) w.apply(p); w.apply(o); auto k = w.key(); bool fresh = seen.insert(k).second; cs.state(hs(k)); w.finish(); cs.trace(); if (fresh) { auto p2 = path; p2.push_back(o); q.push_back(p2); } }
  }
  cs.out(seen.size()); if (getenv("C15_SIZES")) fprintf(stderr, "pool %d handles %d acq %d: %zu states%s\n", pool, NH, acqs, seen.size(), q.empty() ? "" : " (capped)");
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"sequences", sequences}, {"graph", graph}}); }
