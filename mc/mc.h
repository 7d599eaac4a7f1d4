// Exhaustive bounded exploration framework ("mc").
//
// A check consists of one or more *spaces*.  A space is a function that draws every free parameter of one
// execution from finite alphabets through Chooser::pick; the framework walks the resulting choice tree completely
// (depth first, odometer order, simplest choice first), partitioned over worker processes by case index.
// Every case drives the real library and compares what it observed with a reference model.
// A case that crashes, hangs or disagrees is replayed alone in a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h;
}
inline uint64_t mixb(uint64_t h, const void *p, size_t n) {
  const uint8_t *b = (const uint8_t *)p;
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
  uint64_t v = 0; memcpy(&v, b, n); return mix(h, v ^ (uint64_t(n) << 56));
}

constexpr int kMaxPath = 96;
constexpr int kMaxSpaces = 128;

struct Chooser {
  uint32_t v[kMaxPath], n[kMaxPath]; const char *name[kMaxPath];
  int len = 0, p = 0; bool pinned = false;
  // pick an index in [0,k)
  int pick(const char *nm, int k) {
    if (k <= 0) { fprintf(stderr, "mc: empty alphabet %s\n", nm); abort(); }
    if (p >= kMaxPath) { fprintf(stderr, "mc: path too long\n"); abort(); }
    if (p == len) { v[len] = 0; n[len] = k; name[len] = nm; len++; }
    else { name[p] = nm; if (pinned) n[p] = k; if (n[p] != (uint32_t)k || v[p] >= (uint32_t)k) { fprintf(stderr, "mc: replay divergence at %s (%u/%u vs %d)\n", nm, v[p], n[p], k); abort(); } }
    return v[p++];
  }
  int range(const char *nm, int lo, int hi) { return lo + pick(nm, hi - lo + 1); }  // inclusive
  template <class T> T of(const char *nm, std::initializer_list<T> l) { return *(l.begin() + pick(nm, (int)l.size())); }
  template <class T> const T &of(const char *nm, const std::vector<T> &l) { return l[pick(nm, (int)l.size())]; }
  bool flag(const char *nm) { return pick(nm, 2); }
  bool advance() {  // next leaf; false when the tree is exhausted
    len = p;  // drop stale suffix
    while (len > 0 && v[len - 1] + 1 >= n[len - 1]) len--;
    p = 0;
    if (len == 0) return false;
    v[len - 1]++;
    return true;
  }
  std::string str() const { std::string s; for (int i = 0; i < p; i++) { if (i) s += " "; s += name[i]; s += "="; s += std::to_string(v[i]); } return s; }
  std::string path() const { std::string s; for (int i = 0; i < p; i++) { if (i) s += ","; s += std::to_string(v[i]); } return s.empty() ? "-" : s; }
};

struct SpaceStat { uint64_t leaves, cases, calls, traces, skipped; };
struct Shared {  // one per worker, in shared memory
  volatile int space; volatile uint64_t leaf; volatile uint32_t path[kMaxPath]; volatile int plen; volatile double t0; volatile int active;
  volatile int failed; char msg[4000]; char fdesc[3000]; char known[8][200]; volatile int nknown;
  SpaceStat st[kMaxSpaces];
  volatile int capped; volatile int done;
  char sample[kMaxSpaces][600];
};

struct Opt { bool thorough = false; int workers = 8; double deadline = 780; std::string out, known, cfg = "?", only; double hang = 60; };
inline Opt opt;
inline bool thorough() { return opt.thorough; }
template <class T> T tier(T q, T t) { return opt.thorough ? t : q; }

struct Fail {};

struct Case {
  Chooser ch; Shared *sh = nullptr; int space = 0, worker = 0; uint64_t leaf = 0;
  bool replaying = false; bool began = false;
  std::unordered_set<uint64_t> states, outs;
  std::vector<std::string> *knownlist = nullptr;
  std::string note;
  // call after all parameters have been picked: false => not this worker's case
  bool begin() {
    if (began) return true;
    if (!replaying) {
      if ((leaf % opt.workers) != (uint64_t)worker) return false;
      for (int i = 0; i < ch.p; i++) sh->path[i] = ch.v[i];
      sh->plen = ch.p; sh->leaf = leaf; sh->t0 = now(); sh->active = 1;
    }
    began = true; note.clear();
    sh->st[space].cases++;
    return true;
  }
  // picks made after begin() (histories): refresh the crash slot
  void sync() { if (!replaying) { for (int i = 0; i < ch.p; i++) sh->path[i] = ch.v[i]; sh->plen = ch.p; } }
  void call(int k = 1) { sh->st[space].calls += k; }
  void trace(int k = 1) { sh->st[space].traces += k; }
  void skip() { sh->st[space].skipped++; }
  void state(uint64_t h) { states.insert(h); }
  void out(uint64_t h) { outs.insert(h); states.insert(mix(mix(leaf, space), h)); }
  // key: stable identification of what fails (matched against the known-findings file)
  void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    char b[2500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (knownlist) for (auto &k : *knownlist) if (k == key) {
      for (int i = 0; i < sh->nknown; i++) if (!strcmp(sh->known[i], key)) return;
      if (sh->nknown < 8) { snprintf(sh->known[sh->nknown], 200, "%s", key); sh->nknown = sh->nknown + 1; }
      return;
    }
    snprintf(sh->msg, sizeof sh->msg, "[%s] %s%s%s", key, b, note.empty() ? "" : " | ", note.c_str());
    snprintf(sh->fdesc, sizeof sh->fdesc, "%s", ch.str().c_str());
    sh->failed = 1;
    throw Fail();
  }
};

struct Space { const char *name; void (*fn)(Case &); };

inline void arm_limits() { rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r); int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); close(dn); } }   // deprecated interfaces print

inline void worker_main(const std::vector<Space> &sp, int w, Shared *sh, std::vector<std::string> &known, double tend) {
  arm_limits();
  Case c; c.sh = sh; c.worker = w; c.knownlist = &known;
  std::string base = opt.out + ".w" + std::to_string(w);
  for (size_t s = 0; s < sp.size(); s++) {
    if (!opt.only.empty() && opt.only != sp[s].name) continue;
    c.space = (int)s; sh->space = (int)s; c.ch = Chooser(); c.leaf = 0; c.ch.len = 0;
    uint64_t k = 0;
    for (;;) {
      c.ch.p = 0; c.began = false;
      try { sp[s].fn(c); } catch (Fail &) { sh->active = 0; _exit(3); }
      sh->active = 0;
      if (c.began && (sh->sample[s][0] == 0)) snprintf(sh->sample[s], sizeof sh->sample[s], "%s: %s %s", sp[s].name, c.ch.str().c_str(), c.note.c_str());
      sh->st[s].leaves++;
      c.leaf++;
      if ((++k & 63) == 0 && now() > tend) { sh->capped = 1; break; }
      if (!c.ch.advance()) break;
    }
    if (sh->capped) break;
  }
  auto dump = [&](const char *suf, std::unordered_set<uint64_t> &u) {
    FILE *f = fopen((base + suf).c_str(), "wb"); if (!f) return;
    std::vector<uint64_t> t(u.begin(), u.end()); fwrite(t.data(), 8, t.size(), f); fclose(f);
  };
  dump(".states", c.states); dump(".outs", c.outs);
  sh->done = 1;
  _exit(0);
}

inline Shared *shm(int n) { void *p = mmap(0, sizeof(Shared) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Shared *)p; }

// run one case alone in a child; returns 0 ok, 1 mismatch, 2 crash, 3 hang
inline int replay_one(const std::vector<Space> &sp, int space, const std::vector<uint32_t> &path, std::vector<std::string> &known, double limit, std::string &msg, std::string &desc) {
  Shared *sh = shm(1); fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    arm_limits();
    Case c; c.sh = sh; c.replaying = true; c.space = space; c.knownlist = &known;
    c.ch.len = (int)path.size(); for (size_t i = 0; i < path.size(); i++) { c.ch.v[i] = path[i]; c.ch.n[i] = 0; }
    c.ch.pinned = true;
    try { sp[space].fn(c); } catch (Fail &) { _exit(3); }
    snprintf(sh->fdesc, sizeof sh->fdesc, "%s", c.ch.str().c_str());
    _exit(0);
  }
  double t = now(); int st = 0; bool hang = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
    usleep(1000);
  }
  desc = sh->fdesc;
  int rc = 0;
  if (hang) { msg = "call did not return"; rc = 3; }
  else if (WIFSIGNALED(st)) { msg = std::string("process killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; rc = 2; }
  else if (WEXITSTATUS(st) == 3) { msg = sh->msg; rc = 1; }
  else if (WEXITSTATUS(st) != 0) { msg = "process exited with status " + std::to_string(WEXITSTATUS(st)); rc = 2; }
  munmap(sh, sizeof(Shared));
  return rc;
}

inline std::string jesc(const std::string &s) { std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else if ((unsigned char)ch > 126) o += '?'; else o += ch; } return o; }

inline int run_main(int argc, char **argv, std::vector<Space> sp) {
  std::string rspace, rpath;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--thorough") opt.thorough = true;
    else if (a == "--workers") opt.workers = atoi(nx().c_str());
    else if (a == "--deadline") opt.deadline = atof(nx().c_str());
    else if (a == "--out") opt.out = nx();
    else if (a == "--known") opt.known = nx();
    else if (a == "--cfg") opt.cfg = nx();
    else if (a == "--only") opt.only = nx();
    else if (a == "--hang") opt.hang = atof(nx().c_str());
    else if (a == "--replay") { rspace = nx(); rpath = nx(); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  std::vector<std::string> known;
  if (!opt.known.empty()) { FILE *f = fopen(opt.known.c_str(), "r"); char b[400]; if (f) { while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) known.push_back(b); } fclose(f); } }
  if (sp.size() > (size_t)kMaxSpaces) { fprintf(stderr, "too many spaces\n"); return 2; }
  if (!rspace.empty()) {
    int s = -1; for (size_t i = 0; i < sp.size(); i++) if (rspace == sp[i].name) s = (int)i;
    if (s < 0) { fprintf(stderr, "no such space\n"); return 2; }
    std::vector<uint32_t> path; if (rpath != "-") { char *q = strdup(rpath.c_str()); for (char *t = strtok(q, ","); t; t = strtok(0, ",")) path.push_back(strtoul(t, 0, 10)); free(q); }
    std::string msg, desc; int rc = replay_one(sp, s, path, known, 300, msg, desc);
    printf("%s %s\n  case: %s\n  %s\n", rspace.c_str(), rpath.c_str(), desc.c_str(), rc ? msg.c_str() : "holds");
    return rc ? 1 : 0;
  }
  if (opt.out.empty()) opt.out = "/tmp/mc_out." + std::to_string(getpid());
  double t0 = now(), tend = t0 + opt.deadline;
  Shared *sh = shm(opt.workers);
  std::vector<pid_t> pid(opt.workers);
  fflush(stdout);
  for (int w = 0; w < opt.workers; w++) {
    pid_t p = fork(); if (p < 0) { perror("fork"); return 2; }
    if (p == 0) worker_main(sp, w, sh + w, known, tend);
    pid[w] = p;
  }
  // supervise
  std::vector<int> alive(opt.workers, 1); int bad = -1; int how = 0; int nalive = opt.workers;
  std::string msg, desc; std::vector<uint32_t> path; int fspace = 0;
  auto grab = [&](int w) { path.clear(); for (int i = 0; i < sh[w].plen; i++) path.push_back((uint32_t)sh[w].path[i]); fspace = sh[w].space; };
  while (nalive && bad < 0) {
    for (int w = 0; w < opt.workers && bad < 0; w++) if (alive[w]) {
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        alive[w] = 0; nalive--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].done) continue;
        grab(w);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { bad = w; how = 1; msg = sh[w].msg; desc = sh[w].fdesc; }
        else { bad = w; how = 2; msg = WIFSIGNALED(st) ? std::string("process killed by signal ") + strsignal(WTERMSIG(st)) : "process exited with status " + std::to_string(WEXITSTATUS(st)); if (!sh[w].active) how = 9; }
      } else if (sh[w].active && now() - sh[w].t0 > opt.hang) {
        grab(w); uint64_t l = sh[w].leaf;
        std::string m2, d2; int rc = replay_one(sp, fspace, path, known, opt.hang * 3, m2, d2);
        if (rc == 0) { if (sh[w].leaf == l) sh[w].t0 = now(); continue; }
        bad = w; how = rc; msg = m2; desc = d2;
      }
    }
    if (bad < 0) usleep(2000);
  }
  for (int w = 0; w < opt.workers; w++) if (alive[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); }
  if (bad >= 0 && how == 9) { fprintf(stderr, "mc: worker died outside a case: %s\n", msg.c_str()); return 2; }
  bool violation = false; std::string rep;
  if (bad >= 0) {
    std::string m2, d2; int rc = replay_one(sp, fspace, path, known, 180, m2, d2);
    if (rc == 0) msg += " (seen once in the worker's history; does not fail when the case runs alone: the outcome depends on earlier calls)";
    else { msg = m2; if (!d2.empty()) desc = d2; }
    violation = true;
    std::string pp; for (size_t i = 0; i < path.size(); i++) pp += (i ? "," : "") + std::to_string(path[i]); if (pp.empty()) pp = "-";
    FILE *f = fopen((opt.out + ".violation").c_str(), "w");
    if (f) { fprintf(f, "config: %s\nspace: %s\npath: %s\ncase: %s\nwhat: %s\nrerun: %s%s --replay %s %s\n", opt.cfg.c_str(), sp[fspace].name, pp.c_str(), desc.c_str(), msg.c_str(), argv[0], opt.thorough ? " --thorough" : "", sp[fspace].name, pp.c_str()); fclose(f); }
    printf("FAIL cfg=%s space=%s path=%s\n  case: %s\n  %s\n", opt.cfg.c_str(), sp[fspace].name, pp.c_str(), desc.c_str(), msg.c_str());
  }
  // aggregate
  std::unordered_set<uint64_t> S, O; bool capped = false;
  std::vector<std::string> kn;
  for (int w = 0; w < opt.workers; w++) {
    capped |= sh[w].capped;
    for (int i = 0; i < sh[w].nknown; i++) if (std::find(kn.begin(), kn.end(), sh[w].known[i]) == kn.end()) kn.push_back(sh[w].known[i]);
    for (int which = 0; which < 2; which++) {
      std::string fn = opt.out + ".w" + std::to_string(w) + (which ? ".outs" : ".states");
      FILE *f = fopen(fn.c_str(), "rb"); if (!f) continue;
      uint64_t b[4096]; size_t r; auto &u = which ? O : S; while ((r = fread(b, 8, 4096, f)) > 0) for (size_t i = 0; i < r; i++) u.insert(b[i]);
      fclose(f); unlink(fn.c_str());
    }
  }
  SpaceStat tot{}; std::string spj, smp; std::vector<std::string> empty;
  for (size_t s = 0; s < sp.size(); s++) {
    if (!opt.only.empty() && opt.only != sp[s].name) continue;
    SpaceStat t{}; for (int w = 0; w < opt.workers; w++) { auto &x = sh[w].st[s]; t.leaves = std::max(t.leaves, x.leaves); t.cases += x.cases; t.calls += x.calls; t.traces += x.traces; t.skipped += x.skipped; }
    tot.leaves += t.leaves; tot.cases += t.cases; tot.calls += t.calls; tot.traces += t.traces; tot.skipped += t.skipped;
    char b[300]; snprintf(b, sizeof b, "%s{\"space\":\"%s\",\"leaves\":%" PRIu64 ",\"cases\":%" PRIu64 ",\"calls\":%" PRIu64 ",\"traces\":%" PRIu64 ",\"outside_domain\":%" PRIu64 "}", spj.empty() ? "" : ",", sp[s].name, t.leaves, t.cases, t.calls, t.traces, t.skipped); spj += b;
    for (int w = 0; w < opt.workers; w++) if (sh[w].sample[s][0]) { smp += (smp.empty() ? "\"" : ",\"") + jesc(sh[w].sample[s]) + "\""; break; }
    if (!t.traces && !violation && !capped) empty.push_back(sp[s].name);
  }
  FILE *f = fopen(opt.out.c_str(), "w"); if (!f) { perror("out"); return 2; }
  fprintf(f, "{\"cfg\":\"%s\",\"states\":%zu,\"distinct_outcomes\":%zu,\"leaves\":%" PRIu64 ",\"cases\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"traces\":%" PRIu64 ",\"capped\":%s,\"violation\":%s,\"wall\":%.2f,\"spaces\":[%s],\"samples\":[%s],\"known\":[", opt.cfg.c_str(), S.size(), O.size(), tot.leaves, tot.cases, tot.calls, tot.traces, capped ? "true" : "false", violation ? "true" : "false", now() - t0, spj.c_str(), smp.c_str());
  for (size_t i = 0; i < kn.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(kn[i]).c_str());
  fprintf(f, "]}\n"); fclose(f);
  if (!empty.empty()) { for (auto &e : empty) fprintf(stderr, "mc: space %s explored nothing\n", e.c_str()); return 2; }
  return violation ? 1 : 0;
}

}  // namespace mc
