#include "mon.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
extern "C" { extern char __executable_start, end, __data_start; void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); }
namespace mon {
std::vector<Region> regions; bool enabled, logging; uint64_t accesses, globalWrites; std::string bad; uintptr_t stackTop; std::vector<Acc> log; void (*hook)(uintptr_t, size_t, bool);
static std::vector<uint8_t *> owned;
void clear() { for (auto p : owned) delete[] p; owned.clear(); regions.clear(); bad.clear(); accesses = globalWrites = 0; log.clear(); }
uint8_t *add(const void *p, size_t n, int perm, const char *name) { uint8_t *b = new uint8_t[n ? n : 1]; memset(b, perm, n); owned.push_back(b); regions.push_back({(uintptr_t)p, (uintptr_t)p + n, b, name}); return b; }
void start() { std::sort(regions.begin(), regions.end(), [](const Region &x, const Region &y) { return x.a < y.a; }); enabled = true; }
void stop() { enabled = false; }
static void report(uintptr_t a, size_t n, bool w, const Region *r, const char *what) {
  if (!bad.empty()) return; char b[300];
  if (r) snprintf(b, sizeof b, "%s of %zu byte(s) at offset %td of %s (%s)", w ? "write" : "read", n, (ptrdiff_t)(a - r->a), r->name, what);
  else snprintf(b, sizeof b, "%s of %zu byte(s) outside everything passed to the call (%s)", w ? "write" : "read", n, what);
  bad = b;
}
void access(uintptr_t a, size_t n, bool w, void *) {
  if (!enabled || !n) return;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (a >= sp - 4096 && a < stackTop) return;
  accesses++;
  if (hook) { enabled = false; hook(a, n, w); enabled = true; }
  if (logging) { enabled = false; log.push_back({a, (uint32_t)n, w}); enabled = true; }
  auto it = std::upper_bound(regions.begin(), regions.end(), a, [](uintptr_t v, const Region &r) { return v < r.a; });
  if (it != regions.begin()) {
    Region &r = *(it - 1);
    if (a < r.e) {
      if (a + n > r.e) { enabled = false; report(a, n, w, &r, "runs over its end"); enabled = true; return; }
      uint8_t *p = r.perm + (a - r.a);
      for (size_t i = 0; i < n; i++) {
        if (w ? !(p[i] & W) : !(p[i] & (R | FRESH))) { enabled = false; report(a, n, w, &r, w ? "not writable by this call" : (p[i] & W) ? "contents undefined at this point" : "not an element of an input"); enabled = true; return; }
        if (w) p[i] |= FRESH;
      }
      return;
    }
  }
  if (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&end) { if (w) { globalWrites++; } return; }
  enabled = false; char d[100]; const Region *q = nullptr; ptrdiff_t best = 1 << 16; for (auto &r : regions) { ptrdiff_t x = a >= r.e ? a - r.e : r.a - a; if (x < best) { best = x; q = &r; } }
  if (q) snprintf(d, sizeof d, "%td byte(s) %s %s", best + 0, a >= q->e ? "past the end of" : "before", q->name); report(a, n, w, nullptr, q ? d : "unknown memory"); enabled = true;
}
}
#define A(p, n, w) mon::access((uintptr_t)(p), n, w, __builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define D(n) void __tsan_read##n(void *p) { A(p, n, false); } void __tsan_write##n(void *p) { A(p, n, true); } void __tsan_unaligned_read##n(void *p) { A(p, n, false); } void __tsan_unaligned_write##n(void *p) { A(p, n, true); } void __tsan_volatile_read##n(void *p) { A(p, n, false); } void __tsan_volatile_write##n(void *p) { A(p, n, true); }
D(1) D(2) D(4) D(8) D(16)
void __tsan_read_range(void *p, size_t n) { A(p, n, false); } void __tsan_write_range(void *p, size_t n) { A(p, n, true); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { A(s, n, false); A(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { A(s, n, false); A(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { A(d, n, true); return __real_memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
int __tsan_atomic8_load(const void *p, int) { A(p, 1, false); return *(volatile char *)p; }
int __tsan_atomic32_load(const void *p, int) { A(p, 4, false); return *(volatile int *)p; }
}
