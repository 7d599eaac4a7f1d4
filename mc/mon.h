// Memory access monitor: the library of the "mon" configuration is compiled with -fsanitize=thread and linked with our own
// run-time (tsan_rt.cc), so every load and store of the library and every memcpy/memset/memmove it calls arrives here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace mon {
enum { R = 1, W = 2, FRESH = 4 };        // readable, writable, written during the call (readable from then on)
struct Region { uintptr_t a, e; uint8_t *perm; const char *name; };
struct Acc { uintptr_t a; uint32_t n; bool w; };
extern std::vector<Region> regions; extern bool enabled, logging; extern uint64_t accesses, globalWrites; extern std::string bad; extern uintptr_t stackTop;
extern std::vector<Acc> log;             // accesses outside the stack, in order (when logging)
extern void (*hook)(uintptr_t, size_t, bool);   // called before every access outside the stack
void access(uintptr_t a, size_t n, bool w, void *pc);
void clear(); uint8_t *add(const void *p, size_t n, int perm, const char *name); void start(); void stop();
}
