// Run-time created look-up tables: container with guard zones and the documented piecewise linear interpolation.
#pragma once
#include "ref.h"
typedef int32_t (*LutSize)();
typedef mli_status (*LutCreate)(mli_lut *);
struct Lut {
  mli_lut l; std::vector<uint8_t> mem; int cap; size_t pad = 32; mli_status st;
  Lut(LutSize sz, LutCreate cr, int extra = 0) {
    memset(&l, 0, sizeof l); cap = sz();
    mem.resize(cap + extra + 2 * pad + 4); for (size_t i = 0; i < mem.size(); i++) mem[i] = canary(i);
    l.data.mem.pi16 = (int16_t *)base(); l.data.capacity = cap + extra;
    st = cr(&l);
  }
  Lut(const Lut &) = delete;
  uint8_t *base() { return (uint8_t *)(((uintptr_t)mem.data() + pad + 3) & ~(uintptr_t)3); }
  i64 d(i64 i) const { return l.data.mem.pi16[i]; }
  bool guardsIntact(ssize_t *where) {
    size_t b = base() - mem.data(); for (size_t i = 0; i < mem.size(); i++) if ((i < b || i >= b + cap) && mem[i] != canary(i)) { *where = (ssize_t)i - (ssize_t)b; return false; }
    return true;
  }
};
// value of the table, linearly interpolated, at x / 2^frac (16-bit result)
inline i64 interp(const Lut &t, i64 x, int frac) {
  int sh = frac - t.l.in_frac_bits; i64 L = t.l.length, off = t.l.input_offset;
  if (sh <= 0) return t.d(clampi(satn((i128)x * ((i64)1 << -sh), 32) + off, 0, L - 1));
  if (sh > 15) { x = x >> std::min(sh - 15, 15); sh = 15; }
  i64 i = clampi((x >> sh) + off, 0, L - 2), fr = x & (((i64)1 << sh) - 1);
  return t.d(i) - shr((t.d(i) - t.d(i + 1)) * fr, sh, 32);
}
