// Interface of one build of the library, packed with the call registry into a shared object (C31).
#pragma once
#include <cstdint>
struct BQ { int kind = 0, fam = 0, var = 0, seed = 1, data = 0, style[16] = {0}, place[16] = {0}; int geo[16] = {0}, index = 0; };
struct BR { int status = 0, tol = 0; char name[240]; int n = 0; uint64_t desc = 0, mem = 0, elems = 0; enum { CAP = 40000 }; int64_t v[CAP]; };
typedef int (*BuildFn)(const BQ *, BR *);   // 0: no such call
