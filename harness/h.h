// Shared by the explorer (core.cpp) and the test families.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "sim.h"
enum { MAXT = 8, MAXOPS = 40, NCFG = 40 };
struct Op { int16_t c; int16_t a; int32_t b, d; };
struct Thr { int n; Op op[MAXOPS]; };
struct Prog { int fam, prof; int cfg[NCFG]; int nt; Thr t[MAXT];
  // environment
  int wake, tick, startsel, ncpu; };
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull) { for (int i = 0; i < 3; i++) next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int n(int k) { return k <= 1 ? 0 : (int)((next() >> 20) % (uint64_t)k); }
  int r(int lo, int hi) { return lo + n(hi - lo + 1); }
  bool p(int num, int den) { return n(den) < num; }
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[n((int)N)]; } };
struct Family { const char *name; void (*gen)(Rng &, Prog &, int prof); void (*run)(const Prog &); const char *(*opname)(int); };
struct PropMap { const char *prop; const char *fam; int prof; int weight; };
void reg_family(const Family &f);
void reg_prop(const char *prop, const char *fam, int prof, int weight, int leak);
struct RegF { RegF(const Family &f) { reg_family(f); } };
struct RegP { RegP(const char *p, const char *f, int prof, int w = 1, int leak = 0) { reg_prop(p, f, prof, w, leak); } };
// per-case state
void label(const char *s);     // classification of the case
void nontriv(void);
extern int g_leakcheck;        // this property includes resource conservation
extern int g_flavour;          // 0 C cleanup, 1 C++ cleanup
struct FState { const char *fn; int op, arg; int thr; };
extern FState fstate[160];
const char *ename(int e);
