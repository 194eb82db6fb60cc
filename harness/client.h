// Common part of the test families: the library's own headers over the simulated Win32 layer.
#pragma once
#include <windows.h>
#include "pthread.h"
#include "sched.h"
#include "semaphore.h"
#include "h.h"
#define MS 10000LL               // FILETIME units in a millisecond
#define EPOCH 116444736000000000LL
typedef long long i64; typedef unsigned long long u64;
#define FN(name) (fstate[sim_cur()].fn = (name))
#define FIX(idx) (fstate[sim_cur()].op = (idx))
// evaluate a library call with the fiber labelled
#define CALL(name, expr) ({ FN(#name); auto _r = (expr); FN("-"); _r; })
#define ERRNO (*sim_errno_location())
static inline struct timespec ts_of(i64 ft) { struct timespec t; i64 v = ft - EPOCH; i64 s = v / 10000000, r = v % 10000000; if (r < 0) { r += 10000000; s--; } t.tv_sec = s; t.tv_nsec = (int)(r * 100); return t; }
static inline i64 ft_of(const struct timespec &t) { return EPOCH + (i64)t.tv_sec * 10000000 + (t.tv_nsec + 99) / 100; }
#define EXPECT(cond, kind, ...) do { if (!(cond)) sim_fail(kind, __VA_ARGS__); } while (0)
// stop everything and release the library; check that nothing is left
static inline void leak_check(void) {
  if (!g_leakcheck) return;
  if (sim_live_blocks() || sim_live_handles() || sim_live_tls()) { char b[300]; sim_leak_report(b, sizeof b); sim_fail("leak", "after everything was destroyed and the library detached: %d blocks, %d handles, %d thread-local slots:%s", sim_live_blocks(), sim_live_handles(), sim_live_tls(), b); }
}
