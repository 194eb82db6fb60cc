// Long histories: hundreds of threads come and go in one process, so that identities, sequence numbers, recycled thread
// blocks and the counters of long-lived objects are exercised far beyond what a short program reaches.
#include "client.h"
#include <stdio.h>
#include <stdlib.h>
#include <unordered_set>
enum { H_CREATE, H_JOIN, H_TRYJOIN, H_TIMEDJOIN, H_DETACH, H_CANCEL, H_STALE, H_QUIET, H_ID, NOPS };
static const char *names[] = {"create", "join", "tryjoin", "timedjoin", "detach", "cancel", "stale", "quiet", "identities"};
static const char *opname(int c) { return c >= 0 && c < NOPS ? names[c] : "?"; }
enum { J_RET, J_EXIT, J_GATE, J_KEYS, J_ROBUST, J_LOCK, J_DELAY, J_SELFDET, J_COND, J_RW, J_SEM, J_CLEAN, NJ };
static const char *jobs[] = {"return", "exit", "gate", "keys", "die owning", "lock", "delay", "self-detach", "cond", "rwlock", "sem", "cleanup"};
enum { PR_HIST = 40, PR_LEAK = 41 };
enum { MAXI = 80000, MAXLIVE = 16, NK = 3, JOINABLE = 0, DETACHED = 1, GONE = 2 };
// cfg: 0 rounds, 1 seed of the jobs, 2 destructor mask, 3 simple (only short jobs), 4 limit of live threads
struct Inst { pthread_t id; u64 uniq; void *value; int fib; unsigned gen; unsigned char job, det, raw; bool known, started, ended, cancelled, selfdet, handler; unsigned char set, got; u64 seqset; };
struct HW { const Prog *p; Inst *in; int ni; int live[64], nl; int peak, need; pthread_key_t key[NK]; bool dtor[NK]; sem_t gate, sm; pthread_mutex_t rm, mx; pthread_cond_t cv; pthread_rwlock_t rw; int rmowner; bool rmdead; int rwr, rww, mxowner; int base_b, base_h; Rng *r; std::unordered_set<u64> *ids, *seqs; int quiets; i64 slack; };
static HW *W;
static bool fdone(int j) { Inst &x = W->in[j]; return x.ended || (x.started && (sim_fiber_gen(x.fib) != x.gen || sim_fiber_done(x.fib))); }
static void uniq_check(int j) { // no identity and no sequence number comes back
  HW &w = *W; Inst &x = w.in[j]; static_assert(sizeof(pthread_t) <= 16, "identity"); u64 f[2] = {0, 0}; memcpy(f, &x.id, sizeof x.id < 16 ? sizeof x.id : 16); 
  bool dup = !w.ids->insert(f[0] * 0x9E3779B97F4A7C15ull ^ (u64)(unsigned)f[1]).second; int lim = w.ni < 200 ? 0 : w.ni - 60;
  for (int k = 0; k < w.ni; k++) { if (!dup && k >= 100 && k < lim) k = lim; if (k == j || !w.in[k].known) continue; EXPECT(!pthread_equal(w.in[k].id, x.id), "identity", "thread %d has the identity that thread %d had", j, k); }
}
static void seq_check(int j) { HW &w = *W; Inst &x = w.in[j]; u64 u = pthread_getunique_np(x.id); x.uniq = u; if (!w.seqs->insert(u).second) for (int k = 0; k < w.ni; k++) EXPECT(k == j || !w.in[k].started || w.in[k].uniq != u, "identity", "threads %d and %d have the same sequence number %llu", k, j, u); }
struct Tok { int inst, k; int state; };
static void dtor(void *p) { Tok *t = (Tok *)p; EXPECT(t && t->inst >= 0 && t->inst < W->ni, "destructor", "destructor called with something that was never set"); Inst &x = W->in[t->inst]; EXPECT(t->state == 1, "destructor", "destructor called twice for one value"); t->state = 2; EXPECT((x.fib == sim_cur() && x.gen == sim_fiber_gen(sim_cur())), "destructor", "destructor called in another thread"); x.got |= 1 << t->k; label("destructor"); }
static Tok toks[160][NK];
static void lockr(int i, bool die) { HW &w = *W; int r = CALL(pthread_mutex_lock, pthread_mutex_lock(&w.rm)); EXPECT(r == 0 || r == EOWNERDEAD, "result", "lock of a robust mutex returned %s", ename(r)); EXPECT(w.rmowner < 0, "exclusion", "two threads own the robust mutex"); EXPECT((r == EOWNERDEAD) == w.rmdead, "robust", w.rmdead ? "the owner died and lock returned 0" : "lock returned EOWNERDEAD but no owner died"); w.rmdead = false; if (r) { r = CALL(pthread_mutex_consistent, pthread_mutex_consistent(&w.rm)); EXPECT(r == 0, "result", "consistent %s", ename(r)); label("recovered"); }
  w.rmowner = i; sim_point(); EXPECT(w.rmowner == i, "exclusion", "two threads own the robust mutex"); w.rmowner = -1; if (die) { w.rmdead = true; return; } r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(&w.rm)); EXPECT(r == 0, "result", "unlock %s", ename(r)); }
static void lockm(int i) { HW &w = *W; int r = CALL(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); EXPECT(r == 0, "result", "mutex_lock %s", ename(r)); EXPECT(w.mxowner < 0, "exclusion", "two threads own the mutex"); w.mxowner = i; sim_point(); }
static void unlockm(int i) { HW &w = *W; EXPECT(w.mxowner == i, "exclusion", "two threads own the mutex"); w.mxowner = -1; int r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); EXPECT(r == 0, "result", "mutex_unlock %s", ename(r)); }
static void handler(void *a) { Inst &x = W->in[(int)(size_t)a]; EXPECT(!x.handler, "cleanup", "a cleanup handler ran twice"); EXPECT(x.fib == sim_cur(), "cleanup", "a cleanup handler ran in another thread"); x.handler = true; }
static void cvh(void *a) { unlockm((int)(size_t)a); }
static void cvback(int i) { W->mxowner = i; }
static void jobbody(int i) {
  HW &w = *W; Inst &x = w.in[i]; int r; int job = x.job;
  switch (job) {
  case J_GATE: r = CALL(sem_wait, sem_wait(&w.gate)); EXPECT(r == 0, "result", "sem_wait failed with %s", ename(ERRNO)); break;
  case J_KEYS: for (int k = 0; k < NK; k++) { void *v = CALL(pthread_getspecific, pthread_getspecific(w.key[k])); EXPECT(!v, "tsd", "a new thread finds a value under key %d", k); if ((i * 7 + k * 3) % 4 == 0) continue; Tok &t = toks[x.fib][k]; t.inst = i; t.k = k; t.state = 1; r = CALL(pthread_setspecific, pthread_setspecific(w.key[k], &t)); EXPECT(r == 0, "result", "setspecific %s", ename(r)); x.set |= 1 << k; v = CALL(pthread_getspecific, pthread_getspecific(w.key[k])); EXPECT(v == &t, "tsd", "getspecific does not give the value just set"); } break;
  case J_LOCK: lockr(i, false); lockm(i); unlockm(i); break;
  case J_DELAY: { struct timespec ts = {0, 1500000}; i64 a = sim_now() + 15000; r = CALL(pthread_delay_np, pthread_delay_np(&ts)); EXPECT(r == 0, "result", "delay %s", ename(r)); EXPECT((i64)sim_now() >= a, "early-timeout", "a delay ended early"); break; }
  case J_COND: { lockm(i); struct timespec ts = ts_of((i64)sim_now() + 20000); pthread_cleanup_push(cvh, (void *)(size_t)i); w.mxowner = -1; // the handler runs with the mutex held again
      FN("pthread_cond_timedwait"); 
      struct Back { int i; ~Back() { } } b = {i}; (void)b; pthread_cleanup_push((void (*)(void *))cvback, (void *)(size_t)i); r = pthread_cond_timedwait(&w.cv, &w.mx, &ts); FN("-"); pthread_cleanup_pop(1); EXPECT(r == 0 || r == ETIMEDOUT, "result", "cond_timedwait %s", ename(r)); pthread_cleanup_pop(1); if ((i & 3) == 0) { r = CALL(pthread_cond_broadcast, pthread_cond_broadcast(&w.cv)); EXPECT(r == 0, "result", "broadcast %s", ename(r)); } else if (i & 1) { r = CALL(pthread_cond_signal, pthread_cond_signal(&w.cv)); EXPECT(r == 0, "result", "signal %s", ename(r)); } break; }
  case J_RW: { struct timespec ts = ts_of((i64)sim_now() + 15000); int st; CALL(pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st)); if (i % 3) { r = CALL(pthread_rwlock_timedrdlock, pthread_rwlock_timedrdlock(&w.rw, &ts)); EXPECT(r == 0 || r == ETIMEDOUT, "result", "timedrdlock %s", ename(r)); if (!r) { EXPECT(!w.rww, "exclusion", "a reader beside a writer"); w.rwr++; struct timespec d = {0, (i & 1) ? 3000000 : 1000}; if (i % 5 == 0) CALL(pthread_delay_np, pthread_delay_np(&d)); w.rwr--; r = CALL(pthread_rwlock_unlock, pthread_rwlock_unlock(&w.rw)); EXPECT(r == 0, "result", "unlock %s", ename(r)); } }
      else { r = CALL(pthread_rwlock_timedwrlock, pthread_rwlock_timedwrlock(&w.rw, &ts)); EXPECT(r == 0 || r == ETIMEDOUT, "result", "timedwrlock %s", ename(r)); if (!r) { EXPECT(!w.rww && !w.rwr, "exclusion", "a writer beside others"); w.rww++; struct timespec d = {0, 2500000}; if (i % 2) CALL(pthread_delay_np, pthread_delay_np(&d)); EXPECT(w.rww == 1 && !w.rwr, "exclusion", "a writer beside others"); w.rww--; r = CALL(pthread_rwlock_unlock, pthread_rwlock_unlock(&w.rw)); EXPECT(r == 0, "result", "unlock %s", ename(r)); } }
      CALL(pthread_setcancelstate, pthread_setcancelstate(st, 0)); break; }
  case J_SEM: { struct timespec ts = ts_of((i64)sim_now() + 15000); r = CALL(sem_timedwait, sem_timedwait(&w.sm, &ts)); int e = ERRNO; EXPECT(r == 0 || e == ETIMEDOUT, "result", "sem_timedwait %s", ename(e)); if (!r || i % 4 == 0) { r = CALL(sem_post, sem_post(&w.sm)); EXPECT(r == 0, "result", "sem_post %s", ename(ERRNO)); } break; }
  case J_CLEAN: pthread_cleanup_push(handler, (void *)(size_t)i); r = CALL(sem_wait, sem_wait(&w.gate)); EXPECT(r == 0, "result", "sem_wait failed with %s", ename(ERRNO)); pthread_cleanup_pop(1); break;
  case J_SELFDET: r = CALL(pthread_detach, pthread_detach(x.id)); EXPECT(r == 0, "result", "self-detach %s", ename(r)); break;
  }
}
static void enter(int i) { HW &w = *W; Inst &x = w.in[i]; EXPECT(!x.started, "create", "the start routine ran twice"); x.fib = sim_cur(); x.gen = sim_fiber_gen(x.fib); fstate[x.fib].thr = i; fstate[x.fib].op = x.job; x.started = true; pthread_t s = CALL(pthread_self, pthread_self()); if (x.known) EXPECT(pthread_equal(s, x.id), "identity", "pthread_self differs from the identity pthread_create gave"); else { x.id = s; x.known = true; uniq_check(i); } seq_check(i); }
static void *thread_main(void *a) {
  int i = (int)(size_t)a; EXPECT(i >= 0 && i < W->ni, "create", "start routine called with a wrong argument"); enter(i); Inst &x = W->in[i]; jobbody(i);
  if (x.job == J_ROBUST) lockr(i, true); if (x.job == J_EXIT) { FN("pthread_exit"); pthread_exit(x.value); } FN("-"); return x.value; }
static unsigned raw_main(void *a) { int i = (int)(size_t)a; enter(i); jobbody(i); FN("thread_detach_np"); pthread_win32_thread_detach_np(); FN("-"); return 0; }
static void start(int job, int how) { // how: 0 joinable, 1 detached by attribute, 2 raw
  HW &w = *W; if (w.ni >= MAXI) return; int i = w.ni++; Inst &x = w.in[i]; memset(&x, 0, sizeof x); x.fib = -1; x.job = job; x.raw = how == 2; x.det = how ? DETACHED : JOINABLE; x.value = (void *)(size_t)(0x1000 + i); int r;
  if (how == 2 && (job == J_EXIT || job == J_SELFDET || job == J_ROBUST)) x.job = J_RET; if (x.job == J_SELFDET && how) x.job = J_RET; if (x.job == J_SELFDET) { x.selfdet = true; x.det = DETACHED; }
  w.live[w.nl++] = i; if (w.nl > w.peak) w.peak = w.nl; if (x.job == J_GATE || x.job == J_CLEAN) w.need++; label(jobs[x.job]);
  if (how == 2) { DWORD id; sim_user_region(1); HANDLE t = CreateThread(0, 0, (LPTHREAD_START_ROUTINE)raw_main, (void *)(size_t)i, 0, &id); CloseHandle(t); sim_user_region(0); return; }
  pthread_attr_t a, *pa = 0; if (how == 1) { pa = &a; r = CALL(pthread_attr_init, pthread_attr_init(&a)); EXPECT(r == 0, "result", "attr_init %s", ename(r)); r = pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); EXPECT(r == 0, "result", "setdetachstate %s", ename(r)); }
  sim_user_region(0); pthread_t *slot = &w.in[i].id; pthread_t id; r = CALL(pthread_create, pthread_create(&id, pa, thread_main, (void *)(size_t)i)); EXPECT(r == 0, "result", "pthread_create of thread %d returned %s", i, ename(r)); if (pa) { r = CALL(pthread_attr_destroy, pthread_attr_destroy(&a)); EXPECT(r == 0, "result", "attr_destroy %s", ename(r)); }
  if (x.known) EXPECT(pthread_equal(x.id, id), "identity", "pthread_create gave another identity than the thread has"); else { *slot = id; x.known = true; uniq_check(i); } }
static void post_all(void) { HW &w = *W; while (w.need) { w.need--; int r = CALL(sem_post, sem_post(&w.gate)); EXPECT(r == 0, "result", "sem_post %s", ename(ERRNO)); } }
static void reclaimed(int i) { HW &w = *W; Inst &x = w.in[i]; x.ended = true; for (int k = 0; k < NK; k++) if (w.dtor[k] && (x.set >> k & 1)) EXPECT(x.got >> k & 1, "destructor", "thread %d ended and no destructor was called for its value of key %d", i, k); if (x.job == J_CLEAN && !(x.raw && g_flavour)) EXPECT(x.handler, "cleanup", "thread %d ended and its cleanup handler did not run", i); x.det = GONE; for (int k = 0; k < w.nl; k++) if (w.live[k] == i) { w.live[k] = w.live[--w.nl]; break; } }
static void stale(int i) { Inst &x = W->in[i]; if (x.det != GONE || !x.known) return; int r; r = CALL(pthread_kill, pthread_kill(x.id, 0)); EXPECT(r == ESRCH, "stale", "pthread_kill of the ended thread %d returned %s", i, ename(r)); r = CALL(pthread_cancel, pthread_cancel(x.id)); EXPECT(r == ESRCH, "stale", "pthread_cancel of the ended thread %d returned %s", i, ename(r)); r = CALL(pthread_detach, pthread_detach(x.id)); EXPECT(r == ESRCH, "stale", "pthread_detach of the ended thread %d returned %s", i, ename(r)); r = CALL(pthread_tryjoin_np, pthread_tryjoin_np(x.id, 0)); EXPECT(r == ESRCH, "stale", "pthread_tryjoin_np of the ended thread %d returned %s", i, ename(r)); r = CALL(pthread_join, pthread_join(x.id, 0)); EXPECT(r == ESRCH, "stale", "pthread_join of the ended thread %d returned %s", i, ename(r)); label("stale"); }
static void joined(int i, void *v) { Inst &x = W->in[i]; EXPECT(v == x.value || (x.cancelled && v == PTHREAD_CANCELED), "join", "join of thread %d gave %p instead of %p", i, v, x.value); if (v == PTHREAD_CANCELED) label("cancelled"); 
  // the thread's last instruction may still be under way; what it owed must have happened
  reclaimed(i); }
static void quiet(void) {
  HW &w = *W; post_all(); FN("quiet"); sim_wait_quiet(); FN("-"); for (int k = 0; k < w.nl;) { int i = w.live[k]; Inst &x = w.in[i]; EXPECT(x.started, "create", "the start routine of thread %d never ran", i); EXPECT(fdone(i), "stranded", "thread %d (%s) never ends", i, jobs[x.job]); if (x.det == DETACHED) reclaimed(i); else k++; }
  while (w.nl) { int i = w.live[0]; void *v = 0; int r = i & 1 ? CALL(pthread_join, pthread_join(w.in[i].id, &v)) : CALL(pthread_tryjoin_np, pthread_tryjoin_np(w.in[i].id, &v)); EXPECT(r == 0, "result", "join of the ended thread %d returned %s", i, ename(r)); joined(i, v); }
  while (CALL(sem_trywait, sem_trywait(&w.gate)) == 0) {} w.quiets++;
  if (w.rmdead) lockr(-2, false);
  int b = sim_live_blocks() - w.base_b, h = sim_live_handles() - w.base_h; EXPECT(b <= 4 * w.peak + 8, "growth", "after %d threads, at most %d of them at a time, the library still has %d blocks more than at the start", w.ni, w.peak, b); EXPECT(h <= 4 * w.peak + 8, "growth", "after %d threads, at most %d of them at a time, the library still has %d handles more than at the start", w.ni, w.peak, h);
  label("zero-population"); if (w.ni > 256) label("more-than-256-threads"); if (w.ni > 65536) label("more-than-65536-threads"); nontriv(); }
static int pickl(Rng &r) { HW &w = *W; return w.nl ? w.live[r.n(w.nl)] : -1; }
static void step(const Op &o, Rng &r) {
  HW &w = *W; int res; int lim = w.p->cfg[4] < 1 ? 1 : w.p->cfg[4] > MAXLIVE ? MAXLIVE : w.p->cfg[4];
  switch (o.c) {
  case H_CREATE: { for (int k = 0; k < w.nl;) { int i = w.live[k]; if (w.in[i].det == DETACHED && fdone(i)) reclaimed(i); else k++; } if (w.nl >= lim) { if (o.b & 1) quiet(); else { post_all(); int i = -1; for (int k = 0; k < w.nl; k++) if (w.in[w.live[k]].det == JOINABLE) { i = w.live[k]; break; } if (i < 0) quiet(); else { void *v; res = CALL(pthread_join, pthread_join(w.in[i].id, &v)); EXPECT(res == 0, "result", "join of thread %d returned %s", i, ename(res)); joined(i, v); } } }
      static const int simple[] = {J_RET, J_RET, J_EXIT, J_KEYS, J_LOCK}; int job = w.p->cfg[3] == 1 ? simple[r.n(5)] : w.p->cfg[3] == 2 ? J_RET : r.n(NJ); int how = w.p->cfg[3] == 2 ? 0 : o.d == 0 ? 0 : r.n(8) < 5 ? 0 : r.n(3); start(job, how); break; }
  case H_JOIN: case H_TRYJOIN: case H_TIMEDJOIN: { int i = pickl(r); if (i < 0 || w.in[i].det != JOINABLE) return; void *v = (void *)0x55; bool d = fdone(i); int f0;
      if (o.c == H_JOIN) { post_all(); res = CALL(pthread_join, pthread_join(w.in[i].id, &v)); EXPECT(res == 0, "result", "join of thread %d returned %s", i, ename(res)); joined(i, v); }
      else if (o.c == H_TRYJOIN) { res = CALL(pthread_tryjoin_np, pthread_tryjoin_np(w.in[i].id, &v)); EXPECT(res == 0 || (res == EBUSY && !d), "result", "tryjoin of %s thread %d returned %s", d ? "the ended" : "the running", i, ename(res)); if (!res) joined(i, v); }
      else { i64 a = (i64)sim_now() + 12000; f0 = 0; (void)f0; struct timespec ts = ts_of(a); res = CALL(pthread_timedjoin_np, pthread_timedjoin_np(w.in[i].id, &v, &ts)); EXPECT(res == 0 || (res == ETIMEDOUT && !d), "result", "timedjoin of %s thread %d returned %s", d ? "the ended" : "the running", i, ename(res)); if (!res) joined(i, v); else EXPECT((i64)sim_now() >= a, "early-timeout", "timedjoin timed out early"); }
      break; }
  case H_DETACH: { int i = pickl(r); if (i < 0 || w.in[i].det != JOINABLE) return; res = CALL(pthread_detach, pthread_detach(w.in[i].id)); EXPECT(res == 0, "result", "detach of thread %d returned %s", i, ename(res)); w.in[i].det = DETACHED; break; }
  case H_CANCEL: { int i = pickl(r); if (i < 0 || w.in[i].det != JOINABLE || w.in[i].raw) return; w.in[i].cancelled = true; res = CALL(pthread_cancel, pthread_cancel(w.in[i].id)); EXPECT(res == 0 || res == ESRCH, "result", "cancel of thread %d returned %s", i, ename(res)); break; }
  case H_STALE: if (w.ni) stale(r.n(w.ni)); if (w.ni) stale(w.ni - 1 - r.n(w.ni < 8 ? w.ni : 8)); break;
  case H_QUIET: quiet(); break;
  case H_ID: { int i = pickl(r); if (i < 0 || !w.in[i].known || w.in[i].det != JOINABLE) return; for (int k = 0; k < 6; k++) { int j = r.n(w.ni); if (j != i && w.in[j].known) EXPECT(!pthread_equal(w.in[i].id, w.in[j].id), "identity", "threads %d and %d have the same identity", i, j); } break; }
  }
}
static void run(const Prog &p) {
  static HW world; static Inst *table = (Inst *)calloc(MAXI, sizeof(Inst)); static std::unordered_set<u64> ids, seqs; ids.clear(); seqs.clear(); memset(&world, 0, sizeof world); W = &world; HW &w = world; w.p = &p; w.in = table; w.ids = &ids; w.seqs = &seqs; w.rmowner = w.mxowner = -1; w.slack = 30 * MS; int r;
  int rounds = p.cfg[0] < 0 ? 0 : p.cfg[0]; sim_recycle(1); sim_long(60000u + (uint32_t)rounds * 4000u > 80000000u ? 80000000u : 60000u + (uint32_t)rounds * 4000u); Rng rng((u64)(unsigned)p.cfg[1]);
  fstate[0].thr = 99; FN("setup"); sim_lib_ctors();
  r = CALL(sem_init, sem_init(&w.gate, 0, 0)); EXPECT(r == 0, "result", "sem_init"); r = CALL(sem_init, sem_init(&w.sm, 0, 1)); EXPECT(r == 0, "result", "sem_init");
  pthread_mutexattr_t ma; r = CALL(pthread_mutexattr_init, pthread_mutexattr_init(&ma)); EXPECT(r == 0, "result", "mutexattr_init"); r = CALL(pthread_mutexattr_setrobust, pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST)); EXPECT(r == 0, "result", "setrobust"); r = CALL(pthread_mutex_init, pthread_mutex_init(&w.rm, &ma)); EXPECT(r == 0, "result", "mutex_init"); r = CALL(pthread_mutexattr_destroy, pthread_mutexattr_destroy(&ma)); EXPECT(r == 0, "result", "mutexattr_destroy");
  r = CALL(pthread_mutex_init, pthread_mutex_init(&w.mx, 0)); EXPECT(r == 0, "result", "mutex_init"); r = CALL(pthread_cond_init, pthread_cond_init(&w.cv, 0)); EXPECT(r == 0, "result", "cond_init"); r = CALL(pthread_rwlock_init, pthread_rwlock_init(&w.rw, 0)); EXPECT(r == 0, "result", "rwlock_init");
  for (int k = 0; k < NK; k++) { w.dtor[k] = p.cfg[2] >> k & 1; r = CALL(pthread_key_create, pthread_key_create(&w.key[k], w.dtor[k] ? dtor : 0)); EXPECT(r == 0, "result", "key_create %s", ename(r)); }
  CALL(pthread_self, pthread_self()); w.base_b = sim_live_blocks(); w.base_h = sim_live_handles(); sim_mark();
  const Thr &t = p.t[0]; for (int n = 0; n < rounds && t.n; n++) for (int q = 0; q < t.n; q++) { FIX(q); step(t.op[q], rng); }
  quiet(); for (int k = 0; k < 10 && w.ni; k++) stale(rng.n(w.ni)); FN("final");
  for (int k = 0; k < NK; k++) { r = CALL(pthread_key_delete, pthread_key_delete(w.key[k])); EXPECT(r == 0, "result", "key_delete %s", ename(r)); }
  r = CALL(pthread_cond_destroy, pthread_cond_destroy(&w.cv)); EXPECT(r == 0, "result", "cond_destroy %s", ename(r)); r = CALL(pthread_rwlock_destroy, pthread_rwlock_destroy(&w.rw)); EXPECT(r == 0, "result", "rwlock_destroy %s", ename(r)); r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(&w.mx)); EXPECT(r == 0, "result", "mutex_destroy %s", ename(r)); r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(&w.rm)); EXPECT(r == 0, "result", "mutex_destroy of the robust mutex %s", ename(r));
  r = CALL(sem_destroy, sem_destroy(&w.gate)); EXPECT(r == 0, "result", "sem_destroy %s", ename(ERRNO)); r = CALL(sem_destroy, sem_destroy(&w.sm)); EXPECT(r == 0, "result", "sem_destroy %s", ename(ERRNO));
  sim_lib_dtors(); leak_check(); }
static void gen(Rng &r, Prog &p, int prof) {
  p.nt = 1; int *c = p.cfg; c[1] = r.n(1 << 30); c[2] = r.n(8) | 1; c[4] = r.r(1, 10); int big = r.n(400); c[0] = big < 4 ? r.r(100, 500) : r.r(1, 6); c[3] = big < 4 ? 1 : r.p(1, 4) ? 1 : 0; if (big == 399) { c[0] = 1000; c[3] = 1; }
  Thr &t = p.t[0]; int n = r.r(2, 14); bool need = true; while (n-- || need) { if (t.n >= MAXOPS) break; Op &o = t.op[t.n++]; static const int ops[] = {H_CREATE, H_CREATE, H_CREATE, H_CREATE, H_JOIN, H_JOIN, H_TRYJOIN, H_TIMEDJOIN, H_DETACH, H_CANCEL, H_STALE, H_ID, H_QUIET}; o.c = r.pick(ops); if (o.c == H_CREATE) need = false; o.a = 0; o.b = r.n(4); o.d = r.n(4); }
  if (prof == PR_HIST && r.p(1, 3000)) { c[0] = 66000; c[3] = 2; c[4] = r.r(1, 4); t.n = r.r(2, 3); for (int k = 0; k < t.n; k++) { t.op[k].c = k ? H_JOIN : H_CREATE; } if (t.n == 3) t.op[2].c = r.p(1, 2) ? H_STALE : H_ID; } }
static RegF reg({"hist", gen, run, opname});
static RegP p12("C12", "hist", PR_HIST, 1, 1), p22("C22", "hist", PR_LEAK, 1, 1), p11("C11", "hist", PR_LEAK, 1, 1);
