// Crowds: many more participants than a short program has (up to 60 threads on one object, 100 keys, 40 robust mutexes, deep
// recursion and deep cleanup stacks), each doing something simple, so that every count is known exactly.
#include "client.h"
#include <stdio.h>
enum { G_MUTEX, G_SEM, G_COND, G_RW, G_BARRIER, G_SPIN, G_ONCE, G_KEYS, G_JOIN, G_CLEANUP, G_ROBUST, G_CANCEL, G_STATIC, NK };
static const char *names[] = {"mutex", "semaphore", "condition", "rwlock", "barrier", "spin", "once", "keys", "join", "cleanup", "robust", "cancel", "static"};
static const char *opname(int) { return "act"; }
enum { MAXN = 140, MAXK = 112, MAXM = 40, MAXD = 160 };
// cfg: 0 kind, 1 threads, 2 variant, 3 rounds or depth, 4 seed, 5 leave by 0 return 1 exit 2 cancel, 6 timed threads
struct Tok { int i, k, state, runs; };
struct CW { const Prog *p; int kind, n, var, rounds; Rng *r; pthread_t id[MAXN]; int fib[MAXN]; bool done[MAXN], started[MAXN]; int phase; i64 slack;
  pthread_mutex_t mx, rm[MAXM]; int owner, rowner[MAXM], rstate[MAXM]; sem_t sm; pthread_cond_t cv; pthread_rwlock_t rw; pthread_barrier_t ba; pthread_spinlock_t sp; pthread_once_t once[4]; pthread_key_t key[MAXK]; int nkey;
  int in, wr, back[MAXN], total, got, timedout, posted, ncount, nsig, arrived[8], serial[8], left[8], ran[4], odone[4]; bool waiting[MAXN]; int hnext[MAXN], depth[MAXN]; int joined[MAXN], claimed[MAXN]; bool deleted[MAXK]; int wexcl; bool cancelled[MAXN]; };
static CW *W; static Tok tok[MAXN][MAXK];
static int phase1(void *) { return W->phase >= 1; }
static int phase2(void *) { return W->phase >= 2; }
static int phase3(void *) { return W->phase >= 3; }
static void *value(int i) { return (void *)(size_t)(0x4000 + i); }
#define OK(name, expr) do { int r_ = CALL(name, expr); EXPECT(r_ == 0, "result", #name " returned %s", ename(r_)); } while (0)
static bool timed(int i) { return W->p->cfg[6] && i % W->p->cfg[6] == 0; }
static void own(int i) { EXPECT(W->owner < 0, "exclusion", "threads %d and %d own the mutex", W->owner, i); W->owner = i; }
static void disown(int i) { EXPECT(W->owner == i, "exclusion", "threads %d and %d own the mutex", W->owner, i); W->owner = -1; }
static void unlockh(void *a) { int i = (int)(size_t)a; own(i); disown(i); int r = pthread_mutex_unlock(&W->mx); EXPECT(r == 0, "result", "the mutex is not owned by a cancelled waiter: unlock gave %s", ename(r)); }
static void b_mutex(int i) {
  CW &w = *W; int rec = w.var % 4 == PTHREAD_MUTEX_RECURSIVE ? 1 + w.p->cfg[3] * 5 : 1, r;
  for (int k = 0; k < w.rounds; k++) { 
    if (timed(i) && !k) { struct timespec ts = ts_of((i64)sim_now() + 20000 * (1 + i % 3)); i64 a = ft_of(ts); r = CALL(pthread_mutex_timedlock, pthread_mutex_timedlock(&w.mx, &ts)); if (r == ETIMEDOUT) { EXPECT((i64)sim_now() >= a, "early-timeout", "timedlock gave up early"); w.timedout++; continue; } EXPECT(r == 0, "result", "timedlock %s", ename(r)); }
    else { if (i % 4 == 3) { r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(&w.mx)); EXPECT(r == 0 || (r == EBUSY), "result", "trylock %s", ename(r)); } else r = EBUSY; if (r) OK(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); }
    own(i); for (int d = 1; d < rec; d++) { if (d & 1) OK(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); else OK(pthread_mutex_trylock, pthread_mutex_trylock(&w.mx)); }
    sim_point(); for (int d = 1; d < rec; d++) { OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); EXPECT(w.owner == i, "exclusion", "thread %d came in before the last unlock of a recursive mutex", w.owner); }
    w.total++; disown(i); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); } }
static void b_sem(int i) {
  CW &w = *W; int r; if (timed(i)) { struct timespec ts = ts_of((i64)sim_now() + 20000 * (1 + i % 3)); i64 a = ft_of(ts); r = CALL(sem_timedwait, sem_timedwait(&w.sm, &ts)); int e = ERRNO; if (r) { EXPECT(e == ETIMEDOUT, "result", "sem_timedwait failed with %s", ename(e)); EXPECT((i64)sim_now() >= a, "early-timeout", "sem_timedwait gave up early"); w.timedout++; return; } }
  else { r = CALL(sem_wait, sem_wait(&w.sm)); EXPECT(r == 0, "result", "sem_wait failed with %s", ename(ERRNO)); }
  w.got++; EXPECT(w.got <= w.posted, "conservation", "%d waits succeeded and %d units were posted", w.got, w.posted); }
static void b_cond(int i) {
  CW &w = *W; int r; for (int k = 0; k < w.rounds; k++) { OK(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); own(i); w.waiting[i] = true; w.ncount++; disown(i);
    if (timed(i) && !k) { struct timespec ts = ts_of((i64)sim_now() + 20000 * (1 + i % 3)); i64 a = ft_of(ts); r = CALL(pthread_cond_timedwait, pthread_cond_timedwait(&w.cv, &w.mx, &ts)); EXPECT(r == 0 || r == ETIMEDOUT, "result", "cond_timedwait %s", ename(r)); if (r) { EXPECT((i64)sim_now() >= a, "early-timeout", "cond_timedwait gave up early"); w.timedout++; } }
    else { r = CALL(pthread_cond_wait, pthread_cond_wait(&w.cv, &w.mx)); EXPECT(r == 0, "result", "cond_wait %s", ename(r)); }
    own(i); w.waiting[i] = false; w.ncount--; w.back[i]++; w.total++; disown(i); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); } }
static void b_rw(int i) {
  CW &w = *W; bool writer = w.var && i % (w.var + 1) == w.var; int r; for (int k = 0; k < w.rounds; k++) {
    if (writer) { if (!k) sim_wait_until(phase2, 0); OK(pthread_rwlock_wrlock, pthread_rwlock_wrlock(&w.rw)); EXPECT(!w.in && !w.wr, "exclusion", "a writer entered beside %d readers and %d writers", w.in, w.wr); w.wr++; sim_point(); EXPECT(!w.in && w.wr == 1, "exclusion", "a writer is beside %d readers and %d writers", w.in, w.wr - 1); w.wr--; OK(pthread_rwlock_unlock, pthread_rwlock_unlock(&w.rw)); w.wexcl++; continue; }
    int how = (i + k) % 3; if (how == 1) { r = CALL(pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(&w.rw)); EXPECT(r == 0 || r == EBUSY, "result", "tryrdlock %s", ename(r)); if (r) OK(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&w.rw)); }
    else if (how == 2) { struct timespec ts = ts_of((i64)sim_now() + 36000000000LL); r = CALL(pthread_rwlock_timedrdlock, pthread_rwlock_timedrdlock(&w.rw, &ts)); if (r) { EXPECT(r == ETIMEDOUT && (i64)sim_now() >= ft_of(ts), "result", "timedrdlock %s", ename(r)); OK(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&w.rw)); } } else OK(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&w.rw));
    EXPECT(!w.wr, "exclusion", "a reader entered beside a writer"); w.in++; if (!k) { FN("reading"); sim_wait_until(phase3, 0); FN("-"); } else sim_point(); EXPECT(!w.wr, "exclusion", "a writer entered beside readers"); w.in--; w.total++; OK(pthread_rwlock_unlock, pthread_rwlock_unlock(&w.rw)); } }
static void b_barrier(int) {
  CW &w = *W; for (int k = 0; k < w.rounds; k++) { w.arrived[k]++; int r = CALL(pthread_barrier_wait, pthread_barrier_wait(&w.ba)); EXPECT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "barrier_wait %s", ename(r)); EXPECT(w.arrived[k] == w.n, "barrier", "a thread left the barrier when %d of %d had arrived", w.arrived[k], w.n); if (r) w.serial[k]++; EXPECT(w.serial[k] <= 1, "barrier", "two serial threads in one generation"); w.left[k]++; } }
static void b_spin(int i) {
  CW &w = *W; int r; for (int k = 0; k < w.rounds; k++) { r = EBUSY; if (i % 3 == 2) { r = CALL(pthread_spin_trylock, pthread_spin_trylock(&w.sp)); EXPECT(r == 0 || r == EBUSY, "result", "spin_trylock %s", ename(r)); } if (r) OK(pthread_spin_lock, pthread_spin_lock(&w.sp)); own(i); if ((i + k) % 5 == 0) sim_point(); w.total++; disown(i); OK(pthread_spin_unlock, pthread_spin_unlock(&w.sp)); } }
template <int K> static void once_fn() { CW &w = *W; w.ran[K]++; EXPECT(w.ran[K] == 1, "once", "the routine of once block %d ran twice", K); for (int i = 0; i < 3; i++) sim_point(); if (K == 1) sim_wait_until(phase2, 0); w.odone[K] = 1; }
static void b_once(int i) {
  static void (*const f[4])() = {once_fn<0>, once_fn<1>, once_fn<2>, once_fn<3>}; CW &w = *W; for (int k = 0; k < 4; k++) { int o = w.var & 1 ? (i + k) % 4 : k; OK(pthread_once, pthread_once(&w.once[o], f[o])); EXPECT(w.odone[o], "once", "pthread_once returned before the routine was complete"); w.total++; } }
static void dtor(void *v) { CW &w = *W; Tok *t = (Tok *)v; EXPECT(t >= &tok[0][0] && t < &tok[0][0] + MAXN * MAXK, "destructor", "destructor called with something that was never set"); EXPECT(w.fib[t->i] == sim_cur(), "destructor", "a destructor runs in another thread"); EXPECT(t->state == 1, "destructor", "destructor called twice for a value of thread %d key %d", t->i, t->k); EXPECT(!w.deleted[t->k], "destructor", "destructor of a deleted key called");
  EXPECT(!pthread_getspecific(w.key[t->k]), "destructor", "the key still has its value while the destructor runs"); t->runs++; t->state = 2; w.total++; if (t->runs <= w.rounds && t->k % 3 == 0) { t->state = 1; OK(pthread_setspecific, pthread_setspecific(w.key[t->k], t)); } }
static void b_keys(int i) {
  CW &w = *W; for (int k = 0; k < w.nkey; k++) { EXPECT(!pthread_getspecific(w.key[k]), "tsd", "a new thread finds a value under key %d", k); if ((i * 5 + k * 7) % 4 == 0) continue; OK(pthread_setspecific, pthread_setspecific(w.key[k], &tok[i][k])); tok[i][k].state = 1; }
  for (int k = 0; k < w.nkey; k++) { void *v = pthread_getspecific(w.key[k]); EXPECT(v == (tok[i][k].state ? &tok[i][k] : 0), "tsd", "thread %d finds another value under key %d", i, k); if (tok[i][k].state && (i + k) % 6 == 0) { OK(pthread_setspecific, pthread_setspecific(w.key[k], 0)); tok[i][k].state = 0; } }
  w.in++; sim_wait_until(phase2, 0); }
static void b_join(int i) {
  CW &w = *W; if (i && i % 2 && w.var) { int j = i - 1; w.claimed[j] = 1; if (timed(i)) sim_wait_until(phase2, 0); void *v = 0; OK(pthread_join, pthread_join(w.id[j], &v)); EXPECT(v == value(j), "join", "join of thread %d gave %p", j, v); EXPECT(sim_fiber_done(w.fib[j]), "join", "join returned before the thread had ended"); w.joined[j]++; w.total++; } else if (i % 3 == 0) sim_wait_until(phase2, 0); else sim_point(); }
static void handler(void *a) { CW &w = *W; int i = (int)(size_t)a >> 10, d = (int)(size_t)a & 1023; EXPECT(w.fib[i] == sim_cur(), "cleanup", "a handler runs in another thread"); EXPECT(w.hnext[i] == d, "cleanup", "handler %d of thread %d ran when %d was the innermost", d, i, w.hnext[i]); w.hnext[i]--; w.total++; }
static void __attribute__((noinline)) nest(int i, int d) {
  CW &w = *W; void *volatile a = (void *)((size_t)i << 10 | d); w.hnext[i] = d; pthread_cleanup_push(handler, a);
  if (d < w.depth[i]) nest(i, d + 1); else { int how = (w.p->cfg[5] + i) % 3; if (how == 1) { FN("pthread_exit"); pthread_exit(value(i)); } if (how == 2) { FN("sem_wait"); sem_wait(&w.sm); sim_fail("cancel", "a cancelled wait returned"); } }
  if ((i + d) % 4 == 0) w.hnext[i]--; pthread_cleanup_pop((i + d) % 4 != 0); EXPECT(w.hnext[i] == d - 1, "cleanup", "pop left the stack at %d instead of %d", w.hnext[i], d - 1); }
static void b_cleanup(int i) { W->depth[i] = 1 + (W->p->cfg[3] * (i % 3 + 1)) % MAXD; nest(i, 1); }
static void b_robust(int i) {
  CW &w = *W; int m = w.rounds, r; if (i == 0) { for (int k = 0; k < m; k++) { OK(pthread_mutex_lock, pthread_mutex_lock(&w.rm[k])); w.rowner[k] = 0; if (k % 5 == 4) { OK(pthread_mutex_lock, pthread_mutex_lock(&w.rm[k])); } }
    for (int k = 0; k < m; k++) { int o = w.var & 1 ? m - 1 - k : (k * 7) % m; if (w.rowner[o] == 0 && (o * 3 + w.var) % 4 == 1) { w.rowner[o] = -1; w.rstate[o] = 0; if (o % 5 == 4) OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.rm[o])); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.rm[o])); } }
    for (int k = 0; k < m; k++) if (w.rowner[k] == 0) w.rstate[k] = 1; w.in = 1; sim_wait_until(phase2, 0); for (int k = 0; k < m; k++) if (w.rstate[k] == 1) w.rowner[k] = -2; if (w.p->cfg[5] == 1) { FN("pthread_exit"); pthread_exit(value(i)); } return; }
  sim_wait_until(w.var & 2 ? phase1 : phase2, 0); if (!w.in) FN("waits"); static_assert(MAXM <= 40, ""); while (!w.in) { sim_wait_until([](void *) { return W->in; }, 0); }
  for (int q = 0; q < m; q++) { int k = w.var & 4 ? (q + i * 3) % m : q; r = CALL(pthread_mutex_lock, pthread_mutex_lock(&w.rm[k])); if (r == EOWNERDEAD) { EXPECT(w.rstate[k] == 1 && w.rowner[k] == -2, "robust", "EOWNERDEAD for mutex %d whose owner is not dead", k); w.rstate[k] = 2; w.rowner[k] = i; sim_point(); OK(pthread_mutex_consistent, pthread_mutex_consistent(&w.rm[k])); w.total++; }
    else { EXPECT(r == 0, "result", "lock of a robust mutex returned %s", ename(r)); EXPECT(w.rstate[k] != 1, "robust", "mutex %d was handed on without EOWNERDEAD", k); EXPECT(w.rowner[k] == -1, "exclusion", "two owners of robust mutex %d", k); w.rowner[k] = i; }
    EXPECT(w.rowner[k] == i, "exclusion", "two owners of robust mutex %d", k); w.rowner[k] = -1; OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.rm[k])); } }
static void b_cancel(int i) {
  CW &w = *W; int r; struct timespec far = ts_of((i64)sim_now() + 36000000000LL); if (i % 5 == 4) { OK(pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0)); w.waiting[i] = true; r = CALL(sem_wait, sem_wait(&w.sm)); EXPECT(r == 0, "result", "sem_wait failed with %s", ename(ERRNO)); w.got++; w.back[i] = 1; return; }
  switch ((i + w.var) % 6) { case 0: FN("sem_wait"); sem_wait(&w.sm); break; case 1: FN("sem_timedwait"); sem_timedwait(&w.sm, &far); break;
  case 2: case 3: OK(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); own(i); disown(i); pthread_cleanup_push(unlockh, (void *)(size_t)i); if ((i + w.var) % 6 == 2) { FN("pthread_cond_wait"); pthread_cond_wait(&w.cv, &w.mx); } else { FN("pthread_cond_timedwait"); pthread_cond_timedwait(&w.cv, &w.mx, &far); } pthread_cleanup_pop(0); break;
  case 4: { FN("pthread_delay_np"); struct timespec iv = {3000, 0}; pthread_delay_np(&iv); break; }
  case 5: { int l = (w.n - 1 + w.var) % 6; if (i < 6 && i != w.n - 1 && ((w.n - 1) % 5 == 4 || l == 0 || l == 2 || l == 5)) { FN("pthread_join"); pthread_join(w.id[w.n - 1], 0); } else { FN("sem_wait"); sem_wait(&w.sm); } break; } }
  EXPECT(((i + w.var) % 6 == 1 || (i + w.var) % 6 == 3 || (i + w.var) % 6 == 4) && (i64)sim_now() >= ft_of(far) - ((i + w.var) % 6 == 4 ? 600LL * 10000000 : 0), "cancel", "the wait of thread %d returned though nothing happened but its cancellation", i); if ((i + w.var) % 6 == 3) { own(i); disown(i); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); } w.timedout++; w.back[i] = 1; }
static pthread_mutex_t s_mx; static pthread_rwlock_t s_rw; static pthread_cond_t s_cv; static pthread_spinlock_t s_sp;
static void b_static(int i) {
  CW &w = *W; for (int k = 0; k < 4; k++) switch ((k + i * (w.var & 3)) % 4) {
    case 0: OK(pthread_mutex_lock, pthread_mutex_lock(&s_mx)); own(i); sim_point(); w.total++; disown(i); OK(pthread_mutex_unlock, pthread_mutex_unlock(&s_mx)); break;
    case 1: if (i % 3 == 0) { OK(pthread_rwlock_wrlock, pthread_rwlock_wrlock(&s_rw)); EXPECT(!w.in && !w.wr, "exclusion", "a writer beside others"); w.wr++; sim_point(); EXPECT(!w.in && w.wr == 1, "exclusion", "a writer beside others"); w.wr--; } else { OK(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&s_rw)); EXPECT(!w.wr, "exclusion", "a reader beside a writer"); w.in++; sim_point(); EXPECT(!w.wr, "exclusion", "a reader beside a writer"); w.in--; } OK(pthread_rwlock_unlock, pthread_rwlock_unlock(&s_rw)); w.total++; break;
    case 2: if (i % 4 == 1) OK(pthread_cond_signal, pthread_cond_signal(&s_cv)); else if (i % 4 == 2) OK(pthread_cond_broadcast, pthread_cond_broadcast(&s_cv)); else { struct timespec ts = ts_of((i64)sim_now() + 15000); OK(pthread_mutex_lock, pthread_mutex_lock(&s_mx)); int r = CALL(pthread_cond_timedwait, pthread_cond_timedwait(&s_cv, &s_mx, &ts)); EXPECT(r == 0 || r == ETIMEDOUT, "result", "cond_timedwait %s", ename(r)); own(i); disown(i); OK(pthread_mutex_unlock, pthread_mutex_unlock(&s_mx)); } w.total++; break;
    case 3: OK(pthread_spin_lock, pthread_spin_lock(&s_sp)); EXPECT(!w.wexcl, "exclusion", "two threads in the spin lock"); w.wexcl = 1; w.total++; w.wexcl = 0; OK(pthread_spin_unlock, pthread_spin_unlock(&s_sp)); break; } }
static void (*const bodies[])(int) = {b_mutex, b_sem, b_cond, b_rw, b_barrier, b_spin, b_once, b_keys, b_join, b_cleanup, b_robust, b_cancel, b_static};
static void *thread_main(void *a) { int i = (int)(size_t)a; CW &w = *W; EXPECT(i >= 0 && i < w.n && !w.started[i], "create", "a start routine was called twice or with a wrong argument"); w.started[i] = true; w.fib[i] = sim_cur(); fstate[w.fib[i]].thr = i; FN("go"); sim_wait_until(phase1, 0); FN("-"); bodies[w.kind](i); w.done[i] = true; return value(i); }
static int nblocked() { int c = 0; for (int i = 0; i < W->n; i++) if (!sim_fiber_done(W->fib[i])) c++; return c; }
static void run(const Prog &p) {
  static CW world; memset(&world, 0, sizeof world); W = &world; CW &w = world; w.p = &p; w.kind = ((unsigned)p.cfg[0]) % NK; w.n = p.cfg[1] < 1 ? 1 : p.cfg[1] > MAXN - 2 ? MAXN - 2 : p.cfg[1]; w.var = p.cfg[2]; Rng rng(p.cfg[4] + 1); w.r = &rng; w.owner = -1; fstate[0].thr = 99; sim_long(400000); FN("setup"); int at = sim_atomic(1); sim_lib_ctors();
  int rounds[] = {1 + p.cfg[3] % 3, 1, 1 + p.cfg[3] % 3, 1 + p.cfg[3] % 3, 1 + p.cfg[3] % 6, 1 + p.cfg[3] % 4, 1, p.cfg[3] % 4, 1, 1, 1 + p.cfg[3] % MAXM, 1, 1}; w.rounds = rounds[w.kind]; label(names[w.kind]); nontriv(); int r, n = w.n; Rng &R = rng;
  pthread_mutexattr_t ma; OK(pthread_mutexattr_init, pthread_mutexattr_init(&ma)); if (w.kind == G_MUTEX) { OK(pthread_mutexattr_settype, pthread_mutexattr_settype(&ma, w.var % 4 == 3 ? PTHREAD_MUTEX_DEFAULT : w.var % 4)); if (w.var & 4) OK(pthread_mutexattr_setrobust, pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST)); }
  OK(pthread_mutex_init, pthread_mutex_init(&w.mx, &ma)); OK(pthread_mutexattr_settype, pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_RECURSIVE)); OK(pthread_mutexattr_setrobust, pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST)); if (w.kind == G_ROBUST) for (int k = 0; k < w.rounds; k++) { w.rowner[k] = -1; OK(pthread_mutex_init, pthread_mutex_init(&w.rm[k], &ma)); } OK(pthread_mutexattr_destroy, pthread_mutexattr_destroy(&ma));
  OK(sem_init, sem_init(&w.sm, 0, 0)); OK(pthread_cond_init, pthread_cond_init(&w.cv, 0)); OK(pthread_rwlock_init, pthread_rwlock_init(&w.rw, 0)); OK(pthread_barrier_init, pthread_barrier_init(&w.ba, 0, n)); OK(pthread_spin_init, pthread_spin_init(&w.sp, PTHREAD_PROCESS_PRIVATE));
  static const pthread_once_t o0 = PTHREAD_ONCE_INIT; for (int k = 0; k < 4; k++) w.once[k] = o0; s_mx = PTHREAD_MUTEX_INITIALIZER; s_rw = PTHREAD_RWLOCK_INITIALIZER; s_cv = PTHREAD_COND_INITIALIZER; s_sp = PTHREAD_SPINLOCK_INITIALIZER; memset(tok, 0, sizeof tok);
  if (w.kind == G_KEYS) { int want = p.cfg[7] > MAXK ? MAXK : p.cfg[7]; for (; w.nkey < want; w.nkey++) OK(pthread_key_create, pthread_key_create(&w.key[w.nkey], w.nkey % 5 == 1 ? 0 : dtor)); for (int i = 0; i < n; i++) for (int k = 0; k < w.nkey; k++) { tok[i][k].i = i; tok[i][k].k = k; } }
  for (int i = 0; i < n; i++) { w.fib[i] = -1; OK(pthread_create, pthread_create(&w.id[i], 0, thread_main, (void *)(size_t)i)); }
  sim_atomic(at); FN("-"); sim_wait_quiet(); for (int i = 0; i < n; i++) EXPECT(w.started[i], "create", "the start routine of thread %d never ran", i);
  if (w.kind == G_MUTEX && p.cfg[5]) OK(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); sim_mark(); w.phase = 1; if (w.kind == G_CANCEL) sim_wait_quiet_keep_time(); else if (w.kind != G_JOIN || R.p(1, 2)) sim_wait_quiet(); 
  auto ended = [&](const char *what) { for (int i = 0; i < n; i++) EXPECT(sim_fiber_done(w.fib[i]), "stranded", "%s: thread %d of %d is stuck in %s", what, i, n, fstate[w.fib[i]].fn); };
  switch (w.kind) {
  case G_MUTEX: if (p.cfg[5]) { EXPECT(!w.total, "exclusion", "threads passed a locked mutex"); EXPECT(nblocked() == n - (w.rounds == 1 ? w.timedout : 0), "exclusion", "threads passed a locked mutex"); r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(&w.mx)); if (w.var % 4 == PTHREAD_MUTEX_RECURSIVE) { EXPECT(r == 0, "result", "trylock by the owner %s", ename(r)); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); } else EXPECT(r == EBUSY, "result", "trylock of a locked mutex %s", ename(r)); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); sim_wait_quiet(); }
    ended("nobody owns the mutex"); EXPECT(w.total == n * w.rounds - w.timedout, "exclusion", "%d critical sections instead of %d", w.total, n * w.rounds - w.timedout); break;
  case G_SEM: { int nt = 0; for (int i = 0; i < n; i++) nt += timed(i); EXPECT(w.timedout == nt && !w.got, "conservation", "%d of %d timed waits timed out on an empty semaphore", w.timedout, nt); int nw = n - nt, steps = R.r(1, 6); for (int s = 0; s <= steps; s++) { int v; OK(sem_getvalue, sem_getvalue(&w.sm, &v)); if (s == 0 || R.p(1, 2)) { sim_wait_quiet(); OK(sem_getvalue, sem_getvalue(&w.sm, &v)); int g = w.posted < nw ? w.posted : nw; EXPECT(w.got == g, "conservation", "%d units posted to %d waiters and %d went on", w.posted, nw, w.got); EXPECT(v == w.posted - nw, "conservation", "value %d with %d units and %d waiters", v, w.posted, nw); }
        int k = s == steps ? (nw - w.posted > 0 ? nw - w.posted : 1) : R.r(1, R.p(1, 2) ? n : 3 + n / 3); if (k == 1 && R.p(1, 2)) { w.posted++; OK(sem_post, sem_post(&w.sm)); } else { w.posted += k; OK(sem_post_multiple, sem_post_multiple(&w.sm, k)); } } sim_wait_quiet(); ended("enough units were posted"); int v; OK(sem_getvalue, sem_getvalue(&w.sm, &v)); EXPECT(w.got == nw && v == w.posted - nw, "conservation", "%d units posted, %d taken, value %d", w.posted, w.got, v); break; }
  case G_COND: { for (int g = 0; g < 3 * n * w.rounds + 5 && nblocked(); g++) { int before = w.total, wait0 = w.ncount; bool lockit = R.p(1, 2), bc = R.p(1, 3) || g > 8; int k = bc ? 1 : R.r(1, n); EXPECT(w.owner < 0, "exclusion", "idle with the mutex owned"); if (lockit) OK(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); for (int q = 0; q < k; q++) if (bc) OK(pthread_cond_broadcast, pthread_cond_broadcast(&w.cv)); else OK(pthread_cond_signal, pthread_cond_signal(&w.cv)); if (lockit) OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); sim_wait_quiet(); int need = bc || k > wait0 ? wait0 : k; EXPECT(w.total - before >= need, "lost-wakeup", "%s: %d waiters, %d woken by %d signals", bc ? "broadcast" : "signal", wait0, w.total - before, k); } ended("broadcast"); break; }
  case G_RW: { int nr = 0; for (int i = 0; i < n; i++) nr += !(w.var && i % (w.var + 1) == w.var); EXPECT(w.in == nr, "stranded", "%d of %d readers share the lock", w.in, nr); w.phase = 2; sim_wait_quiet(); EXPECT(w.wexcl == 0 || !nr, "exclusion", "a writer passed %d readers", nr); if (nr) { r = CALL(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(&w.rw)); EXPECT(r == EBUSY, "result", "trywrlock beside %d readers %s", w.in, ename(r)); } w.phase = 3; sim_wait_quiet(); ended("everybody unlocks"); EXPECT(w.total == nr * w.rounds && w.wexcl == (n - nr) * w.rounds, "exclusion", "%d reads and %d writes", w.total, w.wexcl); OK(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(&w.rw)); OK(pthread_rwlock_unlock, pthread_rwlock_unlock(&w.rw)); break; }
  case G_BARRIER: ended("all have arrived"); for (int k = 0; k < w.rounds; k++) EXPECT(w.serial[k] == 1 && w.left[k] == n, "barrier", "generation %d: %d serial threads, %d left", k, w.serial[k], w.left[k]); break;
  case G_SPIN: ended("nobody keeps the spin lock"); EXPECT(w.total == n * w.rounds, "exclusion", "%d critical sections", w.total); break;
  case G_ONCE: EXPECT(!w.odone[1] && nblocked() == n, "once", "threads passed an incomplete once block"); w.phase = 2; sim_wait_quiet(); ended("the routine is complete"); for (int k = 0; k < 4; k++) EXPECT(w.ran[k] == 1, "once", "the routine of block %d ran %d times", k, w.ran[k]); break;
  case G_KEYS: EXPECT(w.in == n, "stranded", "%d of %d threads set their values", w.in, n); if (w.var & 1) for (int k = 0; k < w.nkey; k += 4) { OK(pthread_key_delete, pthread_key_delete(w.key[k])); w.deleted[k] = true; } w.phase = 2; sim_wait_quiet(); ended("thread exit"); for (int i = 0; i < n; i++) for (int k = 0; k < w.nkey; k++) { Tok &t = tok[i][k]; bool has = k % 5 != 1 && !w.deleted[k]; if (t.state == 0 || !has) { EXPECT(!t.runs, "destructor", "a destructor ran for a value that was taken back"); continue; } int want = k % 3 == 0 ? 1 + w.rounds : 1; if (want > PTHREAD_DESTRUCTOR_ITERATIONS) want = PTHREAD_DESTRUCTOR_ITERATIONS; EXPECT(t.runs >= 1, "destructor", "the destructor of key %d never ran for thread %d (%d keys)", k, i, w.nkey); EXPECT(t.runs == want, "destructor", "the destructor of key %d ran %d times for thread %d instead of %d", k, t.runs, i, want); }
    for (int k = 0; k < w.nkey; k++) if (!w.deleted[k]) OK(pthread_key_delete, pthread_key_delete(w.key[k])); break;
  case G_JOIN: w.phase = 2; for (int q = 0; q < n; q++) { int j = (q * 7 + p.cfg[4]) % n; if (n % 7 == 0) j = q; if (w.var && j % 2 == 0 && j + 1 < n) continue; void *v = 0; if (p.cfg[5] == 1 && j % 4 == 3 && !sim_fiber_done(w.fib[j])) { OK(pthread_detach, pthread_detach(w.id[j])); w.joined[j]++; continue; } OK(pthread_join, pthread_join(w.id[j], &v)); EXPECT(v == value(j) && sim_fiber_done(w.fib[j]), "join", "join of thread %d gave %p", j, v); w.joined[j]++; } sim_wait_quiet(); ended("join"); for (int j = 0; j < n; j++) { EXPECT(w.joined[j] == 1, "join", "thread %d was joined %d times", j, w.joined[j]); r = CALL(pthread_kill, pthread_kill(w.id[j], 0)); EXPECT(r == ESRCH, "identity", "pthread_kill(0) of the joined thread %d returned %s", j, ename(r)); } break;
  case G_CLEANUP: for (int q = 0; q < n; q++) { int i = (q + p.cfg[4]) % n; if ((p.cfg[5] + i) % 3 == 2) { EXPECT(!sim_fiber_done(w.fib[i]), "cancel", "thread %d left its wait", i); OK(pthread_cancel, pthread_cancel(w.id[i])); if (R.p(1, 4)) sim_wait_quiet(); } } sim_wait_quiet(); ended("cancelled"); for (int i = 0; i < n; i++) EXPECT(w.hnext[i] == 0, "cleanup", "%d of %d handlers of thread %d never ran", w.hnext[i], w.depth[i], i); break;
  case G_ROBUST: EXPECT(w.in, "stranded", "the owner never got its mutexes"); { int dead = 0; for (int k = 0; k < w.rounds; k++) dead += w.rstate[k] == 1; w.phase = 2; if (p.cfg[5] == 2) { } sim_wait_quiet(); ended("the owner died"); int want = n > 1 ? dead : 0; EXPECT(w.total == want, "robust", "EOWNERDEAD was reported %d times for %d mutexes", w.total, want); if (n == 1) for (int k = 0; k < w.rounds; k++) if (w.rstate[k] == 1) { r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(&w.rm[k])); EXPECT(r == EOWNERDEAD, "robust", "trylock of an orphaned mutex %s", ename(r)); OK(pthread_mutex_consistent, pthread_mutex_consistent(&w.rm[k])); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.rm[k])); } } break;
  case G_CANCEL: { int dis = 0; for (int i = 0; i < n; i++) dis += i % 5 == 4; EXPECT(nblocked() == n - w.timedout, "cancel", "a thread left its wait"); for (int q = 0; q < n; q++) { int i = n % 11 ? (q * 11 + p.cfg[4]) % n : q; if (i == n - 1) continue; w.cancelled[i] = true; r = CALL(pthread_cancel, pthread_cancel(w.id[i])); EXPECT(r == 0 || (r == ESRCH && w.timedout), "result", "pthread_cancel %s", ename(r)); if (R.p(1, 6)) sim_wait_quiet_keep_time(); } w.cancelled[n - 1] = true; sim_wait_quiet_keep_time(); r = CALL(pthread_cancel, pthread_cancel(w.id[n - 1])); EXPECT(r == 0 || (r == ESRCH && w.timedout), "result", "pthread_cancel %s", ename(r)); sim_wait_quiet(); EXPECT(nblocked() == dis, "cancel", "%d threads are left of which %d have cancellation disabled", nblocked(), dis); int v; OK(sem_getvalue, sem_getvalue(&w.sm, &v)); EXPECT(v == -dis, "conservation", "value %d with %d waiters", v, dis); if (dis) OK(sem_post_multiple, sem_post_multiple(&w.sm, dis)); sim_wait_quiet(); ended("cancelled"); EXPECT(w.owner < 0, "exclusion", "the mutex is owned"); OK(pthread_mutex_trylock, pthread_mutex_trylock(&w.mx)); OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); break; }
  case G_STATIC: ended("nobody keeps anything"); EXPECT(w.total == 4 * n, "exclusion", "%d of %d steps", w.total, 4 * n); break; }
  FN("final"); if (w.kind != G_JOIN) for (int q = 0; q < n; q++) { int i = w.var & 1 ? n - 1 - q : q; void *v = 0; if (i % 9 == 8) { OK(pthread_detach, pthread_detach(w.id[i])); continue; } OK(pthread_join, pthread_join(w.id[i], &v)); bool canc = (w.kind == G_CLEANUP && (p.cfg[5] + i) % 3 == 2) || (w.kind == G_CANCEL && !w.back[i]); EXPECT(v == (canc ? PTHREAD_CANCELED : value(i)), "join", "join of thread %d gave %p", i, v); }
  OK(pthread_mutex_destroy, pthread_mutex_destroy(&w.mx)); if (w.kind == G_ROBUST) for (int k = 0; k < w.rounds; k++) OK(pthread_mutex_destroy, pthread_mutex_destroy(&w.rm[k])); OK(sem_destroy, sem_destroy(&w.sm)); OK(pthread_cond_destroy, pthread_cond_destroy(&w.cv)); OK(pthread_rwlock_destroy, pthread_rwlock_destroy(&w.rw)); OK(pthread_barrier_destroy, pthread_barrier_destroy(&w.ba)); OK(pthread_spin_destroy, pthread_spin_destroy(&w.sp));
  OK(pthread_mutex_destroy, pthread_mutex_destroy(&s_mx)); OK(pthread_rwlock_destroy, pthread_rwlock_destroy(&s_rw)); OK(pthread_cond_destroy, pthread_cond_destroy(&s_cv)); OK(pthread_spin_destroy, pthread_spin_destroy(&s_sp)); sim_lib_dtors(); leak_check(); }
static int prof_kind;
static void gen(Rng &r, Prog &p, int prof) { p.nt = 0; int *c = p.cfg; c[0] = prof - 60; c[1] = r.p(1, 3) ? r.r(2, 8) : r.p(1, 2) ? r.r(9, 20) : r.p(2, 3) ? r.r(20, 62) : r.r(63, 132); c[2] = r.n(8); c[3] = r.n(60); c[4] = r.n(30000); c[5] = r.n(3); c[6] = r.p(1, 2) ? 0 : r.r(1, 6); if (c[0] == G_KEYS) { c[7] = r.p(1, 3) ? r.r(1, 6) : r.r(1, 110); if (c[7] > 20 && c[1] > 12) c[1] = r.r(2, 12); } if (c[0] == G_ROBUST) { if (c[1] > 12) c[1] = r.r(2, 12); } if (c[0] == G_ROBUST && c[1] * c[3] > 200 && r.p(1, 2)) c[1] = 2; if (c[0] == G_MUTEX && c[2] % 4 == PTHREAD_MUTEX_RECURSIVE && c[1] > 10) c[3] = r.n(6); if (c[0] == G_CLEANUP && c[1] > 10) c[3] = r.n(12); (void)prof_kind; }
static RegF reg({"crowd", gen, run, opname});
#define R(prop, kind, w, leak) static RegP r_##prop##kind(#prop, "crowd", 60 + kind, w, leak);
R(C01, G_MUTEX, 1, 0) R(C02, G_MUTEX, 1, 0) R(C03, G_ROBUST, 1, 0) R(C04, G_SEM, 1, 0) R(C05, G_COND, 1, 0) R(C06, G_RW, 1, 0) R(C07, G_BARRIER, 1, 0) R(C08, G_SPIN, 1, 0) R(C09, G_ONCE, 1, 0) R(C10, G_KEYS, 1, 0) R(C11, G_JOIN, 1, 0) R(C13, G_CANCEL, 1, 0) R(C14, G_CLEANUP, 1, 0) R(C15, G_CANCEL, 1, 0) R(C17, G_STATIC, 1, 0)
R(C22, G_KEYS, 1, 1) R(C22, G_CLEANUP, 1, 1) R(C22, G_JOIN, 1, 1) R(C22, G_ONCE, 1, 1) R(C22, G_STATIC, 1, 1) R(C12, G_JOIN, 1, 0)
