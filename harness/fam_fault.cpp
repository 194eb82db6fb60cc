// Resource exhaustion: every creating call with the k-th acquisition of a resource (and some after it) failing, by several threads
// at once, next to objects that must keep working; the call reports a documented error, leaves nothing behind, and succeeds afterwards.
#include "client.h"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
enum { X_MUTEX, X_COND, X_RWLOCK, X_BARRIER, X_SPIN, X_SEM, X_KEY, X_SETSPEC, X_ATTR, X_OATTR, X_ATTRNAME, X_NAME, X_CREATE, X_STATIC, X_RAW, X_EXIST, X_YIELD, NOPS };
static const char *names[] = {"mutex_init", "cond_init", "rwlock_init", "barrier_init", "spin_init", "sem_init", "key_create", "setspecific", "attr_init", "object_attr_init", "attr_setname", "setname", "create", "first_use_of_static", "foreign_thread", "existing_objects", "yield"};
static const char *opname(int c) { return c >= 0 && c < NOPS ? names[c] : "?"; }
enum { PR_FAULT = 23 };
enum { NT = 3, NST = 6 };
struct TH { pthread_t id; int fib; pthread_mutex_t m; sem_t s, req, ack; pthread_key_t k; void *v; pthread_t helper; bool hstop; char name[32]; int dtor, raws; };
struct FW { const Prog *p; int nt, go; TH t[NT]; pthread_mutex_t sm[3]; pthread_cond_t sc; pthread_rwlock_t sr; pthread_spinlock_t ss; int rundata; bool seq; int fails, oks; pthread_key_t shk; int shdt; };
static FW *W;
static int go_pred(void *) { return W->go; }
static void arm(const Op &o) { if (o.b) sim_fault_arm((int)((unsigned)o.d % F_NCLASS), o.b & 255, o.b >> 8 & 255); }
static int disarm(void) { int h = sim_fault_hit(); sim_fault_arm(-1, 0, 0); return h; }
static bool oom(int r) { return r == ENOMEM || r == EAGAIN || r == ENOSPC; }
struct Snap { int h, b, t; };
static int alone(void *m) { return sim_alone((int)(size_t)m); }
static Snap snap(void) { if (W->seq) sim_wait_until(alone, (void *)(size_t)sim_cur()); return {sim_live_handles(), sim_live_blocks(), sim_live_tls()}; }
// what a failed call must look like
static void failed(const char *what, int r, bool doc, int hit, const Snap &s, int extra) {
  EXPECT(hit > 0, "spurious-error", "%s failed with %s although nothing it needed was refused", what, ename(r)); EXPECT(doc, "wrong-error", "%s returned %s when a resource was refused", what, ename(r));
  if (W->seq) { Snap n = {sim_live_handles(), sim_live_blocks(), sim_live_tls()}; EXPECT(n.h <= s.h, "leak", "%s failed and left %d handles behind", what, n.h - s.h); EXPECT(n.t <= s.t, "leak", "%s failed and left %d thread-local slots behind", what, n.t - s.t); EXPECT(n.b <= s.b + extra, "leak", "%s failed and left %d blocks behind", what, n.b - s.b); }
  W->fails++; label("failed"); nontriv(); }
// run a call under the faults of the op; when it fails check how, and run it again without; r is 0 at the end
#define FAULTY(what, callname, expr, doc, extra) ({ Snap _s = snap(); arm(o); int _r = CALL(callname, expr); int _h = disarm(); if (_r != 0) failed(what, _r, doc, _h, _s, extra); if (_r != 0) { _r = CALL(callname, expr); EXPECT(_r == 0, "retry", what " returned %s although resources were available again", ename(_r)); label("retried"); } else { W->oks++; if (_h) label("coped"); } _r; })
#define OK(n, e) do { int _q = CALL(n, e); EXPECT(_q == 0, "result", #n " returned %s", ename(_q)); } while (0)
static void try_mutex(pthread_mutex_t *m, int type) { OK(pthread_mutex_lock, pthread_mutex_lock(m)); int r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(m)); EXPECT(r == (type == PTHREAD_MUTEX_RECURSIVE ? 0 : EBUSY), "result", "trylock of an owned mutex returned %s", ename(r)); if (r == 0) OK(pthread_mutex_unlock, pthread_mutex_unlock(m)); OK(pthread_mutex_unlock, pthread_mutex_unlock(m)); }
static void *helper(void *a) { TH &h = *(TH *)a; for (;;) { int r = CALL(sem_wait, sem_wait(&h.req)); EXPECT(r == 0, "result", "sem_wait"); if (h.hstop) return (void *)&h; OK(sem_post, sem_post(&h.ack)); } }
static void existing(TH &h, bool ping) {
  try_mutex(&h.m, PTHREAD_MUTEX_ERRORCHECK); OK(sem_post, sem_post(&h.s)); int v = -1; OK(sem_getvalue, sem_getvalue(&h.s, &v)); EXPECT(v == 2, "existing", "semaphore value is %d instead of 2", v); OK(sem_wait, sem_wait(&h.s)); void *q = CALL(pthread_getspecific, pthread_getspecific(h.k)); EXPECT(q == h.v, "existing", "a key has value %p instead of %p", q, h.v);
  pthread_t s = CALL(pthread_self, pthread_self()); EXPECT(s.p == h.id.p && s.x == h.id.x, "existing", "the thread's identity changed"); char b[32] = ""; int r = CALL(pthread_getname_np, pthread_getname_np(s, b, 32)); EXPECT(r == 0 && !strcmp(b, h.name), "existing", "the thread's name is \"%s\" instead of \"%s\"", b, h.name);
  if (ping) { OK(sem_post, sem_post(&h.req)); OK(sem_wait, sem_wait(&h.ack)); label("helper-alive"); } }
static void *child(void *a) { return (void *)((size_t)a + 7); }
static void shdtor(void *) { W->shdt++; }
struct RawArg { Op o; int done, inst; };
static int raw_done(void *a) { return ((RawArg *)a)->done; }
static unsigned __stdcall raw_main(void *a) { // a thread the library did not create
  RawArg &x = *(RawArg *)a; Op o = x.o; fstate[sim_cur()].thr = 50; int r, h; pthread_t nil; memset(&nil, 0, sizeof nil);
  switch ((unsigned)o.a % 4) {
  case 0: { arm(o); pthread_t s = CALL(pthread_self, pthread_self()); h = disarm(); if (!s.p) { EXPECT(h > 0, "spurious-error", "pthread_self failed although nothing was refused"); label("failed"); nontriv(); } pthread_t t = CALL(pthread_self, pthread_self()); EXPECT(t.p, "retry", "pthread_self failed although resources were available again"); if (s.p) EXPECT(s.p == t.p && s.x == t.x, "identity", "pthread_self gives another identity"); pthread_t u = CALL(pthread_self, pthread_self()); EXPECT(u.p == t.p && u.x == t.x, "identity", "pthread_self gives another identity"); r = CALL(pthread_kill, pthread_kill(t, 0)); EXPECT(r == 0, "result", "pthread_kill(self, 0) %s", ename(r)); break; }
  case 1: { arm(o); r = CALL(pthread_setspecific, pthread_setspecific(W->shk, &x)); h = disarm(); if (r) { EXPECT(h > 0, "spurious-error", "setspecific %s although nothing was refused", ename(r)); EXPECT(r == ENOENT || oom(r), "wrong-error", "setspecific returned %s", ename(r)); label("failed"); nontriv(); EXPECT(CALL(pthread_getspecific, pthread_getspecific(W->shk)) == 0, "existing", "a failed setspecific set the value"); r = CALL(pthread_setspecific, pthread_setspecific(W->shk, &x)); EXPECT(r == 0, "retry", "setspecific %s although resources were available again", ename(r)); } EXPECT(CALL(pthread_getspecific, pthread_getspecific(W->shk)) == &x, "result", "getspecific"); break; }
  case 2: { pthread_t t; void *v; arm(o); r = CALL(pthread_create, pthread_create(&t, 0, child, &x)); h = disarm(); if (r) { EXPECT(h > 0, "spurious-error", "create %s although nothing was refused", ename(r)); EXPECT(r == EAGAIN, "wrong-error", "create returned %s", ename(r)); label("failed"); nontriv(); r = CALL(pthread_create, pthread_create(&t, 0, child, &x)); EXPECT(r == 0, "retry", "create %s although resources were available again", ename(r)); } OK(pthread_join, pthread_join(t, &v)); EXPECT(v == (char *)&x + 7, "result", "join gave %p", v); break; }
  case 3: { struct timespec ts = {0, 1000000}; arm(o); r = CALL(pthread_delay_np, pthread_delay_np(&ts)); h = disarm(); if (r) { EXPECT(h > 0, "spurious-error", "delay %s although nothing was refused", ename(r)); EXPECT(r == ENOMEM, "wrong-error", "delay returned %s", ename(r)); label("failed"); nontriv(); OK(pthread_delay_np, pthread_delay_np(&ts)); } break; } }
  CALL(pthread_win32_thread_detach_np, pthread_win32_thread_detach_np()); x.done = 1; return 0; }
static void use_static(TH &, const Op &o) { // first use of statically initialised objects, by everybody
  FW &w = *W; int k = (unsigned)o.a % NST; struct timespec past = {1, 0}; int r, h;
  for (int again = 0; again < 2; again++) { if (!again) arm(o);
    switch (k) { case 0: case 1: case 2: r = CALL(pthread_mutex_lock, pthread_mutex_lock(&w.sm[k])); break; case 3: { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; int hh = disarm(); (void)hh; OK(pthread_mutex_lock, pthread_mutex_lock(&m)); if (!again) arm(o); r = CALL(pthread_cond_timedwait, pthread_cond_timedwait(&w.sc, &m, &past)); if (r == ETIMEDOUT) r = 0; else EXPECT(r != 0, "result", "timedwait woke without a signal"); h = sim_fault_hit(); disarm(); OK(pthread_mutex_unlock, pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy, pthread_mutex_destroy(&m)); break; }
      case 4: r = (o.a >> 3 & 1) ? CALL(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&w.sr)) : CALL(pthread_rwlock_wrlock, pthread_rwlock_wrlock(&w.sr)); break; default: r = CALL(pthread_spin_lock, pthread_spin_lock(&w.ss)); break; }
    if (k != 3) h = disarm();
    if (r == 0) { switch (k) { case 0: case 1: case 2: OK(pthread_mutex_unlock, pthread_mutex_unlock(&w.sm[k])); break; case 4: OK(pthread_rwlock_unlock, pthread_rwlock_unlock(&w.sr)); break; case 5: OK(pthread_spin_unlock, pthread_spin_unlock(&w.ss)); break; } if (!again && h) label("coped"); break; }
    if (again) sim_fail("retry", "first use of static object %d returned %s although resources were available again", k, ename(r));
    EXPECT(h > 0, "spurious-error", "first use of static object %d failed with %s although nothing it needed was refused", k, ename(r)); EXPECT(oom(r), "wrong-error", "first use of static object %d returned %s when a resource was refused", k, ename(r)); w.fails++; label("failed"); label("static-failed"); nontriv(); } }
static void exec(int i, const Op &o, int ix) {
  FW &w = *W; TH &h = w.t[i]; FIX(ix); int r, va = (unsigned)o.a; struct timespec past = {1, 0};
  switch (o.c) {
  case X_MUTEX: { int type = va % 3, rob = va / 3 % 2; pthread_mutexattr_t a; pthread_mutex_t m; OK(pthread_mutexattr_init, pthread_mutexattr_init(&a)); OK(pthread_mutexattr_settype, pthread_mutexattr_settype(&a, type)); OK(pthread_mutexattr_setrobust, pthread_mutexattr_setrobust(&a, rob ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED)); memset((void *)&m, 0x11, sizeof m); r = FAULTY("mutex_init", pthread_mutex_init, pthread_mutex_init(&m, &a), oom(_r), 0); OK(pthread_mutexattr_destroy, pthread_mutexattr_destroy(&a)); try_mutex(&m, type); OK(pthread_mutex_destroy, pthread_mutex_destroy(&m)); break; }
  case X_COND: { pthread_cond_t c; r = FAULTY("cond_init", pthread_cond_init, pthread_cond_init(&c, 0), oom(_r), 0); OK(pthread_cond_signal, pthread_cond_signal(&c)); OK(pthread_mutex_lock, pthread_mutex_lock(&h.m)); r = CALL(pthread_cond_timedwait, pthread_cond_timedwait(&c, &h.m, &past)); EXPECT(r == ETIMEDOUT, "result", "timedwait %s", ename(r)); OK(pthread_mutex_unlock, pthread_mutex_unlock(&h.m)); OK(pthread_cond_broadcast, pthread_cond_broadcast(&c)); OK(pthread_cond_destroy, pthread_cond_destroy(&c)); break; }
  case X_RWLOCK: { pthread_rwlock_t l; r = FAULTY("rwlock_init", pthread_rwlock_init, pthread_rwlock_init(&l, 0), oom(_r), 0); OK(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&l)); r = CALL(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(&l)); EXPECT(r == EBUSY, "result", "trywrlock %s", ename(r)); OK(pthread_rwlock_unlock, pthread_rwlock_unlock(&l)); OK(pthread_rwlock_wrlock, pthread_rwlock_wrlock(&l)); r = CALL(pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(&l)); EXPECT(r == EBUSY, "result", "tryrdlock %s", ename(r)); OK(pthread_rwlock_unlock, pthread_rwlock_unlock(&l)); OK(pthread_rwlock_destroy, pthread_rwlock_destroy(&l)); break; }
  case X_BARRIER: { pthread_barrier_t b; r = FAULTY("barrier_init", pthread_barrier_init, pthread_barrier_init(&b, 0, 1), oom(_r), 0); for (int k = 0; k < 2; k++) { r = CALL(pthread_barrier_wait, pthread_barrier_wait(&b)); EXPECT(r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "barrier_wait %s", ename(r)); } OK(pthread_barrier_destroy, pthread_barrier_destroy(&b)); break; }
  case X_SPIN: { pthread_spinlock_t s; r = FAULTY("spin_init", pthread_spin_init, pthread_spin_init(&s, PTHREAD_PROCESS_PRIVATE), oom(_r), 0); OK(pthread_spin_lock, pthread_spin_lock(&s)); r = CALL(pthread_spin_trylock, pthread_spin_trylock(&s)); EXPECT(r == EBUSY, "result", "spin_trylock %s", ename(r)); OK(pthread_spin_unlock, pthread_spin_unlock(&s)); OK(pthread_spin_destroy, pthread_spin_destroy(&s)); break; }
  case X_SEM: { sem_t s; int v = 0; ERRNO = 0; r = FAULTY("sem_init", sem_init, (sem_init(&s, 0, va % 5) ? ERRNO : 0), oom(_r), 0); OK(sem_getvalue, sem_getvalue(&s, &v)); EXPECT(v == va % 5, "result", "value %d", v); OK(sem_post, sem_post(&s)); OK(sem_wait, sem_wait(&s)); OK(sem_destroy, sem_destroy(&s)); break; }
  case X_KEY: { pthread_key_t k; r = FAULTY("key_create", pthread_key_create, pthread_key_create(&k, va & 1 ? shdtor : 0), (_r == ENOMEM || _r == EAGAIN), 0); EXPECT(CALL(pthread_getspecific, pthread_getspecific(k)) == 0, "result", "a new key is not NULL"); OK(pthread_setspecific, pthread_setspecific(k, &k)); EXPECT(CALL(pthread_getspecific, pthread_getspecific(k)) == &k, "result", "getspecific"); OK(pthread_key_delete, pthread_key_delete(k)); break; }
  case X_SETSPEC: { pthread_key_t k; OK(pthread_key_create, pthread_key_create(&k, va & 1 ? shdtor : 0)); r = FAULTY("setspecific", pthread_setspecific, pthread_setspecific(k, &h), oom(_r), 0); EXPECT(CALL(pthread_getspecific, pthread_getspecific(k)) == &h, "result", "getspecific"); OK(pthread_setspecific, pthread_setspecific(k, 0)); OK(pthread_key_delete, pthread_key_delete(k)); break; }
  case X_ATTR: { pthread_attr_t a; r = FAULTY("attr_init", pthread_attr_init, pthread_attr_init(&a), _r == ENOMEM, 0); int v = -1; OK(pthread_attr_getdetachstate, pthread_attr_getdetachstate(&a, &v)); EXPECT(v == PTHREAD_CREATE_JOINABLE, "result", "detach state"); OK(pthread_attr_destroy, pthread_attr_destroy(&a)); break; }
  case X_OATTR: switch (va % 4) { case 0: { pthread_mutexattr_t a; FAULTY("mutexattr_init", pthread_mutexattr_init, pthread_mutexattr_init(&a), _r == ENOMEM, 0); OK(pthread_mutexattr_destroy, pthread_mutexattr_destroy(&a)); break; } case 1: { pthread_condattr_t a; FAULTY("condattr_init", pthread_condattr_init, pthread_condattr_init(&a), _r == ENOMEM, 0); OK(pthread_condattr_destroy, pthread_condattr_destroy(&a)); break; } case 2: { pthread_rwlockattr_t a; FAULTY("rwlockattr_init", pthread_rwlockattr_init, pthread_rwlockattr_init(&a), _r == ENOMEM, 0); OK(pthread_rwlockattr_destroy, pthread_rwlockattr_destroy(&a)); break; } case 3: { pthread_barrierattr_t a; FAULTY("barrierattr_init", pthread_barrierattr_init, pthread_barrierattr_init(&a), _r == ENOMEM, 0); OK(pthread_barrierattr_destroy, pthread_barrierattr_destroy(&a)); break; } } break;
  case X_ATTRNAME: { pthread_attr_t a; char b[32]; OK(pthread_attr_init, pthread_attr_init(&a)); OK(pthread_attr_setname_np, pthread_attr_setname_np(&a, "old name")); Snap s = snap(); arm(o); r = CALL(pthread_attr_setname_np, pthread_attr_setname_np(&a, "the new name")); int hh = disarm(); if (r) { failed("attr_setname_np", r, r == ENOMEM, hh, s, 0); OK(pthread_attr_getname_np, pthread_attr_getname_np(&a, b, 32)); EXPECT(!strcmp(b, "old name"), "existing", "after a failed attr_setname_np the name is \"%s\"", b); OK(pthread_attr_setname_np, pthread_attr_setname_np(&a, "the new name")); } OK(pthread_attr_getname_np, pthread_attr_getname_np(&a, b, 32)); EXPECT(!strcmp(b, "the new name"), "result", "name is \"%s\"", b); OK(pthread_attr_destroy, pthread_attr_destroy(&a)); break; }
  case X_NAME: { char nm[32], b[32]; snprintf(nm, 32, "name %d", va); Snap s = snap(); arm(o); r = CALL(pthread_setname_np, pthread_setname_np(h.id, nm)); int hh = disarm(); if (r) { failed("setname_np", r, r == ENOMEM, hh, s, 0); OK(pthread_getname_np, pthread_getname_np(h.id, b, 32)); EXPECT(!strcmp(b, h.name), "existing", "after a failed setname_np the name is \"%s\" instead of \"%s\"", b, h.name); OK(pthread_setname_np, pthread_setname_np(h.id, nm)); } strcpy(h.name, nm); break; }
  case X_CREATE: { pthread_attr_t a; bool at = va & 1; if (at) { OK(pthread_attr_init, pthread_attr_init(&a)); if (va & 2) OK(pthread_attr_setname_np, pthread_attr_setname_np(&a, "child's name")); if (va & 4) OK(pthread_attr_setdetachstate, pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED)); } pthread_t t; void *v = 0; r = FAULTY("create", pthread_create, pthread_create(&t, at ? &a : 0, child, &h), _r == EAGAIN, 1); if (!(at && (va & 4))) { OK(pthread_join, pthread_join(t, &v)); EXPECT(v == (char *)&h + 7, "result", "join gave %p", v); } if (at) OK(pthread_attr_destroy, pthread_attr_destroy(&a)); break; }
  case X_STATIC: use_static(h, o); break;
  case X_RAW: { RawArg *x = (RawArg *)sim_umalloc(sizeof(RawArg)); memset(x, 0, sizeof *x); x->o = o; DWORD id; sim_user_region(1); HANDLE t = CreateThread(0, 0, (LPTHREAD_START_ROUTINE)raw_main, x, 0, &id); CloseHandle(t); sim_user_region(0); FN("wait"); sim_wait_until(raw_done, x); label("foreign-thread"); sim_ufree(x); break; }
  case X_EXIST: existing(h, true); break; case X_YIELD: CALL(sched_yield, sched_yield()); break; }
  existing(h, va % 3 == 0); }
static void hdtor(void *a) { ((TH *)a)->dtor++; }
static void setup(int i) { TH &h = W->t[i]; int r; h.fib = sim_cur(); h.id = pthread_self(); pthread_mutexattr_t a; OK(pthread_mutexattr_init, pthread_mutexattr_init(&a)); OK(pthread_mutexattr_settype, pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK)); OK(pthread_mutex_init, pthread_mutex_init(&h.m, &a)); OK(pthread_mutexattr_destroy, pthread_mutexattr_destroy(&a)); OK(sem_init, sem_init(&h.s, 0, 1)); OK(sem_init, sem_init(&h.req, 0, 0)); OK(sem_init, sem_init(&h.ack, 0, 0)); OK(pthread_key_create, pthread_key_create(&h.k, hdtor)); h.v = &h; OK(pthread_setspecific, pthread_setspecific(h.k, h.v)); strcpy(h.name, "first"); OK(pthread_setname_np, pthread_setname_np(h.id, h.name)); r = CALL(pthread_create, pthread_create(&h.helper, 0, helper, &h)); EXPECT(r == 0, "result", "create %s", ename(r)); }
static void *thread_main(void *a) { int i = (int)(size_t)a; FW &w = *W; fstate[sim_cur()].thr = i; FN("go"); sim_wait_until(go_pred, 0); const Thr &p = w.p->t[i]; for (int x = 0; x < p.n; x++) exec(i, p.op[x], x);
  FIX(99); TH &h = w.t[i]; h.hstop = true; OK(sem_post, sem_post(&h.req)); void *v; OK(pthread_join, pthread_join(h.helper, &v)); EXPECT(v == &h, "result", "join of the helper gave %p", v); return 0; }
static int gone[NT]; static int started_pred(void *x) { return ((TH *)x)->fib >= 0; }
static void *thread_setup(void *a) { int i = (int)(size_t)a; fstate[sim_cur()].thr = i; int at = sim_atomic(1); setup(i); sim_atomic(at); return thread_main(a); }
static void run(const Prog &p) {
  static FW world; memset(&world, 0, sizeof world); W = &world; FW &w = world; w.p = &p; int r; fstate[0].thr = 99; FN("setup"); int at = sim_atomic(1); w.nt = p.nt > NT ? NT : p.nt; w.seq = w.nt == 1;
  w.sm[0] = PTHREAD_MUTEX_INITIALIZER; w.sm[1] = PTHREAD_RECURSIVE_MUTEX_INITIALIZER; w.sm[2] = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER; w.sc = PTHREAD_COND_INITIALIZER; w.sr = PTHREAD_RWLOCK_INITIALIZER; w.ss = PTHREAD_SPINLOCK_INITIALIZER;
  if (p.cfg[0]) { sim_fault_arm(p.cfg[0] & 1 ? F_TLS : F_MEM, p.cfg[1], p.cfg[2]); label("attach-faults"); nontriv(); }
  sim_lib_ctors();
  if (p.cfg[0]) { if (p.cfg[3] & 1) { pthread_t s = CALL(pthread_self, pthread_self()); if (!s.p) { EXPECT(sim_fault_hit() > 0, "spurious-error", "pthread_self failed"); label("failed"); } } disarm(); }
  { pthread_t a = CALL(pthread_self, pthread_self()), b = CALL(pthread_self, pthread_self()); EXPECT(a.p, "retry", "pthread_self failed although resources were available%s", p.cfg[0] ? " again" : ""); EXPECT(a.p == b.p && a.x == b.x, "identity", "the main thread has two identities"); }
  for (int i = 0; i < NT; i++) w.t[i].fib = -1; OK(pthread_key_create, pthread_key_create(&w.shk, shdtor));
  for (int i = 0; i < w.nt; i++) { r = CALL(pthread_create, pthread_create(&w.t[i].id, 0, thread_setup, (void *)(size_t)i)); EXPECT(r == 0, "result", "create %s", ename(r)); FN("start"); sim_wait_until(started_pred, &w.t[i]); }
  sim_wait_quiet(); sim_atomic(at); FN("-"); sim_mark(); w.go = 1; sim_wait_quiet(); FN("final");
  for (int i = 0; i < w.nt; i++) { if (!sim_fiber_done(w.t[i].fib)) sim_fail("stranded", "thread %d never ends", i); OK(pthread_join, pthread_join(w.t[i].id, 0)); TH &h = w.t[i]; EXPECT(h.dtor == 1, "existing", "the destructor of a key ran %d times", h.dtor); OK(pthread_mutex_destroy, pthread_mutex_destroy(&h.m)); OK(sem_destroy, sem_destroy(&h.s)); OK(sem_destroy, sem_destroy(&h.req)); OK(sem_destroy, sem_destroy(&h.ack)); OK(pthread_key_delete, pthread_key_delete(h.k)); }
  sim_wait_quiet(); OK(pthread_key_delete, pthread_key_delete(w.shk)); for (int k = 0; k < 3; k++) OK(pthread_mutex_destroy, pthread_mutex_destroy(&w.sm[k])); OK(pthread_cond_destroy, pthread_cond_destroy(&w.sc)); OK(pthread_rwlock_destroy, pthread_rwlock_destroy(&w.sr)); OK(pthread_spin_destroy, pthread_spin_destroy(&w.ss));
  sim_lib_dtors(); leak_check();
}
static void gen(Rng &r, Prog &p, int) {
  p.nt = r.p(1, 2) ? 1 : r.r(2, 3); if (r.p(1, 8)) { p.cfg[0] = r.r(1, 2); p.cfg[1] = r.r(1, 3); p.cfg[2] = r.p(1, 2) ? 1 : r.r(1, 5); p.cfg[3] = r.n(4); } int style = r.n(4), only = r.n(X_EXIST);
  static const int cls[NOPS][4] = {{F_MEM, F_MEM, F_EVENT, F_EVENT}, {F_MEM, F_MEM, F_EVENT, F_SEM}, {F_MEM, F_MEM, F_EVENT, F_SEM}, {F_MEM, F_MEM, F_SEM, F_EVENT}, {F_MEM, F_MEM, F_EVENT, F_EVENT}, {F_MEM, F_SEM, F_SEM, F_EVENT}, {F_MEM, F_TLS, F_TLS, F_MEM}, {F_MEM, F_MEM, F_MEM, F_EVENT}, {F_MEM}, {F_MEM}, {F_MEM}, {F_MEM}, {F_MEM, F_EVENT, F_THREAD, F_MEM}, {F_MEM, F_EVENT, F_MEM, F_SEM}, {F_MEM, F_EVENT, F_DUP, F_MEM}, {F_MEM}, {F_MEM}};
  for (int t = 0; t < p.nt; t++) { int n = r.r(1, 6); while (n--) { Op &o = p.t[t].op[p.t[t].n++]; o.c = style == 0 ? only : style == 1 ? X_STATIC : r.p(1, 6) ? r.r(X_EXIST, X_YIELD) : r.n(X_EXIST); o.a = r.n(64); o.d = r.p(1, 12) ? r.n(F_NCLASS) : cls[o.c][r.n(4)]; if (style == 1 && r.p(1, 2)) o.a = only % NST; if (r.p(5, 6)) { int nth = r.p(1, 2) ? 1 : r.p(2, 3) ? r.r(1, 4) : r.r(1, 10); o.b = nth | (r.p(2, 3) ? 1 : r.r(1, 9)) << 8; } else o.b = 0; } }
}
static RegF f({"fault", gen, run, opname});
static RegP p23("C23", "fault", PR_FAULT, 4, 1), p22("C22", "fault", PR_FAULT, 1, 1);
