// Thread lifecycle: creation, join, detach, identities, cancellation, cleanup handlers, thread-specific data, foreign threads.
#include "client.h"
#include <stdio.h>
#include <signal.h>
#include <exception>
#include <stdlib.h>
enum { L_CREATE, L_JOIN, L_TRYJOIN, L_TIMEDJOIN, L_DETACH, L_KILL0, L_CANCEL, L_IDENT, L_EXIT, L_DELAY, L_TESTC, L_SETSTATE, L_SETTYPE, L_SPIN,
       L_PUSH, L_POP, L_GATE, L_MUTEX, L_KSET, L_KGET, L_KCREATE, L_KDEL, L_RAWDETACH, L_STALE, L_YIELD, L_BADARG, L_TGATE, L_POKE, L_NOCP, L_BAR, L_HWAIT, NOPS };
static const char *names[] = {"create", "join", "tryjoin", "timedjoin", "detach", "kill0", "cancel", "identity", "exit", "delay", "testcancel", "setcancelstate", "setcanceltype", "compute",
  "cleanup_push", "cleanup_pop", "sem_wait", "mutex", "setspecific", "getspecific", "key_create", "key_delete", "thread_detach_np", "stale_ops", "yield", "bad_arguments", "sem_timedwait", "attributes_of", "functions_that_are_no_cancellation_points", "barrier_wait", "pthreadCancelableWait"};
static const char *opname(int c) { return c >= 0 && c < NOPS ? names[c] : "?"; }
enum { PR_TSD = 10, PR_LIFE, PR_ID, PR_CANCEL, PR_CLEAN, PR_JOINC, PR_RAW = 24 };
enum { MAXI = 24, NK = 3, MAXV = 800, MAXTOK = 200, JOINABLE = 0, DETACHED = 1, GONE = 2 };
// cfg: 0 roots, 1-8 slot flags (1 detached, 2 raw, 4 attr given), 9 keys present at start (bit k: created, bit 4+k: destructor), 10 attach again at the end, 11 gate initial value
struct Val { int inst, k, gen, depth, flags; int state; }; // 0 current, 1 delivered, 2 replaced, 3 not due
struct Tok { int inst, flags, state; }; // 0 pushed, 1 popping, 2 done
struct Inst { int slot; bool raw, idknown, uknown; pthread_t id; int fib; bool exiting, cancelled, finished; int det, claim, runs; void *value; int cancel_req, cancel_done; bool cdis, async, newdis, newasync;
  int incall, obj; bool must; i64 abs, f0, t0; int st[40], nst; int running; u64 uniq; int nguard; int cur[NK], curgen[NK]; int dcalls[NK], dgen[NK]; u64 exitseq; int phase /*0 code 1 handlers/exit 2 destructors*/; bool rawreleased, uncaught, termed; bool attr, inexitop, semlost; int ddepth, epoch, named; };
struct Key { bool live, dtor, deleted; pthread_key_t k; int gen, busy; };
struct GenInfo { bool deleted, dtor; u64 delend; };
struct LW { const Prog *p; Inst in[MAXI]; int ni; Key key[NK]; GenInfo g[300]; int ngen; Val v[MAXV]; int nv; Tok tok[MAXTOK]; int ntok; sem_t gate; int gatewaiters; pthread_barrier_t bar; int barin, barout; pthread_mutex_t mx; HANDLE hsem; int hunits; int mxowner; u64 seq; i64 slack; int go; };
static LW *W;
static int byfib[64];
static int go_pred(void *) { return W->go; }
static int me(void) { int f = sim_cur(); return f >= 0 && f < 64 ? byfib[f] : -1; }
static bool fdone(int j) { Inst &x = W->in[j]; return x.fib >= 0 && sim_fiber_done(x.fib); }
#define IMPK(h) ((h).raw && g_flavour ? "implicit-cleanup" : "cleanup")
static bool leaving(const Inst &x) { return x.exiting || x.inexitop || (x.raw && x.cancel_req); }
// in the C++ flavour the simulator redirects a cancelled thread only here
static void redirected(void) { if (sim_redirected()) sim_spin_point(); }
static void begin(Inst &h, int op, int obj, i64 abs) { h.incall = op + 1; h.obj = obj; h.abs = abs; h.f0 = sim_forced(); h.t0 = sim_now(); ++W->seq; h.must = h.cancel_done && !h.cdis && !h.exiting && !h.inexitop; }
static void lost(Inst &h, int op) { if (h.must) sim_fail("cancel-lost", "%s returned in thread %d though a cancellation was pending and enabled when it was called", names[op], (int)(&h - W->in)); }
static void end(Inst &h) { int op = h.incall - 1; h.incall = 0; ++W->seq; if (op == L_DELAY || op == L_GATE || op == L_TGATE) lost(h, op); }
static void *thread_main(void *);
static unsigned raw_main(void *);
static void val_check(void);
static void same_id(Inst &h, const char *where) { pthread_t s = CALL(pthread_self, pthread_self()); if (h.idknown) EXPECT(pthread_equal(s, h.id), "identity", "pthread_self in %s differs from the identity the thread had before", where); }
static void learn(int i) { // the identity is new: compare with all others
  Inst &h = W->in[i]; bool known = h.idknown; (void)known;
  for (int j = 0; j < W->ni; j++) if (j != i && W->in[j].idknown) EXPECT(!pthread_equal(W->in[j].id, h.id), "identity", "two threads (%d and %d) have the same identity", j, i);
}
static void learn_seq(int i) { Inst &h = W->in[i]; u64 u = pthread_getunique_np(h.id); if (h.uknown) EXPECT(u == h.uniq, "identity", "the sequence number of a thread changed from %llu to %llu", h.uniq, u); h.uniq = u; h.uknown = true;
  for (int j = 0; j < W->ni; j++) if (j != i && W->in[j].uknown) EXPECT(W->in[j].uniq != u, "identity", "threads %d and %d have the same sequence number %llu", j, i, u); }
// ------------------------------------------------ keys
static int newval(int i, int k, int depth, int flags) { if (W->nv >= MAXV) return -1; Val &v = W->v[W->nv]; v.inst = i; v.k = k; v.gen = W->key[k].gen; v.depth = depth; v.flags = flags; v.state = 0; return W->nv++; }
static int curof(int i, int k) { Inst &h = W->in[i]; return h.curgen[k] == W->key[k].gen ? h.cur[k] : 0; } // index+1
static void do_kset(int i, int k, int depth, int flags, bool null) {
  Inst &h = W->in[i]; Key &K = W->key[k]; if (!K.live) return; int vi = null ? -1 : newval(i, k, depth, flags); if (!null && vi < 0) return;
  K.busy++; int old = curof(i, k); 
  if (h.phase == 2 && h.raw && 0) {}
  if (old) W->v[old - 1].state = 2; h.cur[k] = vi + 1; h.curgen[k] = K.gen;
  int r = CALL(pthread_setspecific, pthread_setspecific(K.k, vi < 0 ? 0 : &W->v[vi])); K.busy--;
  EXPECT(r == 0, "result", "pthread_setspecific returned %s", ename(r)); label(null ? "set-null" : "set");
}
static void do_kget(int i, int k) { Key &K = W->key[k]; if (!K.live) return; K.busy++; int c = curof(i, k); SetLastError(4321); void *p = CALL(pthread_getspecific, pthread_getspecific(K.k)); K.busy--; EXPECT(GetLastError() == 4321, "tsd", "pthread_getspecific changed the caller's last-error value"); void *want = c ? (void *)&W->v[c - 1] : 0; EXPECT(p == want, "tsd", "getspecific gave %s instead of %s", p ? "another value" : "NULL", want ? "the value last set" : "NULL"); }
static void do_kdel(int i, int k) {
  Key &K = W->key[k]; if (!K.live || K.busy) return; K.live = false; K.deleted = true; int g = K.gen; W->g[g].deleted = true; pthread_key_t kk = K.k; K.busy++;
  int r = CALL(pthread_key_delete, pthread_key_delete(kk)); K.busy--; W->g[g].delend = ++W->seq; EXPECT(r == 0, "result", "pthread_key_delete returned %s", ename(r)); label("key-deleted"); (void)i;
}
static void dtor_body(int k, void *p); void note_cancel(int);
static void d0(void *p) { dtor_body(0, p); } static void d1(void *p) { dtor_body(1, p); } static void d2(void *p) { dtor_body(2, p); }
static void (*const dtors[NK])(void *) = {d0, d1, d2};
static void do_kcreate(int k, bool dt) { Key &K = W->key[k]; if (K.live || K.busy || W->ngen >= 300) return; K.busy++; K.gen = W->ngen++; int r = CALL(pthread_key_create, pthread_key_create(&K.k, dt ? dtors[k] : 0)); K.busy--; EXPECT(r == 0, "result", "pthread_key_create returned %s", ename(r)); W->g[K.gen].dtor = dt; W->g[K.gen].deleted = false; K.dtor = dt; K.live = true; if (K.gen >= NK) label("key-recreated"); }
static void use_mutex(int i) { Inst &h = W->in[i]; (void)h; int r = CALL(pthread_mutex_lock, pthread_mutex_lock(&W->mx)); EXPECT(r == 0, "result", "mutex_lock returned %s", ename(r)); EXPECT(W->mxowner < 0, "exclusion", "two threads own the mutex"); W->mxowner = i; sim_point(); EXPECT(W->mxowner == i, "exclusion", "two threads own the mutex"); W->mxowner = -1; r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(&W->mx)); EXPECT(r == 0, "result", "mutex_unlock returned %s", ename(r)); }
static void do_detach(int i, int j);
// things a handler or destructor may do; cancellation must not act here when the thread is on its way out
static void inner_ops(int i, int flags, const char *where) {
  Inst &h = W->in[i]; int r; bool out = h.exiting || h.inexitop; int oi = h.incall, oo = h.obj; i64 oa = h.abs;
  if (flags & 1) { begin(h, L_TESTC, 0, -1); FN("pthread_testcancel"); bool must = !out && h.cancel_done && !h.cdis; pthread_testcancel(); FN("-"); EXPECT(!must, "cancel-lost", "testcancel returned with a cancellation pending"); end(h); label(out ? "testcancel-in-exit" : "testcancel-in-pop"); }
  if (flags & 2) { begin(h, L_MUTEX, 0, -1); use_mutex(i); end(h); }
  if (flags & 4) { struct timespec ts = {0, 1500000}; i64 a = sim_now() + 15000; begin(h, L_DELAY, 0, a); r = CALL(pthread_delay_np, pthread_delay_np(&ts)); end(h); EXPECT(r == 0, "result", "pthread_delay_np in a %s returned %s", where, ename(r)); EXPECT((i64)sim_now() >= a, "early-timeout", "delay in a %s ended early", where); }
  if (flags & 8) { struct timespec ts = ts_of(sim_now() + 20000); begin(h, L_TGATE, 0, sim_now() + 20000); W->gatewaiters++; r = CALL(sem_timedwait, sem_timedwait(&W->gate, &ts)); int e = ERRNO; W->gatewaiters--; end(h); EXPECT(r == 0 || e == ETIMEDOUT, "result", "sem_timedwait in a %s failed with %s", where, ename(e)); }
  if (flags & 16) { same_id(h, where); }
  if ((flags & 32) && out && h.det == JOINABLE && h.claim < 0 && !h.raw) { do_detach(i, i); label("self-detach-in-exit"); }
  if (flags & 64) { do_kget(i, flags % NK); }
  if (flags & 128) { begin(h, L_SETSTATE, 0, -1); int old = -1; bool was = h.cdis; r = CALL(pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old)); EXPECT(r == 0, "result", "setcancelstate returned %s", ename(r)); if (!out) { EXPECT(old == (was ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE), "result", "setcancelstate gave old state %d", old); h.cdis = true; } if (old == PTHREAD_CANCEL_ENABLE) { r = CALL(pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, 0)); h.cdis = was; } else if (!out) h.cdis = was; end(h); }
  h.incall = oi; h.obj = oo; h.abs = oa;
}
static void dtor_body(int k, void *p) {
  const char *ofn = fstate[sim_cur()].fn; FN("destructor");
  int i = me(); EXPECT(i >= 0, "destructor", "destructor called in a thread that has no keys"); Inst &h = W->in[i];
  EXPECT(p != 0, "destructor", "destructor called with NULL");
  Val *v = (Val *)p; int n = v - W->v; EXPECT(n >= 0 && n < W->nv && (char *)p == (char *)&W->v[n], "destructor", "destructor called with a value that was never set");
  EXPECT(v->k == k && v->inst == i, "destructor", "destructor called with the value of another key or thread");
  EXPECT(v->state != 1, "destructor", "destructor called twice for one value"); EXPECT(v->state != 2, "destructor", "destructor called with a value that had been replaced");
  EXPECT(h.exiting || h.phase == 2 || !h.finished, "destructor", "destructor called in a running thread"); 
  if (h.nst) { int n = h.nst; if (!h.exiting) note_cancel(i); sim_fail(IMPK(h), "key destructor called in %s with %d cleanup handlers still to run", h.raw ? "a thread not created by the library" : "a thread", n); }
  if (!h.exiting) { // acted on a cancellation in a foreign thread, or detached by itself
    if (h.raw && !h.inexitop && h.cancel_req) note_cancel(i); else if (!h.inexitop) sim_fail("destructor", "destructor called in a running thread"); }
  EXPECT(h.nguard == 0, "cleanup", "key destructor called with %d automatic objects not yet destroyed", h.nguard);
  GenInfo &g = W->g[v->gen]; EXPECT(!(g.deleted && g.delend && g.delend < h.exitseq), "destructor", "destructor called for a key that had been deleted before the thread began to exit");
  if (h.dgen[k] != v->gen) { h.dgen[k] = v->gen; h.dcalls[k] = 0; }
  EXPECT(++h.dcalls[k] <= PTHREAD_DESTRUCTOR_ITERATIONS, "destructor", "destructor called more than %d times for one key", PTHREAD_DESTRUCTOR_ITERATIONS);
  v->state = 1; if (h.curgen[k] == v->gen && h.cur[k] == n + 1) h.cur[k] = 0; h.phase = 2; label("destructor"); nontriv(); if (v->depth > 1) label("destructor-again"); if (v->depth == 4) label("destructor-4");
  Key &K = W->key[k]; if (K.live && K.gen == v->gen) { K.busy++; void *q = CALL(pthread_getspecific, pthread_getspecific(K.k)); K.busy--; EXPECT(q == 0, "destructor", "the value was not cleared before its destructor was called"); }
  int d = v->depth, f = v->flags;
  inner_ops(i, f, "destructor");
  if (f & 0x100) do_kset(i, k, d + 1, f ^ 0, false);
  if (f & 0x200) do_kset(i, (k + 1) % NK, d + 1, f & ~0x200, false);
  if ((f & 0x400) && d == 1) do_kdel(i, k);
  if ((f & 0x800) && d == 1) { do_kdel(i, (k + 1) % NK); }
  if (f & 0x1000) { do_kget(i, 0); do_kget(i, 1); do_kget(i, 2); }
  FN(ofn);
}
// ------------------------------------------------ cleanup handlers
static void handler(void *p) {
  const char *ofn = fstate[sim_cur()].fn; FN("cleanup handler");
  int i = me(); Tok *t = (Tok *)p; int n = t - W->tok; Inst &h = W->in[i];
  EXPECT(n >= 0 && n < W->ntok && t->inst == i, "cleanup", "cleanup handler called with the argument of another thread");
  EXPECT(t->state != 2, "cleanup", "a cleanup handler ran twice"); 
  EXPECT(h.nst > 0 && h.st[h.nst - 1] == n, "cleanup", "cleanup handlers ran out of order"); 
  if (t->state == 0) { // not popped by the program: the thread must be on its way out
    if (!h.exiting) { EXPECT(h.cancel_req, "cancel", "cleanup handler ran in a thread that is neither exiting nor cancelled"); }
    label("handler-on-exit"); nontriv(); } else label("handler-on-pop");
  h.nst--; t->state = 2; bool ex = h.exiting; int was = h.incall; if (!ex && h.inexitop) {}
  // the outermost handler notes the cancellation; inner ones run first, so note it here too
  bool popped = W->tok[n].flags & 0x10000; if (!popped && !h.exiting) { extern void note_cancel(int); note_cancel(i); }
  inner_ops(i, t->flags & 0xff, "cleanup handler");
  if (t->flags & 0x100) do_kset(i, t->flags % NK, 1, 0, false);
  if ((t->flags & 0x200) && W->ntok < MAXTOK) { int q = W->ntok++; W->tok[q].inst = i; W->tok[q].flags = 0x10000; W->tok[q].state = 0; h.st[h.nst++] = q; pthread_cleanup_push(handler, &W->tok[q]); sim_point(); W->tok[q].state = 1; pthread_cleanup_pop(1); EXPECT(W->tok[q].state == 2, "cleanup", "pop(1) inside a handler did not run the handler"); label("nested-handler"); }
  (void)was; FN(ofn);
}
static void handler_same(void *a) { int i = (int)(size_t)a; Inst &h = W->in[i]; EXPECT(me() == i, "cleanup", "cleanup handler called with the argument of another thread"); EXPECT(h.nst > 0, "cleanup", "a cleanup handler ran twice"); EXPECT(W->tok[h.st[h.nst - 1]].flags & 0x400, "cleanup", "cleanup handlers ran out of order"); label("same-handler"); handler(&W->tok[h.st[h.nst - 1]]); }
static bool cp_op(int op) { return op == L_JOIN || op == L_TRYJOIN || op == L_TIMEDJOIN || op == L_DELAY || op == L_TESTC || op == L_GATE || op == L_TGATE || op == L_HWAIT; }
void note_cancel(int i) {
  Inst &h = W->in[i]; int op = h.incall - 1;
  EXPECT(h.cancel_req, "cancel", "thread %d was cancelled but nobody asked", i);
  if (op == L_SETSTATE) EXPECT((h.async) && (!h.cdis || !h.newdis), "cancel", "thread %d was cancelled in setcancelstate (type %s)", i, h.async ? "asynchronous" : "deferred");
  else if (op == L_SETTYPE) EXPECT(!h.cdis && (h.async || h.newasync), "cancel", "thread %d was cancelled in setcanceltype though it stays deferred or is disabled", i);
  else { EXPECT(!h.cdis, "cancel", "thread %d was cancelled with cancellation disabled", i);
    EXPECT(h.async || (h.incall && cp_op(op)), "cancel", "thread %d was cancelled in %s, which is not a cancellation point", i, h.incall ? names[op] : "its own code"); }
  if (h.incall) { if (op == L_JOIN || op == L_TRYJOIN || op == L_TIMEDJOIN) { Inst &x = W->in[h.obj]; if (x.claim == i) x.claim = -1; label("cancelled-in-join"); } else if (op == L_GATE || op == L_TGATE) { W->gatewaiters--; h.semlost = h.raw && g_flavour; } else if (h.async) label("cancelled-async"); }
  h.exiting = h.cancelled = true; h.exitseq = ++W->seq; h.incall = 0; h.cdis = true; h.value = PTHREAD_CANCELED; label("cancelled"); nontriv();
}
static void outer(void *a) { // outermost handler of every thread
  int i = (int)(size_t)a; Inst &h = W->in[i]; FN("outer handler");
  if (!h.exiting) note_cancel(i);
  EXPECT(h.nst == 0, "cleanup", "the outermost cleanup handler ran before %d inner ones", h.nst);
  h.phase = 1;
}
// ------------------------------------------------ operations
static void do_detach(int i, int j) {
  Inst &h = W->in[i], &x = W->in[j]; int d0 = x.det; bool done0 = fdone(j), mine = false;
  if (d0 == JOINABLE) { if (x.claim >= 0 && x.claim != i) return; if (x.claim == i && i != j) return; x.claim = i; mine = true; }
  bool live0 = !x.exiting; int ep = x.epoch;
  begin(h, L_DETACH, j, -1); int r = CALL(pthread_detach, pthread_detach(x.id)); end(h);
  if (mine) { EXPECT(r == 0, "result", "detach of a joinable thread returned %s", ename(r)); x.det = DETACHED; x.claim = -1; label(done0 ? "detach-ended" : live0 && x.exiting ? "detach-while-exiting" : live0 ? "detach-running" : "detach-exiting"); nontriv(); return; }
  if (d0 == GONE) { EXPECT(r == ESRCH, "result", "detach of a thread already joined returned %s", ename(r)); label("stale"); }
  else if (done0) { EXPECT(r == ESRCH, "result", "detach of a detached thread that has ended returned %s", ename(r)); label("stale"); }
  else if (!leaving(x) && x.epoch == ep) EXPECT(r == EINVAL, "result", "detach of a detached thread returned %s", ename(r));
  else EXPECT(r == EINVAL || r == ESRCH, "result", "detach of a detached thread returned %s", ename(r));
}
static void do_join(int i, int j, int op, i64 rel) {
  Inst &h = W->in[i], &x = W->in[j]; int d0 = x.det; bool done0 = fdone(j), mine = false, self = i == j; i64 abs = -1; int r; void *v = (void *)0x77;
  if (op == L_JOIN && j <= i && d0 == JOINABLE && !self) return;
  if (d0 == JOINABLE && !self) { if (x.claim >= 0) return; x.claim = i; mine = true; }
  if (op == L_TIMEDJOIN) { abs = (i64)sim_now() + rel; if (abs < EPOCH) abs = EPOCH; } struct timespec ts = ts_of(abs < 0 ? 0 : abs);
  bool wantv = !(rel & 2); int ep = x.epoch; bool nullabs = op == L_TIMEDJOIN && rel == 7 && j > i; 
  begin(h, op == L_TIMEDJOIN && nullabs ? L_JOIN : op, j, nullabs ? -1 : abs);
  if (op == L_JOIN) r = CALL(pthread_join, pthread_join(x.id, wantv ? &v : 0)); else if (op == L_TRYJOIN) r = CALL(pthread_tryjoin_np, pthread_tryjoin_np(x.id, wantv ? &v : 0)); else r = CALL(pthread_timedjoin_np, pthread_timedjoin_np(x.id, wantv ? &v : 0, nullabs ? 0 : &ts));
  end(h); 
  if (mine) { x.claim = -1; if (op != L_TRYJOIN && (r == 0 || r == ETIMEDOUT)) lost(h, op);
    switch (r) {
    case 0: EXPECT(fdone(j), "join", "%s returned success and the thread has not ended", names[op]); if (wantv && !x.uncaught) EXPECT(v == x.value, "join", "%s gave exit value %p instead of %p", names[op], v, x.value); x.det = GONE; label(x.cancelled ? "joined-cancelled" : "joined"); if (!done0) { label("join-waited"); nontriv(); } break;
    case EBUSY: EXPECT(op == L_TRYJOIN, "result", "%s returned EBUSY", names[op]); EXPECT(!done0, "result", "tryjoin returned EBUSY for a thread that had ended"); label("tryjoin-busy"); nontriv(); break;
    case ETIMEDOUT: EXPECT(op == L_TIMEDJOIN && !nullabs, "result", "%s returned ETIMEDOUT", names[op]); EXPECT((i64)sim_now() >= abs, "early-timeout", "timedjoin timed out %lld ns early", (abs - (i64)sim_now()) * 100); EXPECT(!done0, "result", "timedjoin timed out for a thread that had ended"); label("timedjoin-timeout"); nontriv(); break;
    default: sim_fail("result", "%s of a joinable thread returned %s", names[op], ename(r)); }
    return; }
  if (self && d0 == JOINABLE) { EXPECT(r == EDEADLK || (r == EINVAL && x.det == DETACHED), "result", "%s of itself returned %s", names[op], ename(r)); label("join-self"); return; }
  if (d0 == GONE) { EXPECT(r == ESRCH, "result", "%s of a thread already joined returned %s", names[op], ename(r)); label("stale"); nontriv(); }
  else if (done0) { EXPECT(r == ESRCH, "result", "%s of a detached thread that has ended returned %s", names[op], ename(r)); label("stale"); nontriv(); }
  else if (!leaving(x) && x.epoch == ep) EXPECT(r == EINVAL, "result", "%s of a detached thread returned %s", names[op], ename(r));
  else EXPECT(r == EINVAL || r == ESRCH, "result", "%s of a detached thread returned %s", names[op], ename(r));
}
static bool reclaimed(int j) { Inst &x = W->in[j]; return x.det == GONE || (x.det == DETACHED && fdone(j)); }
static void do_kill0(int i, int j) { Inst &h = W->in[i], &x = W->in[j]; bool gone0 = reclaimed(j); int ep = x.epoch; begin(h, L_KILL0, j, -1); int r = CALL(pthread_kill, pthread_kill(x.id, 0)); end(h);
  if (gone0) { EXPECT(r == ESRCH, "result", "pthread_kill(0) of a reclaimed thread returned %s", ename(r)); label("stale"); nontriv(); } else if (!leaving(x) && x.epoch == ep) EXPECT(r == 0, "result", "pthread_kill(0) of a live thread returned %s", ename(r)); else EXPECT(r == 0 || r == ESRCH, "result", "pthread_kill(0) returned %s", ename(r)); }
// name, scheduling parameters and affinity of a thread that may be on its way out: it answers or is gone, and nothing reaches another thread
static void do_poke(int i, int j, int b) { Inst &h = W->in[i], &x = W->in[j]; bool gone0 = reclaimed(j); int ep = x.epoch, named0 = x.named; pthread_t id = x.id; int r; const char *what; char nm[32], want[32]; snprintf(want, sizeof want, "T%d.%d", j, ep); memset(nm, 'Q', sizeof nm); int pol = -1; struct sched_param sp; sp.sched_priority = (j & 1) + 1; cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(0, &cs);
  begin(h, L_POKE, j, -1);
  switch ((unsigned)b % 6) {
  case 0: what = "pthread_setname_np"; r = CALL(pthread_setname_np, pthread_setname_np(id, want)); break;
  case 1: what = "pthread_getname_np"; r = CALL(pthread_getname_np, pthread_getname_np(id, nm, sizeof nm)); break;
  case 2: what = "pthread_setschedparam"; r = CALL(pthread_setschedparam, pthread_setschedparam(id, SCHED_OTHER, &sp)); break;
  case 3: what = "pthread_getschedparam"; r = CALL(pthread_getschedparam, pthread_getschedparam(id, &pol, &sp)); break;
  case 4: what = "pthread_getaffinity_np"; r = CALL(pthread_getaffinity_np, pthread_getaffinity_np(id, sizeof cs, &cs)); break;
  default: what = "pthread_setaffinity_np"; r = CALL(pthread_setaffinity_np, pthread_setaffinity_np(id, sizeof cs, &cs)); break; }
  end(h); bool sure = !leaving(x) && x.epoch == ep;
  if (gone0) { EXPECT(r == ESRCH, "result", "%s of a reclaimed thread returned %s", what, ename(r)); label("stale"); nontriv(); } else if (sure) EXPECT(r == 0, "result", "%s of a live thread returned %s", what, ename(r)); else { EXPECT(r == 0 || r == ESRCH, "result", "%s returned %s", what, ename(r)); label("poke-leaving"); nontriv(); }
  if ((unsigned)b % 6 == 0 && r == 0 && x.epoch == ep) x.named = ep + 1;
  if ((unsigned)b % 6 == 1 && r == 0) { char pre[16]; snprintf(pre, sizeof pre, "T%d.", j); bool own = sure ? !strcmp(nm, want) : !strncmp(nm, pre, strlen(pre)); /* a thread on its way out and back again may still answer for its old identity */ EXPECT(own || !nm[0], "identity", "pthread_getname_np of %s gave \"%.20s\"", want, nm); if (named0 == ep + 1 && sure) EXPECT(own, "identity", "pthread_getname_np did not give the name set before"); }
  if ((unsigned)b % 6 == 3 && r == 0) EXPECT(pol == SCHED_OTHER && sp.sched_priority >= 0 && sp.sched_priority <= 2, "result", "pthread_getschedparam gave policy %d priority %d", pol, sp.sched_priority);
}
static void do_cancel(int i, int j) {
  Inst &h = W->in[i], &x = W->in[j]; bool gone0 = reclaimed(j); bool selfasync = i == j && h.async && !h.cdis && !h.exiting;  int ep = x.epoch; if (!gone0) x.cancel_req++;
  begin(h, L_CANCEL, j, -1); int r = CALL(pthread_cancel, pthread_cancel(x.id)); redirected(); end(h);
  EXPECT(!selfasync || h.cancel_req == 0, "cancel-lost", "pthread_cancel of the caller returned though its cancellation is asynchronous and enabled");
  if (gone0) { EXPECT(r == ESRCH, "result", "pthread_cancel of a reclaimed thread returned %s", ename(r)); label("stale"); nontriv(); }
  else if (r == 0) { if (x.epoch == ep) x.cancel_done++; label("cancel-sent"); }
  else EXPECT(r == ESRCH && (leaving(x) || x.epoch != ep || x.cancel_req > 1), "result", "pthread_cancel of a live thread returned %s", ename(r));
}
static void do_stale(int i, int j) { // every operation on the identity of a reclaimed thread
  if (!reclaimed(j)) return; pthread_t id = W->in[j].id; Inst &h = W->in[i]; (void)h; label("stale"); nontriv(); int pol = 0; struct sched_param sp; sp.sched_priority = 0; cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(0, &cs); char nm[32] = "x"; int r;
#define ST(name, e) r = CALL(name, e); EXPECT(r == ESRCH, "result", #name " of a reclaimed thread returned %s", ename(r))
  ST(pthread_kill, pthread_kill(id, 0)); ST(pthread_getschedparam, pthread_getschedparam(id, &pol, &sp)); ST(pthread_setschedparam, pthread_setschedparam(id, SCHED_OTHER, &sp)); ST(pthread_join, pthread_join(id, 0)); ST(pthread_tryjoin_np, pthread_tryjoin_np(id, 0)); ST(pthread_detach, pthread_detach(id)); ST(pthread_cancel, pthread_cancel(id)); ST(pthread_setname_np, pthread_setname_np(id, "a")); ST(pthread_getname_np, pthread_getname_np(id, nm, 32)); ST(pthread_getaffinity_np, pthread_getaffinity_np(id, sizeof cs, &cs)); CPU_ZERO(&cs); CPU_SET(0, &cs); ST(pthread_setaffinity_np, pthread_setaffinity_np(id, sizeof cs, &cs)); struct timespec ts = ts_of(EPOCH); ST(pthread_timedjoin_np, pthread_timedjoin_np(id, 0, &ts));
}
static void do_create(int i, int s) { // i -1: main
  LW &w = *W; if (w.ni >= MAXI || s >= w.p->nt) return; int j = w.ni++; Inst &x = w.in[j]; memset(&x, 0, sizeof x); x.slot = s; x.fib = -1; x.claim = -1; int fl = w.p->cfg[1 + s]; x.raw = fl & 2; x.det = (fl & 1) || x.raw ? DETACHED : JOINABLE; int r;
  if (i >= 0) begin(w.in[i], L_CREATE, j, -1);
  if (x.raw) { DWORD id; sim_user_region(1); HANDLE t = CreateThread(0, 0, (LPTHREAD_START_ROUTINE)raw_main, (void *)(size_t)j, 0, &id); CloseHandle(t); sim_user_region(0); }
  else { pthread_t id; memset(&id, 0x5a, sizeof id); pthread_attr_t a, *pa = 0; if (fl & (5 | 8 | 16 | 32)) { pa = &a; r = CALL(pthread_attr_init, pthread_attr_init(&a)); EXPECT(r == 0, "result", "attr_init %s", ename(r)); r = pthread_attr_setdetachstate(&a, fl & 1 ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE); EXPECT(r == 0, "result", "setdetachstate %s", ename(r));
      if (fl & 8) { static const size_t sz[] = {0x1000, 0x8000, 0x10000, 0x10001, 0x40000, 0x100000}; r = pthread_attr_setstacksize(&a, sz[(s + i + 7) % 6]); EXPECT(r == 0, "result", "setstacksize %s", ename(r)); }
      if (fl & 16) { struct sched_param sp; sp.sched_priority = 1; r = pthread_attr_setschedparam(&a, &sp); EXPECT(r == 0, "result", "attr_setschedparam %s", ename(r)); r = pthread_attr_setinheritsched(&a, PTHREAD_EXPLICIT_SCHED); EXPECT(r == 0, "result", "setinheritsched %s", ename(r)); }
      if (fl & 32) { char nm[16]; snprintf(nm, sizeof nm, "T%d.0", j); r = pthread_attr_setname_np(&a, nm); EXPECT(r == 0, "result", "attr_setname %s", ename(r)); x.named = 1; } }
    pthread_t *tid = (pthread_t *)sim_umalloc(sizeof *tid); // several threads may look at it
    r = CALL(pthread_create, pthread_create(tid, pa, thread_main, (void *)(size_t)j)); EXPECT(r == 0, "result", "pthread_create returned %s", ename(r)); id = *tid; sim_ufree(tid); if (pa) { r = CALL(pthread_attr_destroy, pthread_attr_destroy(&a)); EXPECT(r == 0, "result", "attr_destroy %s", ename(r)); }
    if (x.idknown) EXPECT(pthread_equal(x.id, id), "identity", "the identity pthread_create gave differs from what the thread sees as its own"); else { x.id = id; x.idknown = true; learn(j); } }
  if (i >= 0) end(w.in[i]);
}
// Functions that never act on a cancel request, each with objects of its own.
static void once_fn(void) {}
static void nocp(int i, int which, int v) {
  Inst &h = W->in[i]; int r; auto ok = [&](int r, const char *n) { EXPECT(r == 0, "result", "%s returned %s", n, ename(r)); };
#define OKC(n, e) do { r = CALL(n, e); ok(r, #n); } while (0)
  begin(h, L_NOCP, which, -1);
  switch (which) {
  case 0: { pthread_cond_t c = PTHREAD_COND_INITIALIZER; if (v & 1) OKC(pthread_cond_init, pthread_cond_init(&c, 0)); if (v & 2) OKC(pthread_cond_signal, pthread_cond_signal(&c)); if (v & 4) OKC(pthread_cond_broadcast, pthread_cond_broadcast(&c)); OKC(pthread_cond_destroy, pthread_cond_destroy(&c)); break; }
  case 1: { pthread_barrier_t b; OKC(pthread_barrier_init, pthread_barrier_init(&b, 0, 1)); for (int q = 0; q < 1 + (v & 1); q++) { r = CALL(pthread_barrier_wait, pthread_barrier_wait(&b)); EXPECT(r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "barrier_wait alone returned %d", r); } OKC(pthread_barrier_destroy, pthread_barrier_destroy(&b)); break; }
  case 2: { sem_t m; int val = -9; OKC(sem_init, sem_init(&m, 0, v & 1)); if (v & 2) OKC(sem_post, sem_post(&m)); if (v & 4) OKC(sem_post_multiple, sem_post_multiple(&m, 2)); r = CALL(sem_trywait, sem_trywait(&m)); EXPECT(r == 0 || (!(v & 7) && ERRNO == EAGAIN), "result", "sem_trywait failed"); OKC(sem_getvalue, sem_getvalue(&m, &val)); EXPECT(val == ((v & 1) + (v & 2) / 2 + (v & 4) / 2 - !!(v & 7)), "result", "semaphore value %d", val); OKC(sem_destroy, sem_destroy(&m)); break; }
  case 3: { pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER; if (v & 1) OKC(pthread_rwlock_init, pthread_rwlock_init(&l, 0)); if (v & 2) OKC(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(&l)); else { OKC(pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(&l)); if (v & 4) { OKC(pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(&l)); OKC(pthread_rwlock_unlock, pthread_rwlock_unlock(&l)); } } r = CALL(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(&l)); EXPECT(r == EBUSY, "result", "trywrlock of a held lock returned %s", ename(r)); OKC(pthread_rwlock_unlock, pthread_rwlock_unlock(&l)); OKC(pthread_rwlock_destroy, pthread_rwlock_destroy(&l)); break; }
  case 4: { pthread_spinlock_t l = PTHREAD_SPINLOCK_INITIALIZER; if (v & 1) OKC(pthread_spin_init, pthread_spin_init(&l, PTHREAD_PROCESS_PRIVATE)); if (v & 2) OKC(pthread_spin_lock, pthread_spin_lock(&l)); else OKC(pthread_spin_trylock, pthread_spin_trylock(&l)); OKC(pthread_spin_unlock, pthread_spin_unlock(&l)); OKC(pthread_spin_destroy, pthread_spin_destroy(&l)); break; }
  case 5: { pthread_once_t o = PTHREAD_ONCE_INIT; OKC(pthread_once, pthread_once(&o, once_fn)); OKC(pthread_once, pthread_once(&o, once_fn)); break; }
  case 6: { pthread_key_t k; OKC(pthread_key_create, pthread_key_create(&k, 0)); if (v & 1) OKC(pthread_setspecific, pthread_setspecific(k, &k)); EXPECT(CALL(pthread_getspecific, pthread_getspecific(k)) == (v & 1 ? &k : 0), "tsd", "wrong value of a private key"); if (v & 1) OKC(pthread_setspecific, pthread_setspecific(k, 0)); OKC(pthread_key_delete, pthread_key_delete(k)); break; }
  case 7: { int pol; struct sched_param sp; char nm[16]; cpu_set_t cs; OKC(pthread_getschedparam, pthread_getschedparam(h.id, &pol, &sp)); OKC(pthread_setschedparam, pthread_setschedparam(h.id, pol, &sp)); OKC(pthread_getname_np, pthread_getname_np(h.id, nm, sizeof nm)); OKC(pthread_getaffinity_np, pthread_getaffinity_np(h.id, sizeof cs, &cs)); OKC(pthread_kill, pthread_kill(h.id, 0)); if (v & 1) { struct timespec pr; CALL(sched_rr_get_interval, sched_rr_get_interval(0, &pr)); OKC(sched_yield, sched_yield()); } if (v & 2) { CALL(pthread_num_processors_np, pthread_num_processors_np()); OKC(pthread_setconcurrency, pthread_setconcurrency(2)); CALL(pthread_getconcurrency, pthread_getconcurrency()); } break; }
  case 8: { pthread_attr_t a; OKC(pthread_attr_init, pthread_attr_init(&a)); OKC(pthread_attr_setdetachstate, pthread_attr_setdetachstate(&a, PTHREAD_CREATE_JOINABLE)); OKC(pthread_attr_destroy, pthread_attr_destroy(&a)); break; }
  case 9: { pthread_mutexattr_t a; pthread_mutex_t m; OKC(pthread_mutexattr_init, pthread_mutexattr_init(&a)); OKC(pthread_mutexattr_settype, pthread_mutexattr_settype(&a, v % 3)); if (v & 4) OKC(pthread_mutexattr_setrobust, pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST)); OKC(pthread_mutex_init, pthread_mutex_init(&m, &a)); OKC(pthread_mutexattr_destroy, pthread_mutexattr_destroy(&a)); struct timespec ts = ts_of(sim_now() + 100 * MS);
      switch (v & 3) { case 0: case 1: OKC(pthread_mutex_lock, pthread_mutex_lock(&m)); break; case 2: OKC(pthread_mutex_trylock, pthread_mutex_trylock(&m)); break; case 3: OKC(pthread_mutex_timedlock, pthread_mutex_timedlock(&m, &ts)); } if (v & 4) { r = CALL(pthread_mutex_consistent, pthread_mutex_consistent(&m)); EXPECT(r == EINVAL, "result", "mutex_consistent returned %s", ename(r)); } OKC(pthread_mutex_unlock, pthread_mutex_unlock(&m)); OKC(pthread_mutex_destroy, pthread_mutex_destroy(&m)); break; }
  case 10: { pthread_condattr_t a; pthread_rwlockattr_t b; pthread_barrierattr_t c; OKC(pthread_condattr_init, pthread_condattr_init(&a)); OKC(pthread_condattr_destroy, pthread_condattr_destroy(&a)); OKC(pthread_rwlockattr_init, pthread_rwlockattr_init(&b)); OKC(pthread_rwlockattr_destroy, pthread_rwlockattr_destroy(&b)); OKC(pthread_barrierattr_init, pthread_barrierattr_init(&c)); OKC(pthread_barrierattr_destroy, pthread_barrierattr_destroy(&c)); break; }
  }
  if (h.cancel_done && !h.cdis && !h.exiting) { label("no-cancellation-point-while-pending"); nontriv(); }
  end(h);
}
static int exec(int i, int pc);
#ifdef PTW32_CLEANUP_CXX
// In the C++ flavour leaving a thread unwinds its stack: automatic objects go away innermost first, each in step with the handlers around it.
struct Guard { int i, q, inner; volatile int on; Guard(int ii, int qq, int in) : i(ii), q(qq), inner(in), on(!W->in[ii].raw) { if (on) W->in[i].nguard++; }
  ~Guard() { if (!on) return; Inst &h = W->in[i]; const Tok &t = W->tok[q]; sim_point(); EXPECT(me() == i, "cleanup", "an automatic object of one thread was destroyed in another"); EXPECT(inner ? t.state != 2 : t.state == 2, "cleanup", inner ? "a cleanup handler ran before the objects inside its frame were destroyed" : "an automatic object was destroyed before the cleanup handler inside it ran"); EXPECT(h.nguard > 0 && h.phase != 2, "cleanup", "automatic objects destroyed late"); h.nguard--; if (h.exiting || (t.state == 0 && h.cancel_req)) label("unwound-object"); } };
struct UserExc { int q; };
#define GUARD(v, i, q, in) Guard v(i, q, in)
#else
#define GUARD(v, i, q, in) (void)0
#endif
static int do_push(int i, int pc, int flags) {
  LW &w = *W; Inst &h = w.in[i]; int q = w.ntok++; w.tok[q].inst = i; w.tok[q].flags = flags; w.tok[q].state = 0; h.st[h.nst++] = q; volatile int npc = pc; volatile int qq = q;
  GUARD(outer, i, qq, 0);
#ifdef PTW32_CLEANUP_CXX
  try {
#endif
  begin(h, L_PUSH, 0, -1);
  void (*volatile hf)(void *) = flags & 0x400 ? handler_same : handler; void *volatile ha = flags & 0x400 ? (void *)(size_t)i : (void *)&W->tok[qq];
  pthread_cleanup_push(hf, ha); end(h);
  { GUARD(inner, i, qq, 1); npc = exec(i, pc); }
  { LW &w2 = *W; Inst &h2 = w2.in[i]; int run = 0; const Thr &t = w2.p->t[h2.slot]; if (npc - 1 >= 0 && npc - 1 < t.n && t.op[npc - 1].c == L_POP) run = t.op[npc - 1].b;
#ifdef PTW32_CLEANUP_CXX
    // a handler that could be cancelled must not run while another exception is on its way
    if ((run & 2) && !h2.raw && !(flags & 0xff)) { w2.tok[qq].flags |= 0x10000; w2.tok[qq].state = 1; throw UserExc{qq}; }
#endif
    run &= 1;
    w2.tok[qq].flags |= 0x10000; if (run) w2.tok[qq].state = 1; else { h2.nst--; w2.tok[qq].state = 2; }
    begin(h2, L_POP, 0, -1); pthread_cleanup_pop(run); end(W->in[i]); }
#ifdef PTW32_CLEANUP_CXX
  } catch (UserExc &e) { EXPECT(e.q == qq, "cleanup", "an exception of the program was caught in the wrong frame"); label("user-exception"); nontriv(); }
#endif
  EXPECT(W->tok[qq].state == 2, "cleanup", "pthread_cleanup_pop(1) did not run the handler");
  return npc;
}
static void defer(int i) { Inst &h = W->in[i]; if (!h.async) return; int r; begin(h, L_SETTYPE, 0, -1); h.newasync = false; r = CALL(pthread_setcanceltype, pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, 0)); redirected(); h.async = false; end(h); EXPECT(r == 0, "result", "setcanceltype returned %s", ename(r)); }
static int exec(int i, int pc) {
  LW &w = *W; const Thr &p = w.p->t[w.in[i].slot];
  while (pc < p.n) {
    Op o = p.op[pc]; FIX(pc); pc++; Inst &h = w.in[i]; int r; int j = w.ni ? (o.a == -1 ? w.ni - 1 : (int)(((unsigned)o.a) % w.ni)) : -1; int k = ((unsigned)o.a) % NK;
    if (h.async && !(o.c == L_SPIN || o.c == L_SETSTATE || o.c == L_SETTYPE || o.c == L_CANCEL || o.c == L_POP || o.c == L_EXIT)) continue;
    switch (o.c) {
    case L_CREATE: { int s = h.slot + 1 + (unsigned)o.a % MAXT; if (s < w.p->nt) do_create(i, s); break; }
    case L_JOIN: case L_TRYJOIN: case L_TIMEDJOIN: if (j >= 0 && w.in[j].idknown) do_join(i, j, o.c, o.b); break;
    case L_DETACH: if (j >= 0 && w.in[j].idknown) do_detach(i, j); break;
    case L_KILL0: if (j >= 0 && w.in[j].idknown) do_kill0(i, j); break;
    case L_POKE: if (j >= 0 && w.in[j].idknown) do_poke(i, j, o.b); break;
    case L_CANCEL: if (j >= 0 && w.in[j].idknown) do_cancel(i, j); break;
    case L_STALE: if (j >= 0 && w.in[j].idknown) do_stale(i, j); break;
    case L_IDENT: { same_id(h, "the thread"); learn_seq(i); HANDLE th = pthread_getw32threadhandle_np(h.id); EXPECT(sim_handle_kind(th) == 3 && sim_thread_of_handle(th) == h.fib, "identity", "the Win32 handle of the thread is not its own"); EXPECT(pthread_getw32threadid_np(h.id) == sim_os_tid(h.fib), "identity", "the Win32 id of the thread is not its own"); break; }
    case L_EXIT: { defer(i);
#ifdef PTW32_CLEANUP_CXX
      if ((o.b & 1) && !h.raw && h.phase == 0) { // an exception of the program leaves the start routine; it sees to it that no cancellation acts meanwhile
        r = CALL(pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0)); EXPECT(r == 0, "result", "setcancelstate returned %s", ename(r)); h.cdis = true;
        h.uncaught = h.exiting = h.inexitop = h.finished = true; h.exitseq = ++w.seq; begin(h, L_EXIT, 0, -1); FN("an exception that nobody catches"); throw 77; }
#endif
       h.exiting = true; h.exitseq = ++w.seq; h.value = (void *)(size_t)(0x3000 + i); h.inexitop = true; begin(h, L_EXIT, 0, -1); label("pthread_exit"); FN("pthread_exit"); pthread_exit(h.value); }
    case L_DELAY: { i64 ns = (i64)(o.b < 0 ? 0 : o.b) * 100; struct timespec ts; ts.tv_sec = ns / 1000000000; ts.tv_nsec = ns % 1000000000; i64 a = sim_now() + ns / 100; begin(h, o.c, 0, a); r = CALL(pthread_delay_np, pthread_delay_np(&ts)); end(h); EXPECT(r == 0, "result", "delay returned %s", ename(r)); EXPECT((i64)sim_now() >= a, "early-timeout", "pthread_delay_np returned %lld ns early", (a - (i64)sim_now()) * 100); break; }
    case L_TESTC: { bool must = h.cancel_done && !h.cdis; begin(h, o.c, 0, -1); FN("pthread_testcancel"); pthread_testcancel(); FN("-"); end(h); EXPECT(!must, "cancel-lost", "pthread_testcancel returned with a cancellation pending and enabled"); break; }
    case L_SETSTATE: { int old = -1; bool dis = o.b & 1; bool was = h.cdis; bool must = !dis && h.async && h.cancel_done; if (o.d == 7) { begin(h, o.c, 0, -1); h.newdis = h.cdis; r = CALL(pthread_setcancelstate, pthread_setcancelstate(77, &old)); redirected(); end(h); EXPECT(r == EINVAL, "result", "setcancelstate(77) returned %s", ename(r)); break; }
      begin(h, o.c, 0, -1); h.newdis = dis; r = CALL(pthread_setcancelstate, pthread_setcancelstate(dis ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE, o.d & 1 ? 0 : &old)); redirected(); EXPECT(!must, "cancel-lost", "setcancelstate(ENABLE) returned with an asynchronous cancellation pending"); h.cdis = dis; end(h); EXPECT(r == 0 && ((o.d & 1) || old == (was ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE)), "result", "setcancelstate returned %s, old state %d", ename(r), old); break; }
    case L_SETTYPE: { int old = -1; bool as = o.b & 1, was = h.async; bool must = as && !h.cdis && h.cancel_done; if (o.d == 7) { begin(h, o.c, 0, -1); h.newasync = h.async; r = CALL(pthread_setcanceltype, pthread_setcanceltype(77, &old)); redirected(); end(h); EXPECT(r == EINVAL, "result", "setcanceltype(77) returned %s", ename(r)); break; }
      if (as) w.in[i].claim = w.in[i].claim; begin(h, o.c, 0, -1); h.newasync = as; r = CALL(pthread_setcanceltype, pthread_setcanceltype(as ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, o.d & 1 ? 0 : &old)); redirected(); EXPECT(!must, "cancel-lost", "setcanceltype(ASYNCHRONOUS) returned with a cancellation pending"); h.async = as; end(h); EXPECT(r == 0 && ((o.d & 1) || old == (was ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED)), "result", "setcanceltype returned %s, old type %d", ename(r), old); if (as) label("async-mode"); break; }
    case L_SPIN: for (int q = 0; q < 3 + (o.b & 7); q++) { bool must = h.cancel_done && !h.cdis && h.async; begin(h, o.c, 0, -1); if (!must) sim_spin_point(); else { sim_spin_point(); sim_fail("cancel-lost", "thread %d went on computing after an asynchronous cancellation was sent", i); } end(h); } break;
    case L_PUSH: if (h.nst < 30 && w.ntok < MAXTOK - 4) { pc = do_push(i, pc, o.b & 0xffff); } break;
    case L_POP: if (h.nst) { defer(i); return pc; } break;
    case L_GATE: { begin(h, o.c, 0, -1); W->gatewaiters++; r = CALL(sem_wait, sem_wait(&w.gate)); W->gatewaiters--; end(h); EXPECT(r == 0, "result", "sem_wait failed with %s", ename(ERRNO)); break; }
    case L_TGATE: { i64 a = sim_now() + (o.b < 0 ? 0 : o.b); struct timespec ts = ts_of(a); begin(h, o.c, 0, a); W->gatewaiters++; r = CALL(sem_timedwait, sem_timedwait(&w.gate, &ts)); int e = ERRNO; W->gatewaiters--; end(h); EXPECT(r == 0 || e == ETIMEDOUT, "result", "sem_timedwait failed with %s", ename(e)); break; }
    case L_MUTEX: begin(h, o.c, 0, -1); use_mutex(i); end(h); break;
    case L_KSET: do_kset(i, k, 1, o.b & 0x1fff, o.d == 1); break;
    case L_KGET: do_kget(i, k); break;
    case L_KCREATE: do_kcreate(k, o.b & 1); break;
    case L_KDEL: do_kdel(i, k); break;
    case L_RAWDETACH: if (h.raw && !h.nst) { pthread_t oldid = h.id; // leave the library explicitly, and come back with a new identity
        h.epoch++; h.inexitop = true; h.exitseq = ++w.seq; begin(h, o.c, 0, -1); FN("thread_detach_np"); BOOL b = pthread_win32_thread_detach_np(); FN("-"); EXPECT(b, "result", "pthread_win32_thread_detach_np failed"); end(h);
        for (int q = 0; q < NK; q++) { int c = curof(i, q); if (c) { Val &v = w.v[c - 1]; GenInfo &g = w.g[v.gen]; if (g.dtor && !g.deleted) EXPECT(v.depth > 4, "destructor", "a value was left without its destructor being called by pthread_win32_thread_detach_np"); if (g.dtor) { v.state = 3; h.cur[q] = 0; } } }
        memset(h.dcalls, 0, sizeof h.dcalls); r = CALL(pthread_kill, pthread_kill(oldid, 0)); EXPECT(r == ESRCH, "result", "the identity of a thread that detached from the library answers %s", ename(r)); label("raw-detached");
        h.idknown = h.uknown = false; h.cancel_done = h.cancel_req = 0; h.cdis = h.async = false; h.id = CALL(pthread_self, pthread_self()); h.idknown = true; h.inexitop = false; h.epoch++; h.phase = 0; EXPECT(!pthread_equal(h.id, oldid), "identity", "a thread that came back has its old identity"); learn(i); learn_seq(i); nontriv(); } break;
    case L_NOCP: nocp(i, (unsigned)o.a % 11, (unsigned)o.b & 7); break;
    case L_BAR: { begin(h, o.c, 0, -1); w.barin++; r = CALL(pthread_barrier_wait, pthread_barrier_wait(&w.bar)); W->barout++; bool pend = h.cancel_done && !h.cdis; end(h); EXPECT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "pthread_barrier_wait returned %s", ename(r)); if (pend) { label("cancel-pending-at-barrier"); nontriv(); } break; }
    case L_HWAIT: { // the exported hook for cancellable waits on a handle of the program
      if (o.d & 1) { w.hunits++; BOOL ok = ReleaseSemaphore(w.hsem, 1, 0); EXPECT(ok, "harness", "ReleaseSemaphore failed"); if (!(o.d & 2)) break; }
      bool timed = o.b >= 0; i64 a = timed ? sim_now() + (i64)(o.b & 63) * MS : -1; begin(h, o.c, 0, a); bool must = h.must; i64 t0 = sim_now();
      if (timed) r = CALL(pthreadCancelableTimedWait, pthreadCancelableTimedWait(w.hsem, o.b & 63)); else r = CALL(pthreadCancelableWait, pthreadCancelableWait(w.hsem));
      end(h); if (r == 0) { w.hunits--; label("handle-wait"); if (must) label("handle-wait-won"); } else { EXPECT(timed && r == ETIMEDOUT, "result", "%s returned %s", timed ? "pthreadCancelableTimedWait" : "pthreadCancelableWait", ename(r)); EXPECT(!must, "cancel-lost", "pthreadCancelableTimedWait timed out in thread %d though a cancellation was pending and enabled when it was called", i); EXPECT((i64)sim_now() >= t0 + (i64)(o.b & 63) * MS - MS, "early-timeout", "pthreadCancelableTimedWait timed out early"); label("handle-timeout"); }
      break; }
    case L_YIELD: begin(h, o.c, 0, -1); CALL(sched_yield, sched_yield()); end(h); break;
    case L_BADARG: { pthread_t z; memset(&z, 0, sizeof z); r = CALL(pthread_kill, pthread_kill(z, 0)); EXPECT(r == ESRCH, "result", "pthread_kill of a null identity returned %s", ename(r)); r = CALL(pthread_join, pthread_join(z, 0)); EXPECT(r == ESRCH, "result", "join of a null identity returned %s", ename(r)); r = CALL(pthread_detach, pthread_detach(z)); EXPECT(r == ESRCH, "result", "detach of a null identity returned %s", ename(r)); r = CALL(pthread_cancel, pthread_cancel(z)); EXPECT(r == ESRCH, "result", "cancel of a null identity returned %s", ename(r)); r = CALL(pthread_kill, pthread_kill(h.id, 9999)); EXPECT(r == EINVAL, "result", "pthread_kill with a bad signal returned %s", ename(r)); r = CALL(pthread_delay_np, pthread_delay_np(0)); EXPECT(r == EINVAL, "result", "delay(NULL) returned %s", ename(r)); break; }
    }
  }
  if (w.in[i].nst) defer(i);
  return pc + 1;
}
static void enter(int i) { Inst &h = W->in[i]; h.fib = sim_cur(); byfib[h.fib] = i; fstate[sim_cur()].thr = i; h.runs++; EXPECT(h.runs == 1, "create", "the start routine of thread %d ran twice", i);
  pthread_t s = CALL(pthread_self, pthread_self()); if (h.idknown) EXPECT(pthread_equal(s, h.id), "identity", "pthread_self differs from the identity pthread_create gave"); else { h.id = s; h.idknown = true; learn(i); } learn_seq(i); }
static void *thread_main(void *a) {
  int i = (int)(size_t)a; EXPECT(i >= 0 && i < W->ni, "create", "start routine called with a wrong argument"); enter(i); FN("go"); sim_wait_until(go_pred, 0);
  pthread_cleanup_push(outer, a);
  exec(i, 0); defer(i); FIX(99);
  pthread_cleanup_pop(0);
  Inst &h = W->in[i]; EXPECT(h.nst == 0, "harness", "handlers left"); h.exiting = true; h.exitseq = ++W->seq; h.finished = true; h.phase = 1; h.value = (void *)(size_t)(0x2000 + i);
  return h.value;
}
static unsigned raw_main(void *a) {
  int i = (int)(size_t)a; enter(i); FN("go"); sim_wait_until(go_pred, 0); label("raw-thread"); if (W->p->cfg[10] & 2) { label("explicit-attach"); BOOL b = CALL(pthread_win32_thread_attach_np, pthread_win32_thread_attach_np()); EXPECT(b, "result", "pthread_win32_thread_attach_np failed"); b = CALL(pthread_win32_process_attach_np, pthread_win32_process_attach_np()); EXPECT(b, "result", "pthread_win32_process_attach_np failed in a process that is attached"); }
  pthread_cleanup_push(outer, a);
  exec(i, 0); defer(i); FIX(99);
  pthread_cleanup_pop(0);
  Inst &h = W->in[i]; h.exiting = true; h.exitseq = ++W->seq; h.finished = true; h.inexitop = true; FN("thread_detach_np");
  pthread_win32_thread_detach_np(); return 0;
}
#ifdef PTW32_CLEANUP_CXX
static void (*prev_terminate)(void);
static void on_terminate(void) { // the program's terminate handler ends just the thread
  int i = W ? me() : -1; if (i < 0 || !W->in[i].uncaught) { prev_terminate(); abort(); } LW &w = *W; Inst &h = w.in[i]; FN("terminate handler"); h.incall = 0;
  EXPECT(h.nst == 0, "cleanup", "the terminate handler was called with %d cleanup handlers not run", h.nst); EXPECT(h.nguard == 0, "cleanup", "the terminate handler was called with %d automatic objects not destroyed", h.nguard);
  for (int k = 0; k < w.nv; k++) { Val &v = w.v[k]; if (v.inst != i || v.state) continue; GenInfo &g = w.g[v.gen]; if (g.dtor && !g.deleted && v.depth <= PTHREAD_DESTRUCTOR_ITERATIONS) sim_fail("destructor", "the terminate handler of thread %d was called before the destructor of key %d", i, v.k); }
  h.termed = true; label("uncaught-exception"); nontriv(); _endthreadex(7);
}
#endif
static void check_idle(void) {
  LW &w = *W; i64 now = sim_now();
  for (int i = 0; i < w.ni; i++) { Inst &h = w.in[i]; if (h.fib < 0 || sim_fiber_done(h.fib) || !h.incall) continue; int op = h.incall - 1; bool late = h.abs >= 0 && h.abs + w.slack + (i64)sim_forced() - h.f0 < now;
    switch (op) {
    case L_JOIN: EXPECT(!fdone(h.obj), "stranded", "thread %d is blocked joining thread %d which has ended", i, h.obj); break;
    case L_TIMEDJOIN: EXPECT(!fdone(h.obj), "stranded", "thread %d is blocked joining thread %d which has ended", i, h.obj); EXPECT(!late, "unbounded", "thread %d is still in timedjoin after its deadline", i); break;
    case L_DELAY: case L_TGATE: EXPECT(!late, "unbounded", "thread %d is still in its %s %lld ms late", i, names[op], (now - h.abs) / MS); break;
    case L_GATE: break;
    case L_HWAIT: EXPECT(!late, "unbounded", "thread %d is still in its pthreadCancelableTimedWait %lld ms late", i, (now - h.abs) / MS); EXPECT(w.hunits <= 0, "stranded", "thread %d is blocked in %s on a handle that is signalled", i, names[op]); break;
    case L_BAR: EXPECT(w.barin - w.barout < 2, "stranded", "%d threads are blocked at a barrier for 2", w.barin - w.barout); break;
    case L_DETACH: EXPECT(h.obj != i && !fdone(h.obj), "stranded", "thread %d is blocked detaching %s", i, h.obj == i ? "itself" : "a thread that has ended"); break;
    case L_EXIT: break;
    default: if (sim_fiber_timed(h.fib) && now - h.t0 < 1000 * MS) break; sim_fail("stranded", "thread %d is blocked in %s", i, names[op]); }
    if (h.cancel_done && !h.cdis && !h.async && !h.exiting && !h.inexitop && (op == L_JOIN || op == L_TIMEDJOIN || op == L_DELAY || op == L_GATE || op == L_TGATE || op == L_HWAIT)) sim_fail("cancel-lost", "thread %d is blocked in %s with a cancellation pending", i, names[op]); }
}
static void lib_down(const Prog &p) { if (!(p.cfg[10] & 4)) { sim_lib_dtors(); return; } label("explicit-process-detach"); if (p.cfg[10] & 8) CALL(pthread_self, pthread_self()); BOOL b = CALL(pthread_win32_process_detach_np, pthread_win32_process_detach_np()); EXPECT(b, "result", "pthread_win32_process_detach_np failed"); if (p.cfg[10] & 16) sim_lib_dtors(); }
static void run(const Prog &p) {
#ifdef PTW32_CLEANUP_CXX
  if (std::get_terminate() != on_terminate) prev_terminate = std::set_terminate(on_terminate);
#endif
  static LW world; memset(&world, 0, sizeof world); W = &world; LW &w = world; w.p = &p; int r; memset(byfib, -1, sizeof byfib); w.slack = 30 * MS + p.tick * 800LL; w.mxowner = -1;
  fstate[0].thr = 99; FN("setup"); int at = sim_atomic(1); sim_lib_ctors();
  r = CALL(sem_init, sem_init(&w.gate, 0, p.cfg[11] & 3)); EXPECT(r == 0, "result", "sem_init failed"); r = CALL(pthread_mutex_init, pthread_mutex_init(&w.mx, 0)); EXPECT(r == 0, "result", "mutex_init %s", ename(r));
  r = CALL(pthread_barrier_init, pthread_barrier_init(&w.bar, 0, 2)); EXPECT(r == 0, "result", "barrier_init %s", ename(r));
  w.hunits = p.cfg[11] >> 2 & 1; w.hsem = CreateSemaphore(0, w.hunits, 10000, 0); EXPECT(w.hsem != 0, "harness", "CreateSemaphore failed");
  w.ngen = NK; for (int k = 0; k < NK; k++) w.key[k].gen = k; w.ngen = 0;
  for (int k = 0; k < NK; k++) { w.ngen = k; if (p.cfg[9] >> k & 1) do_kcreate(k, p.cfg[9] >> (4 + k) & 1); } w.ngen = NK;
  int roots = p.cfg[0] < 1 ? 1 : p.cfg[0]; for (int s = 0; s < roots && s < p.nt; s++) do_create(-1, s);
  if (p.cfg[10] & 2) { BOOL b = CALL(pthread_win32_process_attach_np, pthread_win32_process_attach_np()); EXPECT(b, "result", "pthread_win32_process_attach_np failed in a process that is attached"); }
  sim_atomic(at); FN("-"); sim_wait_quiet(); sim_set_idle_hook(check_idle); sim_mark(); w.go = 1; sim_wait_quiet();
  for (int rounds = 0;; rounds++) {
    check_idle(); int busy = -1; for (int i = 0; i < w.ni; i++) if (!fdone(i)) busy = i; if (busy < 0) break; if (w.barin - w.barout == 1) { w.barin++; r = CALL(pthread_barrier_wait, pthread_barrier_wait(&w.bar)); w.barout++; EXPECT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "pthread_barrier_wait returned %s", ename(r)); sim_wait_quiet(); continue; } EXPECT(rounds < 200, "harness", "rescue does not end");
    bool hw = false; for (int i = 0; i < w.ni; i++) if (!fdone(i) && w.in[i].incall - 1 == L_HWAIT) hw = true; if (hw) { w.hunits++; ReleaseSemaphore(w.hsem, 1, 0); sim_wait_quiet(); continue; }
    bool gate = false; for (int i = 0; i < w.ni; i++) if (!fdone(i) && w.in[i].incall - 1 == L_GATE) gate = true;
    if (!gate) sim_fail("stranded", "thread %d never ends (in %s%s)", busy, w.in[busy].incall ? names[w.in[busy].incall - 1] : "its own code", w.in[busy].exiting ? ", exiting" : "");
    r = CALL(sem_post, sem_post(&w.gate)); EXPECT(r == 0, "result", "sem_post failed"); sim_wait_quiet();
  }
  sim_set_idle_hook(0);
  { int left = 0; while (WaitForSingleObject(w.hsem, 0) == WAIT_OBJECT_0) left++; EXPECT(left == w.hunits, "wait-units", "a handle of the program has %d units left instead of %d after cancellable waits", left, w.hunits); CloseHandle(w.hsem); }
  for (int i = 0; i < w.ni; i++) { Inst &h = w.in[i]; FN("final");
    EXPECT(h.runs == 1, "create", "the start routine of thread %d never ran", i);
    if (h.raw && !h.exiting) { if (h.nst) { int n = h.nst; note_cancel(i); sim_fail(IMPK(W->in[i]), "a thread not created by the library was cancelled and %d of its cleanup handlers did not run", n); } note_cancel(i); }
    EXPECT(!h.uncaught || h.termed, "cleanup", "an exception left the start routine of thread %d and the terminate handler was not called", i);
    EXPECT(h.nguard == 0, "cleanup", "a thread ended with %d automatic objects of its stack not destroyed", h.nguard);
    if (h.nst) sim_fail(IMPK(h), "%s ended with %d cleanup handlers not run", h.raw ? "a thread not created by the library" : "a thread", h.nst);
    for (int k = 0; k < w.nv; k++) { Val &v = w.v[k]; if (v.inst != i || v.state) continue; GenInfo &g = w.g[v.gen]; if (g.dtor && !g.deleted && v.depth <= PTHREAD_DESTRUCTOR_ITERATIONS) sim_fail("destructor", "thread %d ended and the destructor of key %d was not called for its value", i, v.k); }
    if (h.det == JOINABLE) { void *v = (void *)0x77; int how = p.cfg[12] % 4; if (how == 3) { r = CALL(pthread_detach, pthread_detach(h.id)); EXPECT(r == 0, "result", "detach of an ended thread returned %s", ename(r)); } else { r = how == 0 ? CALL(pthread_join, pthread_join(h.id, &v)) : how == 1 ? CALL(pthread_tryjoin_np, pthread_tryjoin_np(h.id, &v)) : CALL(pthread_join, pthread_join(h.id, &v)); EXPECT(r == 0, "result", "join of the ended thread %d returned %s", i, ename(r)); EXPECT(v == h.value || h.uncaught, "join", "join gave exit value %p instead of %p", v, h.value); } h.det = GONE; }
    r = CALL(pthread_kill, pthread_kill(h.id, 0)); EXPECT(r == ESRCH, "result", "pthread_kill(0) of a reclaimed thread returned %s", ename(r)); r = CALL(pthread_detach, pthread_detach(h.id)); EXPECT(r == ESRCH, "result", "detach of a reclaimed thread returned %s", ename(r)); }
  for (int k = 0; k < NK; k++) do_kdel(-1, k);
  r = CALL(sem_destroy, sem_destroy(&w.gate)); if (r && ERRNO == EBUSY) for (int i = 0; i < w.ni; i++) if (w.in[i].raw && w.in[i].cancelled && w.in[i].semlost) sim_fail(IMPK(W->in[i]), "a thread not created by the library was cancelled in sem_wait and still counts as a waiter"); EXPECT(r == 0, "result", "sem_destroy failed with %s", ename(ERRNO)); r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(&w.mx)); EXPECT(r == 0, "result", "mutex_destroy %s", ename(r)); r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(&w.bar)); EXPECT(r == 0, "result", "barrier_destroy %s", ename(r));
  lib_down(p); leak_check();
  if (p.cfg[10] & 1) { label("attached-again"); for (int q = 0; q < 2; q++) { sim_lib_ctors(); w.ni = 0; w.ntok = w.nv = 0; w.go = 1; w.in[0].runs = 0; memset(&w.in[0], 0, sizeof(Inst)); w.ni = 1; Inst &x = w.in[0]; x.fib = -1; x.claim = -1; x.slot = MAXT - 1; static Prog empty; w.p = &empty; pthread_t id; r = CALL(pthread_create, pthread_create(&id, 0, thread_main, 0)); EXPECT(r == 0, "result", "pthread_create after attaching again returned %s", ename(r)); void *v = 0; if (x.idknown) EXPECT(pthread_equal(x.id, id), "identity", "identity differs"); x.id = id; x.idknown = true; r = CALL(pthread_join, pthread_join(id, &v)); EXPECT(r == 0 && v == (void *)0x2000, "join", "join after attaching again returned %s", ename(r)); if (q) sim_lib_dtors(); else { Prog d = p; lib_down(d); } leak_check(); } }
}
// ---------------------------------------------------------------- generation
static int reltime(Rng &r) { static const int v[] = {-10000000, 0, 1, 9999, 10000, 10001, 20000, 50000, 123456, 200000}; return r.pick(v); }
static void add(Prog &p, int t, int c, int a = 0, int b = 0, int d = 0) { if (p.t[t].n < MAXOPS) { Op &o = p.t[t].op[p.t[t].n++]; o.c = c; o.a = a; o.b = b; o.d = d; } }
static int vflags(Rng &r) { int f = 0; if (r.p(1, 2)) { static const int fl[] = {1, 2, 4, 8, 16, 32, 64, 128, 0x100, 0x100, 0x200, 0x200, 0x400, 0x800, 0x1000}; int n = r.r(1, 2); while (n--) f |= r.pick(fl); } return f; }
static int hflags(Rng &r) { int f = 0; if (r.p(1, 2)) { static const int fl[] = {1, 1, 2, 4, 8, 16, 32, 64, 128, 0x100, 0x200}; int n = r.r(1, 2); while (n--) f |= r.pick(fl); } if (r.p(1, 3)) f |= 0x400; return f; }
static void op_life(Rng &r, Prog &p, int t) { switch (r.n(9)) { case 0: add(p, t, L_JOIN, r.n(12), r.n(4)); break; case 1: add(p, t, L_TRYJOIN, r.n(12), r.n(4)); break; case 2: add(p, t, L_TIMEDJOIN, r.n(12), r.p(1, 8) ? 7 : reltime(r)); break; case 3: add(p, t, L_DETACH, r.n(12)); break; case 4: add(p, t, L_KILL0, r.n(12)); break; case 5: add(p, t, L_CREATE, r.n(3)); break; case 6: add(p, t, L_DELAY, 0, reltime(r)); break; case 7: add(p, t, r.p(1, 2) ? L_IDENT : L_CANCEL, r.n(12)); break; case 8: add(p, t, L_YIELD); break; } }
static void op_id(Rng &r, Prog &p, int t) { switch (r.n(8)) { case 6: case 7: add(p, t, L_POKE, r.n(12), r.n(6)); break; case 0: add(p, t, L_STALE, r.n(12)); break; case 1: add(p, t, L_IDENT); break; case 2: add(p, t, L_KILL0, r.n(12)); break; case 3: add(p, t, L_CANCEL, r.n(12)); break; case 4: add(p, t, L_CREATE, r.n(3)); break; case 5: add(p, t, r.p(1, 2) ? L_DETACH : L_JOIN, r.n(12)); break; } }
static void op_cancel(Rng &r, Prog &p, int t) { if (r.p(1, 9)) { if (r.p(1, 3)) add(p, t, L_BAR); else if (r.p(1, 2)) add(p, t, L_HWAIT, 0, r.p(1, 3) ? -1 : r.n(60), r.p(1, 3) ? r.n(4) : 0); else add(p, t, L_NOCP, r.n(11), r.n(8)); return; } if (r.p(1, 16)) { add(p, t, L_CREATE, r.n(3)); if (r.p(3, 4)) add(p, t, L_CANCEL, r.p(1, 2) ? -1 : r.n(8)); return; } switch (r.n(12)) { case 0: case 1: case 2: add(p, t, L_CANCEL, r.n(8)); break; case 3: add(p, t, L_SETSTATE, 0, r.n(2), r.p(1, 20) ? 7 : r.n(2)); break; case 4: add(p, t, L_TESTC); break; case 5: add(p, t, L_DELAY, 0, reltime(r)); break; case 6: add(p, t, L_GATE); break; case 7: add(p, t, L_TGATE, 0, reltime(r)); break; case 8: add(p, t, L_MUTEX); break; case 9: add(p, t, L_TIMEDJOIN, r.n(8), reltime(r)); break;
  case 10: add(p, t, L_SETTYPE, 0, 1, r.p(1, 20) ? 7 : r.n(2)); { int n = r.r(0, 3); while (n--) switch (r.n(4)) { case 0: add(p, t, L_SPIN, 0, r.n(8)); break; case 1: add(p, t, L_SETSTATE, 0, r.n(2), r.n(2)); break; case 2: add(p, t, L_SETTYPE, 0, r.n(2), r.n(2)); break; case 3: if (r.p(1, 2)) add(p, t, L_CANCEL, r.n(8)); else add(p, t, L_SPIN, 0, 3); break; } } if (r.p(3, 4)) add(p, t, L_SETTYPE, 0, 0); break; case 11: add(p, t, L_JOIN, r.n(8)); break; } }
static void op_clean(Rng &r, Prog &p, int t) { switch (r.n(8)) { case 0: case 1: case 2: add(p, t, L_PUSH, 0, hflags(r)); break; case 3: case 4: add(p, t, L_POP, 0, r.p(1, 4) ? 2 : r.n(2)); break; case 5: add(p, t, L_TESTC); break; case 6: if (r.p(1, 3)) add(p, t, L_EXIT, 0, r.p(1, 4)); break; case 7: add(p, t, L_CANCEL, r.n(8)); break; } }
static void op_tsd(Rng &r, Prog &p, int t) { switch (r.n(10)) { case 0: case 1: case 2: case 3: add(p, t, L_KSET, r.n(NK), vflags(r), r.p(1, 6)); break; case 4: case 5: add(p, t, L_KGET, r.n(NK)); break; case 6: add(p, t, L_KDEL, r.n(NK)); break; case 7: add(p, t, L_KCREATE, r.n(NK), r.p(3, 4)); break; case 8: add(p, t, L_DELAY, 0, reltime(r)); break; case 9: if (r.p(1, 3)) add(p, t, L_EXIT, 0, r.p(1, 4)); else add(p, t, L_CANCEL, r.n(8)); break; } }
static void gen(Rng &r, Prog &p, int prof) {
  int nt = r.r(2, 4); if (prof == PR_ID || prof == PR_LIFE) nt = r.r(2, 5); p.nt = nt; int *c = p.cfg; c[0] = prof == PR_ID || prof == PR_LIFE ? r.r(1, 3) : r.r(2, 4); if (c[0] > nt) c[0] = nt;
  for (int s = 0; s < nt; s++) { int f = 0; if (r.p(1, 4)) f |= 1; if (r.p(1, 4)) f |= 4; if (r.p(1, 4)) f |= 8 << r.n(3); if (prof == PR_RAW ? r.p(2, 3) : r.p(1, 12)) f |= 2; c[1 + s] = f; }
  c[9] = (r.n(8) | 1) | (r.n(8) | 1) << 4; if (prof == PR_TSD) c[9] = r.n(4) ? 0x77 : (int)(r.n(256)); c[10] = r.p(1, prof == PR_RAW ? 2 : 12) | (r.p(1, prof == PR_RAW ? 4 : 20) ? 2 : 0) | (r.p(1, prof == PR_RAW ? 4 : 20) ? 4 | r.n(4) * 8 : 0); c[11] = r.n(3) | r.n(2) << 2; c[12] = r.n(4);
  for (int t = 0; t < nt; t++) { int n = r.p(1, 3) ? r.r(0, 2) : r.r(1, 6); bool raw = c[1 + t] & 2;
    while (n--) { int w = r.n(10);
      switch (prof) {
      case PR_TSD: if (w < 8) op_tsd(r, p, t); else if (w == 8) op_life(r, p, t); else op_clean(r, p, t); break;
      case PR_LIFE: if (w < 8) op_life(r, p, t); else if (w == 8) op_cancel(r, p, t); else if (r.p(1, 2)) add(p, t, L_EXIT, 0, r.p(1, 4)); else op_tsd(r, p, t); break;
      case PR_ID: if (w < 6) op_id(r, p, t); else if (w < 9) op_life(r, p, t); else op_cancel(r, p, t); break;
      case PR_CANCEL: if (w < 8) op_cancel(r, p, t); else if (w == 8) op_clean(r, p, t); else op_tsd(r, p, t); break;
      case PR_CLEAN: if (w < 6) op_clean(r, p, t); else if (w < 8) op_cancel(r, p, t); else op_tsd(r, p, t); break;
      case PR_JOINC: if (w < 3) add(p, t, r.p(2, 3) ? L_JOIN : L_TIMEDJOIN, r.n(6), reltime(r)); else if (w < 6) add(p, t, L_CANCEL, r.n(6)); else if (w < 8) op_cancel(r, p, t); else op_clean(r, p, t); break;
      case PR_RAW: if (raw && r.p(1, 6)) add(p, t, L_RAWDETACH); if (w < 3) op_tsd(r, p, t); else if (w < 5) op_cancel(r, p, t); else if (w < 8) op_life(r, p, t); else if (w == 8) op_id(r, p, t); else if (!raw || r.p(1, 8)) op_clean(r, p, t); break;
      } }
    // in the C++ build a foreign thread has nothing to unwind: known finding, keep it rare
    bool known = r.p(1, 20) && (prof == PR_CLEAN || prof == PR_RAW); if (raw && g_flavour && !known) for (int q = 0; q < p.t[t].n; q++) { Op &o = p.t[t].op[q]; if (o.c == L_PUSH || o.c == L_POP || o.c == L_GATE || o.c == L_TGATE) o.c = L_YIELD; }
    if (r.p(1, 20)) add(p, t, L_BADARG);
  }
}
static RegF f({"life", gen, run, opname});
static RegP p10("C10", "life", PR_TSD, 1, 1), p11("C11", "life", PR_LIFE, 6, 1), p12("C12", "life", PR_ID, 4, 1), p13("C13", "life", PR_CANCEL), p14("C14", "life", PR_CLEAN), p15("C15", "life", PR_JOINC), p24("C24", "life", PR_RAW, 1, 1), p22("C22", "life", PR_LIFE, 1, 1), p22i("C22", "life", PR_ID, 1, 1);
