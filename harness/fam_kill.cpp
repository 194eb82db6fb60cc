// pthread_kill: a terminating signal ends exactly the thread it is sent to, while that thread runs its own code.
#include "client.h"
#include <stdio.h>
#include <signal.h>
enum { K_KILL, K_BAD, K_NONE, K_JOIN, K_TRYJOIN, K_TIMEDJOIN, K_DETACH, K_CANCEL, K_CREATE, K_SELF, K_NAME, K_STALE, K_LOCK, NOPS };
static const char *names[] = {"kill", "kill_bad_signal", "kill0", "join", "tryjoin", "timedjoin", "detach", "cancel", "create", "kill_self", "setname", "stale_ops", "mutex"};
static const char *opname(int c) { return c >= 0 && c < NOPS ? names[c] : "?"; }
enum { MAXI = 24, JOINABLE = 0, DETACHED = 1, GONE = 2 };
// cfg: 0 threads at the start, 1-8 kind of the slot (bit 0 detached; >>1: 0 returns, 1 parks waiting, 2 parks computing, 3 parks in a Win32 wait)
struct Inst { int slot, fib, det, claim, runs, kind; pthread_t id; bool idknown, parked, returned, selfkill; int killreq, killdone, canc, incall, obj; i64 abs, f0; unsigned beat; void *value; };
struct KW { const Prog *p; Inst in[MAXI]; int ni, go, release, mxowner; pthread_mutex_t mx; HANDLE ev; bool lost; i64 slack; };
static KW *W;
static int go_pred(void *) { return W->go; }
static int rel_pred(void *) { return W->release; }
static bool fdone(int j) { Inst &x = W->in[j]; return x.fib >= 0 && sim_fiber_done(x.fib); }
static bool gone(int j) { Inst &x = W->in[j]; return x.det == GONE || (x.det == DETACHED && x.returned && fdone(j)); }
static void begin(Inst &h, int op, int obj, i64 abs) { h.incall = op + 1; h.obj = obj; h.abs = abs; h.f0 = sim_forced(); }
static void end(Inst &h) { h.incall = 0; }
static void *thread_main(void *);
static void create(int i, int s) {
  KW &w = *W; if (w.ni >= MAXI || s >= w.p->nt) return; int j = w.ni++; Inst &x = w.in[j]; memset(&x, 0, sizeof x); x.slot = s; x.fib = -1; x.claim = -1; int c = w.p->cfg[1 + s]; x.det = c & 1 ? DETACHED : JOINABLE; x.kind = (c >> 1) & 3; x.value = j % 3 == 2 ? 0 : (void *)(size_t)(0x2000 + j); int r; pthread_t id;
  pthread_attr_t a, *pa = 0; if (c & 1) { pa = &a; r = CALL(pthread_attr_init, pthread_attr_init(&a)); EXPECT(r == 0, "result", "attr_init %s", ename(r)); r = pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); EXPECT(r == 0, "result", "setdetachstate %s", ename(r)); }
  if (i >= 0) begin(w.in[i], K_CREATE, j, -1); r = CALL(pthread_create, pthread_create(&id, pa, thread_main, (void *)(size_t)j)); if (i >= 0) end(w.in[i]); EXPECT(r == 0, "result", "pthread_create returned %s", ename(r)); if (pa) pthread_attr_destroy(&a);
  if (x.idknown) EXPECT(pthread_equal(x.id, id), "identity", "pthread_create gave another identity than the thread has"); x.id = id; x.idknown = true; }
static void value_check(int j, void *v, const char *what) { Inst &x = W->in[j]; void *want = x.returned ? x.value : PTHREAD_CANCELED; EXPECT(x.returned || x.killreq, "kill", "thread %d ended though nobody killed it", j); EXPECT(v == want, "kill", "%s of %s thread %d gave %p instead of %p", what, x.returned ? "the returned" : "the killed", j, v, want); }
static const int fatal[] = {SIGINT, SIGTERM, SIGABRT};
static void exec(int i) {
  KW &w = *W; const Thr &t = w.p->t[w.in[i].slot];
  for (int pc = 0; pc < t.n; pc++) {
    const Op &o = t.op[pc]; FIX(pc); Inst &h = w.in[i]; int j = ((unsigned)o.a) % w.ni; Inst &x = w.in[j]; int r; if (!x.idknown && o.c != K_CREATE && o.c != K_LOCK && o.c != K_SELF) continue; bool gone0 = gone(j), done0 = fdone(j); int det0 = x.det;
    switch (o.c) {
    case K_KILL: { if (w.release || j == i) break; if (!(x.parked || done0) ) break; bool live0 = x.parked && !done0 && !x.killreq; if (det0 == DETACHED && live0) w.lost = true; // nobody reclaims it
        bool held = x.claim < 0; if (!done0) x.killreq++; begin(h, o.c, j, -1); r = CALL(pthread_kill, pthread_kill(x.id, fatal[(unsigned)o.b % 3])); end(h); (void)held;
        if (gone0) { EXPECT(r == ESRCH, "result", "pthread_kill of a reclaimed thread returned %s", ename(r)); label("stale"); nontriv(); }
        else if (x.claim < 0 && x.det == det0 && (det0 == JOINABLE || (live0 && x.killreq == 1))) EXPECT(r == 0, "result", "pthread_kill of %s thread returned %s", done0 ? "an ended" : "a running", ename(r)); else EXPECT(r == 0 || r == ESRCH, "result", "pthread_kill returned %s", ename(r));
        if (r == 0 && !done0) { if (live0 && x.killreq == 1) { EXPECT(fdone(j), "kill", "pthread_kill returned and the thread is still running"); label("killed"); nontriv(); } else label("killed-twice"); x.killdone++; } break; }
    case K_BAD: { static const int bad[] = {1, 3, 9, 9999, -1, 11}; if (gone0) break; begin(h, o.c, j, -1); r = CALL(pthread_kill, pthread_kill(x.id, bad[(unsigned)o.b % 6])); end(h); if (!x.returned && det0 == JOINABLE && x.det == JOINABLE && x.claim < 0) EXPECT(r == EINVAL, "result", "pthread_kill with a bad signal returned %s", ename(r)); else EXPECT(r == EINVAL || r == ESRCH, "result", "pthread_kill with a bad signal returned %s", ename(r)); label("bad-signal"); break; }
    case K_NONE: begin(h, o.c, j, -1); r = CALL(pthread_kill, pthread_kill(x.id, 0)); end(h); if (gone0) EXPECT(r == ESRCH, "result", "pthread_kill(0) of a reclaimed thread returned %s", ename(r)); else if (x.det == JOINABLE && x.claim < 0 && !x.killreq) EXPECT(r == 0, "result", "pthread_kill(0) of a live thread returned %s", ename(r)); else EXPECT(r == 0 || r == ESRCH, "result", "pthread_kill(0) returned %s", ename(r)); break;
    case K_JOIN: case K_TRYJOIN: case K_TIMEDJOIN: { if (x.claim >= 0 || x.det != JOINABLE || j == i || (o.c == K_JOIN && j < i && !x.parked && !done0)) break; x.claim = i; void *v = (void *)0x55; i64 abs = (i64)sim_now() + (o.b < 0 ? 0 : o.b); struct timespec ts = ts_of(abs); begin(h, o.c, j, o.c == K_TIMEDJOIN ? abs : -1);
        if (o.c == K_JOIN) r = CALL(pthread_join, pthread_join(x.id, &v)); else if (o.c == K_TRYJOIN) r = CALL(pthread_tryjoin_np, pthread_tryjoin_np(x.id, &v)); else r = CALL(pthread_timedjoin_np, pthread_timedjoin_np(x.id, &v, &ts));
        end(h); if (r == 0) { EXPECT(fdone(j), "join", "%s returned success and the thread has not ended", names[o.c]); value_check(j, v, names[o.c]); x.det = GONE; if (!x.returned) label("joined-killed"); } else EXPECT(!done0 && ((o.c == K_TRYJOIN && r == EBUSY) || (o.c == K_TIMEDJOIN && r == ETIMEDOUT && (i64)sim_now() >= abs)), "result", "%s of a joinable thread returned %s", names[o.c], ename(r)); x.claim = -1; break; }
    case K_DETACH: { if (x.claim >= 0 || x.det != JOINABLE) break; x.claim = i; begin(h, o.c, j, -1); bool alive = x.parked && !done0; r = CALL(pthread_detach, pthread_detach(x.id)); end(h); EXPECT(r == 0, "result", "pthread_detach returned %s", ename(r)); if (alive && x.killreq) w.lost = true; if (alive && !x.killreq) x.det = DETACHED; else if (done0) x.det = GONE; else x.det = DETACHED; if (done0 && !x.returned) label("detached-killed"); x.claim = -1; if (x.killreq && !done0) w.lost = true; break; }
    case K_CANCEL: { if (j == i) break; bool live0 = x.parked && !x.killreq; if (!x.parked && !done0) break; begin(h, o.c, j, -1); r = CALL(pthread_cancel, pthread_cancel(x.id)); end(h); x.canc++; if (gone0) EXPECT(r == ESRCH, "result", "pthread_cancel of a reclaimed thread returned %s", ename(r)); else if (live0 && !x.killreq && x.parked && !w.release) EXPECT(r == 0 || (r == ESRCH && x.canc > 1), "result", "pthread_cancel of a running thread returned %s", ename(r)); else EXPECT(r == 0 || r == ESRCH, "result", "pthread_cancel returned %s", ename(r)); break; }
    case K_CREATE: { int s = h.slot + 1 + (unsigned)o.a % MAXT; create(i, s); break; }
    case K_SELF: { if (h.det == DETACHED) w.lost = true; h.killreq++; h.selfkill = true; begin(h, o.c, i, -1); label("killed-itself"); nontriv(); FN("pthread_kill"); pthread_kill(h.id, fatal[(unsigned)o.b % 3]); sim_fail("kill", "a thread that killed itself goes on running"); }
    case K_NAME: { char b[24], nm[24]; snprintf(b, sizeof b, "N%d", j); memset(nm, 'Q', sizeof nm); begin(h, o.c, j, -1); r = CALL(pthread_setname_np, pthread_setname_np(x.id, b)); if (gone0) EXPECT(r == ESRCH, "result", "pthread_setname_np of a reclaimed thread returned %s", ename(r)); else EXPECT(r == 0 || r == ESRCH, "result", "pthread_setname_np returned %s", ename(r)); r = CALL(pthread_getname_np, pthread_getname_np(x.id, nm, sizeof nm)); end(h); if (r == 0) EXPECT(!nm[0] || !strcmp(nm, b), "identity", "the name of thread %d is %.20s", j, nm); else EXPECT(r == ESRCH, "result", "pthread_getname_np returned %s", ename(r)); break; }
    case K_STALE: { if (!gone0) break; r = CALL(pthread_kill, pthread_kill(x.id, fatal[(unsigned)o.b % 3])); EXPECT(r == ESRCH, "result", "pthread_kill of a reclaimed thread returned %s", ename(r)); r = CALL(pthread_join, pthread_join(x.id, 0)); EXPECT(r == ESRCH, "result", "pthread_join of a reclaimed thread returned %s", ename(r)); label("stale"); break; }
    case K_LOCK: { begin(h, o.c, 0, -1); r = CALL(pthread_mutex_lock, pthread_mutex_lock(&w.mx)); EXPECT(r == 0 && w.mxowner < 0, "exclusion", "mutex_lock %s", ename(r)); w.mxowner = i; sim_point(); EXPECT(w.mxowner == i, "exclusion", "two threads own the mutex"); w.mxowner = -1; r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(&w.mx)); end(h); EXPECT(r == 0, "result", "mutex_unlock %s", ename(r)); break; }
    } } }
static void *thread_main(void *a) {
  int i = (int)(size_t)a; KW &w = *W; EXPECT(i >= 0 && i < w.ni, "create", "start routine called with a wrong argument"); Inst &h = w.in[i]; h.fib = sim_cur(); h.runs++; fstate[h.fib].thr = i; EXPECT(h.runs == 1, "create", "the start routine of thread %d ran twice", i);
  pthread_t s = CALL(pthread_self, pthread_self()); if (h.idknown) EXPECT(pthread_equal(s, h.id), "identity", "pthread_self differs from the identity pthread_create gave"); else { h.id = s; h.idknown = true; }
  FN("go"); sim_wait_until(go_pred, 0); FN("-"); exec(i); FIX(98);
  if (h.kind && !w.release) { FN("parked"); h.parked = true; label(h.kind == 1 ? "parked-waiting" : h.kind == 2 ? "parked-computing" : "parked-win32");
    if (h.kind == 1) sim_wait_until(rel_pred, 0); else if (h.kind == 2) { for (int k = 0; k < 6 && !w.release; k++) { EXPECT(!h.killdone, "kill", "a killed thread goes on running"); h.beat++; sim_point(); } sim_wait_until(rel_pred, 0); } else { sim_user_region(1); WaitForSingleObject(w.ev, INFINITE); sim_user_region(0); }
    EXPECT(!h.killdone && !h.killreq, "kill", "a killed thread goes on running"); h.parked = false; FN("-"); }
  EXPECT(!h.killreq, "kill", "a killed thread goes on running"); pthread_t s2 = CALL(pthread_self, pthread_self()); EXPECT(pthread_equal(s2, h.id), "identity", "pthread_self differs from the identity the thread had before"); h.returned = true; return h.value; }
static void check_idle(void) { KW &w = *W; i64 now = sim_now(); for (int i = 0; i < w.ni; i++) { Inst &h = w.in[i]; if (h.fib < 0 || fdone(i) || !h.incall) continue; int op = h.incall - 1;
    if (op == K_JOIN || op == K_TIMEDJOIN) { EXPECT(!fdone(h.obj), "stranded", "thread %d is blocked joining thread %d which has ended", i, h.obj); if (op == K_TIMEDJOIN) EXPECT(h.abs + w.slack + (i64)sim_forced() - h.f0 >= now, "unbounded", "thread %d is still in timedjoin after its deadline", i); }
    else if (op == K_DETACH) EXPECT(h.obj != i && !fdone(h.obj), "stranded", "thread %d is blocked in detach", i);
    else sim_fail("stranded", "thread %d is blocked in %s", i, names[op]); } }
static void run(const Prog &p) {
  static KW world; memset(&world, 0, sizeof world); W = &world; KW &w = world; w.p = &p; int r; w.mxowner = -1; w.slack = 30 * MS + p.tick * 800LL; fstate[0].thr = 99; FN("setup"); int at = sim_atomic(1); sim_lib_ctors();
  r = CALL(pthread_mutex_init, pthread_mutex_init(&w.mx, 0)); EXPECT(r == 0, "result", "mutex_init %s", ename(r)); sim_user_region(1); w.ev = CreateEvent(0, 1, 0, 0); sim_user_region(0);
  int n = p.cfg[0] < 1 ? 1 : p.cfg[0]; for (int s = 0; s < n && s < p.nt; s++) create(-1, s);
  sim_atomic(at); FN("-"); sim_wait_quiet(); sim_set_idle_hook(check_idle); sim_mark(); w.go = 1; sim_wait_quiet(); check_idle();
  for (int i = 0; i < w.ni; i++) { Inst &h = w.in[i]; if (h.parked && !h.killreq) { EXPECT(!fdone(i), "kill", "thread %d ended though nobody killed it", i); label("spared"); } }
  w.release = 1; sim_user_region(1); SetEvent(w.ev); sim_user_region(0); sim_wait_quiet(); check_idle(); sim_set_idle_hook(0);
  for (int i = 0; i < w.ni; i++) { Inst &h = w.in[i]; FN("final"); EXPECT(h.runs == 1, "create", "the start routine of thread %d never ran", i); EXPECT(fdone(i), "stranded", "thread %d never ends (in %s)", i, h.incall ? names[h.incall - 1] : "its own code"); EXPECT(h.returned || h.killreq, "kill", "thread %d ended though nobody killed it", i); }
  for (int i = 0; i < w.ni; i++) { Inst &h = w.in[i]; if (h.det == JOINABLE) { void *v = 0; if (p.cfg[12] & 1) { r = CALL(pthread_detach, pthread_detach(h.id)); EXPECT(r == 0, "result", "detach of an ended thread returned %s", ename(r)); } else { r = CALL(pthread_join, pthread_join(h.id, &v)); EXPECT(r == 0, "result", "join of the ended thread %d returned %s", i, ename(r)); value_check(i, v, "join"); } h.det = GONE; }
    if (gone(i)) { r = CALL(pthread_kill, pthread_kill(h.id, SIGTERM)); EXPECT(r == ESRCH, "result", "pthread_kill of a reclaimed thread returned %s", ename(r)); } }
  // the library still works: a new thread runs and gives its value
  { static Prog empty; static Prog q; q = empty; q.nt = 1; w.p = &q; w.ni = 0; create(-1, 0); void *v = 0; r = CALL(pthread_join, pthread_join(w.in[0].id, &v)); EXPECT(r == 0 && v == w.in[0].value, "create", "a thread created afterwards was joined with %s", ename(r)); }
  r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(&w.mx)); EXPECT(r == 0, "result", "mutex_destroy %s", ename(r)); sim_user_region(1); CloseHandle(w.ev); sim_user_region(0); sim_lib_dtors(); if (!w.lost) leak_check(); else label("detached-killed-running"); }
static void gen(Rng &r, Prog &p, int) {
  p.nt = r.r(2, 5); int *c = p.cfg; c[0] = r.r(2, p.nt); c[12] = r.n(2); int nv = 0;
  for (int s = 0; s < p.nt; s++) { int kind = r.p(1, 2) ? r.r(1, 3) : 0; if (s == 0 && r.p(3, 4)) kind = r.r(1, 3); if (kind) nv++; c[1 + s] = (r.p(1, 5) ? 1 : 0) | kind << 1; }
  for (int t = 0; t < p.nt; t++) { bool victim = c[1 + t] >> 1; int n = victim ? r.n(3) ? 0 : r.r(1, 3) : r.r(1, 6); Thr &q = p.t[t];
    while (n--) { if (q.n >= MAXOPS) break; Op &o = q.op[q.n++]; static const int a[] = {K_KILL, K_KILL, K_KILL, K_JOIN, K_JOIN, K_TRYJOIN, K_TIMEDJOIN, K_DETACH, K_CANCEL, K_BAD, K_NONE, K_CREATE, K_NAME, K_STALE, K_LOCK}, v[] = {K_LOCK, K_NONE, K_NAME, K_KILL, K_CREATE}; o.c = victim ? r.pick(v) : r.pick(a); o.a = r.n(8); o.b = o.c == K_TIMEDJOIN ? r.pick((const int[]){0, 1, 10000, 25000, 300000}) : r.n(8); }
    if (!victim && r.p(1, 8) && q.n < MAXOPS) { Op &o = q.op[q.n++]; o.c = K_SELF; o.b = r.n(3); } } }
static RegF reg({"kill", gen, run, opname});
static RegP p28("C28", "kill", 0, 1, 1);
