// Barriers and one-time initialisation.
#include "client.h"
#include <stdio.h>
enum { B_WAIT, B_DBUSY, B_YIELD, B_DELAY, B_CANCEL, B_TESTC, B_ONCE, B_BAD, NOPS };
static const char *names[] = {"barrier_wait", "barrier_destroy_busy", "yield", "delay", "cancel", "testcancel", "once", "bad_arguments"};
static const char *opname(int c) { return c >= 0 && c < NOPS ? names[c] : "?"; }
enum { PR_BAR = 7, PR_ONCE = 9, PR_BARDEST = 27, PR_BARLEAK = 22 };
enum { NB = 2, NO = 3, MAXTH = 16 };
// cfg: 0 barriers, 1+b height, 3+b flags (1 users destroy it after the last generation, 2 any released thread may, 4 attribute, 8 made by every user's hand again after destruction), 5 budget generations
// once: 8 controls, 9.. plans (4 per control)
struct GB { pthread_barrier_t *b; int H, A, R, S, infl, frozen, budget, flags; bool destroyed, destroying, incarn; int cnt[MAXTH], ret[MAXTH]; int serial[64]; };
struct GO { pthread_once_t *o; int running, starts, plan[4]; bool done; int depth; };
struct TH { pthread_t id; int fib, incall, obj; i64 abs, f0, t0; bool started, exiting, cancelled; int cancel_req, cancel_done; int inonce; };
struct SW { const Prog *p; GB b[NB]; int nb; GO o[NO]; int no; TH t[MAXTH]; int nt, nfill; int go; bool final, stop; i64 slack; };
static SW *W;
static int byfib[64];
static int go_pred(void *) { return W->go; }
static int thawed(void *a) { return !((GB *)a)->frozen; }
static int me(void) { return byfib[sim_cur()]; }
static bool fdone(int j) { return W->t[j].fib >= 0 && sim_fiber_done(W->t[j].fib); }
static void begin(TH &h, int op, int obj, i64 abs) { h.incall = op + 1; h.obj = obj; h.abs = abs; h.f0 = sim_forced(); h.t0 = sim_now(); }
static void b_make(GB &g, bool alloc) { if (alloc) g.b = (pthread_barrier_t *)sim_umalloc(sizeof *g.b); memset((void *)g.b, 0x5a, sizeof *g.b); pthread_barrierattr_t a, *pa = 0; int r;
  if (g.flags & 4) { r = CALL(pthread_barrierattr_init, pthread_barrierattr_init(&a)); EXPECT(r == 0, "result", "barrierattr_init %s", ename(r)); pa = &a; }
  r = CALL(pthread_barrier_init, pthread_barrier_init(g.b, pa, g.H)); EXPECT(r == 0, "result", "barrier_init %s", ename(r));
  if (pa) { r = CALL(pthread_barrierattr_destroy, pthread_barrierattr_destroy(&a)); EXPECT(r == 0, "result", "barrierattr_destroy %s", ename(r)); } }
// destroyed by a thread the last generation released, while others may still be leaving
static bool b_destroy(GB &g, bool must) { g.destroying = true; int r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(g.b)); g.destroying = false;
  EXPECT(r == 0 || (!must && r == EBUSY), "result", "barrier_destroy by a thread that has returned from its last wait returned %s", ename(r)); if (r) { label("destroy-early"); return false; }
  g.destroyed = true; r = CALL(pthread_barrier_wait, pthread_barrier_wait(g.b)); EXPECT(r == EINVAL, "result", "wait on a destroyed barrier returned %s", ename(r)); r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(g.b)); EXPECT(r == EINVAL, "result", "second barrier_destroy returned %s", ename(r));
  sim_ufree((void *)g.b); g.b = 0; label("destroyed-by-user"); nontriv(); return true; }
static void do_wait(int i, int b) {
  SW &w = *W; TH &h = w.t[i]; GB &g = w.b[b]; 
  FN("frozen"); sim_wait_until(thawed, &g); if ((w.stop && i < w.nt) || g.destroyed || (g.budget && g.A >= g.budget)) return;
  g.A++; g.infl++; int k = ++g.cnt[i]; bool first = g.A % g.H == 1; begin(h, B_WAIT, b, -1);
  int r = CALL(pthread_barrier_wait, pthread_barrier_wait(g.b)); h.incall = 0; g.infl--; g.R++; g.ret[i]++;
  EXPECT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "barrier_wait returned %s", ename(r));
  int G = g.A / g.H; EXPECT(g.R <= g.H * G, "barrier", "%d waits on a barrier of height %d have returned with only %d arrivals", g.R, g.H, g.A);
  EXPECT(g.ret[i] <= G, "barrier", "thread %d was released %d times by a barrier of height %d with only %d arrivals", i, g.ret[i], g.H, g.A);
  bool exact = w.nt == g.H && !w.nfill && w.nb == 1;
  if (r) { g.S++; EXPECT(g.S <= G, "serial", "%d serial threads in %d generations", g.S, G); if (exact && k < 64) { EXPECT(++g.serial[k] == 1, "serial", "two serial threads in generation %d", k); } label("serial"); }
  if (g.H > 1) { nontriv(); label(first ? "waited" : "arrived-later"); } if (g.A > g.H * G && G) label("early-rearrival"); if (g.R % g.H && g.A % g.H) label("late-leaver");
  if (exact && k < 63) { int all = 0; for (int t = 0; t < w.nt; t++) all += g.ret[t] >= k; if (all == w.nt) EXPECT(g.serial[k] == 1, "serial", "%d serial threads in generation %d", g.serial[k], k); }
  if (g.budget && g.A == g.budget && !g.destroyed && !g.destroying) {
    if ((g.flags & 1) && r && g.S == g.budget / g.H) b_destroy(g, true);
    else if ((g.flags & 2) && exact && k == g.budget / g.H) b_destroy(g, false); }
}
static void do_dbusy(int i, int b) { SW &w = *W; GB &g = w.b[b]; (void)i; if (g.destroyed || g.destroying || g.frozen || !g.infl) return; 
  if (g.A - g.R != g.A % g.H) return; for (int t = 0; t < w.nt + w.nfill; t++) if (w.t[t].incall == B_WAIT + 1 && w.t[t].obj == b && !sim_fiber_blocked(w.t[t].fib)) return;
  g.frozen = 1; int r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(g.b)); EXPECT(r == EBUSY, "result", "barrier_destroy with %d threads waiting returned %s", g.infl, ename(r)); g.frozen = 0; label("destroy-busy"); nontriv(); }
// ------------------------------------------------ once
static void routine(int c);
static void ro0(void) { routine(0); } static void ro1(void) { routine(1); } static void ro2(void) { routine(2); }
static void (*const routines[NO])(void) = {ro0, ro1, ro2};
static void do_once(int i, int c) {
  SW &w = *W; TH &h = w.t[i]; GO &o = w.o[c]; int oi = h.incall, oo = h.obj; bool was = o.done; begin(h, B_ONCE, c, -1); if (o.running >= 0) label("once-contended"), nontriv();
  int r = CALL(pthread_once, pthread_once(o.o, routines[c])); h.incall = oi; h.obj = oo;
  EXPECT(r == 0, "result", "pthread_once returned %s", ename(r)); EXPECT(o.done, "once", "pthread_once returned before the routine was complete"); EXPECT(o.running < 0, "once", "pthread_once returned while the routine runs"); (void)was;
}
static void note_cancel(int i) { TH &h = W->t[i]; EXPECT(h.cancel_req, "cancel", "thread %d was cancelled but nobody asked", i); int op = h.incall - 1; EXPECT(h.incall && (op == B_TESTC || op == B_DELAY), "cancel", "thread %d was cancelled in %s", i, h.incall ? names[op] : "its own code"); h.exiting = h.cancelled = true; h.incall = 0; label("cancelled"); }
static void undo(void *a) { int c = (int)(size_t)a; GO &o = W->o[c]; int i = me(); TH &h = W->t[i]; if (!h.exiting) note_cancel(i); EXPECT(o.running == i, "once", "routine left by a thread that does not run it"); o.running = -1; label("routine-abandoned"); nontriv(); }
static void delay(int i, i64 ft) { TH &h = W->t[i]; struct timespec ts; ts.tv_sec = 0; ts.tv_nsec = (int)(ft * 100); i64 a = sim_now() + ft; int oi = h.incall, oo = h.obj; begin(h, B_DELAY, 0, a); int r = CALL(pthread_delay_np, pthread_delay_np(&ts)); h.incall = oi; h.obj = oo; EXPECT(r == 0, "result", "delay returned %s", ename(r)); }
static void testc(int i) { TH &h = W->t[i]; bool must = h.cancel_done; int oi = h.incall, oo = h.obj; begin(h, B_TESTC, 0, -1); FN("pthread_testcancel"); pthread_testcancel(); FN("-"); h.incall = oi; h.obj = oo; EXPECT(!must, "cancel-lost", "testcancel returned with a cancellation pending"); }
static void routine(int c) {
  const char *ofn = fstate[sim_cur()].fn; FN("init routine");
  SW &w = *W; GO &o = w.o[c]; int i = me(); EXPECT(i >= 0 || w.final, "once", "routine run by an unknown thread"); EXPECT(!o.done, "once", "routine run again after it completed"); EXPECT(o.running < 0, "once", "routine run by two threads at once");
  o.running = i >= 0 ? i : MAXTH; int n = o.starts++, plan = o.plan[n < 3 ? n : 3]; if (w.final || n >= 3) plan = 0; if (n) label("routine-again");
  if (i >= 0) {
    TH &h = w.t[i]; int oi = h.incall; h.incall = 0;
    pthread_cleanup_push(undo, (void *)(size_t)c);
    sim_point();
    switch (plan) {
    case 1: { w.t[i].exiting = true; FN("pthread_exit"); pthread_exit((void *)0x99); }
    case 2: delay(i, 10000 * (1 + n)); break;
    case 3: testc(i); break;
    case 4: { TH &x = w.t[i]; x.cancel_req++; int r = CALL(pthread_cancel, pthread_cancel(x.id)); EXPECT(r == 0, "result", "pthread_cancel of itself returned %s", ename(r)); x.cancel_done++; testc(i); break; }
    case 5: if (c + 1 < w.no) { label("nested-once"); do_once(i, c + 1); } break;
    case 6: CALL(sched_yield, sched_yield()); sim_point(); break;
    case 7: sim_point(); sim_point(); sim_point(); break;
    }
    pthread_cleanup_pop(0);
    W->t[i].incall = oi;
  }
  GO &o2 = W->o[c]; EXPECT(o2.running == (i >= 0 ? i : MAXTH), "once", "another thread runs the routine"); o2.running = -1; o2.done = true; FN(ofn);
}
// ------------------------------------------------
static void outer(void *a) { int i = (int)(size_t)a; TH &h = W->t[i]; FN("outer handler"); if (!h.exiting) note_cancel(i); for (int c = 0; c < W->no; c++) EXPECT(W->o[c].running != i, "once", "outer cleanup ran before the inner one"); }
static void *thread_main(void *a) {
  int i = (int)(size_t)a; SW &w = *W; TH &h = w.t[i]; h.fib = sim_cur(); byfib[h.fib] = i; h.started = true; fstate[sim_cur()].thr = i; FN("go"); sim_wait_until(go_pred, 0);
  pthread_cleanup_push(outer, a);
  const Thr &p = w.p->t[i];
  for (int k = 0; k < p.n; k++) { Op o = p.op[k]; FIX(k); TH &h2 = W->t[i]; int b = W->nb ? (unsigned)o.a % W->nb : 0; int r;
    switch (o.c) {
    case B_WAIT: if (W->nb) do_wait(i, b); break;
    case B_DBUSY: if (W->nb) do_dbusy(i, b); break;
    case B_YIELD: CALL(sched_yield, sched_yield()); break;
    case B_DELAY: delay(i, (i64)(unsigned)o.b % 50000 + 1); break;
    case B_CANCEL: { int j = (unsigned)o.a % W->nt; TH &x = W->t[j]; bool ended = x.exiting || fdone(j); x.cancel_req++; r = CALL(pthread_cancel, pthread_cancel(x.id)); if (r == 0) x.cancel_done++; else EXPECT(r == ESRCH && (ended || x.exiting || fdone(j) || x.cancel_req > 1), "result", "pthread_cancel returned %s", ename(r)); break; }
    case B_TESTC: testc(i); break;
    case B_ONCE: if (W->no) do_once(i, (unsigned)o.a % W->no); break;
    case B_BAD: r = CALL(pthread_barrier_wait, pthread_barrier_wait(0)); EXPECT(r == EINVAL, "result", "wait(NULL) returned %s", ename(r)); r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(0)); EXPECT(r == EINVAL, "result", "destroy(NULL) returned %s", ename(r)); { pthread_barrier_t x; r = CALL(pthread_barrier_init, pthread_barrier_init(&x, 0, 0)); EXPECT(r == EINVAL, "result", "init with count 0 returned %s", ename(r)); r = CALL(pthread_barrier_init, pthread_barrier_init(0, 0, 1)); EXPECT(r == EINVAL, "result", "init(NULL) returned %s", ename(r)); }
      r = CALL(pthread_once, pthread_once(0, ro0)); EXPECT(r == EINVAL, "result", "once(NULL) returned %s", ename(r)); { pthread_once_t z = PTHREAD_ONCE_INIT; r = CALL(pthread_once, pthread_once(&z, 0)); EXPECT(r == EINVAL, "result", "once without routine returned %s", ename(r)); } (void)h2; break; }
  }
  FIX(99); pthread_cleanup_pop(0); W->t[i].exiting = true; return 0;
}
static void *filler(void *a) { int i = (int)(size_t)a; SW &w = *W; TH &h = w.t[i]; h.fib = sim_cur(); byfib[h.fib] = i; fstate[sim_cur()].thr = i; int b = h.obj; h.obj = 0; do_wait(i, b); h.exiting = true; return 0; }
// a height no test can fill: whoever waits stays
static const unsigned huge_h[] = {255, 256, 257, 32767, 32769, 65535, 65536, 65537, 65538, 65539, 100000, 0x7fffffff};
static int huge_back;
static void *huge_main(void *a) { fstate[sim_cur()].thr = (int)(size_t)a; FN("go"); sim_wait_until(go_pred, 0); CALL(pthread_barrier_wait, pthread_barrier_wait(W->b[0].b)); huge_back++; return 0; }
static void huge(const Prog &p) {
  SW &w = *W; unsigned H = huge_h[(unsigned)p.cfg[20] % 12]; int r; fstate[0].thr = 99; FN("setup"); huge_back = 0; int at = sim_atomic(1); sim_lib_ctors(); GB &g = w.b[0]; g.b = (pthread_barrier_t *)sim_umalloc(sizeof *g.b);
  r = CALL(pthread_barrier_init, pthread_barrier_init(g.b, 0, H)); EXPECT(r == 0, "result", "barrier_init with height %u returned %s", H, ename(r));
  for (int i = 0; i < p.nt; i++) { r = CALL(pthread_create, pthread_create(&w.t[i].id, 0, huge_main, (void *)(size_t)i)); EXPECT(r == 0, "result", "create %s", ename(r)); }
  sim_atomic(at); sim_wait_quiet(); sim_mark(); w.go = 1; sim_wait_quiet();
  EXPECT(!huge_back, "barrier", "%d threads were released by a barrier of height %u with %d arrivals", huge_back, H, p.nt); r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(g.b)); EXPECT(r == EBUSY, "result", "barrier_destroy with %d threads waiting returned %s", p.nt, ename(r)); label("huge"); nontriv();
}
static void check_idle(void) {
  SW &w = *W; for (int b = 0; b < w.nb; b++) { GB &g = w.b[b]; int want = g.A - g.A % g.H; EXPECT(g.R == want, "stranded", "all threads are blocked; barrier of height %d: %d arrivals, %d have returned instead of %d", g.H, g.A, g.R, want); EXPECT(g.S == want / g.H, "serial", "%d serial threads in %d generations", g.S, want / g.H); }
  for (int i = 0; i < w.nt; i++) { TH &h = w.t[i]; if (h.fib < 0 || sim_fiber_done(h.fib) || !h.incall) continue; int op = h.incall - 1;
    if (op == B_ONCE && w.o[h.obj].running < 0) sim_fail("stranded", "thread %d is blocked in pthread_once with nobody running the routine", i);
    if (op == B_DELAY && h.abs + w.slack + (i64)sim_forced() - h.f0 < (i64)sim_now()) sim_fail("unbounded", "thread %d is late in its delay", i);
    if (op == B_DELAY && h.cancel_done && !h.exiting) sim_fail("cancel-lost", "thread %d is blocked in delay with a cancellation pending", i); }
}
static void run(const Prog &p) {
  static SW world; memset(&world, 0, sizeof world); W = &world; SW &w = world; w.p = &p; int r; if (p.cfg[20] > 0) { huge(p); return; } memset(byfib, -1, sizeof byfib); w.slack = 30 * MS + p.tick * 800LL; w.nt = p.nt;
  fstate[0].thr = 99; FN("setup"); int at = sim_atomic(1); sim_lib_ctors();
  w.nb = p.cfg[0] < 0 ? 0 : p.cfg[0] > NB ? NB : p.cfg[0]; w.no = p.cfg[8] < 0 ? 0 : p.cfg[8] > NO ? NO : p.cfg[8];
  for (int b = 0; b < w.nb; b++) { GB &g = w.b[b]; g.H = p.cfg[1 + b] < 1 ? 1 : p.cfg[1 + b] > 11 ? 11 : p.cfg[1 + b]; g.flags = p.cfg[3 + b]; if (g.flags & 3) g.budget = g.H * (p.cfg[5] < 1 ? 1 : p.cfg[5]); b_make(g, true); }
  for (int c = 0; c < w.no; c++) { GO &o = w.o[c]; o.running = -1; o.o = (pthread_once_t *)sim_umalloc(sizeof *o.o); pthread_once_t z = PTHREAD_ONCE_INIT; *o.o = z; for (int k = 0; k < 4; k++) o.plan[k] = k < 3 ? p.cfg[9 + c * 3 + k] : 0; }
  for (int i = 0; i < MAXTH; i++) w.t[i].fib = -1;
  for (int i = 0; i < w.nt; i++) { r = CALL(pthread_create, pthread_create(&w.t[i].id, 0, thread_main, (void *)(size_t)i)); EXPECT(r == 0, "result", "create %s", ename(r)); }
  sim_atomic(at); FN("-"); sim_wait_quiet(); sim_set_idle_hook(check_idle); sim_mark(); w.go = 1; sim_wait_quiet();
  for (int rounds = 0;; rounds++) {
    check_idle(); int busy = -1; for (int i = 0; i < w.nt + w.nfill; i++) if (!fdone(i)) busy = i; if (busy < 0) break; EXPECT(rounds < 60, "harness", "rescue does not end");
    int b = -1; for (int q = 0; q < w.nb; q++) if (!w.b[q].destroyed && w.b[q].A % w.b[q].H) b = q;
    if (b < 0) sim_fail("stranded", "thread %d never ends (in %s)", busy, w.t[busy].incall ? names[w.t[busy].incall - 1] : "its own code");
    GB &g = w.b[b]; int need = g.H - g.A % g.H; while (need-- > 0 && w.nt + w.nfill < MAXTH) { int i = w.nt + w.nfill; TH &h = w.t[i]; memset(&h, 0, sizeof h); h.fib = -1; h.obj = b; w.nfill++; g.cnt[i] = g.ret[i] = 0; r = CALL(pthread_create, pthread_create(&h.id, 0, filler, (void *)(size_t)i)); EXPECT(r == 0, "result", "create %s", ename(r)); }
    label("rescued"); if (rounds == 2) w.stop = true; sim_wait_quiet(); 
    for (int i = w.nt; i < w.nt + w.nfill; i++) { EXPECT(fdone(i), "stranded", "thread is still blocked in a barrier whose generation is complete"); r = CALL(pthread_join, pthread_join(w.t[i].id, 0)); EXPECT(r == 0, "result", "join %s", ename(r)); }
    for (int q = 0; q < w.nb; q++) for (int i = w.nt; i < MAXTH; i++) w.b[q].cnt[i] = w.b[q].ret[i] = 0; w.nfill = 0;
  }
  sim_set_idle_hook(0); FN("final");
  for (int i = 0; i < w.nt; i++) { void *v = 0; r = CALL(pthread_join, pthread_join(w.t[i].id, &v)); EXPECT(r == 0, "result", "join %s", ename(r)); EXPECT(v == (w.t[i].cancelled ? PTHREAD_CANCELED : v == (void *)0x99 && w.t[i].exiting ? v : 0), "join", "wrong exit value"); }
  w.final = true;
  for (int c = 0; c < w.no; c++) { GO &o = w.o[c]; bool was = o.done; int n = o.starts; EXPECT(o.running < 0, "once", "the routine is marked as running at the end"); r = CALL(pthread_once, pthread_once(o.o, routines[c])); EXPECT(r == 0 && o.done, "once", "the last pthread_once did not complete"); EXPECT(o.starts == n + !was, "once", "the last pthread_once ran the routine %d times", o.starts - n); sim_ufree((void *)o.o); }
  for (int b = 0; b < w.nb; b++) { GB &g = w.b[b]; if (g.destroyed) continue; r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(g.b)); EXPECT(r == 0, "result", "barrier_destroy at the end returned %s", ename(r)); r = CALL(pthread_barrier_wait, pthread_barrier_wait(g.b)); EXPECT(r == EINVAL, "result", "wait on a destroyed barrier returned %s", ename(r));
    g.H = 1; b_make(g, false); r = CALL(pthread_barrier_wait, pthread_barrier_wait(g.b)); EXPECT(r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "wait on a barrier of height 1 returned %s", ename(r)); r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(g.b)); EXPECT(r == 0, "result", "barrier_destroy %s", ename(r)); sim_ufree((void *)g.b); }
  sim_lib_dtors(); leak_check();
}
static void add(Prog &p, int t, int c, int a = 0, int b = 0, int d = 0) { if (p.t[t].n < MAXOPS) { Op &o = p.t[t].op[p.t[t].n++]; o.c = c; o.a = a; o.b = b; o.d = d; } }
static void gen(Rng &r, Prog &p, int prof) {
  int *c = p.cfg; p.nt = r.r(2, 5);
  if (prof == PR_ONCE) { c[8] = r.r(1, 3); for (int k = 0; k < 9; k++) c[9 + k] = r.p(1, 3) ? 0 : r.r(1, 7);
    for (int t = 0; t < p.nt; t++) { int n = r.r(1, 4); while (n--) switch (r.n(8)) { case 0: case 1: case 2: case 3: add(p, t, B_ONCE, r.n(3)); break; case 4: add(p, t, B_CANCEL, r.n(5)); break; case 5: add(p, t, r.p(1, 2) ? B_TESTC : B_DELAY, 0, r.n(40000)); break; case 6: add(p, t, B_YIELD); break; case 7: if (r.p(1, 6)) add(p, t, B_BAD); else add(p, t, B_ONCE, 0); break; } }
    return; }
  if (prof != PR_BARLEAK && r.p(1, 50)) c[20] = r.r(1, 12);
  c[0] = r.p(3, 4) ? 1 : 2; bool dest = prof == PR_BARDEST || r.p(1, 3); c[5] = r.r(1, 3);
  for (int b = 0; b < c[0]; b++) { c[1 + b] = r.p(1, 2) ? p.nt : r.p(1, 30) ? r.r(6, 11) : r.r(1, p.nt + (r.p(1, 4) ? 1 : 0)); c[3 + b] = (dest ? r.r(1, 3) : 0) | (r.p(1, 4) ? 4 : 0); }
  int g = r.r(1, 4); for (int t = 0; t < p.nt; t++) { int n = r.p(2, 3) ? g : r.r(0, 4); while (n--) { if (r.p(1, 8)) add(p, t, B_DBUSY, r.n(2)); if (r.p(1, 10)) add(p, t, r.p(1, 2) ? B_YIELD : B_DELAY, 0, r.n(40000)); if (r.p(1, 12)) add(p, t, B_CANCEL, r.n(5)); add(p, t, B_WAIT, r.n(2)); if (r.p(1, 16)) add(p, t, B_TESTC); } if (r.p(1, 20)) add(p, t, B_BAD); }
}
static RegF f({"sync", gen, run, opname});
static RegP p7("C07", "sync", PR_BAR, 1, 1), p9("C09", "sync", PR_ONCE, 1, 1), p27("C27", "sync", PR_BARDEST), p22("C22", "sync", PR_BARLEAK, 1, 1);
