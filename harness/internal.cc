// The queue lock (ptw32_MCS_lock.c) that every other object relies on, driven directly.
#ifdef HAVE_CONFIG_H
#include "config.h"
#endif
#include "client.h"
#include "implement.h"
#include <stdio.h>
#include <errno.h>
enum { M_ACQ, M_TRY, M_REL, M_XFER, M_GIVE, M_TAKE, M_YIELD, M_CS, NOPS };
static const char *names[] = {"acquire", "try_acquire", "release", "transfer", "give away", "release another thread's", "yield", "critical section"};
static const char *opname(int c) { return c >= 0 && c < NOPS ? names[c] : "?"; }
enum { PR_MCS = 25, PR_MCSF = 23 };
enum { NL = 3, NT = 6 };
typedef ptw32_mcs_local_node_t Node;
struct LK { ptw32_mcs_lock_t *l; int owner; unsigned grant, acts, rels; int acqs, relinfl; Node *box; int data; }; // owner: -1 free, thread, or 100: in the box
struct TH { pthread_t id; int fib, incall, obj; Node *node[NL]; unsigned call, before[NT]; bool fresh[NL]; };
struct MW { const Prog *p; LK l[NL]; int nl, nt, go; TH t[NT]; };
static MW *W;
static int go_pred(void *) { return W->go; }
static bool fdone(int j) { return W->t[j].fib >= 0 && sim_fiber_done(W->t[j].fib); }
static Node *newnode(void) { Node *n = (Node *)sim_umalloc(sizeof *n); memset((void *)n, 0x5a, sizeof *n); return n; }
static void freenode(Node *n) { sim_ufree((void *)n); }
static void begin(TH &h, int op, int l) { h.incall = op + 1; h.obj = l; h.call++; W->l[l].acts++; }
static void granted(int i, int l) { LK &k = W->l[l]; EXPECT(k.owner < 0, "exclusion", "thread %d was given a lock that %s %d holds", i, k.owner == 100 ? "box" : "thread", k.owner); k.owner = i; k.grant++; int d = k.data; sim_point(); EXPECT(k.data == d && k.owner == i, "exclusion", "somebody else entered"); k.data++; }
static void acquire(int i, int l) {
  MW &w = *W; TH &h = w.t[i]; LK &k = w.l[l]; if (h.node[l]) return; for (int q = l; q < w.nl; q++) if (h.node[q]) return; // in order only
  Node *n = newnode(); bool clear = k.owner < 0 && !k.acqs && !k.relinfl; if (!clear) label("contended");
  for (int j = 0; j < w.nt; j++) { TH &x = w.t[j]; h.before[j] = j != i && x.fib >= 0 && x.incall == M_ACQ + 1 && x.obj == l && sim_fiber_blocked(x.fib) ? x.call : 0; if (h.before[j]) label("queued-behind"); }
  begin(h, M_ACQ, l); k.acqs++; unsigned rels = k.rels; FN("ptw32_mcs_lock_acquire"); ptw32_mcs_lock_acquire(k.l, n); FN("-"); h.incall = 0; k.acqs--; if (!clear && k.rels != rels) { label("handed-over"); nontriv(); }
  for (int j = 0; j < w.nt; j++) if (h.before[j] && w.t[j].incall == M_ACQ + 1 && w.t[j].obj == l && w.t[j].call == h.before[j]) sim_fail("order", "thread %d got the lock before thread %d, which was waiting when it came", i, j);
  h.node[l] = n; h.fresh[l] = true; granted(i, l);
}
static void tryacq(int i, int l) {
  MW &w = *W; TH &h = w.t[i]; LK &k = w.l[l]; if (h.node[l]) return; Node *n = newnode(); bool clear = k.owner < 0 && !k.acqs && !k.relinfl; int ow = k.owner; unsigned g = k.grant, rels = k.rels;
  begin(h, M_TRY, l); k.acqs++; unsigned a = k.acts; int r = CALL(ptw32_mcs_lock_try_acquire, ptw32_mcs_lock_try_acquire(k.l, n)); h.incall = 0; k.acqs--;
  EXPECT(r == 0 || r == EBUSY, "result", "try_acquire returned %s", ename(r));
  if (clear && k.acts == a) EXPECT(r == 0, "try", "try_acquire of a lock that nobody uses returned %s", ename(r));
  if (ow >= 0 && k.grant == g && k.rels == rels) EXPECT(r == EBUSY, "try", "try_acquire of a held lock returned %s", ename(r));
  if (r) { freenode(n); label("try-busy"); nontriv(); return; }
  h.node[l] = n; granted(i, l); label("try-won");
}
static void release_node(int i, int l, Node *n) {
  LK &k = W->l[l]; TH &h = W->t[i]; k.owner = -1; k.rels++; k.relinfl++; begin(h, M_REL, l); FN("ptw32_mcs_lock_release"); ptw32_mcs_lock_release(n); FN("-"); h.incall = 0; k.relinfl--;
  freenode(n); // the holder record may be reused or go away at once
}
static void release(int i, int l) { TH &h = W->t[i]; Node *n = h.node[l]; if (!n) return; EXPECT(W->l[l].owner == i, "exclusion", "the holder lost its lock"); h.node[l] = 0; release_node(i, l, n); }
static void transfer(int i, int l) { TH &h = W->t[i]; LK &k = W->l[l]; Node *n = h.node[l]; if (!n) return; Node *m = newnode(); int a = k.acqs; begin(h, M_XFER, l); FN("ptw32_mcs_node_transfer"); ptw32_mcs_node_transfer(m, n); FN("-"); h.incall = 0; EXPECT(k.owner == i, "exclusion", "the holder lost its lock in a transfer"); h.node[l] = m; freenode(n); label("transferred"); if (a || k.acqs) { label("transfer-contended"); nontriv(); } }
static void give(int i, int l) { TH &h = W->t[i]; LK &k = W->l[l]; if (!h.node[l] || k.box) return; transfer(i, l); k.box = h.node[l]; h.node[l] = 0; k.owner = 100; label("given"); }
static void take(int i, int l) { LK &k = W->l[l]; if (!k.box) return; Node *n = k.box; k.box = 0; release_node(i, l, n); label("released-for-another"); }
static void *thread_main(void *a) {
  int i = (int)(size_t)a; MW &w = *W; TH &h = w.t[i]; h.fib = sim_cur(); fstate[sim_cur()].thr = i; FN("go"); sim_wait_until(go_pred, 0); const Thr &p = w.p->t[i];
  for (int x = 0; x < p.n; x++) { Op o = p.op[x]; FIX(x); int l = (unsigned)o.a % w.nl;
    switch (o.c) { case M_ACQ: acquire(i, l); break; case M_TRY: tryacq(i, l); break; case M_REL: release(i, l); break; case M_XFER: transfer(i, l); break; case M_GIVE: give(i, l); break; case M_TAKE: take(i, l); break; case M_YIELD: CALL(sched_yield, sched_yield()); break; case M_CS: sim_point(); break; } }
  FIX(99); for (int l = 0; l < w.nl; l++) release(i, l); return 0; }
static void check_idle(void) {
  MW &w = *W; for (int i = 0; i < w.nt; i++) if (w.t[i].fib >= 0 && !sim_fiber_done(w.t[i].fib) && sim_fiber_timed(w.t[i].fib)) return; // polling for want of an event
  for (int i = 0; i < w.nt; i++) { TH &h = w.t[i]; if (h.fib < 0 || sim_fiber_done(h.fib) || !h.incall || sim_fiber_timed(h.fib)) continue; int op = h.incall - 1; LK &k = w.l[h.obj];
    if (op != M_ACQ) sim_fail("stranded", "thread %d is blocked in %s", i, names[op]);
    if (k.owner < 0 && !k.relinfl) sim_fail("stranded", "thread %d is blocked acquiring a lock that nobody holds", i); } }
static void run(const Prog &p) {
  static MW world; memset(&world, 0, sizeof world); W = &world; MW &w = world; w.p = &p; int r; fstate[0].thr = 99; FN("setup"); int at = sim_atomic(1); sim_lib_ctors(); w.nt = p.nt > NT ? NT : p.nt;
  w.nl = p.cfg[0] < 1 ? 1 : p.cfg[0] > NL ? NL : p.cfg[0]; for (int l = 0; l < w.nl; l++) { w.l[l].l = (ptw32_mcs_lock_t *)sim_umalloc(sizeof(ptw32_mcs_lock_t)); memset((void *)w.l[l].l, 0, sizeof(ptw32_mcs_lock_t)); w.l[l].owner = -1; }
  for (int i = 0; i < NT; i++) w.t[i].fib = -1;
  for (int i = 0; i < w.nt; i++) { r = CALL(pthread_create, pthread_create(&w.t[i].id, 0, thread_main, (void *)(size_t)i)); EXPECT(r == 0, "result", "create %s", ename(r)); }
  sim_atomic(at); FN("-"); sim_wait_quiet(); if (p.cfg[1]) { sim_fault_arm_all(F_EVENT, p.cfg[1], p.cfg[2]); label("event-faults"); } sim_set_idle_hook(check_idle); sim_mark(); w.go = 1; sim_wait_quiet();
  for (int rounds = 0;; rounds++) { check_idle(); int busy = -1; for (int i = 0; i < w.nt; i++) if (!fdone(i)) busy = i; if (busy < 0) break; int l = -1; for (int q = 0; q < w.nl; q++) if (w.l[q].box) l = q; if (l < 0 || rounds > 20) sim_fail("stranded", "thread %d never ends", busy);
    Node *n = w.l[l].box; w.l[l].box = 0; w.l[l].owner = -1; w.l[l].rels++; w.l[l].relinfl++; FN("ptw32_mcs_lock_release"); ptw32_mcs_lock_release(n); w.l[l].relinfl--; FN("-"); freenode(n); label("rescued"); sim_wait_quiet(); }
  sim_set_idle_hook(0); sim_fault_arm(F_EVENT, 0, 0); FN("final");
  for (int i = 0; i < w.nt; i++) { r = CALL(pthread_join, pthread_join(w.t[i].id, 0)); EXPECT(r == 0, "result", "join %s", ename(r)); }
  for (int l = 0; l < w.nl; l++) { LK &k = w.l[l]; if (k.box) { k.owner = -1; FN("ptw32_mcs_lock_release"); ptw32_mcs_lock_release(k.box); freenode(k.box); k.box = 0; }
    EXPECT(k.owner < 0, "exclusion", "lock still held at the end"); Node *n = newnode(); r = CALL(ptw32_mcs_lock_try_acquire, ptw32_mcs_lock_try_acquire(k.l, n)); EXPECT(r == 0, "try", "try_acquire of a free lock at the end returned %s", ename(r)); Node *m = newnode(); int r2 = CALL(ptw32_mcs_lock_try_acquire, ptw32_mcs_lock_try_acquire(k.l, m)); EXPECT(r2 == EBUSY, "try", "try_acquire of a held lock returned %s", ename(r2)); ptw32_mcs_lock_release(n); ptw32_mcs_lock_acquire(k.l, m); ptw32_mcs_lock_release(m); freenode(n); freenode(m); sim_ufree((void *)k.l); }
  sim_lib_dtors(); leak_check();
}
static void add(Prog &p, int t, int c, int a) { if (p.t[t].n < MAXOPS) { Op &o = p.t[t].op[p.t[t].n++]; o.c = c; o.a = a; o.b = o.d = 0; } }
static void gen(Rng &r, Prog &p, int prof) {
  p.nt = r.r(2, 5); int nl = p.cfg[0] = r.p(2, 3) ? 1 : r.r(2, 3); if (prof == PR_MCSF) {  p.cfg[1] = r.r(1, 4); p.cfg[2] = r.p(1, 2) ? 1 : r.r(1, 6); } int style = r.n(4);
  for (int t = 0; t < p.nt; t++) { int n = r.r(1, 4); while (n--) { int l = r.n(nl); add(p, t, r.p(1, style == 1 ? 2 : 5) ? M_TRY : M_ACQ, l); if (r.p(1, 3)) add(p, t, r.p(1, 2) ? M_YIELD : M_CS, 0); if (nl > 1 && r.p(1, 3)) add(p, t, r.p(1, 2) ? M_ACQ : M_TRY, l + 1);
      if (r.p(style == 2 ? 2 : 1, 3)) add(p, t, M_XFER, l); if (r.p(1, 3)) add(p, t, r.p(1, 2) ? M_YIELD : M_CS, 0); if (prof != PR_MCSF && r.p(1, style == 3 ? 2 : 6)) add(p, t, M_GIVE, l); else if (r.p(9, 10)) add(p, t, M_REL, l); if (r.p(1, style == 3 ? 2 : 4)) add(p, t, M_TAKE, r.n(nl)); if (r.p(1, 6)) add(p, t, M_TRY, l); if (nl > 1 && r.p(1, 3)) add(p, t, M_REL, l + 1); } }
}
static RegF f({"mcs", gen, run, opname});
static RegP p25("C25", "mcs", PR_MCS, 4, 1), p25f("C25", "mcs", PR_MCSF, 1, 1), p22("C22", "mcs", PR_MCS, 1, 1), p23("C23", "mcs", PR_MCSF, 1, 1);

// a read-write lock as it is after INT_MAX - k uncontended read locks and unlocks, where the two counts exist
template <class T> static auto age(T *l, int k, int) -> decltype(l->nSharedAccessCount + l->nCompletedSharedAccessCount, bool()) { l->nSharedAccessCount = l->nCompletedSharedAccessCount = 0x7fffffff - k; return true; }
template <class T> static bool age(T *, int, long) { return false; }
bool rw_aged(pthread_rwlock_t *l, int k) { return age(*l, k, 0); }
// a condition variable as it is after INT_MAX / 2 - k waits that timed out with no signal in between
template <class T> static auto cage(T *c, int k, int) -> decltype(c->nWaitersBlocked + c->nWaitersGone, bool()) { if (c->nWaitersBlocked || c->nWaitersGone) return false; c->nWaitersBlocked = c->nWaitersGone = 0x3fffffff - k; return true; }
template <class T> static bool cage(T *, int, long) { return false; }
bool cv_aged(pthread_cond_t *c, int k) { return cage(*c, k, 0); }
