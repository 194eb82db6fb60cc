// The synchronisation world: threads run programs over mutexes, condition variables, semaphores, read-write locks and
// spin locks, against ghost models; every idle moment and the end are checked for stranded threads.
#include "client.h"
#include <stdio.h>
enum { M_LOCK, M_TRY, M_TIMED, M_UNLOCK, M_CONSIST, M_BADUN, M_FUN, M_DBUSY,
       C_WAIT, C_TWAIT, C_SIG, C_BCAST, C_DBUSY,
       S_WAIT, S_TRY, S_TIMED, S_POST, S_POSTN, S_GET,
       R_RD, R_TRD, R_TIMRD, R_WR, R_TWR, R_TIMWR, R_UN, R_DBUSY,
       P_LOCK, P_TRY, P_UN, P_BADUN, P_DBUSY,
       X_CANCEL, X_SETC, X_TESTC, X_DELAY, X_EXIT, X_TCHG, X_YIELD, M_RELOCK, S_DBUSY, C_BDEST, C_WERR, M_DEEP, M_LASTUSE, NOPS };
static const char *names[] = {"mutex_lock", "mutex_trylock", "mutex_timedlock", "mutex_unlock", "mutex_consistent", "bad_unlock", "foreign_unlock", "mutex_destroy_held",
  "cond_wait", "cond_timedwait", "cond_signal", "cond_broadcast", "cond_destroy_busy", "sem_wait", "sem_trywait", "sem_timedwait", "sem_post", "sem_post_multiple", "sem_getvalue",
  "rdlock", "tryrdlock", "timedrdlock", "wrlock", "trywrlock", "timedwrlock", "rw_unlock", "rw_destroy_held", "spin_lock", "spin_trylock", "spin_unlock", "spin_bad_unlock", "spin_destroy_held",
  "cancel", "setcancelstate", "testcancel", "delay", "exit", "timechange", "yield", "mutex_relock", "sem_destroy_busy", "cond_broadcast_destroy", "cond_wait_not_owner", "mutex_lock_deep", "mutex_unlock_destroy"};
static const char *opname(int c) { return c >= 0 && c < NOPS ? names[c] : "?"; }
enum { PR_MUTEX = 1, PR_MTYPE, PR_ROBUST, PR_SEM, PR_COND, PR_RW, PR_SPIN = 8, PR_ABANDON = 15, PR_TIMED, PR_STATIC, PR_MIX = 22, PR_DESTROY = 27 };
enum { NORMAL, ERRCHK, RECUR };
enum { MAXM = 3, MAXC = 4, MAXS = 2, MAXR = 2, MAXP = 2 };
// cfg: 0 nm, 1-3 mutex (kind + 4*robust + 8*static), 4 nc, 5-6 cond (static + 2*mutex), 7 ns, 8-9 sem init, 10 nr, 11-12 static, 13 np, 14-15 static, 16 rescue mode, 17 tstate bits (leave robust held), 18 main lock on destroy
static inline int CI(int i) { return i < 2 ? 5 + i : 17 + i; }
static inline int ckind(const Prog &p, int i) { int k = p.cfg[1 + i] & 3; return k > 2 ? 0 : k; }

struct GM { pthread_mutex_t *m; int kind; bool robust, stat; int owner, cnt; bool notrec, incons; int dyingfib; int infl; u64 gen; int frozen; };
struct GC { pthread_cond_t *c; bool stat; int m; int insig, frozen, werr, werrs; };
struct GS { sem_t *s; int init; i64 posts_started, posts_done, takes, slack; int pinfl; u64 lastpost; int infl; u64 gen; };
struct GR { pthread_rwlock_t *r; bool stat; int writer; int nread; bool rd[MAXT]; int infl; u64 gen; };
struct GP { pthread_spinlock_t *s; bool stat; int owner; int infl; u64 gen; };
struct Wait { int t, c; u64 start, end; u64 def; int res; bool must; bool timed; }; // res -1 in progress
struct Sig { int c; u64 start, end; bool bc; };
struct TH { pthread_t id; int fib; bool started, ended, cancelled_reported; int incall, obj; bool must; i64 abs, f0, t0; u64 cstart; u64 creq; int wait; bool interrupted;
  bool cdis; int cancel_req /*calls begun*/, cancel_done /*calls returned*/; bool exiting; u64 opgen; };
struct World { const Prog *p; GM m[MAXM]; GC c[MAXC]; GS s[MAXS]; GR r[MAXR]; GP sp[MAXP]; int nm, nc, ns, nr, np, nt; TH t[MAXT + 1]; int go; u64 seq; Wait w[400]; int nw; Sig sg[400]; int nsg; bool contended, timedout, cancelled, died; i64 slack; };
static World *W;
static int go_pred(void *) { return W->go; }
static int thawed(void *a) { GC *c = (GC *)a; if (c) return !c->frozen; for (int i = 0; i < W->nc; i++) if (W->c[i].frozen) return 0; return 1; }
static int nobusy(void *) { for (int i = 0; i < W->nc; i++) if (W->c[i].frozen & 2) return 0; return 1; }

static int mthawed(void *) { for (int i = 0; i < W->nm; i++) if (W->m[i].frozen) return 0; return 1; }
// ---------------------------------------------------------------- helpers
static void begin(int t, int op, int obj, i64 abs) { TH &h = W->t[t]; h.incall = op + 1; h.obj = obj; h.abs = abs; h.f0 = sim_forced(); h.t0 = sim_now(); h.cstart = ++W->seq; h.must = h.cancel_done && !h.cdis && !h.exiting; }
static void end(int t) { TH &h = W->t[t]; int op = h.incall - 1; h.incall = 0; ++W->seq; if (h.must && (op == C_WAIT || op == C_TWAIT || op == S_WAIT || op == S_TIMED || op == X_DELAY || op == X_TESTC)) sim_fail("cancel-lost", "%s returned in T%d though a cancellation was pending and enabled when it was called", names[op], t); }
struct Q { int *infl; u64 *gen; u64 g0; bool q0; };
static Q qbegin(int &infl, u64 &gen) { Q q; q.q0 = infl == 0; infl++; q.g0 = ++gen; q.infl = &infl; q.gen = &gen; return q; }
static bool qend(Q &q) { --*q.infl; return q.q0 && *q.gen == q.g0; }
static int rank_ok(int t, int rank) { // every lock held has a lower rank
  for (int i = 0; i < W->nr; i++) if ((W->r[i].writer == t || W->r[i].rd[t]) && i >= rank) return 0;
  for (int i = 0; i < W->nm; i++) if (W->m[i].owner == t && 10 + i >= rank) return 0;
  for (int i = 0; i < W->np; i++) if (W->sp[i].owner == t && 20 + i >= rank) return 0;
  return 1;
}
static bool holds_any(int t) { return !rank_ok(t, 0); }
static bool holds_spin(int t) { for (int i = 0; i < W->np; i++) if (W->sp[i].owner == t) return true; return false; }
static bool fib_ended(int f) { return f < 0 || sim_fiber_done(f); }

// result of an acquiring call on mutex i by thread t
static void m_acquired(int t, int i, int r, const char *what, bool quiet, bool wasfree, int prev_owner, i64 abs, bool trylike) {
  GM &m = W->m[i];
  switch (r) {
  case 0:
    EXPECT(!m.notrec, "notrecoverable", "%s of a not-recoverable mutex returned 0", what);
    if (m.owner == t) { EXPECT(m.kind == RECUR, "exclusion", "%s by the owner of a non-recursive mutex returned 0", what); m.cnt++; return; }
    EXPECT(m.owner != -2, "ownerdead", "%s returned 0 though the previous owner died holding the robust mutex", what);
    EXPECT(m.owner == -1, "exclusion", "T%d got mutex %d by %s while T%d owns it", t, i, what, m.owner);
    m.owner = t; m.cnt = 1; break;
  case EOWNERDEAD:
    EXPECT(m.robust && m.owner == -2 && !m.notrec, "ownerdead", "%s returned EOWNERDEAD but no owner died (owner %d, robust %d, notrecoverable %d)", what, m.owner, m.robust, m.notrec);
    label("ownerdead"); nontriv(); m.owner = t; m.cnt = 1; m.incons = true; break;
  case ENOTRECOVERABLE:
    EXPECT(m.notrec, "notrecoverable", "%s returned ENOTRECOVERABLE on a usable mutex", what); label("notrecoverable"); break;
  case EBUSY:
    EXPECT(trylike, "result", "%s returned EBUSY", what);
    if (quiet) EXPECT(prev_owner != -1 && !m.notrec && !(prev_owner == -2 && fib_ended(m.dyingfib)) && !(prev_owner == t && m.kind == RECUR), "result", "%s returned EBUSY with nobody else using the mutex (owner %d)", what, prev_owner);
    else label("m-try-busy-race");
    if (prev_owner >= 0 && prev_owner != t) { label("m-try-busy"); W->contended = true; }
    break;
  case EDEADLK:
    EXPECT(m.owner == t && m.kind == ERRCHK && !trylike, "result", "%s returned EDEADLK (owner %d)", what, m.owner); label("edeadlk"); break;
  case ETIMEDOUT:
    EXPECT(abs >= 0, "result", "%s returned ETIMEDOUT", what);
    EXPECT((i64)sim_now() >= abs, "early-timeout", "%s returned ETIMEDOUT %lld ns before the deadline", what, (abs - (i64)sim_now()) * 100);
    if (quiet) EXPECT(!wasfree, "result", "%s timed out on a free mutex", what);
    W->timedout = true; label("m-timeout"); break;
  default: sim_fail("result", "%s returned %s", what, ename(r));
  }
}
static void do_lock(int t, int i, int op, i64 rel) {
  GM &m = W->m[i]; int prev = m.owner; bool wasfree = m.owner == -1 || (m.owner == -2 && fib_ended(m.dyingfib)) || m.notrec; int r = 0; i64 abs = -1; const char *what = "";
  if (m.owner == t && op == M_LOCK && m.kind == NORMAL && !m.notrec) return; // would deadlock by definition
  if (m.owner == t && op == M_TIMED && m.kind == NORMAL) { if (holds_spin(t)) return; label("timed-self-deadlock"); }
  if (m.owner == t && op == M_TRY) label("self-try");
  if (m.owner != t && op == M_LOCK && !rank_ok(t, 10 + i)) return;
  if (op != M_TRY && m.owner != t && holds_spin(t)) return;
  if (m.owner >= 0 && m.owner != t) { W->contended = true; label("m-contended"); }
  u64 tot = m.gen; (void)tot;
  if (op == M_TIMED) { abs = (i64)sim_now() + rel; if (abs < EPOCH) abs = EPOCH; }
  begin(t, op, i, abs); Q q = qbegin(m.infl, m.gen);
  struct timespec ts = ts_of(abs < 0 ? 0 : abs);
  if (op == M_LOCK) { what = "lock"; r = CALL(pthread_mutex_lock, pthread_mutex_lock(m.m)); }
  else if (op == M_TRY) { what = "trylock"; r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(m.m)); }
  else { what = "timedlock"; r = CALL(pthread_mutex_timedlock, pthread_mutex_timedlock(m.m, &ts)); }
  bool quiet = qend(q); end(t);
  m_acquired(t, i, r, what, quiet, wasfree, prev, abs, op == M_TRY);
}
static void m_release_ghost(int i) { GM &m = W->m[i]; if (--m.cnt == 0) { m.owner = -1; if (m.incons) { m.incons = false; m.notrec = true; label("left-inconsistent"); } } }
static void do_unlock(int t, int i) {
  GM &m = W->m[i]; if (m.owner != t) return;
  begin(t, M_UNLOCK, i, -1); Q q = qbegin(m.infl, m.gen); m_release_ghost(i);
  int r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m.m)); qend(q); end(t);
  EXPECT(r == 0, "result", "unlock by the owner of mutex %d returned %s", i, ename(r));
}
static void mark_definite(int mi, int acq) { // somebody else owns the mutex: everyone inside a wait on it is waiting
  for (int k = 0; k < W->nw; k++) if (W->w[k].res == -1 && W->w[k].t != acq && W->c[W->w[k].c].m == mi && !W->w[k].def) W->w[k].def = ++W->seq;
}
static int matchsig(int s, int *owner, bool *seen, int c, const int *R) {
  Sig &g = W->sg[R[s]];
  for (int k = 0; k < W->nw; k++) { Wait &w = W->w[k]; if (w.c != c || w.res == -1 || w.res == ECANCELED || seen[k]) continue; if (!(w.start < g.end && w.end > g.start)) continue;
    seen[k] = true; if (owner[k] < 0 || matchsig(owner[k], owner, seen, c, R)) { owner[k] = s; return 1; } }
  return 0;
}
// every thread is blocked: is each of them allowed to be?
static void check_idle(void) {
  World &w = *W; i64 now = sim_now();
  for (int t = 0; t < w.nt; t++) { TH &h = w.t[t]; if (!h.incall || h.ended) continue;
    int op = h.incall - 1, o = h.obj; bool late = h.abs >= 0 && h.abs + w.slack + (i64)sim_forced() - h.f0 < now;
    switch (op) {
    case M_LOCK: case M_TIMED: case M_RELOCK: { GM &m = w.m[o];
      EXPECT(!(m.owner == -1 || m.owner == -2 || m.notrec), "stranded", "T%d is blocked in mutex %s on mutex %d, which %s", t, names[op], o, m.notrec ? "is not recoverable" : m.owner == -2 ? "was left by a dead owner" : "is free");
      EXPECT(!late, "unbounded", "T%d is still blocked in mutex_timedlock %lld ms after its deadline", t, (now - h.abs) / MS); break; }
    case S_WAIT: case S_TIMED: { GS &s = w.s[o]; i64 av = s.init + s.posts_done - s.takes;
      av -= s.slack; EXPECT(av <= 0, "stranded", "T%d is blocked in %s though %lld units are available", t, names[op], av);
      EXPECT(!late, "unbounded", "T%d is still blocked in sem_timedwait %lld ms after its deadline", t, (now - h.abs) / MS); break; }
    case R_RD: case R_TIMRD: { GR &r = w.r[o]; bool wr = false; for (int u = 0; u < w.nt; u++) if (w.t[u].incall && w.t[u].obj == o && (w.t[u].incall - 1 == R_WR || w.t[u].incall - 1 == R_TIMWR)) wr = true;
      EXPECT(!(r.writer < 0 && (!wr || !r.nread)), "stranded", "T%d is blocked in %s on rwlock %d which has no writer (%d readers)", t, names[op], o, r.nread);
      EXPECT(!late, "unbounded", "T%d is still blocked in %s %lld ms after its deadline", t, names[op], (now - h.abs) / MS); break; }
    case R_WR: case R_TIMWR: { GR &r = w.r[o];
      EXPECT(!(r.writer < 0 && !r.nread), "stranded", "T%d is blocked in %s on rwlock %d which nobody holds", t, names[op], o);
      EXPECT(!late, "unbounded", "T%d is still blocked in %s %lld ms after its deadline", t, names[op], (now - h.abs) / MS); break; }
    case P_LOCK: { GP &s = w.sp[o]; EXPECT(s.owner >= 0, "stranded", "T%d is blocked in spin_lock on a free lock", t); break; }
    case C_WAIT: case C_TWAIT: { int mi = w.c[o].m; GM &m = w.m[mi]; if (m.owner >= 0) break; // may be taking the mutex back
      EXPECT(!late, "unbounded", "T%d is still blocked in cond_timedwait %lld ms after its deadline", t, (now - h.abs) / MS);
      EXPECT(!w.w[h.wait].must, "lost-wakeup", "T%d is still waiting on condition %d after a broadcast sent while it was waiting", t, o);
      if (!w.w[h.wait].def) w.w[h.wait].def = ++w.seq; break; }
    case X_DELAY: EXPECT(!late, "unbounded", "T%d is still in its delay %lld ms late", t, (now - h.abs) / MS); break;
    case M_UNLOCK: case M_TRY: case C_SIG: case C_BCAST: case S_TRY: case S_POST: case S_POSTN: case S_GET: case R_TRD: case R_TWR: case R_UN: case P_TRY: case P_UN: case M_CONSIST: case M_BADUN: case M_FUN: case M_DBUSY: case M_LASTUSE: case M_DEEP: case C_DBUSY: case C_BDEST: case C_WERR: case R_DBUSY: case P_DBUSY: case X_CANCEL: case X_SETC: case X_TESTC: case X_TCHG: case X_YIELD:
      if (sim_fiber_timed(h.fib) && now - h.t0 < 1000 * MS) break; // an internal delay
      sim_fail("stranded", "T%d is blocked in %s", t, names[op]);
    }
    // a pending cancellation must wake a cancellation point
    if (h.cancel_done && !h.cdis && !h.exiting && (op == S_WAIT || op == S_TIMED || op == X_DELAY || ((op == C_WAIT || op == C_TWAIT) && w.m[w.c[o].m].owner < 0))) sim_fail("cancel-lost", "T%d is blocked in %s with a cancellation pending", t, names[op]);
  }
  for (int c = 0; c < w.nc; c++) { if (w.m[w.c[c].m].owner >= 0) continue;
    int R[400], n = 0, owner[400]; bool seen[400];
    for (int k = 0; k < w.nsg; k++) { Sig &g = w.sg[k]; if (g.c != c || g.bc || !g.end) continue; bool need = false; for (int q = 0; q < w.nw; q++) if (w.w[q].c == c && w.w[q].res == -1 && w.w[q].def && w.w[q].def < g.start) need = true; if (need) R[n++] = k; }
    if (!n) continue;
    for (int k = 0; k < w.nw; k++) owner[k] = -1;
    for (int k = 0; k < n; k++) { memset(seen, 0, sizeof seen); if (!matchsig(k, owner, seen, c, R)) sim_fail("lost-wakeup", "a signal on condition %d sent while a thread was waiting released nobody (%d signals, a waiter is still blocked)", c, n); }
  }
}
static void cond_return(int t, int c, int r, i64 abs, int wk) {
  GC &g = W->c[c]; GM &m = W->m[g.m];
  W->w[wk].res = r; W->w[wk].end = ++W->seq;
  if (r == ENOTRECOVERABLE) { EXPECT(m.notrec, "notrecoverable", "condition wait returned ENOTRECOVERABLE and the mutex is usable"); label("c-notrecoverable"); return; }
  if (r == EOWNERDEAD) { EXPECT(m.robust && m.owner == -2 && !m.notrec, "ownerdead", "condition wait returned EOWNERDEAD but no owner died (owner %d)", m.owner); m.owner = t; m.cnt = 1; m.incons = true; label("c-ownerdead"); nontriv(); return; }
  EXPECT(r == 0 || (r == ETIMEDOUT && abs >= 0), "result", "condition wait returned %s", ename(r));
  EXPECT(!m.notrec, "notrecoverable", "condition wait returned %s with a mutex that is not recoverable", ename(r));
  EXPECT(m.owner == -1, "exclusion", "T%d returned from a condition wait while T%d owns the mutex", t, m.owner);
  m.owner = t; m.cnt = 1;
  if (r == ETIMEDOUT) { EXPECT((i64)sim_now() >= abs, "early-timeout", "condition wait returned ETIMEDOUT %lld ns before the deadline", (abs - (i64)sim_now()) * 100); W->timedout = true; label("c-timeout"); if (abs <= (i64)0) label("c-past"); }
  else { label("c-woken"); nontriv(); }
}
static void do_condwait(int t, int c, int op, i64 rel) {
  GC &g = W->c[c]; GM &m = W->m[g.m];
  if (m.owner == -1 && op != M_LOCK) { if (!rank_ok(t, 10 + g.m) || holds_any(t)) return; do_lock(t, g.m, M_LOCK, 0); } // take it first
  if (m.owner != t || m.cnt != 1) return;
  for (int i = 0; i < W->nm; i++) if (i != g.m && W->m[i].owner == t) return;
  for (int i = 0; i < W->nr; i++) if (W->r[i].writer == t || W->r[i].rd[t]) return;
  if (holds_spin(t)) return;
  if (W->nw >= 400) return;
  i64 abs = -1; if (op == C_TWAIT) { abs = (i64)sim_now() + rel; if (abs < EPOCH) abs = EPOCH; }
  struct timespec ts = ts_of(abs < 0 ? 0 : abs);
  int wk = W->nw++; Wait &w = W->w[wk]; memset(&w, 0, sizeof w); w.t = t; w.c = c; w.start = ++W->seq; w.res = -1; w.timed = op == C_TWAIT; W->t[t].wait = wk;
  begin(t, op, c, abs); m.infl++; m.gen++; m_release_ghost(g.m);
  int r = op == C_WAIT ? CALL(pthread_cond_wait, pthread_cond_wait(g.c, m.m)) : CALL(pthread_cond_timedwait, pthread_cond_timedwait(g.c, m.m, &ts));
  m.infl--; m.gen++; end(t);
  cond_return(t, c, r, abs, wk); if (m.owner == t) mark_definite(g.m, t);
}
static void do_signal(int t, int c, bool bc, bool tchg, bool own = false) {
  if (W->nsg + W->nc >= 400) return;
  int lo = tchg ? 0 : c, hi = tchg ? W->nc : c + 1; int first = W->nsg; int musts[64], nmust = 0;
  for (int k = lo; k < hi; k++) { Sig &g = W->sg[W->nsg++]; g.c = k; g.start = ++W->seq; g.end = 0; g.bc = bc; }
  int wt = 0; if (t >= 0 && !own) sim_wait_until(tchg ? nobusy : thawed, tchg ? 0 : &W->c[c]);
  for (int k = lo; k < hi; k++) W->c[k].insig++;
  for (int k = 0; k < W->nw; k++) if (W->w[k].res == -1 && W->w[k].c >= lo && W->w[k].c < hi && W->w[k].def) { wt++; if (bc && nmust < 64) musts[nmust++] = k; }
  if (wt) { label(tchg ? "timechange-with-waiters" : bc ? "broadcast-with-waiters" : "signal-with-waiters"); nontriv(); }
  int last = W->nsg;
  if (t >= 0) begin(t, tchg ? X_TCHG : bc ? C_BCAST : C_SIG, c, -1);
  int r = tchg ? CALL(pthread_timechange_handler_np, (int)(size_t)pthread_timechange_handler_np(0)) : bc ? CALL(pthread_cond_broadcast, pthread_cond_broadcast(W->c[c].c)) : CALL(pthread_cond_signal, pthread_cond_signal(W->c[c].c));
  if (t >= 0) end(t);
  for (int k = lo; k < hi; k++) W->c[k].insig--;
  EXPECT(r == 0, "result", "%s returned %s", tchg ? "timechange handler" : bc ? "broadcast" : "signal", ename(r));
  for (int k = first; k < last; k++) W->sg[k].end = ++W->seq;
  for (int k = 0; k < nmust; k++) W->w[musts[k]].must = true;
}
static void do_sem(int t, int i, int op, i64 b, i64 d) {
  GS &s = W->s[i]; i64 abs = -1; int r = 0; i64 av0 = s.init + s.posts_done - s.takes, takes0 = s.takes;
  if (op == S_WAIT && holds_any(t)) return;
  if (holds_spin(t) && op != S_POST && op != S_TRY) return;
  if (op == S_TIMED) { abs = (i64)sim_now() + b; if (abs < EPOCH) abs = EPOCH; }
  struct timespec ts = ts_of(abs < 0 ? 0 : abs);
  begin(t, op, i, abs); Q q = qbegin(s.infl, s.gen);
  int n = 1;
  switch (op) {
  case S_WAIT: r = CALL(sem_wait, sem_wait(s.s)); break;
  case S_TRY: r = CALL(sem_trywait, sem_trywait(s.s)); break;
  case S_TIMED: r = CALL(sem_timedwait, sem_timedwait(s.s, &ts)); break;
  case S_POST: s.posts_started++; s.pinfl++; r = CALL(sem_post, sem_post(s.s)); s.pinfl--; s.lastpost = ++W->seq; if (!r) s.posts_done++; else s.posts_started--; break;
  case S_POSTN: n = 1 + (int)((b < 0 ? -b : b) % 4); s.posts_started += n; s.pinfl++; r = CALL(sem_post_multiple, sem_post_multiple(s.s, n)); s.pinfl--; s.lastpost = ++W->seq; if (!r) s.posts_done += n; else s.posts_started -= n; break;
  case S_GET: { int v = -99; r = CALL(sem_getvalue, sem_getvalue(s.s, &v)); if (!r) { i64 hi = s.init + s.posts_started - s.takes; EXPECT(v <= hi, "conservation", "sem_getvalue says %d with at most %lld units", v, hi); } 
    bool quiet = qend(q); end(t); EXPECT(r == 0, "result", "sem_getvalue returned %d errno %s", r, ename(ERRNO)); if (quiet && r == 0) EXPECT(v >= 0 && v <= av0 && v >= av0 - s.slack || v < 0 && av0 - s.slack <= 0, "conservation", "sem_getvalue says %d, %lld units are there", v, av0); return; }
  }
  bool quiet = qend(q); end(t); int e = ERRNO;
  if (r == 0) {
    if (op <= S_TIMED) { s.takes++; EXPECT(s.takes <= s.init + s.posts_started, "conservation", "%lld successful waits on a semaphore with initial value %d and %lld posts", s.takes, s.init, s.posts_started); if (quiet) EXPECT(av0 > 0, "conservation", "%s succeeded with no unit available", names[op]); }
    if (op <= S_TIMED && av0 <= 0) { label("s-handed"); nontriv(); }
    return;
  }
  EXPECT(r == -1, "result", "%s returned %d", names[op], r);
  switch (op) {
  case S_TRY: EXPECT(e == EAGAIN, "result", "sem_trywait failed with %s", ename(e)); if (quiet) EXPECT(av0 - s.slack <= 0, "result", "sem_trywait failed though %lld units are available", av0); label("s-again"); break;
  case S_TIMED: EXPECT(e == ETIMEDOUT, "result", "sem_timedwait failed with %s", ename(e)); EXPECT((i64)sim_now() >= abs, "early-timeout", "sem_timedwait timed out %lld ns before the deadline", (abs - (i64)sim_now()) * 100); if (quiet) EXPECT(av0 - s.slack <= 0, "result", "sem_timedwait timed out though %lld units are available", av0); W->timedout = true; label("s-timeout"); break;
  case S_POST: case S_POSTN: { i64 hi = s.init + s.posts_started + n - takes0; EXPECT(e == ERANGE && hi > SEM_VALUE_MAX, "result", "%s failed with %s", names[op], ename(e)); label("s-range"); break; }
  default: sim_fail("result", "%s failed with %s", names[op], ename(e));
  }
}
static void do_rw(int t, int i, int op, i64 b) {
  GR &g = W->r[i]; i64 abs = -1; int r = 0; bool rd = op == R_RD || op == R_TRD || op == R_TIMRD; bool self = g.writer == t || g.rd[t];
  bool heldother = (g.writer >= 0 && g.writer != t) || g.nread - (g.rd[t] ? 1 : 0) > 0; int w0 = g.writer, n0 = g.nread;
  if (op == R_UN) { if (!self) return; begin(t, op, i, -1); Q q = qbegin(g.infl, g.gen); if (g.writer == t) g.writer = -1; else { g.rd[t] = false; g.nread--; } r = CALL(pthread_rwlock_unlock, pthread_rwlock_unlock(g.r)); qend(q); end(t); EXPECT(r == 0, "result", "rwlock unlock returned %s", ename(r)); return; }
  if (holds_spin(t)) return;
  if (self && (op != R_TWR && op != R_TRD)) return;
  if (self && op == R_TRD && g.rd[t]) return; // one read hold per thread
  if (op != R_TRD && op != R_TWR && !rank_ok(t, i)) return;
  if (heldother) { W->contended = true; label("r-contended"); }
  if (op == R_TIMRD || op == R_TIMWR) { abs = (i64)sim_now() + b; if (abs < EPOCH) abs = EPOCH; }
  struct timespec ts = ts_of(abs < 0 ? 0 : abs);
  begin(t, op, i, abs); Q q = qbegin(g.infl, g.gen);
  switch (op) {
  case R_RD: r = CALL(pthread_rwlock_rdlock, pthread_rwlock_rdlock(g.r)); break;
  case R_TRD: r = CALL(pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(g.r)); break;
  case R_TIMRD: r = CALL(pthread_rwlock_timedrdlock, pthread_rwlock_timedrdlock(g.r, &ts)); break;
  case R_WR: r = CALL(pthread_rwlock_wrlock, pthread_rwlock_wrlock(g.r)); break;
  case R_TWR: r = CALL(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(g.r)); break;
  case R_TIMWR: r = CALL(pthread_rwlock_timedwrlock, pthread_rwlock_timedwrlock(g.r, &ts)); break;
  }
  bool quiet = qend(q); end(t);
  switch (r) {
  case 0:
    if (rd) { EXPECT(g.writer < 0, "exclusion", "T%d got a read lock while T%d has the write lock", t, g.writer); g.rd[t] = true; g.nread++; if (g.nread > 1) { label("r-shared"); nontriv(); } }
    else { EXPECT(g.writer < 0 && !g.nread, "exclusion", "T%d got the write lock while it is held (writer %d, %d readers)", t, g.writer, g.nread); g.writer = t; }
    break;
  case EBUSY:
    EXPECT(op == R_TRD || op == R_TWR, "result", "%s returned EBUSY", names[op]);
    if (quiet) EXPECT(rd ? w0 >= 0 : (w0 >= 0 || n0 > 0), "result", "%s returned EBUSY on an available lock (writer %d, %d readers)", names[op], w0, n0);
    label("r-busy"); break;
  case ETIMEDOUT:
    EXPECT(abs >= 0, "result", "%s returned ETIMEDOUT", names[op]);
    EXPECT((i64)sim_now() >= abs, "early-timeout", "%s timed out %lld ns before the deadline", names[op], (abs - (i64)sim_now()) * 100);
    if (quiet) EXPECT(rd ? w0 >= 0 : (w0 >= 0 || n0 > 0), "result", "%s timed out on an available lock (writer %d, %d readers)", names[op], w0, n0);
    W->timedout = true; label("r-timeout"); break;
  default: sim_fail("result", "%s returned %s", names[op], ename(r));
  }
}
static void do_spin(int t, int i, int op) {
  GP &g = W->sp[i]; int r, o0 = g.owner;
  if (op == P_UN) { if (g.owner != t) return; begin(t, op, i, -1); Q q = qbegin(g.infl, g.gen); g.owner = -1; r = CALL(pthread_spin_unlock, pthread_spin_unlock(g.s)); qend(q); end(t); EXPECT(r == 0, "result", "spin_unlock by the holder returned %s", ename(r)); return; }
  if (op == P_BADUN) { if (g.owner != -1 || g.infl) return; begin(t, op, i, -1); Q q = qbegin(g.infl, g.gen); sim_atomic(1); r = CALL(pthread_spin_unlock, pthread_spin_unlock(g.s)); sim_atomic(0); bool quiet = qend(q); end(t); if (quiet) EXPECT(r == EPERM || r == 0, "result", "spin_unlock of a free lock returned %s", ename(r)); return; }
  if (op == P_DBUSY) { if (g.owner != t) return; begin(t, op, i, -1); Q q = qbegin(g.infl, g.gen); r = CALL(pthread_spin_destroy, pthread_spin_destroy(g.s)); qend(q); end(t); EXPECT(r == EBUSY || r == EINVAL, "result", "spin_destroy of a held lock returned %s", ename(r)); label("destroy-held"); return; }
  if (g.owner == t && op == P_LOCK) return;
  if (op == P_LOCK && !rank_ok(t, 20 + i)) return;
  if (g.owner >= 0 && g.owner != t) { W->contended = true; label("p-contended"); }
  begin(t, op, i, -1); Q q = qbegin(g.infl, g.gen);
  r = op == P_LOCK ? CALL(pthread_spin_lock, pthread_spin_lock(g.s)) : CALL(pthread_spin_trylock, pthread_spin_trylock(g.s));
  bool quiet = qend(q); end(t);
  if (r == 0) { EXPECT(g.owner == -1, "exclusion", "T%d got a spin lock that T%d holds", t, g.owner); g.owner = t; return; }
  EXPECT(r == EBUSY && op == P_TRY, "result", "%s returned %s", names[op], ename(r));
  if (quiet) EXPECT(o0 != -1, "result", "spin_trylock returned EBUSY on a free lock"); label("p-busy");
}
static void release_spins(int t) { for (int i = 0; i < W->np; i++) if (W->sp[i].owner == t) do_spin(t, i, P_UN); }
static void release_all(int t, bool dying) {
  release_spins(t);
  bool leave = dying && (W->p->cfg[17] >> t & 1);
  for (int i = W->nm - 1; i >= 0; i--) { GM &m = W->m[i]; if (m.owner != t) continue;
    if (m.robust && leave) continue;
    while (m.owner == t) do_unlock(t, i); }
  for (int i = W->nr - 1; i >= 0; i--) if (W->r[i].writer == t || W->r[i].rd[t]) do_rw(t, i, R_UN, 0);
  if (leave) for (int i = 0; i < W->nm; i++) { GM &m = W->m[i]; if (m.owner == t) { m.owner = -2; m.cnt = 0; m.incons = false; m.dyingfib = sim_cur(); m.gen++; W->died = true; label("died-holding"); } }
}
static bool cp_op(int op) { return op == C_WAIT || op == C_TWAIT || op == S_WAIT || op == S_TIMED || op == X_TESTC || op == X_DELAY || (op >= R_RD && op <= R_TIMWR && op != R_TRD && op != R_TWR); }
static void thread_cleanup(void *a) {
  int t = (int)(size_t)a; TH &h = W->t[t]; 
  if (h.exiting) { release_all(t, true); return; }
  // cancelled
  int op = h.incall - 1; FN("cleanup");
  EXPECT(h.cancel_req, "cancel", "T%d was cancelled but nobody asked", t);
  EXPECT(!h.cdis, "cancel", "T%d was cancelled with cancellation disabled", t);
  EXPECT(h.incall && cp_op(op), "cancel", "T%d was cancelled in %s, which is not a cancellation point", t, h.incall ? names[op] : "its own code");
  h.exiting = true; W->cancelled = true; label("cancelled"); nontriv();
  if (op == C_WAIT || op == C_TWAIT) { GC &g = W->c[h.obj]; GM &m = W->m[g.m]; m.infl--; m.gen++;
    W->w[h.wait].res = ECANCELED; W->w[h.wait].end = ++W->seq; label("cancelled-in-cond");
    if (!m.notrec) { if (m.owner == -2) m.incons = true; else EXPECT(m.owner == -1, "exclusion", "T%d runs its cleanup for a cancelled condition wait while T%d owns the mutex", t, m.owner); m.owner = t; m.cnt = 1; mark_definite(g.m, t); } }
  else if (op == S_WAIT || op == S_TIMED) { GS &s = W->s[h.obj]; s.infl--; s.gen++; label("cancelled-in-sem"); if (s.pinfl || s.lastpost > h.creq) label("cancel-with-post"); }
  else if (op >= R_RD && op <= R_TIMWR) { W->r[h.obj].infl--; W->r[h.obj].gen++; label("cancelled-in-rwlock"); }
  h.incall = 0;
  release_all(t, true);
}
static void minit(int);
static i64 p_tick_span(int n) { return W->p->tick * 16LL * n; } // calls made without letting others run still take virtual time
static bool mutex_op(int c) { return c <= C_TWAIT || c == M_RELOCK || c == C_WERR || c == M_DEEP || c == M_LASTUSE || c == C_DBUSY || c == C_BDEST; }
static void step_op(int t, const Op &o) {
  if (mutex_op(o.c)) sim_wait_until(mthawed, 0);
  World &w = *W; TH &h = w.t[t]; int c = o.c; const int mi = w.nm ? ((unsigned)o.a) % w.nm : -1, ci = w.nc ? ((unsigned)o.a) % w.nc : -1, si = w.ns ? ((unsigned)o.a) % w.ns : -1, ri = w.nr ? ((unsigned)o.a) % w.nr : -1, pi = w.np ? ((unsigned)o.a) % w.np : -1; int r;
  switch (c) {
  case M_LOCK: case M_TRY: case M_TIMED: case M_RELOCK: if (mi >= 0) { if (c == M_RELOCK) { if (w.m[mi].owner != t) return; c = o.b & 1 ? M_TIMED : M_LOCK; } do_lock(t, mi, c, o.b); if (w.m[mi].owner == t) mark_definite(mi, t); } break;
  case M_UNLOCK: if (mi >= 0) do_unlock(t, mi); break;
  case M_DEEP: if (mi >= 0) { GM &m = w.m[mi]; if (m.kind != RECUR || (m.owner != t && m.owner != -1) || m.notrec || !rank_ok(t, 10 + mi)) return; static const int dn[] = {255, 256, 300, 32768, 65536, 70000}; int n = dn[((unsigned)o.b) % 6];
      do_lock(t, mi, M_LOCK, 0); if (m.owner != t) return; mark_definite(mi, t); label("deep"); nontriv();
      begin(t, c, mi, -1); m.infl++; m.gen++; int at = sim_atomic(1); w.slack += p_tick_span(n); for (int k = 0; k < n; k++) { r = k & 1 ? pthread_mutex_trylock(m.m) : pthread_mutex_lock(m.m); EXPECT(r == 0, "result", "lock number %d of a recursive mutex by its owner returned %s", k + 2, ename(r)); } sim_atomic(at); sim_point(); sim_atomic(1);
      for (int k = 0; k < n; k++) { r = pthread_mutex_unlock(m.m); EXPECT(r == 0, "result", "unlock by the owner returned %s with %d more to go", ename(r), n - k); } sim_atomic(at); m.infl--; m.gen++; end(t); do_unlock(t, mi); } break;
  case M_LASTUSE: if (mi >= 0) { GM &m = w.m[mi]; if (m.stat) return; if (m.owner == -1) { if (!rank_ok(t, 10 + mi) || m.kind < 0) return; do_lock(t, mi, M_TRY, 0); } if (m.owner != t || m.cnt != 1 || m.incons || holds_spin(t) || m.frozen) return; mark_definite(mi, t);
      // the others are only just leaving their unlock, so nobody uses the mutex after this: it may be destroyed once unlocked
      for (int u = 0; u < w.nt; u++) { TH &x = w.t[u]; if (u == t || !x.incall) continue; int xo = x.incall - 1; if (xo == C_WAIT || xo == C_TWAIT || xo == C_WERR) { if (w.c[x.obj].m == mi) return; } else if (xo != M_UNLOCK && xo != M_FUN && x.obj == mi && (xo <= M_DBUSY || xo == M_RELOCK || xo == M_DEEP || xo == M_LASTUSE)) return; }
      for (int q = 0; q < w.nc; q++) if (w.c[q].m == mi && w.c[q].frozen) return;
      int others = m.infl; m.frozen = 1; do_unlock(t, mi); begin(t, c, mi, -1); m.infl++; m.gen++; r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(m.m)); end(t);
      EXPECT(r == 0, "result", "destroying a mutex right after its last use returned %s", ename(r)); label(others ? "lastuse-destroy-busy" : "lastuse-destroy"); if (others) nontriv();
      sim_ufree(m.m); m.m = (pthread_mutex_t *)sim_umalloc(sizeof *m.m); minit(mi); m.infl--; m.gen++; m.notrec = m.incons = false; m.frozen = 0; } break;
  case M_CONSIST: if (mi >= 0) { GM &m = w.m[mi]; bool mine = m.owner == t, inc = m.incons; if (!mine && (m.owner != -1 || m.infl)) return; begin(t, c, mi, -1); Q q = qbegin(m.infl, m.gen);
      if (!mine) sim_atomic(1); r = CALL(pthread_mutex_consistent, pthread_mutex_consistent(m.m)); if (!mine) sim_atomic(0); bool quiet = qend(q); end(t);
      if (mine && inc) { EXPECT(r == 0, "result", "mutex_consistent by the owner of an inconsistent mutex returned %s", ename(r)); m.incons = false; label("made-consistent"); }
      else if (mine || quiet) EXPECT(r == EINVAL || r == EPERM || r == ENOTRECOVERABLE, "result", "mutex_consistent on a mutex that is not inconsistent returned %s", ename(r)); } break;
  case M_BADUN: if (mi >= 0) { GM &m = w.m[mi]; if (m.owner == t) return; if (m.kind == NORMAL && !m.robust && m.owner != -1) return;
      int o0 = m.owner; bool at = m.kind == NORMAL && !m.robust; if (at && m.infl) return;
      begin(t, c, mi, -1); Q q = qbegin(m.infl, m.gen); if (at) sim_atomic(1); r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m.m)); if (at) sim_atomic(0); bool quiet = qend(q); end(t);
      EXPECT(quiet || !at, "harness", "unlock of a free mutex blocked");
      EXPECT(r == EPERM || (m.stat && o0 == -1 && (r == 0 || r == EINVAL)) || (m.notrec && r != 0), "result", "unlock by T%d of a mutex owned by %d returned %s", t, o0, ename(r)); label("bad-unlock"); nontriv(); } break;
  case M_FUN: if (mi >= 0) { GM &m = w.m[mi]; if (m.kind != NORMAL || m.robust || m.owner < 0 || m.owner == t || w.t[m.owner].incall) return; for (int q = 0; q < w.nc; q++) if (w.c[q].frozen && w.c[q].m == mi) return;
      begin(t, c, mi, -1); Q q = qbegin(m.infl, m.gen); m.owner = -1; m.cnt = 0; r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m.m)); qend(q); end(t); EXPECT(r == 0, "result", "unlock of a normal mutex by another thread returned %s", ename(r)); label("foreign-unlock"); nontriv(); } break;
  case M_DBUSY: if (mi >= 0) { GM &m = w.m[mi]; if (m.owner != t) return; begin(t, c, mi, -1); Q q = qbegin(m.infl, m.gen); r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(m.m)); qend(q); end(t); EXPECT(r == EBUSY, "result", "destroying a mutex held by the caller returned %s", ename(r)); label("destroy-held"); } break;
  case C_WAIT: case C_TWAIT: if (ci >= 0) do_condwait(t, ci, c, o.b); break;
  case C_SIG: if (ci >= 0 && !holds_spin(t)) do_signal(t, ci, false, false); break;
  case C_BCAST: if (ci >= 0 && !holds_spin(t)) do_signal(t, ci, true, false); break;
  case X_TCHG: if (w.nc && !holds_spin(t)) do_signal(t, 0, true, true); break;
  case C_DBUSY: if (ci >= 0) { GC &g = w.c[ci]; if (w.m[g.m].owner != t || g.werr || g.frozen) return;
      // more waiters that gave no other reason to wake (no deadline, no cancellation) than signals that could have released one
      int nd = 0, ns = 0; u64 first = ~0ull; bool rel = g.werrs && w.nsg; for (int k = 0; k < w.nw; k++) { Wait &x = w.w[k]; if (x.c != ci) continue; if (x.timed || w.t[x.t].cancel_req) { rel |= w.nsg > 0; continue; } /* a wait that gave up may have left a wakeup over */ if (x.res != -1 || !x.def) continue; nd++; if (x.start < first) first = x.start; }
      for (int q = 0; q < w.nsg; q++) if (w.sg[q].c == ci && (!w.sg[q].end || w.sg[q].end > first)) { ns++; rel |= w.sg[q].bc; }
      if (rel || nd <= ns) return;
      if (g.insig) label("destroy-busy-in-signal");
      g.frozen |= 2; begin(t, c, ci, -1); r = CALL(pthread_cond_destroy, pthread_cond_destroy(g.c)); end(t); g.frozen = 0;
      EXPECT(r == EBUSY, "result", "destroying a condition variable with a waiter returned %s", ename(r)); label("destroy-held"); } break;
  case C_WERR: if (ci >= 0) { GM &m = w.m[w.c[ci].m]; int k = w.c[ci].m; if (m.owner == t || (m.kind == NORMAL && !m.robust) || m.stat || m.frozen || w.c[ci].stat || holds_any(t) || w.c[ci].frozen) return;
      // waiting with a mutex one does not own is refused before anything changes
      w.c[ci].werr++; w.c[ci].werrs++; bool cd = h.cdis; h.cdis = true; begin(t, c, ci, -1); m.infl++; m.gen++; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0); struct timespec ts = ts_of(sim_now() + 20 * MS); r = o.b & 1 ? CALL(pthread_cond_timedwait, pthread_cond_timedwait(w.c[ci].c, m.m, &ts)) : CALL(pthread_cond_wait, pthread_cond_wait(w.c[ci].c, m.m)); m.infl--; m.gen++; w.c[ci].werr--; end(t); h.cdis = cd; if (!cd) pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, 0);
      EXPECT(r == EPERM || r == EINVAL || (m.notrec && r == ENOTRECOVERABLE), "result", "T%d waited on a condition with a mutex owned by %d: %s", t, m.owner, ename(r)); label("wait-not-owner"); (void)k; nontriv(); } break;
  case C_BDEST: if (ci >= 0) { GC &g = w.c[ci]; if (w.m[g.m].owner != t || g.insig || g.werr || g.frozen || holds_spin(t)) return;
      // release everybody and destroy at once, which POSIX allows; then start again with a new object
      int nw = 0; for (int k = 0; k < w.nw; k++) if (w.w[k].c == ci && w.w[k].res == -1) { nw++; if (!w.w[k].def) w.w[k].def = ++w.seq; }
      g.frozen = 1; do_signal(t, ci, true, false, true);
      begin(t, c, ci, -1); r = CALL(pthread_cond_destroy, pthread_cond_destroy(g.c)); end(t);
      EXPECT(r == 0, "result", "destroying a condition variable right after a broadcast to its %d waiters returned %s", nw, ename(r)); if (nw) { label("broadcast-destroy"); nontriv(); }
      r = pthread_cond_init(g.c, 0); EXPECT(r == 0, "result", "cond_init returned %s", ename(r)); g.frozen = 0; } break;
  case S_WAIT: case S_TRY: case S_TIMED: case S_POST: case S_POSTN: case S_GET: if (si >= 0) do_sem(t, si, c, o.b, o.d); break;
  case R_RD: case R_TRD: case R_TIMRD: case R_WR: case R_TWR: case R_TIMWR: case R_UN: if (ri >= 0) do_rw(t, ri, c, o.b); break;
  case R_DBUSY: if (ri >= 0) { GR &g = w.r[ri]; if (!(g.writer == t || g.rd[t])) return; begin(t, c, ri, -1); Q q = qbegin(g.infl, g.gen); r = CALL(pthread_rwlock_destroy, pthread_rwlock_destroy(g.r)); qend(q); end(t); EXPECT(r == EBUSY, "result", "destroying a held rwlock returned %s", ename(r)); label("destroy-held"); } break;
  case P_LOCK: case P_TRY: case P_UN: case P_BADUN: case P_DBUSY: if (pi >= 0) do_spin(t, pi, c); break;
  case X_CANCEL: { int v = ((unsigned)o.a) % w.nt; TH &x = w.t[v]; if (!x.started || v == t) return; sim_wait_until(nobusy, 0); begin(t, c, v, -1); x.cancel_req++; if (!x.creq) x.creq = ++W->seq; r = CALL(pthread_cancel, pthread_cancel(x.id)); end(t); if (r == 0) { x.cancel_done++; label("cancel-sent"); } else EXPECT(r == ESRCH && (x.exiting || x.cancel_req > 1), "result", "pthread_cancel of a live thread returned %s", ename(r)); } break;
  case X_SETC: { int old = -1, want = h.cdis; bool dis = o.b & 1; begin(t, c, 0, -1); if (dis) h.cdis = true; r = CALL(pthread_setcancelstate, pthread_setcancelstate(dis ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE, &old)); end(t); EXPECT(r == 0 && old == (want ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE), "result", "setcancelstate returned %s, old %d", ename(r), old); h.cdis = dis; } break;
  case X_TESTC: { bool must = h.cancel_done && !h.cdis; begin(t, c, 0, -1); FN("pthread_testcancel"); pthread_testcancel(); FN("-"); end(t); EXPECT(!must, "cancel-lost", "pthread_testcancel returned in T%d with a cancellation pending and enabled", t); } break;
  case X_DELAY: { if (holds_spin(t)) return; i64 ns = (i64)(o.b < 0 ? 0 : o.b) * 100; struct timespec ts; ts.tv_sec = ns / 1000000000; ts.tv_nsec = ns % 1000000000; i64 a = sim_now() + ns / 100; begin(t, c, 0, a); r = CALL(pthread_delay_np, pthread_delay_np(&ts)); end(t); EXPECT(r == 0, "result", "delay returned %s", ename(r)); EXPECT((i64)sim_now() >= a, "early-timeout", "pthread_delay_np returned %lld ns early", (a - (i64)sim_now()) * 100); } break;
  case X_EXIT: release_spins(t); h.exiting = true; FN("pthread_exit"); pthread_exit((void *)(size_t)(1000 + t)); break;
  case X_YIELD: if (!holds_spin(t)) { begin(t, c, 0, -1); CALL(sched_yield, sched_yield()); end(t); } break;
  }
}
static void *thread_main(void *a) {
  int t = (int)(size_t)a; TH &h = W->t[t]; fstate[sim_cur()].thr = t; h.fib = sim_cur(); FN("go");
  sim_wait_until(go_pred, 0); h.started = true;
  pthread_cleanup_push(thread_cleanup, a);
  const Thr &p = W->p->t[t];
  for (int i = 0; i < p.n; i++) { FIX(i); step_op(t, p.op[i]); }
  FIX(99); h.exiting = true;
  pthread_cleanup_pop(1);
  h.ended = true;
  return (void *)(size_t)(2000 + t);
}
__attribute__((weak)) bool rw_aged(pthread_rwlock_t *, int) { return false; } __attribute__((weak)) bool cv_aged(pthread_cond_t *, int) { return false; } // overridden by internal.cc
static void minit(int i) { World &w = *W; GM &m = w.m[i]; int r; static const int kinds[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE};
  if (m.stat) { pthread_mutex_t ini[] = {PTHREAD_MUTEX_INITIALIZER, PTHREAD_ERRORCHECK_MUTEX_INITIALIZER, PTHREAD_RECURSIVE_MUTEX_INITIALIZER}; *m.m = ini[m.kind]; }
  else { pthread_mutexattr_t a; r = pthread_mutexattr_init(&a); EXPECT(!r, "result", "mutexattr_init %s", ename(r)); r = pthread_mutexattr_settype(&a, kinds[m.kind]); EXPECT(!r, "result", "settype %s", ename(r)); if (m.robust) { r = pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); EXPECT(!r, "result", "setrobust %s", ename(r)); }
    r = CALL(pthread_mutex_init, pthread_mutex_init(m.m, m.kind == NORMAL && !m.robust && (w.p->cfg[1 + i] & 16) ? 0 : &a)); EXPECT(!r, "result", "mutex_init %s", ename(r)); pthread_mutexattr_destroy(&a); } }
static void make(World &w, const Prog &p) {
  int r; auto cl = [](int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; };
  w.nm = cl(p.cfg[0], 0, MAXM); w.nc = cl(p.cfg[4], 0, MAXC); w.ns = cl(p.cfg[7], 0, MAXS); w.nr = cl(p.cfg[10], 0, MAXR); w.np = cl(p.cfg[13], 0, MAXP); w.nt = p.nt;
  if (w.nc && !w.nm) w.nm = 1;
  for (int i = 0; i < w.nm; i++) { GM &m = w.m[i]; m.kind = ckind(p, i); m.robust = p.cfg[1 + i] & 4; m.stat = !m.robust && (p.cfg[1 + i] & 8); m.owner = -1; m.dyingfib = -1; m.m = (pthread_mutex_t *)sim_umalloc(sizeof *m.m); }
  for (int i = 0; i < w.nc; i++) { int k = (p.cfg[CI(i)] >> 1) % w.nm; w.c[i].m = k; w.c[i].stat = p.cfg[CI(i)] & 1; w.c[i].c = (pthread_cond_t *)sim_umalloc(sizeof(pthread_cond_t)); }
  for (int i = 0; i < w.nm; i++) minit(i);
  for (int i = 0; i < w.nc; i++) { if (w.c[i].stat) { pthread_cond_t c = PTHREAD_COND_INITIALIZER; *w.c[i].c = c; } else { r = CALL(pthread_cond_init, pthread_cond_init(w.c[i].c, 0)); EXPECT(!r, "result", "cond_init %s", ename(r)); if (p.cfg[23 + i] > 0 && cv_aged(w.c[i].c, p.cfg[23 + i])) label("c-aged"); } }
  for (int i = 0; i < w.ns; i++) { GS &s = w.s[i]; s.init = p.cfg[8 + i] < 0 ? 0 : p.cfg[8 + i]; s.s = (sem_t *)sim_umalloc(sizeof(sem_t)); r = CALL(sem_init, sem_init(s.s, 0, s.init)); EXPECT(!r, "result", "sem_init %d errno %s", r, ename(ERRNO)); }
  for (int i = 0; i < w.nr; i++) { GR &g = w.r[i]; g.writer = -1; g.stat = p.cfg[11 + i] & 1; g.r = (pthread_rwlock_t *)sim_umalloc(sizeof *g.r); if (g.stat) { pthread_rwlock_t x = PTHREAD_RWLOCK_INITIALIZER; *g.r = x; } else { r = CALL(pthread_rwlock_init, pthread_rwlock_init(g.r, 0)); EXPECT(!r, "result", "rwlock_init %s", ename(r)); if (p.cfg[21 + i] > 0 && rw_aged(g.r, p.cfg[21 + i])) label("r-aged"); } }
  for (int i = 0; i < w.np; i++) { GP &g = w.sp[i]; g.owner = -1; g.stat = p.cfg[14 + i] & 1; g.s = (pthread_spinlock_t *)sim_umalloc(sizeof *g.s); if (g.stat) { pthread_spinlock_t x = PTHREAD_SPINLOCK_INITIALIZER; *g.s = x; } else { r = CALL(pthread_spin_init, pthread_spin_init(g.s, PTHREAD_PROCESS_PRIVATE)); EXPECT(!r, "result", "spin_init %s", ename(r)); } }
}
static void gone(int kind, int i, void *x) { // a destroyed object, also one that was never used, is invalid
  int r = 0, k = i + W->p->cfg[18]; const char *n = "?"; struct timespec ts = ts_of((i64)sim_now() + MS); pthread_mutex_t *m = (pthread_mutex_t *)x; pthread_cond_t *c = (pthread_cond_t *)x; sem_t *s = (sem_t *)x; pthread_rwlock_t *l = (pthread_rwlock_t *)x; pthread_spinlock_t *sp = (pthread_spinlock_t *)x;
#define GO(f, e) { n = #f; r = CALL(f, e); break; }
  for (int j = 0; j < 2; j++) {
    if (kind == 0) switch (j ? 9 : k % 4) { case 0: GO(pthread_mutex_lock, pthread_mutex_lock(m)) case 1: GO(pthread_mutex_trylock, pthread_mutex_trylock(m)) case 2: GO(pthread_mutex_timedlock, pthread_mutex_timedlock(m, &ts)) case 3: GO(pthread_mutex_unlock, pthread_mutex_unlock(m)) default: GO(pthread_mutex_destroy, pthread_mutex_destroy(m)) }
    if (kind == 1) switch (j ? 9 : k % 4) { case 0: GO(pthread_cond_signal, pthread_cond_signal(c)) case 1: GO(pthread_cond_broadcast, pthread_cond_broadcast(c)) case 2: case 3: { pthread_mutex_t mm = PTHREAD_MUTEX_INITIALIZER; int e = CALL(pthread_mutex_lock, pthread_mutex_lock(&mm)); EXPECT(!e, "result", "lock returned %s", ename(e)); n = "pthread_cond_wait"; r = k % 4 == 2 ? CALL(pthread_cond_wait, pthread_cond_wait(c, &mm)) : CALL(pthread_cond_timedwait, pthread_cond_timedwait(c, &mm, &ts)); e = CALL(pthread_mutex_unlock, pthread_mutex_unlock(&mm)); EXPECT(!e, "result", "unlock returned %s", ename(e)); e = CALL(pthread_mutex_destroy, pthread_mutex_destroy(&mm)); EXPECT(!e, "result", "mutex_destroy returned %s", ename(e)); break; } default: GO(pthread_cond_destroy, pthread_cond_destroy(c)) }
    if (kind == 2) { ERRNO = 0; switch (j ? 9 : k % 4) { case 0: GO(sem_wait, sem_wait(s)) case 1: GO(sem_post, sem_post(s)) case 2: GO(sem_trywait, sem_trywait(s)) case 3: GO(sem_timedwait, sem_timedwait(s, &ts)) default: GO(sem_destroy, sem_destroy(s)) } if (r == -1) r = ERRNO; }
    if (kind == 3) switch (j ? 9 : k % 7) { case 0: GO(pthread_rwlock_rdlock, pthread_rwlock_rdlock(l)) case 1: GO(pthread_rwlock_wrlock, pthread_rwlock_wrlock(l)) case 2: GO(pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(l)) case 3: GO(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(l)) case 4: GO(pthread_rwlock_timedrdlock, pthread_rwlock_timedrdlock(l, &ts)) case 5: GO(pthread_rwlock_timedwrlock, pthread_rwlock_timedwrlock(l, &ts)) case 6: GO(pthread_rwlock_unlock, pthread_rwlock_unlock(l)) default: GO(pthread_rwlock_destroy, pthread_rwlock_destroy(l)) }
    if (kind == 4) switch (j ? 9 : k % 3) { case 0: GO(pthread_spin_lock, pthread_spin_lock(sp)) case 1: GO(pthread_spin_trylock, pthread_spin_trylock(sp)) case 2: GO(pthread_spin_unlock, pthread_spin_unlock(sp)) default: GO(pthread_spin_destroy, pthread_spin_destroy(sp)) }
    EXPECT(r == EINVAL, "result", "%s of a destroyed object returned %s", n, ename(r)); } }
static void run(const Prog &p) {
  static World world; memset(&world, 0, sizeof world); W = &world; World &w = world; w.p = &p; int r;
  w.slack = 30 * MS + p.tick * 400LL;
  fstate[0].thr = 99; FN("setup"); int at = sim_atomic(1); sim_lib_ctors();
  make(w, p);
  for (int t = 0; t < w.nt; t++) { w.t[t].fib = -1; r = CALL(pthread_create, pthread_create(&w.t[t].id, 0, thread_main, (void *)(size_t)t)); EXPECT(!r, "result", "pthread_create %s", ename(r)); }
  sim_atomic(at); FN("-"); sim_wait_quiet(); sim_set_idle_hook(check_idle);
  for (int t = 0; t < w.nt; t++) w.t[t].started = true;
  sim_mark(); w.go = 1; sim_wait_quiet();
  // rescue rounds: everything that may legitimately still wait is released by main
  int rounds = 0;
  for (;;) {
    check_idle();
    int busy = -1, semb = 0; for (int t = 0; t < w.nt; t++) if (!fib_ended(w.t[t].fib)) busy = t;
    if (busy < 0) break;
    EXPECT(++rounds < 400, "harness", "rescue does not end");
    bool did = false;
    for (int t = 0; t < w.nt && !did; t++) { TH &h = w.t[t]; if (fib_ended(h.fib) || !h.incall) continue; int op = h.incall - 1;
      if (op == S_WAIT || op == S_TIMED) { GS &s = w.s[h.obj]; int nb = 0; for (int u = 0; u < w.nt; u++) if (w.t[u].incall && w.t[u].obj == h.obj && (w.t[u].incall - 1 == S_WAIT || w.t[u].incall - 1 == S_TIMED) && !fib_ended(w.t[u].fib)) nb++;
        int v = 1234; r = CALL(sem_getvalue, sem_getvalue(s.s, &v)); EXPECT(r == 0 && v == -nb, "conservation", "sem_getvalue says %d (returned %d) with %d threads blocked", v, r, nb);
        r = CALL(sem_destroy, sem_destroy(s.s)); EXPECT(r == -1 && ERRNO == EBUSY, "result", "destroying a semaphore with %d blocked threads returned %d errno %s", nb, r, ename(ERRNO)); 
        semb = nb; int k = p.cfg[16] & 1 ? nb : 1; Q q = qbegin(s.infl, s.gen); s.pinfl++; s.posts_started += k; r = k == 1 ? CALL(sem_post, sem_post(s.s)) : CALL(sem_post_multiple, sem_post_multiple(s.s, k)); EXPECT(r == 0, "result", "post returned %d errno %s", r, ename(ERRNO)); s.posts_done += k; s.pinfl--; s.lastpost = ++w.seq; qend(q); did = true; label("rescue-sem"); }
      else if (op == C_WAIT || op == C_TWAIT) { int c = h.obj; int nb = 0; for (int u = 0; u < w.nt; u++) if (w.t[u].incall && w.t[u].obj == c && (w.t[u].incall - 1 == C_WAIT || w.t[u].incall - 1 == C_TWAIT) && !fib_ended(w.t[u].fib)) nb++;
        if (p.cfg[16] & 2) { r = CALL(pthread_cond_destroy, pthread_cond_destroy(w.c[c].c)); EXPECT(r == EBUSY, "result", "destroying a condition variable with %d waiting threads returned %s", nb, ename(r)); }
        if (p.cfg[16] & 4) do_signal(-1, c, false, false); else if (p.cfg[16] & 8) do_signal(-1, c, true, true); else do_signal(-1, c, true, false);
        did = true; label("rescue-cond"); }
    }
    if (!did) { char b[100]; snprintf(b, sizeof b, "T%d", busy); sim_fail("stranded", "%s never ends (in %s)", b, w.t[busy].incall ? names[w.t[busy].incall - 1] : "its own code"); }
    sim_wait_quiet(); (void)semb;
  }
  sim_set_idle_hook(0);
  for (int t = 0; t < w.nt; t++) { void *v = (void *)77; r = CALL(pthread_join, pthread_join(w.t[t].id, &v)); EXPECT(r == 0, "result", "join of T%d returned %s", t, ename(r));
    bool canc = v == PTHREAD_CANCELED, ex = v == (void *)(size_t)(1000 + t), ret = v == (void *)(size_t)(2000 + t); EXPECT(canc || ex || ret, "result", "join of T%d gave %p", t, v); EXPECT(!canc || w.t[t].cancel_req, "result", "T%d reported as cancelled", t); }
  // everything still works, then goes
  for (int i = 0; i < w.nm; i++) { GM &m = w.m[i]; int T = MAXT; 
    if (m.owner == -2 || (p.cfg[18] & 1)) { bool nr = m.notrec, dead = m.owner == -2; r = CALL(pthread_mutex_lock, pthread_mutex_lock(m.m)); EXPECT(r == (nr ? ENOTRECOVERABLE : dead ? EOWNERDEAD : 0), "result", "final lock of mutex %d returned %s", i, ename(r)); if (r == EOWNERDEAD) { r = CALL(pthread_mutex_consistent, pthread_mutex_consistent(m.m)); EXPECT(r == 0, "result", "final mutex_consistent returned %s", ename(r)); } if (r == 0) { r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m.m)); EXPECT(r == 0, "result", "final unlock returned %s", ename(r)); } m.owner = -1; (void)T; }
    r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(m.m)); EXPECT(r == 0, "result", "destroying the unused mutex %d (%s%s) returned %s", i, m.notrec ? "not recoverable " : "", m.robust ? "robust" : "", ename(r)); gone(0, i, m.m); }
  for (int j = 0; j < w.nc; j++) { int i = p.cfg[18] & 8 ? w.nc - 1 - j : (j + (p.cfg[18] >> 4)) % w.nc; r = CALL(pthread_cond_destroy, pthread_cond_destroy(w.c[i].c)); if (p.cfg[18] & 4) { void *x = pthread_timechange_handler_np(0); EXPECT(!x, "result", "time change handler returned %p", x); } EXPECT(r == 0, "result", "destroying the unused condition variable %d returned %s", i, ename(r)); gone(1, i, w.c[i].c); }
  for (int i = 0; i < w.ns; i++) { GS &s = w.s[i]; i64 av = s.init + s.posts_done - s.takes; int v = -99; r = CALL(sem_getvalue, sem_getvalue(s.s, &v)); EXPECT(r == 0 && v >= 0 && v <= av && v >= av - s.slack, "conservation", "semaphore %d ends with value %d, initial %d plus %lld posts minus %lld waits is %lld", i, v, s.init, s.posts_done, s.takes, av); av = v;
    for (int k = 0; k < av && k < 3; k++) { r = CALL(sem_trywait, sem_trywait(s.s)); EXPECT(r == 0, "result", "final sem_trywait failed with %lld units", av - k); }
    if (av <= 3) { r = CALL(sem_trywait, sem_trywait(s.s)); EXPECT(r == -1 && ERRNO == EAGAIN, "result", "final sem_trywait on an empty semaphore returned %d", r);
      if (p.cfg[18] & 1) { struct timespec ts = ts_of(EPOCH + 1000 * MS < sim_now() ? EPOCH + 1000 * MS : EPOCH); r = CALL(sem_timedwait, sem_timedwait(s.s, &ts)); EXPECT(r == -1 && ERRNO == ETIMEDOUT, "conservation", "a sem_timedwait on the emptied semaphore returned %d", r); } }
    r = CALL(sem_destroy, sem_destroy(s.s)); EXPECT(r == 0, "result", "destroying the unused semaphore %d returned %d errno %s", i, r, ename(ERRNO)); gone(2, i, s.s); }
  for (int i = 0; i < w.nr; i++) { GR &g = w.r[i]; if (p.cfg[18] & 2) { r = CALL(pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(g.r)); EXPECT(r == 0, "result", "final trywrlock returned %s", ename(r)); r = CALL(pthread_rwlock_unlock, pthread_rwlock_unlock(g.r)); EXPECT(r == 0, "result", "final unlock returned %s", ename(r)); }
    if (p.cfg[18] & 4) { r = CALL(pthread_rwlock_rdlock, pthread_rwlock_rdlock(g.r)); EXPECT(r == 0, "result", "final rdlock returned %s", ename(r)); r = CALL(pthread_rwlock_unlock, pthread_rwlock_unlock(g.r)); EXPECT(r == 0, "result", "final unlock returned %s", ename(r)); }
    r = CALL(pthread_rwlock_destroy, pthread_rwlock_destroy(g.r)); EXPECT(r == 0, "result", "destroying the unused rwlock %d returned %s", i, ename(r)); gone(3, i, g.r); }
  for (int i = 0; i < w.np; i++) { r = CALL(pthread_spin_destroy, pthread_spin_destroy(w.sp[i].s)); EXPECT(r == 0, "result", "destroying the unused spin lock %d returned %s", i, ename(r)); gone(4, i, w.sp[i].s); }
  sim_lib_dtors(); leak_check();
  if (w.contended) nontriv(); if (w.timedout) nontriv();
}
// ---------------------------------------------------------------- generation
static int reltime(Rng &r) { static const int v[] = {-10000000, -1, 0, 1, 3, 9999, 10000, 10001, 15000, 20000, 50000, 123456, 200000, 1000000}; return r.pick(v); }
static Op mk(int c, int a = 0, int b = 0, int d = 0) { Op o; o.c = c; o.a = a; o.b = b; o.d = d; return o; }
static void add(Prog &p, int t, Op o) { if (p.t[t].n < MAXOPS) p.t[t].op[p.t[t].n++] = o; }
static void blk_mutex(Rng &r, Prog &p, int t, int nm, int depth, int prof) {
  int i = r.n(nm); int how = r.n(prof == PR_TIMED ? 6 : 4); static const int hw[] = {M_LOCK, M_TRY, M_TIMED, M_LOCK, M_TIMED, M_TIMED};
  add(p, t, mk(hw[how], i, reltime(r)));
  if (r.p(1, 3)) add(p, t, mk(r.p(1, 2) ? M_RELOCK : M_TRY, i, reltime(r)));
  if (depth < 2 && r.p(1, 3)) blk_mutex(r, p, t, nm, depth + 1, prof);
  if (prof == PR_MTYPE && r.p(1, 60)) add(p, t, mk(M_DEEP, i, r.p(9, 10) ? r.n(3) : r.n(6)));
  if (prof == PR_DESTROY || prof == PR_MUTEX || prof == PR_ROBUST) if (r.p(1, prof == PR_DESTROY ? 3 : 8)) add(p, t, mk(M_LASTUSE, r.n(nm)));
  if (prof == PR_MTYPE || prof == PR_DESTROY) { if (r.p(1, 4)) add(p, t, mk(M_DBUSY, i)); if (r.p(1, 4)) add(p, t, mk(M_BADUN, r.n(nm))); if (r.p(1, 6)) add(p, t, mk(M_FUN, r.n(nm))); }
  if (prof == PR_ROBUST) { if (r.p(2, 3)) add(p, t, mk(M_CONSIST, i)); if (r.p(1, 6)) add(p, t, mk(X_EXIT)); if (r.p(1, 5)) add(p, t, mk(M_BADUN, r.n(nm))); if (r.p(1, 8)) add(p, t, mk(M_DBUSY, i)); }
  if (r.p(1, 6)) add(p, t, mk(X_DELAY, 0, reltime(r)));
  if (r.p(1, 8)) add(p, t, mk(X_YIELD));
  if (r.p(prof == PR_ROBUST ? 2 : 7, 8)) { add(p, t, mk(M_UNLOCK, i)); if (r.p(1, 3)) add(p, t, mk(M_UNLOCK, i)); }
}
static void blk_rw(Rng &r, Prog &p, int t, int nr, int prof) {
  int i = r.n(nr); static const int ops[] = {R_RD, R_RD, R_WR, R_WR, R_TRD, R_TWR, R_TIMRD, R_TIMWR};
  add(p, t, mk(prof == PR_TIMED ? (r.p(1, 2) ? R_TIMRD : R_TIMWR) : r.pick(ops), i, reltime(r)));
  if (r.p(1, 5)) add(p, t, mk(R_TWR, i)); if (r.p(1, 6)) add(p, t, mk(R_TRD, i));
  if (prof == PR_DESTROY || r.p(1, 8)) if (r.p(1, 2)) add(p, t, mk(R_DBUSY, i));
  if (r.p(1, 5)) add(p, t, mk(X_DELAY, 0, reltime(r)));
  if (r.p(1, 8)) add(p, t, mk(X_YIELD));
  if (nr > 1 && r.p(1, 5)) add(p, t, mk(r.pick(ops), r.n(nr), reltime(r)));
  add(p, t, mk(R_UN, i));
}
static void blk_cond(Rng &r, Prog &p, int t, int nc, int prof) {
  int c = r.n(nc), m = (p.cfg[CI(c)] >> 1);
  switch (r.n(7)) {
  case 0: case 1: add(p, t, mk(C_WAIT, c)); add(p, t, mk(M_UNLOCK, m)); break;
  case 2: add(p, t, mk(C_TWAIT, c, reltime(r))); if (r.p(1, 4)) add(p, t, mk(C_WAIT, c)); if (r.p(1, 2)) add(p, t, mk(C_SIG, c)); add(p, t, mk(M_UNLOCK, m)); break;
  case 3: add(p, t, mk(M_LOCK, m)); add(p, t, mk(r.p(2, 3) ? C_SIG : C_BCAST, c)); if (r.p(1, 4)) add(p, t, mk(r.p(1, 2) ? C_DBUSY : C_BDEST, c)); add(p, t, mk(M_UNLOCK, m)); break;
  case 4: if (r.p(1, 4)) add(p, t, mk(C_WERR, c, r.n(2))); add(p, t, mk(r.p(2, 3) ? C_SIG : C_BCAST, c)); break;
  case 5: add(p, t, mk(M_LOCK, m)); if (r.p(1, 3)) add(p, t, mk(r.p(1, 2) ? C_DBUSY : C_BDEST, c)); add(p, t, mk(M_UNLOCK, m)); add(p, t, mk(r.p(1, 2) ? C_SIG : C_BCAST, c)); break;
  case 6: add(p, t, mk(r.p(1, 4) ? X_TCHG : X_DELAY, 0, reltime(r))); break;
  }
}
static void blk_sem(Rng &r, Prog &p, int t, int ns, int prof) {
  int s = r.n(ns); static const int ops[] = {S_WAIT, S_WAIT, S_WAIT, S_TRY, S_TIMED, S_TIMED, S_POST, S_POST, S_POST, S_POST, S_POSTN, S_GET};
  int k = r.r(1, 3); while (k--) add(p, t, mk(prof == PR_TIMED && r.p(1, 2) ? S_TIMED : r.pick(ops), s, reltime(r)));
  if (r.p(1, 8)) add(p, t, mk(X_DELAY, 0, reltime(r)));
}
static void blk_spin(Rng &r, Prog &p, int t, int np) {
  int i = r.n(np); add(p, t, mk(r.p(2, 3) ? P_LOCK : P_TRY, i)); if (r.p(1, 4)) add(p, t, mk(P_TRY, r.n(np))); if (r.p(1, 6)) add(p, t, mk(P_DBUSY, i)); if (np > 1 && r.p(1, 4)) add(p, t, mk(P_LOCK, 1)), add(p, t, mk(P_UN, 1)); add(p, t, mk(P_UN, i)); if (r.p(1, 6)) add(p, t, mk(P_BADUN, i));
}
static void blk_cancel(Rng &r, Prog &p, int t, int nt) {
  switch (r.n(6)) { case 0: case 1: case 2: add(p, t, mk(X_CANCEL, r.n(nt))); break; case 3: add(p, t, mk(X_SETC, 0, 1)); break; case 4: add(p, t, mk(X_SETC, 0, 0)); break; case 5: add(p, t, mk(r.p(1, 2) ? X_TESTC : X_DELAY, 0, reltime(r))); break; }
}
static void gen(Rng &r, Prog &p, int prof) {
  int nt = r.p(1, 12) ? r.r(5, 6) : r.r(2, 4); p.nt = nt; int *c = p.cfg;
  bool mix = prof == PR_MIX || prof == PR_ABANDON || prof == PR_TIMED || prof == PR_DESTROY || prof == PR_STATIC;
  bool stat = prof == PR_STATIC;
  auto wantm = prof == PR_MUTEX || prof == PR_MTYPE || prof == PR_ROBUST || prof == PR_COND || (mix && r.p(2, 3));
  if (wantm) { c[0] = r.p(1, 2) ? 1 : r.r(1, 3); for (int i = 0; i < 3; i++) { int robust = prof == PR_ROBUST ? r.p(7, 8) : r.p(1, prof == PR_MTYPE ? 3 : 6); c[1 + i] = r.n(3) | (robust ? 4 : 0) | (stat || r.p(1, 4) ? 8 : 0) | (r.p(1, 2) ? 16 : 0); if (stat && r.p(4, 5)) c[1 + i] &= ~4; } }
  if (prof == PR_COND || (mix && r.p(1, 2))) { c[4] = r.p(2, 3) ? 1 : prof == PR_COND ? r.r(2, 4) : 2; if (!c[0]) c[0] = 1; for (int i = 0; i < MAXC; i++) c[CI(i)] = (stat || r.p(1, 4)) | (r.n(c[0]) << 1), c[23 + i] = !stat && r.p(1, 10) ? r.r(1, 4) : 0; }
  if (prof == PR_SEM || (mix && !stat && r.p(1, 2))) { c[7] = r.p(2, 3) ? 1 : 2; for (int i = 0; i < 2; i++) c[8 + i] = r.p(1, 30) ? SEM_VALUE_MAX - r.n(3) : r.p(1, 2) ? 0 : r.n(4); }
  if (prof == PR_RW || (mix && r.p(1, 2))) { c[10] = r.p(3, 4) ? 1 : 2; for (int i = 0; i < 2; i++) c[11 + i] = stat || r.p(1, 4), c[21 + i] = !stat && r.p(1, 12) ? r.r(1, 6) : 0; }
  if (prof == PR_SPIN || (mix && r.p(1, 3))) { c[13] = r.p(2, 3) ? 1 : 2; for (int i = 0; i < 2; i++) c[14 + i] = stat || r.p(1, 4); }
  if (prof == PR_SPIN) { static const int nc[] = {1, 2, 4}; p.ncpu = r.pick(nc); }
  if (!c[0] && !c[4] && !c[7] && !c[10] && !c[13]) { c[0] = 1; c[1] = stat ? 8 : 0; }
  c[16] = r.n(16); c[17] = prof == PR_ROBUST ? (int)(r.next() & 0xff) | (r.p(1, 2) ? 0xff : 0) : 0; c[18] = r.n(64);
  bool canc = prof == PR_ABANDON || ((prof == PR_SEM || prof == PR_COND || prof == PR_RW || prof == PR_MIX) && r.p(1, 3)) || (prof == PR_ROBUST && r.p(1, 4));
  int per = r.p(1, 3) ? 1 : r.r(1, 4); if (nt > 4) per = r.r(1, 2);
  for (int t = 0; t < nt; t++) {
    int k = r.r(1, per + 1);
    if (canc && r.p(1, 6)) add(p, t, mk(X_SETC, 0, 1));
    while (k--) {
      if (canc && r.p(1, 3)) blk_cancel(r, p, t, nt);
      int ch[6], n = 0; if (c[0]) ch[n++] = 0; if (c[4]) ch[n++] = 1, ch[n++] = 1; if (c[7]) ch[n++] = 2; if (c[10]) ch[n++] = 3; if (c[13]) ch[n++] = 4;
      switch (ch[r.n(n)]) { case 0: blk_mutex(r, p, t, c[0], 0, prof); break; case 1: blk_cond(r, p, t, c[4], prof); break; case 2: blk_sem(r, p, t, c[7], prof); break; case 3: blk_rw(r, p, t, c[10], prof); break; case 4: blk_spin(r, p, t, c[13]); break; }
      if (r.p(1, 40)) add(p, t, mk(X_EXIT));
    }
  }
}
static RegF f({"world", gen, run, opname});
static RegP p1("C01", "world", PR_MUTEX), p2("C02", "world", PR_MTYPE), p3("C03", "world", PR_ROBUST), p4("C04", "world", PR_SEM), p5("C05", "world", PR_COND), p6("C06", "world", PR_RW), p8("C08", "world", PR_SPIN), p15("C15", "world", PR_ABANDON), p16("C16", "world", PR_TIMED, 2), p17("C17", "world", PR_STATIC, 2, 1), p22("C22", "world", PR_MIX, 2, 1), p27("C27", "world", PR_DESTROY, 1);
