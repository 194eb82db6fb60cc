// Attribute objects, scheduling parameters, CPU sets, names, time conversions and invalid arguments:
// operations executed by several threads, one at a time or freely interleaved, against a model.
#include "client.h"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
enum { Q_AINIT, Q_ADEST, Q_ASET, Q_ABAD, Q_CREATE, Q_END, Q_OINIT, Q_ODEST, Q_OSET, Q_OBAD, Q_MAKE, Q_PROBE, Q_PRIO, Q_GETP, Q_RANGE, Q_SCHED, Q_CONC, Q_AFF, Q_GETAFF, Q_PAFF, Q_PGETAFF, Q_ALG, Q_NAME, Q_GETNAME, Q_STALE, Q_ABS, Q_DELAY, Q_TIMED, Q_BAD, NOPS };
static const char *names[] = {"attr_init", "attr_destroy", "attr_set", "attr_bad", "create", "end+join", "objattr_init", "objattr_destroy", "objattr_set", "objattr_bad", "make_object", "probe_object", "setschedparam", "getschedparam", "priority_range", "scheduler", "concurrency", "setaffinity", "getaffinity", "process_setaffinity", "process_getaffinity", "cpu_set_algebra", "setname", "getname", "stale_identity", "getabstime", "delay", "timed_operation", "bad_arguments"};
static const char *opname(int c) { return c >= 0 && (c & 255) < NOPS ? names[c & 255] : "?"; }
enum { PR_ATTR = 18, PR_SCHED = 19, PR_AFF = 20, PR_NAME = 21, PR_TIME = 16, PR_BAD = 26, PR_ALL = 22 };
enum { NE = 8, NA = 3, NOA = 3, NREG = 96, NMX = 3 };
// A register written by some and read by others: a read may return what a write not overwritten before it began left.
struct Reg { struct { i64 v; int t0, t1; } w[NREG]; int n; };
static int clk;
static void rset0(Reg &r, i64 v) { r.n = 1; r.w[0].v = v; r.w[0].t0 = r.w[0].t1 = ++clk; }
static int rbegin(Reg &r, i64 v) { if (r.n >= NREG) { int k = 0; for (int i = 1; i < r.n; i++) r.w[k++] = r.w[i]; r.n = k; } r.w[r.n].v = v; r.w[r.n].t0 = ++clk; r.w[r.n].t1 = 1 << 30; return r.n++; }
static void rend(Reg &r, int k) { r.w[k].t1 = ++clk; }
static bool rok(Reg &r, int r0, int r1, bool (*eq)(i64 v, void *x), void *x) {
  for (int i = 0; i < r.n; i++) if (r.w[i].t0 < r1 && eq(r.w[i].v, x)) { bool over = false; for (int j = 0; j < r.n; j++) if (j != i && r.w[j].t0 > r.w[i].t1 && r.w[j].t1 < r0) over = true; if (!over) return true; }
  return false; }
static bool eqv(i64 v, void *x) { return v == *(i64 *)x; }
static i64 rlast(Reg &r) { return r.w[r.n - 1].v; }
struct AM { pthread_attr_t *a; bool valid; int detach, inherit, prio, scope; size_t stack; u64 cpus; int name; };
struct OM { void *a; bool valid; int type, robust, pshared; }; // kind 0 mutex 1 cond 2 rwlock 3 barrier
struct EX { bool used, ended, detached, affweak; pthread_t id; int fib; int cmd, stop; Op op; int opix; Reg prio, aff, name; int err; int prio0; u64 aff0; bool raw; int rprio; u64 raff; };
struct MXO { pthread_mutex_t *m; int type, robust; bool made; };
struct QW { const Prog *p; AM a[NA]; OM o[4][NOA]; EX e[NE]; int ne; bool racy; int conc; int live; MXO mx[NMX]; i64 slack; bool final; };
static QW *W;
static int last_ename;
static int cmd_pred(void *x) { EX &e = *(EX *)x; return e.cmd || e.stop; }
static int idle_pred(void *x) { return !((EX *)x)->cmd; }
static int started_pred(void *x) { return ((EX *)x)->fib >= 0; }
static void mkname(int v, char *b) { unsigned n = (unsigned)v; int len = n % 7 == 6 ? (int)(n / 7 % 300) : (int)(n / 7 % 24); for (int i = 0; i < len; i++) b[i] = (char)(33 + (n * 31u + i * 7u + i * i) % 90); b[len] = 0; }
static u64 proc(void) { return sim_proc_mask(); }
static int osprio(int p) { return p == -15 || p == 15 ? p : p < -2 ? -2 : p > 2 ? 2 : p; }
static cpu_set_t cs_of(u64 m) { cpu_set_t c; CPU_ZERO(&c); for (int i = 0; i < 64; i++) if (m >> i & 1) CPU_SET(i, &c); return c; }
static u64 of_cs(const cpu_set_t &c) { u64 m = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, &c)) m |= 1ull << i; return m; }
static u64 mask_of(int b, int d) { u64 m = (u64)(unsigned)b; switch ((unsigned)d % 6) { case 0: return m & 255; case 1: return 1ull << (m % 64); case 2: return m | (m << 32); case 3: return m & 15; case 4: return (m & 3) << (m % 8 * 8); default: return m % 5 == 0 ? 0 : ~0ull >> (m % 64); } }
// ------------------------------------------------ thread attribute objects
static void a_check(AM &x, const char *after) {
  int v, r; size_t s; struct sched_param sp; cpu_set_t c; char nm[400], want[400]; void *sa; if (!x.valid) return;
  r = CALL(pthread_attr_getdetachstate, pthread_attr_getdetachstate(x.a, &v)); EXPECT(r == 0 && v == x.detach, "attr", "after %s: detach state is %d instead of %d (%s)", after, v, x.detach, ename(r));
  r = CALL(pthread_attr_getinheritsched, pthread_attr_getinheritsched(x.a, &v)); EXPECT(r == 0 && v == x.inherit, "attr", "after %s: inheritsched is %d instead of %d (%s)", after, v, x.inherit, ename(r));
  r = CALL(pthread_attr_getscope, pthread_attr_getscope(x.a, &v)); EXPECT(r == 0 && v == x.scope, "attr", "after %s: scope is %d instead of %d (%s)", after, v, x.scope, ename(r));
  r = CALL(pthread_attr_getschedpolicy, pthread_attr_getschedpolicy(x.a, &v)); EXPECT(r == 0 && v == SCHED_OTHER, "attr", "after %s: policy is %d (%s)", after, v, ename(r));
  r = CALL(pthread_attr_getschedparam, pthread_attr_getschedparam(x.a, &sp)); EXPECT(r == 0 && sp.sched_priority == x.prio, "attr", "after %s: priority is %d instead of %d (%s)", after, sp.sched_priority, x.prio, ename(r));
  r = CALL(pthread_attr_getstacksize, pthread_attr_getstacksize(x.a, &s)); EXPECT(r == 0 && s == x.stack, "attr", "after %s: stack size is %llu instead of %llu (%s)", after, (u64)s, (u64)x.stack, ename(r));
  r = CALL(pthread_attr_getaffinity_np, pthread_attr_getaffinity_np(x.a, sizeof c, &c)); EXPECT(r == 0 && of_cs(c) == x.cpus, "attr", "after %s: affinity is %llx instead of %llx (%s)", after, of_cs(c), x.cpus, ename(r));
  r = CALL(pthread_attr_getstackaddr, pthread_attr_getstackaddr(x.a, &sa)); EXPECT(r == ENOSYS, "attr", "getstackaddr returned %s", ename(r));
  memset(nm, 'Q', sizeof nm); r = CALL(pthread_attr_getname_np, pthread_attr_getname_np(x.a, nm, sizeof nm)); want[0] = 0; if (x.name >= 0) mkname(x.name, want); EXPECT(r == 0 && !strncmp(nm, want, sizeof nm), "attr", "after %s: name is \"%.60s\" instead of \"%s\" (%s)", after, nm, want, ename(r));
}
static void a_rejects(pthread_attr_t *a, const char *what) { // every operation on an invalid attribute object
  int v = 0, r; size_t s; struct sched_param sp; sp.sched_priority = 0; cpu_set_t c; CPU_ZERO(&c); char nm[16];
#define RJ(n, e, want) r = CALL(n, e); EXPECT(r == want, "result", #n " on %s attribute object returned %s", what, ename(r))
  RJ(pthread_attr_getdetachstate, pthread_attr_getdetachstate(a, &v), EINVAL); RJ(pthread_attr_setdetachstate, pthread_attr_setdetachstate(a, PTHREAD_CREATE_DETACHED), EINVAL); RJ(pthread_attr_getinheritsched, pthread_attr_getinheritsched(a, &v), EINVAL); RJ(pthread_attr_setinheritsched, pthread_attr_setinheritsched(a, PTHREAD_INHERIT_SCHED), EINVAL);
  RJ(pthread_attr_getscope, pthread_attr_getscope(a, &v), EINVAL); RJ(pthread_attr_setscope, pthread_attr_setscope(a, PTHREAD_SCOPE_SYSTEM), EINVAL); RJ(pthread_attr_getschedpolicy, pthread_attr_getschedpolicy(a, &v), EINVAL); RJ(pthread_attr_setschedpolicy, pthread_attr_setschedpolicy(a, SCHED_OTHER), EINVAL);
  RJ(pthread_attr_getschedparam, pthread_attr_getschedparam(a, &sp), EINVAL); RJ(pthread_attr_setschedparam, pthread_attr_setschedparam(a, &sp), EINVAL); RJ(pthread_attr_getstacksize, pthread_attr_getstacksize(a, &s), EINVAL); RJ(pthread_attr_setstacksize, pthread_attr_setstacksize(a, 65536), EINVAL);
  RJ(pthread_attr_getaffinity_np, pthread_attr_getaffinity_np(a, sizeof c, &c), EINVAL); RJ(pthread_attr_setaffinity_np, pthread_attr_setaffinity_np(a, sizeof c, &c), EINVAL); RJ(pthread_attr_getname_np, pthread_attr_getname_np(a, nm, sizeof nm), EINVAL); RJ(pthread_attr_setname_np, pthread_attr_setname_np(a, "x"), EINVAL); RJ(pthread_attr_destroy, pthread_attr_destroy(a), EINVAL);
  label("rejected");
}
static void do_ainit(AM &x) { if (x.valid) return; memset((void *)x.a, 0x6b, sizeof *x.a); int r = CALL(pthread_attr_init, pthread_attr_init(x.a)); EXPECT(r == 0, "result", "attr_init %s", ename(r)); x.valid = true; x.detach = PTHREAD_CREATE_JOINABLE; x.inherit = PTHREAD_EXPLICIT_SCHED; x.prio = 0; x.scope = PTHREAD_SCOPE_SYSTEM; x.stack = 0; x.cpus = 0; x.name = -1; a_check(x, "attr_init"); label("attr-init"); }
static void do_adest(AM &x) { if (!x.valid) return; int r = CALL(pthread_attr_destroy, pthread_attr_destroy(x.a)); EXPECT(r == 0, "result", "attr_destroy %s", ename(r)); x.valid = false; a_rejects(x.a, "a destroyed"); label("attr-destroyed"); }
static void do_aset(AM &x, int which, int b, int d) {
  if (!x.valid) { do_ainit(x); } int r; struct sched_param sp; cpu_set_t c; char nm[400]; which = (unsigned)which % 9; static const int odd[] = {0, 1, 2, -1, 77, 1 << 20}; int v = odd[(unsigned)b % 6];
  switch (which) {
  case 0: r = CALL(pthread_attr_setdetachstate, pthread_attr_setdetachstate(x.a, v)); if (v == PTHREAD_CREATE_JOINABLE || v == PTHREAD_CREATE_DETACHED) { EXPECT(r == 0, "result", "setdetachstate(%d) returned %s", v, ename(r)); x.detach = v; } else EXPECT(r == EINVAL, "result", "setdetachstate(%d) returned %s", v, ename(r)); break;
  case 1: r = CALL(pthread_attr_setinheritsched, pthread_attr_setinheritsched(x.a, v)); if (v == PTHREAD_INHERIT_SCHED || v == PTHREAD_EXPLICIT_SCHED) { EXPECT(r == 0, "result", "setinheritsched(%d) returned %s", v, ename(r)); x.inherit = v; } else EXPECT(r == EINVAL, "result", "setinheritsched(%d) returned %s", v, ename(r)); break;
  case 2: v = b % 19; sp.sched_priority = v; r = CALL(pthread_attr_setschedparam, pthread_attr_setschedparam(x.a, &sp)); if (v >= -15 && v <= 15) { EXPECT(r == 0, "result", "attr_setschedparam(%d) returned %s", v, ename(r)); x.prio = v; } else EXPECT(r == EINVAL, "result", "attr_setschedparam(%d) returned %s", v, ename(r)); break;
  case 3: r = CALL(pthread_attr_setschedpolicy, pthread_attr_setschedpolicy(x.a, v)); if (v == SCHED_OTHER) EXPECT(r == 0, "result", "setschedpolicy(%d) returned %s", v, ename(r)); else EXPECT(r == ENOTSUP || r == EINVAL, "result", "setschedpolicy(%d) returned %s", v, ename(r)); if (v == SCHED_FIFO || v == SCHED_RR) EXPECT(r == ENOTSUP, "result", "setschedpolicy(%d) returned %s", v, ename(r)); break;
  case 4: r = CALL(pthread_attr_setscope, pthread_attr_setscope(x.a, v)); if (v == PTHREAD_SCOPE_SYSTEM) EXPECT(r == 0, "result", "setscope(%d) returned %s", v, ename(r)); else if (v == PTHREAD_SCOPE_PROCESS) EXPECT(r == ENOTSUP, "result", "setscope(%d) returned %s", v, ename(r)); else EXPECT(r == EINVAL, "result", "setscope(%d) returned %s", v, ename(r)); break;
  case 5: { size_t s = (size_t)(unsigned)b % 9 * 65536; if (d % 7 == 0) { s = d % 3 ? s | (size_t)1 << (32 + (unsigned)d / 7 % 31) : ~(size_t)0; label("stack-size-huge"); } r = CALL(pthread_attr_setstacksize, pthread_attr_setstacksize(x.a, s)); EXPECT(r == 0, "result", "setstacksize returned %s", ename(r)); x.stack = s; break; }
  case 6: { u64 m = mask_of(b, d); c = cs_of(m); r = CALL(pthread_attr_setaffinity_np, pthread_attr_setaffinity_np(x.a, sizeof c, &c)); EXPECT(r == 0, "result", "attr_setaffinity returned %s", ename(r)); x.cpus = m; break; }
  case 7: { mkname((int)((unsigned)b & 0x7fffffff), nm); char *s = (char *)sim_umalloc(strlen(nm) + 1); strcpy(s, nm); r = CALL(pthread_attr_setname_np, pthread_attr_setname_np(x.a, s)); memset(s, '?', strlen(nm)); sim_ufree(s); EXPECT(r == 0, "result", "attr_setname_np returned %s", ename(r)); x.name = (int)((unsigned)b & 0x7fffffff); break; }
  case 8: r = CALL(pthread_attr_setstackaddr, pthread_attr_setstackaddr(x.a, &c)); EXPECT(r == ENOSYS, "result", "setstackaddr returned %s", ename(r)); break;
  }
  a_check(x, "a set"); label("attr-set"); nontriv();
}
static void do_abad(AM &x, int d) { // invalid arguments leave the object alone; small name buffers
  const char *what = "a valid";  a_rejects(0, "a null"); if (!x.valid) { a_rejects(x.a, "an uninitialised (null)"); return; } int r; 
  RJ(pthread_attr_getdetachstate, pthread_attr_getdetachstate(x.a, 0), EINVAL); RJ(pthread_attr_getinheritsched, pthread_attr_getinheritsched(x.a, 0), EINVAL); RJ(pthread_attr_getschedparam, pthread_attr_getschedparam(x.a, 0), EINVAL); RJ(pthread_attr_setschedparam, pthread_attr_setschedparam(x.a, 0), EINVAL); RJ(pthread_attr_getschedpolicy, pthread_attr_getschedpolicy(x.a, 0), EINVAL); RJ(pthread_attr_getaffinity_np, pthread_attr_getaffinity_np(x.a, 8, 0), EINVAL); RJ(pthread_attr_setaffinity_np, pthread_attr_setaffinity_np(x.a, 8, 0), EINVAL); RJ(pthread_attr_init, pthread_attr_init(0), EINVAL);
  int len = 1 + (unsigned)d % 30; char *b = (char *)sim_umalloc(len), want[400]; memset(b, 'Q', len); want[0] = 0; if (x.name >= 0) mkname(x.name, want); r = CALL(pthread_attr_getname_np, pthread_attr_getname_np(x.a, b, len)); EXPECT(r == 0, "result", "attr_getname_np returned %s", ename(r));
  int k = (int)strlen(want) < len - 1 ? (int)strlen(want) : len - 1; EXPECT(!memcmp(b, want, k) && b[k] == 0, "name", "attr_getname_np into %d bytes gave \"%.*s\" instead of \"%.*s\"", len, len, b, k, want); sim_ufree(b); a_check(x, "refused calls"); label("attr-bad"); }
// ------------------------------------------------ threads
static void exec(int i, const Op &o, int ix);
static void *ex_main(void *a) { int i = (int)(size_t)a; QW &w = *W; EX &e = w.e[i]; e.prio0 = sim_fiber_prio(sim_cur()); e.aff0 = sim_fiber_aff(sim_cur()); e.fib = sim_cur(); fstate[sim_cur()].thr = i;
  for (;;) { FN("idle"); sim_wait_until(cmd_pred, &e); if (e.cmd) { exec(i, e.op, e.opix); e.cmd = 0; } else break; }
  return (void *)(size_t)(i + 100); }
static unsigned ex_raw(void *a) { int i = (int)(size_t)a; EX &e = W->e[i]; fstate[sim_cur()].thr = i; sim_user_region(1); if (e.rprio != 99) SetThreadPriority(GetCurrentThread(), e.rprio); if (e.raff) SetThreadAffinityMask(GetCurrentThread(), e.raff); sim_user_region(0); // a thread the library did not create, set up before its first call
  e.id = CALL(pthread_self, pthread_self()); e.fib = sim_cur(); for (;;) { FN("idle"); sim_wait_until(cmd_pred, &e); if (e.cmd) { exec(i, e.op, e.opix); e.cmd = 0; } else break; } FN("thread_detach_np"); pthread_win32_thread_detach_np(); return 0; }
static bool eqname(i64 v, void *x) { char b[400]; if (v < 0) b[0] = 0; else mkname((int)v, b); char *s = (char *)x; int len = ((int *)s)[-1]; int k = (int)strlen(b) < len - 1 ? (int)strlen(b) : len - 1; return !memcmp(s, b, k) && s[k] == 0; }
static void t_check(int j, const char *after) { // everything the library and the system say about thread j, at rest
  QW &w = *W; EX &e = w.e[j]; if (!e.used || e.ended || e.fib < 0) return; struct sched_param sp; int pol = 99, r; cpu_set_t c; char nm[416];
  r = CALL(pthread_getschedparam, pthread_getschedparam(e.id, &pol, &sp)); EXPECT(r == 0 && pol == SCHED_OTHER, "result", "getschedparam %s policy %d", ename(r), pol); 
  i64 v = sp.sched_priority; if (!w.racy) EXPECT(v == rlast(e.prio), "priority", "after %s: thread %d reports priority %lld instead of %lld", after, j, v, rlast(e.prio)); else EXPECT(rok(e.prio, clk, clk + 1, eqv, &v), "priority", "after %s: thread %d reports priority %lld, which was not the last set", after, j, v);
  EXPECT(sim_fiber_prio(e.fib) == osprio((int)v), "priority", "after %s: thread %d has priority %d in the system and reports %lld", after, j, sim_fiber_prio(e.fib), v);
  r = CALL(pthread_getaffinity_np, pthread_getaffinity_np(e.id, sizeof c, &c)); EXPECT(r == 0, "result", "getaffinity %s", ename(r)); i64 m = (i64)of_cs(c); EXPECT((u64)m == sim_fiber_aff(e.fib), "affinity", "after %s: thread %d reports affinity %llx and has %llx", after, j, (u64)m, (u64)sim_fiber_aff(e.fib)); e.affweak = false;
  EXPECT(rok(e.aff, clk, clk + 1, eqv, &m), "affinity", "after %s: thread %d has affinity %llx, which was not the last set (%llx)", after, j, (u64)m, (u64)rlast(e.aff));
  int *len = (int *)nm; len[0] = 0; *len = 400; char *b = nm + 4; memset(b, 'Q', 400); r = CALL(pthread_getname_np, pthread_getname_np(e.id, b, 400)); EXPECT(r == 0, "result", "getname_np %s", ename(r)); EXPECT(rok(e.name, clk, clk + 1, eqname, b), "name", "after %s: thread %d reports the name \"%.60s\"", after, j, b);
}
static int pick(int a) { QW &w = *W; for (int k = 0; k < w.ne; k++) { int j = (unsigned)(a + k) % w.ne; if (w.e[j].used && !w.e[j].ended) return j; } return 0; }
static void do_create(int i, int a, int b) {
  QW &w = *W; if (w.ne >= NE) return; int j = w.ne; EX &e = w.e[j]; memset(&e, 0, sizeof e); e.fib = -1; AM *x = a % (NA + 1) == NA ? 0 : &w.a[(unsigned)a % (NA + 1)]; EX &me = w.e[i];
  if (!x && (b & 0x30) == 0x10) { static const int pr[] = {99, -15, -2, -1, 0, 1, 2, 15}; e.raw = true; e.rprio = pr[(unsigned)b >> 6 & 7]; u64 m = ((unsigned)b >> 9 & 3) ? mask_of(b >> 4, b >> 11) & proc() : 0; e.raff = m; e.used = true; w.ne++; rset0(e.prio, e.rprio == 99 ? 0 : e.rprio); rset0(e.aff, (i64)(m ? m : proc())); rset0(e.name, -1); e.detached = true; DWORD id; sim_user_region(1); HANDLE t = CreateThread(0, 0, (LPTHREAD_START_ROUTINE)ex_raw, (void *)(size_t)j, 0, &id); CloseHandle(t); sim_user_region(0);
    FN("start"); sim_wait_until(started_pred, &e); t_check(j, "its first call"); label("system-thread"); if (e.rprio != 99) label("system-thread-priority"); if (m) label("system-thread-affinity"); nontriv(); return; }
  if (x && x->valid && x->stack > 0xffffffffu) do_aset(*x, 5, 0, 1);
  bool nul = x && !x->valid; pthread_attr_t *pa = x ? x->a : 0; if (nul) { // a destroyed attribute object
    int r = CALL(pthread_create, pthread_create(&e.id, pa, ex_main, (void *)(size_t)j)); EXPECT(r == EINVAL, "result", "pthread_create with a destroyed attribute object returned %s", ename(r)); label("create-bad-attr"); return; }
  if (w.racy) { struct sched_param sp; int pol, r = CALL(pthread_getschedparam, pthread_getschedparam(me.id, &pol, &sp)); i64 v = sp.sched_priority; EXPECT(r == 0 && rok(me.prio, clk, clk + 1, eqv, &v), "priority", "thread %d reports priority %lld, which was not the last set", i, v); rset0(me.prio, v); } // of two simultaneous writes either may be the last
  u64 want; bool weak = false; int prio; if (x && x->cpus) want = x->cpus & proc(); else { want = sim_fiber_aff(me.fib); weak = me.affweak; }
  prio = !x ? 0 : x->inherit == PTHREAD_INHERIT_SCHED ? (int)rlast(me.prio) : x->prio;
  int r = CALL(pthread_create, pthread_create(&e.id, pa, ex_main, (void *)(size_t)j));
  if (!want) { EXPECT(r == EINVAL, "result", "pthread_create with an affinity that names no available processor returned %s", ename(r)); label("create-no-cpu"); return; }
  EXPECT(r == 0, "result", "pthread_create returned %s", ename(r)); e.used = true; w.ne++; rset0(e.prio, prio); rset0(e.aff, (i64)want); rset0(e.name, x ? x->name : -1); e.detached = x && x->detach == PTHREAD_CREATE_DETACHED;
  size_t stack = x ? x->stack : 0; if (x && (b & 3) == 1) { AM keep = *x; do_aset(*x, b >> 2, b >> 5, b >> 9); (void)keep; } else if (x && (b & 3) == 2) do_adest(*x); // no effect on the thread
  FN("start"); sim_wait_until(started_pred, &e); EXPECT(sim_fiber_stack(e.fib) == (unsigned)stack, "attr", "thread created with stack size %u instead of %llu", sim_fiber_stack(e.fib), (u64)stack);
  if (weak) { u64 m = sim_fiber_aff(e.fib); EXPECT(m && !(m & ~proc()), "affinity", "new thread has affinity %llx of %llx", m, proc()); rset0(e.aff, (i64)m); } else EXPECT(e.aff0 == want, "affinity", "thread created with affinity %llx instead of %llx at its first instruction", e.aff0, want); EXPECT(e.prio0 == osprio(prio), "priority", "thread created with priority %d instead of %d at its first instruction", e.prio0, osprio(prio));
  t_check(j, "create"); label(x ? "created-attr" : "created"); if (x && x->inherit == PTHREAD_INHERIT_SCHED) label("inherit-priority"); if (x && x->name >= 0) label("named-by-attr"); if (x && x->cpus) label("affinity-by-attr"); nontriv();
}
static void do_stale(int j) {
  QW &w = *W; EX &e = w.e[j]; if (!e.used || !e.ended) return; pthread_t id = e.id; int r, pol = 5; struct sched_param sp; sp.sched_priority = 1; cpu_set_t c = cs_of(1); char nm[8] = "q"; label("stale"); nontriv();
#define ST(n, x) r = CALL(n, x); EXPECT(r == ESRCH, "result", #n " of a reclaimed thread returned %s", ename(r))
  ST(pthread_setschedparam, pthread_setschedparam(id, SCHED_OTHER, &sp)); ST(pthread_getschedparam, pthread_getschedparam(id, &pol, &sp)); ST(pthread_setaffinity_np, pthread_setaffinity_np(id, sizeof c, &c)); ST(pthread_getaffinity_np, pthread_getaffinity_np(id, sizeof c, &c)); ST(pthread_setname_np, pthread_setname_np(id, "ghost")); ST(pthread_getname_np, pthread_getname_np(id, nm, sizeof nm)); ST(pthread_kill, pthread_kill(id, 0)); ST(pthread_join, pthread_join(id, 0)); ST(pthread_detach, pthread_detach(id)); ST(pthread_cancel, pthread_cancel(id));
}
static void do_end(int i, int j) {
  QW &w = *W; if (j == 0 || j == i) return; EX &e = w.e[j]; if (!e.used || e.ended) return; int r; void *v = 0; if (e.detached) { r = CALL(pthread_join, pthread_join(e.id, &v)); EXPECT(r == EINVAL, "result", "join of a thread created detached returned %s", ename(r)); label("detached-by-attr"); } else { r = CALL(pthread_tryjoin_np, pthread_tryjoin_np(e.id, &v)); EXPECT(r == EBUSY, "result", "tryjoin of a running thread returned %s", ename(r)); }
  e.stop = 1; if (e.detached) { struct L { static int done(void *x) { return sim_fiber_done(((EX *)x)->fib); } }; FN("end"); sim_wait_until(L::done, &e); } else { r = CALL(pthread_join, pthread_join(e.id, &v)); EXPECT(r == 0 && v == (void *)(size_t)(j + 100), "join", "join returned %s value %p", ename(r), v); }
  e.ended = true; label("ended"); do_stale(j); }
// ------------------------------------------------ scheduling
static void do_prio(int j, int v, int d) {
  QW &w = *W; EX &e = w.e[j]; struct sched_param sp; sp.sched_priority = v; static const int pols[] = {SCHED_OTHER, SCHED_OTHER, SCHED_OTHER, SCHED_OTHER, SCHED_FIFO, SCHED_RR, 17, -3}; int pol = pols[(unsigned)d % 8]; bool ok = pol == SCHED_OTHER && v >= -15 && v <= 15; bool inj = ok && !w.racy && (d >> 3 & 7) == 3; if (inj) sim_fail_prio(1); int k = ok && !inj ? rbegin(e.prio, v) : 0;
  int r = CALL(pthread_setschedparam, pthread_setschedparam(e.id, pol, &sp)); if (inj && !sim_fail_prio(0)) { EXPECT(r != 0, "priority", "setschedparam(%d) succeeded although the system refused", v); label("priority-refused-by-the-system"); t_check(j, "a refused setschedparam"); return; } if (inj) k = rbegin(e.prio, v); if (ok) { EXPECT(r == 0, "result", "setschedparam(%d) returned %s", v, ename(r)); rend(e.prio, k); label("priority-set"); } else if (pol == SCHED_FIFO || pol == SCHED_RR) EXPECT(r == ENOTSUP, "result", "setschedparam(policy %d) returned %s", pol, ename(r)); else EXPECT(r == EINVAL, "result", "setschedparam(policy %d, %d) returned %s", pol, v, ename(r));
  if (!w.racy) t_check(j, "setschedparam"); nontriv(); }
static void do_getp(int j) { EX &e = W->e[j]; struct sched_param sp; int pol = 9, r0 = ++clk; int r = CALL(pthread_getschedparam, pthread_getschedparam(e.id, &pol, &sp)); EXPECT(r == 0 && pol == SCHED_OTHER, "result", "getschedparam %s", ename(r)); i64 v = sp.sched_priority; EXPECT(rok(e.prio, r0, ++clk, eqv, &v), "priority", "thread %d reports priority %lld, which nobody set last", j, v); r = CALL(pthread_getschedparam, pthread_getschedparam(e.id, 0, &sp)); EXPECT(r == EINVAL, "result", "getschedparam without policy returned %s", ename(r)); label("priority-read"); }
static void errno_is(const char *what, int r, int want) { EXPECT(r == -1 && ERRNO == want, "errno", "%s returned %d with errno %s instead of %s", what, r, ename(ERRNO), ename(want)); }
static void do_range(int b) { static const int pols[] = {SCHED_OTHER, SCHED_FIFO, SCHED_RR, 3, -1, 1000}; int p = pols[(unsigned)b % 6]; ERRNO = 0; int mx = CALL(sched_get_priority_max, sched_get_priority_max(p)), e1 = ERRNO; ERRNO = 0; int mn = CALL(sched_get_priority_min, sched_get_priority_min(p)), e2 = ERRNO;
  if (p >= SCHED_OTHER && p <= SCHED_RR) EXPECT(mx == 15 && mn == -15, "priority", "priority range of policy %d is %d..%d", p, mn, mx); else EXPECT(mx == -1 && mn == -1 && e1 == EINVAL && e2 == EINVAL, "errno", "priority range of unknown policy %d: %d..%d errno %s %s", p, mn, mx, ename(e1), ename(e2)); label("range"); }
static void do_sched(int b, int d) { static const int pids[] = {0, SIM_OWN_PID, SIM_OTHER_PID, SIM_DENIED_PID, 4242}; int k = (unsigned)b % 5; int pid = pids[k]; static const int pols[] = {SCHED_OTHER, SCHED_FIFO, SCHED_RR, 9}; int pol = pols[(unsigned)d % 4]; ERRNO = 0; int r = CALL(sched_getscheduler, sched_getscheduler(pid)); if (k < 3) EXPECT(r == SCHED_OTHER, "result", "getscheduler(%d) returned %d", pid, r); else errno_is("getscheduler", r, k == 3 ? EPERM : ESRCH);
  ERRNO = 0; r = CALL(sched_setscheduler, sched_setscheduler(pid, pol)); if (k >= 3) errno_is("setscheduler", r, k == 3 ? EPERM : ESRCH); else if (pol == SCHED_OTHER) EXPECT(r == SCHED_OTHER, "result", "setscheduler returned %d", r); else errno_is("setscheduler", r, ENOSYS); label("scheduler"); }
static void do_conc(int b) { QW &w = *W; { errno = 0; struct timespec ti = {7, 7}; int q = sched_rr_get_interval(0, &ti); EXPECT(q == -1 && errno == ENOTSUP, "result", "sched_rr_get_interval gave %d with %s", q, ename(errno)); } int v = (unsigned)b % 5 == 0 ? -1 : (unsigned)b % 5 == 1 ? (int)0x80000000 : b % 1000; int r = CALL(pthread_setconcurrency, pthread_setconcurrency(v)); if (v < 0) EXPECT(r == EINVAL, "result", "setconcurrency(%d) returned %s", v, ename(r)); else { EXPECT(r == 0, "result", "setconcurrency %s", ename(r)); w.conc = v; } r = CALL(pthread_getconcurrency, pthread_getconcurrency()); EXPECT(r == w.conc, "attr", "concurrency is %d instead of %d", r, w.conc); int n = CALL(pthread_num_processors_np, pthread_num_processors_np()); EXPECT(n == __builtin_popcountll(proc()), "result", "num_processors %d", n); label("concurrency"); }
// ------------------------------------------------ processors
static void do_aff(int j, int b, int d) {
  QW &w = *W; EX &e = w.e[j]; int r; if (b % 41 == 0) { r = CALL(pthread_setaffinity_np, pthread_setaffinity_np(e.id, sizeof(cpu_set_t), 0)); EXPECT(r == EFAULT, "result", "setaffinity without a set returned %s", ename(r)); r = CALL(pthread_getaffinity_np, pthread_getaffinity_np(e.id, sizeof(cpu_set_t), 0)); EXPECT(r == EFAULT, "result", "getaffinity without a set returned %s", ename(r)); return; }
  u64 m = mask_of(b, d), t = m & proc(); cpu_set_t c = cs_of(m); int k = t ? rbegin(e.aff, (i64)t) : 0; r = CALL(pthread_setaffinity_np, pthread_setaffinity_np(e.id, sizeof c, &c)); EXPECT(r == (t ? 0 : EINVAL), "result", "setaffinity(%llx) with %llx available returned %s", m, proc(), ename(r)); if (t) { rend(e.aff, k); e.affweak = false; label(t == m ? "affinity-set" : "affinity-clipped"); } else label("affinity-refused"); EXPECT(of_cs(c) == m, "affinity", "setaffinity changed its argument"); if (!w.racy) { EXPECT(sim_fiber_aff(e.fib) == (t ? t : (u64)rlast(e.aff)), "affinity", "after setaffinity(%llx) thread %d has %llx", m, j, (u64)sim_fiber_aff(e.fib)); t_check(j, "setaffinity"); } nontriv(); }
static void do_getaff(int j) { QW &w = *W; EX &e = w.e[j]; cpu_set_t c; int r0 = ++clk; int r = CALL(pthread_getaffinity_np, pthread_getaffinity_np(e.id, sizeof c, &c)); EXPECT(r == 0, "result", "getaffinity %s", ename(r)); i64 m = (i64)of_cs(c); EXPECT(rok(e.aff, r0, ++clk, eqv, &m), "affinity", "thread %d reports affinity %llx, last set %llx", j, (u64)m, (u64)rlast(e.aff)); e.affweak = false; label("affinity-read"); }
static void do_paff(int b, int d) {
  QW &w = *W; static const int pids[] = {0, SIM_OWN_PID, SIM_OTHER_PID, SIM_DENIED_PID, 4242}; int k = (unsigned)b % 5, pid = pids[k]; u64 sys = w.p->ncpu >= 64 ? ~0ull : (1ull << w.p->ncpu) - 1; u64 m = mask_of(b >> 3, d), t = m & sys; cpu_set_t c = cs_of(m), g; ERRNO = 0; bool nul = b % 37 == 0; u64 op = proc(), oo = sim_other_proc_mask();
  int r = CALL(sched_setaffinity, sched_setaffinity(pid, sizeof c, nul ? 0 : &c)); if (nul) errno_is("sched_setaffinity without a set", r, EFAULT); else if (k >= 3) errno_is("sched_setaffinity", r, k == 3 ? EPERM : ESRCH); else if (!t) errno_is("sched_setaffinity of no available processor", r, EINVAL); else EXPECT(r == 0, "result", "sched_setaffinity(%llx) returned %d errno %s", m, r, ename(ERRNO));
  bool ok = r == 0; if (ok && k < 2) { op = t; for (int j = 0; j < w.ne; j++) if (w.e[j].used && !w.e[j].ended) { rset0(w.e[j].aff, (i64)t); w.e[j].affweak = true; } } if (ok && k == 2) oo = t; EXPECT(proc() == op && sim_other_proc_mask() == oo, "affinity", "sched_setaffinity(%d, %llx): process masks are now %llx and %llx instead of %llx and %llx", pid, m, proc(), (u64)sim_other_proc_mask(), op, oo);
  if (k < 3) { r = CALL(sched_getaffinity, sched_getaffinity(pid, sizeof g, &g)); EXPECT(r == 0 && of_cs(g) == (k == 2 ? oo : op), "affinity", "sched_getaffinity(%d) gives %llx instead of %llx", pid, of_cs(g), k == 2 ? oo : op); } else { ERRNO = 0; g = cs_of(5); r = CALL(sched_getaffinity, sched_getaffinity(pid, sizeof g, &g)); errno_is("sched_getaffinity", r, k == 3 ? EPERM : ESRCH); EXPECT(of_cs(g) == 5, "affinity", "a failed sched_getaffinity changed the set"); }
  ERRNO = 0; r = CALL(sched_getaffinity, sched_getaffinity(0, sizeof g, 0)); errno_is("sched_getaffinity without a set", r, EFAULT); label(ok ? "process-affinity-set" : "process-affinity-refused"); nontriv(); }
static void do_alg(int b, int d) {
  Rng r((u64)(unsigned)b << 32 | (unsigned)d); u64 x = r.next(), y = r.next(); if (b % 3 == 0) { x &= 15; y &= 15; } if (b % 7 == 0) y = x; if (b % 11 == 0) x = ~0ull; cpu_set_t a = cs_of(x), c = cs_of(y), z; memset(&z, 0x77, sizeof z); 
#define AL(cond, n) EXPECT(cond, "cpuset", n " is wrong for %llx %llx", x, y)
  AL(of_cs(a) == x && of_cs(c) == y, "CPU_SET/CPU_ISSET"); AL(CPU_COUNT(&a) == __builtin_popcountll(x), "CPU_COUNT"); AL(!!CPU_EQUAL(&a, &c) == (x == y), "CPU_EQUAL"); AL(CPU_EQUAL(&a, &a), "CPU_EQUAL"); CPU_AND(&z, &a, &c); AL(of_cs(z) == (x & y), "CPU_AND"); CPU_OR(&z, &a, &c); AL(of_cs(z) == (x | y), "CPU_OR"); CPU_XOR(&z, &a, &c); AL(of_cs(z) == (x ^ y), "CPU_XOR");
  int cpu = (unsigned)d % 64; z = a; CPU_CLR(cpu, &z); AL(of_cs(z) == (x & ~(1ull << cpu)), "CPU_CLR"); CPU_SET(cpu, &z); AL(of_cs(z) == (x | 1ull << cpu), "CPU_SET"); z = a; CPU_AND(&z, &z, &c); AL(of_cs(z) == (x & y), "CPU_AND in place"); z = a; CPU_OR(&z, &c, &z); AL(of_cs(z) == (x | y), "CPU_OR in place"); z = a; CPU_XOR(&z, &z, &z); AL(of_cs(z) == 0, "CPU_XOR in place"); AL(of_cs(a) == x && of_cs(c) == y, "an operand"); CPU_ZERO(&z); AL(of_cs(z) == 0 && CPU_COUNT(&z) == 0, "CPU_ZERO"); AL((int)CPU_SETSIZE == 64, "CPU_SETSIZE"); label("set-algebra"); nontriv(); }
// ------------------------------------------------ names
static void do_name(int j, int b) { QW &w = *W; EX &e = w.e[j]; char nm[400]; b &= 0x7fffffff; mkname(b, nm); char *s = (char *)sim_umalloc(strlen(nm) + 1); strcpy(s, nm); int k = rbegin(e.name, b); int r = CALL(pthread_setname_np, pthread_setname_np(e.id, s)); memset(s, '?', strlen(nm)); sim_ufree(s); EXPECT(r == 0, "result", "setname_np returned %s", ename(r)); rend(e.name, k); if (!w.racy) t_check(j, "setname_np"); label("name-set"); nontriv(); }
static void do_getname(int j, int b) { EX &e = W->e[j]; int len = (unsigned)b % 3 == 0 ? (int)((unsigned)b % 5) : (int)((unsigned)b % 64); char *buf = (char *)sim_umalloc(len + 4), *s = buf + 4; *(int *)buf = len; memset(s, 'Q', len); int r0 = ++clk; int r = CALL(pthread_getname_np, pthread_getname_np(e.id, s, len)); int r1 = ++clk;
  if (len == 0) { label("empty-buffer"); EXPECT(r == EINVAL || r == ERANGE || r == 0, "result", "getname_np into nothing returned %s", ename(r)); } else { EXPECT(r == 0, "result", "getname_np returned %s", ename(r)); EXPECT(rok(e.name, r0, r1, eqname, s), "name", "thread %d: getname_np into %d bytes gave \"%.*s\"", j, len, len, s); } sim_ufree(buf); label(e.name.n == 1 && e.name.w[0].v < 0 ? "unnamed-read" : "name-read"); if (e.name.n > 1) nontriv(); }
// ------------------------------------------------ attribute objects of the other objects
static int o_init(int k, void *a) { switch (k) { case 0: return CALL(pthread_mutexattr_init, pthread_mutexattr_init((pthread_mutexattr_t *)a)); case 1: return CALL(pthread_condattr_init, pthread_condattr_init((pthread_condattr_t *)a)); case 2: return CALL(pthread_rwlockattr_init, pthread_rwlockattr_init((pthread_rwlockattr_t *)a)); } return CALL(pthread_barrierattr_init, pthread_barrierattr_init((pthread_barrierattr_t *)a)); }
static int o_dest(int k, void *a) { switch (k) { case 0: return CALL(pthread_mutexattr_destroy, pthread_mutexattr_destroy((pthread_mutexattr_t *)a)); case 1: return CALL(pthread_condattr_destroy, pthread_condattr_destroy((pthread_condattr_t *)a)); case 2: return CALL(pthread_rwlockattr_destroy, pthread_rwlockattr_destroy((pthread_rwlockattr_t *)a)); } return CALL(pthread_barrierattr_destroy, pthread_barrierattr_destroy((pthread_barrierattr_t *)a)); }
static int o_setp(int k, void *a, int v) { switch (k) { case 0: return CALL(pthread_mutexattr_setpshared, pthread_mutexattr_setpshared((pthread_mutexattr_t *)a, v)); case 1: return CALL(pthread_condattr_setpshared, pthread_condattr_setpshared((pthread_condattr_t *)a, v)); case 2: return CALL(pthread_rwlockattr_setpshared, pthread_rwlockattr_setpshared((pthread_rwlockattr_t *)a, v)); } return CALL(pthread_barrierattr_setpshared, pthread_barrierattr_setpshared((pthread_barrierattr_t *)a, v)); }
static int o_getp(int k, void *a, int *v) { switch (k) { case 0: return CALL(pthread_mutexattr_getpshared, pthread_mutexattr_getpshared((pthread_mutexattr_t *)a, v)); case 1: return CALL(pthread_condattr_getpshared, pthread_condattr_getpshared((pthread_condattr_t *)a, v)); case 2: return CALL(pthread_rwlockattr_getpshared, pthread_rwlockattr_getpshared((pthread_rwlockattr_t *)a, v)); } return CALL(pthread_barrierattr_getpshared, pthread_barrierattr_getpshared((pthread_barrierattr_t *)a, v)); }
static const char *const okind[] = {"mutexattr", "condattr", "rwlockattr", "barrierattr"};
static void o_check(int k, OM &x) { int v = -9, r; r = o_getp(k, x.a, &v); EXPECT(r == 0 && v == x.pshared, "attr", "%s: pshared is %d instead of %d (%s)", okind[k], v, x.pshared, ename(r)); if (k) return; pthread_mutexattr_t *a = (pthread_mutexattr_t *)x.a; r = CALL(pthread_mutexattr_gettype, pthread_mutexattr_gettype(a, &v)); EXPECT(r == 0 && v == x.type, "attr", "mutex type is %d instead of %d", v, x.type); r = CALL(pthread_mutexattr_getrobust, pthread_mutexattr_getrobust(a, &v)); EXPECT(r == 0 && v == x.robust, "attr", "mutex robustness is %d instead of %d", v, x.robust); r = CALL(pthread_mutexattr_getkind_np, pthread_mutexattr_getkind_np(a, &v)); EXPECT(r == 0 && v == x.type, "attr", "mutex kind is %d instead of %d", v, x.type); }
static void o_rejects(int k, void *a, const char *what) { int v = 7, r; 
#define OJ(n, e) r = e; EXPECT(r == EINVAL, "result", "%s_" n " of %s object returned %s", okind[k], what, ename(r))
  OJ("destroy", o_dest(k, a)); OJ("getpshared", o_getp(k, a, &v)); OJ("setpshared", o_setp(k, a, PTHREAD_PROCESS_PRIVATE)); EXPECT(v == 7, "attr", "a refused get wrote"); if (k == 0) { pthread_mutexattr_t *m = (pthread_mutexattr_t *)a; OJ("gettype", CALL(pthread_mutexattr_gettype, pthread_mutexattr_gettype(m, &v))); OJ("settype", CALL(pthread_mutexattr_settype, pthread_mutexattr_settype(m, PTHREAD_MUTEX_NORMAL))); OJ("getrobust", CALL(pthread_mutexattr_getrobust, pthread_mutexattr_getrobust(m, &v))); OJ("setrobust", CALL(pthread_mutexattr_setrobust, pthread_mutexattr_setrobust(m, PTHREAD_MUTEX_ROBUST))); OJ("getkind", CALL(pthread_mutexattr_getkind_np, pthread_mutexattr_getkind_np(m, &v))); OJ("setkind", CALL(pthread_mutexattr_setkind_np, pthread_mutexattr_setkind_np(m, PTHREAD_MUTEX_NORMAL))); } label("rejected"); }
static void do_oinit(int k, OM &x) { if (x.valid) return; memset(x.a, 0x6b, 8); int r = o_init(k, x.a); EXPECT(r == 0, "result", "%s_init %s", okind[k], ename(r)); x.valid = true; x.type = PTHREAD_MUTEX_DEFAULT; x.robust = PTHREAD_MUTEX_STALLED; x.pshared = PTHREAD_PROCESS_PRIVATE; o_check(k, x); label("objattr-init"); }
static void do_odest(int k, OM &x) { if (!x.valid) return; int r = o_dest(k, x.a); EXPECT(r == 0, "result", "%s_destroy %s", okind[k], ename(r)); x.valid = false; o_rejects(k, x.a, "a destroyed"); }
static void do_oset(int k, OM &x, int b, int d) { if (!x.valid) do_oinit(k, x); int r; static const int odd[] = {0, 1, 2, 3, -1, 44}; int v = odd[(unsigned)b % 6]; pthread_mutexattr_t *m = (pthread_mutexattr_t *)x.a; int which = k ? 0 : (unsigned)d % 4;
  if (which == 0) { r = o_setp(k, x.a, v); if (v == 0 || v == 1) { EXPECT(r == 0 || (v == PTHREAD_PROCESS_SHARED && (r == ENOSYS || r == ENOTSUP)), "result", "%s_setpshared(%d) returned %s", okind[k], v, ename(r)); if (r == 0) x.pshared = v; } else EXPECT(r == EINVAL, "result", "%s_setpshared(%d) returned %s", okind[k], v, ename(r)); }
  else if (which == 3) { r = CALL(pthread_mutexattr_setrobust, pthread_mutexattr_setrobust(m, v)); if (v == PTHREAD_MUTEX_STALLED || v == PTHREAD_MUTEX_ROBUST) { EXPECT(r == 0, "result", "setrobust(%d) returned %s", v, ename(r)); x.robust = v; } else EXPECT(r == EINVAL, "result", "setrobust(%d) returned %s", v, ename(r)); }
  else { r = which == 1 ? CALL(pthread_mutexattr_settype, pthread_mutexattr_settype(m, v)) : CALL(pthread_mutexattr_setkind_np, pthread_mutexattr_setkind_np(m, v)); if (v >= 0 && v <= 2) { EXPECT(r == 0, "result", "settype(%d) returned %s", v, ename(r)); x.type = v; } else EXPECT(r == EINVAL, "result", "settype(%d) returned %s", v, ename(r)); }
  o_check(k, x); label("objattr-set"); nontriv(); }
static void do_obad(int k, OM &x) { const char *what = "a valid"; o_rejects(k, 0, "a null"); if (!x.valid) return; int r; OJ("getpshared", o_getp(k, x.a, 0)); if (k == 0) { OJ("gettype", pthread_mutexattr_gettype((pthread_mutexattr_t *)x.a, 0)); OJ("getrobust", pthread_mutexattr_getrobust((pthread_mutexattr_t *)x.a, 0)); } o_check(k, x); label("objattr-bad"); }
static pthread_mutex_t *victim; static void *die_locking(void *) { int r = CALL(pthread_mutex_lock, pthread_mutex_lock(victim)); EXPECT(r == 0, "result", "lock %s", ename(r)); return 0; }
static void probe(MXO &x) { // a mutex behaves by its attributes at the time it was made
  int r; if (!x.made) return; pthread_mutex_t *m = x.m; r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m)); if (x.type != PTHREAD_MUTEX_NORMAL || x.robust) EXPECT(r == EPERM, "result", "unlock of a free mutex of type %d returned %s", x.type, ename(r)); else EXPECT(r == 0 || r == EPERM, "result", "unlock of a free mutex returned %s", ename(r));
  if (x.type == PTHREAD_MUTEX_NORMAL && !x.robust) { r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(m)); EXPECT(r == 0, "result", "trylock of a free mutex returned %s", ename(r)); } else { r = CALL(pthread_mutex_lock, pthread_mutex_lock(m)); EXPECT(r == 0, "result", "lock of a free mutex returned %s", ename(r)); }
  r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(m)); EXPECT(r == (x.type == PTHREAD_MUTEX_RECURSIVE ? 0 : EBUSY), "attr", "trylock of an owned mutex of type %d returned %s", x.type, ename(r)); if (r == 0) { r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m)); EXPECT(r == 0, "result", "unlock %s", ename(r)); }
  if (x.type == PTHREAD_MUTEX_ERRORCHECK) { r = CALL(pthread_mutex_lock, pthread_mutex_lock(m)); EXPECT(r == EDEADLK, "attr", "relock of an error-checking mutex returned %s", ename(r)); } else if (x.type == PTHREAD_MUTEX_NORMAL) { struct timespec t = ts_of((i64)sim_now()); r = CALL(pthread_mutex_timedlock, pthread_mutex_timedlock(m, &t)); EXPECT(r == ETIMEDOUT, "attr", "timed relock of a normal mutex returned %s", ename(r)); }
  r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m)); EXPECT(r == 0, "result", "unlock %s", ename(r)); r = CALL(pthread_mutex_consistent, pthread_mutex_consistent(m)); EXPECT(r == EINVAL, "result", "pthread_mutex_consistent of a consistent mutex returned %s", ename(r));
  if (x.robust) { victim = m; pthread_t t; r = CALL(pthread_create, pthread_create(&t, 0, die_locking, 0)); EXPECT(r == 0, "result", "create %s", ename(r)); r = CALL(pthread_join, pthread_join(t, 0)); EXPECT(r == 0, "result", "join %s", ename(r)); r = CALL(pthread_mutex_trylock, pthread_mutex_trylock(m)); EXPECT(r == EOWNERDEAD, "attr", "trylock of a robust mutex whose owner died returned %s", ename(r)); r = CALL(pthread_mutex_consistent, pthread_mutex_consistent(m)); EXPECT(r == 0, "result", "consistent %s", ename(r)); r = CALL(pthread_mutex_unlock, pthread_mutex_unlock(m)); EXPECT(r == 0, "result", "unlock %s", ename(r)); label("robust-probe"); }
  label("probe"); nontriv(); }
static void do_make(int k, OM &x, MXO &y, int d) { int r; bool shared = x.valid && x.pshared == PTHREAD_PROCESS_SHARED; 
  if (k == 0) { if (y.made) { r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(y.m)); EXPECT(r == 0, "result", "mutex_destroy %s", ename(r)); y.made = false; } memset((void *)y.m, 0x33, sizeof *y.m); r = CALL(pthread_mutex_init, pthread_mutex_init(y.m, x.valid ? (pthread_mutexattr_t *)x.a : 0)); if (shared) { EXPECT(r == ENOSYS || r == ENOTSUP, "result", "mutex_init with a process shared attribute returned %s", ename(r)); return; } EXPECT(r == 0, "result", "mutex_init %s", ename(r)); y.made = true; y.type = x.valid ? x.type : PTHREAD_MUTEX_DEFAULT; y.robust = x.valid && x.robust == PTHREAD_MUTEX_ROBUST; if (d & 1) do_odest(k, x); probe(y); }
  else if (k == 1) { pthread_cond_t c; r = CALL(pthread_cond_init, pthread_cond_init(&c, x.valid ? (pthread_condattr_t *)x.a : 0)); if (shared) EXPECT(r == ENOSYS || r == ENOTSUP, "result", "cond_init with a process shared attribute returned %s", ename(r)); else { EXPECT(r == 0, "result", "cond_init %s", ename(r)); if (d & 1) do_odest(k, x); r = CALL(pthread_cond_signal, pthread_cond_signal(&c)); EXPECT(r == 0, "result", "signal %s", ename(r)); r = CALL(pthread_cond_destroy, pthread_cond_destroy(&c)); EXPECT(r == 0, "result", "cond_destroy %s", ename(r)); } }
  else if (k == 2) { pthread_rwlock_t c; r = CALL(pthread_rwlock_init, pthread_rwlock_init(&c, x.valid ? (pthread_rwlockattr_t *)x.a : 0)); EXPECT(r == 0 || (shared && (r == ENOSYS || r == ENOTSUP || r == EINVAL)), "result", "rwlock_init %s", ename(r)); if (r == 0) { if (d & 1) do_odest(k, x); r = CALL(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&c)); EXPECT(r == 0, "result", "rdlock %s", ename(r)); r = CALL(pthread_rwlock_unlock, pthread_rwlock_unlock(&c)); EXPECT(r == 0, "result", "unlock %s", ename(r)); r = CALL(pthread_rwlock_destroy, pthread_rwlock_destroy(&c)); EXPECT(r == 0, "result", "rwlock_destroy %s", ename(r)); } }
  else { pthread_barrier_t c; r = CALL(pthread_barrier_init, pthread_barrier_init(&c, x.valid ? (pthread_barrierattr_t *)x.a : 0, 1)); if (shared && r) { EXPECT(r == ENOSYS || r == ENOTSUP || r == EPERM || r == ENOMEM, "result", "barrier_init %s", ename(r)); } else { EXPECT(r == 0, "result", "barrier_init %s", ename(r)); if (d & 1) do_odest(k, x); r = CALL(pthread_barrier_wait, pthread_barrier_wait(&c)); EXPECT(r == PTHREAD_BARRIER_SERIAL_THREAD, "result", "barrier_wait %s", ename(r)); r = CALL(pthread_barrier_destroy, pthread_barrier_destroy(&c)); EXPECT(r == 0, "result", "barrier_destroy %s", ename(r)); } }
  label("object-made"); nontriv(); }
// ------------------------------------------------ time
static void jump(int b) { // another date
  static const i64 years[] = {0, 1, 30, 67, 68, 69, 135, 136, 137, 291, 292, 293, 500, 1000, 9000, 25000}; unsigned u = (unsigned)b; i64 t = EPOCH + years[u % 16] * 315576000000000LL + (i64)(u / 16 % 1000003) * 9999991LL + (u & 7); if (u % 5 == 0) t = t / 10000000 * 10000000 + (u % 3 ? 9999999 : 0); if (t < EPOCH) t = EPOCH; sim_set_time((u64)t); label("date-set"); }
static void do_abs(int b, int d) {
  i64 t0 = (i64)sim_now(); struct timespec a, rel; memset(&a, 0x7e, sizeof a); rel.tv_sec = b % 7 == 0 ? 0 : b % 5 == 0 ? (unsigned)b : (unsigned)b % 100; rel.tv_nsec = (int)((unsigned)d % 1000000000u); if (d % 9 == 0) rel.tv_nsec = 999999999; if (d % 13 == 0) rel.tv_nsec = 0; if (d % 11 == 0) { i64 ns = (t0 - EPOCH) % 10000000 * 100, c = 1000000000 - ns + ((unsigned)d / 11 % 5 - 2) * 100; rel.tv_nsec = (int)(c < 0 ? 0 : c > 999999999 ? 999999999 : c); label("abstime-at-the-second"); } bool nul = b % 6 == 0; struct timespec *p = CALL(pthread_win32_getabstime_np, pthread_win32_getabstime_np(&a, nul ? 0 : &rel)); i64 t1 = (i64)sim_now(); EXPECT(p == &a, "time", "getabstime returned another pointer"); EXPECT(a.tv_nsec >= 0 && a.tv_nsec < 1000000000, "time", "getabstime: nanoseconds %ld", (long)a.tv_nsec);
  __int128 v = (__int128)a.tv_sec * 1000000000 + a.tv_nsec, ri = nul ? 0 : (__int128)rel.tv_sec * 1000000000 + rel.tv_nsec, lo = (__int128)(t0 - EPOCH) * 100 + ri, hi = (__int128)(t1 - EPOCH) * 100 + ri; EXPECT(v >= lo && v <= hi, "time", "getabstime gave %lld.%09ld for now %lld.%07lld plus %lld.%09ld", (i64)a.tv_sec, (long)a.tv_nsec, (t0 - EPOCH) / 10000000, (t0 - EPOCH) % 10000000, nul ? 0 : (i64)rel.tv_sec, nul ? 0L : (long)rel.tv_nsec); label("abstime"); nontriv(); }
static void do_delay(int b, int d) {
  struct timespec ts; static const i64 secs[] = {0, 0, 0, 1, 2, 59, 3600, 86400, 2147483, 2147484, 4294967, 4294968, 42949672, 429496729, 4294967296LL, -1, -2, -2147483, 0x7fffffffffffffffLL, 9223372036854775LL}; static const int ns[] = {0, 1, 99, 100, 999999, 1000000, 1000001, 999000001, 999999999, 1000000000, -1, -1000000, 2147483647, (int)0x80000000}; ts.tv_sec = secs[(unsigned)b % 20]; ts.tv_nsec = ns[(unsigned)d % 14]; if (d & 1024) ts.tv_nsec = (int)((unsigned)d % 1000000000u);
  bool bad = ts.tv_sec < 0 || ts.tv_nsec < 0 || ts.tv_nsec > 999999999, longish = ts.tv_sec >= 2147483; i64 t0 = (i64)sim_now(); bool dis = d & 2048; int st; if (dis) CALL(pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st));
  int r = CALL(pthread_delay_np, pthread_delay_np(&ts)); i64 t1 = (i64)sim_now(); if (dis) CALL(pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, 0));
  if (bad) { EXPECT(r == EINVAL, "time", "delay of %lld s %ld ns returned %s", (i64)ts.tv_sec, (long)ts.tv_nsec, ename(r)); EXPECT(t1 - t0 <= W->slack, "time", "a refused delay took %lld ms", (t1 - t0) / MS); label("delay-malformed"); }
  else if (longish && r == EINVAL) { EXPECT(t1 - t0 <= W->slack, "time", "a refused delay took %lld ms", (t1 - t0) / MS); label("delay-too-long"); }
  else { EXPECT(r == 0, "result", "delay of %lld s %ld ns returned %s", (i64)ts.tv_sec, (long)ts.tv_nsec, ename(r)); __int128 want = (__int128)ts.tv_sec * 10000000 + (ts.tv_nsec + 99) / 100; EXPECT((__int128)(t1 - t0) >= want, "time", "delay of %lld s %ld ns took only %lld ns", (i64)ts.tv_sec, (long)ts.tv_nsec, (t1 - t0) * 100); EXPECT((__int128)(t1 - t0) <= want + W->slack, "time", "delay of %lld s %ld ns took %lld ns", (i64)ts.tv_sec, (long)ts.tv_nsec, (t1 - t0) * 100); label("delay"); }
  r = CALL(pthread_delay_np, pthread_delay_np(0)); EXPECT(r == EINVAL, "result", "delay(NULL) returned %s", ename(r)); nontriv(); }
static void do_timed(int i, int b, int d) { // each timed operation on something unavailable, from an arbitrary date
  QW &w = *W; static const i64 rels[] = {0, 1, 9999, 10000, 10001, 12345, 9999999, 10000000, 36000000000LL, 864000000000LL, 42949000000000LL, -1, -10000, -10000000, -99999999999LL, 5, 250000, 1000000, 42984000000000LL, 51840000000000LL, 172800000000000LL, 50000000000000000LL}; i64 rel = rels[(unsigned)d % 22]; i64 t0 = (i64)sim_now(), abs = t0 + rel; if (abs < EPOCH) abs = EPOCH; struct timespec ts = ts_of(abs); int r = 0; bool zero = d % 97 == 0; if (zero) { ts.tv_sec = 0; ts.tv_nsec = 0; abs = EPOCH; } int kind = (unsigned)b % 8; int e; if (kind > 5 && rel > 42949000000000LL) rel = 42949000000000LL; bool far_ = rel > 42949000000000LL && !zero; bool free_ = (b >> 4 & 7) == 0; // available: must succeed even when late
  switch (kind) {
  case 0: { sem_t s; r = CALL(sem_init, sem_init(&s, 0, free_)); EXPECT(r == 0, "result", "sem_init"); ERRNO = 0; r = CALL(sem_timedwait, sem_timedwait(&s, &ts)); if (r) r = ERRNO; e = CALL(sem_destroy, sem_destroy(&s)); EXPECT(e == 0, "result", "sem_destroy"); break; }
  case 1: { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; if (!free_) { e = CALL(pthread_mutex_lock, pthread_mutex_lock(&m)); EXPECT(e == 0, "result", "lock"); } r = CALL(pthread_mutex_timedlock, pthread_mutex_timedlock(&m, &ts)); e = CALL(pthread_mutex_unlock, pthread_mutex_unlock(&m)); EXPECT(e == 0, "result", "unlock"); e = CALL(pthread_mutex_destroy, pthread_mutex_destroy(&m)); EXPECT(e == 0, "result", "destroy %s", ename(e)); break; }
  case 2: { free_ = false; pthread_mutex_t m = PTHREAD_RECURSIVE_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; e = CALL(pthread_mutex_lock, pthread_mutex_lock(&m)); EXPECT(e == 0, "result", "lock"); r = CALL(pthread_cond_timedwait, pthread_cond_timedwait(&c, &m, &ts)); e = CALL(pthread_mutex_unlock, pthread_mutex_unlock(&m)); EXPECT(e == 0, "result", "unlock after cond_timedwait %s", ename(e)); e = CALL(pthread_cond_destroy, pthread_cond_destroy(&c)); EXPECT(e == 0, "result", "cond_destroy %s", ename(e)); CALL(pthread_mutex_destroy, pthread_mutex_destroy(&m)); break; }
  case 3: case 4: { pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER; if (!free_) { e = kind == 3 ? CALL(pthread_rwlock_wrlock, pthread_rwlock_wrlock(&l)) : CALL(pthread_rwlock_rdlock, pthread_rwlock_rdlock(&l)); EXPECT(e == 0, "result", "rwlock"); } r = kind == 3 ? CALL(pthread_rwlock_timedrdlock, pthread_rwlock_timedrdlock(&l, &ts)) : CALL(pthread_rwlock_timedwrlock, pthread_rwlock_timedwrlock(&l, &ts)); e = CALL(pthread_rwlock_unlock, pthread_rwlock_unlock(&l)); EXPECT(e == 0, "result", "rwlock unlock %s", ename(e)); e = CALL(pthread_rwlock_destroy, pthread_rwlock_destroy(&l)); EXPECT(e == 0, "result", "rwlock_destroy %s", ename(e)); break; }
  case 5: { int j = pick(b >> 8); if (j == 0 || j == i || w.e[j].detached) return; free_ = false; void *v; r = CALL(pthread_timedjoin_np, pthread_timedjoin_np(w.e[j].id, &v, &ts)); break; }
  default: { HANDLE h = CreateEvent(0, TRUE, free_, 0); DWORD ms = rel < 0 ? 0 : (DWORD)((rel + MS - 1) / MS); t0 = (i64)sim_now(); abs = t0 + (rel < 0 ? 0 : rel); r = CALL(pthreadCancelableTimedWait, pthreadCancelableTimedWait(h, ms)); CloseHandle(h); break; } }
  i64 t1 = (i64)sim_now(); if (free_) { EXPECT(r == 0, "time", "%s on something available returned %s", fstate[sim_cur()].fn, ename(r)); EXPECT(t1 - t0 <= w.slack, "time", "timed operation %d on something available took %lld ms", kind, (t1 - t0) / MS); label("timed-available"); return; }
  EXPECT(r == ETIMEDOUT, "time", "timed operation %d returned %s", kind, ename(r)); if (far_) label("timed-far"); EXPECT(t1 >= abs || (far_ && t1 - t0 >= 4294967294LL * MS), "early-timeout", "timed operation %d timed out %lld ns early (%lld.%09ld)", kind, (abs - t1) * 100, (i64)ts.tv_sec, (long)ts.tv_nsec); EXPECT(t1 <= (abs > t0 ? abs : t0) + w.slack, "unbounded", "timed operation %d timed out %lld ms late", kind, (t1 - (abs > t0 ? abs : t0)) / MS); label(abs <= t0 ? "timed-past" : "timed-out"); nontriv(); }
// ------------------------------------------------ invalid arguments
static void nop(void *) {}
static void do_bad(int i, int b) {
  int r; struct timespec ts = ts_of((i64)sim_now() + MS); 
#define BD(want, n, e) r = CALL(n, e); EXPECT(r == want, "result", #e " returned %s instead of %s", ename(r), ename(want))
#define BE(want, n, e) ERRNO = 0; r = CALL(n, e); EXPECT(r == -1 && ERRNO == want, "errno", #e " returned %d errno %s instead of %s", r, ename(ERRNO), ename(want))
  switch ((unsigned)b % 9) {
  case 0: { pthread_mutex_t m; BD(EINVAL, pthread_mutex_init, pthread_mutex_init(0, 0)); r = CALL(pthread_mutex_init, pthread_mutex_init(&m, 0)); EXPECT(r == 0, "result", "init"); r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(&m)); EXPECT(r == 0, "result", "destroy");
    BD(EINVAL, pthread_mutex_lock, pthread_mutex_lock(&m)); BD(EINVAL, pthread_mutex_trylock, pthread_mutex_trylock(&m)); BD(EINVAL, pthread_mutex_timedlock, pthread_mutex_timedlock(&m, &ts)); BD(EINVAL, pthread_mutex_unlock, pthread_mutex_unlock(&m)); BD(EINVAL, pthread_mutex_destroy, pthread_mutex_destroy(&m)); BD(EINVAL, pthread_mutex_consistent, pthread_mutex_consistent(&m)); r = CALL(pthread_mutex_init, pthread_mutex_init(&m, 0)); EXPECT(r == 0, "result", "init again"); BD(0, pthread_mutex_lock, pthread_mutex_lock(&m)); BD(EBUSY, pthread_mutex_destroy, pthread_mutex_destroy(&m)); BD(0, pthread_mutex_unlock, pthread_mutex_unlock(&m)); BD(0, pthread_mutex_destroy, pthread_mutex_destroy(&m)); break; }
  case 1: { pthread_cond_t c; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; BD(EINVAL, pthread_cond_init, pthread_cond_init(0, 0)); BD(EINVAL, pthread_cond_destroy, pthread_cond_destroy(0)); BD(EINVAL, pthread_cond_signal, pthread_cond_signal(0)); BD(EINVAL, pthread_cond_broadcast, pthread_cond_broadcast(0)); r = CALL(pthread_cond_init, pthread_cond_init(&c, 0)); EXPECT(r == 0, "result", "init"); BD(EINVAL, pthread_cond_timedwait, pthread_cond_timedwait(&c, &m, 0)); BD(0, pthread_cond_destroy, pthread_cond_destroy(&c)); BD(EINVAL, pthread_cond_destroy, pthread_cond_destroy(&c)); BD(EINVAL, pthread_cond_signal, pthread_cond_signal(&c)); BD(EINVAL, pthread_cond_broadcast, pthread_cond_broadcast(&c));
    BD(0, pthread_mutex_lock, pthread_mutex_lock(&m)); BD(EINVAL, pthread_cond_wait, pthread_cond_wait(&c, &m)); BD(EINVAL, pthread_cond_timedwait, pthread_cond_timedwait(&c, &m, &ts)); BD(EBUSY, pthread_mutex_trylock, pthread_mutex_trylock(&m)); BD(0, pthread_mutex_unlock, pthread_mutex_unlock(&m)); BD(0, pthread_mutex_destroy, pthread_mutex_destroy(&m)); BD(0, pthread_cond_init, pthread_cond_init(&c, 0)); BD(0, pthread_cond_signal, pthread_cond_signal(&c)); BD(0, pthread_cond_destroy, pthread_cond_destroy(&c)); break; }
  case 2: { pthread_rwlock_t l; BD(EINVAL, pthread_rwlock_init, pthread_rwlock_init(0, 0)); 
#define RWALL(p) BD(EINVAL, pthread_rwlock_rdlock, pthread_rwlock_rdlock(p)); BD(EINVAL, pthread_rwlock_wrlock, pthread_rwlock_wrlock(p)); BD(EINVAL, pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(p)); BD(EINVAL, pthread_rwlock_trywrlock, pthread_rwlock_trywrlock(p)); BD(EINVAL, pthread_rwlock_timedrdlock, pthread_rwlock_timedrdlock(p, &ts)); BD(EINVAL, pthread_rwlock_timedwrlock, pthread_rwlock_timedwrlock(p, &ts)); BD(EINVAL, pthread_rwlock_unlock, pthread_rwlock_unlock(p)); BD(EINVAL, pthread_rwlock_destroy, pthread_rwlock_destroy(p))
    RWALL(0); BD(0, pthread_rwlock_init, pthread_rwlock_init(&l, 0)); BD(0, pthread_rwlock_destroy, pthread_rwlock_destroy(&l)); RWALL(&l); BD(0, pthread_rwlock_init, pthread_rwlock_init(&l, 0)); BD(0, pthread_rwlock_wrlock, pthread_rwlock_wrlock(&l)); BD(EBUSY, pthread_rwlock_tryrdlock, pthread_rwlock_tryrdlock(&l)); BD(0, pthread_rwlock_unlock, pthread_rwlock_unlock(&l)); BD(0, pthread_rwlock_destroy, pthread_rwlock_destroy(&l)); break; }
  case 3: { pthread_barrier_t x; BD(EINVAL, pthread_barrier_init, pthread_barrier_init(0, 0, 1)); BD(EINVAL, pthread_barrier_init, pthread_barrier_init(&x, 0, 0)); BD(EINVAL, pthread_barrier_wait, pthread_barrier_wait(0)); BD(EINVAL, pthread_barrier_destroy, pthread_barrier_destroy(0)); BD(0, pthread_barrier_init, pthread_barrier_init(&x, 0, 2)); BD(0, pthread_barrier_destroy, pthread_barrier_destroy(&x)); BD(EINVAL, pthread_barrier_wait, pthread_barrier_wait(&x)); BD(EINVAL, pthread_barrier_destroy, pthread_barrier_destroy(&x)); BD(0, pthread_barrier_init, pthread_barrier_init(&x, 0, 1)); BD(PTHREAD_BARRIER_SERIAL_THREAD, pthread_barrier_wait, pthread_barrier_wait(&x)); BD(0, pthread_barrier_destroy, pthread_barrier_destroy(&x)); break; }
  case 4: { pthread_spinlock_t s; BD(EINVAL, pthread_spin_init, pthread_spin_init(0, 0)); BD(EINVAL, pthread_spin_destroy, pthread_spin_destroy(0)); BD(EINVAL, pthread_spin_lock, pthread_spin_lock(0)); BD(EINVAL, pthread_spin_trylock, pthread_spin_trylock(0)); BD(EINVAL, pthread_spin_unlock, pthread_spin_unlock(0)); BD(0, pthread_spin_init, pthread_spin_init(&s, 0)); BD(0, pthread_spin_destroy, pthread_spin_destroy(&s)); BD(EINVAL, pthread_spin_lock, pthread_spin_lock(&s)); BD(EINVAL, pthread_spin_trylock, pthread_spin_trylock(&s)); BD(EINVAL, pthread_spin_unlock, pthread_spin_unlock(&s)); BD(EINVAL, pthread_spin_destroy, pthread_spin_destroy(&s)); BD(0, pthread_spin_init, pthread_spin_init(&s, 0)); BD(0, pthread_spin_lock, pthread_spin_lock(&s)); BD(EBUSY, pthread_spin_trylock, pthread_spin_trylock(&s)); BD(0, pthread_spin_unlock, pthread_spin_unlock(&s)); BD(0, pthread_spin_destroy, pthread_spin_destroy(&s)); break; }
  case 5: { sem_t s; int v = 77; 
#define SEMALL(p) BE(EINVAL, sem_wait, sem_wait(p)); BE(EINVAL, sem_trywait, sem_trywait(p)); BE(EINVAL, sem_timedwait, sem_timedwait(p, &ts)); BE(EINVAL, sem_post, sem_post(p)); BE(EINVAL, sem_post_multiple, sem_post_multiple(p, 1)); BE(EINVAL, sem_getvalue, sem_getvalue(p, &v)); BE(EINVAL, sem_destroy, sem_destroy(p)); EXPECT(v == 77, "result", "a refused getvalue wrote")
    SEMALL((sem_t *)0); s = 0; SEMALL(&s); BE(EINVAL, sem_init, sem_init(&s, 0, (unsigned)SEM_VALUE_MAX + 1)); BE(EPERM, sem_init, sem_init(&s, 1, 1)); BD(0, sem_init, sem_init(&s, 0, 3)); BE(EINVAL, sem_post_multiple, sem_post_multiple(&s, 0)); BE(EINVAL, sem_post_multiple, sem_post_multiple(&s, -2)); BD(0, sem_getvalue, sem_getvalue(&s, &v)); EXPECT(v == 3, "result", "value %d after refused posts", v); BE(ERANGE, sem_post_multiple, sem_post_multiple(&s, SEM_VALUE_MAX)); BD(0, sem_getvalue, sem_getvalue(&s, &v)); EXPECT(v == 3, "result", "value %d after a refused post", v); BD(0, sem_destroy, sem_destroy(&s)); v = 77; SEMALL(&s);
    BD(0, sem_init, sem_init(&s, 0, SEM_VALUE_MAX)); BE(ERANGE, sem_post, sem_post(&s)); BD(0, sem_getvalue, sem_getvalue(&s, &v)); EXPECT(v == SEM_VALUE_MAX, "result", "value %d after a refused post", v); BD(0, sem_trywait, sem_trywait(&s)); BD(0, sem_destroy, sem_destroy(&s));
    sem_t *o = CALL(sem_open, sem_open("/x", 0)); EXPECT(o == SEM_FAILED && ERRNO == ENOSYS, "errno", "sem_open"); BE(ENOSYS, sem_close, sem_close(&s)); BE(ENOSYS, sem_unlink, sem_unlink("/x")); break; }
  case 6: { int st; BD(EINVAL, pthread_setcancelstate, pthread_setcancelstate(99, &st)); BD(EINVAL, pthread_setcanceltype, pthread_setcanceltype(-7, &st)); BD(0, pthread_setcancelstate, pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &st)); EXPECT(st == PTHREAD_CANCEL_ENABLE, "result", "cancel state changed by a refused call"); BD(0, pthread_setcanceltype, pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &st)); EXPECT(st == PTHREAD_CANCEL_DEFERRED, "result", "cancel type changed by a refused call"); pthread_t z; memset(&z, 0, sizeof z); BD(ESRCH, pthread_kill, pthread_kill(z, 0)); BD(ESRCH, pthread_join, pthread_join(z, 0)); BD(ESRCH, pthread_detach, pthread_detach(z)); BD(ESRCH, pthread_cancel, pthread_cancel(z)); pthread_t me = pthread_self(); BD(EINVAL, pthread_kill, pthread_kill(me, 4711)); BD(0, pthread_kill, pthread_kill(me, 0)); BD(EINVAL, pthread_once, pthread_once(0, 0)); break; }
  case 7: { pthread_key_t k; BD(0, pthread_key_create, pthread_key_create(&k, nop)); BD(0, pthread_setspecific, pthread_setspecific(k, &k)); EXPECT(pthread_getspecific(k) == &k, "result", "getspecific"); BD(0, pthread_setspecific, pthread_setspecific(k, 0)); BD(0, pthread_key_delete, pthread_key_delete(k)); BD(EINVAL, pthread_key_delete, pthread_key_delete(0)); BD(EINVAL, pthread_setspecific, pthread_setspecific(0, &k)); EXPECT(CALL(pthread_getspecific, pthread_getspecific(0)) == 0, "result", "getspecific of no key"); break; }
  case 8: { W->e[i].err = 1000 + i; ERRNO = W->e[i].err; label("errno-kept"); break; }
  }
  label("bad-arguments"); nontriv(); }
// ------------------------------------------------
static bool structural(int c) { return c == Q_CREATE || c == Q_END || c == Q_PAFF || c == Q_AINIT || c == Q_ADEST || c == Q_ASET || c == Q_ABAD || (c >= Q_OINIT && c <= Q_PROBE) || c == Q_TIMED || c == Q_DELAY || c == Q_CONC || c == Q_STALE; }
static void exec(int i, const Op &o, int ix) {
  QW &w = *W; FIX(ix); int c = o.c & 255; if (c >= NOPS) return; AM &x = w.a[(unsigned)o.a % NA]; int k = (unsigned)o.a % 4, os = (unsigned)(o.a >> 2) % NOA; int j = pick(o.a); EX &me = w.e[i];
  switch (c) {
  case Q_AINIT: do_ainit(x); break; case Q_ADEST: do_adest(x); break; case Q_ASET: do_aset(x, o.a >> 3, o.b, o.d); break; case Q_ABAD: do_abad(x, o.d); break; case Q_CREATE: do_create(i, (unsigned)o.a, o.b); break; case Q_END: do_end(i, j); break;
  case Q_OINIT: do_oinit(k, w.o[k][os]); break; case Q_ODEST: do_odest(k, w.o[k][os]); break; case Q_OSET: do_oset(k, w.o[k][os], o.b, o.d); break; case Q_OBAD: do_obad(k, w.o[k][os]); break; case Q_MAKE: do_make(k, w.o[k][os], w.mx[(unsigned)o.b % NMX], o.d); break; case Q_PROBE: probe(w.mx[(unsigned)o.b % NMX]); break;
  case Q_PRIO: do_prio(j, o.b % 21, o.d); break; case Q_GETP: do_getp(j); break; case Q_RANGE: do_range(o.b); break; case Q_SCHED: do_sched(o.b, o.d); break; case Q_CONC: do_conc(o.b); break;
  case Q_AFF: do_aff(j, o.b, o.d); break; case Q_GETAFF: do_getaff(j); break; case Q_PAFF: do_paff(o.b, o.d); break; case Q_PGETAFF: { cpu_set_t g; int r = CALL(sched_getaffinity, sched_getaffinity(0, sizeof g, &g)); EXPECT(r == 0 && of_cs(g) == proc(), "affinity", "sched_getaffinity gives %llx instead of %llx", of_cs(g), proc()); break; } case Q_ALG: do_alg(o.b, o.d); break;
  case Q_NAME: do_name(j, o.b); break; case Q_GETNAME: do_getname(j, o.b); break; case Q_STALE: do_stale((unsigned)o.a % (w.ne ? w.ne : 1)); break; case Q_ABS: do_abs(o.b, o.d); break; case Q_DELAY: do_delay(o.b, o.d); break; case Q_TIMED: do_timed(i, o.b, o.d); break; case Q_BAD: do_bad(i, o.b); break; }
  if (me.err && !(c == Q_BAD && (unsigned)o.b % 9 == 8)) me.err = 0; }
static void settle(void) { QW &w = *W; for (int j = 1; j < w.ne; j++) if (w.e[j].used && !w.e[j].ended) { FN("settle"); sim_wait_until(idle_pred, &w.e[j]); } for (int j = 0; j < w.ne; j++) if (w.e[j].err) { EX &e = w.e[j]; (void)e; } }
static void run(const Prog &p) {
  static QW world; memset(&world, 0, sizeof world); sim_fail_prio(0); W = &world; QW &w = world; w.p = &p; int r; clk = 0; fstate[0].thr = 99; FN("setup"); w.slack = 30 * MS + p.tick * 800LL; w.racy = p.cfg[0] & 1; int at = sim_atomic(1);
  if (p.cfg[1] > 0) jump(p.cfg[1]); sim_lib_ctors();
  for (int i = 0; i < NA; i++) { w.a[i].a = (pthread_attr_t *)sim_umalloc(sizeof(pthread_attr_t)); memset((void *)w.a[i].a, 0, sizeof(pthread_attr_t)); } for (int k = 0; k < 4; k++) for (int i = 0; i < NOA; i++) { w.o[k][i].a = sim_umalloc(8); memset(w.o[k][i].a, 0, 8); } for (int i = 0; i < NMX; i++) w.mx[i].m = (pthread_mutex_t *)sim_umalloc(sizeof(pthread_mutex_t));
  EX &m = w.e[0]; m.used = true; m.id = pthread_self(); m.fib = 0; w.ne = 1; rset0(m.prio, sim_fiber_prio(0)); rset0(m.aff, (i64)sim_fiber_aff(0)); rset0(m.name, -1); t_check(0, "start"); sim_atomic(at); sim_mark();
  const Thr &t = p.t[0];
  for (int k = 0; k < t.n; k++) { Op o = t.op[k]; int c = o.c & 255, by = (unsigned)(o.c >> 8) % (w.ne ? w.ne : 1); if (structural(c) || !w.racy) settle(); if (!w.e[by].used || w.e[by].ended || by == 0) { exec(0, o, k); continue; }
    EX &e = w.e[by]; settle_one: FN("hand out"); sim_wait_until(idle_pred, &e); e.op = o; e.opix = k; e.cmd = 1; if (structural(c) || !w.racy) settle(); else label("racing"); if (0) goto settle_one; }
  settle(); FIX(99); for (int j = 0; j < w.ne; j++) t_check(j, "all");
  for (int j = 1; j < w.ne; j++) do_end(0, j);
  for (int j = 1; j < w.ne; j++) do_stale(j);
  for (int i = 0; i < NA; i++) { do_adest(w.a[i]); sim_ufree((void *)w.a[i].a); } for (int k = 0; k < 4; k++) for (int i = 0; i < NOA; i++) { do_odest(k, w.o[k][i]); sim_ufree(w.o[k][i].a); } for (int i = 0; i < NMX; i++) { if (w.mx[i].made) { r = CALL(pthread_mutex_destroy, pthread_mutex_destroy(w.mx[i].m)); EXPECT(r == 0, "result", "mutex_destroy %s", ename(r)); } sim_ufree((void *)w.mx[i].m); }
  sim_lib_dtors(); leak_check();
}
static void add(Prog &p, int by, int c, int a = 0, int b = 0, int d = 0) { if (p.t[0].n < MAXOPS) { Op &o = p.t[0].op[p.t[0].n++]; o.c = (int16_t)(c | by << 8); o.a = (int16_t)a; o.b = b; o.d = d; } }
static void gen(Rng &r, Prog &p, int prof) {
  p.nt = 1; p.cfg[0] = r.p(1, 3); int n = r.r(4, 34); p.cfg[1] = prof == PR_TIME ? r.r(1, 1 << 20) : r.p(1, 8) ? r.r(1, 1 << 20) : 0; if (prof == PR_TIME || prof == PR_BAD) p.cfg[0] = 0; if (prof == PR_SCHED || prof == PR_AFF || prof == PR_NAME) p.cfg[0] = r.p(1, 2); if (prof == PR_AFF && r.p(1, 2)) p.ncpu = r.pick((const int[]){2, 8, 64, 63, 16});
  while (n--) { int by = r.p(1, 2) ? 0 : r.n(8), a = r.n(4096), b = (int)(r.next() >> 33), d = (int)(r.next() >> 33); if (r.p(1, 3)) b = -b; int q = prof == PR_ALL ? (const int[]){PR_ATTR, PR_SCHED, PR_AFF, PR_NAME, PR_BAD}[r.n(5)] : prof;
    if (r.p(1, 6) && q != PR_BAD) { add(p, by, Q_CREATE, q == PR_TIME ? NA : a, r.p(1, 2) ? 0 : b & 0xfffff); continue; } if (r.p(1, 12) && q != PR_BAD) { add(p, by, Q_END, a); continue; }
    switch (q) {
    case PR_ATTR: switch (r.n(12)) { case 0: add(p, by, Q_ADEST, a); break; case 1: add(p, by, Q_AINIT, a); break; case 2: case 3: case 4: case 5: add(p, by, Q_ASET, a, b, d); break; case 6: add(p, by, Q_ABAD, a, b, d); break; case 7: add(p, by, r.p(1, 2) ? Q_OINIT : Q_ODEST, a); break; case 8: case 9: add(p, by, Q_OSET, a & ~3 & (r.p(1, 2) ? ~0 : ~0), b, d); if (r.p(1, 2)) p.t[0].op[p.t[0].n - 1].a = (int16_t)a; break; case 10: add(p, by, Q_MAKE, r.p(1, 2) ? a & ~3 : a, b & 0xffff, d); break; case 11: add(p, by, r.p(2, 3) ? Q_PROBE : Q_OBAD, a, b & 0xffff); break; } break;
    case PR_SCHED: switch (r.n(8)) { case 0: case 1: case 2: add(p, by, Q_PRIO, a, b, r.p(2, 3) ? 0 : d); break; case 3: case 4: add(p, by, Q_GETP, a); break; case 5: add(p, by, r.p(1, 2) ? Q_RANGE : Q_SCHED, a, b & 0xffff, d); break; case 6: add(p, by, r.p(1, 3) ? Q_CONC : Q_STALE, a, b); break; case 7: add(p, by, Q_ASET, (a & 7) | (1 + r.n(2)) << 3, b, d); break; } break;
    case PR_AFF: switch (r.n(8)) { case 0: case 1: case 2: add(p, by, Q_AFF, a, b, d); break; case 3: add(p, by, Q_GETAFF, a); break; case 4: add(p, by, Q_PAFF, a, b & 0xffffff, d); break; case 5: add(p, by, Q_ALG, a, b & 0xffffff, d); break; case 6: add(p, by, r.p(1, 2) ? Q_PGETAFF : Q_STALE, a); break; case 7: add(p, by, Q_ASET, (a & 7) | 6 << 3, b, d); break; } break;
    case PR_NAME: switch (r.n(8)) { case 0: case 1: case 2: add(p, by, Q_NAME, a, b & 0x7fffffff); break; case 3: case 4: case 5: add(p, by, Q_GETNAME, a, b & 0xffff); break; case 6: add(p, by, r.p(1, 3) ? Q_ABAD : Q_STALE, a, b, d); break; case 7: add(p, by, Q_ASET, (a & 7) | 7 << 3, b & 0x7fffffff, d); break; } break;
    case PR_TIME: switch (r.n(4)) { case 0: add(p, by, Q_ABS, a, b & 0x7fffffff, d); break; case 1: add(p, by, Q_DELAY, a, b & 0xffff, d); break; default: add(p, by, Q_TIMED, a, b & 0xffff, d); } break;
    case PR_BAD: switch (r.n(7)) { case 6: add(p, by, Q_CONC, a, b); break; case 0: add(p, by, Q_ABAD, a, b, d); break; case 1: add(p, by, Q_OBAD, a); break; case 2: add(p, by, Q_CREATE, r.p(1, 2) ? NA : a); break; default: add(p, by, Q_BAD, a, b & 0xffff); } break;
    } }
}
static RegF f({"seq", gen, run, opname});
static RegP p18("C18", "seq", PR_ATTR, 1, 1), p19("C19", "seq", PR_SCHED), p20("C20", "seq", PR_AFF), p21("C21", "seq", PR_NAME, 1, 1), p16("C16", "seq", PR_TIME), p26("C26", "seq", PR_BAD, 1, 1), p22("C22", "seq", PR_ALL, 1, 1);
