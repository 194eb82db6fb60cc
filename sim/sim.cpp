// See sim.h. Compiled without instrumentation.
#include "windows.h"
#include "sim.h"
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <cxxabi.h>
#undef errno
#include <errno.h>

extern "C" void sim_describe(int fiber, char *buf, int n); // harness: what is this fiber doing

static const int NFIB = 144;
static const size_t STK = 96 * 1024;
enum { FS_FREE, FS_READY, FS_BLOCKED, FS_PRED, FS_QUIET, FS_DONE };
enum { OK_NONE, OK_EVENT, OK_SEM, OK_THREAD, OK_MUTEX, OK_PROC };
static const uint64_t INF = ~0ull;

struct Fiber { unsigned stacksz;
  void *sp; char *lo, *hi;
  int st, susp, started, quiet_keep;
  int nobj, waitall; int obj[64]; uint64_t deadline; int wres, woken; uint64_t bseq; bool alert;
  int (*pred)(void *); void *parg;
  void *tls[128]; DWORD lasterr; int err; int prio; uint64_t aff; uint64_t hijack;
  int threadobj; DWORD exitcode; unsigned ostid;
  unsigned (*entry)(void *); void *earg; void (*body)(void *);
  uint64_t cxa[2];
  long pct; uint32_t yields;
  struct { PAPCFUNC f; ULONG_PTR a; } apc[8]; int napc;
};
static Fiber F[NFIB]; static int nF, cur = -1; static void *host_sp; static char *arena;
static bool on, atomic_on; static SimCfg cfg; static void (*idle_hook)(void);
void sim_set_idle_hook(void (*f)(void)) { idle_hook = f; }
SimRes sim_res; int sim_trace;
static const int MAXLOG = 1 << 20; SimDec sim_log[MAXLOG]; int sim_nlog;
static uint32_t step_, next_ev, consec, decp, lastswitch; static bool fair;
static uint64_t now_, seq_, rngs, forced_; uint64_t sim_forced(void) { return forced_; } static uint64_t cxa_host[2];
static sigjmp_buf host_env; static bool host_env_ok;
static const uint32_t KFAIR = 400;
static uint32_t chg[64]; static int nchg, chgp; static long pct_low; static int victim;

// ---------------------------------------------------------------- heap
static const size_t HEAP = 96u << 20; static char *heap; static uint8_t *shadow; static size_t hp;
struct Blk { char *p; size_t n; int freed; void *who; int user; };
static const int MAXBLK = 1500000; static Blk *blk; static int nblk; static int user_region; static uint64_t fillseed;
static uint8_t *stkmark; // one byte per 16 bytes of stack arena: touched by another fiber
static uint32_t *marks; static int nmarks;

struct Fault { int nth, cnt, calls; } flt[NFIB + 1][F_NCLASS]; static int flt_hit[NFIB + 1]; // the last row counts the calls of every thread
static bool fault(int c) {
  for (int k = 0; k < 2; k++) { int w = k ? NFIB : cur; if (w < 0) continue; Fault &f = flt[w][c]; if (!f.nth) continue; f.calls++; if (f.calls >= f.nth && f.calls < f.nth + f.cnt) { flt_hit[w]++; return true; } }
  return false;
}
static uint64_t rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs * 0x2545F4914F6CDD1Dull; }
static uint32_t rn(uint32_t n) { return n ? (uint32_t)((rnd() >> 33) % n) : 0; }

// ---------------------------------------------------------------- objects / handles
struct Obj { int kind, refs; int manual, sig; int count, max; int fib; int owner, rec; uint64_t pmask; int pid; };
static const int MAXOBJ = 400000; static Obj O[MAXOBJ]; static int nO, nmutex; struct Hnd { int obj, closed; void *who; }; static Hnd H[MAXOBJ]; static int nH; static bool recycle; static unsigned fgen[NFIB];
static DWORD tls_used[128]; static int ntls;
static Obj own_proc, other_proc;

extern "C" void sim_switch(void **save, void *to);
__asm__(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
        " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
        " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
        " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size sim_switch,.-sim_switch\n");

static void save_cxa(uint64_t *d) { memcpy(d, abi::__cxa_get_globals(), 16); }
static void load_cxa(const uint64_t *s) { memcpy(abi::__cxa_get_globals(), s, 16); }

static void __attribute__((noreturn)) to_host() {
  void *dummy; on = false;
  if (cur >= 0) { load_cxa(cxa_host); }
  sim_switch(&dummy, host_sp); __builtin_unreachable();
}
void sim_note(const char *fmt, ...) {
  if (!sim_trace) return;
  va_list ap; va_start(ap, fmt); fprintf(stderr, "[%6u f%d t%llu] ", step_, cur, (unsigned long long)(now_ - cfg.start_time)); vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap);
}
static void vfail(const char *kind, const char *fmt, va_list ap) {
  if (sim_res.failed) return;
  sim_res.failed = 1; snprintf(sim_res.kind, sizeof sim_res.kind, "%s", kind); vsnprintf(sim_res.msg, sizeof sim_res.msg, fmt, ap);
}
void sim_fail(const char *kind, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vfail(kind, fmt, ap); va_end(ap);
  if (sim_trace) fprintf(stderr, "[%6u f%d] FAIL %s: %s\n", step_, cur, kind, sim_res.msg);
  if (on) to_host();
  if (host_env_ok) siglongjmp(host_env, 1);
  fprintf(stderr, "sim_fail outside a case: %s %s\n", kind, sim_res.msg); _exit(3);
}
static void describe_all(char *buf, int n) {
  int k = 0; buf[0] = 0;
  for (int i = 0; i < nF && k < n - 80; i++) if (F[i].st != FS_FREE && F[i].st != FS_DONE) {
    char d[160]; d[0] = 0; sim_describe(i, d, sizeof d);
    k += snprintf(buf + k, n - k, "%sf%d[%s%s %s]", k ? " " : "", i, F[i].st == FS_READY ? "ready" : F[i].st == FS_BLOCKED ? "blocked" : F[i].st == FS_PRED ? "hwait" : "quiet", F[i].susp ? ",suspended" : "", d);
  }
}

static int is_ready(int i) {
  Fiber &f = F[i];
  if (f.susp) return 0;
  if (f.st == FS_READY) return 1;
  if (f.st == FS_PRED && f.pred(f.parg)) return 1;
  return 0;
}
int sim_ready_others(void) { int k = 0; for (int i = 0; i < nF; i++) if (i != cur && is_ready(i)) k++; return k; }
static uint64_t next_deadline() {
  uint64_t m = INF;
  for (int i = 0; i < nF; i++) if (F[i].st == FS_BLOCKED && F[i].deadline < m) m = F[i].deadline;
  return m;
}
static void fire_deadlines() {
  for (int i = 0; i < nF; i++) if (F[i].st == FS_BLOCKED && F[i].deadline <= now_) { F[i].wres = WAIT_TIMEOUT; F[i].woken = 1; F[i].st = FS_READY; F[i].deadline = INF; F[i].nobj = 0; }
}
static void logdec(int act, int arg) { if (sim_nlog < MAXLOG) { sim_log[sim_nlog].step = step_; sim_log[sim_nlog].act = act; sim_log[sim_nlog].arg = arg; sim_nlog++; } }

static void plan_next() {
  // when does the strategy want to act again
  if (fair) { next_ev = step_ + 40; return; }
  switch (cfg.strategy) {
  case ST_RANDOM: next_ev = step_ + 1 + (cfg.gap > 1 ? rn(2 * cfg.gap - 1) : 0); break;
  case ST_PCT: case ST_KPRE: next_ev = chgp < nchg ? chg[chgp] : 0xffffffffu; if (next_ev <= step_) next_ev = step_ + 1; break;
  case ST_STARVE: next_ev = step_ + 1 + rn(400); break;
  case ST_REPLAY: { while ((int)decp < cfg.ndec && cfg.dec[decp].step < step_) decp++; next_ev = (int)decp < cfg.ndec ? cfg.dec[decp].step : 0xffffffffu; if (next_ev <= step_) next_ev = step_ + 1; break; }
  default: next_ev = 0xffffffffu;
  }
}
static int rr_next() { for (int k = 1; k <= nF; k++) { int i = (cur + k) % nF; if (is_ready(i)) return i; } return -1; }
static int pick_random() { int r[NFIB], n = 0; for (int i = 0; i < nF; i++) if (is_ready(i)) r[n++] = i; return n ? r[rn(n)] : -1; }
static int pick_pct() { int b = -1; for (int i = 0; i < nF; i++) if (is_ready(i) && (b < 0 || F[i].pct > F[b].pct)) b = i; return b; }

static void run_hijack() {
  Fiber &f = F[cur]; uint64_t h = f.hijack; f.hijack = 0; atomic_on = false;
  sim_note("asynchronous cancel runs");
  ((void (*)(void))h)();
  sim_fail("hijack-return", "redirected thread returned from its cancellation routine");
}
static void go(int to, void *pc) {
  if (to == cur) return;
  sim_res.switches++; consec = 0;
  if (sim_trace) { char d[160] = "", e[160] = ""; sim_describe(cur, d, sizeof d); sim_describe(to, e, sizeof e); sim_note("(%s) at pc=%p; switch to f%d (%s)", d, pc, to, e); }
  sim_res.trace_hash = (sim_res.trace_hash ^ ((uint64_t)to * 1315423911u + (uint64_t)(uintptr_t)pc * 2654435761u)) * 0x100000001b3ull;
  int from = cur; save_cxa(F[from].cxa);
  cur = to; load_cxa(F[to].cxa);
  sim_switch(&F[from].sp, F[to].sp);
}
static void bad_stuck() {
  char b[480]; describe_all(b, sizeof b);
  sim_fail("deadlock", "no thread can run: %s", b);
}
// the current fiber cannot continue (or yields): choose who runs. kind 0 blocked, 1 yield, 2 point
static void choose(int kind, void *pc) {
  step_++;
  if (step_ > cfg.max_steps && !fair) { fair = true; }
  if (step_ > cfg.max_steps * 4) { char b[480]; describe_all(b, sizeof b); sim_fail("livelock", "no progress after %u steps: %s", step_, b); }
  for (;;) {
    int curok = cur >= 0 && is_ready(cur);
    int def;
    if (kind == 2 && curok && consec < KFAIR) def = cur;
    else { def = rr_next(); if (def == cur) { for (int k = 1; k < nF; k++) { int i = (cur + k) % nF; if (is_ready(i)) { def = i; break; } } } }
    if (def < 0) {
      // nobody ready
      uint64_t d = next_deadline();
      int q = F[0].st == FS_QUIET;
      if (d != INF && !(q && F[0].quiet_keep)) { if (idle_hook) { bool a = atomic_on; atomic_on = true; idle_hook(); atomic_on = a; } if (d > now_) now_ = d; fire_deadlines(); continue; }
      if (q) { F[0].st = FS_READY; if (F[0].quiet_keep) { go(0, (void *)1); break; } def = 0; }
      else bad_stuck();
    }
    if (consec >= 10 * KFAIR && def == cur) { uint64_t d = next_deadline(); if (d != INF && !(F[0].st == FS_QUIET && F[0].quiet_keep)) { if (d > now_) { forced_ += d - now_; now_ = d; } fire_deadlines(); consec = 0; continue; } }
    int ch = def;
    if (kind != 2 || step_ >= next_ev) {
      if (fair) { ch = rr_next(); if (ch == cur && kind) ch = def; if (step_ - lastswitch > 2000) { lastswitch = step_; uint64_t d = next_deadline(); if (d != INF && !(F[0].st == FS_QUIET && F[0].quiet_keep)) { if (d > now_) { forced_ += d - now_; now_ = d; } fire_deadlines(); } } if (kind == 2) plan_next(); }
      else switch (cfg.strategy) {
      case ST_RANDOM: {
        if (cfg.adv_permille && (int)rn(1000) < cfg.adv_permille && !(F[0].st == FS_QUIET && F[0].quiet_keep)) {
          uint64_t d = next_deadline();
          if (d != INF && rn(3)) { logdec(-1, 0); if (d > now_) { forced_ += d - now_; now_ = d; } fire_deadlines(); }
          else { int a = 1 + rn(200); logdec(-2, a); now_ += a * 100ull; forced_ += a * 100ull; fire_deadlines(); }
          if (kind == 2) plan_next();
          step_++; continue;
        }
        ch = pick_random(); if (kind == 1 && ch == cur && rn(4)) ch = pick_random();
        plan_next(); break; }
      case ST_PCT: {
        if (chgp < nchg && step_ >= chg[chgp]) { chgp++; F[cur].pct = --pct_low;
          if (cfg.adv_permille && (int)rn(1000) < cfg.adv_permille * 10) { uint64_t d = next_deadline(); if (d != INF && !(F[0].st == FS_QUIET && F[0].quiet_keep)) { logdec(-1, 0); if (d > now_) { forced_ += d - now_; now_ = d; } fire_deadlines(); plan_next(); step_++; continue; } } }
        if (kind == 1) F[cur].pct = --pct_low;
        ch = pick_pct(); plan_next(); break; }
      case ST_KPRE: {
        if (kind == 2) { if (chgp < nchg && step_ >= chg[chgp]) { chgp++;
            if (cfg.adv_permille && (int)rn(1000) < cfg.adv_permille * 10) { uint64_t d = next_deadline(); if (d != INF && !(F[0].st == FS_QUIET && F[0].quiet_keep)) { logdec(-1, 0); if (d > now_) { forced_ += d - now_; now_ = d; } fire_deadlines(); } plan_next(); step_++; continue; }
            for (int t = 0; t < 4; t++) { ch = pick_random(); if (ch != cur) break; } } }
        else if (cfg.seed & 1) ch = pick_random();
        plan_next(); break; }
      case ST_STARVE: {
        if (kind != 2 || !rn(3)) ch = pick_random();
        if (ch == victim && rn(12)) { int c2 = -1; for (int i = 0; i < nF; i++) if (i != victim && is_ready(i)) { c2 = i; if (rn(2)) break; } if (c2 >= 0) ch = c2; }
        plan_next(); break; }
      case ST_REPLAY: {
        bool again = false;
        while ((int)decp < cfg.ndec && cfg.dec[decp].step < step_) decp++;
        if ((int)decp < cfg.ndec && cfg.dec[decp].step == step_) {
          const SimDec &d = cfg.dec[decp++];
          if (d.act >= 0) { if (d.act < nF && is_ready(d.act)) { if (d.act != def) logdec(d.act, 0); ch = d.act; } }
          else { logdec(d.act, d.arg); if (d.act == -1) { uint64_t x = next_deadline(); if (x != INF && x > now_) { forced_ += x - now_; now_ = x; } } else { now_ += d.arg * 100ull; forced_ += d.arg * 100ull; } fire_deadlines(); again = true; }
        }
        plan_next();
        if (again) { step_++; continue; }
        break; }
      default: break;
      }
      if (ch < 0) ch = def;
      if (ch != def && cfg.strategy != ST_REPLAY) logdec(ch, 0);
      else if (fair && ch != def) logdec(ch, 0);
    }
    if (F[ch].st == FS_PRED) F[ch].st = FS_READY;
    go(ch, kind == 2 ? pc : (void *)(uintptr_t)(kind + 1));
    break;
  }
  if (F[cur].hijack && !cfg.cxx) run_hijack();
}
static inline void point(void *pc) {
  if (!on || atomic_on) return;
  ++consec;
  if (sim_trace > 1) { char d[160] = ""; sim_describe(cur, d, sizeof d); sim_note("(%s) pc=%p", d, pc); }
  if (step_ + 1 < next_ev && consec < KFAIR && step_ < cfg.max_steps) { step_++; return; }
  choose(2, pc);
}
void sim_point(void) { point(__builtin_return_address(0)); }
int sim_redirected(void) { return cur >= 0 && F[cur].hijack != 0; }
void sim_spin_point(void) {
  point(__builtin_return_address(0));
  if (cur >= 0 && F[cur].hijack) run_hijack();
}
void sim_asm_point(void) { point(__builtin_return_address(0)); }
void sim_yield(void) { if (on) { bool a = atomic_on; atomic_on = false; choose(1, __builtin_return_address(0)); atomic_on = a; } }
static void block() { bool a = atomic_on; atomic_on = false; choose(0, 0); atomic_on = a; }
int sim_atomic(int v) { int o = atomic_on; atomic_on = v; return o; }
void sim_wait_quiet(void) { if (cur != 0) sim_fail("harness", "quiet outside main"); F[0].quiet_keep = 0; F[0].st = FS_QUIET; block(); }
void sim_wait_quiet_keep_time(void) { if (cur != 0) sim_fail("harness", "quiet outside main"); F[0].quiet_keep = 1; F[0].st = FS_QUIET; block(); }
int sim_wait_until(int (*pred)(void *), void *arg) { if (pred(arg)) return 1; F[cur].pred = pred; F[cur].parg = arg; F[cur].st = FS_PRED; block(); F[cur].st = FS_READY; return 1; }
uint64_t sim_now(void) { return now_; }
int sim_fiber_timed(int id) { return id >= 0 && id < nF && F[id].st == FS_BLOCKED && F[id].deadline != INF; }
void sim_advance(uint64_t d) { now_ += d; fire_deadlines(); }
void sim_set_time(uint64_t t) { now_ = t; fire_deadlines(); }
int sim_cur(void) { return cur; }
int sim_alone(int me) { for (int i = 0; i < nF; i++) if (i != me && F[i].st == FS_READY && !F[i].susp) return 0; return 1; } // nothing else can run
int sim_fiber_done(int i) { return F[i].st == FS_DONE; }
int sim_fiber_blocked(int i) { return F[i].st == FS_BLOCKED || F[i].susp; }
uint32_t sim_step(void) { return step_; }
void sim_mark(void) { sim_res.mark = step_; }
int sim_fiber_of_os_tid(unsigned t) { for (int i = 0; i < nF; i++) if (F[i].ostid == t) return i; return -1; }
unsigned sim_os_tid(int f) { return F[f].ostid; }
int sim_fiber_prio(int i) { return F[i].prio; }
unsigned sim_fiber_stack(int i) { return F[i].stacksz; }
uint64_t sim_fiber_aff(int i) { return F[i].aff; }
uint64_t sim_proc_mask(void) { return own_proc.pmask; }
uint64_t sim_other_proc_mask(void) { return other_proc.pmask; }
int sim_in_main(void) { return cur == 0; }

// ---------------------------------------------------------------- memory checks
extern "C" void __sanitizer_print_stack_trace(void) __attribute__((weak));
static void bad_access(const char *kind, char *a, size_t n, int st, void *pc) {
  char d[160] = ""; sim_describe(cur, d, sizeof d);
  int b = -1; for (int i = 0; i < nblk; i++) if (a >= blk[i].p - 16 && a < blk[i].p + blk[i].n + 16) { b = i; break; }
  sim_fail(kind, "%s of %zu bytes at %s%s (block of %zu bytes%s, offset %ld) by f%d in %s", st ? "write" : "read", n, kind, "", b >= 0 ? blk[b].n : 0, b >= 0 && blk[b].freed ? ", freed" : "", b >= 0 ? (long)(a - blk[b].p) : 0L, cur, d);
  (void)pc;
}
// The scheduling point comes first: the access is checked against the state in which it happens.
static inline void check(char *a, size_t n, int st, void *pc, bool pt = true) {
  if (!on) return;
  if (a >= heap && a < heap + HEAP) {
    if (pt) point(pc);
    for (size_t o = 0; o < n;) {
      size_t off = (a + o - heap); uint8_t s = shadow[off >> 3]; size_t in = off & 7; size_t take = 8 - in; if (take > n - o) take = n - o;
      if (s == 0xFD) bad_access("use-after-free", a, n, st, pc);
      if (s > 8 || in + take > s) bad_access("heap-overflow", a, n, st, pc);
      o += take;
    }
  } else if (a >= arena && a < arena + NFIB * STK) {
    int owner = (int)((a - arena) / STK); size_t g = (a - arena) >> 4;
    if (owner == cur) { if (stkmark[g] && pt) point(pc); return; }
    if (pt) point(pc);
    Fiber &f = F[owner];
    if (f.st == FS_FREE || f.st == FS_DONE || a < (char *)f.sp) {
      char d[160] = "", e[160] = ""; sim_describe(cur, d, sizeof d); sim_describe(owner, e, sizeof e);
      sim_fail("dead-stack", "%s of %zu bytes in a dead stack frame of f%d (%s) by f%d in %s", st ? "write" : "read", n, owner, e, cur, d);
    }
    if (!stkmark[g]) { stkmark[g] = 1; marks[nmarks++] = g; }
  } else if ((uintptr_t)a < 4096) {
    char d[160] = ""; sim_describe(cur, d, sizeof d);
    sim_fail("null-access", "%s of address %p by f%d in %s", st ? "write" : "read", (void *)a, cur, d);
  } else if (pt) point(pc);
}
void sim_asm_access(void *p) { check((char *)p, 4, 1, __builtin_return_address(0), false); }
#define RA __builtin_return_address(0)
extern "C" {
void __sanitizer_cov_load1(void *a) { check((char *)a, 1, 0, RA); }
void __sanitizer_cov_load2(void *a) { check((char *)a, 2, 0, RA); }
void __sanitizer_cov_load4(void *a) { check((char *)a, 4, 0, RA); }
void __sanitizer_cov_load8(void *a) { check((char *)a, 8, 0, RA); }
void __sanitizer_cov_load16(void *a) { check((char *)a, 16, 0, RA); }
void __sanitizer_cov_store1(void *a) { check((char *)a, 1, 1, RA); }
void __sanitizer_cov_store2(void *a) { check((char *)a, 2, 1, RA); }
void __sanitizer_cov_store4(void *a) { check((char *)a, 4, 1, RA); }
void __sanitizer_cov_store8(void *a) { check((char *)a, 8, 1, RA); }
void __sanitizer_cov_store16(void *a) { check((char *)a, 16, 1, RA); }
static uint8_t *covlo, *covhi;
void __sanitizer_cov_8bit_counters_init(uint8_t *s, uint8_t *e) { if (!covlo || s < covlo) covlo = s; if (e > covhi) covhi = e; }
uint64_t sim_cov_edges(uint64_t *total) { uint64_t n = 0; for (uint8_t *p = covlo; p < covhi; p++) n += *p != 0; if (total) *total = covhi - covlo; return n; }

// ---------------------------------------------------------------- heap
void sim_user_region(int v) { user_region = v; }
static void *heap_alloc(size_t n, void *who, int fill) {
  size_t need = (n + 7) / 8 * 8; size_t base = hp + 16;
  if (base + need + 16 > HEAP || nblk >= MAXBLK) sim_fail("heap-exhausted", "more than %zu bytes or %d blocks allocated in one case", HEAP, MAXBLK);
  char *p = heap + base; memset(shadow + base / 8, 8, n / 8); if (n & 7) shadow[base / 8 + n / 8] = n & 7;
  if (fill == 0) memset(p, 0, n);
  else { static const uint8_t pat[] = {0xA5, 0xFF, 0x01, 0xCD}; memset(p, pat[fillseed & 3], n); }
  blk[nblk].p = p; blk[nblk].n = n; blk[nblk].freed = 0; blk[nblk].who = who; blk[nblk].user = user_region;
  *(int *)(p - 16) = nblk; *(int *)(p - 12) = 0x5AFE; nblk++; hp = base + need; return p;
}
void *sim_umalloc(size_t n) { int o = user_region; user_region = 1; void *p = heap_alloc(n, 0, 1); user_region = o; return p; }
static void pf(void *p, const char *what) {
  char d[160] = ""; if (!p) return;
  if (cur >= 0) sim_describe(cur, d, sizeof d);
  char *c = (char *)p;
  if (c < heap + 16 || c >= heap + HEAP || *(int *)(c - 12) != 0x5AFE) sim_fail("bad-free", "free of something that is not a block (%s) in %s", what, d);
  int b = *(int *)(c - 16); if (b < 0 || b >= nblk || blk[b].p != c) sim_fail("bad-free", "free of a corrupt block in %s", d);
  if (blk[b].freed) sim_fail("double-free", "block of %zu bytes freed twice in %s", blk[b].n, d);
  blk[b].freed = 1; memset(c, 0xDD, blk[b].n); memset(shadow + (c - heap) / 8, 0xFD, (blk[b].n + 7) / 8);
}
void sim_ufree(void *p) { pf(p, "user"); }
void *sim_malloc(size_t n) { point(RA); if (fault(F_MEM)) return 0; return heap_alloc(n, RA, 1); }
void *sim_calloc(size_t a, size_t b) { point(RA); if (fault(F_MEM)) return 0; if (b && a > (1u << 30) / b) return 0; return heap_alloc(a * b, RA, 0); }
void sim_free(void *p) { point(RA); pf(p, "free"); }
void *sim_realloc(void *p, size_t n) {
  point(RA); if (!p) return sim_malloc(n); if (fault(F_MEM)) return 0;
  int b = *(int *)((char *)p - 16); void *q = heap_alloc(n, RA, 1); memcpy(q, p, blk[b].n < n ? blk[b].n : n); pf(p, "realloc"); return q;
}
static void range(const void *p, size_t n, int st, void *pc) { if (n) { bool a = atomic_on; atomic_on = true; check((char *)p, 1, st, pc); if (n > 1) { if ((char *)p >= heap && (char *)p < heap + HEAP) check((char *)p, n, st, pc); else check((char *)p + n - 1, 1, st, pc); } atomic_on = a; } }
size_t sim_strlen(const char *s) { size_t n = 0; point(RA); bool a = atomic_on; atomic_on = true; for (;; n++) { check((char *)s + n, 1, 0, RA); if (!s[n]) break; } atomic_on = a; return n; }
char *sim_strdup(const char *s) { size_t n = sim_strlen(s); if (fault(F_MEM)) return 0; char *p = (char *)heap_alloc(n + 1, RA, 1); memcpy(p, s, n + 1); return p; }
void *sim_memcpy(void *d, const void *s, size_t n) { point(RA); range(s, n, 0, RA); range(d, n, 1, RA); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { point(RA); range(d, n, 1, RA); return memset(d, c, n); }
int sim_memcmp(const void *x, const void *y, size_t n) { point(RA); range(x, n, 0, RA); range(y, n, 0, RA); return memcmp(x, y, n); }
char *sim_strcpy(char *d, const char *s) { size_t n = sim_strlen(s); range(d, n + 1, 1, RA); memcpy(d, s, n + 1); return d; }
static size_t strnl(const char *s, size_t m) { size_t n = 0; bool a = atomic_on; atomic_on = true; while (n < m) { check((char *)s + n, 1, 0, RA); if (!s[n]) break; n++; } atomic_on = a; return n; }
char *sim_strncpy(char *d, const char *s, size_t n) { point(RA); size_t k = strnl(s, n); range(d, n, 1, RA); memcpy(d, s, k); memset(d + k, 0, n - k); return d; }
char *sim_strcat(char *d, const char *s) { size_t m = sim_strlen(d), n = sim_strlen(s); range(d + m, n + 1, 1, RA); memcpy(d + m, s, n + 1); return d; }
char *sim_strncat(char *d, const char *s, size_t n) { size_t m = sim_strlen(d), k = strnl(s, n); range(d + m, k + 1, 1, RA); memcpy(d + m, s, k); d[m + k] = 0; return d; }
int sim_strncpy_s(char *d, size_t dn, const char *s, size_t n) { if (!d || !dn) return 22; size_t k = strnl(s, n); if (k >= dn) { if (n == (size_t)-1) { k = dn - 1; range(d, k + 1, 1, RA); memcpy(d, s, k); d[k] = 0; return 80; } d[0] = 0; return 34; } range(d, k + 1, 1, RA); memcpy(d, s, k); d[k] = 0; return 0; }
int sim_strcmp(const char *a, const char *b) { sim_strlen(a); sim_strlen(b); return strcmp(a, b); }
void sim_abort(void) { sim_fail("abort", "the library called abort"); }
void sim_exit(int c) { sim_fail("exit", "the library called exit(%d)", c); }
static int err_host;
int *sim_errno_location(void) { return cur >= 0 ? &F[cur].err : &err_host; }
int _get_errno(int *p) { *p = *sim_errno_location(); return 0; }
int _set_errno(int v) { *sim_errno_location() = v; return 0; }
int sim_live_blocks(void) { int n = 0; for (int i = 0; i < nblk; i++) n += !blk[i].freed && !blk[i].user; return n; }
int sim_live_handles(void) { int n = 0; for (int i = 0; i < nH; i++) n += !H[i].closed; return n; }
int sim_live_tls(void) { return ntls; }
void sim_recycle(int on) { recycle = on; }
void sim_long(uint32_t n) { if (n > cfg.max_steps) cfg.max_steps = n; }
unsigned sim_fiber_gen(int i) { return i >= 0 && i < NFIB ? fgen[i] : 0; }
void sim_leak_report(char *buf, int n) {
  int k = 0; buf[0] = 0; static const char *kn[] = {"none", "event", "semaphore", "thread", "mutex", "process"};
  for (int i = 0; i < nblk && k < n - 40; i++) if (!blk[i].freed && !blk[i].user) k += snprintf(buf + k, n - k, " block(%zu bytes)", blk[i].n);
  for (int i = 0; i < nH && k < n - 40; i++) if (!H[i].closed) k += snprintf(buf + k, n - k, " handle(%s)", kn[O[H[i].obj].kind]);
}
static void arm(int w, int c, int nth, int cnt) { for (int i = 0; i < F_NCLASS; i++) if (i == c || c < 0) flt[w][i] = {nth, cnt, 0}; if (nth) flt_hit[w] = 0; }
void sim_fault_arm(int c, int nth, int cnt) { arm(cur, c, nth, cnt); if (!nth) arm(NFIB, c, 0, 0); }
void sim_fault_arm_all(int c, int nth, int cnt) { arm(NFIB, c, nth, cnt); }
int sim_fault_calls(int c) { return flt[cur][c].calls + flt[NFIB][c].calls; }
int sim_fault_hit(void) { return flt_hit[cur] + flt_hit[NFIB]; }
} // extern C

// ---------------------------------------------------------------- kernel objects
static int new_obj(int k) { if (nO >= MAXOBJ) sim_fail("handles-exhausted", "too many kernel objects"); Obj &o = O[nO]; memset(&o, 0, sizeof o); o.kind = k; o.fib = -1; o.owner = -1; if (k == OK_MUTEX) nmutex++; return nO++; }
static HANDLE new_handle(int obj, void *who) { if (nH >= MAXOBJ) sim_fail("handles-exhausted", "too many handles"); H[nH].obj = obj; H[nH].closed = 0; H[nH].who = who; O[obj].refs++; nH++; return (HANDLE)(uintptr_t)(0x100 + nH * 4); }
static int seterr(DWORD e) { if (cur >= 0) F[cur].lasterr = e; return 0; }
static int hidx(HANDLE h) { uintptr_t v = (uintptr_t)h; if (v <= 0x100 || (v & 3)) return -1; v = (v - 0x100) / 4; if (v < 1 || (int)v > nH) return -1; return (int)v - 1; }
// object of a handle or -1 (last error set); a closed handle is a violation
static int hobj(HANDLE h, const char *fn) {
  if (h == (HANDLE)(intptr_t)-2) return F[cur].threadobj;
  int i = hidx(h);
  if (i < 0) { seterr(ERROR_INVALID_HANDLE);
    if (h && h != INVALID_HANDLE_VALUE) { char d[160] = ""; sim_describe(cur, d, sizeof d); sim_fail("bad-handle", "%s on a value that was never a handle (%p) by f%d in %s", fn, h, cur, d); }
    return -1; }
  if (H[i].closed) { char d[160] = ""; sim_describe(cur, d, sizeof d); sim_fail("closed-handle", "%s on a closed handle by f%d in %s", fn, cur, d); }
  return H[i].obj;
}
int sim_handle_kind(void *h) { int i = hidx(h); if (i < 0 || H[i].closed) return 0; return O[H[i].obj].kind; }
int sim_thread_of_handle(void *h) { int i = hidx(h); if (i < 0 || H[i].closed || O[H[i].obj].kind != OK_THREAD) return -1; return O[H[i].obj].fib; }
static void sys(void *pc) { now_ += cfg.tick; if (cfg.tick) fire_deadlines(); point(pc); }

static bool signaled(int o) {
  Obj &b = O[o];
  switch (b.kind) { case OK_EVENT: return b.sig; case OK_SEM: return b.count > 0; case OK_THREAD: return F[b.fib].st == FS_DONE; case OK_MUTEX: return b.owner < 0 || b.owner == cur; }
  return false;
}
static void consume(int o, int fib) { Obj &b = O[o]; if (b.kind == OK_EVENT && !b.manual) b.sig = 0; else if (b.kind == OK_SEM) b.count--; else if (b.kind == OK_MUTEX) { b.owner = fib; b.rec++; } }
static bool try_satisfy(int fi) {
  Fiber &f = F[fi];
  if (f.waitall) { for (int i = 0; i < f.nobj; i++) if (!signaled(f.obj[i])) return false; for (int i = 0; i < f.nobj; i++) consume(f.obj[i], fi); f.wres = 0; return true; }
  for (int i = 0; i < f.nobj; i++) if (signaled(f.obj[i])) { consume(f.obj[i], fi); f.wres = i; return true; }
  return false;
}
static void wake(int o) { // object became signalled
  for (;;) {
    if (!signaled(o)) return;
    int best = -1; uint64_t bk = 0;
    for (int i = 0; i < nF; i++) {
      Fiber &f = F[i]; if (f.st != FS_BLOCKED || f.susp || f.woken) continue;
      bool has = false; for (int k = 0; k < f.nobj; k++) if (f.obj[k] == o) has = true;
      if (!has) continue;
      if (f.waitall) { bool all = true; for (int k = 0; k < f.nobj; k++) if (!signaled(f.obj[k])) all = false; if (!all) continue; }
      uint64_t key = cfg.wake_policy == 0 ? ~f.bseq : cfg.wake_policy == 1 ? f.bseq : (f.bseq * 0x9E3779B97F4A7C15ull ^ cfg.seed * 77) >> 7;
      if (best < 0 || key > bk) { best = i; bk = key; }
    }
    if (best < 0) return;
    int sc = cur; cur = best; bool okk = try_satisfy(best); cur = sc; if (!okk) return;
    F[best].woken = 1; F[best].st = FS_READY; F[best].deadline = INF; F[best].nobj = 0;
  }
}
static DWORD run_apcs() { Fiber &f = F[cur]; int n = 0; while (f.napc) { PAPCFUNC g = f.apc[0].f; ULONG_PTR a = f.apc[0].a; memmove(f.apc, f.apc + 1, sizeof f.apc[0] * --f.napc); g(a); n++; } return n; }
static DWORD dowait(int n, const HANDLE *h, BOOL all, DWORD ms, BOOL alert, void *pc, const char *fn) {
  sys(pc);
  Fiber &f = F[cur]; int ob[64];
  if (n < 1 || n > 64) { seterr(ERROR_INVALID_PARAMETER); return WAIT_FAILED; }
  for (int i = 0; i < n; i++) { ob[i] = hobj(h[i], fn); if (ob[i] < 0) return WAIT_FAILED; }
  if (alert && f.napc) { run_apcs(); return WAIT_IO_COMPLETION; }
  f.nobj = n; memcpy(f.obj, ob, n * sizeof(int)); f.waitall = all;
  if (try_satisfy(cur)) { f.nobj = 0; return f.wres; }
  if (ms == 0) { f.nobj = 0; return WAIT_TIMEOUT; }
  f.deadline = ms == INFINITE ? INF : now_ + (uint64_t)ms * 10000; f.bseq = ++seq_; f.woken = 0; f.alert = alert; f.st = FS_BLOCKED;
  block();
  f.nobj = 0;
  if (alert && f.napc) run_apcs();
  return f.wres;
}
extern "C" {
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { return dowait(1, &h, 0, ms, 0, RA, "WaitForSingleObject"); }
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL a) { return dowait(1, &h, 0, ms, a, RA, "WaitForSingleObjectEx"); }
DWORD WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms) { return dowait(n, h, all, ms, 0, RA, "WaitForMultipleObjects"); }
DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *h, BOOL all, DWORD ms, BOOL a) { return dowait(n, h, all, ms, a, RA, "WaitForMultipleObjectsEx"); }
HANDLE CreateEventA(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL init, LPCSTR) { sys(RA); if (fault(F_EVENT)) { seterr(ERROR_NO_SYSTEM_RESOURCES); return 0; } int o = new_obj(OK_EVENT); O[o].manual = manual; O[o].sig = init != 0; return new_handle(o, RA); }
BOOL SetEvent(HANDLE h) { sys(RA); int o = hobj(h, "SetEvent"); if (o < 0 || O[o].kind != OK_EVENT) return seterr(ERROR_INVALID_HANDLE); O[o].sig = 1; wake(o); return 1; }
BOOL ResetEvent(HANDLE h) { sys(RA); int o = hobj(h, "ResetEvent"); if (o < 0 || O[o].kind != OK_EVENT) return seterr(ERROR_INVALID_HANDLE); O[o].sig = 0; return 1; }
BOOL PulseEvent(HANDLE h) { sys(RA); int o = hobj(h, "PulseEvent"); if (o < 0 || O[o].kind != OK_EVENT) return seterr(ERROR_INVALID_HANDLE); O[o].sig = 1; wake(o); O[o].sig = 0; return 1; }
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCSTR) { sys(RA); if (fault(F_SEM)) { seterr(ERROR_NO_SYSTEM_RESOURCES); return 0; } if (init < 0 || max <= 0 || init > max) { seterr(ERROR_INVALID_PARAMETER); return 0; } int o = new_obj(OK_SEM); O[o].count = init; O[o].max = max; return new_handle(o, RA); }
BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG prev) {
  sys(RA); int o = hobj(h, "ReleaseSemaphore"); if (o < 0 || O[o].kind != OK_SEM) return seterr(ERROR_INVALID_HANDLE);
  if (n <= 0) return seterr(ERROR_INVALID_PARAMETER);
  if (prev) *prev = O[o].count;
  if ((long)O[o].count + n > O[o].max) return seterr(ERROR_TOO_MANY_POSTS);
  O[o].count += n; wake(o); return 1; }
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL own, LPCSTR) { sys(RA); if (fault(F_EVENT)) return 0; int o = new_obj(OK_MUTEX); if (own) { O[o].owner = cur; O[o].rec = 1; } return new_handle(o, RA); }
BOOL ReleaseMutex(HANDLE h) { sys(RA); int o = hobj(h, "ReleaseMutex"); if (o < 0 || O[o].kind != OK_MUTEX || O[o].owner != cur) return seterr(288); if (--O[o].rec == 0) { O[o].owner = -1; wake(o); } return 1; }
DWORD SignalObjectAndWait(HANDLE a, HANDLE b, DWORD ms, BOOL al) { int o = hobj(a, "SignalObjectAndWait"); if (o >= 0) { if (O[o].kind == OK_EVENT) O[o].sig = 1; else if (O[o].kind == OK_SEM) O[o].count++; wake(o); } return dowait(1, &b, 0, ms, al, RA, "SignalObjectAndWait"); }
BOOL CloseHandle(HANDLE h) {
  sys(RA); int i = hidx(h);
  if (h == (HANDLE)(intptr_t)-1 || h == (HANDLE)(intptr_t)-2) return 1;
  if (i < 0) { if (h) { char d[160] = ""; sim_describe(cur, d, sizeof d); sim_fail("bad-handle", "CloseHandle on a value that was never a handle (%p) in %s", h, d); } return seterr(ERROR_INVALID_HANDLE); }
  if (H[i].closed) { char d[160] = ""; sim_describe(cur, d, sizeof d); sim_fail("double-close", "handle closed twice by f%d in %s", cur, d); }
  H[i].closed = 1; O[H[i].obj].refs--; return 1; }
BOOL DuplicateHandle(HANDLE, HANDLE h, HANDLE, LPHANDLE out, DWORD, BOOL, DWORD opt) {
  sys(RA); if (fault(F_DUP)) { seterr(ERROR_NO_SYSTEM_RESOURCES); return 0; }
  int o = hobj(h, "DuplicateHandle"); if (o < 0) return 0;
  *out = new_handle(o, RA); if (opt & DUPLICATE_CLOSE_SOURCE) CloseHandle(h); return 1; }

// threads
static void fiber_main() {
  Fiber &f = F[cur];
  if (f.body) { f.body(f.earg); to_host(); }
  DWORD c = f.entry(f.earg);
  _endthreadex(c);
}
static int spawn(unsigned (*e)(void *), void *a, bool susp) {
  int i = -1; if (recycle) for (int k = 1; k < nF; k++) if (k != cur && F[k].st == FS_DONE && !O[F[k].threadobj].refs) { i = k; break; }
  if (i < 0) { if (nF >= NFIB) sim_fail("too-many-threads", "more than %d threads in one case", NFIB); i = nF++; }
  fgen[i]++; memset(&flt[i], 0, sizeof flt[i]); flt_hit[i] = 0; Fiber &f = F[i]; char *lo = f.lo, *hi = f.hi; memset(&f, 0, sizeof f); f.lo = lo; f.hi = hi;
  f.st = FS_READY; f.susp = susp; f.deadline = INF; f.entry = e; f.earg = a; f.ostid = 4 * (i + 1) + 0x400;
  f.prio = 0; f.aff = own_proc.pmask;
  f.pct = 1000 + (long)rn(100000);
  void **s = (void **)f.hi; *--s = 0; *--s = 0; *--s = 0; *--s = (void *)fiber_main; for (int k = 0; k < 6; k++) *--s = 0; f.sp = s;
  f.threadobj = new_obj(OK_THREAD); O[f.threadobj].fib = i; sim_res.nfib = nF;
  return i;
}
uintptr_t _beginthreadex(void *, unsigned stk, unsigned (*st)(void *), void *a, unsigned flags, unsigned *id) {
  sys(RA); if (fault(F_THREAD)) { *sim_errno_location() = EAGAIN; seterr(ERROR_NOT_ENOUGH_MEMORY); return 0; }
  int i = spawn(st, a, flags & CREATE_SUSPENDED); F[i].stacksz = stk; if (id) *id = F[i].ostid;
  return (uintptr_t)new_handle(F[i].threadobj, RA); }
uintptr_t _beginthread(void (*st)(void *), unsigned, void *a) { sys(RA); if (fault(F_THREAD)) return (uintptr_t)-1; int i = spawn((unsigned (*)(void *))st, a, false); return (uintptr_t)new_handle(F[i].threadobj, RA); }
HANDLE CreateThread(LPSECURITY_ATTRIBUTES, SIZE_T, LPTHREAD_START_ROUTINE st, LPVOID a, DWORD flags, LPDWORD id) {
  sys(RA); if (fault(F_THREAD)) { seterr(ERROR_NOT_ENOUGH_MEMORY); return 0; }
  int i = spawn((unsigned (*)(void *))st, a, flags & CREATE_SUSPENDED); if (id) *id = F[i].ostid;
  return new_handle(F[i].threadobj, RA); }
static void finish(int i, DWORD code) { F[i].exitcode = code; F[i].st = FS_DONE; F[i].susp = 0; F[i].nobj = 0; F[i].deadline = INF; if (nmutex) for (int k = 0; k < nO; k++) if (O[k].kind == OK_MUTEX && O[k].owner == i) { O[k].owner = -1; O[k].rec = 0; } wake(F[i].threadobj); }
void _endthreadex(unsigned c) { point(RA); atomic_on = false; finish(cur, c); sim_note("thread ends"); choose(0, 0); __builtin_unreachable(); }
void _endthread(void) { _endthreadex(0); }
void ExitThread(DWORD c) { _endthreadex(c); }
static int fibof(HANDLE h, const char *fn) { int o = hobj(h, fn); if (o < 0 || O[o].kind != OK_THREAD) { seterr(ERROR_INVALID_HANDLE); return -1; } return O[o].fib; }
static void resumed(int i) { if (F[i].st == FS_BLOCKED && !F[i].woken) { int sc = cur; cur = i; if (try_satisfy(i)) { F[i].woken = 1; F[i].st = FS_READY; F[i].deadline = INF; F[i].nobj = 0; } cur = sc; } }
DWORD ResumeThread(HANDLE h) { sys(RA); int i = fibof(h, "ResumeThread"); if (i < 0) return -1; if (F[i].st == FS_DONE) return (DWORD)-1; int o = F[i].susp; if (o) { F[i].susp--; if (!F[i].susp) resumed(i); } return o; }
DWORD SuspendThread(HANDLE h) { sys(RA); int i = fibof(h, "SuspendThread"); if (i < 0) return -1; if (F[i].st == FS_DONE) { seterr(ERROR_ACCESS_DENIED); return (DWORD)-1; } int o = F[i].susp++; if (i == cur) block(); return o; }
BOOL TerminateThread(HANDLE h, DWORD c) { sys(RA); int i = fibof(h, "TerminateThread"); if (i < 0) return 0; if (F[i].st != FS_DONE) { finish(i, c); if (i == cur) choose(0, 0); } return 1; }
BOOL GetExitCodeThread(HANDLE h, LPDWORD c) { sys(RA); int i = fibof(h, "GetExitCodeThread"); if (i < 0) return 0; *c = F[i].st == FS_DONE ? F[i].exitcode : STILL_ACTIVE; return 1; }
BOOL GetThreadContext(HANDLE h, LPCONTEXT c) { sys(RA); int i = fibof(h, "GetThreadContext"); if (i < 0) return 0; c->Rip = F[i].hijack ? F[i].hijack : 1; c->Rsp = (uint64_t)F[i].sp; return 1; }
BOOL SetThreadContext(HANDLE h, const CONTEXT *c) { sys(RA); int i = fibof(h, "SetThreadContext"); if (i < 0 || F[i].st == FS_DONE) return 0; if (!F[i].susp) sim_fail("context", "context of a running thread changed"); if (c->Rip > 1) F[i].hijack = c->Rip; return 1; }
DWORD QueueUserAPC(PAPCFUNC g, HANDLE h, ULONG_PTR a) { sys(RA); int i = fibof(h, "QueueUserAPC"); if (i < 0 || F[i].napc >= 8) return 0; F[i].apc[F[i].napc].f = g; F[i].apc[F[i].napc++].a = a; if (F[i].st == FS_BLOCKED && F[i].alert && !F[i].woken) { F[i].woken = 1; F[i].wres = WAIT_IO_COMPLETION; F[i].st = FS_READY; F[i].deadline = INF; } return 1; }
static int prio_fail; int sim_fail_prio(int n) { int o = prio_fail; prio_fail = n; return o; }
BOOL SetThreadPriority(HANDLE h, int p) { sys(RA); if (prio_fail) { prio_fail--; return seterr(ERROR_ACCESS_DENIED); } int i = fibof(h, "SetThreadPriority"); if (i < 0) return 0; if (!(p == -15 || p == 15 || (p >= -2 && p <= 2))) return seterr(ERROR_INVALID_PARAMETER); F[i].prio = p; return 1; }
int GetThreadPriority(HANDLE h) { sys(RA); int i = fibof(h, "GetThreadPriority"); return i < 0 ? THREAD_PRIORITY_ERROR_RETURN : F[i].prio; }
DWORD_PTR SetThreadAffinityMask(HANDLE h, DWORD_PTR m) { sys(RA); int i = fibof(h, "SetThreadAffinityMask"); if (i < 0) return 0; if (!m || (m & ~own_proc.pmask)) { seterr(ERROR_INVALID_PARAMETER); return 0; } DWORD_PTR o = F[i].aff; F[i].aff = m; return o; }
static Obj *procof(HANDLE h, const char *fn) { if (h == (HANDLE)(intptr_t)-1) return &own_proc; int o = hobj(h, fn); if (o < 0 || O[o].kind != OK_PROC) { seterr(ERROR_INVALID_HANDLE); return 0; } return O[o].pid == SIM_OWN_PID ? &own_proc : &other_proc; }
BOOL GetProcessAffinityMask(HANDLE h, PDWORD_PTR p, PDWORD_PTR s) { sys(RA); Obj *o = procof(h, "GetProcessAffinityMask"); if (!o) return 0; *p = o->pmask; *s = cfg.sys_mask; return 1; }
BOOL SetProcessAffinityMask(HANDLE h, DWORD_PTR m) { sys(RA); Obj *o = procof(h, "SetProcessAffinityMask"); if (!o) return 0; if (!m || (m & ~cfg.sys_mask)) return seterr(ERROR_INVALID_PARAMETER); o->pmask = m; if (o == &own_proc) for (int i = 0; i < nF; i++) F[i].aff = m; return 1; }
HANDLE OpenProcess(DWORD, BOOL, DWORD pid) { sys(RA); if (pid == SIM_DENIED_PID) { seterr(ERROR_ACCESS_DENIED); return 0; } if (pid != SIM_OWN_PID && pid != SIM_OTHER_PID) { seterr(ERROR_INVALID_PARAMETER); return 0; } int o = new_obj(OK_PROC); O[o].pid = pid; return new_handle(o, RA); }
HANDLE OpenThread(DWORD, BOOL, DWORD id) { sys(RA); int i = sim_fiber_of_os_tid(id); if (i < 0) { seterr(ERROR_INVALID_PARAMETER); return 0; } return new_handle(F[i].threadobj, RA); }
HANDLE GetCurrentThread(void) { return (HANDLE)(intptr_t)-2; }
HANDLE GetCurrentProcess(void) { return (HANDLE)(intptr_t)-1; }
DWORD GetCurrentThreadId(void) { return cur >= 0 ? F[cur].ostid : 1; }
DWORD GetCurrentProcessId(void) { return SIM_OWN_PID; }
DWORD GetThreadId(HANDLE h) { int i = fibof(h, "GetThreadId"); return i < 0 ? 0 : F[i].ostid; }
// TLS
DWORD TlsAlloc(void) { sys(RA); if (fault(F_TLS)) { seterr(ERROR_NO_SYSTEM_RESOURCES); return TLS_OUT_OF_INDEXES; } for (DWORD i = 0; i < 128; i++) if (!tls_used[i]) { tls_used[i] = 1; ntls++; for (int k = 0; k < NFIB; k++) F[k].tls[i] = 0; return i; } seterr(ERROR_NO_SYSTEM_RESOURCES); return TLS_OUT_OF_INDEXES; }
BOOL TlsFree(DWORD i) { sys(RA); if (i >= 128 || !tls_used[i]) { char d[160] = ""; sim_describe(cur, d, sizeof d); sim_fail("double-close", "thread-local slot freed that is not allocated, in %s", d); } tls_used[i] = 0; ntls--; return 1; }
LPVOID TlsGetValue(DWORD i) { sys(RA); if (i >= 128 || !tls_used[i]) { seterr(ERROR_INVALID_PARAMETER); return 0; } seterr(0); return F[cur].tls[i]; }
BOOL TlsSetValue(DWORD i, LPVOID v) { sys(RA); if (i >= 128 || !tls_used[i]) return seterr(ERROR_INVALID_PARAMETER); F[cur].tls[i] = v; return 1; }
// time
static void do_sleep(DWORD ms, BOOL alert, void *pc) {
  sys(pc); Fiber &f = F[cur];
  if (ms == 0) { sim_yield(); return; }
  f.nobj = 0; f.waitall = 0; f.woken = 0; f.alert = alert; f.deadline = ms == INFINITE ? INF : now_ + (uint64_t)ms * 10000; f.bseq = ++seq_; f.st = FS_BLOCKED; block();
}
void Sleep(DWORD ms) { do_sleep(ms, 0, RA); }
DWORD SleepEx(DWORD ms, BOOL a) { do_sleep(ms, a, RA); return 0; }
BOOL SwitchToThread(void) { sys(RA); sim_yield(); return 1; }
void GetSystemTimeAsFileTime(LPFILETIME f) { sys(RA); f->dwLowDateTime = (DWORD)now_; f->dwHighDateTime = (DWORD)(now_ >> 32); }
void GetSystemTimePreciseAsFileTime(LPFILETIME f) { GetSystemTimeAsFileTime(f); }
void GetSystemTime(LPSYSTEMTIME st) {
  sys(RA); uint64_t ms = now_ / 10000; st->wMilliseconds = ms % 1000; uint64_t s = ms / 1000; st->wSecond = s % 60; st->wMinute = s / 60 % 60; st->wHour = s / 3600 % 24; uint64_t days = s / 86400; st->wDayOfWeek = (days + 1) % 7;
  int64_t z = (int64_t)days - 134774 + 719468; int64_t era = z / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  st->wDay = doy - (153 * mp + 2) / 5 + 1; st->wMonth = mp < 10 ? mp + 3 : mp - 9; st->wYear = y + (st->wMonth <= 2); }
BOOL SystemTimeToFileTime(const SYSTEMTIME *t, LPFILETIME f) {
  int64_t y = t->wYear; unsigned m = t->wMonth; y -= m <= 2; int64_t era = y / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t->wDay - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; int64_t days = era * 146097 + (int64_t)doe - 719468 + 134774;
  uint64_t v = ((((uint64_t)days * 24 + t->wHour) * 60 + t->wMinute) * 60 + t->wSecond) * 10000000ull + t->wMilliseconds * 10000ull; f->dwLowDateTime = (DWORD)v; f->dwHighDateTime = v >> 32; return 1; }
DWORD GetTickCount(void) { sys(RA); return (DWORD)(now_ / 10000); }
ULONGLONG GetTickCount64(void) { sys(RA); return now_ / 10000; }
BOOL QueryPerformanceCounter(LARGE_INTEGER *l) { sys(RA); l->QuadPart = now_; return 1; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER *l) { l->QuadPart = 10000000; return 1; }
DWORD GetLastError(void) { return cur >= 0 ? F[cur].lasterr : 0; }
void SetLastError(DWORD e) { if (cur >= 0) F[cur].lasterr = e; }
HMODULE LoadLibraryA(LPCSTR) { sys(RA); seterr(126); return 0; }
BOOL FreeLibrary(HMODULE) { return 1; }
FARPROC GetProcAddress(HMODULE, LPCSTR) { return 0; }
HMODULE GetModuleHandleA(LPCSTR) { return 0; }
UINT GetSystemDirectoryA(LPSTR b, UINT n) { const char *s = "C:\\WINDOWS\\system32"; if (strlen(s) + 1 > n) return strlen(s) + 1; strcpy(b, s); return strlen(s); }
void GetSystemInfo(LPSYSTEM_INFO s) { memset(s, 0, sizeof *s); s->dwActiveProcessorMask = cfg.sys_mask; s->dwNumberOfProcessors = __builtin_popcountll(cfg.sys_mask); s->dwPageSize = 4096; }
void OutputDebugStringA(LPCSTR) {}
void RaiseException(DWORD c, DWORD, DWORD, const ULONG_PTR *) { sim_fail("exception", "RaiseException(0x%x)", c); }
void InitializeCriticalSection(LPCRITICAL_SECTION c) { memset(c, 0, sizeof *c); c->ev = CreateEventA(0, 0, 0, 0); c->owner = 0; }
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { InitializeCriticalSection(c); return 1; }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { CloseHandle(c->ev); c->ev = 0; }
void EnterCriticalSection(LPCRITICAL_SECTION c) { sim_asm_access(c); DWORD me = GetCurrentThreadId(); while (c->owner && c->owner != me) { c->cnt++; WaitForSingleObject(c->ev, INFINITE); c->cnt--; } c->owner = me; c->rec++; }
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) { sim_asm_access(c); DWORD me = GetCurrentThreadId(); if (c->owner && c->owner != me) return 0; c->owner = me; c->rec++; return 1; }
void LeaveCriticalSection(LPCRITICAL_SECTION c) { sim_asm_access(c); if (--c->rec == 0) { c->owner = 0; if (c->cnt) SetEvent(c->ev); } }
} // extern C

// ---------------------------------------------------------------- library globals
extern "C" { extern char __start_ptw_data[] __attribute__((weak)), __stop_ptw_data[] __attribute__((weak)), __start_ptw_bss[] __attribute__((weak)), __stop_ptw_bss[] __attribute__((weak));
typedef int (*ctorfn)(void);
extern ctorfn __start_ptw_ctors[] __attribute__((weak)), __stop_ptw_ctors[] __attribute__((weak)), __start_ptw_dtors[] __attribute__((weak)), __stop_ptw_dtors[] __attribute__((weak)); }
static char *snap_d, *snap_b;
void sim_lib_ctors(void) { for (ctorfn *p = __start_ptw_ctors; p < __stop_ptw_ctors; p++) if (*p && *p != (ctorfn)(intptr_t)-1) (*p)(); }
void sim_lib_dtors(void) { for (ctorfn *p = __start_ptw_dtors; p < __stop_ptw_dtors; p++) if (*p && *p != (ctorfn)(intptr_t)-1) (*p)(); }

static void on_signal(int sig, siginfo_t *si, void *) {
  if (!host_env_ok) { signal(sig, SIG_DFL); raise(sig); return; }
  char d[160] = ""; on = false;
  if (cur >= 0) sim_describe(cur, d, sizeof d);
  if (!sim_res.failed) {
    sim_res.failed = 1;
    const char *k = sig == SIGSEGV || sig == SIGBUS ? "crash" : sig == SIGFPE ? "fpe" : sig == SIGILL ? "crash" : sig == SIGABRT ? "abort" : "hang";
    snprintf(sim_res.kind, sizeof sim_res.kind, "%s", k);
    snprintf(sim_res.msg, sizeof sim_res.msg, "signal %d (address %p) in f%d: %s", sig, sig == SIGSEGV ? si->si_addr : 0, cur, d);
  }
  siglongjmp(host_env, 1);
}
static void on_terminate() { sim_fail("terminate", "an exception left a thread or a no-throw function (std::terminate)"); }
static char sigstk[65536];
namespace std { typedef void (*th)(); th set_terminate(th) noexcept; }
void sim_init(void) {
  size_t an = NFIB * STK;
  arena = (char *)mmap((void *)0x600000000000, an, PROT_READ | PROT_WRITE, MAP_FIXED_NOREPLACE | MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < NFIB; i++) { F[i].lo = arena + i * STK; F[i].hi = F[i].lo + STK; mprotect(F[i].lo, 4096, PROT_NONE); }
  heap = (char *)mmap((void *)0x610000000000, HEAP, PROT_READ | PROT_WRITE, MAP_FIXED_NOREPLACE | MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (uint8_t *)mmap(0, HEAP / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stkmark = (uint8_t *)mmap(0, an / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  marks = (uint32_t *)mmap(0, an / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  blk = (Blk *)mmap(0, MAXBLK * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t dn = __stop_ptw_data - __start_ptw_data, bn = __stop_ptw_bss - __start_ptw_bss;
  snap_d = (char *)malloc(dn + 1); snap_b = (char *)malloc(bn + 1); memcpy(snap_d, __start_ptw_data, dn); memcpy(snap_b, __start_ptw_bss, bn);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = sigstk; ss.ss_size = sizeof sigstk; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}; for (int s : sg) sigaction(s, &sa, 0);
  std::set_terminate(on_terminate);
}
int sim_case(const SimCfg *c, void (*body)(void *), void *arg) {
  cfg = *c; memset(&sim_res, 0, sizeof sim_res);
  if (!cfg.max_steps) cfg.max_steps = 60000;
  if (hp) { memset(shadow, 0, hp / 8 + 8); } hp = 0; nblk = 0; user_region = 0; fillseed = cfg.seed;
  for (int i = 0; i < nmarks; i++) stkmark[marks[i]] = 0; nmarks = 0;
  nO = nH = nmutex = 0; recycle = false; memset(tls_used, 0, sizeof tls_used); ntls = 0; memset(flt, 0, sizeof flt); memset(flt_hit, 0, sizeof flt_hit); seq_ = 0;
  memset(&own_proc, 0, sizeof own_proc); own_proc.kind = OK_PROC; own_proc.pmask = cfg.proc_mask; other_proc = own_proc; other_proc.pmask = cfg.sys_mask;
  memcpy(__start_ptw_data, snap_d, __stop_ptw_data - __start_ptw_data); memcpy(__start_ptw_bss, snap_b, __stop_ptw_bss - __start_ptw_bss);
  idle_hook = 0; forced_ = 0; nF = 0; cur = -1; step_ = 0; consec = 0; decp = 0; fair = false; lastswitch = 0; sim_nlog = 0; now_ = cfg.start_time; rngs = cfg.seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rngs) rngs = 1;
  for (int i = 0; i < 4; i++) rnd();
  nchg = chgp = 0; pct_low = 0; victim = 1 + rn(4); atomic_on = false;
  if (cfg.strategy == ST_PCT || cfg.strategy == ST_KPRE) {
    nchg = cfg.depth; if (nchg > 64) nchg = 64; for (int i = 0; i < nchg; i++) chg[i] = cfg.base + 1 + rn(cfg.len ? cfg.len : 1000);
    for (int i = 0; i < nchg; i++) for (int j = i + 1; j < nchg; j++) if (chg[j] < chg[i]) { uint32_t t = chg[i]; chg[i] = chg[j]; chg[j] = t; }
  }
  plan_next();
  int i = spawn(0, arg, false); F[i].body = body;
  save_cxa(cxa_host);
  struct itimerval tv = {{0, 0}, {8, 0}}, off = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &tv, 0);
  if (sigsetjmp(host_env, 1) == 0) { host_env_ok = true; cur = 0; on = true; sim_switch(&host_sp, F[0].sp); }
  else load_cxa(cxa_host);
  host_env_ok = false; on = false; cur = -1;
  setitimer(ITIMER_VIRTUAL, &off, 0);
  sim_res.steps = step_; sim_res.end_time = now_;
  return sim_res.failed;
}
