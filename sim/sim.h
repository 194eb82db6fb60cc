// Deterministic simulator of the Win32 layer: fibers, virtual clock, kernel objects, heap, faults, schedule search.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { ST_DEFAULT, ST_RANDOM, ST_PCT, ST_KPRE, ST_STARVE, ST_REPLAY };
typedef struct SimDec { uint32_t step; int16_t act; uint16_t arg; } SimDec; // act>=0: run that fiber; -1: advance time to next deadline; -2: advance by arg*10us
enum { F_MEM, F_EVENT, F_SEM, F_THREAD, F_TLS, F_DUP, F_NCLASS };
typedef struct SimCfg {
  uint64_t start_time;      // FILETIME units
  uint32_t tick;            // clock ticks per Win32 call
  int wake_policy;          // 0 fifo 1 lifo 2 hashed
  uint64_t sys_mask, proc_mask;
  int strategy; uint64_t seed; int gap, depth; uint32_t base, len; int adv_permille;
  const SimDec *dec; int ndec;
  uint32_t max_steps;
  int cxx;                  // async hijack only at harness points
} SimCfg;
typedef struct SimRes {
  int failed; char kind[32]; char msg[600];
  uint32_t steps, switches, mark; int nfib;
  uint64_t end_time; uint64_t trace_hash;
} SimRes;
extern SimRes sim_res;
extern SimDec sim_log[]; extern int sim_nlog;
void sim_init(void);
int sim_case(const SimCfg *c, void (*body)(void *), void *arg); // 0 ok, 1 failed (sim_res)
void sim_fail(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_point(void);               // harness scheduling point
int sim_redirected(void);           // an asynchronous cancellation has been started on this fiber
void sim_spin_point(void);          // may throw / longjmp: asynchronous cancellation is delivered here
void sim_yield(void);
void sim_wait_quiet(void);          // fiber 0: until nobody else can run and no deadline is pending
void sim_wait_quiet_keep_time(void);// same, pending deadlines do not count and the clock is not moved
int sim_wait_until(int (*pred)(void *), void *arg); // block until pred; evaluated by the scheduler
void sim_set_idle_hook(void (*f)(void)); // called when every thread is blocked, just before the clock jumps to the next deadline
int sim_atomic(int on);             // returns previous; no preemption while on
uint64_t sim_now(void); uint64_t sim_forced(void) /* how much the schedule has moved the clock while threads could run */; void sim_advance(uint64_t d); void sim_set_time(uint64_t t);
int sim_cur(void);
int sim_alone(int me);
void sim_recycle(int on);           // threads that have ended and have no open handles give their place to new ones
void sim_long(uint32_t steps);      // this case may take so many steps before it counts as not progressing
unsigned sim_fiber_gen(int id);     // changes when a place is given to another thread
int sim_fiber_done(int id); int sim_fiber_blocked(int id); int sim_fiber_timed(int id) /* blocked, and will time out */;
int sim_live_handles(void); int sim_live_blocks(void); int sim_live_tls(void);
void sim_leak_report(char *buf, int n);
void sim_fault_arm(int cls, int nth, int count); // nth>=1; 0 disarms
void sim_fault_arm_all(int cls, int nth, int count); // calls of every thread count
int sim_fault_calls(int cls); int sim_fault_hit(void);
void sim_user_region(int on);       // allocations made now belong to the harness (not counted as library blocks)
void *sim_umalloc(size_t n); void sim_ufree(void *p);
uint32_t sim_step(void); void sim_mark(void);
int sim_fiber_of_os_tid(unsigned tid); unsigned sim_os_tid(int fiber); int sim_fiber_prio(int id); int sim_fail_prio(int n); /* the next n SetThreadPriority calls fail; returns how many were left */ unsigned sim_fiber_stack(int id); uint64_t sim_fiber_aff(int id);
uint64_t sim_proc_mask(void); uint64_t sim_other_proc_mask(void);
int sim_handle_kind(void *h); // 0 invalid 1 event 2 sem 3 thread 4 mutex 5 process
int sim_thread_of_handle(void *h);
int sim_ready_others(void);
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int sim_trace;
int sim_in_main(void);
uint64_t sim_cov_edges(uint64_t *total);
void sim_lib_ctors(void); void sim_lib_dtors(void);
int *sim_errno_location(void);
#ifdef __cplusplus
}
#endif
enum { SIM_OWN_PID = 1000, SIM_OTHER_PID = 2000, SIM_DENIED_PID = 3000 };
