/* generated: glibc macros that would shadow the library headers */
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <limits.h>
#include <errno.h>
#include <sys/types.h>
#undef CPU_ALLOC
#undef CPU_ALLOC_SIZE
#undef CPU_AND
#undef CPU_AND_S
#undef CPU_CLR
#undef CPU_CLR_S
#undef CPU_COUNT
#undef CPU_COUNT_S
#undef CPU_EQUAL
#undef CPU_EQUAL_S
#undef CPU_FREE
#undef CPU_ISSET
#undef CPU_ISSET_S
#undef CPU_OR
#undef CPU_OR_S
#undef CPU_SET
#undef CPU_SETSIZE
#undef CPU_SET_S
#undef CPU_XOR
#undef CPU_XOR_S
#undef CPU_ZERO
#undef CPU_ZERO_S
#undef PTHREAD_ADAPTIVE_MUTEX_INITIALIZER_NP
#undef PTHREAD_ATTR_NO_SIGMASK_NP
#undef PTHREAD_BARRIER_SERIAL_THREAD
#undef PTHREAD_CANCELED
#undef PTHREAD_CANCEL_ASYNCHRONOUS
#undef PTHREAD_CANCEL_DEFERRED
#undef PTHREAD_CANCEL_DISABLE
#undef PTHREAD_CANCEL_ENABLE
#undef PTHREAD_COND_INITIALIZER
#undef PTHREAD_CREATE_DETACHED
#undef PTHREAD_CREATE_JOINABLE
#undef PTHREAD_DESTRUCTOR_ITERATIONS
#undef PTHREAD_ERRORCHECK_MUTEX_INITIALIZER_NP
#undef PTHREAD_EXPLICIT_SCHED
#undef PTHREAD_INHERIT_SCHED
#undef PTHREAD_KEYS_MAX
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_ONCE_INIT
#undef PTHREAD_PROCESS_PRIVATE
#undef PTHREAD_PROCESS_SHARED
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP
#undef PTHREAD_RWLOCK_INITIALIZER
#undef PTHREAD_RWLOCK_WRITER_NONRECURSIVE_INITIALIZER_NP
#undef PTHREAD_SCOPE_PROCESS
#undef PTHREAD_SCOPE_SYSTEM
#undef PTHREAD_STACK_MIN
#undef SCHED_BATCH
#undef SCHED_DEADLINE
#undef SCHED_FIFO
#undef SCHED_IDLE
#undef SCHED_ISO
#undef SCHED_OTHER
#undef SCHED_RESET_ON_FORK
#undef SCHED_RR
#undef SEM_FAILED
#undef SEM_VALUE_MAX
#undef _POSIX2_BC_BASE_MAX
#undef _POSIX2_BC_DIM_MAX
#undef _POSIX2_BC_SCALE_MAX
#undef _POSIX2_BC_STRING_MAX
#undef _POSIX2_CHARCLASS_NAME_MAX
#undef _POSIX2_CHAR_TERM
#undef _POSIX2_COLL_WEIGHTS_MAX
#undef _POSIX2_C_BIND
#undef _POSIX2_C_DEV
#undef _POSIX2_C_VERSION
#undef _POSIX2_EXPR_NEST_MAX
#undef _POSIX2_LINE_MAX
#undef _POSIX2_LOCALEDEF
#undef _POSIX2_RE_DUP_MAX
#undef _POSIX2_SW_DEV
#undef _POSIX2_VERSION
#undef _POSIX_ADVISORY_INFO
#undef _POSIX_AIO_LISTIO_MAX
#undef _POSIX_AIO_MAX
#undef _POSIX_ARG_MAX
#undef _POSIX_ASYNCHRONOUS_IO
#undef _POSIX_ASYNC_IO
#undef _POSIX_BARRIERS
#undef _POSIX_CHILD_MAX
#undef _POSIX_CHOWN_RESTRICTED
#undef _POSIX_CLOCKRES_MIN
#undef _POSIX_CLOCK_SELECTION
#undef _POSIX_CPUTIME
#undef _POSIX_DELAYTIMER_MAX
#undef _POSIX_FD_SETSIZE
#undef _POSIX_FSYNC
#undef _POSIX_HIWAT
#undef _POSIX_HOST_NAME_MAX
#undef _POSIX_IPV6
#undef _POSIX_JOB_CONTROL
#undef _POSIX_LINK_MAX
#undef _POSIX_LOGIN_NAME_MAX
#undef _POSIX_MAPPED_FILES
#undef _POSIX_MAX_CANON
#undef _POSIX_MAX_INPUT
#undef _POSIX_MEMLOCK
#undef _POSIX_MEMLOCK_RANGE
#undef _POSIX_MEMORY_PROTECTION
#undef _POSIX_MESSAGE_PASSING
#undef _POSIX_MONOTONIC_CLOCK
#undef _POSIX_MQ_OPEN_MAX
#undef _POSIX_MQ_PRIO_MAX
#undef _POSIX_NAME_MAX
#undef _POSIX_NGROUPS_MAX
#undef _POSIX_NO_TRUNC
#undef _POSIX_OPEN_MAX
#undef _POSIX_PATH_MAX
#undef _POSIX_PIPE_BUF
#undef _POSIX_PRIORITIZED_IO
#undef _POSIX_PRIORITY_SCHEDULING
#undef _POSIX_QLIMIT
#undef _POSIX_RAW_SOCKETS
#undef _POSIX_READER_WRITER_LOCKS
#undef _POSIX_REALTIME_SIGNALS
#undef _POSIX_REENTRANT_FUNCTIONS
#undef _POSIX_REGEXP
#undef _POSIX_RE_DUP_MAX
#undef _POSIX_RTSIG_MAX
#undef _POSIX_SAVED_IDS
#undef _POSIX_SEMAPHORES
#undef _POSIX_SEM_NSEMS_MAX
#undef _POSIX_SEM_VALUE_MAX
#undef _POSIX_SHARED_MEMORY_OBJECTS
#undef _POSIX_SHELL
#undef _POSIX_SIGQUEUE_MAX
#undef _POSIX_SPAWN
#undef _POSIX_SPIN_LOCKS
#undef _POSIX_SPORADIC_SERVER
#undef _POSIX_SSIZE_MAX
#undef _POSIX_STREAM_MAX
#undef _POSIX_SYMLINK_MAX
#undef _POSIX_SYMLOOP_MAX
#undef _POSIX_SYNCHRONIZED_IO
#undef _POSIX_THREADS
#undef _POSIX_THREAD_ATTR_STACKADDR
#undef _POSIX_THREAD_ATTR_STACKSIZE
#undef _POSIX_THREAD_CPUTIME
#undef _POSIX_THREAD_DESTRUCTOR_ITERATIONS
#undef _POSIX_THREAD_KEYS_MAX
#undef _POSIX_THREAD_PRIORITY_SCHEDULING
#undef _POSIX_THREAD_PRIO_INHERIT
#undef _POSIX_THREAD_PRIO_PROTECT
#undef _POSIX_THREAD_PROCESS_SHARED
#undef _POSIX_THREAD_ROBUST_PRIO_INHERIT
#undef _POSIX_THREAD_ROBUST_PRIO_PROTECT
#undef _POSIX_THREAD_SAFE_FUNCTIONS
#undef _POSIX_THREAD_SPORADIC_SERVER
#undef _POSIX_THREAD_THREADS_MAX
#undef _POSIX_TIMEOUTS
#undef _POSIX_TIMERS
#undef _POSIX_TIMER_MAX
#undef _POSIX_TRACE
#undef _POSIX_TRACE_EVENT_FILTER
#undef _POSIX_TRACE_INHERIT
#undef _POSIX_TRACE_LOG
#undef _POSIX_TTY_NAME_MAX
#undef _POSIX_TYPED_MEMORY_OBJECTS
#undef _POSIX_TZNAME_MAX
#undef _POSIX_UIO_MAXIOV
#undef _POSIX_V6_LP64_OFF64
#undef _POSIX_V6_LPBIG_OFFBIG
#undef _POSIX_V7_LP64_OFF64
#undef _POSIX_V7_LPBIG_OFFBIG
#undef _POSIX_VDISABLE
#undef _POSIX_VERSION
#undef _XOPEN_UNIX
#undef __CPUELT
#undef __CPUMASK
#undef __CPU_ALLOC
#undef __CPU_ALLOC_SIZE
#undef __CPU_CLR_S
#undef __CPU_COUNT_S
#undef __CPU_EQUAL_S
#undef __CPU_FREE
#undef __CPU_ISSET_S
#undef __CPU_MASK_TYPE
#undef __CPU_OP_S
#undef __CPU_SETSIZE
#undef __CPU_SET_S
#undef __CPU_ZERO_S
#undef pthread_cleanup_pop
#undef pthread_cleanup_pop_restore_np
#undef pthread_cleanup_push
#undef pthread_cleanup_push_defer_np
#undef sched_priority
#undef _SCHED_H
#undef _SEMAPHORE_H
