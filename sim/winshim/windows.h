/* Simulated Win32 layer: the types and functions the library uses (and close relatives). Implemented in sim.cpp. */
#ifndef SIM_WINDOWS_H
#define SIM_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include "posix_undef.h"
#ifdef __cplusplus
#include <new>
#include <exception>
extern "C" {
#endif
typedef void VOID; typedef void *PVOID; typedef void *LPVOID; typedef const void *LPCVOID;
typedef int BOOL; typedef BOOL *PBOOL, *LPBOOL; typedef unsigned char BYTE, UCHAR, BOOLEAN; typedef unsigned short WORD, USHORT;
typedef unsigned int DWORD, UINT, ULONG; typedef DWORD *LPDWORD, *PDWORD;
typedef int LONG, INT; typedef LONG *LPLONG, *PLONG; typedef long long LONGLONG, LONG64, INT64; typedef unsigned long long ULONGLONG, ULONG64, UINT64, DWORD64, DWORDLONG;
typedef uint64_t DWORD_PTR, ULONG_PTR, UINT_PTR, SIZE_T; typedef int64_t LONG_PTR, INT_PTR, SSIZE_T;
typedef DWORD_PTR *PDWORD_PTR;
typedef DWORD_PTR KAFFINITY;
typedef char CHAR, TCHAR; typedef char *LPSTR, *LPTSTR; typedef const char *LPCSTR, *LPCTSTR; typedef unsigned short WCHAR;
typedef void *HANDLE; typedef HANDLE *PHANDLE, *LPHANDLE; typedef void *HINSTANCE, *HMODULE; typedef int (*FARPROC)(void);
typedef struct _FILETIME { DWORD dwLowDateTime, dwHighDateTime; } FILETIME, *PFILETIME, *LPFILETIME;
typedef struct _SYSTEMTIME { WORD wYear, wMonth, wDayOfWeek, wDay, wHour, wMinute, wSecond, wMilliseconds; } SYSTEMTIME, *LPSYSTEMTIME;
typedef union _LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union _ULARGE_INTEGER { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct _SECURITY_ATTRIBUTES *LPSECURITY_ATTRIBUTES;
typedef void (*PAPCFUNC)(ULONG_PTR);
typedef DWORD (*LPTHREAD_START_ROUTINE)(LPVOID); typedef LPTHREAD_START_ROUTINE PTHREAD_START_ROUTINE;
typedef struct _CONTEXT { DWORD64 P1Home; DWORD ContextFlags; DWORD64 Rsp, Rbp, Rip; DWORD64 pad[8]; } CONTEXT, *LPCONTEXT, *PCONTEXT;
typedef struct _CRITICAL_SECTION { HANDLE ev; LONG cnt; DWORD owner; LONG rec; } CRITICAL_SECTION, *LPCRITICAL_SECTION;
typedef struct { DWORD dwNumberOfProcessors; DWORD dwPageSize; DWORD_PTR dwActiveProcessorMask; } SYSTEM_INFO, *LPSYSTEM_INFO;
typedef void EXCEPTION_POINTERS;

#define WINAPI
#define APIENTRY
#define CALLBACK
#define WINBASEAPI
#define __stdcall
#define __cdecl
#define _cdecl
#define __declspec(x)
#define EXTERN_C extern
#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFF
#define WAIT_OBJECT_0 0
#define WAIT_ABANDONED 0x80
#define WAIT_ABANDONED_0 0x80
#define WAIT_IO_COMPLETION 0xC0
#define WAIT_TIMEOUT 258
#define WAIT_FAILED ((DWORD)0xFFFFFFFF)
#define MAXIMUM_WAIT_OBJECTS 64
#define CREATE_SUSPENDED 4
#define STILL_ACTIVE 259
#define DUPLICATE_SAME_ACCESS 2
#define DUPLICATE_CLOSE_SOURCE 1
#define TLS_OUT_OF_INDEXES ((DWORD)0xFFFFFFFF)
#define CONTEXT_CONTROL 0x100001
#define CONTEXT_FULL 0x10000B
#define INVALID_HANDLE_VALUE ((HANDLE)(LONG_PTR)-1)
#define MAXLONG 0x7fffffff
#define MAX_PATH 260
#define THREAD_PRIORITY_LOWEST (-2)
#define THREAD_PRIORITY_BELOW_NORMAL (-1)
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_HIGHEST 2
#define THREAD_PRIORITY_ABOVE_NORMAL 1
#define THREAD_PRIORITY_ERROR_RETURN 0x7fffffff
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_IDLE (-15)
#define PROCESS_QUERY_INFORMATION 0x400
#define PROCESS_SET_INFORMATION 0x200
#define ERROR_SUCCESS 0
#define ERROR_ACCESS_DENIED 5
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_OUTOFMEMORY 14
#define ERROR_INVALID_PARAMETER 87
#define ERROR_TOO_MANY_POSTS 298
#define ERROR_NO_SYSTEM_RESOURCES 1450
#define ERROR_TIMEOUT 1460
#define DLL_PROCESS_ATTACH 1
#define DLL_THREAD_ATTACH 2
#define DLL_THREAD_DETACH 3
#define DLL_PROCESS_DETACH 0
#define SEM_MAX_DUMMY 0
#define THREAD_ALL_ACCESS 0x1FFFFF
#define SYNCHRONIZE 0x100000
#define EVENT_ALL_ACCESS 0x1F0003
#define MemoryBarrier() __sync_synchronize()
#define YieldProcessor() sim_asm_point()
#define TEXT(x) x
#define _T(x) x
#define LOWORD(l) ((WORD)((l)&0xffff))
#define HIWORD(l) ((WORD)(((l)>>16)&0xffff))
#define UNREFERENCED_PARAMETER(x) (void)(x)

HANDLE CreateEventA(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL initial, LPCSTR name);
#define CreateEvent CreateEventA
BOOL SetEvent(HANDLE); BOOL ResetEvent(HANDLE); BOOL PulseEvent(HANDLE);
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCSTR name);
#define CreateSemaphore CreateSemaphoreA
BOOL ReleaseSemaphore(HANDLE, LONG, LPLONG);
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL, LPCSTR);
#define CreateMutex CreateMutexA
BOOL ReleaseMutex(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD); DWORD WaitForSingleObjectEx(HANDLE, DWORD, BOOL);
DWORD WaitForMultipleObjects(DWORD, const HANDLE *, BOOL, DWORD); DWORD WaitForMultipleObjectsEx(DWORD, const HANDLE *, BOOL, DWORD, BOOL);
DWORD SignalObjectAndWait(HANDLE, HANDLE, DWORD, BOOL);
BOOL CloseHandle(HANDLE);
BOOL DuplicateHandle(HANDLE, HANDLE, HANDLE, LPHANDLE, DWORD, BOOL, DWORD);
HANDLE CreateThread(LPSECURITY_ATTRIBUTES, SIZE_T, LPTHREAD_START_ROUTINE, LPVOID, DWORD, LPDWORD);
void ExitThread(DWORD) __attribute__((noreturn));
DWORD ResumeThread(HANDLE); DWORD SuspendThread(HANDLE); BOOL TerminateThread(HANDLE, DWORD); BOOL GetExitCodeThread(HANDLE, LPDWORD);
BOOL GetThreadContext(HANDLE, LPCONTEXT); BOOL SetThreadContext(HANDLE, const CONTEXT *);
DWORD QueueUserAPC(PAPCFUNC, HANDLE, ULONG_PTR);
DWORD TlsAlloc(void); BOOL TlsFree(DWORD); LPVOID TlsGetValue(DWORD); BOOL TlsSetValue(DWORD, LPVOID);
void Sleep(DWORD); DWORD SleepEx(DWORD, BOOL); BOOL SwitchToThread(void);
void GetSystemTimeAsFileTime(LPFILETIME); void GetSystemTimePreciseAsFileTime(LPFILETIME); void GetSystemTime(LPSYSTEMTIME); BOOL SystemTimeToFileTime(const SYSTEMTIME *, LPFILETIME);
DWORD GetTickCount(void); ULONGLONG GetTickCount64(void); BOOL QueryPerformanceCounter(LARGE_INTEGER *); BOOL QueryPerformanceFrequency(LARGE_INTEGER *);
HANDLE GetCurrentThread(void); HANDLE GetCurrentProcess(void); DWORD GetCurrentThreadId(void); DWORD GetCurrentProcessId(void); DWORD GetThreadId(HANDLE);
BOOL SetThreadPriority(HANDLE, int); int GetThreadPriority(HANDLE);
BOOL GetProcessAffinityMask(HANDLE, PDWORD_PTR, PDWORD_PTR); BOOL SetProcessAffinityMask(HANDLE, DWORD_PTR); DWORD_PTR SetThreadAffinityMask(HANDLE, DWORD_PTR);
HANDLE OpenProcess(DWORD, BOOL, DWORD); HANDLE OpenThread(DWORD, BOOL, DWORD);
DWORD GetLastError(void); void SetLastError(DWORD);
HMODULE LoadLibraryA(LPCSTR); BOOL FreeLibrary(HMODULE); FARPROC GetProcAddress(HMODULE, LPCSTR); HMODULE GetModuleHandleA(LPCSTR); UINT GetSystemDirectoryA(LPSTR, UINT);
#define LoadLibrary LoadLibraryA
#define GetModuleHandle GetModuleHandleA
#define GetSystemDirectory GetSystemDirectoryA
void GetSystemInfo(LPSYSTEM_INFO);
void OutputDebugStringA(LPCSTR);
#define OutputDebugString OutputDebugStringA
void RaiseException(DWORD, DWORD, DWORD, const ULONG_PTR *);
void InitializeCriticalSection(LPCRITICAL_SECTION); BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
void DeleteCriticalSection(LPCRITICAL_SECTION); void EnterCriticalSection(LPCRITICAL_SECTION); void LeaveCriticalSection(LPCRITICAL_SECTION); BOOL TryEnterCriticalSection(LPCRITICAL_SECTION);
#define lstrlenA(s) ((int)strlen(s))
#define ZeroMemory(d, n) memset((d), 0, (n))
#define RtlZeroMemory(d, n) memset((d), 0, (n))
#define SecureZeroMemory(d, n) memset((d), 0, (n))
#define FillMemory(d, n, v) memset((d), (v), (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
#define MoveMemory(d, s, n) memmove((d), (s), (n))
#define HEAP_ZERO_MEMORY 8
#define GetProcessHeap() ((HANDLE)1)
#define HeapAlloc(h, f, n) (((f) & HEAP_ZERO_MEMORY) ? calloc(1, (n)) : malloc(n))
#define HeapFree(h, f, p) (free(p), 1)
#define LocalAlloc(f, n) calloc(1, (n))
#define LocalFree(p) (free(p), (HANDLE)0)

/* Interlocked family: a scheduling point, then the atomic operation */
void sim_asm_point(void); void sim_asm_access(void *);
#define SIM_INL static __inline__ __attribute__((unused, no_sanitize("coverage")))
SIM_INL LONG InterlockedExchange(volatile LONG *p, LONG v) { sim_asm_access((void *)p); return __sync_lock_test_and_set(p, v); }
SIM_INL LONG InterlockedCompareExchange(volatile LONG *p, LONG v, LONG c) { sim_asm_access((void *)p); return __sync_val_compare_and_swap(p, c, v); }
SIM_INL LONG InterlockedExchangeAdd(volatile LONG *p, LONG v) { sim_asm_access((void *)p); return __sync_fetch_and_add(p, v); }
SIM_INL LONG InterlockedIncrement(volatile LONG *p) { sim_asm_access((void *)p); return __sync_add_and_fetch(p, 1); }
SIM_INL LONG InterlockedDecrement(volatile LONG *p) { sim_asm_access((void *)p); return __sync_sub_and_fetch(p, 1); }
SIM_INL LONG InterlockedAnd(volatile LONG *p, LONG v) { sim_asm_access((void *)p); return __sync_fetch_and_and(p, v); }
SIM_INL LONG InterlockedOr(volatile LONG *p, LONG v) { sim_asm_access((void *)p); return __sync_fetch_and_or(p, v); }
SIM_INL LONG64 InterlockedExchange64(volatile LONG64 *p, LONG64 v) { sim_asm_access((void *)p); return __sync_lock_test_and_set(p, v); }
SIM_INL LONG64 InterlockedCompareExchange64(volatile LONG64 *p, LONG64 v, LONG64 c) { sim_asm_access((void *)p); return __sync_val_compare_and_swap(p, c, v); }
SIM_INL LONG64 InterlockedExchangeAdd64(volatile LONG64 *p, LONG64 v) { sim_asm_access((void *)p); return __sync_fetch_and_add(p, v); }
SIM_INL LONG64 InterlockedIncrement64(volatile LONG64 *p) { sim_asm_access((void *)p); return __sync_add_and_fetch(p, 1); }
SIM_INL LONG64 InterlockedDecrement64(volatile LONG64 *p) { sim_asm_access((void *)p); return __sync_sub_and_fetch(p, 1); }
SIM_INL PVOID InterlockedExchangePointer(PVOID volatile *p, PVOID v) { sim_asm_access((void *)p); return __sync_lock_test_and_set(p, v); }
SIM_INL PVOID InterlockedCompareExchangePointer(PVOID volatile *p, PVOID v, PVOID c) { sim_asm_access((void *)p); return __sync_val_compare_and_swap(p, c, v); }

SIM_INL LONG InterlockedXor(volatile LONG *p, LONG v) { sim_asm_access((void *)p); return __sync_fetch_and_xor(p, v); }
#define _InterlockedExchange InterlockedExchange
#define _InterlockedCompareExchange InterlockedCompareExchange
#define _InterlockedExchangeAdd InterlockedExchangeAdd
#define _InterlockedIncrement InterlockedIncrement
#define _InterlockedDecrement InterlockedDecrement
#define _InterlockedAnd InterlockedAnd
#define _InterlockedOr InterlockedOr
#define _InterlockedXor InterlockedXor
#define _InterlockedExchange64 InterlockedExchange64
#define _InterlockedCompareExchange64 InterlockedCompareExchange64
#define _InterlockedExchangeAdd64 InterlockedExchangeAdd64
#define _InterlockedIncrement64 InterlockedIncrement64
#define _InterlockedDecrement64 InterlockedDecrement64
#define _InterlockedExchangePointer InterlockedExchangePointer
#define _InterlockedCompareExchangePointer InterlockedCompareExchangePointer
#define InterlockedAdd(p, v) (InterlockedExchangeAdd(p, v) + (v))
#define InterlockedExchangeSubtract(p, v) InterlockedExchangeAdd(p, -(v))
#define InterlockedExchangeAcquire InterlockedExchange
#define InterlockedCompareExchangeAcquire InterlockedCompareExchange
#define InterlockedCompareExchangeRelease InterlockedCompareExchange
#define InterlockedIncrementAcquire InterlockedIncrement
#define InterlockedDecrementRelease InterlockedDecrement
#define _InterlockedExchange(p, v) InterlockedExchange((LONG *)(p), (v))
#define _InterlockedCompareExchange(p, v, c) InterlockedCompareExchange((LONG *)(p), (v), (c))
#define _InterlockedExchangeAdd(p, v) InterlockedExchangeAdd((LONG *)(p), (v))
#define _InterlockedIncrement(p) InterlockedIncrement((LONG *)(p))
#define _InterlockedDecrement(p) InterlockedDecrement((LONG *)(p))
#define _InterlockedAnd(p, v) InterlockedAnd((LONG *)(p), (v))
#define _InterlockedOr(p, v) InterlockedOr((LONG *)(p), (v))
#define _InterlockedExchange64(p, v) InterlockedExchange64((LONG64 *)(p), (v))
#define _InterlockedCompareExchange64(p, v, c) InterlockedCompareExchange64((LONG64 *)(p), (v), (c))
#define _InterlockedExchangeAdd64(p, v) InterlockedExchangeAdd64((LONG64 *)(p), (v))
#define _InterlockedIncrement64(p) InterlockedIncrement64((LONG64 *)(p))
#define _InterlockedDecrement64(p) InterlockedDecrement64((LONG64 *)(p))
#define InterlockedIncrementAcquire InterlockedIncrement
#define InterlockedIncrementRelease InterlockedIncrement
#define InterlockedDecrementAcquire InterlockedDecrement
#define InterlockedDecrementRelease InterlockedDecrement
#define InterlockedCompareExchangeAcquire InterlockedCompareExchange
#define InterlockedCompareExchangeRelease InterlockedCompareExchange
#define InterlockedExchangeAcquire InterlockedExchange

/* CRT pieces */
uintptr_t _beginthreadex(void *, unsigned, unsigned (*)(void *), void *, unsigned, unsigned *);
uintptr_t _beginthread(void (*)(void *), unsigned, void *);
void _endthreadex(unsigned) __attribute__((noreturn)); void _endthread(void) __attribute__((noreturn));
int *sim_errno_location(void);
int _get_errno(int *); int _set_errno(int);
void *sim_malloc(size_t); void *sim_calloc(size_t, size_t); void *sim_realloc(void *, size_t); void sim_free(void *); char *sim_strdup(const char *);
void *sim_memcpy(void *, const void *, size_t); void *sim_memset(void *, int, size_t); void *sim_memmove(void *, const void *, size_t); int sim_memcmp(const void *, const void *, size_t);
size_t sim_strlen(const char *); char *sim_strcpy(char *, const char *); char *sim_strncpy(char *, const char *, size_t); char *sim_strcat(char *, const char *); char *sim_strncat(char *, const char *, size_t); int sim_strcmp(const char *, const char *);
int sim_strncpy_s(char *, size_t, const char *, size_t);
void sim_abort(void) __attribute__((noreturn)); void sim_exit(int) __attribute__((noreturn));
typedef int errno_t;
#ifdef __cplusplus
}
#endif
/* Win64 layout of struct timespec and integer names; the library's own names get the W_ prefix in rewrite.py */
struct W_timespec { int64_t tv_sec; int32_t tv_nsec; };
typedef int W_mode_t;
#endif
