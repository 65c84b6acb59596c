// Minimal stand-in for <windows.h>: only what nntl's headers use, implemented over POSIX/C++ primitives so that
// ThreadSanitizer sees every synchronisation operation. No thread or process priority is really changed: those
// calls only record what was asked for.
#pragma once
#include <pthread.h>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <cstdint>
#include <atomic>

typedef int BOOL;
typedef uint32_t DWORD;
typedef unsigned long ULONG;
typedef void* HANDLE;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define INFINITE 0xFFFFFFFFu
#define CONDITION_VARIABLE_LOCKMODE_SHARED 0x1

// schedule perturbation hook; the harness may install a function here
namespace vshim {
	typedef void(*perturb_fn)(int where);
	inline ::std::atomic<perturb_fn>& perturb_ptr() { static ::std::atomic<perturb_fn> p{ nullptr }; return p; }
	inline void perturb(int where) { auto f = perturb_ptr().load(::std::memory_order_relaxed); if (f) f(where); }
}

struct SRWLOCK {
	pthread_rwlock_t l;
	SRWLOCK()noexcept {
		pthread_rwlockattr_t a; pthread_rwlockattr_init(&a);
		pthread_rwlockattr_setkind_np(&a, PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP);
		pthread_rwlock_init(&l, &a); pthread_rwlockattr_destroy(&a);
	}
};
#define SRWLOCK_INIT SRWLOCK()

inline void AcquireSRWLockExclusive(SRWLOCK* p) { vshim::perturb(1); pthread_rwlock_wrlock(&p->l); vshim::perturb(2); }
inline void AcquireSRWLockShared(SRWLOCK* p) { vshim::perturb(3); pthread_rwlock_rdlock(&p->l); vshim::perturb(4); }
inline void ReleaseSRWLockExclusive(SRWLOCK* p) { vshim::perturb(5); pthread_rwlock_unlock(&p->l); vshim::perturb(6); }
inline void ReleaseSRWLockShared(SRWLOCK* p) { vshim::perturb(7); pthread_rwlock_unlock(&p->l); vshim::perturb(8); }

struct CONDITION_VARIABLE {
	::std::mutex m;
	::std::condition_variable cv;
};
inline void InitializeConditionVariable(CONDITION_VARIABLE*) {}
inline BOOL SleepConditionVariableSRW(CONDITION_VARIABLE* c, SRWLOCK* l, DWORD ms, ULONG flags) {
	BOOL r = TRUE;
	vshim::perturb(9);//the caller holds the lock, has decided to sleep, but doesn't sleep yet
	{
		::std::unique_lock<::std::mutex> lk(c->m);
		pthread_rwlock_unlock(&l->l);
		if (ms == INFINITE) c->cv.wait(lk);
		else r = c->cv.wait_for(lk, ::std::chrono::milliseconds(ms)) == ::std::cv_status::no_timeout;
	}
	vshim::perturb(10);
	if (flags & CONDITION_VARIABLE_LOCKMODE_SHARED) pthread_rwlock_rdlock(&l->l); else pthread_rwlock_wrlock(&l->l);
	vshim::perturb(11);
	return r;
}
inline void WakeConditionVariable(CONDITION_VARIABLE* c) { vshim::perturb(12); { ::std::lock_guard<::std::mutex> g(c->m); c->cv.notify_one(); } vshim::perturb(13); }
inline void WakeAllConditionVariable(CONDITION_VARIABLE* c) { vshim::perturb(12); { ::std::lock_guard<::std::mutex> g(c->m); c->cv.notify_all(); } vshim::perturb(13); }

#define NORMAL_PRIORITY_CLASS 0x20
#define HIGH_PRIORITY_CLASS 0x80
#define REALTIME_PRIORITY_CLASS 0x100
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_ERROR_RETURN 0x7fffffff

#include <map>
// priorities are only recorded; a call can be made to fail (fail_at: 1 = the next call that sets something)
namespace vshim {
	struct prio_state {
		::std::mutex m; DWORD cls = NORMAL_PRIORITY_CLASS; ::std::map<pthread_t, int> thr; long calls = 0; long fail_at = 0;
		bool fails() { ++calls; return fail_at > 0 && --fail_at == 0; }
	};
	inline prio_state& prio() { static prio_state s; return s; }
}
inline HANDLE GetCurrentThread() { return reinterpret_cast<HANDLE>(~uintptr_t(1)); }
inline HANDLE GetCurrentProcess() { return reinterpret_cast<HANDLE>(~uintptr_t(0)); }
inline BOOL SetThreadPriorityBoost(HANDLE, BOOL) { return TRUE; }
inline int GetThreadPriority(HANDLE) { auto& s = vshim::prio(); ::std::lock_guard<::std::mutex> g(s.m); return s.thr[pthread_self()]; }
inline BOOL SetThreadPriority(pthread_t t, int p) { auto& s = vshim::prio(); ::std::lock_guard<::std::mutex> g(s.m); if (s.fails()) return FALSE; s.thr[t] = p; return TRUE; }
inline BOOL SetThreadPriority(HANDLE, int p) { return SetThreadPriority(pthread_self(), p); }
inline DWORD GetPriorityClass(HANDLE) { auto& s = vshim::prio(); ::std::lock_guard<::std::mutex> g(s.m); return s.cls; }
inline BOOL SetPriorityClass(HANDLE, DWORD c) { auto& s = vshim::prio(); ::std::lock_guard<::std::mutex> g(s.m); if (s.fails()) return FALSE; s.cls = c; return TRUE; }
