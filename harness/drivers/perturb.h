// schedule perturbation: at every lock/condition-variable operation of the pool (and where a driver asks) a thread may yield, spin or sleep
#pragma once
#include <windows.h>
#include <sched.h>
namespace pert {
	struct st { std::atomic<uint64_t> seed{ 1 }; std::atomic<int> pct{ 0 }; std::atomic<uint64_t> n{ 0 }; std::atomic<unsigned> tno{ 0 }; std::atomic<int> slow_at{ 0 }, slow_us{ 0 }; std::atomic<uint64_t> slowed{ 0 }; };
	inline st& S() { static st* s = new st(); return *s; }
	inline void hit(int where) {
		auto& s = S();
		if (s.slow_at && s.slow_at == where) { s.slowed++; usleep(s.slow_us); }
		const int p = s.pct.load(std::memory_order_relaxed); if (!p) return;
		thread_local uint64_t x = 0; if (!x) x = vh::mix(s.seed + 7919 * ++s.tno);
		x = vh::mix(x + where);
		if (int(x % 100) >= p) return;
		s.n.fetch_add(1, std::memory_order_relaxed);
		switch ((x >> 20) % 6) {
		case 0: case 1: sched_yield(); break;
		case 2: case 3: for (volatile int i = 0; i < int((x >> 30) % 3000); ++i) {} break;
		case 4: usleep((x >> 30) % 60); break;
		default: usleep((x >> 30) % 400);
		}
	}
	inline void install() { vshim::perturb_ptr() = hit; }
	inline void arm(uint64_t seed, int pct) { S().seed = seed; S().pct = pct; }
	inline void disarm() { S().pct = 0; S().slow_at = 0; }
	inline void slow(int where, int us) { S().slow_us = us; S().slow_at = where; }
	inline uint64_t taken() { return S().n.exchange(0); }
}
