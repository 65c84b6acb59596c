// Common part of all drivers: case bookkeeping, deterministic randomness, reporting protocol.
// A driver prints lines starting with "@@" that run.py reads:
//   @@VIOL <key>|<group:case>|<detail>     an oracle saw a violation
//   @@EV <name> <count>                    how many events of a kind a monitor observed
//   @@CASES <n>  @@DISTINCT <n>            evaluated cases / distinct non-trivial signatures
//   @@SAMPLE <text>                        an actual case
//   @@DONE                                 the driver got to its end
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cmath>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <mutex>
#include <atomic>
#include <thread>
#include <functional>
#include <unordered_set>

extern "C" void __attribute__((weak)) __sanitizer_set_death_callback(void(*)(void));

namespace vh {
	inline uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30))*0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27))*0x94D049BB133111EBull; return x ^ (x >> 31); }
	inline uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ uint8_t(*s))*1099511628211ull; return h; }

	struct R {//splitmix generator
		uint64_t s;
		explicit R(uint64_t seed) : s(seed) {}
		uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s; x = (x ^ (x >> 30))*0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27))*0x94D049BB133111EBull; return x ^ (x >> 31); }
		int below(int n) { return n <= 1 ? 0 : int(u64() % uint64_t(n)); }
		int in(int a, int b) { return a + below(b - a + 1); }
		bool b() { return u64() & 1; }
		bool chance(int pct) { return below(100) < pct; }
		double u01() { return double(u64() >> 11)*(1. / 9007199254740992.); }
		double uni(double a, double b) { return a + (b - a)*u01(); }
		double norm() { double a = u01(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a))*std::cos(6.283185307179586*u01()); }
		template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(int(l.size()))); }
		template<typename T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(int(i))]); }
	};

	struct State {
		uint64_t seed = 1; double scale = 1; bool thorough = false;
		std::string only_g; long only_i = -1;
		std::map<std::string, uint64_t> ev;
		std::unordered_set<uint64_t> sigs;
		uint64_t cases = 0; long nviol = 0; unsigned nsamples = 0;
		char cur[256] = "init"; char note[1024] = "";
		std::string tmpdir;
		std::mutex mx;
	};
	inline State& S() { static State* s = new State(); return *s; }

	inline void on_death() {
		static volatile sig_atomic_t once = 0; if (once) return; once = 1;
		char b[1400]; int n = snprintf(b, sizeof(b), "\n@@DIED %s | %s\n", S().cur, S().note); if (write(1, b, n)) {}
	}
	inline void on_signal(int sg) { on_death(); signal(sg, SIG_DFL); raise(sg); }

	inline void ev(const char* n, uint64_t c = 1) { std::lock_guard<std::mutex> g(S().mx); S().ev[n] += c; }
	inline void sig(uint64_t h) { std::lock_guard<std::mutex> g(S().mx); S().sigs.insert(h); }
	inline void note(const std::string& s) { const size_t m = sizeof(S().note) - 1; strncpy(S().note, s.size() > m ? s.c_str() + (s.size() - m) : s.c_str(), m); }
	template<typename... A> void seen(const char* what, A... a) { uint64_t h = hstr(what); ((h = mix(h ^ uint64_t(a))), ...); sig(h); }

	inline void viol(const char* key, const char* fmt, ...) {
		char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
		for (char* p = b; *p; ++p) if (*p == '\n') *p = ' ';
		std::lock_guard<std::mutex> g(S().mx);
		if (++S().nviol <= 40) { printf("\n@@VIOL %s|%s|%s\n", key, S().cur, b); fflush(stdout); }
	}
	inline void sample(const char* fmt, ...) {
		if (S().nsamples >= 12) return; ++S().nsamples;
		char b[1024]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
		printf("@@SAMPLE [%s] %s\n", S().cur, b);
	}
	#define VCHECK(cond, key, ...) do { if (!(cond)) ::vh::viol(key, __VA_ARGS__); } while(0)

	inline int scaled(int n) { int r = int(n*S().scale + .5); return r < 1 ? 1 : r; }

	// runs f(rng, i) for i in [0,n); each case has a generator of its own
	template<typename F> void group(const char* name, int n, F&& f, bool bScale = true) {
		if (!S().only_g.empty() && S().only_g != name) return;
		if (bScale) n = scaled(n);
		for (int i = 0; i < n; ++i) {
			if (S().only_i >= 0 && S().only_i != i) continue;
			snprintf(S().cur, sizeof(S().cur), "%s:%d", name, i);
			R r(mix(S().seed) ^ mix(hstr(name) + uint64_t(i)));
			++S().cases;
			f(r, i);
			if (S().nviol > 200) break;
		}
		ev((std::string("cases.") + name).c_str(), n);
	}
	// a watchdog: when the guarded scope takes longer than the limit (far above what it needs), that is reported as a hang
	struct deadline {
		std::atomic<bool> fin{ false }; std::thread t;
		deadline(int sec, const char* key) : t([this, sec, key] {
			for (int i = 0; i < sec * 100 && !fin; ++i) usleep(10000);
			if (!fin) { viol(key, "did not finish within %d s | %s", sec, S().note); _exit(1); }
		}) {}
		~deadline() { fin = true; t.join(); }
	};
	inline void init(int argc, char** argv) {
		setvbuf(stdout, nullptr, _IOLBF, 0);
		for (int i = 1; i + 1 < argc; i += 2) {
			std::string a = argv[i], v = argv[i + 1];
			if (a == "--seed") S().seed = strtoull(v.c_str(), 0, 10);
			else if (a == "--scale") S().scale = atof(v.c_str());
			else if (a == "--tier") S().thorough = v == "thorough";
			else if (a == "--tmp") S().tmpdir = v;
			else if (a == "--only") { auto p = v.find(':'); S().only_g = v.substr(0, p); if (p != std::string::npos) S().only_i = atol(v.c_str() + p + 1); }
		}
		if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
		struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_signal; sa.sa_flags = SA_RESETHAND;
		sigaction(SIGABRT, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGTERM, &sa, nullptr);
		if (!__sanitizer_set_death_callback) { sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); }
	}
	inline int done() {
		for (auto& e : S().ev) printf("@@EV %s %llu\n", e.first.c_str(), (unsigned long long)e.second);
		printf("@@CASES %llu\n@@DISTINCT %llu\n@@DONE\n", (unsigned long long)S().cases, (unsigned long long)S().sigs.size());
		fflush(stdout);
		return S().nviol ? 1 : 0;
	}
}
