// random number generators: ranges, extents of the writes, biases, reproducibility under any schedule, distributions, exactly-once delivery of the asynchronous generator
#include "mathcommon.h"
#include "nntl/interface/rng/afrand.h"
#include "nntl/interface/rng/afrand_as.h"
#include "nntl/interface/rng/cstd.h"
#include "nntl/interface/rng/distr_normal_naive.h"
#include <unistd.h>
#include "perturb.h"
#include <thread>
#include <atomic>
using namespace vh;
static thread_local bool g_failNew = false;
#if !__has_feature(thread_sanitizer)
#define CAN_FAIL 1
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (g_failNew) return nullptr; try { return ::operator new[](n); } catch (...) { return nullptr; } }
#else
#define CAN_FAIL 0
#endif
enum Kind { kAF, kMT, kAS, kC };

// accumulates one distribution; the verdict is given at the end of the run, at 7 sigma
struct Dist { ld n = 0, s = 0, s2 = 0; uint64_t bin[16] = {}; int k = 0;/*0 uniform, 1 normal*/ };
static std::map<std::string, Dist> g_dist;
static void dist_add(const std::string& nm, int k, ld u) {
	auto& d = g_dist[nm]; d.k = k; d.n += 1; d.s += u; d.s2 += u * u; static const ld q[15] = { -1.5341205,-1.1503494,-.8871466,-.6744898,-.4887764,-.3186394,-.1573107,0,.1573107,.3186394,.4887764,.6744898,.8871466,1.1503494,1.5341205 };
	int b = 0; if (k) { while (b < 15 && u > q[b]) ++b; } else b = std::min(15, std::max(0, int(u * 16))); ++d.bin[b];
}
static void dist_judge() {
	for (auto& p : g_dist) {
		auto& d = p.second; if (d.n < 3000) continue; ev("rng.distributions"); const ld m = d.k ? 0 : .5L, v = d.k ? 1 : 1 / 12.L, v2 = d.k ? 2 : 1 / 5.L - 1 / 9.L;/*var of u^2*/
		const ld zm = (d.s - d.n*m) / std::sqrt(d.n*v), zv = (d.s2 - d.n*(d.k ? 1 : 1 / 3.L)) / std::sqrt(d.n*(d.k ? v2 : 4 / 45.L));
		ld c = 0; for (auto b : d.bin) { const ld e = d.n / 16; c += (b - e)*(b - e) / e; }
		if (std::fabs(zm) > 7 || std::fabs(zv) > 7 || c > 90) viol("rng.distr", "%s over %.0Lf values: mean off by %.1Lf sigma, second moment by %.1Lf sigma, chi2(15) %.1Lf", p.first.c_str(), d.n, zm, zv, c);
	}
}
template<typename T> struct Buf {// exactly n elements with a guard on both sides
	std::vector<T> v; int n; static T G() { return T(-12345.5); } Buf(int n_) : v(n_ + 16, T(-777)), n(n_) { for (int i = 0; i < 8; ++i) v[i] = v[8 + n + i] = G(); } T* p() { return v.data() + 8; }
	void chk(const char* w) { for (int i = 0; i < 8; ++i) if (v[i] != G() || v[8 + n + i] != G()) viol("rng.extent", "%s(%d) wrote outside of its vector", w, n); ev("rng.vectors"); ev("rng.values", n); }
};
template<> int Buf<int>::G() { return -12345; }
template<typename T> bool in(const char* nm, const char* w, const T* p, int n, ld lo, ld hi, ld tol = 0) { for (int i = 0; i < n; ++i) if (!((ld)p[i] >= lo - tol && (ld)p[i] <= hi + tol)) { viol("rng.range", "%s::%s: element %d of %d is %.9g, the range is [%Lg,%Lg]", nm, w, i, n, (double)p[i], lo, hi); return false; } return true; }
template<typename T> void nodup(const char* nm, const char* w, const T* p, int n) { if (sizeof(T) < 8 || n < 2) return; std::vector<T> a(p, p + n); std::sort(a.begin(), a.end()); int c = 0; T x = 0; for (int i = 1; i < n; ++i) if (a[i] == a[i - 1]) { ++c; x = a[i]; } /*32 random bits per value: some coincidences are expected*/ if (c > 8 + 4 * ((ld)n*n / 4294967296.L)) viol("rng.dup", "%s::%s: %d values are delivered repeatedly among %d (%.17g)", nm, w, c, n, (double)x); ev("rng.dup_checks"); }
inline int len(R& r) { switch (r.below(6)) { case 0: return r.in(1, 9); case 1: return r.in(10, 160); case 2: return r.in(170, 190); case 3: return r.in(1400, 3100); case 4: return r.in(3000, 9000); default: return r.in(1, 3000); } }

// one random call; what was produced is appended to out (as bits) for the comparison of runs
template<typename T, int K, typename G> void one(R& r, G& g, const char* nm, std::vector<double>& out) {
	const int op = r.below(17), n = len(r); const T a = T(r.uni(.01, 30)); const T lo = T(r.uni(-5, 2)), hi = T(lo + r.uni(.1, 9)); const std::string N = std::string(nm) + (sizeof(T) == 4 ? ".f." : ".d."); char nb[64]; snprintf(nb, sizeof(nb), "%s op %d n %d", nm, op, n); note(nb); seen("rng", K, sizeof(T), op, n < 175, n < 1500, n < 3000);
	Buf<T> b(n); auto keep = [&] { for (int i = 0; i < n; ++i) out.push_back(b.p()[i]); }; const ld e = 4 * EPS<T>;
	switch (op) {
	case 0: case 1: g.gen_vector(b.p(), n, a); b.chk("gen_vector"); if (in(nm, "gen_vector(a)", b.p(), n, -a, a, a*e)) for (int i = 0; i < n; ++i) dist_add(N + "gen_vector(a)", 0, ((ld)b.p()[i] / a + 1) / 2); keep(); nodup(nm, "gen_vector(a)", b.p(), n); break;
	case 2: case 3: if constexpr (K != kC) { g.gen_vector(b.p(), n, lo, hi); b.chk("gen_vector"); if (in(nm, "gen_vector(neg,pos)", b.p(), n, lo, hi, (std::fabs(lo) + std::fabs(hi))*e)) for (int i = 0; i < n; ++i) dist_add(N + "gen_vector(neg,pos)", 0, ((ld)b.p()[i] - lo) / ((ld)hi - lo)); keep(); nodup(nm, "gen_vector(neg,pos)", b.p(), n); } break;
	case 4: case 5: g.gen_vector_norm(b.p(), n); b.chk("gen_vector_norm"); if (in(nm, "gen_vector_norm", b.p(), n, 0, 1)) for (int i = 0; i < n; ++i) dist_add(N + "gen_vector_norm", 0, b.p()[i]); keep(); nodup(nm, "gen_vector_norm", b.p(), n); break;
	case 6: g.gen_vector_gtz(b.p(), n, a); b.chk("gen_vector_gtz"); if (in(nm, "gen_vector_gtz", b.p(), n, 0, a, a*e)) for (int i = 0; i < n; ++i) dist_add(N + "gen_vector_gtz", 0, (ld)b.p()[i] / a); keep(); break;
	case 7: { const int k = r.pick({ 1, 2, 3, 16, 1000 }); Buf<int> q(n); g.gen_vector_gtz(q.p(), n, k); q.chk("gen_vector_gtz<int>"); if (in(nm, "gen_vector_gtz<int>", q.p(), n, 0, k) && k == 16) for (int i = 0; i < n; ++i) if (q.p()[i] < 16) dist_add(N + "gen_vector_gtz<int>", 0, (q.p()[i] + (ld)r.u01()) / 16); for (int i = 0; i < n; ++i) out.push_back(q.p()[i]); break; }
	case 8: { const T p = T(r.uni(.02, .98)), yes = T(r.uni(-3, 3)), no = T(yes + 1); const bool bin = r.b(); if (bin) g.binary_vector(b.p(), n, p); else g.bernoulli_vector(b.p(), n, p, yes, no); b.chk("bernoulli_vector"); ld c = 0; for (int i = 0; i < n; ++i) { const T v = b.p()[i]; if (v != (bin ? T(1) : yes) && v != (bin ? T(0) : no)) { viol("rng.bernoulli", "%s: value %g", nm, (double)v); break; } c += v == (bin ? T(1) : yes); }
		if (std::fabs(c - n * (ld)p) > 7.5L * std::sqrt(n*(ld)p*(1 - (ld)p)) + 3) viol("rng.bernoulli", "%s: %.0Lf of %d with p %g", nm, c, n, (double)p); ev("rng.bernoulli"); keep(); break; }
	case 9: case 10: { const T m = T(r.uni(-4, 4)), st = r.chance(20) ? T(1) : T(r.uni(.01, 5)); g.normal_vector(b.p(), n, m, st); b.chk("normal_vector"); if (in(nm, "normal_vector", b.p(), n, m - 12 * (ld)st, m + 12 * (ld)st)) for (int i = 0; i < n; ++i) dist_add(N + "normal_vector", 1, ((ld)b.p()[i] - m) / st); keep(); nodup(nm, "normal_vector", b.p(), n); break; }
	case 11: { const int k = r.pick({ 1, 2, 16, 1000, 1 << 20 }); for (int i = 0; i < 40; ++i) { const auto v = r.b() ? g.gen_i(k) : g(typename G::int_4_random_shuffle_t(k)); if (v < 0 || v >= k) { viol("rng.range", "%s::gen_i(%d) is %lld", nm, k, (long long)v); break; } if (k == 16) dist_add(N + "gen_i", 0, (v + (ld)r.u01()) / 16); if (k > 1000) dist_add(N + "gen_i.big", 0, (ld)v / k); out.push_back(double(v)); } ev("rng.ints", 40); break; }
	case 12: for (int i = 0; i < 40; ++i) { const auto v = r.b() ? g() : g.gen_int(); const ld mn = g.min(), mx = g.max(); if ((ld)v < mn || (ld)v > mx) { viol("rng.range", "%s::gen_int() is %lld of [%Lg,%Lg]", nm, (long long)v, mn, mx); break; } dist_add(N + "gen_int", 0, ((ld)v - mn) / (mx - mn)); out.push_back(double(v)); } ev("rng.ints", 40); break;
	case 13: for (int i = 0; i < 40; ++i) { const ld v = g.template gen_f_norm<T>(); if (!(v >= 0 && v <= 1)) { viol("rng.range", "%s::gen_f_norm() is %Lg", nm, v); break; } dist_add(N + "gen_f_norm", 0, v); out.push_back(double(v)); const T f = g.gen_f(a); if (!(f >= 0 && f <= a)) viol("rng.range", "%s::gen_f(%g) is %g", nm, (double)a, (double)f); out.push_back(f); } ev("rng.reals", 80); break;
	case 14: case 15: {// matrices, with and without biases
		const vl c = r.in(1, 30), w = std::max(1, n / int(c)); const bool bias = r.b(), any = r.b(); M<T> m(w, c, bias); std::fill(m.data(), m.data() + m.numel_no_bias(), T(-777)); if (bias) m.set_biases(); const int k = r.below(4); const bool nb_ = bias || r.b();
		if (k == 0) { if (any) g.gen_matrixAny(m, a); else if (nb_) g.gen_matrix_no_bias(m, a); else g.gen_matrix(m, a); in(nm, "gen_matrix", m.data(), int(m.numel_no_bias()), -a, a, a*e); }
		else if (k == 1) { if (nb_) g.gen_matrix_no_bias_norm(m); else g.gen_matrix_norm(m); in(nm, "gen_matrix_norm", m.data(), int(m.numel_no_bias()), 0, 1); }
		else if (k == 2) { if (nb_) g.gen_matrix_no_bias_gtz(m, a); else g.gen_matrix_gtz(m, a); in(nm, "gen_matrix_gtz", m.data(), int(m.numel_no_bias()), 0, a, a*e); }
		else { rng::distr_normal_naive<G> d(g, lo, a); if (nb_) d.gen_matrix_no_bias(m); else d.gen_matrix(m); if (in(nm, "distr_normal_naive", m.data(), int(m.numel_no_bias()), lo - 12 * (ld)a, lo + 12 * (ld)a)) for (nc i = 0; i < m.numel_no_bias(); ++i) dist_add(N + "distr_normal_naive", 1, ((ld)m.data()[i] - lo) / a); }
		if (bias && !m.test_biases_strict()) viol("rng.bias", "%s: the biases were overwritten (%d)", nm, k); for (nc i = 0; i < m.numel_no_bias(); ++i) out.push_back(m.data()[i]); ev("rng.matrices"); break; }
	default: {// sample-in-row biases; matrix versions of the discrete distributions
		const vl c = r.in(1, 40), w = r.in(1, 40);
		M<T> s(w, c); const T p = T(r.uni(.1, .9)); if (r.b()) g.binary_matrix(s, p); else g.bernoulli_matrix(s, p); for (nc i = 0; i < s.numel(); ++i) { if (s.data()[i] != T(0) && s.data()[i] != T(1)) { viol("rng.bernoulli", "%s: matrix value %g", nm, (double)s.data()[i]); break; } out.push_back(s.data()[i]); }
		if (r.b()) { g.normal_matrix(s, lo, a); if (in(nm, "normal_matrix", s.data(), int(s.numel()), lo - 12 * (ld)a, lo + 12 * (ld)a)) for (nc i = 0; i < s.numel(); ++i) dist_add(N + "normal_matrix", 1, ((ld)s.data()[i] - lo) / a); for (nc i = 0; i < s.numel(); ++i) out.push_back(s.data()[i]); } ev("rng.matrices"); }
	}
}
// two runs of one sequence of calls after one seed, under different schedules
template<typename T, int K, typename G> void twice(R& r, G& g, const char* nm) {
	const auto sd = r.u64(); const bool s64 = r.b(); const int ops = r.in(2, 8); const uint64_t script = r.u64(); std::vector<double> o[2];
	for (int k = 0; k < 2; ++k) { if (s64) g.seed64(sd); else g.seed(typename G::seed_t(sd & 0x7fffffff)); pert::arm(r.u64(), k ? 30 : 3); R q(script); for (int i = 0; i < ops; ++i) one<T, K>(q, g, nm, o[k]); pert::disarm(); }
	if (K != kAS && o[0] != o[1]) viol("rng.repro", "%s: one seed gives two sequences (%zu/%zu values)", nm, o[0].size(), o[1].size()); ev("rng.repros");
	if (K != kAS) { Buf<T> x(12), y(12); g.seed(typename G::seed_t(sd & 0xffff)); g.gen_vector_norm(x.p(), 12); g.seed(typename G::seed_t((sd & 0xffff) + 1)); g.gen_vector_norm(y.p(), 12); if (x.v == y.v) viol("rng.seed", "%s: two seeds give one sequence", nm); }
}
template<typename T> using TH = typename dt_interfaces<T>::iThreads_t;
template<typename T, typename B> void af(R& r) { rng::AFRand<T, B> g(r.in(1, 1 << 30)); twice<T, kAF>(r, g, "AFRand"); }
template<typename T> void cs(R& r) { rng::CStd<T> g(r.in(1, 1 << 30)); twice<T, kC>(r, g, "CStd"); }
template<typename T, typename B> void mt(R& r) {
	g_hc = r.in(2, 8); deadline dl(60, "rng.hang"); TH<T> th; typedef rng::AFRand_mt<T, B, TH<T>> G; const int how = r.below(3); const auto sd = r.in(1, 1 << 30);
	auto use = [&](G& g) {
		if (how) {// the streams of the workers are different (even before the first seeding)
			const int n = 12000; Buf<T> b(n); g.gen_vector_norm_mt(b.p(), n); b.chk("gen_vector_norm_mt"); const int c = n / int(g_hc); int same = 0; for (int w = 1; w < int(g_hc); ++w) for (int d = -2; d <= 2; ++d) { int k = 0; for (int i = 8; i < 60; ++i) k += b.p()[i] == b.p()[w*c + i + d]; same = std::max(same, k); } if (same > 20) viol("rng.streams", "two workers share one random stream"); ev("rng.streams");
		}
		for (int k = r.in(1, 3); k-- > 0;) twice<T, kMT>(r, g, "AFRand_mt");
		if (r.b()) { Buf<T> x(5000), y(5000); g.seed(sd); g.gen_vector_norm(x.p(), 5000); g.reseed(); g.gen_vector_norm(y.p(), 5000); if (x.v != y.v) viol("rng.repro", "reseed() gives another sequence"); }
	};
	if (how == 0) { G g; if (!g.init_ithreads(th)) viol("rng.init", "init_ithreads() failed"); use(g); } else if (how == 1) { G g(th); use(g); } else { G g(th, sd); use(g); }
}
template<typename T, typename B> void as_(R& r) {
	g_hc = r.in(2, 6); deadline dl(120, "rng.hang"); TH<T> th; typedef rng::AFRand_as<T, B, TH<T>> G; G* g = new G(th, r.in(1, 1 << 30)); std::vector<double> all;
	for (int cyc = r.in(1, 3); cyc-- > 0;) {
		if (CAN_FAIL && r.chance(30)) { g->preinit_additive_norm(r.in(1, 900)); g_failNew = true; const bool b = g->init_rng(); g_failNew = false; if (b || g->isInitialized()) viol("rng.init", "init_rng() reports success although there is no memory for the buffers"); g->deinit_rng(); ev("rng.init_failures"); }
		g->preinit_additive_norm(r.in(3100, 9000)); if (r.b()) g->preinit_additive_norm(r.in(1, 4000)); g->preinit_additive_normal_distr(r.in(3100, 9000)); if (!g->init_rng()) { viol("rng.init", "init_rng() failed"); break; } if (!g->isInitialized()) viol("rng.init", "not initialised");
		pert::arm(r.u64(), r.pick({ 0, 5, 25 })); std::vector<double> o, u; R q(r.u64());
		for (int i = r.in(4, 24); i-- > 0;) {
			if (r.chance(40)) usleep(r.in(0, 15000));// lets the background threads run
			if (r.chance(60)) { const int n = len(r); Buf<T> b(n); g->gen_vector_norm(b.p(), n); b.chk("gen_vector_norm"); in("AFRand_as", "gen_vector_norm", b.p(), n, 0, 1); u.insert(u.end(), b.p(), b.p() + n); ev("rng.async"); }
			else one<T, kAS>(r, *g, "AFRand_as", o);
			if (r.chance(5)) g->seed(r.in(1, 1 << 30));
		}
		pert::disarm(); nodup<double>("AFRand_as", "the whole session", sizeof(T) == 8 ? u.data() : nullptr, sizeof(T) == 8 ? int(u.size()) : 0); g->deinit_rng(); if (g->isInitialized()) viol("rng.init", "initialised after deinit_rng()"); ev("rng.async_sessions");
	}
	delete g;
}
// the circular buffer between the background generators and the consumer: every produced value is delivered exactly once
template<typename T, typename S> void dbuf(R& r) {
	deadline dl(60, "rng.hang"); const size_t tot = r.pick({ 1, 2, 3, 7, 40, 300, 2000 }), lim = r.b() ? tot : r.in(1, int(tot) * 2), W = r.in(1, 4); std::vector<T> mem(tot); utils::DataBuffer<T, S> B(mem.data(), tot); if (!B.isInitialized()) viol("rng.buffer", "not initialised");
	std::atomic<bool> stop{ false }, quiet{ false }; std::atomic<int> busy{ 0 }; std::atomic<uint32_t> next{ 1 }; std::vector<std::vector<T>> made(W); std::vector<std::thread> th; const unsigned jit = r.pick({ 0, 0, 1, 3 });
	for (size_t w = 0; w < W; ++w) th.emplace_back([&, w, seed = r.u64()] {
		R q(seed); std::vector<T> t(std::max(tot, lim));
		while (!stop) {
			if (quiet) { std::this_thread::yield(); continue; } ++busy; if (quiet) { --busy; continue; }
			const size_t k = B._as_should_work(lim); if (k > lim || k > tot) { viol("rng.buffer", "asked to generate %zu of at most %zu", k, lim); stop = true; --busy; break; }
			if (k) { const uint32_t a = next.fetch_add(uint32_t(k)); for (size_t i = 0; i < k; ++i) { t[i] = T(a + i); made[w].push_back(t[i]); } if (jit && q.below(4) < int(jit)) usleep(q.in(0, 300)); B._as_done(t.data(), k); std::fill(t.begin(), t.begin() + k, T(-1)); }
			else std::this_thread::yield();
			--busy;
		}
	});
	std::vector<T> got; const size_t goal = std::min<size_t>(tot * 40 + 200, 9000); R q(r.u64()); int fails = 0;
	auto take = [&](size_t n) { const auto br = B.acquire_data(n); if (!br.acquired()) return false; if (br.n1 + (br.isTwoArrays() ? br.n2 : 0) != n) viol("rng.buffer", "acquired %zu+%zu for %zu", br.n1, br.n2, n); const size_t z = got.size(); got.insert(got.end(), br.ptr1, br.ptr1 + br.n1); if (br.isTwoArrays()) got.insert(got.end(), br.ptr2, br.ptr2 + br.n2); if (q.below(5) == 0) usleep(q.in(0, 200));
		bool same = !memcmp(&got[z], br.ptr1, br.n1 * sizeof(T)) && (!br.isTwoArrays() || !memcmp(&got[z + br.n1], br.ptr2, br.n2 * sizeof(T))); if (!same) viol("rng.buffer", "values changed between acquire_data() and release_data() (buffer of %zu, portions of %zu, %zu workers)", tot, lim, W); if (br.n1) const_cast<T*>(&br.ptr1[0])[0] = T(-2); B.release_data(br); ev("rng.buffer_takes"); return true; };
	while (got.size() < goal && ++fails < 400000) { const size_t n = q.below(3) == 0 ? tot : q.in(1, int(tot)); if (take(n)) { if (q.below(9) == 0) usleep(q.in(0, 400)); } else { std::this_thread::yield(); if (fails % 64 == 0) usleep(50); } if (!B.TestState()) { viol("rng.buffer", "inconsistent state"); break; } }
	if (got.size() < goal) viol("rng.buffer", "only %zu of %zu values delivered", got.size(), goal);
	quiet = true; while (busy) std::this_thread::yield(); while (take(1)) if (got.size() > goal + 3 * tot) { viol("rng.buffer", "more values than the buffer holds"); break; }
	stop = true; for (auto& t : th) t.join(); std::vector<T> all; for (auto& m : made) all.insert(all.end(), m.begin(), m.end()); std::sort(all.begin(), all.end()); std::sort(got.begin(), got.end());
	if (all != got) viol("rng.buffer", "%zu values produced, %zu delivered, not the same ones (buffer of %zu, portions of %zu, %zu workers)", all.size(), got.size(), tot, lim, W); ev("rng.buffer_values", got.size()); ev("rng.buffers"); seen("db", tot, lim >= tot, W, jit, sizeof(S*));
}
int main(int argc, char** argv) {
	init(argc, argv); pert::install();
	using namespace AFog;
	group("af.d", 40, [](R& r, int) { af<double, CRandomMersenne>(r); }); group("af.f", 40, [](R& r, int) { af<float, CRandomSFMT0>(r); }); group("af.f2", 30, [](R& r, int) { af<float, CRandomMersenne>(r); });
	group("c.d", 40, [](R& r, int) { cs<double>(r); }); group("c.f", 40, [](R& r, int) { cs<float>(r); });
	group("mt.d", 40, [](R& r, int) { mt<double, CRandomSFMT0>(r); }); group("mt.f", 40, [](R& r, int) { mt<float, CRandomSFMT0>(r); }); group("mt.d2", 20, [](R& r, int) { mt<double, CRandomMersenne>(r); }); group("mt.f2", 20, [](R& r, int) { mt<float, CRandomMersenne>(r); }); group("mt.f3", 10, [](R& r, int) { mt<float, CRandomSFMT1>(r); });
	group("as.d", 12, [](R& r, int) { as_<double, CRandomSFMT0>(r); }); group("as.f", 12, [](R& r, int) { as_<float, CRandomMersenne>(r); });
	group("db.a", 80, [](R& r, int) { dbuf<double, void>(r); }); group("db.f", 40, [](R& r, int) { dbuf<float, void>(r); });
	dist_judge(); return done();
}
