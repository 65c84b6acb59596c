// allocation failures reported by exceptions: the k-th big allocation of the ordinary operator new (the storages of iMath, of the network, of the data's order of samples, of the evaluators)
// throws std::bad_alloc. The call that ran into it has to return its error code: nothing terminates, writes past what was allocated or leaks, and the same objects do the job afterwards.
#include <iostream>
#define STDCOUT(args) do { ::std::cout << args; } while(0)
#define STDCOUTL(args) do { ::std::cout << args << ::std::endl; } while(0)
#define VH_STDCOUT
#include "mathcommon.h"
#include "nntl/layers.h"
#include "nntl/nnet.h"
#include <new>
using namespace vh;
typedef _nnet_errs::ErrorCode EC;
static const size_t BIG = 2048; static std::atomic<long> g_left{ -1 }, g_hits{ 0 }; static std::atomic<bool> g_all{ false };
static bool fail_now(size_t n) { if (n < BIG || g_left < 0) return false; if (g_left == 0) { ++g_hits; if (!g_all) g_left = -1; return true; } --g_left; return false; }
void* operator new(size_t n) { void* p = fail_now(n) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = fail_now(n) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
static void arm(long k, bool all) { g_hits = 0; g_all = all; g_left = k; }
static long disarm() { g_left = -1; return g_hits; }
template<typename T> struct I : dt_interfaces<T> { typedef inspector::dummy<T> iInspect_t; };
template<typename T> struct G : dt_interfaces<T> { typedef inspector::GradCheck<T> iInspect_t; };
template<typename T, typename E> struct Obs : training_observer_stdcout<T, E> { std::vector<std::pair<nc, nc>>* cnt = nullptr; void report_results_end(const T l)noexcept { training_observer_stdcout<T, E>::report_results_end(l); const auto& q = this->m_classifRes[this->m_curDataSetId]; cnt->push_back({ q.totalElements, q.correctlyClassif }); } };
template<typename T> using A = activation::sigm<T, weights_init::XavierFour>;
template<typename T, typename II> using FC = LFC<A<T>, grad_works<II>>;
template<typename T, typename II> using OUTL = layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, grad_works<II>>;
template<typename T> M<T> wts(uint64_t s, vl n, vl inc) { R r(s); M<T> m(n, inc + 1); for (nc i = 0; i < m.numel(); ++i) m.data()[i] = (T)(r.norm()*.5); return m; }
template<typename T, typename L> void setw(L& l, uint64_t s, int inc) { if (!l.set_weights(wts<T>(s, l.get_neurons_cnt(), inc))) viol("oomv.setw", "weights refused"); }
template<typename T> bool data(R& r, inmem_train_data<T>& td, int N, int N2, int nx, int ny) {
	auto X = [&](int n) { MD<T> x(n, nx, true); for (vl i = 0; i < n; ++i) for (vl j = 0; j < nx; ++j) x.set(i, j, T(r.uni(-1, 1))); return x; }; auto Y = [&](int n) { MD<T> y(n, ny); y.zeros(); for (vl i = 0; i < n; ++i) y.set(i, r.below(ny), T(1)); return y; };
	auto x = X(N); auto y = Y(N); auto x2 = X(N2); auto y2 = Y(N2); return td.absorb(std::move(x), std::move(y), std::move(x2), std::move(y2));
}
template<typename T, typename E> void train(R& r) {
	const int nx = r.in(1, 4), h = r.in(2, 12), ny = r.in(1, 4), N = r.in(600, 1500), N2 = r.in(550, 900); const vl bs = r.b() ? N : r.in(N / 4, N); const T lr = T(.05);
	layer_input<I<T>> inp(nx); FC<T, I<T>> a(h, lr); OUTL<T, I<T>> o(ny, lr); auto lp = make_layers(inp, a, o); auto nn = make_nnet(lp); inmem_train_data<T> td; if (!data<T>(r, td, N, N2, nx, ny)) { viol("oomv.td", "absorb"); return; }
	const bool mn = r.b(); if (mn) a.get_gradWorks().max_norm2(T(3)); const uint64_t ws = r.u64(), seed = r.u64(); const bool keep = r.b(); const auto x0 = snap(td.train_x()), y0 = snap(td.train_y());
	std::vector<std::pair<nc, nc>> cnt; const int ep = r.in(1, 2); const vl fps = r.chance(30) ? std::max(N, N2) : -1;
	auto W = [&] { setw<T>(a, ws, nx); setw<T>(o, ws + 1, h); };
	auto job = [&] { nnet_train_opts<T, Obs<T, E>> opts((nc(ep))); opts.observer().cnt = &cnt; opts.batchSize(bs); if (fps > 0) opts.maxFpropSize(fps); opts.ImmediatelyDeinit(!keep); cnt.clear(); nn.get_iRng().seed64(seed); return nn.train(td, opts); };
	auto clean = [&] { td.deinit4all(); nn.deinit(); W(); }; typedef std::pair<std::vector<std::pair<nc, nc>>, std::vector<T>> Res; auto res = [&] { auto q = snap(a.get_weights()); auto w = snap(o.get_weights()); q.insert(q.end(), w.begin(), w.end()); return Res(cnt, q); };
	clean(); EC e0 = job(); if (e0 != EC::Success) { viol("oomv.clean", "training without failures gives '%s'", nn.get_last_error_string().c_str()); return; } const auto want = res(); if (cnt.size() < 2) viol("oomv.clean", "nothing was evaluated");
	for (long k = 0; ; ++k) {
		const bool all = r.b(); if (r.b()) { td.deinit4all(); } 
		// a new network for each k: its iMath has got no storage yet
		layer_input<I<T>> inp2(nx); FC<T, I<T>> a2(h, lr); OUTL<T, I<T>> o2(ny, lr); auto lp2 = make_layers(inp2, a2, o2); auto n2 = make_nnet(lp2); if (mn) a2.get_gradWorks().max_norm2(T(3));
		auto W2 = [&] { setw<T>(a2, ws, nx); setw<T>(o2, ws + 1, h); }; auto job2 = [&] { nnet_train_opts<T, Obs<T, E>> opts((nc(ep))); opts.observer().cnt = &cnt; opts.batchSize(bs); if (fps > 0) opts.maxFpropSize(fps); opts.ImmediatelyDeinit(!keep); cnt.clear(); n2.get_iRng().seed64(seed); return n2.train(td, opts); };
		auto res2 = [&] { auto q = snap(a2.get_weights()); auto w = snap(o2.get_weights()); q.insert(q.end(), w.begin(), w.end()); return Res(cnt, q); };
		td.deinit4all(); W2(); char b[120]; snprintf(b, sizeof(b), "training of %d-%d-%d, N %d/%d bs %d, big allocation %ld%s throws", nx, h, ny, N, N2, (int)bs, k, all ? " and all after it" : ""); note(b);
		arm(k, all); const EC ec = job2(); const long hit = disarm(); ev("oomv.trainings"); seen("train", k, all, bs == N, fps > 0, keep, E::is_hot);
		if (!hit) { if (ec != EC::Success || res2() != want) viol("oomv.result", "%s: code '%s' or other results though nothing failed", b, n2.get_error_str(ec)); ev("oomv.points", k); td.deinit4all(); return; }
		ev("oomv.hits"); if (ec != n2.get_last_error()) viol("oomv.last_error", "%s: returned %d, last error %d", b, (int)ec, (int)n2.get_last_error()); if (ec == EC::Success) { viol("oomv.unreported", "%s: success", b); }
		if (!same_bits(x0, td.train_x().data()) || !same_bits(y0, td.train_y().data())) viol("oomv.data", "%s: the data changed", b);
		if (r.b()) { td.deinit4all(); n2.deinit(); } W2(); const EC e2 = job2(); if (e2 != EC::Success || res2() != want) viol("oomv.retry", "%s: the retry gives '%s'%s", b, n2.get_error_str(e2), e2 == EC::Success ? " and other results" : ""); ev("oomv.retries");
	}
}
// inference over a fixed batch, by matrix and by the training data
template<typename T> void infer(R& r) {
	const int nx = r.in(1, 4), h = r.in(2, 12), ny = r.in(1, 4), N = r.in(500, 900), N2 = r.in(300, 500); typedef inspector::GradCheck<T> Insp; const bool gc = sizeof(T) == 8 && r.b(), byTd = r.b(); const uint64_t ws = r.u64(); inmem_train_data<T> td; if (!data<T>(r, td, N, N2, nx, ny)) { viol("oomv.td", "absorb"); return; } std::vector<T> want;
	for (long k = -1; ; ++k) {
		const bool all = r.b(); layer_input<G<T>> inp(nx); FC<T, G<T>> a(h, T(.1)); OUTL<T, G<T>> o(ny, T(.1)); auto lp = make_layers(inp, a, o); Insp insp; auto nn = make_nnet(lp, insp); nn.get_iRng().seed64(5);
		auto W = [&] { setw<T>(a, ws, nx); setw<T>(o, ws + 1, h); }; char b[110]; snprintf(b, sizeof(b), "%s over %d samples, big allocation %ld%s throws", gc ? "gradient check" : byTd ? "inference by td" : "inference", N, k, all ? " and all after it" : ""); note(b);
		auto job = [&]()->bool { if (gc) { gradcheck_settings<T> st(false, false, T(1e-5)); st.evalSetts.dLdA_setts.relErrFailThrsh = st.evalSetts.dLdW_setts.relErrFailThrsh = T(.05); st.evalSetts.dLdA_setts.percOfZeros = st.evalSetts.dLdW_setts.percOfZeros = 100; return nn.gradcheck(td.train_x(), td.train_y(), 5, st); }
			vl fb = vl(N); const EC e = byTd ? nn.init4fixedBatchFprop(td, fb) : nn.init4fixedBatchFprop(vl(N)); if (e != nn.get_last_error()) viol("oomv.last_error", "%s: returned %d, last error %d", b, (int)e, (int)nn.get_last_error()); if (e != EC::Success) return false; nn.doFixedBatchFprop(td.train_x()); return true; };
		auto res = [&] { auto w = gc ? snap(a.get_weights()) : snap(o.get_activations()); return w; };
		td.deinit4all(); W(); if (k < 0) { if (!job()) { viol("oomv.clean", "%s without failures fails", b); return; } want = res(); continue; }
		arm(k, all); const bool ok = job(); const long hit = disarm(); ev("oomv.inferences"); seen("inf", gc, byTd, k, all);
		if (!hit) { if (!ok || res() != want) viol("oomv.result", "%s: other results though nothing failed", b); ev("oomv.points", k); return; }
		ev("oomv.hits"); if (ok) viol("oomv.unreported", "%s: success", b);
		if (r.b()) nn.deinit(); td.deinit4all(); W(); if (!job() || res() != want) viol("oomv.retry", "%s: the retry fails or gives other results", b); ev("oomv.retries");
	}
}
template<typename T> struct BinE : eval_classification_binary_cached<T> { static constexpr bool is_hot = false; };
template<typename T> struct HotE : eval_classification_one_hot_cached<T> { static constexpr bool is_hot = true; };
int main(int c, char** v) {
	init(c, v); g_hc = 2; static struct Null : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } sink; auto* old = std::cout.rdbuf();
	auto quiet = [&](auto f) { return [old, f](R& r, int) { std::cout.rdbuf(&sink); f(r); std::cout.rdbuf(old); }; };
	group("hot.d", 30, quiet([](R& r) { train<double, HotE<double>>(r); })); group("hot.f", 30, quiet([](R& r) { train<float, HotE<float>>(r); }));
	group("bin.d", 15, quiet([](R& r) { train<double, BinE<double>>(r); })); group("bin.f", 15, quiet([](R& r) { train<float, BinE<float>>(r); }));
	group("infer.d", 60, quiet([](R& r) { infer<double>(r); })); group("infer.f", 30, quiet([](R& r) { infer<float>(r); }));
	return done();
}
