// allocation failures: the k-th allocation of a scenario fails (or all from the k-th on), for every k. The failure has to be reported, nothing may crash or leak,
// and the same objects have to do the job once memory is there again, with the result of a run that never failed.
#include "netcommon.h"
#include "nntl/loss_addendum/L2.h"
#include "nntl/loss_addendum/DeCov.h"
#include "nntl/_supp/io/binfile.h"
namespace la = nntl::loss_addendum;
#include <unistd.h>
#include <new>
static std::atomic<long> g_left{ -1 }, g_hits{ 0 }; static std::atomic<bool> g_all{ false };
static bool fail_now(size_t) { if (g_left < 0) return false; if (g_left == 0) { ++g_hits; if (!g_all) g_left = -1; return true; } --g_left; return false; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fail_now(n) ? nullptr : ::operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fail_now(n) ? nullptr : ::operator new[](n); }
static void arm(long k, bool all) { g_hits = 0; g_all = all; g_left = k; vshim::alloc_fail() = &fail_now; }
static long disarm() { g_left = -1; return g_hits; }
typedef _nnet_errs::ErrorCode EC;

template<typename T> using AS = activation::sigm<T, weights_init::XavierFour>;
template<typename T> using FC = LFC<AS<T>, GWN<T>>;
template<typename T> using OUTL = layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, GWN<T>>;
// ---- matrices ----
template<typename T> void mtx(R& r) {
	const vl a = r.in(1, 9), b = r.in(1, 9), c = r.in(1, 9), d = r.in(1, 9); const bool bias = r.b(), row = r.b(); const int op = r.below(6);
	char n[80]; snprintf(n, sizeof(n), "op %d %d x %d -> %d x %d bias %d", op, (int)a, (int)b, (int)c, (int)d, bias); note(n); seen("mtx", op, bias, row, a == c && b == d); ev("oom.mtx");
	auto bad = [&](bool ok, const M<T>& m) { const long h = disarm(); if (!h) { return; } if (ok) viol("oom.mtx_code", "%s: success after a failed allocation", n); if (!m.empty()) viol("oom.mtx_state", "%s: not empty after a failed allocation", n); };
	auto fill = [&](M<T>& m) { for (vl i = 0; i < m.rows(); ++i) for (vl j = 0; j < m.cols_no_bias(); ++j) m.set(i, j, (T)r.norm()); };
	if (op == 0) { M<T> m; m.set_batchInRow(row); if (bias) m.will_emulate_biases(); m.resize(a, b); arm(0, r.b()); bad(m.resize(c, d), m); if (!m.empty()) return; m.set_batchInRow(row); if (!m.resize(c, d) || m.rows_no_bias() != c || m.cols_no_bias() != d || (bias && !m.test_biases_strict())) viol("oom.mtx_retry", "%s: retry", n); }
	else if (op == 1) { arm(0, r.b()); M<T> m(a, b, bias); bad(false, m); if (!m.resize(c, d) || m.rows() != c || m.cols_no_bias() != d) viol("oom.mtx_retry", "%s: retry", n); }
	else if (op == 2) { M<T> s(a, b, bias); fill(s); const auto v = snap(s); M<T> m; if (r.b()) { if (bias) m.will_emulate_biases(); m.resize(c, d); } const bool same = !m.empty() && m.size() == s.size(); arm(0, r.b()); const bool ok = s.clone_to(m); const bool hit = g_hits > 0; if (hit) bad(ok, m); else { disarm(); if (!ok) viol("oom.mtx_code", "%s: failure without a reason", n); } (void)same; if (!same_bits(v, s.data())) viol("oom.mtx_src", "%s: the source changed", n); if (!s.clone_to(m) || !same_bits(v, m.data())) viol("oom.mtx_retry", "%s: retry", n); }
	else if (op == 3) { MD<T> m; if (bias) m.will_emulate_biases(); m.resize(a, b); arm(0, r.b()); bad(m.resize(c, d), m); if (!m.resize(c, d) || m.rows() != c || m.cols_no_bias() != d || (bias && !m.test_biases_strict())) viol("oom.mtx_retry", "%s: retry", n); }
	else if (op == 4) { M<T> s(a, b, bias); fill(s); const auto v = snap(s); MD<T> m; if (r.b()) { if (bias) m.will_emulate_biases(); m.resize(c, d); } arm(0, r.b()); const bool ok = m.cloneFrom(s); bad(ok, m); if (!m.cloneFrom(s) || !same_bits(v, m.data())) viol("oom.mtx_retry", "%s: retry", n); }
	else { M<T> m; if (bias) m.will_emulate_biases(); m.set_batchInRow(row); arm(0, r.b()); bad(m.resize_as_dataset(a, b), m); m.set_batchInRow(row); if (!m.resize_as_dataset(a, b) || m.batch_size() != a || m.sample_size() != b) viol("oom.mtx_retry", "%s: retry", n); }
}
// ---- files ----
template<typename T> void bin(R& r) {
	const std::string fn = S().tmpdir + "/oom." + std::to_string(getpid()); const uint32_t n = r.in(1, 5), m = r.in(1, 5), xw = r.in(1, 4), yw = r.in(1, 3);
	FILE* f = fopen(fn.c_str(), "wb"); unsigned char h[10] = { 'n','n','t','l',0,0,4,0,0,0 }; fwrite(h, 10, 1, f); const char* nm[] = { "train_x","train_y","test_x","test_y" }; std::vector<double> v;
	for (int i = 0; i < 4; ++i) { uint32_t d[2] = { i < 2 ? n : m, i & 1 ? yw : xw }; char nb[16] = {}; strcpy(nb, nm[i]); nb[15] = 0; fwrite(d, 8, 1, f); fwrite(nb, 16, 1, f); for (uint32_t q = 0; q < d[0] * d[1]; ++q) { double x = r.norm(); v.push_back(x); fwrite(&x, 8, 1, f); } } fclose(f);
	nntl_supp::binfile rd; for (long k = 0; ; ++k) for (int all = 0; all < 2; ++all) {
		inmem_train_data<T> td; arm(k, all); auto ec = rd.read(fn.c_str(), td); const long hit = disarm(); ev("oom.files"); seen("bin", k, all);
		if (hit && (ec == nntl_supp::binfile::ErrorCode::Success || !td.empty())) viol("oom.file", "a failed allocation %ld: code %d", k, (int)ec); if (hit) { if (ec != nntl_supp::binfile::ErrorCode::MemoryAllocationFailed) viol("oom.file_code", "a failed allocation is reported as '%s'", rd.get_last_error_str()); ec = rd.read(fn.c_str(), td); }
		if (ec != nntl_supp::binfile::ErrorCode::Success || td.train_x().get(0, 0) != (T)v[0] || td.test_y().get(m - 1, yw - 1) != (T)v.back()) viol("oom.file_retry", "code %d", (int)ec);
		if (!hit && all) { unlink(fn.c_str()); return; }
	}
}
// ---- networks ----
// job(): runs the whole thing on the objects; returns the code. state(): what has to be equal in the end
template<typename T, typename LP, typename Set, typename Get> void net(R& r, const char* name, LP& lp, int nx, int ny, Set&& setup, Get&& get, bool gates = false) {
	MonInsp<T> insp; auto nn = make_nnet(lp, insp); const int N = r.in(3, 12), N2 = r.in(1, 6); DataSpec ds{ OutK::sigm_xe, nx, ny }; if (gates) { ds.gates = true; ds.gateCols = { { 0, 2 } }; }
	inmem_train_data<T> td; if (!mkTD<T>(r, td, N, N2, ds)) { viol("oom.td", "can't absorb"); return; }
	const auto x0 = snap(td.train_x()), y0 = snap(td.train_y()); const int ep = r.in(1, 2); const vl bs = r.pick({ 0, 1, 2 }) ? r.in(1, N) : N, fps = r.pick({ 0, 0, 1 }) ? std::max(N, N2) : -1; const bool keep = r.b(); const uint64_t seed = r.u64() >> 1;
	auto job = [&]() { nnet_train_opts<T, training_observer_silent<T>> opts((nc(ep))); opts.batchSize(bs); if (fps > 0) opts.maxFpropSize(fps); opts.ImmediatelyDeinit(!keep); nn.get_iRng().seed64(seed); return nn.train(td, opts); };
	auto clean = [&]() { td.deinit4all(); nn.deinit(); setup(); };
	clean(); EC e0 = job(); if (e0 != EC::Success) { viol("oom.clean", "%s without failures: %s", name, nn.get_last_error_string().c_str()); return; } const auto want = get();
	long nAlloc = 0; int rep = 0;
	for (long k = 0; k < 400; ++k) {
		const bool all = r.b(), warm = r.chance(25); clean(); char b[120]; snprintf(b, sizeof(b), "%s N %d/%d bs %d allocation %ld%s fails", name, N, N2, (int)bs, k, all ? " and all after it" : ""); note(b);
		if (warm) { nn.train(td, *std::make_unique<nnet_train_opts<T, training_observer_silent<T>>>(nc(1))); setup(); }
		arm(k, all); const EC ec = job(); const long hit = disarm(); ev("oom.trainings"); seen(name, k, all, warm);
		if (!hit) { nAlloc = k; if (ec != EC::Success) viol("oom.code", "%s: no failure, code '%s'", b, nn.get_error_str(ec)); else if (!warm && get() != want) viol("oom.result", "%s: other results without any failure", b); if (!warm) break; else { if (++rep > 5) break; continue; } }
		ev("oom.hits"); if (ec == EC::Success) { if (!warm && get() != want) viol("oom.unreported", "%s: success with wrong results", b); ev("oom.survived"); }
		if (!same_bits(x0, td.train_x().data()) || !same_bits(y0, td.train_y().data())) viol("oom.data", "%s: the data changed", b);
		// memory is back: without any cleaning up by the user
		if (r.b()) { setup(); EC e2 = job(); if (e2 != EC::Success) viol("oom.retry", "%s: the retry gives '%s'", b, nn.get_last_error_string().c_str()); else if (!warm && get() != want) viol("oom.retry_result", "%s: the retry gives other results", b); ev("oom.retries"); }
		else { clean(); EC e2 = job(); if (e2 != EC::Success) viol("oom.retry", "%s: the retry after deinit gives '%s'", b, nn.get_last_error_string().c_str()); else if (get() != want) viol("oom.retry_result", "%s: the retry after deinit gives other results", b); ev("oom.retries"); }
	}
	ev("oom.points", nAlloc); td.deinit4all(); nn.deinit();
}
template<typename T> M<T> wts(uint64_t s, vl n, vl inc) { R r(s); M<T> m(n, inc + 1); for (nc i = 0; i < m.numel(); ++i) m.data()[i] = (T)(r.norm()*.5); return m; }
template<typename T, typename L> void setw(L& l, uint64_t s, int inc) { if (!l.set_weights(wts<T>(s, l.get_neurons_cnt(), inc))) viol("oom.setw", "weights refused"); }
template<typename T> void chain(R& r) {
	const int nx = r.in(1, 5), h = r.in(1, 5), h2 = r.in(1, 5), ny = r.in(1, 3); layer_input<NI<T>> inp(nx); const T lr = T(.1); FC<T> a(h, lr), b(h2, lr); OUTL<T> o(ny, lr); auto lp = make_layers(inp, a, b, o); const int kind = r.below(7); typedef GWN<T> G;
	for (auto* g : { &a.get_gradWorks(), &b.get_gradWorks() }) { switch (kind) { case 0: g->set_type(G::ClassicalConstant); break; case 1: g->set_type(G::RMSProp_Hinton); break; case 2: g->set_type(G::Adam); break; case 3: g->set_type(G::AdaMax); break; case 4: g->set_type(G::Nadam); break; case 5: g->set_type(G::RProp); break; default: g->set_type(G::RMSProp_Graves); } if (r.b()) g->nesterov_momentum(T(.5)); if (r.chance(30)) g->set_ILR(T(.9), T(1.1), T(.1), T(5)); if (r.chance(30)) g->L2(T(.01)); if (r.chance(30)) g->max_norm2(T(4)); }
	const uint64_t s = r.u64(); seen("chain", kind);
	net<T>(r, "chain", lp, nx, ny, [&]() { setw<T>(a, s, nx); setw<T>(b, s + 1, h); setw<T>(o, s + 2, h2); }, [&]() { return std::vector<std::vector<T>>{ snap(a.get_weights()), snap(b.get_weights()), snap(o.get_weights()) }; });
}
template<typename T> void packs(R& r) {
	const T lr = T(.1); const int a = r.in(1, 4), b = r.in(1, 4), nx = a + b, ny = r.in(1, 3), K = r.in(2, 3), m = r.in(1, 3); layer_input<NI<T>> inp(nx); FC<T> f1(r.in(1, 4), lr), f2(r.in(1, 4), lr), f3(K*m, lr), f4(r.in(1, 4), lr), f5(r.in(1, 4), lr); LI<NI<T>> li; OUTL<T> o(ny, lr); const uint64_t s = r.u64();
	auto ph = LPH<PHL<FC<T>>, PHL<LI<NI<T>>>, PHL<FC<T>>>(make_PHL(f1, 0, a), make_PHL(li, 0, nx), make_PHL(f2, a, b)); LPV<FC<T>, FC<T>> pv(f4, f5); LPT<decltype(pv)> pt(pv, K); auto lp = make_layers(inp, ph, f3, pt, o);
	net<T>(r, "packs", lp, nx, ny, [&]() { setw<T>(f1, s, a); setw<T>(f2, s + 1, b); setw<T>(f3, s + 2, f1.get_neurons_cnt() + nx + f2.get_neurons_cnt()); setw<T>(f4, s + 3, m); setw<T>(f5, s + 4, f4.get_neurons_cnt()); setw<T>(o, s + 5, K*f5.get_neurons_cnt()); },
		[&]() { return std::vector<std::vector<T>>{ snap(f1.get_weights()), snap(f2.get_weights()), snap(f3.get_weights()), snap(f4.get_weights()), snap(f5.get_weights()), snap(o.get_weights()) }; });
}
template<typename T, bool add> void opt(R& r) {
	const T lr = T(.1); const int a = r.in(1, 4), b = r.in(1, 4), nx = 2 + a + b, ny = r.in(1, 3); layer_input<NI<T>> inp(nx); FC<T> f1(r.in(1, 5), lr), f2(r.in(1, 5), lr); LIG<500000, NI<T>> g; OUTL<T> o(ny, lr); const uint64_t s = r.u64(); typedef LPHO<add, PHL<decltype(g)>, PHL<FC<T>>, PHL<FC<T>>> PK;
	PK pk(make_PHL(g, 0, 2), make_PHL(f1, 2, a), make_PHL(f2, 2 + a, b)); auto lp = make_layers(inp, pk, o);
	net<T>(r, "opt", lp, nx, ny, [&]() { setw<T>(f1, s, a); setw<T>(f2, s + 1, b); setw<T>(o, s + 2, int(pk.get_neurons_cnt())); }, [&]() { return std::vector<std::vector<T>>{ snap(f1.get_weights()), snap(f2.get_weights()), snap(o.get_weights()) }; }, true);
}
template<typename T> using DRF = LFC_DO<AS<T>, GWN<T>, Dropout<T>>;
template<typename T> using DRA = LFC_PA_DO<std::tuple<la::L2<T, false, true>, la::DeCov<T, true, false, true, true>>, AS<T>, GWN<T>, Dropout<T>>;
template<typename T, typename D> void drop(R& r) {
	const T lr = T(.1); const int nx = r.in(1, 5), h = r.in(2, 6), ny = r.in(1, 3); layer_input<NI<T>> inp(nx); D d(h, lr); FC<T> f(r.in(1, 4), lr); OUTL<T> o(ny, lr); const uint64_t s = r.u64(); d.dropoutPercentActive(T(.6)); auto lp = make_layers(inp, d, f, o);
	net<T>(r, "drop", lp, nx, ny, [&]() { setw<T>(d, s, nx); setw<T>(f, s + 1, h); setw<T>(o, s + 2, f.get_neurons_cnt()); }, [&]() { return std::vector<std::vector<T>>{ snap(d.get_weights()), snap(f.get_weights()), snap(o.get_weights()) }; });
}
// the numeric check of gradients and the inference of a fixed batch
template<typename T> struct NG : dt_interfaces<T> { typedef inspector::GradCheck<T> iInspect_t; };
template<typename T, bool gc> void infer(R& r) {
	typedef std::conditional_t<gc, NG<T>, NI<T>> I; typedef LFC<AS<T>, grad_works<I>> FC; typedef layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, grad_works<I>> OUTL;
	const int nx = r.in(1, 4), h = r.in(1, 5), ny = r.in(1, 3), N = r.in(2, 6); layer_input<I> inp(nx); FC a(h, T(.1)); OUTL o(ny, T(.1)); auto lp = make_layers(inp, a, o); typename I::iInspect_t insp; auto nn = make_nnet(lp, insp); nn.get_iRng().seed64(r.u64() >> 1);
	MD<T> X(N, nx, true), Y(N, ny); for (vl i = 0; i < N; ++i) { for (vl j = 0; j < nx; ++j) X.set(i, j, T(r.uni(-1, 1))); for (vl j = 0; j < ny; ++j) Y.set(i, j, T(r.below(2))); } const uint64_t s = r.u64(); auto W = [&] { setw<T>(a, s, nx); setw<T>(o, s + 1, h); };
	std::vector<T> want; const auto x0 = snap(X), y0 = snap(Y);
	auto job = [&](std::vector<T>& res) -> bool { if constexpr (gc) { gradcheck_settings<T> st(false, false, T(1e-5)); st.evalSetts.dLdA_setts.relErrFailThrsh = st.evalSetts.dLdW_setts.relErrFailThrsh = T(.05); st.evalSetts.dLdA_setts.percOfZeros = st.evalSetts.dLdW_setts.percOfZeros = 100; const bool ok = nn.gradcheck(X, Y, N, st); res.clear(); return ok; } else {
		const EC ec = nn.init4fixedBatchFprop(vl(N)); if (ec != EC::Success) { if (ec != nn.get_last_error()) viol("oom.last_error", "init4fixedBatchFprop() returned %d, last error is %d", (int)ec, (int)nn.get_last_error()); return false; } nn.doFixedBatchFprop(X); res = snap(o.get_activations()); return true; } };
	W(); if (!job(want)) { viol("oom.clean", "%s without failures fails", gc ? "gradcheck" : "inference"); return; }
	for (long k = 0; k < 200; ++k) { nn.deinit(); W(); const bool all = r.b(); char b[90]; snprintf(b, sizeof(b), "%s N %d allocation %ld%s fails", gc ? "gradcheck" : "inference", N, k, all ? " and all after it" : ""); note(b); std::vector<T> g; arm(k, all); const bool ok = job(g); const long hit = disarm(); ev("oom.inferences"); seen("infer", gc, k, all);
		if (!hit) { if (!ok || g != want) viol("oom.result", "%s: other results without any failure", b); break; } ev("oom.hits"); if (ok && g != want) viol("oom.unreported", "%s: success with wrong results", b); if (ok && gc) viol("oom.unreported", "%s: accepted", b);
		if (!same_bits(x0, X.data()) || !same_bits(y0, Y.data())) viol("oom.data", "%s: the data changed", b); if (r.b()) nn.deinit(); W(); if (!job(g) || g != want) viol("oom.retry", "%s: the retry fails or gives other results", b); ev("oom.retries"); }
}
// weights drawn by a scheme that needs memory of its own
template<typename T> void draw(R& r) {
	typedef activation::sigm<T, weights_init::Martens_SI<0, 1000000, 3>> A; typedef LFC<A, GWN<T>> L; const int nx = r.in(4, 9), h = r.in(1, 5), ny = r.in(1, 3); layer_input<NI<T>> inp(nx); const T lr = T(.1); L a(h, lr); OUTL<T> o(ny, lr); auto lp = make_layers(inp, a, o); MonInsp<T> insp; auto nn = make_nnet(lp, insp); inmem_train_data<T> td; if (!mkTD<T>(r, td, 6, 3, DataSpec{ OutK::sigm_xe, nx, ny })) return;
	for (long k = 0; k < 100; ++k) { a.drop_weights(); o.drop_weights(); td.deinit4all(); nn.deinit(); char b[90]; snprintf(b, sizeof(b), "drawn weights, allocation %ld fails", k); note(b); auto job = [&] { nnet_train_opts<T, training_observer_silent<T>> opts(nc(1)); opts.batchSize(3); return nn.train(td, opts); }; arm(k, r.b()); const EC ec = job(); const long hit = disarm(); ev("oom.draws"); seen("draw", k, hit);
		if (!hit) { if (ec != EC::Success) viol("oom.code", "%s: no failure, code %d", b, (int)ec); break; } ev("oom.hits"); if (ec == EC::Success) { int z = 0; for (nc i = 0; i < a.get_weights().numel(); ++i) z += !std::isfinite(a.get_weights().data()[i]); if (z) viol("oom.unreported", "%s: success with undefined weights", b); } else if (nn.get_last_error() != ec) viol("oom.last_error", "%s", b);
		const EC e2 = job(); if (e2 != EC::Success) viol("oom.retry", "%s: the retry gives '%s'", b, nn.get_last_error_string().c_str()); for (nc i = 0; i < a.get_weights().numel(); ++i) if (!std::isfinite(a.get_weights().data()[i])) { viol("oom.retry_result", "%s: undefined weights after the retry", b); break; } ev("oom.retries"); }
}
int main(int c, char** v) {
	init(c, v);
	for (unsigned hc : { 2u }) {
		g_hc = hc;
		group("mtx.d", 200, [](R& r, int) { mtx<double>(r); }); group("mtx.f", 200, [](R& r, int) { mtx<float>(r); });
		group("bin.d", 5, [](R& r, int) { bin<double>(r); }); group("bin.f", 5, [](R& r, int) { bin<float>(r); });
		group("chain.d", 12, [](R& r, int) { chain<double>(r); }); group("chain.f", 12, [](R& r, int) { chain<float>(r); });
		group("packs.d", 6, [](R& r, int) { packs<double>(r); }); group("packs.f", 6, [](R& r, int) { packs<float>(r); });
		group("opt.d", 6, [](R& r, int) { opt<double, false>(r); }); group("opt.f", 6, [](R& r, int) { opt<float, true>(r); });
		group("drop.d", 6, [](R& r, int) { drop<double, DRF<double>>(r); }); group("drop.f", 6, [](R& r, int) { drop<float, DRA<float>>(r); });
		group("infer.d", 16, [](R& r, int) { infer<double, true>(r); }); group("infer.f", 8, [](R& r, int) { infer<float, false>(r); });
		group("draw.d", 6, [](R& r, int) { draw<double>(r); }); group("draw.f", 6, [](R& r, int) { draw<float>(r); });
	}
	return done();
}
