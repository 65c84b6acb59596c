// initial weights: the documented distributions, and the data driven normalisation of layers (LSUV)
#include "netcommon.h"
#include "nntl/weights_init/LsuvExt.h"
typedef _nnet_errs::ErrorCode EC; namespace wi = nntl::weights_init;
template<typename T> struct WEnv { IM<T> iM; typename dt_interfaces<T>::iRng_t rng; WEnv(uint64_t s) { rng.init_ithreads(iM.ithreads()); rng.seed64(s); } };
// one sample Kolmogorov-Smirnov statistics times sqrt(n)
template<typename F> ld ks(std::vector<ld> v, F cdf) { std::sort(v.begin(), v.end()); ld d = 0; const ld n = v.size(); for (size_t i = 0; i < v.size(); ++i) { const ld c = cdf(v[i]); d = std::max(d, std::max((i + 1) / n - c, c - i / n)); } return d * std::sqrt(n); }
static ld phi(ld x) { return std::erfc(-x / std::sqrt(2.L)) / 2; }
template<typename T> bool sane(const M<T>& W, const char* w) { for (nc i = 0; i < W.numel(); ++i) if (!std::isfinite(W.data()[i])) { viol("wi.finite", "%s [%d,%d]: element %lld is not finite", w, int(W.rows()), int(W.cols()), (long long)i); return false; } return true; }
template<typename T> void judge_normal(const std::vector<ld>& v, ld sd, const char* w, int r, int c) {
	ld s2 = 0; for (auto x : v) s2 += x * x / (sd*sd); const ld n = v.size(); if (n < 8) return; const ld z = (s2 - n) / std::sqrt(2 * n);
	const ld k = ks(v, [sd](ld x) { return phi(x / sd); }); if (k > 3.6L) viol("wi.normal", "%s [%d,%d]: %zu weights are not N(0, %g): KS %.3f", w, r, c, v.size(), (double)sd, (double)k);
	if (z > (n < 100 ? 25 : 9) || z < -9) viol("wi.normal", "%s [%d,%d]: variance is off by %.1f sigma", w, r, c, (double)z); ev("wi.ks"); ev("wi.values", v.size());
}
template<typename T> static std::vector<ld> flat(const M<T>& W, vl c0, vl c1) { std::vector<ld> v; for (vl c = c0; c < c1; ++c) for (vl r = 0; r < W.rows(); ++r) v.push_back(W.get(r, c)); return v; }
template<typename T> void shapeOf(R& r, int& rows, int& cols, int minc = 2) { switch (r.below(5)) { case 0: rows = r.in(1, 6); cols = r.in(minc, minc + 6); break; case 1: rows = 1; cols = r.in(minc, 400); break; case 2: rows = r.in(1, 400); cols = minc; break; case 3: rows = r.in(100, 300); cols = r.in(std::max(minc, 100), 300); break; default: rows = r.in(1, 60); cols = r.in(minc, minc + 60); } }
template<typename T, unsigned S> void xavier(R& r) {
	WEnv<T> e(r.u64() >> 1); int a, b; shapeOf<T>(r, a, b); M<T> W(a, b); std::fill(W.data(), W.data() + W.numel(), T(77)); note("xavier"); if (!wi::Xavier<S>::make_weights(W, e.rng, e.iM)) { viol("wi.fail", "Xavier fails"); return; } if (!sane(W, "Xavier")) return;
	const ld s = S / 1e6L*std::sqrt(6.L / (a + b)); auto v = flat(W, 0, b); for (auto x : v) if (std::fabs(x) > s*(1 + 4 * EPS<T>)) { viol("wi.xavier", "[%d,%d]: weight %g exceeds %g", a, b, (double)x, (double)s); return; }
	if (v.size() >= 8) { const ld k = ks(v, [s](ld x) { return (x / s + 1) / 2; }); if (k > 3.6L) viol("wi.xavier", "[%d,%d]: not uniform within %g, KS %.3f", a, b, (double)s, (double)k); ev("wi.ks"); ev("wi.values", v.size()); } seen("xavier", S, sizeof(T), a > 100, b > 100);
}
template<typename T, typename S> void normal(R& r, ld k, const char* nm) {
	WEnv<T> e(r.u64() >> 1); int a, b; shapeOf<T>(r, a, b); M<T> W(a, b); std::fill(W.data(), W.data() + W.numel(), T(77)); note(nm); if (!S::make_weights(W, e.rng, e.iM)) { viol("wi.fail", "%s fails", nm); return; } if (!sane(W, nm)) return;
	for (vl i = 0; i < W.rows(); ++i) if (W.get(i, b - 1) != T(0)) { viol("wi.bias", "%s [%d,%d]: bias %g", nm, a, b, (double)W.get(i, b - 1)); break; } judge_normal<T>(flat(W, 0, b - 1), std::sqrt(k / (b - 1)), nm, a, b); seen("normal", k, sizeof(T), a > 100, b > 100);
}
template<typename T, int Bi, unsigned Sd, unsigned K> void martens(R& r) {
	WEnv<T> e(r.u64() >> 1); int a, b; shapeOf<T>(r, a, b, int(K) + 1 + r.pick({ 0, 0, 3, 20 })); M<T> W(a, b); std::fill(W.data(), W.data() + W.numel(), T(77)); note("martens"); if (!wi::Martens_SI<Bi, Sd, K>::make_weights(W, e.rng, e.iM)) { viol("wi.fail", "Martens_SI fails"); return; } if (!sane(W, "Martens_SI")) return;
	std::vector<ld> v; std::vector<int> use(b - 1); unsigned lost = 0; for (vl i = 0; i < a; ++i) { unsigned n = 0; for (vl j = 0; j + 1 < b; ++j) if (W.get(i, j) != T(0)) { ++n; ++use[j]; v.push_back(W.get(i, j)); } if (n != K && (n > K || (lost += K - n) > 2)) {// a drawn zero is possible
			viol("wi.sparse", "[%d,%d]: row %d has %u incoming connections instead of %u", a, b, int(i), n, K); return; } if (W.get(i, b - 1) != T(Bi) / T(1000000)) { viol("wi.bias", "Martens_SI: bias %g", (double)W.get(i, b - 1)); return; } }
	judge_normal<T>(v, Sd / 1e6L, "Martens_SI", a, b); const ld p = ld(K) / (b - 1); if (p < 1) for (vl j = 0; j + 1 < b; ++j) { const ld z = (use[j] - a * p) / std::sqrt(a*p*(1 - p) + 4); if (std::fabs(z) > 9) { viol("wi.sparse", "[%d,%d]: unit %d is used %d times, expected %.1f", a, b, int(j), use[j], (double)(a*p)); break; } } seen("martens", K, Bi, sizeof(T), a > 100, b > 100, p == 1);
}
// without a preferred direction: the average of many orthogonal matrices is zero
template<typename T> void orthoMean(R& r) {
	const int a = r.in(2, 12), b = r.in(2, 12), n = 120; ld s = 0; WEnv<T> e(r.u64() >> 1); note("orthoMean"); for (int k = 0; k < n; ++k) { M<T> W(a, b); if (!wi::OrthoInit<1000000>::make_weights(W, e.rng, e.iM)) { viol("wi.fail", "OrthoInit fails for [%d,%d]", a, b); return; } ld q = 0; for (nc i = 0; i < W.numel(); ++i) q += W.data()[i]; s += q; }
	// the sum of the elements of one matrix has a variance of about max(a,b)*min(a,b)/max(a,b) = min(a,b)
	const ld z = s / std::sqrt(ld(n)*std::min(a, b)); if (std::fabs(z) > 7) viol("wi.ortho_mean", "[%d,%d]: the elements of %d matrices have a common sign, %.1f sigma", a, b, n, (double)z); ev("wi.ortho_mean");
}
template<typename T, unsigned G> void ortho(R& r) {
	WEnv<T> e(r.u64() >> 1); int a, b; shapeOf<T>(r, a, b); if (a > 120) a = 120; if (b > 120) b = 120; M<T> W(a, b); note("ortho"); if (!wi::OrthoInit<G>::make_weights(W, e.rng, e.iM)) { viol("wi.fail", "OrthoInit fails for [%d,%d]", a, b); return; } if (!sane(W, "OrthoInit")) return; const ld g = G / 1e6L; const bool rw = a <= b; const int n = rw ? a : b, m = rw ? b : a;
	for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { ld s = 0; for (int k = 0; k < m; ++k) s += rw ? ld(W.get(i, k))*W.get(j, k) : ld(W.get(k, i))*W.get(k, j); if (std::fabs(s - (i == j ? g * g : 0)) > 2000 * EPS<T>*g*g*std::sqrt(ld(m))) { viol("wi.ortho", "[%d,%d] gain %g: product of %s %d and %d is %.9g", a, b, (double)g, rw ? "rows" : "columns", i, j, (double)s); return; } } ev("wi.ortho"); seen("ortho", G, sizeof(T), a < b, a == b);
}
// the layers of a network get weights of their scheme; weights that were set stay
template<typename T> void layers_w(R& r) {
	typedef dt_interfaces<T> I; typedef LFC<activation::sigm<T, wi::XavierFour>, grad_works<I>> F1; typedef LFC<activation::relu<T, wi::He_Zhang<>>, grad_works<I>> F2; const int nx = r.in(1, 30), h = r.in(10, 200), h2 = r.in(5, 200), ny = r.in(1, 8); layer_input<I> inp(nx); F1 a(h, T(.1)); F2 b(h2, T(.1)); layer_output<activation::sigm_xentropy_loss<T, wi::Martens_SI_sigm<4>>, grad_works<I>> o(ny, T(.1)); auto lp = make_layers(inp, a, b, o); auto nn = make_nnet(lp); nn.get_iRng().seed64(r.u64() >> 1); note("layers");
	const bool own = r.b(); std::vector<T> mine; if (own) { MD<T> w(h, nx + 1); for (nc i = 0; i < w.numel(); ++i) w.data()[i] = T(r.uni(-1, 1)); mine = snap<T>(w); if (!a.set_weights(std::move(w))) viol("wi.set", "set_weights refused"); }
	vl one = r.in(1, 5); if (nn.init4fixedBatchFprop(one) != EC::Success) { viol("wi.init", "can't init"); return; }
	if (own) { if (snap<T>(a.get_weights()) != mine) viol("wi.set", "the weights that were set did not survive the initialisation"); } else { const ld s = 4 * std::sqrt(6.L / (h + nx + 1)); auto v = flat<T>(a.get_weights(), 0, nx + 1); if (ks(v, [s](ld x) { return std::min(1.L, std::max(0.L, (x / s + 1) / 2)); }) > 3.6L) viol("wi.layer", "the layer [%d,%d] is not initialised by its scheme", h, nx); }
	judge_normal<T>(flat<T>(b.get_weights(), 0, h), std::sqrt(2.L / h), "layer He_Zhang", h2, h + 1); for (vl i = 0; i < h2; ++i) if (b.get_weights().get(i, h) != T(0)) { viol("wi.bias", "bias of a fresh layer"); break; }
	for (vl i = 0; i < ny; ++i) { int n = 0; for (vl j = 0; j < h2; ++j) n += o.get_weights().get(i, j) != T(0); if (n != 4) { viol("wi.layer", "the output layer has %d connections", n); break; } }
	const auto w0 = snap<T>(b.get_weights()); if (!b.reinit_weights()) viol("wi.reinit", "reinit_weights fails"); if (w0 == snap<T>(b.get_weights())) viol("wi.reinit", "weights are the same"); judge_normal<T>(flat<T>(b.get_weights(), 0, h), std::sqrt(2.L / h), "layer He_Zhang again", h2, h + 1);
	MD<T> bad(h2 + r.pick({ 0, 1 }), h + 1 + 1); bad.zeros(); const auto w1 = snap<T>(b.get_weights());
#ifdef NDEBUG
	if (b.set_weights(std::move(bad))) viol("wi.set", "weights of a wrong size are accepted"); if (w1 != snap<T>(b.get_weights())) viol("wi.set", "refused weights changed the layer"); ev("wi.refused");
#endif
	ev("wi.layers");
}
// LSUV: success means that the statistics of every processed layer are where they have to be
template<class> struct any_layer : std::true_type {};
struct LS { bool sc, ce, ind, pre; int bs, bc; ld ts, tc, st, ct; bool skip; };
template<typename T> void lsuv(R& r, bool packs) {
	typedef dt_interfaces<T> I; typedef LFC<activation::softsign<T, 1000000, 1000000, wi::OrthoInit<2000000>>, grad_works<I>> FS; typedef LFC<activation::elu_ua<T, wi::He_Zhang<>>, grad_works<I>> FE; typedef layer_output<activation::identity_quad_loss<T, wi::He_Zhang<>>, grad_works<I>> O;
	const int nx = r.in(2, 12), ny = r.in(1, 5), N = r.in(20, 120), N2 = r.in(2, 10); layer_input<I> inp(nx); FS a(r.in(1, 12), T(.1)), a2(r.in(2, 8), T(.1)); FE b(r.in(1, 12), T(.1)); O o(ny, T(.1)); inmem_train_data<T> td; if (!mkTD<T>(r, td, N, N2, DataSpec{ OutK::ident_q, nx, ny })) return; LM X = toLM<T>(td.train_x());
	auto run = [&](auto& lp, auto fwd) {
		auto nn = make_nnet(lp); nn.get_iRng().seed64(r.u64() >> 1); typedef wi::procedural::LSUVExt<decltype(nn), inmem_train_data<T>> W; { vl one = 2; if (nn.init4fixedBatchFprop(one) != EC::Success) { viol("wi.init", "can't init"); return; } }
		auto gen = [&](bool forcePre) { LS s; s.sc = r.chance(80); s.ce = r.chance(60); s.skip = r.chance(15); if (s.skip) s.sc = s.ce = false; s.ind = r.b(); s.pre = forcePre || r.b();
#ifndef NDEBUG
			s.pre = true;// saturated activations make the statistics diverge, and that is asserted
#endif
			 s.bs = r.pick({ 0, 0, N, N + 7, r.in(2, N), r.in(2, N) }); s.bc = r.chance(20) ? r.in(1, 4) : 0; s.ts = r.b() ? 1 : T(r.uni(.3, 1.5)); s.tc = r.b() ? 0 : T(r.uni(-.3, .3)); s.st = T(r.pick({ .01, .003, .05 })); s.ct = T(r.pick({ .01, .003, .05 })); if (!s.pre) { s.ts = T(.2 + .2*r.u01()); s.tc = 0; } return s; };
		auto cv = [&](const LS& s) { typename W::LayerSetts_t q; q.targetScale = T(s.ts); q.targetCentral = T(s.tc); q.ScaleTolerance = T(s.st); q.CentralTolerance = T(s.ct); q.maxTries = r.pick({ 20u, 60u }); q.maxReinitTries = 3; q.bCentralNormalize = s.ce; q.bScaleNormalize = s.sc; q.bVerbose = r.b(); q.bOnInvidualNeurons = s.ind; q.bOverPreActivations = s.pre; q.batchSize = s.bs; q.batchCount = s.bc; return q; };
		const bool easy = r.chance(50);
		const LS def = gen(easy); std::map<int, LS> my; W ob(nn, td, cv(def)); ob.m_bDeinitNnetOnDestroy = r.b(); nn.get_layer_pack().for_each_packed_layer_exc_input([&](auto& l) { if (r.chance(40)) { const LS s = gen(easy); my[int(l.get_layer_idx())] = s; if (r.b()) { wi::procedural::LSUVExt_customInit<W, any_layer> ci(ob); ci.setts = cv(s); if (r.chance(50)) { ci.excludeIdList.push_back(l.get_layer_idx()); ci(l); ci.excludeIdList.clear(); } ci(l); ev("lsuv.custom"); } else ob.setts().add(l.get_layer_idx(), cv(s)); } });
		std::map<int, std::vector<T>> w0; auto keepW = [&](auto& l) { if (!l.get_weights().empty()) w0[int(l.get_layer_idx())] = snap<T>(l.get_weights()); }; keepW(a); keepW(b); keepW(o); if (packs) keepW(a2);
		const auto x0 = snap<T>(td.train_x()); char bf[160]; snprintf(bf, sizeof(bf), "lsuv N %d bs %d/%d ind %d pre %d scale %d central %d packs %d", N, def.bs, def.bc, def.ind, def.pre, def.sc, def.ce, packs); note(bf); if (vh::S().nsamples < 4) vh::sample("%s", bf);
		if (r.chance(35)) {// a run that can't succeed comes before and must not be remembered
			auto hop = cv(def); hop.maxTries = 1; hop.maxReinitTries = 1; hop.bScaleNormalize = true; hop.ScaleTolerance = T(0); hop.targetScale = T(.7654321); hop.bOverPreActivations = true; ob.setts().set_default(hop); for (auto& m : my) ob.setts().add(layer_index_t(m.first), hop);
			const bool first = ob.run(); ev(first ? "lsuv.hopeless_ok" : "lsuv.hopeless"); if (first != (ob.m_firstFailedLayerIdx == 0)) viol("lsuv.result", "result %d, first failed layer %d", first, int(ob.m_firstFailedLayerIdx));
			ob.setts().set_default(cv(def)); for (auto& m : my) ob.setts().add(layer_index_t(m.first), cv(m.second)); a.reinit_weights(); b.reinit_weights(); o.reinit_weights(); if (packs) a2.reinit_weights(); keepW(a); keepW(b); keepW(o); if (packs) keepW(a2);
		}
		const bool ok = ob.run(); ev(ok ? "lsuv.converged" : "lsuv.failed"); if (ok != (ob.m_firstFailedLayerIdx == 0)) viol("lsuv.result", "result %d, first failed layer %d", ok, int(ob.m_firstFailedLayerIdx)); if (!same_bits(x0, td.train_x().data())) viol("lsuv.data", "the data was changed");
		seen("lsuv", ok, def.ind, def.pre, def.sc, def.ce, def.bs == 0, packs, my.size());
		bool easyAll = true, below = false; /* a layer that failed leaves the rest unaffected: each one is judged on the activations it gets */
		fwd(X, [&](int idx, const LM& Z, const LM& A, const M<T>& Wm, bool& changed) {
			const LS s = my.count(idx) ? my[idx] : def; changed = !same_bits(w0[idx], Wm.data()); easyAll &= s.skip || (s.pre && (!s.bc || s.bs == 0 || s.bs >= 8)) || (!s.sc && !s.ce);
			if (easy && ok && s.pre && !(s.skip || (!s.sc && !s.ce))) {// what was not to be normalised is left alone, and a scale is common to the whole layer or neuron
				const auto& q = w0[idx]; const int R_ = Wm.rows(), C = Wm.cols(); ev("lsuv.structure"); auto at = [&](int i, int j) { return q[size_t(j)*R_ + i]; };
				if (!s.sc) { for (int j = 0; j + 1 < C; ++j) for (int i = 0; i < R_; ++i) if (at(i, j) != Wm.get(i, j)) { viol("lsuv.structure", "layer %d: weight (%d,%d) changed though only the mean was to be normalised", idx, i, j); i = R_; j = C; } }
				else { auto ratio = [&](int i0, int i1) { ld k = 0; int bi = -1, bj = -1; for (int i = i0; i < i1; ++i) for (int j = 0; j + 1 < C; ++j) if (bi < 0 || std::fabs((ld)at(i, j)) > std::fabs((ld)at(bi, bj))) bi = i, bj = j; if (bi < 0 || at(bi, bj) == 0) return; k = (ld)Wm.get(bi, bj) / at(bi, bj); for (int i = i0; i < i1; ++i) for (int j = 0; j < C - (s.ce ? 1 : 0); ++j) if (std::fabs(k*at(i, j) - Wm.get(i, j)) > 400 * EPS<T>*std::fabs(k)*std::fabs((ld)at(i, j))) { viol("lsuv.structure", "layer %d: weight (%d,%d) was %g, is %g, the factor is %g", idx, i, j, (double)at(i, j), (double)Wm.get(i, j), (double)k); return; } }; if (s.ind) for (int i = 0; i < R_; ++i) ratio(i, i + 1); else ratio(0, R_); }
			} if (!s.sc && !s.ce) { if (changed) viol("lsuv.skip", "layer %d was not to be touched", idx); ev("lsuv.skipped"); return; }
			if (!ok && (idx == int(ob.m_firstFailedLayerIdx) || !below)) { if (idx == int(ob.m_firstFailedLayerIdx)) below = true; if (below) return; } if (!ok && below) return;
			const LM& Q = s.pre ? Z : A; int rows = Q.r; const int bs = s.bs == 0 || s.bs > N ? N : s.bs; if (s.bc) rows = int(std::min<long long>(rows, (long long)bs*s.bc)); const bool tailBs = N % bs != 0; 
			for (int j = 0; j < (s.ind ? Q.c : 1); ++j) {
				std::vector<ld> v; for (int c = s.ind ? j : 0; c < (s.ind ? j + 1 : Q.c); ++c) for (int i = 0; i < rows; ++i) v.push_back(Q(i, c)); if (v.size() < 2) continue; ld m = 0, q = 0; for (auto x : v) m += x; m /= v.size(); for (auto x : v) q += (x - m)*(x - m); const ld sd = std::sqrt(q / (v.size() - 1)); ev("lsuv.stats"); (void)tailBs;
				const ld sl = 1e-5L + 1000 * EPS<T>*(1 + std::fabs(m)); if (s.sc && sd > 20 * std::sqrt(ld(EPS<T>)) && std::fabs(sd - s.ts) > s.st + sl) viol("lsuv.scale", "layer %d %s %d: deviation %.6g instead of %.6g +- %g (N %d bs %d bc %d)", idx, s.ind ? "neuron" : "layer", j, (double)sd, (double)s.ts, (double)s.st, N, bs, s.bc); if (s.ce && std::fabs(m - s.tc) > s.ct + sl) viol("lsuv.central", "layer %d %s %d: mean %.6g instead of %.6g +- %g", idx, s.ind ? "neuron" : "layer", j, (double)m, (double)s.tc, (double)s.ct);
			}
		});
		if (easyAll && easy) { ev(ok ? "lsuv.easy" : "lsuv.easy_failed"); if (!ok) viol("lsuv.no_convergence", "layer %d: statistics of pre-activations were not normalised", int(ob.m_firstFailedLayerIdx)); }
	};
	auto lin = [](const LM& x, const M<T>& w) { LM z(x.r, w.rows()); for (int i = 0; i < x.r; ++i) for (int j = 0; j < z.c; ++j) { ld t = w.get(j, x.c); for (int k = 0; k < x.c; ++k) t += x(i, k)*w.get(j, k); z(i, j) = t; } return z; };
	auto mapf = [](LM z, auto f) { for (auto& q : z.d) q = f(q); return z; }; const auto ss = r_softsign(), el = r_elu();
	if (!packs) { auto lp = make_layers(inp, a, b, o); run(lp, [&](const LM& x, auto cb) { bool c; LM z = lin(x, a.get_weights()), A = mapf(z, ss.f); cb(int(a.get_layer_idx()), z, A, a.get_weights(), c); z = lin(A, b.get_weights()); A = mapf(z, el.f); cb(int(b.get_layer_idx()), z, A, b.get_weights(), c); z = lin(A, o.get_weights()); cb(int(o.get_layer_idx()), z, z, o.get_weights(), c); }); }
	else {
		const int c1 = r.in(1, nx - 1), e = r.in(0, c1); auto ph = LPH<PHL<FS>, PHL<FS>>(make_PHL(a, 0, c1), make_PHL(a2, e, nx - e)); auto lp = make_layers(inp, ph, b, o);
		run(lp, [&](const LM& x, auto cb) { bool c; LM z = lin(x.cols(0, c1), a.get_weights()), A = mapf(z, ss.f), J; cb(int(a.get_layer_idx()), z, A, a.get_weights(), c); J = A; z = lin(x.cols(e, nx - e), a2.get_weights()); A = mapf(z, ss.f); cb(int(a2.get_layer_idx()), z, A, a2.get_weights(), c); J.d.insert(J.d.end(), A.d.begin(), A.d.end()); J.c += A.c; z = lin(J, b.get_weights()); A = mapf(z, el.f); cb(int(b.get_layer_idx()), z, A, b.get_weights(), c); z = lin(A, o.get_weights()); cb(int(o.get_layer_idx()), z, z, o.get_weights(), c); });
	}
}
#define BOTH(n, k, ...) group((std::string(n) + ".d").c_str(), k, [](R& r, int) { typedef double T; __VA_ARGS__; }); group((std::string(n) + ".f").c_str(), k, [](R& r, int) { typedef float T; __VA_ARGS__; })
int main(int argc, char** argv) {
	init(argc, argv);
	for (unsigned hc : { 2u, 4u }) {
		g_hc = hc; const std::string s = std::to_string(hc);
		BOTH("xavier" + s, 30, (xavier<T, 1000000>(r), xavier<T, 4000000>(r)));
		BOTH("he" + s, 30, (normal<T, wi::He_Zhang<>>(r, 2, "He_Zhang"), normal<T, wi::He_Zhang<1500000>>(r, 4.5L, "He_Zhang 1.5"), normal<T, wi::He_Zhang2<>>(r, 2, "He_Zhang2"), normal<T, wi::He_Zhang2<3000000>>(r, 3, "He_Zhang2 3"), normal<T, wi::SNNInit>(r, 1, "SNNInit")));
		BOTH("martens" + s, 20, (martens<T, 0, 1000000, 15>(r), martens<T, 500000, 250000, 7>(r), martens<T, 0, 1000000, 1>(r)));
		BOTH("ortho" + s, 20, (ortho<T, 1000000>(r), ortho<T, 1414214>(r)));
		BOTH("orthom" + s, 10, orthoMean<T>(r));
		BOTH("layers" + s, 20, layers_w<T>(r));
		BOTH("lsuv" + s, 40, lsuv<T>(r, false)); BOTH("lsuvp" + s, 30, lsuv<T>(r, true));
	}
	return done();
}
