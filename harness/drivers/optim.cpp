// weight update rules: each optimizer step at the math level (all variants), and grad_works as a whole over a history of steps
#include "mathcommon.h"
#include "nntl/grad_works/grad_works.h"
#include "nntl/layers.h"
using namespace vh;
template<typename T> ld rt() { return sizeof(T) == 8 ? 1e-9L : 1e-3L; }

// --- one step, math level
template<typename T> void step1(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 30, 30000); const nc N = nc(m)*n;
	const Fill f = anyFill(r);
	M<T> G(m, n), A(m, n), B(m, n);
	fillm(r, G, f); for (nc i = 0; i < N; ++i) { A.data()[i] = T(r.uni(.5, 4)); B.data()[i] = r.b() ? T(r.uni(-.5, .5)) : T(r.uni(0, .5)); }
	const T lr = T(r.uni(1e-4, .5)), b1 = T(r.uni(.1, .95)), b2 = T(r.uni(.1, .99)), ns = T(r.pick({ 1e-3, 1e-6, .1 })), g = T(r.uni(.01, .5));
	T b1t0 = r.chance(30) ? T(1) : T(r.uni(.05, .9)), b2t0 = r.chance(30) ? T(1) : T(r.uni(.05, .9)), b1t, b2t;
	const auto G0 = snap(G), A0 = snap(A), B0 = snap(B);
	seen("opt1", int(f), m > 40, n > 40, N > 9000, sizeof(T));
	auto prep = [&] { load(G, G0); load(A, A0); load(B, B0); b1t = b1t0; b2t = b2t0; };
	auto run = [&](const char* key, std::initializer_list<Var> vs, auto upd) {// upd(i, a, b, w): new state and update
		for (auto& v : vs) {
			vh::note(v.name); prep(); v.f(); ev("opt.variant_runs");
			for (nc i = 0; i < N; ++i) {
				ld a = A0[i], b = B0[i], w = G0[i]; upd(w, a, b);
				auto ok = [](T x, ld e, ld s) { return std::fabs((ld)x - e) <= 64 * EPS<T>*(std::fabs(e) + s) + std::numeric_limits<T>::min(); };
				const ld gs = std::fabs((ld)G0[i]);
				if (!ok(A.data()[i], a, 0) && !ok(A.data()[i], a, EPS<T>*(gs + std::fabs((ld)A0[i])) + (gs + std::fabs((ld)A0[i])) / 32)) { viol(key, "%s [%u,%u] state A of %lld: %.9g, expected %.9g", v.name, m, n, (long long)i, (double)A.data()[i], (double)a); break; }
				if (!ok(B.data()[i], b, (gs + std::fabs((ld)B0[i])) / 32)) { viol(key, "%s [%u,%u] state B of %lld: %.9g, expected %.9g", v.name, m, n, (long long)i, (double)B.data()[i], (double)b); break; }
				if (std::fabs((ld)G.data()[i] - w) > std::fabs(w)*(rt<T>()*(sizeof(T) == 4 ? .3L : 1)) + EPS<T>*lr*256) { viol(key, "%s [%u,%u] update of %lld: %.9g, expected %.9g (g=%g)", v.name, m, n, (long long)i, (double)G.data()[i], (double)w, (double)G0[i]); break; }
			}
		}
	};
	const ld L = lr, q1 = b1, q2 = b2, e = ns;
	run("opt.RMSProp_Hinton", { V_(RMSProp_Hinton(G, A, lr, b1, ns)), V_(RMSProp_Hinton_st(G, A, lr, b1, ns)), V_(RMSProp_Hinton_mt(G, A, lr, b1, ns)) }, [=](ld& w, ld& a, ld&) { a = q1 * a + (1 - q1)*w*w; w = L * w / (std::sqrt(a) + e); });
	run("opt.RMSProp_Graves", { V_(RMSProp_Graves(G, A, B, lr, b1, ns)), V_(RMSProp_Graves_st(G, A, B, lr, b1, ns)), V_(RMSProp_Graves_mt(G, A, B, lr, b1, ns)) }, [=](ld& w, ld& a, ld& b) { a = q1 * a + (1 - q1)*w*w; b = q1 * b + (1 - q1)*w; w = L * w / std::sqrt(a - b * b + e); });
	run("opt.ModProp", { V_(ModProp(G, A, lr, b1, ns)), V_(ModProp_st(G, A, lr, b1, ns)), V_(ModProp_mt(G, A, lr, b1, ns)) }, [=](ld& w, ld& a, ld&) { a = q1 * a + (1 - q1)*std::fabs(w); w = L * w / (a + e); });
	run("opt.RProp", { V_(RProp(G, lr)), V_(RProp_st(G, lr)), V_(RProp_mt(G, lr)) }, [=](ld& w, ld&, ld&) { w = w > 0 ? L : w < 0 ? -L : 0; });
	auto powers = [&](const char* key, bool two) { if (std::fabs((ld)b1t - (ld)b1t0*b1) > 2 * EPS<T> || (two && std::fabs((ld)b2t - (ld)b2t0*b2) > 2 * EPS<T>)) viol(key, "powers of the coefficients: %g,%g, expected %g,%g", (double)b1t, (double)b2t, (double)((ld)b1t0*b1), (double)((ld)b2t0*b2)); };
	const ld p1 = (ld)b1t0*b1, p2 = (ld)b2t0*b2;
	// the second matrix holds squares or maxima here
	auto prepB = B0; for (auto& x : prepB) x = std::fabs(x); std::vector<T>& B0r = const_cast<std::vector<T>&>(B0); B0r = prepB;
	run("opt.Adam", { V_(Adam(G, A, B, b1t, b2t, lr, b1, b2, ns)), V_(Adam_st(G, A, B, b1t, b2t, lr, b1, b2, ns)), V_(Adam_mt(G, A, B, b1t, b2t, lr, b1, b2, ns)) }, [=](ld& w, ld& a, ld& b) { a = q1 * a + (1 - q1)*w; b = q2 * b + (1 - q2)*w*w; w = L * std::sqrt(1 - p2) / (1 - p1)*a / (std::sqrt(b) + e); }); powers("opt.Adam", true);
	run("opt.AdaMax", { V_(AdaMax(G, A, B, b1t, lr, b1, b2, ns)), V_(AdaMax_st(G, A, B, b1t, lr, b1, b2, ns)), V_(AdaMax_mt(G, A, B, b1t, lr, b1, b2, ns)) }, [=](ld& w, ld& a, ld& b) { a = q1 * a + (1 - q1)*w; b = std::max(q2*b, std::fabs(w)); w = L / (1 - p1)*a / (b + e); }); powers("opt.AdaMax", false);
	for (const T gm : { T(0), g }) {
		const ld gg = gm, mt = (q1 - p1) / (1 - p1), et = (q2 - p2) / (1 - p2);
		run("opt.RNadam", { V_(RNadam(G, A, B, b1t, b2t, lr, b1, b2, gm, ns)), V_(RNadam_st(G, A, B, b1t, b2t, lr, b1, b2, gm, ns)), V_(RNadam_mt(G, A, B, b1t, b2t, lr, b1, b2, gm, ns)) }, [=](ld& w, ld& a, ld& b) {
			a = mt * a + (1 - mt)*w; b = et * b + (1 - et)*w*w;
			const ld mh = gg == 0 ? q1 * (1 - p1) / (1 - q1 * p1)*a + (1 - mt)*w : (1 - gg)*a + gg * w;
			w = L * mh / (std::sqrt(b) + e); }); powers("opt.RNadam", true);
	}
	ev("opt.single_steps");
}

// --- a history of steps through grad_works
template<typename T> struct BI : dt_interfaces<T> { typedef inspector::GradCheck<T> iInspect_t; };// learning may be blocked with this one
template<typename T, typename I_ = dt_interfaces<T>> struct Env {
	typedef I_ I; typedef _impl::common_nn_data<I> CD;
	IM<T> iM; typename I::iRng_t rng; typename I::iInspect_t insp; bool blocked = false; CD cd;
	Env() : cd(iM, rng, insp, blocked) { cd.init(16, 16); if (I::iRng_t::is_multithreaded) rng.init_ithreads(iM.ithreads()); rng.seed64(7); }
};
template<typename T, bool blk> void history(R& r) {
	typedef std::conditional_t<blk, BI<T>, dt_interfaces<T>> I; typedef grad_works<I> GW;
	Env<T, I> E; GW gw(T(.1));
	vl m, n; shape(r, m, n, 12, 20000); if (n < 2) n = 2; const nc N = nc(m)*n;
	const int type = r.below(9); T lr = T(r.uni(.01, .3)), b1 = T(r.uni(.5, .95)), b2 = T(r.uni(.5, .99)), ga = T(r.uni(.02, .4)), ns = T(r.pick({ 1e-3, 1e-5 }));
	int mom = r.below(3); T mo = T(r.uni(.1, .95));// 0 none, 1 classical, 2 Nesterov
	const bool ilrs = r.chance(35), changing = r.chance(50); bool ilr = ilrs, ilrMom = r.b(), mxn = r.chance(40), mxnB = r.b(); T mx = T(r.uni(.5, 3)*n);
	T l1 = r.chance(35) ? T(r.uni(.01, .2)) : T(0), l2 = r.chance(35) ? T(r.uni(.01, .2)) : T(0); bool l1b = r.b(), l2b = r.b();
	bool lrd = r.chance(15); T dpa = T(r.pick({ .3, .5, .8 })); bool lrdN = r.b();
	T dec = T(.7), inc = T(1.3), lo = T(.11), hi = T(4.7);
	gw.learning_rate(lr).beta1(b1).beta2(b2).gamma(ga).numeric_stabilizer(ns).set_type(typename GW::GradType(type));
	if (mom == 1) gw.momentum(mo); else if (mom == 2) gw.nesterov_momentum(mo);
	if (ilr) { if (r.b()) gw.set_ILR(dec, inc, lo, hi); else gw.set_ILR(typename GW::IlrProps_t(dec, inc, lo, hi)); gw.applyILRToMomentum(ilrMom); }
	if (mxn) { if (r.b()) gw.max_norm2(mx, mxnB); else gw.max_norm(std::sqrt(mx), mxnB); }
	if (l1 > 0) gw.L1(l1, l1b); if (l2 > 0) gw.L2(l2, l2b);
	if (lrd) gw.LRDropoutPercentActive(dpa).setApplyLRDropoutToNesterovMomentum(lrdN);
	seen("hist", type, mom, ilr, ilrMom && mom, mxn, mxnB, l1 > 0, l2 > 0, lrd, sizeof(T));
	MD<T> W(m, n), D(m, n); fillm<T>(r, W, Fill::uni);
	// settings are reported back as they were set
	if (gw.learning_rate() != lr || gw.beta1() != b1 || gw.beta2() != b2 || gw.use_momentums() != (mom > 0) || gw.use_nesterov_momentum() != (mom == 2) || gw.use_classical_momentum() != (mom == 1) || gw.use_max_norm() != mxn || gw.hasLossAddendum() != (l1 > 0 || l2 > 0) || gw.use_individual_learning_rates() != ilr) viol("gw.settings", "settings are not reported as set");
	// everything that may be changed between two steps
	auto change = [&] {
		if (r.chance(25)) { lr = T(r.uni(.01, .3)); gw.learning_rate(lr); }
		if (r.chance(12)) { b1 = T(r.uni(.5, .95)); gw.beta1(b1); } if (r.chance(12)) { b2 = T(r.uni(.5, .99)); gw.beta2(b2); } if (type == 8 && r.chance(12)) { ga = T(r.uni(.02, .4)); gw.gamma(ga); }
		if (r.chance(12)) { ns = T(r.pick({ 1e-3, 1e-5 })); gw.numeric_stabilizer(ns); }
		if (mom && r.chance(25)) { if (r.b()) mo = T(r.uni(.1, .95)); if (r.b()) mom = 3 - mom; if (mom == 1) gw.momentum(mo); else gw.nesterov_momentum(mo); ev("gw.momentum_changes"); }
		if (r.chance(15)) { mxn = r.b(); mxnB = r.b(); mx = T(r.uni(.5, 3)*n); if (r.b()) gw.max_norm2(mxn ? mx : T(0), mxnB); else gw.max_norm(mxn ? std::sqrt(mx) : T(0), mxnB); }
		if (r.chance(15)) { l1 = r.b() ? T(r.uni(.01, .2)) : T(0); l1b = r.b(); gw.L1(l1, l1b); } if (r.chance(15)) { l2 = r.b() ? T(r.uni(.01, .2)) : T(0); l2b = r.b(); gw.L2(l2, l2b); }
		if (r.chance(8)) { lrd = r.b(); if (lrd) dpa = T(r.pick({ .3, .5, .8 })); gw.LRDropoutPercentActive(lrd ? dpa : r.b() ? T(1) : T(0)); lrdN = r.b(); gw.setApplyLRDropoutToNesterovMomentum(lrdN); }
		if (ilr && r.chance(20)) { dec = T(r.uni(.6, .9)); inc = T(r.uni(1.1, 1.5)); lo = T(r.uni(.1, .5)); hi = T(r.uni(2, 5)); gw.set_ILR(dec, inc, lo, hi); }
		if (ilrs && !blk && r.chance(15)) { ilr = !ilr; if (!ilr) gw.clear_ILR(); else gw.set_ILR(dec, inc, lo, hi); ev("gw.ilr_cleared"); }
		if (ilr && r.chance(20)) { ilrMom = r.b(); gw.applyILRToMomentum(ilrMom); ev("gw.ilr_changes"); }
		if (gw.learning_rate() != lr || gw.beta1() != b1 || gw.beta2() != b2 || gw.use_momentums() != (mom > 0) || gw.use_nesterov_momentum() != (mom == 2) || gw.use_classical_momentum() != (mom == 1) || gw.use_max_norm() != mxn || gw.hasLossAddendum() != (l1 > 0 || l2 > 0) || gw.use_individual_learning_rates() != ilr || gw.bLRDropout() != lrd || gw.L1() != l1 || gw.L2() != l2) viol("gw.settings", "settings are not reported as changed");
		ev("gw.changes");
	};
	const int sessions = r.chance(20) ? 2 : 1;
	for (int ses = 0; ses < sessions; ++ses) {
		if (ilrs && !ilr) { ilr = true; gw.set_ILR(dec, inc, lo, hi); }
		if (!gw.gw_init(E.cd, W)) { viol("gw.init", "failed"); return; }
		if (!E.iM.init()) { viol("gw.init", "math init failed"); return; }
		if (!gw.isFirstRun()) viol("gw.first", "not in the first run state after gw_init()");
		std::vector<ld> v(N, 0), sa(N, 0), sb(N, 0), gain(N, 1), prev(N, 0), ve(N, 0); std::vector<char> dead(N, 0);
		ld p1 = 1, p2 = 1; const int steps = N > 5000 ? 3 : r.in(2, 8);
		nc kept = 0, tot = 0; ld ekept = 0, vkept = 0;
		const ld rtol = rt<T>();
		auto norm_rows = [&](std::vector<ld>& w, std::vector<ld>& tol) {
			for (vl q = 0; q < m; ++q) {
				ld s = 0; for (vl k = 0; k < n - (mxnB ? 0 : 1); ++k) s += w[nc(k)*m + q] * w[nc(k)*m + q];
				if (s > mx*(1 - 64 * EPS<T>*n)) { const ld c = std::sqrt((ld)mx / s); const bool amb = s < mx*(1 + 64 * EPS<T>*n); ld dt = 0; for (vl k = 0; k < n; ++k) dt = std::max(dt, tol[nc(k)*m + q]); for (vl k = 0; k < n; ++k) { ld& x = w[nc(k)*m + q]; if (!amb || c < 1) x *= c; tol[nc(k)*m + q] += std::fabs(x)*(256 * EPS<T>*n) + dt * 4; } }
			}
		};
		auto deadrows = [&] { for (vl q = 0; q < m; ++q) { bool x = false; for (vl k = 0; k < n; ++k) x |= dead[nc(k)*m + q] != 0; if (x) for (vl k = 0; k < n; ++k) dead[nc(k)*m + q] |= 2; } };
		for (int t = 0; t < steps; ++t) {
			if (changing && t && r.chance(50)) change();
			const auto W0 = snap<T>(W); std::vector<ld> w(N), tol(N);
			if (blk && r.chance(40)) {// a pass with learning blocked leaves no trace
				E.blocked = true; const bool f0 = gw.isFirstRun(); for (int k = r.in(1, 2); k-- > 0;) { gw.pre_training_fprop(W); for (nc i = 0; i < N; ++i) D.data()[i] = T(r.norm()); gw.apply_grad(W, D); }
				E.blocked = false; if (!same_bits(W0, W.data())) viol("gw.blocked", "type %d mom %d: the weights changed though learning is blocked", type, mom); if (gw.isFirstRun() != f0) viol("gw.blocked", "the first run is over though learning is blocked"); ev("gw.blocked");
			}
			for (nc i = 0; i < N; ++i) { w[i] = W0[i]; tol[i] = 4 * EPS<T>*std::fabs(w[i]); }
			gw.pre_training_fprop(W);
			if (mom == 2) {
				const bool dr = lrd && lrdN;
				for (nc i = 0; i < N; ++i) {
					v[i] *= mo; ve[i] *= mo; ld u = v[i];
					if (dr) { const ld actual = w[i] - W.data()[i], full = u; u = std::fabs(actual - full) < std::fabs(actual) ? full : 0; if (full != 0 && !mxn) { ++tot; kept += u != 0; ekept += dpa; vkept += (ld)dpa*(1 - dpa); } }
					w[i] -= u; tol[i] += ve[i] + std::fabs(u)*rtol + EPS<T> * std::fabs(w[i]);
				}
				if (mxn) { deadrows(); norm_rows(w, tol); }
			}
			auto cmp = [&](const char* key, int st) {
				for (nc i = 0; i < N; ++i) if (!dead[i] && !(std::fabs((ld)W.data()[i] - w[i]) <= tol[i])) { viol(key, "type %d mom %d ilr %d/%d maxnorm %d/%d L1 %g/%d L2 %g/%d lrdrop %d [%u,%u] step %d%s, weight %lld: %.9g, expected %.9g (+-%.2g), was %.9g", type, mom, ilr, ilrMom, mxn, mxnB, (double)l1, l1b, (double)l2, l2b, lrd, m, n, st, key[3] == 'p' ? " (fprop)" : "", (long long)i, (double)W.data()[i], (double)w[i], (double)tol[i], (double)W0[i]); return false; }
				return true;
			};
			if (mxn && lrd && mom == 2 && lrdN) { /* the set of dropped updates can't be told after renormalisation */ } else if (!cmp("gw.pre_fprop", t)) return;
			for (auto& x : dead) x &= 1;
			for (nc i = 0; i < N; ++i) { w[i] = W.data()[i]; tol[i] = 8 * EPS<T>*std::fabs(w[i]); }
			// gradient
			for (nc i = 0; i < N; ++i) { T g = T(r.uni(.05, 2)*(r.b() ? 1 : -1)); if (r.chance(3)) g = T(0); D.data()[i] = g; }
			std::vector<ld> d(N); for (nc i = 0; i < N; ++i) d[i] = D.data()[i];
			const nc nb = N - m;// weights before the bias column
			for (nc i = 0; i < N; ++i) { if (l1 > 0 && (i < nb || !l1b)) d[i] += (ld)l1*(w[i] > 0 ? 1 : w[i] < 0 ? -1 : 0); if (l2 > 0 && (i < nb || !l2b)) d[i] += (ld)l2*w[i]; }
			if (l1 > 0 || l2 > 0) {
				ld ex = 0; for (nc i = 0; i < N; ++i) { if (l1 > 0 && (i < nb || !l1b)) ex += (ld)l1*std::fabs(w[i]); if (l2 > 0 && (i < nb || !l2b)) ex += .5L*l2*w[i] * w[i]; }
				const T la = gw.lossAddendum(W); if (std::fabs(la - ex) > ex*EPS<T>*(8 + N)) viol("gw.lossAddendum", "%.9g, expected %.9g (L1 %g/%d L2 %g/%d [%u,%u])", (double)la, (double)ex, (double)l1, l1b, (double)l2, l2b, m, n);
			}
			if (W.size() != typename M<T>::mtx_size_t(m, n)) { viol("gw.shape", "weights came out with another shape"); return; }
			gw.apply_grad(W, D); ev("gw.steps");
			if (W.size() != typename M<T>::mtx_size_t(m, n) || D.size() != W.size()) { viol("gw.shape", "weights came out of apply_grad with another shape"); return; }
			const bool first = t == 0; const ld L = lr, q1 = b1, q2 = b2, e = ns; p1 *= q1; p2 *= q2;
			const ld mt = (q1 - p1) / (1 - p1), et = (q2 - p2) / (1 - p2), g0 = type == 7 ? 0 : (ld)ga;
			for (nc i = 0; i < N; ++i) {
				ld u = d[i], &a = sa[i], &b = sb[i];
				bool amb = false;
				switch (type) {
				case 0: u *= L; break;
				case 1: if (first) { a = u * u; u *= L; } else { a = q1 * a + (1 - q1)*u*u; u = L * u / (std::sqrt(a) + e); } break;
				case 2: if (first) { a = u * u; b = u; u *= L; } else { a = q1 * a + (1 - q1)*u*u; b = q1 * b + (1 - q1)*u; amb = a - b * b + e < .03L*a + e * .5L; u = amb ? 0 : L * u / std::sqrt(a - b * b + e); } break;
				case 3: amb = std::fabs(u) < 1e-4 && u != 0; u = u > 0 ? L : u < 0 ? -L : 0; if (d[i] == 0 && (l1 > 0 || l2 > 0)) amb = false; break;
				case 4: if (first) { a = std::fabs(u); u *= L; } else { a = q1 * a + (1 - q1)*std::fabs(u); u = L * u / (a + e); } break;
				case 5: a = q1 * a + (1 - q1)*u; b = q2 * b + (1 - q2)*u*u; u = L * std::sqrt(1 - p2) / (1 - p1)*a / (std::sqrt(b) + e); break;
				case 6: a = q1 * a + (1 - q1)*u; b = std::max(q2*b, std::fabs(u)); u = L / (1 - p1)*a / (b + e); break;
				default: { a = mt * a + (1 - mt)*u; b = et * b + (1 - et)*u*u; const ld mh = type == 7 ? q1 * (1 - p1) / (1 - q1 * p1)*a + (1 - mt)*u : (1 - g0)*a + g0 * u; u = L * mh / (std::sqrt(b) + e); }
				}
				if (ilr) {
					const bool uv = ilrMom && mom;
					if (!first) {
						const ld pv = uv ? v[i] : prev[i], pr = u * pv;
						if (pr != 0 && std::fabs(pr) < 1e-9L) amb = true;
						if (std::fabs(gain[i] - lo) < 1e-4L || std::fabs(gain[i] - hi) < 1e-4L) amb = true;
						if (pr > 0) { if (gain[i] < hi) gain[i] *= inc; } else if (pr < 0) { if (gain[i] > lo) gain[i] *= dec; }
						u *= gain[i];
					}
				}
				if (ilr && !(ilrMom && mom)) prev[i] = u;
				if (amb) dead[i] = 1;
				ld app = u;
				const ld ue = std::fabs(u)*rtol + (type == 2 || type >= 5 ? std::fabs(L)*rtol*gain[i] : 0); ve[i] = mom == 1 ? ve[i] * mo + ue : ve[i] + ue;
				if (mom == 2) v[i] += u; else if (mom == 1) { v[i] = v[i] * mo + u; app = v[i]; }
				if (lrd && !dead[i]) { const ld actual = w[i] - W.data()[i], full = app; app = mxn ? full : std::fabs(actual - full) < std::fabs(actual) ? full : 0; if (full != 0 && !mxn) { ++tot; kept += app != 0; ekept += dpa; vkept += (ld)dpa*(1 - dpa); } }
				w[i] -= app; tol[i] += (mom == 1 ? ve[i] : ue) + EPS<T> * (8 * std::fabs(w[i]) + 64 * std::fabs((ld)L)*gain[i]);
			}
			if (mxn) {
				if (lrd) {// which updates got dropped is hidden by the renormalisation: only the norm itself can be checked
					for (vl q = 0; q < m; ++q) { ld s = 0; for (vl k = 0; k < n - (mxnB ? 0 : 1); ++k) { const ld x = W.get(q, k); s += x * x; } if (s > mx*(1 + 1e-4L)) { viol("gw.max_norm", "row %u has squared norm %g over the limit %g", q, (double)s, (double)mx); return; } }
					ev("gw.maxnorm_rows", m); continue;
				}
				deadrows(); norm_rows(w, tol); ev("gw.maxnorm_rows", m);
			}
			if (!cmp("gw.apply_grad", t)) return;
			if (mxn) for (auto& x : dead) x &= 1;
			if (gw.isFirstRun()) viol("gw.first", "still in the first run state after a step");
		}
		if (tot > 400) { if (std::fabs(kept - ekept) > 6 * std::sqrt(vkept) + .01L*tot) viol("gw.lrdropout", "%lld of %lld updates applied with %g of them expected", (long long)kept, (long long)tot, (double)ekept); ev("gw.lrdropout_updates", tot); }
		gw.gw_deinit(); E.iM.deinit();
	}
	ev("gw.histories");
}
template<typename T> void all(int n) {
	std::string sfx = sizeof(T) == 8 ? ".d" : ".f"; const int per = std::max(1, n / 3);
	for (unsigned hc : { 2u, 5u, 8u }) {
		g_hc = hc;
		auto nm = [&](const char* s) { return std::string(s) + sfx + std::to_string(hc); };
		{ MathBox<T> b(nc(200000)); group(nm("step").c_str(), per, [&](R& r, int) { step1<T>(r, b.iM); }); }
		group(nm("hist").c_str(), per * 3, [&](R& r, int) { if (r.chance(70)) history<T, false>(r); else history<T, true>(r); });
	}
}
int main(int argc, char** argv) { init(argc, argv); all<double>(90); all<float>(90); return done(); }
