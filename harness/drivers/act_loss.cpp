// activation functions, their derivatives (by the function's value), losses and loss gradients: math level variants and activation classes
#include "mathcommon.h"
#include "nntl/activations/_loss_parts.h"
using namespace vh;
template<typename Prep, typename Chk> void run_(std::initializer_list<Var> vs, Prep&& prep, Chk&& chk) { for (auto& v : vs) { vh::note(v.name); prep(); v.f(); ev("act.variant_runs"); chk(v.name); } }

// one activation function as the oracle sees it: f(x), df(f), both with a bound on the rounding error (in units of eps)
struct Act { std::function<ld(ld)> f, df; bool zst; };
static ld absl_(ld x) { return std::fabs(x); }
static ld expm1_(ld x) { return std::expm1(x); }
static Act a_sigm() { return { [](ld x) { return 1 / (1 + std::exp(-x)); }, [](ld f) { return f * (1 - f); }, false }; }
static Act a_relu() { return { [](ld x) { return x > 0 ? x : 0; }, [](ld f) { return f > 0 ? 1.L : 0.L; }, true }; }
static Act a_leaky(ld k) { return { [=](ld x) { return x < 0 ? x * k : x; }, [=](ld f) { return f > 0 ? 1.L : k; }, true }; }
static Act a_elu(ld a) { return { [=](ld x) { return x < 0 ? a * expm1_(x) : x; }, [=](ld f) { return f < 0 ? f + a : 1.L; }, true }; }
static Act a_selu(ld al, ld l) { return { [=](ld x) { return x < 0 ? al * expm1_(x) : l * x; }, [=](ld f) { return f < 0 ? f + al : l; }, true }; }
static Act a_elogu(ld a, ld lb) { return { [=](ld x) { return x < 0 ? a * expm1_(x) : std::log1p(x) / lb; }, [=](ld f) { return f < 0 ? f + a : std::exp(-f * lb) / lb; }, true }; }
static Act a_loglogu(ld ln, ld lp) { return { [=](ld x) { return x < 0 ? -std::log1p(-x) / ln : std::log1p(x) / lp; }, [=](ld f) { return f < 0 ? std::exp(f * ln) / ln : std::exp(-f * lp) / lp; }, true }; }
static Act a_logu(ld lp) { return { [=](ld x) { return x <= 0 ? 0 : std::log1p(x) / lp; }, [=](ld f) { return f <= 0 ? 0 : std::exp(-f * lp) / lp; }, true }; }
static Act a_softsign(ld a, ld c) { return { [=](ld x) { return c * x / (a + absl_(x)); }, [=](ld f) { return (c - absl_(f))*(c - absl_(f)) / (c*a); }, true }; }
static Act a_softsigm(ld a) { return { [=](ld x) { return .5L + .5L*x / (a + absl_(x)); }, [=](ld f) { const ld q = .5L - absl_(f - .5L); return 2 / a * q*q; }, false }; }
static Act a_step() { return { [](ld x) { return x < 0 ? 0.L : 1.L; }, [](ld) { return 0.L; }, false }; }
static Act a_ident() { return { [](ld x) { return x; }, [](ld) { return 1.L; }, true }; }

template<typename T> void fill_x(R& r, M<T>& A) {
	const Fill f = anyFill(r); fillm(r, A, f); seen("actfill", int(f), sizeof(T));
	// a few values at the kink and far in the tails
	for (int i = 0; i < 4; ++i) if (r.b()) A.data()[r.below(int(A.numel_no_bias()))] = T(r.pick({ 0., -0., 1e-7, -1e-7, 30., -30., 90., -90., 1e4, -1e4 }));
}
template<typename T> struct Ctx {
	R& r; IM<T>& iM; M<T> A, D; std::vector<T> A0, D0; vl m, n;
	Ctx(R& r_, IM<T>& i) : r(r_), iM(i) {
		shape(r, m, n, 30, 24000);
		const bool bb = r.b();
		A = M<T>(m, n, bb); fill_x(r, A); A0 = snap(A); D = M<T>(m, n);
		seen("actshape", bb, m > 40, n > 40, m == 1, n == 1, nc(m)*n > 9000, sizeof(T));
	}
	// in the bulk the error is relative to the operands of the last addition, hence the "1 +"
	void chkF(const char* key, const Act& a, const char* nm, ld amp = 4) {
		chk_cells<T>(key, nm, A, A0, [&](nc i, ld& t) { const ld y = a.f(A0[i]); t = amp * EPS<T> * (1 + std::fabs(y)) + ulps<T>(0, 4); return y; });
	}
	void mkD(const Act& a) { for (nc i = 0; i < D.numel(); ++i) D.data()[i] = T(a.f(A0[i])); D0 = snap(D); }
	void chkD(const char* key, const Act& a, const char* nm, ld amp = 8) {
		chk_cells<T>(key, nm, D, D0, [&](nc i, ld& t) { const ld y = a.df(D0[i]); t = amp * EPS<T> * (1 + std::fabs((ld)D0[i]))*(1 + std::fabs(y)) + ulps<T>(0, 4); return y; });
	}
};
#define UNPAREN(...) __VA_ARGS__
#define A3(nm, args) Var{ #nm, [&] { iM.nm(A UNPAREN args); } }, Var{ #nm "_st", [&] { iM.nm##_st(A UNPAREN args); } }, Var{ #nm "_mt", [&] { iM.nm##_mt(A UNPAREN args); } }
#define D3(nm, args) Var{ #nm, [&] { iM.nm(D UNPAREN args); } }, Var{ #nm "_st", [&] { iM.nm##_st(D UNPAREN args); } }, Var{ #nm "_mt", [&] { iM.nm##_mt(D UNPAREN args); } }
// the single threaded variant restricted to a range of elements must leave the others alone: compare with the full run
#define ACT(nm, fargs, dnm, dargs, oracle, amp) do { const Act o = oracle; \
	run_({ A3(nm, fargs) }, [&] { load(A, c.A0); }, [&](const char* v) { c.chkF("act." #nm, o, v, amp); }); \
	c.mkD(o); run_({ D3(dnm, dargs) }, [&] { load(D, c.D0); }, [&](const char* v) { c.chkD("act." #dnm, o, v, 2*amp); }); } while (0)

template<typename T> void acts(R& r, IM<T>& iM) {
	Ctx<T> c(r, iM); auto& A = c.A; auto& D = c.D;
	const T al = T(r.uni(.05, 3)), la = T(r.uni(.5, 2)), b1 = T(r.b() ? r.uni(1.2, 8) : 2), b2 = T(r.uni(1.2, 8)), k = T(r.pick({ .01, .001, 1 / 5.5, .3 }));
	const ld l1 = std::log((ld)b1), l2 = std::log((ld)b2); const ld am = 6 * (1 + 1 / l1 + 1 / l2)*std::max(1.L, (ld)al);
	switch (r.below(7)) {
	case 0: ACT(sigm, (), dsigm, (), a_sigm(), 4); ACT(relu, (), drelu, (), a_relu(), 0); break;
	case 1: ACT(leakyrelu, (, k), dleakyrelu, (, k), a_leaky(k), 1); ACT(elu, (, al), delu, (, al), a_elu(al), am); ACT(elu_unitalpha, (), delu_unitalpha, (), a_elu(1), 4); break;
	case 2: ACT(selu, (, al, la), dselu, (, al, la), a_selu(al, la), am*la); ACT(step, (), drelu, (), (Act{ a_step().f, a_relu().df, false }), 0); break;
	case 3: ACT(elogu, (, al, b1), delogu, (, al, b1), a_elogu(al, l1), am); ACT(elogu_ua, (, b1), delogu_ua, (, b1), a_elogu(1, l1), am); ACT(elogu_nb, (, al), delogu_nb, (, al), a_elogu(al, 1), am); ACT(elogu_ua_nb, (), delogu_ua_nb, (), a_elogu(1, 1), 6); break;
	case 4: ACT(loglogu, (, b1, b2), dloglogu, (, b1, b2), a_loglogu(l1, l2), am); ACT(loglogu_nbn, (, b2), dloglogu_nbn, (, b2), a_loglogu(1, l2), am); ACT(loglogu_nbp, (, b1), dloglogu_nbp, (, b1), a_loglogu(l1, 1), am); ACT(loglogu_nbn_nbp, (), dloglogu_nbn_nbp, (), a_loglogu(1, 1), 6); break;
	case 5: ACT(logu, (, b1), dlogu, (, b1), a_logu(l1), am); ACT(logu_nb, (), dlogu_nb, (), a_logu(1), 6); break;
	default: ACT(softsign, (, al, la), dsoftsign, (, al, la), a_softsign(al, la), 6*(1 + la)*(1 + 1 / al)); ACT(softsign_uc, (, al), dsoftsign, (, al, T(1)), a_softsign(al, 1), 6*(1 + 1 / al));
		{ const Act o = a_softsign(1, 1); c.mkD(o); run_({ D3(dsoftsign_ua_uc, ()) }, [&] { load(D, c.D0); }, [&](const char* v) { c.chkD("act.dsoftsign_ua_uc", o, v, 8); }); }
		ACT(softsigm, (, al), dsoftsigm, (, al), a_softsigm(al), 6*(1 + 1 / al));
	}
	ev("act.math_level");
}

// --- losses
struct Loss { std::function<ld(ld, ld)> l; std::function<ld(ld, ld)> g; };
template<typename T> ld gsum(const std::vector<T>& a, const std::vector<T>& y, const Loss& L, ld& mag) { ld s = 0; mag = 0; for (size_t i = 0; i < a.size(); ++i) { const ld v = L.l(a[i], y[i]); s += v; mag += std::fabs(v); } return s; }
enum { exact_, spike_, rnd_ };
template<typename T> int fill_loss(R& r, M<T>& A, M<T>& Y, int kind /*0 free, 1 binary targets, 2 soft targets*/) {
	const int mode = r.below(3); const nc n = A.numel();
	for (nc i = 0; i < n; ++i) {
		T& a = A.data()[i]; T& y = Y.data()[i];
		if (kind == 0) { if (mode == exact_) { a = T(r.in(-2, 2)); y = T(r.in(-2, 2)); } else if (mode == spike_) { y = T(r.uni(-2, 2)); a = y; } else { a = rv<T>(r, Fill::gauss); y = rv<T>(r, Fill::uni); } }
		else { y = kind == 1 ? T(r.b()) : T(r.u01()); a = mode == spike_ ? (kind == 1 ? y : T(1)) : T(r.u01()); if (mode == rnd_ && r.chance(5)) a = T(r.b()); }
	}
	if (mode == spike_) { const nc i = r.below(int(n)); if (kind == 0) A.data()[i] = Y.data()[i] + T(1 + r.u01()); else { A.data()[i] = T(r.pick({ .5, .01, .99, 0., 1., 1e-6 })); Y.data()[i] = kind == 1 ? T(r.b()) : T(r.u01()); } }
	else if (r.chance(20)) { A.data()[n - 1] = T(kind ? .3 : 7.); if (kind) Y.data()[n - 1] = T(1); }
	return mode;
}
template<typename T> void chk_loss(const char* key, const char* nm, T got, ld exp, ld mag, nc n, int mode, bool ns, ld termerr = 4) {
	const ld tol = EPS<T> * mag*(mode == spike_ || ns ? termerr + 8 : mode == exact_ && termerr <= 4 ? 4 : termerr + n) + EPS<T> * EPS<T> * n + std::numeric_limits<T>::min()*n*4 + (ns || termerr > 4 ? EPS<T> * std::sqrt((ld)n)*4 : 0);
	if (!close(got, exp, tol)) viol(key, "%s: %.9g, expected %.9g (+-%.2g) over %lld elements", nm, (double)got, (double)exp, (double)tol, (long long)n);
}
#define L2(nm, st, mt) { #nm, [&] { return iM.nm(A, Y); } }, { #st, [&] { return iM.st(A, Y); } }, { #mt, [&] { return iM.mt(A, Y); } }
template<typename T> using LV = std::vector<std::pair<const char*, std::function<T()>>>;

template<typename T> void losses(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 30, 24000);
	M<T> A(m, n), Y(m, n);
	auto go = [&](const char* key, const Loss& L, ld norm, int kind, const LV<T>& vs, bool ns, ld te) {
		const int mode = fill_loss(r, A, Y, kind); const auto a0 = snap(A), y0 = snap(Y);
		seen(key, mode, m > 40, n > 40, sizeof(T), A.numel() > 9000);
		ld mag; const ld e = gsum<T>(a0, y0, L, mag);
		for (auto& v : vs) { vh::note(v.first); const T g = v.second(); ev("act.loss_runs"); chk_loss<T>(key, v.first, g, e*norm, mag*std::fabs(norm), A.numel(), mode, ns, te); unchanged<T>(key, v.first, A, a0); unchanged<T>(key, v.first, Y, y0); }
	};
	const Loss q{ [](ld a, ld y) { return (a - y)*(a - y); }, nullptr };
	const ld mn = std::numeric_limits<T>::min(), laz = std::log(mn);
	const Loss xe{ [=](ld a, ld y) { return y > 0 ? -std::log(a + mn) : -std::log((1 - a) + mn); }, nullptr };
	const Loss sm{ [=](ld a, ld y) { return -y * (a > 0 ? std::log(a) : laz); }, nullptr };
	switch (r.below(4)) {
	case 0: go("loss.quadratic", q, .5L, 0, LV<T>{ L2(loss_quadratic, loss_quadratic_st_naive, loss_quadratic_mt_naive) }, false, 4);
		go("loss.quadratic_ns", q, .5L, 0, LV<T>{ L2(loss_quadratic_ns, loss_quadratic_st_naive_ns, loss_quadratic_mt_naive_ns) }, true, 4); break;
	case 1: go("loss.xentropy", xe, 1, 1, LV<T>{ L2(loss_xentropy, loss_xentropy_st, loss_xentropy_mt) }, false, 8);
		go("loss.xentropy_ns", xe, 1, 1, LV<T>{ L2(loss_xentropy_ns, loss_xentropy_ns_st, loss_xentropy_ns_mt) }, true, 8); break;
	case 2: go("loss.softmax_xentropy", sm, 1, 2, LV<T>{ L2(loss_softmax_xentropy, loss_softmax_xentropy_st, loss_softmax_xentropy_mt) }, false, 8); break;
	default: {// compile time parametrised losses
		typedef activation::Loss_quadratic<T> W0; typedef activation::Linear_Loss_quadWeighted_FP<T> W1; typedef activation::Linear_Loss_quadWeighted2_FP<T, 2000000, 500000, 250000> W2; typedef activation::Linear_Loss_quadWeighted_res_FP<T, 1500000, 300000> W3;
		#define CL(W) LV<T>{ { "compute_loss", [&] { return iM.template compute_loss<W>(A, Y); } }, { "compute_loss_st", [&] { return iM.template compute_loss_st<W>(A, Y); } }, { "compute_loss_mt", [&] { return iM.template compute_loss_mt<W>(A, Y); } } }
		const ld s2 = 1.414214L, fp1 = s2 * s2;
		auto w1 = [=](ld a, ld y) { const ld e = a - y; return y < 0 && a > y ? fp1 * e*e : e * e; };
		auto w2 = [=](ld a, ld y) { const ld e = a - y; return y < (ld)T(.25) && a > y ? 4 * e*e : .25L*e*e; };
		auto w3 = [=](ld a, ld y) { const ld b = T(.3), e = y < b && a > y ? 1.5L*(a - b) + b - y : a - y; return e * e; };
		go("loss.custom0", q, .5L, 0, CL(W0), false, 8); go("loss.custom1", Loss{ w1, nullptr }, .5L, 0, CL(W1), false, 8); go("loss.custom2", Loss{ w2, nullptr }, .5L, 0, CL(W2), false, 8); go("loss.custom3", Loss{ w3, nullptr }, .5L, 0, CL(W3), false, 16);
		// gradients of the latter
		#define CG(W) { Var{ "dLoss_dZ", [&] { iM.template dLoss_dZ<W>(Y, A); } }, Var{ "dLoss_dZ_st", [&] { iM.template dLoss_dZ_st<W>(Y, A); } }, Var{ "dLoss_dZ_mt", [&] { iM.template dLoss_dZ_mt<W>(Y, A); } } }
		auto gr = [&](const char* key, std::initializer_list<Var> vs, std::function<ld(ld, ld)> g) {
			fill_loss(r, A, Y, 0); const auto a0 = snap(A), y0 = snap(Y);
			run_(vs, [&] { load(A, a0); }, [&](const char* nm) { chk_cells<T>(key, nm, A, a0, [&](nc i, ld& t) { t = 16 * EPS<T>*(1 + std::fabs((ld)a0[i]) + std::fabs((ld)y0[i])); return g(a0[i], y0[i]); }); unchanged<T>(key, nm, Y, y0); });
		};
		gr("dloss.custom1", CG(W1), [=](ld a, ld y) { return (y < 0 && a > y ? fp1 : 1)*(a - y); });
		gr("dloss.custom2", CG(W2), [=](ld a, ld y) { return (y < (ld)T(.25) && a > y ? 4 : .25L)*(a - y); });
		gr("dloss.custom3", CG(W3), [=](ld a, ld y) { const ld b = T(.3); return y < b && a > y ? 1.5L*(1.5L*(a - b) + b - y) : a - y; });
	}
	}
	ev("act.losses");
	{// loss gradients w.r.t. the pre-activation, given the activation value in [0,1]
		const T sa = T(r.uni(.1, 3)); const bool soft = r.b();
		for (nc i = 0; i < A.numel(); ++i) { A.data()[i] = T(r.uni(.001, .999)); Y.data()[i] = soft ? T(r.u01()) : T(r.b()); }
		const auto a0 = snap(A), y0 = snap(Y);
		auto gr = [&](const char* key, std::initializer_list<Var> vs, auto g) {
			run_(vs, [&] { load(A, a0); }, [&](const char* nm) { chk_cells<T>(key, nm, A, a0, [&](nc i, ld& t) { const ld x = g(a0[i], y0[i]); const ld d = (ld)a0[i] * (1 - (ld)a0[i]); t = 16 * EPS<T>*(std::fabs(x) + (1 + 1 / sa)*(1 + std::fabs(x) / d)); return x; }); unchanged<T>(key, nm, Y, y0); });
		};
		const Act ss = a_softsigm(sa);
		gr("dloss.sigm_quad", { V_(dSigmQuadLoss_dZ(Y, A)), V_(dSigmQuadLoss_dZ_st(Y, A)), V_(dSigmQuadLoss_dZ_mt(Y, A)) }, [](ld a, ld y) { return (a - y)*a*(1 - a); });
		gr("dloss.identity_xentropy", { V_(dIdentityXEntropyLoss_dZ(Y, A)), V_(dIdentityXEntropyLoss_dZ_st(Y, A)), V_(dIdentityXEntropyLoss_dZ_mt(Y, A)) }, [](ld a, ld y) { return (a - y) / (a*(1 - a)); });
		gr("dloss.softsigm_quad", { V_(dSoftSigmQuadLoss_dZ(Y, A, sa)), V_(dSoftSigmQuadLoss_dZ_st(Y, A, sa)), V_(dSoftSigmQuadLoss_dZ_mt(Y, A, sa)) }, [&](ld a, ld y) { return (a - y)*ss.df(a); });
		if (!soft) gr("dloss.softsigm_xentropy", { V_(dSoftSigmXEntropyLoss_dZ(Y, A, sa)), V_(dSoftSigmXEntropyLoss_dZ_st(Y, A, sa)), V_(dSoftSigmXEntropyLoss_dZ_mt(Y, A, sa)) }, [&](ld a, ld y) { return (a - y)*ss.df(a) / (a*(1 - a)); });
		ev("act.loss_gradients");
	}
}

// --- the activation classes a network is built from
template<typename T, typename C> void cls(R& r, IM<T>& iM, const char* key, const Act& o, ld amp) {
	Ctx<T> c(r, iM);
	C::f(c.A, iM); c.chkF(key, o, "f", amp);
	c.mkD(o); C::df(c.D, iM); c.chkD(key, o, "df", amp * 2);
	load(c.D, c.D0); C::dIdentity(c.D, iM); c.chkD(key, a_ident(), "dIdentity", 0);
	M<T> z(1, 1); z.data()[0] = T(0); C::f(z, iM);
	if ((z.data()[0] == T(0)) != C::bFIsZeroStable) viol(key, "f(0)==%g, but the class tells that f(0)==0 is %d", (double)z.data()[0], int(C::bFIsZeroStable));
	ev("act.class_level");
}
// an output activation: dLdZ must be the gradient of loss(f(z)) with respect to z
template<typename T, typename C> void clsL(R& r, IM<T>& iM, const char* key, const Act& o, const Loss& L, bool bin, bool unit, bool ns, bool bId = true) {
	vl m, n; shape(r, m, n, 20, 24000); M<T> Z(m, n), Y(m, n);
	fillm(r, Z, Fill::uni); if (unit) for (nc i = 0; i < Y.numel(); ++i) Y.data()[i] = bin ? T(r.b()) : T(r.u01()); else fillm(r, Y, Fill::uni);
	C::f(Z, iM); const auto a0 = snap(Z), y0 = snap(Y);
	ld mag; const ld e = gsum<T>(a0, y0, L, mag);
	chk_loss<T>(key, "loss", C::loss(Z, Y, iM), e, mag, Z.numel(), rnd_, ns, 8); unchanged<T>(key, "loss", Z, a0);
	auto chk = [&](const char* nm, bool id) { chk_cells<T>(key, nm, Z, a0, [&](nc i, ld& t) { const ld g = L.g(a0[i], y0[i]), d = id ? 1.L : o.df(a0[i]); t = 64 * EPS<T>*(1 + std::fabs(g)*(1 + std::fabs(d)))*(unit ? 1 / ((ld)a0[i] * (1 - (ld)a0[i]) + 1e-4L) : 1); return g * d; }); unchanged<T>(key, nm, Y, y0); };
	C::dLdZ(Y, Z, iM); chk("dLdZ", false);
	if (bId) { load(Z, a0); C::dLdZIdentity(Y, Z, iM); chk("dLdZIdentity", true); }
	ev("act.class_losses");
}
template<typename T> void classes(R& r, IM<T>& iM) {
	using namespace activation;
	const ld e = 1; (void)e;
	const ld alS = 1.6732632423543772848170429916717L, laS = 1.0507009873554804934193349852946L, l2 = std::log(2.L);
	const Loss q{ [](ld a, ld y) { return (a - y)*(a - y) / 2; }, [](ld a, ld y) { return a - y; } };
	const ld mn = std::numeric_limits<T>::min();
	const Loss xe{ [=](ld a, ld y) { return y > 0 ? -std::log(a + mn) : -std::log((1 - a) + mn); }, [](ld a, ld y) { return (a - y) / (a*(1 - a)); } };
	switch (r.below(12)) {
	case 0: cls<T, sigm<T>>(r, iM, "cls.sigm", a_sigm(), 4); cls<T, relu<T>>(r, iM, "cls.relu", a_relu(), 0); cls<T, identity<T>>(r, iM, "cls.identity", a_ident(), 0); break;
	case 1: cls<T, leaky_relu<T>>(r, iM, "cls.leaky_relu", a_leaky(.01L), 4); cls<T, leaky_relu_1000<T>>(r, iM, "cls.leaky_relu_1000", a_leaky(.001L), 4); cls<T, leaky_relu_100<T>>(r, iM, "cls.leaky_relu_100", a_leaky(.01L), 4); cls<T, very_leaky_relu_5p5<T>>(r, iM, "cls.very_leaky_relu", a_leaky(1 / 5.5L), 4); break;
	case 2: cls<T, elu<T>>(r, iM, "cls.elu", a_elu(1), 6); cls<T, elu<T, 2500>>(r, iM, "cls.elu2.5", a_elu(2.5L), 12); cls<T, elu_ua<T>>(r, iM, "cls.elu_ua", a_elu(1), 6); break;
	case 3: cls<T, selu<T>>(r, iM, "cls.selu", a_selu(alS*laS, laS), 12); cls<T, selu<T, 1200000000, 900000000>>(r, iM, "cls.selu1.2", a_selu(1.2L*.9L, .9L), 12); cls<T, step<T>>(r, iM, "cls.step", a_step(), 0); break;
	case 4: cls<T, elogu<T, 1500, 3000>>(r, iM, "cls.elogu", a_elogu(1.5L, std::log(3.L)), 12); cls<T, elogu<T>>(r, iM, "cls.elogu_def", a_elogu(1, l2), 12); cls<T, elogu_nb<T, 700>>(r, iM, "cls.elogu_nb", a_elogu(.7L, 1), 12); cls<T, elogu_ua_nb<T>>(r, iM, "cls.elogu_ua_nb", a_elogu(1, 1), 12); break;
	case 5: cls<T, loglogu<T, 3000, 2000>>(r, iM, "cls.loglogu", a_loglogu(std::log(3.L), l2), 12); cls<T, loglogu_nbn<T>>(r, iM, "cls.loglogu_nbn", a_loglogu(1, l2), 12); cls<T, loglogu_nbp<T, 4000>>(r, iM, "cls.loglogu_nbp", a_loglogu(std::log(4.L), 1), 12); cls<T, loglogu_nbn_nbp<T>>(r, iM, "cls.loglogu_nbn_nbp", a_loglogu(1, 1), 12); break;
	case 6: cls<T, logu<T>>(r, iM, "cls.logu", a_logu(l2), 12); cls<T, logu_nb<T>>(r, iM, "cls.logu_nb", a_logu(1), 12); break;
	case 7: cls<T, softsign<T, 500000, 2000000>>(r, iM, "cls.softsign", a_softsign(.5L, 2), 48); cls<T, softsign<T, 2000000>>(r, iM, "cls.softsign_uc", a_softsign(2, 1), 24); cls<T, softsign_uc_ua<T>>(r, iM, "cls.softsign_uc_ua", a_softsign(1, 1), 24); cls<T, softsign<T, 1000000, 0>>(r, iM, "cls.softsign_c0", a_softsign(1, 1.5925374197228312L), 48); break;
	case 8: cls<T, softsigm<T, 700>>(r, iM, "cls.softsigm", a_softsigm(.7L), 48); cls<T, softsigm_ua<T>>(r, iM, "cls.softsigm_ua", a_softsigm(1), 24); break;
	case 9: clsL<T, sigm_quad_loss<T>>(r, iM, "cls.sigm_quad_loss", a_sigm(), q, false, true, false); clsL<T, sigm_quad_loss<T, weights_init::Martens_SI_sigm<>, true>>(r, iM, "cls.sigm_quad_loss_ns", a_sigm(), q, false, true, true);
		clsL<T, sigm_xentropy_loss<T>>(r, iM, "cls.sigm_xentropy_loss", a_sigm(), xe, true, true, false); clsL<T, sigm_xentropy_loss<T, weights_init::Martens_SI_sigm<>, true>>(r, iM, "cls.sigm_xentropy_loss_ns", a_sigm(), xe, true, true, true); break;
	case 10: clsL<T, softsigm_quad_loss<T, 600>>(r, iM, "cls.softsigm_quad_loss", a_softsigm(.6L), q, false, true, false); clsL<T, softsigm_xentropy_loss<T, 1500>>(r, iM, "cls.softsigm_xentropy_loss", a_softsigm(1.5L), xe, true, true, false);
		clsL<T, softsigm_xentropy_loss<T, 1500, weights_init::He_Zhang<>, true>>(r, iM, "cls.softsigm_xentropy_loss_ns", a_softsigm(1.5L), xe, true, true, true); break;
	default: {
		clsL<T, identity_quad_loss<T>>(r, iM, "cls.identity_quad_loss", a_ident(), q, false, false, false); clsL<T, identity_quad_loss<T, weights_init::SNNInit, true>>(r, iM, "cls.identity_quad_loss_ns", a_ident(), q, false, false, true);
		const ld fp = 1.414214L*1.414214L;
		clsL<T, identity_custom_loss<Linear_Loss_quadWeighted_FP<T>>>(r, iM, "cls.identity_custom_loss", a_ident(), Loss{ [=](ld a, ld y) { return (y < 0 && a > y ? fp : 1)*(a - y)*(a - y) / 2; }, [=](ld a, ld y) { return (y < 0 && a > y ? fp : 1)*(a - y); } }, false, false, false);
		// softmax: rows sum up to one, dLdZ = a - y, loss = -sum(y*log(a))
		vl m, n; shape(r, m, n, 20, 20000); MD<T> Z(m, n); M<T> Y(m, n); fillm<T>(r, Z, r.b() ? Fill::uni : Fill::hostile); std::vector<T> z0 = snap<T>(Z);
		for (nc i = 0; i < Y.numel(); ++i) Y.data()[i] = T(r.u01());
		typedef softmax_xentropy_loss<T> S; S::f(Z, iM);
		for (vl q2 = 0; q2 < m; ++q2) {
			ld mx = -INFINITY, s = 0; for (vl k = 0; k < n; ++k) mx = std::max(mx, (ld)z0[nc(k)*m + q2]); for (vl k = 0; k < n; ++k) s += std::exp((ld)z0[nc(k)*m + q2] - mx);
			for (vl k = 0; k < n; ++k) { const ld d = (ld)z0[nc(k)*m + q2] - mx, x = std::exp(d) / s; if (!close(Z.get(q2, k), x, x*EPS<T>*(16 + n + 2 * std::fabs(d)) + std::numeric_limits<T>::min())) { viol("cls.softmax", "f [%u,%u] at (%u,%u): %.9g, expected %.9g", m, n, q2, k, (double)Z.get(q2, k), (double)x); q2 = m; break; } }
		}
		const auto a0 = snap<T>(Z), y0 = snap(Y); const Loss sm{ [=](ld a, ld y) { return -y * (a > 0 ? std::log(a) : std::log(mn)); }, nullptr };
		ld mag; const ld ex = gsum<T>(a0, y0, sm, mag); chk_loss<T>("cls.softmax", "loss", S::loss(Z, Y, iM), ex, mag, Z.numel(), rnd_, false, 8);
		S::dLdZ(Y, Z, iM); chk_cells<T>("cls.softmax", "dLdZ", Z, a0, [&](nc i, ld& t) { t = 2 * EPS<T>; return (ld)a0[i] - y0[i]; }); unchanged<T>("cls.softmax", "dLdZ", Y, y0);
		ev("act.softmax_class");
	}
	}
}
template<typename T> void all(int n) {
	std::string sfx = sizeof(T) == 8 ? ".d" : ".f"; const int per = std::max(1, n / 3);
	for (unsigned hc : { 2u, 5u, 8u }) {
		g_hc = hc; MathBox<T> b(nc(200000));
		auto nm = [&](const char* s) { return std::string(s) + sfx + std::to_string(hc); };
		group(nm("acts").c_str(), per * 2, [&](R& r, int) { acts<T>(r, b.iM); });
		group(nm("losses").c_str(), per, [&](R& r, int) { losses<T>(r, b.iM); });
		group(nm("classes").c_str(), per * 2, [&](R& r, int) { classes<T>(r, b.iM); });
	}
}
int main(int argc, char** argv) { init(argc, argv); all<double>(120); all<float>(120); return done(); }
