// the numeric gradient check: what it visits, what it perturbs, what it decides and what it leaves behind
#include <iostream>
#define STDCOUT(args) do { ::std::cout << args; } while(0)
#define STDCOUTL(args) do { ::std::cout << args << ::std::endl; } while(0)
#define VH_STDCOUT
#include "prelude.h"
#include "netcommon.h"
#include "nntl/loss_addendum/L1.h"
#include "nntl/loss_addendum/L2.h"
#include "nntl/loss_addendum/DeCov.h"
#include <sstream>
typedef _nnet_errs::ErrorCode EC;
typedef nntl::_impl::gradcheck_paramsGroup PG; typedef nntl::_impl::gradcheck_phase GPH;
static std::ostringstream g_out;
struct Chk { int l; bool W; int r, c; int ph[3] = { 0,0,0 }; };
// sees the passes below the checking inspector
template<typename T> struct Rec : inspector::_impl::_base<T> {
	typedef math::smatrix<T> X; bool on = false; mutable std::vector<Chk> chk; mutable int cur = -1; mutable std::vector<int> st; std::map<int, std::vector<T>> base; T step = 0; vl bsW = 0, bsA = 0;
	mutable int nf = 0, nb = 0, pert = 0, nact = 0; mutable std::vector<T> act[3]; mutable int rows = 0; int lastIdx = 0; bool gated = false;
	bool mine()const { return on && chk.size() && st.size() && st.back() == chk.back().l; }
	void fprop_begin(const layer_index_t l, const X& prev, const bool tr)const noexcept {
		if (on) { st.push_back(int(l)); if (st.size() == 1 && l == 0) { ++nf; rows = prev.rows(); const vl e = chk.empty() ? 0 : chk.back().W ? bsW : bsA; if (prev.rows() != e) viol("gc.batch", "a batch of %d rows instead of %d", int(prev.rows()), int(e)); if (!tr) viol("gc.mode", "not in training mode"); } }
	}
	void fprop_end(const X&)const noexcept { if (on) st.pop_back(); }
	template<typename Y> void bprop_begin(const layer_index_t l, const math::smatrix<Y>&)const noexcept { if (on) { if (st.empty() && int(l) == lastIdx) ++nb; st.push_back(int(l)); } }
	void bprop_end(const X&)const noexcept { if (on) { st.pop_back(); } }
	void fprop_makePreActivations(const X& W, const X&)const noexcept {
		if (!on || st.empty() || chk.empty()) return; auto it = base.find(st.back()); if (it == base.end()) return;
		const auto& b = it->second; if (b.size() != size_t(W.numel())) { viol("gc.weights", "layer %d: %lld weights, %zu before", st.back(), (long long)W.numel(), b.size()); return; }
		const Chk& k = chk.back(); const bool want = k.W && k.l == st.back() && cur != 2; long long at = want ? (long long)k.c*W.rows() + k.r : -1;
		for (size_t i = 0; i < b.size(); ++i) { const T e = (long long)i == at ? T(b[i] + (cur == 1 ? step : -step)) : b[i]; if (std::memcmp(&e, W.data() + i, sizeof(T))) { viol("gc.perturb", "layer %d weight %zu is %.17g instead of %.17g while layer %d (%d,%d) of %s is checked in phase %d", st.back(), i, (double)W.data()[i], (double)e, k.l, k.r, k.c, k.W ? "dLdW" : "dLdA", cur); break; } }
		if (want) ++pert;
	}
	void fprop_makePreActivations(const X&)const noexcept {}
	void fprop_activations(const X& A)const noexcept { if (mine() && !chk.back().W && cur >= 0) { ++nact; act[cur].assign(A.data(), A.data() + A.numel_no_bias()); } }
};
template<typename T> struct Tam : inspector::GradCheck<T, Rec<T>> {
	typedef inspector::GradCheck<T, Rec<T>> B; typedef math::smatrix<T> X; typedef typename B::mtx_coords_t mtx_coords_t;
	int tl = -1; bool tW = false; int tr = -1, tc = -1; T mul = 1, add = 0; bool hit = false;
	void flush() {
		if (!this->on || this->chk.empty()) return; auto& k = this->chk.back();
		if (k.ph[0] != 1 || k.ph[1] != 1 || k.ph[2] != 1) viol("gc.phases", "layer %d: phases -%d +%d analytical %d", k.l, k.ph[0], k.ph[1], k.ph[2]);
		if (this->nf != 3 || this->nb != 1) viol("gc.passes", "layer %d: %d forward and %d backward passes", k.l, this->nf, this->nb);
		if (k.W && this->pert != 2 && !this->gated) viol("gc.perturb", "layer %d: the weight was perturbed %d times", k.l, this->pert);
		if (!k.W && this->nact == 3 && this->act[0].size() == this->act[2].size() && this->act[1].size() == this->act[2].size() && this->act[2].size()) {
			auto& a = this->act; const size_t rows = this->rows; bool ok = true; for (size_t i = 0; i < a[2].size() && ok; ++i) { const bool p = i == size_t(k.c)*rows; const T e0 = a[2][i] - (p ? this->step : T(0)), e1 = a[2][i] + (p ? this->step : T(0)); if (a[0][i] != e0 || a[1][i] != e1) { ok = false; viol("gc.perturb", "layer %d: activation %zu is %.17g / %.17g / %.17g while neuron %d is checked", k.l, i, (double)a[0][i], (double)a[2][i], (double)a[1][i], k.c); } }
			ev("gc.activations");
		}
		for (auto& a : this->act) a.clear(); this->nf = this->nb = this->pert = this->nact = 0;
	}
	void gc_prep_check_layer(const layer_index_t l, const PG g, const mtx_coords_t& c, const bool may = false)noexcept { flush(); Chk k; k.l = int(l); k.W = g == PG::dLdW; k.r = int(c.first); k.c = int(c.second); if (this->on) { this->chk.push_back(k); ev(k.W ? "gc.dLdW" : "gc.dLdA"); } B::gc_prep_check_layer(l, g, c, may); }
	void gc_set_phase(GPH p)noexcept { this->cur = p == GPH::df_numeric_minus ? 0 : p == GPH::df_numeric_plus ? 1 : 2; if (this->on && this->chk.size()) ++this->chk.back().ph[this->cur]; B::gc_set_phase(p); }
	X copy(const X& m) { X q; if (!m.clone_to(q)) abort(); return q; }
	void tamper(X& q, bool W) { for (vl i = 0; i < q.rows(); ++i) for (vl j = 0; j < (W ? q.cols() : q.cols_no_bias()); ++j) if ((tr < 0 || (W ? i == tr : i == 0)) && (tc < 0 || j == tc)) { T& v = q.get(i, j); v = v * mul + add; hit = true; } }
	void bprop_dLdW(const X& dz, const X& pa, const X& dw)noexcept { if (this->on && tl >= 0 && tW && this->st.size() && this->st.back() == tl) { X q(copy(dw)); tamper(q, true); B::bprop_dLdW(dz, pa, q); } else B::bprop_dLdW(dz, pa, dw); }
	void bprop_finaldLdA(const X& d)noexcept { if (this->on && tl >= 0 && !tW && this->st.size() && this->st.back() == tl) { X q(copy(d)); tamper(q, false); B::bprop_finaldLdA(q); } else B::bprop_finaldLdA(d); }
};
template<typename T> struct GI : dt_interfaces<T> { typedef Tam<T> iInspect_t; };
template<typename T> using GG = grad_works<GI<T>>;
template<typename T> using GFC = LFC<activation::sigm<T, weights_init::Xavier<1500000>>, GG<T>>;
template<typename T> using GOUT = layer_output<activation::identity_quad_loss<T, weights_init::Xavier<1500000>>, GG<T>>;
struct LInfo { int idx, n, inc; bool W; };
static void gdata(R& r, MD<double>& X, MD<double>& Y) { for (vl c = 0; c < X.cols_no_bias(); ++c) for (vl q = 0; q < X.rows(); ++q) X.set(q, c, r.uni(.3, 1.5)*(r.b() ? 1 : -1)); for (nc i = 0; i < Y.numel(); ++i) Y.data()[i] = r.uni(1, 2)*(r.b() ? 1 : -1); }
static int cnt(int mode, int ptc, int perc, int n) { return mode == 0 ? std::min(n, ptc) : std::max(n*perc / 100, std::min(n, ptc)); }
struct Sett { int m[2], ptc[2], perc[2]; };
static void setts(R& r, gradcheck_settings<double>& s, Sett& q, bool all) {
	for (int i = 0; i < 2; ++i) { auto& g = i ? s.subgroupSetts : s.groupSetts; q.m[i] = r.below(2); q.ptc[i] = all && !q.m[i] ? 1000 : r.in(1, 8); q.perc[i] = all ? 100 : r.pick({ 1, 10, 40, 70, 100 }); if (q.m[i]) g.set(q.ptc[i], unsigned(q.perc[i])); else g.set(q.ptc[i]); }
}
// one network, several checks of it
template<typename NN, typename LP> void checks(R& r, NN& nn, LP&, Tam<double>& in, const std::vector<LInfo>& L, const std::function<std::map<int, std::vector<double>>()>& ws, int nx, int ny, int outIdx, bool drop = false) {
	in.lastIdx = outIdx; typedef double T; EC ec0 = EC::Success; { vl one = 4; ec0 = nn.init4fixedBatchFprop(one); } if (ec0 != EC::Success) { viol("gc.init", "code %d", int(ec0)); return; }
	for (int it = r.in(2, 4); it-- > 0;) {
		const int N = r.in(1, 14); MD<T> X(N, nx, true), Y(N, ny); gdata(r, X, Y);
		const int bs = r.pick({ 1, N, r.in(1, N), r.in(1, N) }), ob = r.pick({ 1, 1, N, r.in(1, N) });
		int mode = r.below(8);// 0,1 clean; 2 one dLdW; 3 one dLdA; 4 whole layer; 5 small deviation; 6 ignored layer; 7 zero columns
		if (drop && mode == 7) mode = 0;
		gradcheck_settings<T> s(r.chance(20), drop || r.chance(20), r.pick({ 1e-5, 3e-5, 1e-4 })); Sett q; const bool all = mode == 2 || mode == 3 || mode == 7; setts(r, s, q, all); s.onlineBatchSize = ob;
		s.evalSetts.dLdA_setts.relErrFailThrsh = .05; s.evalSetts.dLdW_setts.relErrFailThrsh = .05; if (drop) s.evalSetts.dLdA_setts.percOfZeros = s.evalSetts.dLdW_setts.percOfZeros = 100;
		std::vector<int> ign; auto pickL = [&](bool W) { std::vector<LInfo> c; for (auto& l : L) if (W ? l.W : l.idx != outIdx) c.push_back(l); return c[r.below(c.size())]; };
		bool want = true; in.tl = -1; in.tr = in.tc = -1; in.mul = 1; in.add = 0; in.hit = false; const bool tW = mode == 2 ? true : mode == 3 ? false : r.b(); in.tW = tW; bool zc = false; int zcols = 0;
		if (mode >= 2 && mode <= 6) {
			const LInfo l = pickL(tW); in.tl = l.idx; in.mul = r.pick({ 1.2, .8, -1., 0., 3. });
			if (mode == 2) { in.tr = r.below(l.n); in.tc = r.chance(30) ? l.inc : r.below(l.inc); } if (mode == 3) { in.tr = 0; in.tc = r.below(l.n); }
			if (mode == 5) in.mul = 1 + r.uni(-.01, .01); else if (mode == 6) s.ignoreLayerIds.push_back(layer_index_t(l.idx)); else want = false;
#ifdef NDEBUG
			if (mode < 5 && r.chance(25)) { in.mul = r.b() ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity(); ev("gc.nonfinite"); }
#endif
		}
		if (drop && mode >= 2 && mode <= 4 ) { in.tl = -1; want = true; mode = 0; in.mul = 1; }
		if (r.chance(15) && mode < 2) { const LInfo l = L[r.below(L.size())]; s.ignoreLayerIds.push_back(layer_index_t(l.idx)); }
		if (mode == 7) {// columns of zeros at the input: their weights have no gradient
			const LInfo* f = nullptr; for (auto& l : L) if (l.idx == 1 && l.W) f = &l; if (f && f->inc == nx) { zc = true; zcols = r.in(0, nx); for (int c = 0; c < zcols; ++c) for (vl i = 0; i < N; ++i) X.set(i, c, 0); s.evalSetts.dLdW_setts.percOfZeros = r.pick({ 0, 10, 30, 50, 90, 100 }); s.evalSetts.bIgnoreZerodLdWInUndelyingLayer = r.chance(25); const int mx = f->n*(f->inc + 1)*s.evalSetts.dLdW_setts.percOfZeros / 100; want = f->n*zcols <= mx || s.evalSetts.bIgnoreZerodLdWInUndelyingLayer; ev(want ? "gc.zeros_ok" : "gc.zeros_bad"); }
		}
		for (auto v : s.ignoreLayerIds) ign.push_back(int(v));
		char b[200]; snprintf(b, sizeof(b), "gradcheck N %d bs %d online %d mode %d layer %d %s (%d,%d) x %g", N, bs, ob, mode, in.tl, tW ? "dLdW" : "dLdA", in.tr, in.tc, in.mul); note(b); if (vh::S().nsamples < 6) vh::sample("%s", b);
		seen("gradcheck", mode, bs == N, ob == N, bs > ob, q.m[0], q.m[1], ign.size(), tW);
		const auto w0 = ws(); const auto x0 = snap(X), y0 = snap(Y); bool res = false; int tries = 0;
		for (; tries < 3; ++tries) {
			in.base = w0; in.step = s.stepSize; in.bsW = bs; in.bsA = ob; in.chk.clear(); in.st.clear(); in.nf = in.nb = in.pert = in.nact = 0; in.on = true; in.hit = false; g_out.str("");
			res = nn.gradcheck(X, Y, bs, s); in.flush(); in.on = false; ev("gc.checks");
			if (ws() != w0) viol("gc.weights", "the check changed the weights"); if (!same_bits(x0, X.data()) || !same_bits(y0, Y.data())) viol("gc.data", "the check changed the data");
			if (g_out.str().find("Following data batches were used: ") != std::string::npos) {// what is told about the failed entry has to make sense
				ev("gc.reports"); std::istringstream is(g_out.str().substr(g_out.str().find("Following data batches were used: ") + 34)); std::string l; std::getline(is, l); std::istringstream ls(l); std::string e; std::set<int> ids; while (std::getline(ls, e, ',')) { const int v = std::atoi(e.c_str()); if (v < 0 || v >= N || !ids.insert(v).second) { viol("gc.report", "reported samples: %s of %d", l.c_str(), N); break; } }
				if (int(ids.size()) != bs && int(ids.size()) != ob) viol("gc.report", "reported samples: %s, batches are %d/%d", l.c_str(), ob, bs);
			}
			if (!want || res) break;
		}
		if (want) { if (!res) viol("gc.false_alarm", "correct gradients were rejected three times: %s", g_out.str().substr(g_out.str().size() > 400 ? g_out.str().size() - 400 : 0).c_str()); else ev("gc.accepted"); }
		else if (mode == 4 || all) { if (res) viol("gc.missed", "layer %d: wrong %s was accepted (tampered %d)", in.tl, mode == 7 ? "amount of zeros" : tW ? "dLdW" : "dLdA", in.hit); else ev("gc.rejected"); }
		if (res) {// what was visited
			std::map<std::pair<int, bool>, std::set<std::pair<int, int>>> v; long long n = 0; for (auto& k : in.chk) if (!v[{ k.l, k.W }].insert({ k.r, k.c }).second) viol("gc.visit", "layer %d: (%d,%d) was visited twice", k.l, k.r, k.c);
			for (auto& l : L) {
				const bool ig = std::count(ign.begin(), ign.end(), l.idx); const int a = cnt(q.m[0], q.ptc[0], q.perc[0], l.n); const size_t ea = ig || l.idx == outIdx ? 0 : a, ew = ig || !l.W ? 0 : size_t(a)*cnt(q.m[1], q.ptc[1], q.perc[1], l.inc) + a; n += ea + ew;
				const auto& va = v[{ l.idx, false }]; const auto& vw = v[{ l.idx, true }]; if (va.size() != ea || vw.size() != ew) viol("gc.visit", "layer %d [%d,%d]: %zu of %zu activations, %zu of %zu weights were visited", l.idx, l.n, l.inc, va.size(), ea, vw.size(), ew);
				for (auto& p : va) if (p.first != 0 || p.second < 0 || p.second >= l.n) viol("gc.visit", "layer %d: activation (%d,%d)", l.idx, p.first, p.second);
				std::map<int, int> per; int bias = 0; for (auto& p : vw) { if (p.first < 0 || p.first >= l.n || p.second < 0 || p.second > l.inc) viol("gc.visit", "layer %d: weight (%d,%d)", l.idx, p.first, p.second); if (p.second == l.inc) ++bias; else ++per[p.first]; }
				if (ew && (bias != a || int(per.size()) != a)) viol("gc.visit", "layer %d: %d biases of %zu neurons instead of %d", l.idx, bias, per.size(), a);
			}
			if (n != (long long)in.chk.size()) viol("gc.visit", "%zu values were checked instead of %lld", in.chk.size(), n); ev("gc.visits");
		}
		in.tl = -1; (void)zc;
		// the network works as before
		if (r.chance(40)) {
			const int rows = r.in(1, 6); MD<T> A(rows, nx, true), B(rows, ny); gdata(r, A, B); if (nn.fprop(A) != EC::Success) viol("gc.after", "fprop() fails after a check"); if (ws() != w0) viol("gc.after", "the weights changed");
			inmem_train_data<T> td; MD<T> a(6, nx, true), bb(6, ny), c(3, nx, true), d(3, ny); gdata(r, a, bb); gdata(r, c, d); if (!td.absorb(std::move(a), std::move(bb), std::move(c), std::move(d))) return;
			nnet_train_opts<T, training_observer_silent<T>> o(nc(2)); o.batchSize(r.in(1, 6)); o.calcFullLossValue(r.b()); if (nn.train(td, o) != EC::Success) viol("gc.after", "train() fails after a check"); if (ws() == w0) viol("gc.after", "the network does not learn after a check"); td.deinit4all(); ev("gc.after");
		}
	}
}
#define WS(...) [&] { std::map<int, std::vector<double>> m; auto f = [&](auto& l) { if (!l.get_weights().empty()) m[int(l.get_layer_idx())] = snap<double>(l.get_weights()); }; auto all = [&](auto&... ls) { int u[] = { (f(ls), 0)... }; (void)u; }; all(__VA_ARGS__); return m; }
template<typename L> LInfo li(L& l, bool W = true) { return { int(l.get_layer_idx()), int(l.get_neurons_cnt()), int(l.get_incoming_neurons_cnt()), W }; }
#define SETUP(lp) Tam<T> in; auto nn = make_nnet(lp, in); nn.get_iRng().seed64(r.u64() >> 1); { vl one = 1; if (nn.init4fixedBatchFprop(one) != EC::Success) { viol("gc.init", "can't init"); return; } }
static void chain(R& r) {
	typedef double T; const int nx = r.in(1, 7), ny = r.in(1, 4); layer_input<GI<T>> inp(nx); GFC<T> a(r.in(1, 8), T(.05)), b(r.in(1, 8), T(.05)); GOUT<T> out(ny, T(.05)); auto lp = make_layers(inp, a, b, out); if (r.chance(40)) a.get_gradWorks().L2(T(r.uni(.01, .2)), r.b());
	SETUP(lp); checks(r, nn, lp, in, { li(a), li(b), li(out) }, WS(a, b, out), nx, ny, int(out.get_layer_idx()));
}
static void packs(R& r) {
	typedef double T; const int nx = r.in(2, 7), ny = r.in(1, 4), h = r.in(2, 6), c = r.in(1, h - 1), e = r.in(0, c); layer_input<GI<T>> inp(nx); GFC<T> f0(h, T(.05)), f1(r.in(1, 5), T(.05)), f2(r.in(1, 5), T(.05)), f3(r.in(1, 5), T(.05)); GOUT<T> out(ny, T(.05));
	LPV<GFC<T>, GFC<T>> pv(f2, f3); auto ph = LPH<PHL<GFC<T>>, PHL<decltype(pv)>>(make_PHL(f1, 0, c), make_PHL(pv, e, h - e)); auto lp = make_layers(inp, f0, ph, out);
	SETUP(lp); checks(r, nn, lp, in, { li(f0), li(f1), li(f2), li(f3), li(pv, false), li(ph, false), li(out) }, WS(f0, f1, f2, f3, out), nx, ny, int(out.get_layer_idx()));
}
static void dropped(R& r) {
	typedef double T; const int nx = r.in(1, 7), ny = r.in(1, 4); layer_input<GI<T>> inp(nx); LFC_DO<activation::sigm<T, weights_init::Xavier<1500000>>, GG<T>> a(r.in(3, 8), T(.05)); GFC<T> b(r.in(1, 8), T(.05)); GOUT<T> out(ny, T(.05)); a.dropoutPercentActive(T(r.uni(.4, .95))); auto lp = make_layers(inp, b, a, out);
	SETUP(lp); checks(r, nn, lp, in, { li(b), li(a), li(out) }, WS(b, a, out), nx, ny, int(out.get_layer_idx()), true);
}
static void pen(R& r) {// penalties of activations
	typedef double T; const int nx = r.in(1, 7), ny = r.in(1, 4); layer_input<GI<T>> inp(nx); LFC_PA<std::tuple<loss_addendum::L2<T>, loss_addendum::DeCov<T>>, activation::sigm<T, weights_init::Xavier<1500000>>, GG<T>> a(r.in(2, 8), T(.05)); LFC_PA<std::tuple<loss_addendum::L1<T>>, activation::sigm<T, weights_init::Xavier<1500000>>, GG<T>> c(r.in(2, 5), T(.05)); GFC<T> b(r.in(1, 8), T(.05)); GOUT<T> out(ny, T(.05)); auto sc = [&] { return r.chance(25) ? T(0) : T(r.uni(.1, 2)); }; a.template addendum<0>().scale(sc()); a.template addendum<1>().scale(sc()); c.template addendum<0>().scale(sc()); if (r.chance(50)) b.get_gradWorks().L2(T(.1));
	if (r.b()) { auto lp = make_layers(inp, a, b, c, out); SETUP(lp); checks(r, nn, lp, in, { li(a), li(b), li(c), li(out) }, WS(a, b, c, out), nx, ny, int(out.get_layer_idx())); }
	else { auto lp = make_layers(inp, b, a, c, out); SETUP(lp); checks(r, nn, lp, in, { li(b), li(a), li(c), li(out) }, WS(a, b, c, out), nx, ny, int(out.get_layer_idx())); }
	ev("gc.penalties");
}
template<typename T> struct LossObs : training_observer_silent<T> { std::vector<double>* v = nullptr; void on_training_fragment_end(const numel_cnt_t, const T tr, const T te, const std::chrono::nanoseconds&)noexcept { v->push_back(tr); v->push_back(te); } };
// a check from the epoch callback does not change the course of the training
static void during(R& r) {
	typedef double T; const uint64_t seed = r.u64(); std::vector<double> losses[2]; std::vector<std::vector<T>> res[2]; const bool big = r.chance(20);
	for (int k = 0; k < 2; ++k) {
		R q(seed); const int nx = q.in(1, 6), ny = q.in(1, 3), N = q.in(4, 20), bs = q.in(2, N), ep = q.in(1, 4); layer_input<GI<T>> inp(nx); GFC<T> a(q.in(1, 8), T(.05)); GOUT<T> out(ny, T(.05)); auto lp = make_layers(inp, a, out); auto tune = [&](auto& l) { auto& g = l.get_gradWorks(); g.set_type(typename GG<T>::GradType(q.below(9))); const int m = q.below(3); if (m == 1) g.momentum(T(.5)); else if (m == 2) g.nesterov_momentum(T(.5)); if (q.chance(25)) g.set_ILR(T(.9), T(1.1), T(.1), T(5)); if (q.chance(25)) g.max_norm2(T(3)); if (q.chance(60)) g.L2(T(.2)); }; tune(a); tune(out);
		Tam<T> in; auto nn = make_nnet(lp, in); nn.get_iRng().seed64(seed >> 1); inmem_train_data<T> td; MD<T> x(N, nx, true), y(N, ny), c(3, nx, true), d(3, ny), gx(N, nx, true), gy(N, ny); gdata(q, x, y); gdata(q, c, d); gdata(q, gx, gy); if (!td.absorb(std::move(x), std::move(y), std::move(c), std::move(d))) return;
		nnet_train_opts<T, LossObs<T>> o{ nc(ep), true }; o.batchSize(bs).calcFullLossValue(q.b()); o.observer().v = &losses[k]; const int gb = q.in(1, bs), ob = q.in(1, bs); const bool before = q.chance(60), within = !before || q.chance(30);
		auto setts = [&] { gradcheck_settings<T> s(false, false, 1e-5); s.onlineBatchSize = ob; s.evalSetts.dLdA_setts.relErrFailThrsh = s.evalSetts.dLdW_setts.relErrFailThrsh = .05; return s; };
		{ vl bb = vl(N); if (nn.init4fixedBatchFprop(bb) != EC::Success) { viol("gc.init", "can't init"); return; } } if (k && before) { auto s = setts(); const auto w0 = snap<T>(a.get_weights()); (void)nn.gradcheck(gx, gy, gb, s); if (w0 != snap<T>(a.get_weights())) viol("gc.weights", "a check before the training changed the weights"); ev("gc.before"); } nn.get_iRng().seed64(seed >> 3);
		const EC ec = nn.train(td, o, [&](size_t e) { if (k && within) { auto s = setts(); const auto w0 = snap<T>(a.get_weights()); if (!nn.gradcheck(gx, gy, gb, s)) ev("gc.during_rejected"); else ev("gc.during"); if (w0 != snap<T>(a.get_weights())) viol("gc.weights", "a check during the training changed the weights"); } nn.get_iRng().seed64((seed >> 2) + e); return true; });
		if (ec != EC::Success) viol("gc.during", "code %d", int(ec)); res[k] = { snap<T>(a.get_weights()), snap<T>(out.get_weights()) }; td.deinit4all();
	}
	if (losses[0] != losses[1]) viol("gc.during_loss", "a gradient check from the epoch callback changed the reported losses"); else ev("gc.during_losses", losses[0].size());
	if (res[0] != res[1]) viol("gc.during", "a gradient check before the training or from the epoch callback changed the course of the training"); (void)big;
}
#ifdef NDEBUG
static void sizes(R& r) {
	typedef double T; const int nx = r.in(2, 6), ny = r.in(2, 4); layer_input<GI<T>> inp(nx); GFC<T> a(r.in(1, 8), T(.05)); GOUT<T> out(ny, T(.05)); auto lp = make_layers(inp, a, out); SETUP(lp);
	const int N = r.in(2, 9), k = r.below(6); const int ax = k == 0 ? nx + r.pick({ 1, -1 }) : nx, ay = k == 1 ? ny + r.pick({ 1, -1 }) : ny, Ny = k == 2 ? N + 1 : k == 3 ? N - 1 : N; MD<T> X(N, ax, true), Y(Ny, ay); gdata(r, X, Y); gradcheck_settings<T> s(false); if (k == 4) s.onlineBatchSize = N + r.in(1, 4); const auto w0 = snap<T>(a.get_weights());
	if (nn.gradcheck(X, Y, k == 5 ? N + r.in(1, 4) : 1, s)) viol("gc.sizes", "data of wrong sizes was accepted (kind %d)", k); if (w0 != snap<T>(a.get_weights())) viol("gc.weights", "a refused check changed the weights"); ev("gc.sizes"); seen("sizes", k);
}
#endif
int main(int argc, char** argv) {
	init(argc, argv); auto ob = std::cout.rdbuf(g_out.rdbuf());
	for (unsigned hc : { 2u, 4u }) {
		g_hc = hc; auto nm = [&](const char* s) { return std::string(s) + std::to_string(hc); };
		group(nm("chain").c_str(), 60, [](R& r, int) { chain(r); }); group(nm("packs").c_str(), 40, [](R& r, int) { packs(r); }); group(nm("dropped").c_str(), 20, [](R& r, int) { dropped(r); }); group(nm("pen").c_str(), 30, [](R& r, int) { pen(r); }); group(nm("during").c_str(), 30, [](R& r, int) { during(r); });
#ifdef NDEBUG
		group(nm("sizes").c_str(), 40, [](R& r, int) { sizes(r); });
#endif
	}
	std::cout.rdbuf(ob); return done();
}
