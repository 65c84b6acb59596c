// normalisation of training data: one affine map, measured on the train set, applied to every set; in memory and at run time
#include "mathcommon.h"
#include "nntl/train_data.h"
#include "nntl/train_data/inmem_train_data.h"
#include "nntl/train_data/transf_train_data.h"
using namespace vh;
namespace mn = utils::mtx2Normal;
template<typename T> struct Env {
	typedef dt_interfaces<T> I; typedef _impl::common_nn_data<I> CD;
	IM<T> iM; typename I::iRng_t rng; typename I::iInspect_t insp; bool blocked = false; CD cd;
	Env(uint64_t seed) : cd(iM, rng, insp, blocked) { if (I::iRng_t::is_multithreaded) rng.init_ithreads(iM.ithreads()); rng.seed64(seed); if (!iM.init()) viol("norm.imath", "init failed"); }
	void sizes(vl f, vl b) { if (cd.is_initialized()) cd.deinit(); cd.init(f, b); }
};
template<typename T> MD<T> mk(vl n, vl w, bool bias) { MD<T> m; if (bias) m.will_emulate_biases(); else m.dont_emulate_biases(); if (!m.resize_as_dataset(n, w)) viol("norm.alloc", "resize_as_dataset failed"); return m; }
// the transformer: every base sample gives K samples
template<typename T> class Trf : public _i_td_transformer<T, T> {
	typedef _i_td_transformer<T, T> B;
public:
	typedef typename B::const_TD_stor_t const_TD_stor_t; typedef typename B::x_mtx_t x_mtx_t; typedef typename B::y_mtx_t y_mtx_t; typedef int data_set_id_t;
	vl K; T d; MD<T> bx, by; vl wb = 0; std::vector<vl> last;
	Trf(vl k, T dd) : K(k), d(dd) {}
	T make(T v, vl k) const { return v + d * T(k); }
	vl samplesInBaseSample()const noexcept { return K; }
	vl xWidth(const_TD_stor_t& s)const noexcept { return s.train_x().sample_size(); }
	vl yWidth(const_TD_stor_t& s)const noexcept { return s.train_y().sample_size(); }
	nc base_dataset_samples_count(const_TD_stor_t& s, data_set_id_t i)const noexcept { return s.X(i).batch_size(); }
	void deinit()noexcept { bx.clear(); by.clear(); }
	template<typename iM> bool init(iM&, const_TD_stor_t& s, vl n)noexcept { bx.will_emulate_biases(); return bx.resize_as_dataset(n*K, xWidth(s)) && by.resize_as_dataset(n*K, yWidth(s)); }
	void fill(const_TD_stor_t& s, int ds, const vl* idx, vl ofs, vl n, bool noY) { for (vl i = 0; i < n; ++i) for (vl k = 0; k < K; ++k) { const vl id = idx ? idx[i] : ofs + i; for (vl j = 0; j < bx.sample_size(); ++j) bx.set(i*K + k, j, make(s.X(ds).get(id, j), k)); if (!noY) for (vl j = 0; j < by.sample_size(); ++j) by.set(i*K + k, j, s.Y(ds).get(id, j)); } }
	template<typename C> void next_epoch(const_TD_stor_t&, nc, const C&, vl n, x_mtx_t** px, y_mtx_t** py)noexcept { bx.deform_batch_size_with_biases(n*K); by.deform_batch_size(n*K); *px = &bx; *py = &by; }
	template<typename C> void next_batch(const_TD_stor_t& s, nc, const C&, const vl* idx, vl n)noexcept { last.assign(idx, idx + n); fill(s, 0, idx, 0, n, false); }
	template<typename C> void walk(const_TD_stor_t&, int, const C&, vl n, unsigned ex, x_mtx_t** px, y_mtx_t** py)noexcept { wb = n; bx.deform_batch_size_with_biases(n*K); by.deform_batch_size(n*K); *px = ex == 1 ? nullptr : &bx; *py = ex == 2 ? nullptr : &by; }
	template<typename C> void walk_next(const_TD_stor_t& s, int ds, nc, const C&, vl n, vl ofs, unsigned ex)noexcept { bx.deform_batch_size_with_biases(n*K); by.deform_batch_size(n*K); fill(s, ds, nullptr, ofs, n, ex == 2); }
};
typedef std::vector<std::vector<ld>> Tab;// [column][sample]
struct Job { bool cw, sc, ce; ld ts, tc, stol, ctol; bool unb; std::vector<char> konst; nc used;/*samples the statistics are measured on*/ };
inline void stats(const ld* p, nc n, bool unb, ld& m, ld& s) { m = 0; for (nc i = 0; i < n; ++i) m += p[i]; m /= n; s = 0; for (nc i = 0; i < n; ++i) s += (p[i] - m)*(p[i] - m); s = std::sqrt(s / (unb ? n - 1 : n)); }
inline void colstats(const Tab& t, const Job& J, vl c, ld& m, ld& s) { if (J.cw) stats(t[c].data(), J.used, J.unb, m, s); else { std::vector<ld> a; for (auto& v : t) a.insert(a.end(), v.begin(), v.begin() + J.used); stats(a.data(), nc(a.size()), J.unb, m, s); } }
// o: the raw data of both sets, n: the normalised
template<typename T> bool judge(const Job& J, const Tab o[2], const Tab n[2], const char* w) {
	const vl W = vl(o[0].size()); ld ga = 1, gb = 0, ger = 0; bool gset = false;
	for (vl c = 0; c < W; ++c) {
		ld a = 1, b = 0, er = 0; if (J.cw || !gset) {// the map, from the extreme raw values
			nc lo = 0, hi = 0; const auto* src = &o[0][c]; const auto* dst = &n[0][c]; for (nc i = 0; i < nc(src->size()); ++i) { if ((*src)[i] < (*src)[lo]) lo = i; if ((*src)[i] > (*src)[hi]) hi = i; }
			if ((*src)[hi] != (*src)[lo]) { a = ((*dst)[hi] - (*dst)[lo]) / ((*src)[hi] - (*src)[lo]); b = (*dst)[lo] - a * (*src)[lo]; er = (std::fabs((*dst)[lo]) + std::fabs((*dst)[hi]) + std::fabs((*src)[lo]) + std::fabs((*src)[hi])) / ((*src)[hi] - (*src)[lo]); ger = er; if (!J.cw) { ga = a; gb = b; gset = true; } }
			else if (J.cw) { b = (*dst)[0] - (*src)[0]; } else continue;
		}
		if (!J.cw) { a = ga; b = gb; er = ger; }
		ld mx = 0; for (int s = 0; s < 2; ++s) for (auto v : o[s][c]) mx = std::max(mx, std::fabs(v)); const ld tol = 400 * EPS<T>*(std::fabs(a)*mx + er * mx + std::fabs(b) + std::fabs(J.tc) + J.ts);
		if (!(a > 0)) { viol("norm.map", "%s: column %d is scaled by %Lg", w, (int)c, a); return false; }
		if (!J.sc && std::fabs(a - 1) > 200 * EPS<T>*(1 + er)) { viol("norm.map", "%s: column %d is scaled by %Lg although only the mean is to be changed", w, (int)c, a); return false; }
		if (!J.ce && std::fabs(b) > tol) { viol("norm.map", "%s: column %d is shifted by %Lg although only the scale is to be changed", w, (int)c, b); return false; }
		for (int s = 0; s < 2; ++s) for (nc i = 0; i < nc(o[s][c].size()); ++i) if (!(std::fabs(n[s][c][i] - (a*o[s][c][i] + b)) <= tol)) { viol(s ? "norm.other_set" : "norm.map", "%s: sample %lld of column %d of set %d is %Lg, the map of the train set %Lg*x+%Lg gives %Lg", w, (long long)i, (int)c, s, n[s][c][i], a, b, a*o[s][c][i] + b); return false; }
		ld m, sd; colstats(n[0], J, c, m, sd); const ld sl = 4000 * EPS<T>*(std::fabs(J.tc) + J.ts + std::fabs(m));
		if (J.ce && !(std::fabs(m - J.tc) <= J.ctol + sl)) { viol("norm.mean", "%s: the mean is %Lg, the target %Lg +- %Lg (column %d)", w, m, J.tc, J.ctol, (int)c); return false; }
		if (J.sc && sd > 0 && !(J.cw && J.konst[c]) && !(std::fabs(sd - J.ts) <= J.stol + sl)) { viol("norm.scale", "%s: the deviation is %Lg, the target %Lg +- %Lg (column %d)", w, sd, J.ts, J.stol, (int)c); return false; }
		ev("norm.columns");
	}
	ev("norm.verdicts"); return true;
}
template<typename T> void gen(R& r, Job& J, inmem_train_data_stor<T>& st, vl n0, vl n1, vl W, vl yw) {
	auto a = mk<T>(n0, W, true), c = mk<T>(n1, W, true); auto b = mk<T>(n0, yw, false), d = mk<T>(n1, yw, false); J.konst.assign(W, 0); const ld gs = std::pow(10.L, r.uni(-1, 1.5));
	for (vl j = 0; j < W; ++j) { const ld sd = gs * (J.cw ? std::pow(10.L, r.uni(-1, 1)) : r.uni(.5, 2)), mu = r.chance(20) ? 0 : sd * r.uni(-8, 8); J.konst[j] = W > 1 && r.chance(15); const T k = T(r.in(-5, 5)); for (vl i = 0; i < n0; ++i) a.set(i, j, J.konst[j] ? k : T(mu + sd * r.norm())); for (vl i = 0; i < n1; ++i) c.set(i, j, T(mu + sd * 3 * r.norm())); }
	for (nc i = 0; i < b.numel(); ++i) b.data()[i] = T(r.norm()); for (nc i = 0; i < d.numel(); ++i) d.data()[i] = T(r.norm());
	if (!st.absorb(std::move(a), std::move(b), std::move(c), std::move(d))) viol("norm.absorb", "refused");
}
template<typename S, typename SetT> void setts(R& r, Job& J, SetT& s, const Tab& o) {
	const int m = r.below(4); J.sc = m != 1; J.ce = m != 2; J.ts = r.b() ? 1 : r.uni(.3, 3); J.tc = r.b() ? 0 : r.in(-16, 16) / 4.L;/*exact: a constant column stays one*/ if (r.chance(30)) { bool k = false; for (auto q : J.konst) k |= !!q; if (!J.cw || !k) { Job A = J; A.used = nc(o[0].size()); A.unb = true; ld m, sd; colstats(o, A, 0, m, sd); if (std::fabs(m) <= 6 * J.ts) J.tc = m;/*the mean is right already, the scale is not*/ } } J.stol = r.b() ? .01L : .05L; J.ctol = r.b() ? .01L : .03L;
	s.targetScale = S(J.ts); s.targetCentral = S(J.tc); s.ScaleTolerance = S(J.stol); s.CentralTolerance = S(J.ctol); s.bScaleNormalize = J.sc; s.bCentralNormalize = J.ce; s.maxTries = r.in(8, 20); s.bVerbose = r.b(); s.bSayIfScaleSpecial = r.b(); s.emitDbgAfterTry = r.in(1, 15);
}
// is there anything to be done? the case is skipped otherwise (or when the question is a matter of rounding)
template<typename T> bool todo(const Job& J, const Tab& t) {
	bool any = false; for (vl c = 0; c < vl(t.size()); ++c) { ld m, s; colstats(t, J, c, m, s); const ld ds = std::fabs(s - J.ts), dm = std::fabs(m - J.tc); const bool k = s == 0;
		if ((J.sc && !k && std::fabs(ds - J.stol) < 2e-3L) || (J.ce && std::fabs(dm - J.ctol) < 2e-3L)) return false; any |= (J.sc && !k && ds > J.stol) || (J.ce && dm > J.ctol); }
	return any;
}
template<typename T, typename S, bool unb> void inmem(R& r) {
	g_hc = r.in(2, 6); Env<T> E(r.u64()); inmem_train_data<T> td; Job J; J.cw = r.b(); J.unb = unb; const vl n0 = r.pick({ 3, 8, r.in(10, 60), r.in(100, 700) }), n1 = r.in(1, 40), W = r.in(1, 9), yw = r.in(1, 3);
	gen<T>(r, J, td, n0, n1, W, yw); typedef TDNormSettings<T, S> ST; auto tab = [&](int k) { Tab t(W); for (vl c = 0; c < W; ++c) for (vl i = 0; i < (k ? n1 : n0); ++i) t[c].push_back(td.X(k).get(i, c)); return t; }; Tab o[2] = { tab(0), tab(1) }; ST s; setts<S>(r, J, s, o[0]); s.bColumnwise = J.cw; vl bs = r.b() ? -1 : r.in(2, n0); s.batchSize = bs; const vl big = std::max(n0, n1), eb = std::min(n0, bs < 0 ? big : bs); const nc bc = (n0 + eb - 1) / eb; s.batchCount = r.chance(30) ? r.in(1, int(bc) + 2) : 0; J.used = s.batchCount ? std::min<nc>(n0, nc(s.batchCount) * eb) : n0;
	if (J.used < 2 || !todo<T>(J, o[0])) { ev("norm.skipped"); return; } if (!J.cw) { bool sp = true; for (auto k : J.konst) sp &= !!k; if (sp) return; }
	vl f = 0; const bool pre = r.b(); if (pre) { f = r.b() ? 0 : std::max<vl>(2, r.in(1, big)); if (f && bs > f) f = 0; td.init4inference(E.iM, f); if (bs < 0) { /*the walk uses the prepared size*/ const vl e2 = std::min(n0, f); J.used = s.batchCount ? std::min<nc>(n0, nc(s.batchCount)*e2) : n0; if (J.used < 2 || !todo<T>(J, o[0])) return; } E.iM.init(); }
	const auto y0 = snap(td.train_y()), y1 = snap(td.test_y()); char nb[200]; snprintf(nb, sizeof(nb), "inmem %s%s%s ts %Lg tc %Lg n %d w %d bs %d bc %d used %lld", J.cw ? "cw" : "whole", J.sc ? " scale" : "", J.ce ? " mean" : "", J.ts, J.tc, (int)n0, (int)W, (int)bs, (int)s.batchCount, (long long)J.used); note(nb); seen("inm", J.cw, J.sc, J.ce, unb, sizeof(T), sizeof(S), s.batchCount > 0, J.tc != 0);
	vl mf = bs < 0 ? 0 : bs; const bool keep = pre && td.is_initialized4inference(mf); const bool ok = td.template normalize_data<S, typename Env<T>::CD, mn::_FNorm_stats_var_mean<unb>>(E.cd, s); if (!ok) { viol("norm.result", "normalize_data() failed: %s", nb); return; }
	Tab n[2] = { tab(0), tab(1) }; judge<T>(J, o, n, nb); for (int k = 0; k < 2; ++k) if (!td.X(k).test_biases_strict()) viol("norm.bias", "biases of set %d changed", k); if (!same_bits(y0, td.train_y().data()) || !same_bits(y1, td.test_y().data())) viol("norm.y", "Y changed");
	vl q = 0; if (td.is_initialized4inference(q) != keep) viol("norm.init", "normalize_data() changed the initialisation state (was %d)", pre); ev("norm.inmem");
}
template<typename T, typename S> void transf(R& r) {
	g_hc = r.in(2, 6); Env<T> E(r.u64()); inmem_train_data_stor<T> st; Job J; J.cw = r.b(); J.unb = true; const vl n0 = r.pick({ 3, 8, r.in(10, 60), r.in(100, 300) }), n1 = r.in(1, 40), W = r.in(1, 7), yw = r.in(1, 3), K = r.pick({ 1, 2, 3 });
	gen<T>(r, J, st, n0, n1, W, yw); Trf<T> tf(K, T(K > 1 ? r.uni(.1, 2) : 0)); if (K > 1) J.konst.assign(W, 0); transf_train_data<Trf<T>> td(tf, st); const auto x0 = snap(st.train_x()), x1 = snap(st.test_x()), y0 = snap(st.train_y());
	Tab o[2]; for (int k = 0; k < 2; ++k) { o[k].resize(W); for (vl c = 0; c < W; ++c) for (vl i = 0; i < (k ? n1 : n0); ++i) for (vl q = 0; q < K; ++q) o[k][c].push_back(tf.make(st.X(k).get(i, c), q)); }
	for (int cyc = r.in(1, 2); cyc-- > 0;) {// again: replaces the first normalisation
		if (cyc == 0 && r.b()) J.cw = !J.cw;
		TDNormSettings<T, S> s; setts<S>(r, J, s, o[0]); s.bColumnwise = J.cw; const vl bs = r.b() ? -1 : r.in(2, n0) * K; s.batchSize = bs; const vl big = std::max(n0, n1)*K, eb = std::min(n0*K, bs < 0 ? big : bs); const nc bc = (n0*K + eb - 1) / eb; s.batchCount = r.chance(30) ? r.in(1, int(bc) + 2) : 0; J.used = s.batchCount ? std::min<nc>(n0*K, nc(s.batchCount)*eb) : n0 * K;
		if (J.used < 2 || !todo<T>(J, o[0])) { ev("norm.skipped"); return; } if (!J.cw) { bool sp = true; for (auto k : J.konst) sp &= !!k; if (sp) return; }
		char nb[200]; snprintf(nb, sizeof(nb), "run-time %s%s%s ts %Lg tc %Lg n %dx%d w %d bs %d bc %d", J.cw ? "cw" : "whole", J.sc ? " scale" : "", J.ce ? " mean" : "", J.ts, J.tc, (int)n0, (int)K, (int)W, (int)bs, (int)s.batchCount); note(nb); seen("trf", J.cw, J.sc, J.ce, K, sizeof(T), sizeof(S), s.batchCount > 0, J.tc != 0);
		td.deinit4all(); if (!td.template normalize_data<S>(E.cd, s)) { viol("norm.result", "normalize_data() failed: %s", nb); return; }
		// what is served now
		Tab n[2]; vl f = 0, t = K * r.in(1, n0); bool mb; if (td.init4train(E.iM, f, t, &mb) != _nnet_errs::Success) { viol("norm.init", "init4train failed"); return; } E.iM.init(); E.sizes(f, t);
		for (int k = 0; k < 2; ++k) { n[k].resize(W); const vl b = r.in(1, std::min(n0, n1)) * K; const nc cnt = td.walk_over_set(k, E.cd, b); for (nc q = 0; q < cnt; ++q) { td.next_subset(q, E.cd); const auto& X = td.batchX(); for (vl c = 0; c < W; ++c) for (vl i = 0; i < X.batch_size(); ++i) n[k][c].push_back(X.get(i, c)); if (!X.test_biases_strict()) viol("norm.bias", "biases of a batch changed"); } if (n[k][0].size() != o[k][0].size()) { viol("norm.walk", "%zu of %zu samples", n[k][0].size(), o[k][0].size()); return; } }
		if (!judge<T>(J, o, n, nb)) return;
		const nc cnt = td.on_next_epoch(1, E.cd, t); for (nc q = 0; q < cnt; ++q) { td.on_next_batch(q, E.cd); const auto& X = td.batchX(); for (vl i = 0; i < vl(tf.last.size()); ++i) for (vl k = 0; k < K; ++k) for (vl c = 0; c < W; ++c) if (!close<T>(X.get(i*K + k, c), n[0][c][tf.last[i] * K + k], 0)) { viol("norm.train_batch", "%s: a training batch serves %.9g, a walk over the train set %.9Lg", nb, (double)X.get(i*K + k, c), n[0][c][tf.last[i] * K + k]); return; } if (!X.test_biases_strict()) viol("norm.bias", "biases of a batch changed"); ev("norm.train_batches"); }
		if (!same_bits(x0, st.train_x().data()) || !same_bits(x1, st.test_x().data()) || !same_bits(y0, st.train_y().data())) viol("norm.stored", "the stored data changed");
	}
	td.deinit4all(); td.reset_normalization(); vl f = 0; td.init4inference(E.iM, f); E.iM.init(); E.sizes(f, 0); for (int k = 0; k < 2; ++k) { const nc cnt = td.walk_over_set(k, E.cd, -1); nc pos = 0; for (nc q = 0; q < cnt; ++q) { td.next_subset(q, E.cd); const auto& X = td.batchX(); for (vl i = 0; i < X.batch_size(); ++i, ++pos) for (vl c = 0; c < W; ++c) if ((ld)X.get(i, c) != o[k][c][pos]) { viol("norm.reset", "still normalised after reset_normalization()"); return; } } }
	ev("norm.transf");
}
// a constant column of values that are not exact in binary
template<typename T> void constant(R&, int) {
	for (int q = 1; q <= 9; ++q) {
		g_hc = 2; Env<T> E(7); inmem_train_data<T> td; R r(q); auto a = mk<T>(45, 2, true), c = mk<T>(5, 2, true); auto b = mk<T>(45, 1, false), d = mk<T>(5, 1, false); for (vl i = 0; i < 45; ++i) { a.set(i, 0, T(q) / T(10)); a.set(i, 1, T(r.norm() * 3)); b.set(i, 0, T(1)); } for (vl i = 0; i < 5; ++i) { c.set(i, 0, T(r.norm())); c.set(i, 1, T(r.norm())); d.set(i, 0, T(1)); }
		const auto o = snap(c); if (!td.absorb(std::move(a), std::move(b), std::move(c), std::move(d))) viol("norm.absorb", "refused"); TDNormSettings<T, T> s; s.bColumnwise = true; note("constant column"); const bool ok = td.template normalize_data<T>(E.cd, s); ld mx = 0; for (vl i = 0; i < 5; ++i) mx = std::max(mx, std::fabs((ld)td.test_x().get(i, 0))); ev("norm.constants");
		if (!ok || !(mx < 10)) viol("norm.constant_column", "column-wise normalisation of a column of 45 values %g: result %d, the biggest value of the test set in it becomes %Lg", q / 10., ok, mx);
	}
}
// accumulation of maps
template<typename T, typename U> void algebra(R& r) {
	mn::ScaleCentralData<T> s; std::vector<ld> x, x0; for (int i = 0; i < 8; ++i) x0.push_back(r.uni(-3, 3)); x = x0; bool sc = false, of = false; ld mag = 3;
	for (int k = r.in(1, 12); k-- > 0;) {
		const T a = T(r.uni(.3, 2.5) * (r.chance(10) ? -1 : 1)), b = T(r.uni(-4, 4)); const int op = r.below(7); auto ap = [&](ld p, ld q) { for (auto& v : x) v = p * v + q; mag = std::fabs(p)*mag + std::fabs(q); };
		switch (op) { case 0: s._upd_scale(a); ap(a, 0); sc = true; break; case 1: s._upd_ofs(b); ap(1, b); of = true; break; case 2: s._upd_both(a, b); ap(a, b); sc = of = true; break;
		case 3: { const bool p = r.b(), q = r.b(); mn::ScaleCentralData<U> o(p ? U(a) : U(1), q ? U(b) : U(0), p, q); s._upd_all_typed(o); ap(p ? (ld)U(a) : 1, q ? (ld)U(b) : 0); sc |= p; of |= q; break; }
		case 4: { const bool p = r.b(), q = r.b(); s._upd_all_typed(p ? U(a) : U(1), q ? U(b) : U(0), p, q); ap(p ? (ld)a : 1, q ? (ld)b : 0); sc |= p; of |= q; break; }
		case 5: { const auto f = s.template as_type<float>(); const auto d = s.template as_type<double>(); if (f.sc != float(s.sc) || f.ofs != float(s.ofs) || f.bScale != s.bScale || f.bOffset != s.bOffset || d.sc != double(s.sc) || d.ofs != double(s.ofs) || d.bScale != s.bScale || d.bOffset != s.bOffset) viol("norm.algebra", "as_type() changes the map"); break; }
		default: if (r.chance(20)) { s.reset(); x = x0; sc = of = false; mag = 3; } }
		if (s.bScale != sc || s.bOffset != of) { viol("norm.algebra", "flags after op %d: %d %d", op, s.bScale, s.bOffset); return; }
		for (size_t i = 0; i < x.size(); ++i) if (std::fabs(((ld)s.sc*x0[i] + (ld)s.ofs) - x[i]) > 64 * EPS<T>*mag) { viol("norm.algebra", "the accumulated map gives %.9Lg instead of %.9Lg after op %d", (ld)s.sc*x0[i] + (ld)s.ofs, x[i], op); return; }
		ev("norm.algebra");
	}
}
// application of maps to matrices
template<typename T, typename S> void apply(R& r) {
	g_hc = r.in(2, 6); IM<T> iM; iM.init(); const vl n = r.in(1, 60), W = r.in(1, 40); auto m = mk<T>(n, W, true); for (vl i = 0; i < n; ++i) for (vl j = 0; j < W; ++j) m.set(i, j, T(r.uni(-5, 5))); const auto o = snap(m); std::vector<mn::ScaleCentralData<S>> v(W); const bool whole = r.b(); for (auto& e : v) { e = mn::ScaleCentralData<S>(S(r.uni(.1, 4)), S(r.uni(-3, 3)), r.b(), r.b()); if (!e.bScale) e.sc = 1; if (!e.bOffset) e.ofs = 0; }
	if (whole) for (auto& e : v) e = v[0]; if (whole) mn::upd_mtx_scale_central::whole(iM, m, v[0]); else { iM.preinit(16); mn::upd_mtx_scale_central::batchwise(iM, m, v); }
	for (vl j = 0; j < W; ++j) for (vl i = 0; i < n; ++i) { const ld w = (ld)T(v[j].sc)*o[size_t(j)*n + i] + (ld)T(v[j].ofs); if (std::fabs((ld)m.get(i, j) - w) > 8 * EPS<T>*(20 + 4)) { viol("norm.apply", "%s: (%d,%d) %.9g, expected %.9Lg", whole ? "whole" : "batchwise", (int)i, (int)j, (double)m.get(i, j), w); return; } } if (!m.test_biases_strict()) viol("norm.bias", "biases changed"); ev("norm.applied");
}
int main(int argc, char** argv) {
	init(argc, argv);
	group("inmem.d", 120, [](R& r, int) { inmem<double, double, true>(r); }); group("inmem.f", 60, [](R& r, int) { inmem<float, float, true>(r); }); group("inmem.fd", 60, [](R& r, int) { inmem<float, double, true>(r); }); group("inmem.db", 60, [](R& r, int) { inmem<double, double, false>(r); });
	group("transf.d", 90, [](R& r, int) { transf<double, double>(r); }); group("transf.f", 50, [](R& r, int) { transf<float, float>(r); }); group("transf.fd", 50, [](R& r, int) { transf<float, double>(r); });
	group("alg.d", 200, [](R& r, int) { algebra<double, double>(r); }); group("alg.f", 100, [](R& r, int) { algebra<float, float>(r); }); group("alg.fd", 100, [](R& r, int) { algebra<float, double>(r); });
#ifdef NDEBUG// in debug builds the invalid statistics of such a column are an assertion
	group("const", 1, [](R& r, int i) { constant<double>(r, i); constant<float>(r, i); });
#endif
	group("apply", 100, [](R& r, int) { apply<double, double>(r); apply<float, double>(r); });
	return done();
}
