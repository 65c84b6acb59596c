// P23: utility containers and helpers against small reference models.
#include "prelude.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/utils/forwarder.h"
#include "nntl/utils/call_wrappers.h"
#include "nntl/utils/own_or_use_ptr.h"
#include "nntl/utils/bwlist.h"
#include "nntl/utils/vector_conditions.h"
#include "nntl/utils/layers_settings.h"
#include "nntl/utils/layer_idx_keeper.h"
#include "nntl/utils/tuple_utils.h"
#include "nntl/utils/lambdas.h"
#include "nntl/utils/scope_exit.h"
#include "nntl/utils/chrono.h"
#include "nntl/utils/tictoc.h"
#include "nntl/utils/confusion_mtx.h"
#include "nntl/utils/options.h"
#include "nntl/utils/mixins.h"
using namespace vh;
namespace U = nntl::utils;

// ---------------------------------------------------------------- call wrappers
struct Trk { int v; long* calls; int operator()(int a, int& b) const { ++*calls; b += v; return a * 3 + v; } };
struct Big { int a[12]; int v; long* calls; int operator()(int x, int& b) const { ++*calls; b += v; return x * 3 + v + a[11]; } };
struct Mut { int n; int operator()(int a, int& b) { b += ++n; return a; } };
static int g_free_calls = 0; static int freefn(int a, int& b) { ++g_free_calls; b -= 1; return a - 1; }

template<typename F, std::size_t N, typename WRAP> void fwd_case(R& r, const char* nm) {
	long calls = 0;
	F f; VCHECK(!f, "fwd.empty", "%s: a default constructed one is callable", nm);
	const int steps = r.in(4, 14); int kind = -1; int val = 0; int mutn = 0; Big big{}; 
	F other;
	for (int s = 0; s < steps; ++s) {
		const int what = r.below(7);
		if (what == 0) { val = r.in(-50, 50); f = Trk{ val, &calls }; kind = 0; }
		else if (what == 1) { val = r.in(-50, 50); big.v = val; big.a[11] = r.in(-9, 9); big.calls = &calls; f = WRAP::template wrap<Big&>(big); kind = sizeof(Big) > N ? 1 : 4; if (kind == 4) mutn = big.a[11]; }
		else if (what == 2) { f = freefn; kind = 2; }
		else if (what == 3) { mutn = r.in(0, 5); f = Mut{ mutn }; kind = 3; }
		else if (what == 4) { f.reset(); kind = -1; }
		else if (what == 5) { f = F(Trk{ val = r.in(-50, 50), &calls }); kind = 0; }
		else { F cp(f); f = cp; F mv(std::move(cp)); f = mv; }
		VCHECK(bool(f) == (kind >= 0), "fwd.bool", "%s: step %d kind %d", nm, s, kind);
		if (kind >= 0) {
			const int reps = r.in(1, 3);
			for (int q = 0; q < reps; ++q) {
				int a = r.in(-100, 100), b = r.in(-100, 100); const int b0 = b; const long c0 = calls; const int fc0 = g_free_calls;
				if (kind == 1 && r.b()) { big.v = val = r.in(-50, 50); }//a wrapped object is used by reference
				const int ret = f(a, b);
				switch (kind) {
				case 0: VCHECK(ret == a * 3 + val && b == b0 + val && calls == c0 + 1, "fwd.call", "%s: small functor %d", nm, ret); break;
				case 1: VCHECK(ret == a * 3 + big.v + big.a[11] && b == b0 + big.v && calls == c0 + 1, "fwd.call_ref", "%s: big functor %d", nm, ret); break;
				case 4: VCHECK(calls == c0 + 1, "fwd.call_big_copy", "%s", nm); break;
				case 2: VCHECK(ret == a - 1 && b == b0 - 1 && g_free_calls == fc0 + 1, "fwd.call_free", "%s", nm); break;
				default: ++mutn; VCHECK(ret == a && b == b0 + mutn, "fwd.call_mutable", "%s: stateful functor saw %d calls instead of %d", nm, b - b0, mutn);
				}
				ev("fwd.calls");
			}
		}
		seen(nm, what, kind);
	}
}

// ---------------------------------------------------------------- own_or_use_ptr
struct Cnt { static int live, ctor; int x; Cnt() : x(7) { ++live; ++ctor; } ~Cnt() { --live; x = -1; } };
int Cnt::live = 0; int Cnt::ctor = 0;
void own_case(R& r) {
	const int l0 = Cnt::live;
	{
		auto o = U::make_own_or_use_ptr<Cnt>(); typedef decltype(o) O;
		static_assert(O::bOwning, ""); VCHECK(Cnt::live == l0 + 1 && !o.empty(), "own.created", "%d", Cnt::live - l0);
		VCHECK(o->x == 7 && o.get().x == 7 && o.ptr() == &o.get() && static_cast<Cnt*>(o) == o.ptr(), "own.access", "-");
		if (r.b()) { o.release(); VCHECK(o.empty() && Cnt::live == l0, "own.release", "%d", Cnt::live - l0); if (r.b()) o.release(); }
	}
	VCHECK(Cnt::live == l0, "own.destroyed", "%d objects left", Cnt::live - l0);
	{
		Cnt c; { auto u = U::make_own_or_use_ptr(&c); static_assert(!decltype(u)::bOwning, ""); VCHECK(u.ptr() == &c && u->x == 7, "use.access", "-"); if (r.b()) { u.release(); VCHECK(u.empty(), "use.release", "-"); } }
		VCHECK(Cnt::live == l0 + 1 && c.x == 7, "use.not_destroyed", "a merely used object was destroyed");
	}
	ev("ptr.cases");
}

// ---------------------------------------------------------------- white/black lists
struct BW : public U::_bwlist<float> {
	typedef U::_bwlist<float> base; using base::base;
	void init(size_t n) { _bwlist_init(n); } void upd(nntl::layer_index_t i, nntl::layer_type_id_t t) { _bwlist_updateLayer(i, t); } bool ok(nntl::layer_index_t i)const { return _bwlist_layerAllowed(i); }
};
void bw_case(R& r) {
	BW l(r.b()); bool white = l.isWhiteList(); const int n = r.in(1, 14); std::vector<int> type(n); for (auto& t : type) t = r.in(0, 4);
	const int rounds = r.in(1, 3);
	for (int q = 0; q < rounds; ++q) {
		std::set<int> ids, ts;
		if (r.b() || q) { white = r.b(); if (r.b()) l.setMode(white); else if (white) l.setWhiteList(); else l.setBlackList(); } else { l.resetLists(); }
		VCHECK(l.isWhiteList() == white && l.isBlackList() == !white && l.getMode() == white, "bw.mode", "%d", white);
		const int adds = r.in(0, 5);
		for (int i = 0; i < adds; ++i) {
			if (r.b()) { nntl::layer_index_t k = r.below(n); ids.insert(int(k)); if (white) l.whitelist(k); else l.blacklist(k); }
			else { nntl::layer_type_id_t k = r.in(0, 4); ts.insert(int(k)); if (white) l.whitelist(k); else l.blacklist(k); }
		}
		if (!adds && r.b()) {
			std::vector<nntl::layer_index_t> v; for (int i = 0; i < n; ++i) if (r.b()) { v.push_back(nntl::layer_index_t(i)); ids.insert(i); }
			if (white) l.whitelist(std::move(v)); else l.blacklist(std::move(v));
			std::vector<nntl::layer_type_id_t> tv; if (r.b()) { tv.push_back(2); ts.insert(2); if (white) l.whitelist(std::move(tv)); else l.blacklist(std::move(tv)); }
		}
		const int inits = r.in(1, 2);
		for (int z = 0; z < inits; ++z) {
			l.init(n); std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; r.shuffle(o);
			for (int i : o) l.upd(nntl::layer_index_t(i), type[i]);
			for (int i = 0; i < n; ++i) {
				const bool listed = ids.count(i) || ts.count(type[i]);
				VCHECK(l.ok(nntl::layer_index_t(i)) == (listed ? white : !white), "bw.allowed", "layer %d of type %d: %s list, listed %d, allowed %d", i, type[i], white ? "white" : "black", listed, l.ok(nntl::layer_index_t(i))); ev("bw.decisions");
				seen("bw", white, listed, int(ids.size() > 0), int(ts.size() > 0));
			}
		}
	}
}

// ---------------------------------------------------------------- epoch conditions
void vc_case(R& r) {
	const int n = r.in(1, 40); std::vector<bool> m; const int kind = r.below(3); int st = 1, at = 1;
	std::unique_ptr<nntl::vector_conditions> pv;
	if (kind == 0) { const bool d = r.b(), dflt = d && r.b(); pv.reset(dflt ? new nntl::vector_conditions(n) : new nntl::vector_conditions(n, d)); m.assign(n, d); }
	else if (kind == 1) { st = r.in(1, n); pv.reset(new nntl::vector_conditions(n, nntl::numel_cnt_t(st))); m.assign(n, false); for (int i = st; i <= n; i += st) m[i - 1] = true; }
	else { st = r.in(1, n + 2); at = r.in(1, n); pv.reset(new nntl::vector_conditions(n, nntl::numel_cnt_t(at), nntl::numel_cnt_t(st))); m.assign(n, false); for (int i = at; i <= n; i += st) m[i - 1] = true; }
	m[n - 1] = true;//the last epoch is always reported
	auto& v = *pv;

	for (int k = r.in(0, 6); k-- > 0;) {
		const int o = r.below(4); const int i = r.below(n), b = r.in(1, n), e = r.in(b, n), s = r.in(1, 5);
		if (o == 0) { v.verbose(i); m[i] = true; } else if (o == 1) { v.silence(i); m[i] = false; }
		else if (o == 2) { v.verbose(b, e, s); for (int q = b; q <= e; q += s) m[q - 1] = true; }
		else { v.silence(b, e, s); for (int q = b; q <= e; q += s) m[q - 1] = false; }
	}
	if (r.chance(30)) { const int nn = r.in(1, 50); const bool d = r.b(); if (!d && r.b()) v.resize(nn); else v.resize(nn, d); if (r.chance(20)) { v.clear(); VCHECK(v.size() == 0, "cond.size", "not cleared"); m.clear(); v.resize(nn, d); } m.resize(nn, d); }
	VCHECK(v.size() == int(m.size()) && v.maxEpoch() == int(m.size()), "cond.size", "%d vs %zu", int(v.size()), m.size());
	for (size_t i = 0; i < m.size(); ++i) { VCHECK(v(i) == m[i], "cond.value", "epoch %zu of %zu: %d (kind %d start %d stride %d)", i, m.size(), int(v(i)), kind, at, st); ev("cond.values"); }
	nntl::vector_conditions mv(std::move(v)); for (size_t i = 0; i < m.size(); ++i) VCHECK(mv(i) == m[i], "cond.moved", "%zu", i);
	seen("cond", kind, st, n);
}

// ---------------------------------------------------------------- per layer settings
void ls_case(R& r) {
	std::string def = "d0"; U::layer_settings<std::string> s(def); std::map<int, std::string> m;
	for (int k = r.in(2, 25); k-- > 0;) {
		const int o = r.below(3);
		if (o == 0) { def = "d" + std::to_string(r.below(100)); auto& q = s.set_default(def); VCHECK(&q == &s, "sett.self", "set_default() returns another object"); }
		else if (o == 1) { const int i = r.below(6); m[i] = "s" + std::to_string(r.below(1000)); s.add(nntl::layer_index_t(i), m[i]); }
		else { for (int i = 0; i < 8; ++i) { const std::string& g = s.get(nntl::layer_index_t(i)); const std::string& ex = m.count(i) ? m[i] : def; VCHECK(g == ex && s[nntl::layer_index_t(i)] == ex, "sett.get", "layer %d: %s vs %s", i, g.c_str(), ex.c_str()); ev("sett.reads"); } }
		VCHECK(s.get_default() == def, "sett.default", "%s", s.get_default().c_str());
		size_t n = 0; std::multiset<std::string> seen_; s.for_each([&](std::string& x) { ++n; seen_.insert(x); });
		std::multiset<std::string> ex; ex.insert(def); for (auto& e : m) ex.insert(e.second);
		VCHECK(seen_ == ex, "sett.for_each", "%zu settings visited, %zu exist", n, ex.size());
		seen("sett", o, int(m.size()));
	}
}

// ---------------------------------------------------------------- layer index stack
void lik_case(R& r) {
	U::layer_idx_keeper<unsigned, 777u, 40> k; std::vector<unsigned> m;
	for (int q = r.in(5, 60); q-- > 0;) {
		if (m.size() < 39 && (m.empty() || r.chance(60))) { unsigned v = (!m.empty() && r.chance(50)) ? m.back() : r.below(4); m.push_back(v); if (r.b()) k.push(v); else k.push(std::move(v)); }
		else { m.pop_back(); k.pop(); }
		VCHECK(k.size() == m.size(), "idx.size", "%zu vs %zu", size_t(k.size()), m.size());
		VCHECK(k.top() == (m.empty() ? 777u : m.back()) && unsigned(k) == k.top(), "idx.top", "%u", k.top());
		VCHECK(k.bUpperLayerDifferent() == (m.size() < 2 || m[m.size() - 1] != m[m.size() - 2]), "idx.upper", "%zu", m.size());
		if (!m.empty()) { size_t nl = 0; for (size_t i = 2; i <= m.size() && m[m.size() - i] == m.back(); ++i) ++nl; VCHECK(k.nestingLevel() == nl, "idx.nesting", "%zu vs %zu", size_t(k.nestingLevel()), nl); seen("idx", int(nl), int(m.size())); }
		ev("idx.steps");
	}
	while (!m.empty()) { m.pop_back(); k.pop(); }
}

// ---------------------------------------------------------------- tuple iteration
void tup_case(R& r) {
	namespace T = nntl::tuple_utils;
	std::tuple<int, long, double, char> t{ r.in(0, 9), r.in(10, 19), double(r.in(20, 29)), char(r.in(30, 39)) }; const auto& ct = t;
	const std::vector<long> a{ std::get<0>(t), std::get<1>(t), long(std::get<2>(t)), long(std::get<3>(t)) };
	std::vector<long> g; auto f = [&](auto& e) { g.push_back(long(e)); };
	auto chk = [&](const char* w, std::vector<long> ex) { VCHECK(g == ex, "tuple.order", "%s visits %zu elements", w, g.size()); g.clear(); ev("tuple.walks"); seen(w); };
	T::for_each_up(t, f); chk("for_each_up", a); T::for_each_up(ct, f); chk("for_each_up const", a);
	T::for_each_down(t, f); chk("for_each_down", { a[3], a[2], a[1], a[0] });
	T::for_each_exc_last_up(t, f); chk("for_each_exc_last_up", { a[0], a[1], a[2] });
	T::for_each_exc_first_up(t, f); chk("for_each_exc_first_up", { a[1], a[2], a[3] });
	T::for_each_exc_first_down(t, f); chk("for_each_exc_first_down", { a[3], a[2], a[1] });
	T::for_eachwp_up(t, [&](auto& e, auto& p, bool first) { g.push_back(long(e) * 1000 + long(p) * 10 + first); });
	chk("for_eachwp_up", { a[1] * 1000 + a[0] * 10 + 1, a[2] * 1000 + a[1] * 10, a[3] * 1000 + a[2] * 10 });
	T::for_each_up(t, [](auto& e) { e = e + 1; }); VCHECK(std::get<0>(t) == a[0] + 1 && long(std::get<3>(t)) == a[3] + 1, "tuple.mutate", "-");
	auto st = T::subtuple_trim_tail<2>(t); static_assert(std::is_same<decltype(st), std::tuple<int, long>>::value, ""); VCHECK(std::get<1>(st) == std::get<1>(t), "tuple.sub", "-");
	static_assert(std::is_same<T::remove_last_n<2, int, char, bool, int>::type, std::tuple<int, char>>::value, "");
	VCHECK(T::get_element_idx<double>(t) == 2 && T::get_element_idx<float>(t) == 4 && (T::tuple_element_idx_safe<char, std::tuple<int, char, char>>::value == 1) && (T::tuple_element_idx_safe<long, std::tuple<int, char>>::value == 2), "tuple.index", "-");
	static_assert(T::is_tuple<const std::tuple<int>>::value && !T::is_tuple<int>::value, "");
	std::tuple<int> one{ 5 }; T::for_each_up(one, f); chk("one up", { 5 }); T::for_each_down(one, f); chk("one down", { 5 });
	auto gcd = U::make_y_combinator([](auto&& self, int x, int y)->int { return y == 0 ? x : self(y, x%y); });
	const int x = r.in(1, 5000), y = r.in(0, 5000); int q = x, w = y; while (w) { int z = q % w; q = w; w = z; } VCHECK(gcd(x, y) == q, "ycomb", "%d %d", x, y);
	int n = 0; { U::scope_exit e([&] { ++n; }); VCHECK(n == 0, "scope_exit.early", "%d", n); try { U::scope_exit e2([&] { n += 10; }); if (r.b()) throw 1; } catch (int) {} VCHECK(n == 10, "scope_exit.throw", "%d", n); } VCHECK(n == 11, "scope_exit.once", "%d", n); ev("scope_exit", 2);
}

// ---------------------------------------------------------------- confusion matrix
void cm_case(R& r) {
	typedef U::ConfusionMtx<double> CM; const int parts = r.in(1, 5); std::vector<CM> p(parts); long tp = 0, tn = 0, fp = 0, fn = 0; const long big = r.chance(40) ? 1 : 0;
	for (auto& c : p) {
		c.clear();
		for (int i = r.in(0, 60); i-- > 0;) { const bool g = r.b(), m = r.chance(60); c.update(g, m); (g ? (m ? tp : fn) : (m ? fp : tn))++; }
		if (big) { const int a = r.in(0, 90000000), b = r.in(0, 90000000); c.truePosCnt() += a; tp += a; c.trueNegCnt() += b; tn += b; c.falsePosCnt() += a / 3; fp += a / 3; c.falseNegCnt() += b / 7; fn += b / 7; }
	}
	CM c; c.reduce(&p[0], parts);
	VCHECK(c.TP() == tp && c.TN() == tn && c.FP() == fp && c.FN() == fn && c.AllCnt() == tp + tn + fp + fn, "cm.counts", "%d %d %d %d", int(c.TP()), int(c.TN()), int(c.FP()), int(c.FN()));
	VCHECK(c.TotalPosCnt() == tp + fp && c.TotalNegCnt() == tn + fn && c.DataPosCnt() == tp + fn && c.DataNegCnt() == tn + fp, "cm.sums", "-");
	CM d = c; VCHECK(d == c, "cm.eq", "-"); d += c; VCHECK(d.TP() == 2 * tp && d.FN() == 2 * fn, "cm.add", "-");
	auto near_ = [&](const char* w, double a, double b) { if (std::isnan(b)) return; VCHECK(std::fabs(a - b) <= 1e-9*(1 + std::fabs(b)), "cm.metric", "%s: %.12g vs %.12g (tp %ld tn %ld fp %ld fn %ld)", w, a, b, tp, tn, fp, fn); ev("cm.metrics"); };
	const double TP = tp, TN = tn, FP = fp, FN = fn;
	near_("sensitivity", c.Sensitivity(), TP / (TP + FN)); near_("recall", c.Recall(), TP / (TP + FN)); near_("tpr", c.TPR(), TP / (TP + FN)); near_("specificity", c.Specificity(), TN / (TN + FP)); near_("tnr", c.TNR(), TN / (TN + FP));
	near_("precision", c.Precision(), TP / (TP + FP)); near_("ppv", c.PPV(), TP / (TP + FP)); near_("npv", c.NPV(), TN / (TN + FN)); near_("accuracy", c.Accuracy(), (TP + TN) / (TP + TN + FP + FN));
	near_("informedness", c.Informedness(), TP / (TP + FN) + TN / (TN + FP) - 1); near_("markedness", c.Markedness(), TP / (TP + FP) + TN / (TN + FN) - 1);
	const double den = std::sqrt(TP + FP)*std::sqrt(TP + FN)*std::sqrt(TN + FP)*std::sqrt(TN + FN); near_("mcc", c.MCC(), den > 0 ? (TP*TN - FP * FN) / den : 0.);
	near_("jaccard", c.Jaccard(), TP / (TP + FP + FN)); near_("f1", c.F1Score(), 2 * TP / (2 * TP + FP + FN)); const double b = r.uni(.1, 4); near_("fbeta", c.FBetaScore(b), (1 + b * b)*TP / ((1 + b * b)*TP + FP + b * b*FN));
	seen("cm", big, tp > 0, tn > 0, fp > 0, fn > 0);
}

// ---------------------------------------------------------------- durations
template<typename D> void dur_case(R& r, double unit) {
	const double mag = r.uni(0, 15); const long long cnt = (long long)std::pow(10., std::min(mag, 17 - std::log10(1 / unit > 1 ? 1. : 1.))); const uint64_t reps = r.b() ? 1 : r.in(1, 5000);
	double single = -1; const std::string s = U::duration_readable(D(cnt), reps, &single);
	VCHECK(std::fabs(single - double(cnt) / reps) <= 1e-9*single, "dur.single", "%g", single);
	double v; char u[16] = ""; const int n = sscanf(s.c_str(), "%lf %15s", &v, u); const std::string us = u;
	const double k = us == "s" ? 1. : us == "ms" ? 1e-3 : us == "us" ? 1e-6 : us == "ns" ? 1e-9 : -1;
	VCHECK(n == 2 && k > 0, "dur.format", "'%s'", s.c_str());
	const double sec = double(cnt) / reps * unit;
	VCHECK(std::fabs(v*k - sec) <= 0.00051*k + 1e-6*sec, "dur.value", "'%s' for %.9g s", s.c_str(), sec); ev("dur.shown"); seen("dur", int(unit * 1e9), int(mag), int(k * 1e9));
}
void tt_case(R& r) {
	U::tictoc t; VCHECK(t.to_string() == "never run!", "tictoc.never", "%s", t.to_string().c_str());
	long long first = 0, best = std::numeric_limits<long long>::max(), all = 0; const int n = r.in(1, 9);
	for (int i = 0; i < n; ++i) { const long long d = r.in(1, 1000000); t.store(std::chrono::nanoseconds(d)); if (!i) first = d; best = std::min(best, d); all += d; }
	VCHECK(t.m_dFirstRun.count() == first && t.m_dBestRun.count() == best && t.m_dAllRun.count() == all && t.m_repeats == uint64_t(n), "tictoc.stats", "%lld %lld %lld", (long long)t.m_dFirstRun.count(), (long long)t.m_dBestRun.count(), (long long)t.m_dAllRun.count()); ev("tictoc");
}

// ---------------------------------------------------------------- options
enum E5 { o0, o1, o2, o3, o4, total_options };
struct with_opts : public U::binary_options<E5> {}; struct no_opts {};
void opt_case(R& r) {
	with_opts w; std::vector<bool> m(5, false); for (int i = 0; i < 5; ++i) { const bool b = r.b(); w.m_binary_options[i] = b; m[i] = b; }
	for (int i = 0; i < 5; ++i) { VCHECK(U::binary_option<false>(w, E5(i)) == m[i] && U::binary_option<true>(w, E5(i)) == m[i], "opt.get", "%d", i); ev("opt.reads"); }
	VCHECK(U::binary_option<true>(no_opts(), 3) && !U::binary_option<false>(no_opts(), 3), "opt.default", "-");
	w.turn_on_all_options(); for (int i = 0; i < 5; ++i) VCHECK(U::binary_option<false>(w, E5(i)), "opt.all_on", "%d", i);
	w.turn_off_all_options(); for (int i = 0; i < 5; ++i) VCHECK(!U::binary_option<true>(w, E5(i)), "opt.all_off", "%d", i);
	// option storage of mixins: every (mixin, option) pair has a bit of its own
	typedef boost::mpl::vector_c<std::size_t, 3, 2, 4> cnts; typedef U::mixins::make_cumsum_vec_c<cnts> ofs;
	static_assert(U::mixins::get_cumsum<cnts>::value == 9, "");
	U::mixins::binary_options_storage<ofs, 9> st; bool mm[3][4] = {}; const int lim[3] = { 3, 2, 4 };
	for (int k = 0; k < 30; ++k) {
		const int i = r.below(3), o = r.below(lim[i]); const bool b = r.b(); mm[i][o] = b;
		if (i == 0) st.template set<0>(o, b); else if (i == 1) st.template set<1>(o, b); else st.template set<2>(o, b);
		for (int a = 0; a < 3; ++a) for (int c = 0; c < lim[a]; ++c) { const bool g = a == 0 ? st.template get<0>(c) : a == 1 ? st.template get<1>(c) : st.template get<2>(c); VCHECK(g == mm[a][c], "opt.mixin", "option %d of mixin %d changed with option %d of mixin %d", c, a, o, i); ev("opt.mixin_reads"); }
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	group("fwd", 150, [](R& r, int) {
		fwd_case<U::cmcforwarder<int(int, int&), 2 * sizeof(void*)>, 2 * sizeof(void*), U::cmcforwarderWrapper<2 * sizeof(void*)>>(r, "cmc16");
		fwd_case<U::forwarder<int(int, int&)>, 4 * sizeof(void*), U::forwarderWrapper<>>(r, "fwd32");
		fwd_case<U::cmcforwarder<int(int, int&), 8 * sizeof(void*)>, 8 * sizeof(void*), U::cmcforwarderWrapper<8 * sizeof(void*)>>(r, "cmc64");
	});
	group("own", 40, [](R& r, int) { own_case(r); });
	group("bwlist", 200, [](R& r, int) { bw_case(r); });
	group("cond", 300, [](R& r, int) { vc_case(r); });
	group("setts", 150, [](R& r, int) { ls_case(r); });
	group("lidx", 100, [](R& r, int) { lik_case(r); });
	group("tuple", 60, [](R& r, int) { tup_case(r); });
	group("cm", 300, [](R& r, int) { cm_case(r); });
	group("dur", 300, [](R& r, int) { dur_case<std::chrono::nanoseconds>(r, 1e-9); dur_case<std::chrono::microseconds>(r, 1e-6); dur_case<std::chrono::milliseconds>(r, 1e-3); dur_case<std::chrono::seconds>(r, 1.); });
	group("tictoc", 40, [](R& r, int) { tt_case(r); });
	group("opt", 40, [](R& r, int) { opt_case(r); });
	return done();
}
