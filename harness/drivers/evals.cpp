// evaluators and the stdcout observers: what they count and print against a tally of the reported activations
#include <iostream>
#define STDCOUT(args) do { ::std::cout << args; } while(0)
#define STDCOUTL(args) do { ::std::cout << args << ::std::endl; } while(0)
#define VH_STDCOUT
#include "mathcommon.h"
#include "nntl/layers.h"
#include "nntl/nnet.h"
#include <sstream>
#include <regex>
using namespace vh;
typedef _nnet_errs::ErrorCode EC;
template<typename T> struct I : dt_interfaces<T> { typedef inspector::dummy<T> iInspect_t; };
template<typename T> struct TD3 final : _inmem_train_data<TD3<T>, T, T> {// a third data set
	typedef _inmem_train_data<TD3<T>, T, T> B; typename B::x_mtxdef_t x3; typename B::y_mtxdef_t y3;
	data_set_id_t datasets_count()const noexcept { return 3; }
	numel_cnt_t dataset_samples_count(data_set_id_t d)const noexcept { return d == 2 ? x3.rows() : B::dataset_samples_count(d); }
	const typename B::x_mtxdef_t& X(data_set_id_t d)const noexcept { return d == 2 ? x3 : B::X(d); } const typename B::y_mtxdef_t& Y(data_set_id_t d)const noexcept { return d == 2 ? y3 : B::Y(d); }
	typename B::x_mtxdef_t& X_mutable(data_set_id_t d) noexcept { return d == 2 ? x3 : B::X_mutable(d); } typename B::y_mtxdef_t& Y_mutable(data_set_id_t d) noexcept { return d == 2 ? y3 : B::Y_mutable(d); }
};
struct Cap { std::ostringstream s; std::streambuf* o; Cap() { o = std::cout.rdbuf(s.rdbuf()); } ~Cap() { std::cout.rdbuf(o); } std::string take() { const auto r = s.str(); s.str(""); return r; } };
static Cap* g_cap;
template<typename T> struct BinE : eval_classification_binary_cached<T> { static constexpr bool hot = false; T thr()const { return this->threshold(); } };
template<typename T> struct HotE : eval_classification_one_hot_cached<T> { static constexpr bool hot = true; T thr()const { return 0; } };
template<typename T, typename E> struct Obs : training_observer_stdcout<T, E> {
	typedef training_observer_stdcout<T, E> B; std::map<int, std::pair<nc, nc>> t; int cur = -1; numel_cnt_t ep = 0; int frags = 0; double lastLoss[3] = { 0,0,0 }; std::vector<T>* pooled = nullptr;
	template<typename TD, typename CD> bool init(numel_cnt_t e, TD& td, const CD& cd)noexcept { ep = e; return B::init(e, td, cd); }
	void report_results_begin(const data_set_id_t d, const numel_cnt_t n)noexcept { cur = int(d); t[cur] = { 0, 0 }; g_cap->take(); B::report_results_begin(d, n); }
	template<typename YT, typename CD> void report_results(const numel_cnt_t b, const math::smatrix<T>& a, const math::smatrix<YT>& y, const CD& cd)noexcept {
		const T th = this->m_evaluator.thr(); auto& q = t[cur];
		for (vl i = 0; i < y.rows(); ++i) {
			if (E::hot) { vl p = 0, g = 0; for (vl j = 1; j < y.cols(); ++j) { if (a.get(i, j) > a.get(i, p)) p = j; if (y.get(i, j) > y.get(i, g)) g = j; } ++q.first; q.second += p == g; }
			else for (vl j = 0; j < y.cols(); ++j) { ++q.first; q.second += (a.get(i, j) > th) == (y.get(i, j) > th); }
		}
		const auto a0 = snap(a), y0 = snap(y); B::report_results(b, a, y, cd); if (!same_bits(a0, a.data()) || !same_bits(y0, y.data())) viol("eval.const", "the evaluator changed its arguments"); ev("eval.batches");
	}
	void report_results_end(const T l)noexcept {
		B::report_results_end(l); const auto& q = this->m_classifRes[cur]; if (q.totalElements != t[cur].first || q.correctlyClassif != t[cur].second) viol("eval.count", "set %d: %lld of %lld counted as correct, expected %lld of %lld", cur, (long long)q.correctlyClassif, (long long)q.totalElements, (long long)t[cur].second, (long long)t[cur].first);
		ev("eval.sets"); lastLoss[cur] = l;
		const std::string s = g_cap->take();
		if (cur < 2) { if (s.size()) viol("eval.print", "set %d printed %s", cur, s.c_str()); } else { std::smatch m; if (!std::regex_search(s, m, std::regex("^!Unknown!2: Loss=\\s*(\\S+), Err=(\\S+)% \\((\\d+)\\)"))) viol("eval.print", "unreadable report '%s'", s.c_str()); else { num("loss", m[1], l, .001); num("error", m[2], 100. * (t[2].first - t[2].second) / t[2].first, .011); num("wrong", m[3], double(t[2].first - t[2].second), 0); ev("eval.other_sets"); } }
	}
	void num(const char* w, const std::string& s, double e, double tol) { const double g = atof(s.c_str()); if (std::isnan(e) ? !std::isnan(g) && s.find("nan") == std::string::npos : !(std::fabs(g - e) <= tol + 2e-5*std::fabs(e)) && !(std::isinf(e) && std::isinf(g))) viol("eval.print", "%s printed as '%s', it is %.9g", w, s.c_str(), e); ev("eval.numbers"); }
	void on_training_fragment_end(const numel_cnt_t e, const T tr, const T te, const std::chrono::nanoseconds& ns)noexcept {
		g_cap->take(); B::on_training_fragment_end(e, tr, te, ns); const std::string s = g_cap->take(); ++frags; ev("eval.fragments");
		std::smatch m; if (!std::regex_search(s, m, std::regex("^\\s*(\\d+)/(\\d+)\\s+\\S+s trL=\\s*(\\S+), trErr=(\\S+)% \\((\\d+)\\), vL=\\s*(\\S+), vErr=(\\S+)% \\((\\d+)\\)"))) { viol("eval.print", "unreadable report '%s'", s.c_str()); return; }
		num("epoch", m[1], double(e + 1), 0); num("epochs", m[2], double(ep), 0); num("train loss", m[3], tr, .001); num("train error", m[4], 100. * (t[0].first - t[0].second) / t[0].first, .011); num("train wrong", m[5], double(t[0].first - t[0].second), 0);
		num("test loss", m[6], te, .001); num("test error", m[7], 100. * (t[1].first - t[1].second) / t[1].first, .011); num("test wrong", m[8], double(t[1].first - t[1].second), 0);
		if (this->m_lastTrainErr != tr || this->m_lastTestErr != te) if (!std::isnan(tr + te)) viol("eval.last", "last losses %g/%g instead of %g/%g", (double)this->m_lastTrainErr, (double)this->m_lastTestErr, (double)tr, (double)te);
	}
};
template<typename T> struct SObs : training_observer_simple_stdcout<T> {
	typedef training_observer_simple_stdcout<T> B; numel_cnt_t ep = 0;
	template<typename TD, typename CD> bool init(numel_cnt_t e, TD& td, const CD& cd)noexcept { ep = e; return B::init(e, td, cd); }
	void on_training_fragment_end(const numel_cnt_t e, const T tr, const T te, const std::chrono::nanoseconds& ns)noexcept {
		g_cap->take(); B::on_training_fragment_end(e, tr, te, ns); const std::string s = g_cap->take(); ev("eval.simple_fragments"); std::smatch m;
		if (!std::regex_search(s, m, std::regex("^\\s*(\\d+)/(\\d+)\\s+\\S+s trL=\\s*(\\S+), vL=\\s*(\\S+)"))) { viol("eval.print", "unreadable report '%s'", s.c_str()); return; }
		auto num = [&](const std::string& q, double x, double tol) { const double g = atof(q.c_str()); if (!(std::fabs(g - x) <= tol + 1e-5*std::fabs(x)) && !(std::isinf(x) && std::isinf(g)) && !(std::isnan(x) && std::isnan(g))) viol("eval.print", "printed '%s', it is %.9g", q.c_str(), x); };
		num(m[1], double(e + 1), 0); num(m[2], double(ep), 0); num(m[3], tr, 1e-5); num(m[4], te, 1e-5);
	}
};
template<typename T> void fillxy(R& r, M<T>& X, M<T>& Y, bool hot) {
	for (vl c = 0; c < X.cols_no_bias(); ++c) for (vl q = 0; q < X.rows(); ++q) X.set(q, c, T(r.uni(-1.5, 1.5)));
	const bool ties = r.chance(20); for (vl q = 0; q < Y.rows(); ++q) { const int one = r.below(Y.cols()); for (vl c = 0; c < Y.cols(); ++c) Y.set(q, c, hot ? T(int(c) == one || (ties && r.chance(20))) : T(r.b())); }
}
template<typename T, typename TD> bool mk(R& r, TD& td, int n1, int n2, int nx, int ny, bool hot) { M<T> a(n1, nx, true), b(n1, ny), c(n2, nx, true), d(n2, ny); fillxy<T>(r, a, b, hot); fillxy<T>(r, c, d, hot); return td.absorb(std::move(a), std::move(b), std::move(c), std::move(d)); }
template<typename T> void add3(R& r, TD3<T>& td, int nx, int ny, bool hot) { const int n = r.in(1, 40); td.x3 = typename TD3<T>::B::x_mtxdef_t(n, nx, true); td.y3 = typename TD3<T>::B::y_mtxdef_t(n, ny); fillxy<T>(r, td.x3, td.y3, hot); }
template<typename T> void add3(R&, inmem_train_data<T>&, int, int, bool) {}
template<typename E> void setThr(R& r, E& e, std::true_type) { if (r.chance(60)) e.set_threshold(r.uni(.2, .8)); } template<typename E> void setThr(R&, E&, std::false_type) {}
template<typename T, typename E, typename TD> void run(R& r) {
	const int nx = r.in(1, 10), ny = r.in(1, 7), h = r.in(1, 10), N = r.in(1, 60), N2 = r.in(1, 60); TD td; if (!mk<T>(r, td, N, N2, nx, ny, E::hot)) { viol("eval.td", "absorb"); return; } add3(r, td, nx, ny, E::hot);
	layer_input<I<T>> inp(nx); LFC<activation::sigm<T, weights_init::XavierFour>, grad_works<I<T>>> fc(h, T(r.uni(.1, 2))); layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, grad_works<I<T>>> out(ny, T(r.uni(.1, 2))); auto lp = make_layers(inp, fc, out); auto nn = make_nnet(lp); nn.get_iRng().seed64(r.u64() >> 1);
	for (int k = r.in(1, 3); k-- > 0;) {
		const int ep = r.in(1, 4); nnet_train_opts<T, Obs<T, E>> opts{ nc(ep) }; const vl bs = r.in(1, N); opts.batchSize(bs); if (r.b()) opts.maxFpropSize(r.in(int(bs), std::max({ int(bs), N, N2 }) + 3)); opts.ImmediatelyDeinit(r.chance(30)); setThr(r, opts.observer().m_evaluator, std::integral_constant<bool, !E::hot>());
		char b[120]; snprintf(b, sizeof(b), "N %d/%d ny %d bs %d maxF %d", N, N2, ny, int(bs), int(opts.maxFpropSize())); note(b); seen("eval", E::hot, ny == 1, N % bs == 0, opts.maxFpropSize() > 0, k, sizeof(T)); sample("%s", b);
		const EC ec = nn.train(td, opts, [&](size_t) { if (td.datasets_count() > 2 && r.b()) nn.calcLossAndReport(td, 2, opts.observer()); return true; });
		if (ec != EC::Success || opts.observer().frags != ep + 1) viol("eval.train", "code %d, %d reports", int(ec), opts.observer().frags); ev("eval.sessions");
	}
	td.deinit4all();
}
// losses of any magnitude are reported
template<typename T> void magn(R& r) {
	const auto val = [&]() { const int k = r.below(10); return k == 0 ? T(0) : k == 1 ? std::numeric_limits<T>::max() : k == 2 ? std::numeric_limits<T>::infinity() : k == 3 ? std::numeric_limits<T>::min() : T(std::pow(10., r.uni(-10, std::numeric_limits<T>::max_exponent10 - 1))); };
	inmem_train_data<T> td; const int n = r.in(2, 9); if (!mk<T>(r, td, n, n, 2, 2, true)) return;
	layer_input<I<T>> inp(2); layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, grad_works<I<T>>> out(2, T(.1)); auto lp = make_layers(inp, out); auto nn = make_nnet(lp); nn.get_iRng().seed64(r.u64() >> 1);
	nnet_train_opts<T, Obs<T, HotE<T>>> o1{ nc(1) }; nnet_train_opts<T, SObs<T>> o2{ nc(1) }; o1.batchSize(n); o2.batchSize(n);
	nn.train(td, o1, [&](size_t) { for (int i = 0; i < 3; ++i) { const T a = val(), b = val(); char s[80]; snprintf(s, sizeof(s), "losses %g %g", (double)a, (double)b); note(s); o1.observer().on_training_fragment_end(1 + r.below(100000), a, b, std::chrono::nanoseconds(r.u64() >> 20)); ev("eval.magnitudes"); } return true; });
	nn.train(td, o2, [&](size_t) { for (int i = 0; i < 3; ++i) { const T a = val(), b = val(); char s[80]; snprintf(s, sizeof(s), "losses %g %g", (double)a, (double)b); note(s); o2.observer().on_training_fragment_end(1 + r.below(100000), a, b, std::chrono::nanoseconds(r.u64() >> 20)); ev("eval.magnitudes"); } return true; });
	td.deinit4all();
}
int main(int argc, char** argv) {
	init(argc, argv); 
	for (unsigned hc : { 2u, 4u }) {
		g_hc = hc; auto nm = [&](const char* s) { return std::string(s) + std::to_string(hc); }; auto w = [](void(*f)(R&)) { return [f](R& r, int) { Cap c; g_cap = &c; f(r); }; };
		group(nm("hot.d").c_str(), 40, w(run<double, HotE<double>, inmem_train_data<double>>)); group(nm("hot.f").c_str(), 40, w(run<float, HotE<float>, TD3<float>>));
		group(nm("bin.d").c_str(), 40, w(run<double, BinE<double>, TD3<double>>)); group(nm("bin.f").c_str(), 40, w(run<float, BinE<float>, inmem_train_data<float>>));
		group(nm("magn.f").c_str(), 20, w(magn<float>)); group(nm("magn.d").c_str(), 20, w(magn<double>));
	}
	return done();
}
