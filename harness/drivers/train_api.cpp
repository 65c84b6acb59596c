// the training API: sessions, refusals, callbacks that use the network, reproducibility
#include "netcommon.h"
#include <unistd.h>
#include "perturb.h"
#include <fenv.h>
typedef _nnet_errs::ErrorCode EC;
template<typename T, typename L> void fin(Mon<T>& m, ROut<T, L>& o) { m.setY = [&o](const LM& y) { o.Y = y; }; m.loss = [&o](const LM& a, const LM& y) { return o.loss(a, y); }; }
template<typename T> struct Net {
	typedef activation::sigm<T, weights_init::XavierFour> A; typedef LFC<A, GWN<T>> FC; typedef layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, GWN<T>> OL;
	layer_input<NI<T>> inp; FC fc; OL out; Net(int nx, int h, int ny, T a, T b) : inp(nx), fc(h, a), out(ny, b) {}
};
template<typename T> void sessions(R& r, bool reenter) {
	const int nx = r.in(1, 8), h = r.in(1, 8), ny = r.in(1, 4); const T a = T(r.uni(.05, .6)), b = T(r.uni(.05, .6)); Net<T> n(nx, h, ny, a, b); auto lp = make_layers(n.inp, n.fc, n.out);
	RInput<T> ri; RFC<T, typename Net<T>::FC> rf(n.fc, r_sigm(), a); ROut<T, typename Net<T>::OL> ro(n.out, OutK::sigm_xe, b);
	if (r.chance(40)) { rf.l2 = T(r.uni(.01, .1)); rf.l2b = r.b(); n.fc.get_gradWorks().L2(rf.l2, rf.l2b); }
	Mon<T> m; m.setup({ &ri, &rf, &ro }); fin(m, ro); DriveOpt o; o.actions = r.in(2, 7); o.maxN = r.pick({ 6, 20, 40 }); o.maxEpochs = r.pick({ 2, 6 }); o.api = true; o.reenter = reenter ? 60 : 0; drive<T>(r, lp, m, DataSpec{ OutK::sigm_xe, nx, ny }, o);
}
// refused sessions change nothing, and the next good session works
template<typename T> void refusals(R& r) {
	const int nx = r.in(1, 8), h = r.in(1, 8), ny = r.in(1, 4); Net<T> n(nx, h, ny, T(.1), T(.1)); auto lp = make_layers(n.inp, n.fc, n.out);
	RInput<T> ri; RFC<T, typename Net<T>::FC> rf(n.fc, r_sigm(), T(.1)); ROut<T, typename Net<T>::OL> ro(n.out, OutK::sigm_xe, T(.1)); Mon<T> m; m.setup({ &ri, &rf, &ro }); fin(m, ro);
	MonInsp<T> insp; insp.m = &m; auto nn = make_nnet(lp, insp); nn.get_iRng().seed64(r.u64() >> 1);
	std::vector<T> w0; bool have = false;
	for (int k = r.in(2, 6); k-- > 0;) {
		m.ph = Mon<T>::idle; m.st.clear(); m.epochIdx = -1; m.batchIdx = -1; m.nEpochs = 0; m.nInit = 0;
		const int N = r.in(1, 20), N2 = r.in(1, 20), kind = r.below(5); inmem_train_data<T> td; EC want = EC::Success; vl bs = r.in(1, N);
		int ax = nx, ay = ny;
		if (kind == 1) { ax = r.pick({ nx + 1, nx + 3, std::max(1, nx - 1) }); if (ax != nx) want = EC::InvalidInputLayerNeuronsCount; }
		else if (kind == 2) { ay = r.pick({ ny + 1, std::max(1, ny - 1), ny + 5 }); if (ay != ny) want = EC::InvalidOutputLayerNeuronsCount; }
		else if (kind == 3) want = EC::InvalidTD;
		else if (kind == 4) { bs = N + r.in(1, 5); want = EC::InvalidBatchSize2MaxFPropSizeRelation; }// any failure code
		if (kind != 3 && !mkTD<T>(r, td, N, N2, DataSpec{ OutK::sigm_xe, ax, ay })) { viol("train.td", "can't absorb"); return; }
		char b[100]; snprintf(b, sizeof(b), "refusal kind %d N %d/%d bs %d", kind, N, N2, int(bs)); note(b); seen("refuse", kind, ax < nx, ay < ny, have);
		nnet_train_opts<T, MonObs<T>> opts(nc(2)); opts.batchSize(bs); auto& ob = opts.observer(); ob.m = &m; opts.ImmediatelyDeinit(r.b()); int cbs = 0, ini = 0; insp.act = r.b(); const bool a0 = insp.act;
		const EC ec = nn.train(td, opts, [&](size_t) { ++cbs; return true; }, [&]() { ++ini; return EC::Success; });
		if (insp.act != a0) viol("train.inspector", "a session with code %d left the inspector %s", int(ec), insp.act ? "on" : "off"); insp.act = true;
		if (nn.get_last_error() != ec) viol("train.code", "last error %d differs from the code %d", int(nn.get_last_error()), int(ec));
		if (want == EC::Success) { if (ec != EC::Success || m.nEpochs != 2 || cbs != 2 || ini != 1) viol("train.code", "good session: code %d, %lld epochs", int(ec), m.nEpochs); ev("train.good_after"); }
		else {
			if (kind == 4 ? ec == EC::Success && ob.bs > N : ec != want) viol("train.refuse", "kind %d: code %d instead of %d", kind, int(ec), int(want));
			if (ec != EC::Success && (m.nEpochs || cbs || ini || ob.nInit || (have && snap(n.fc.get_weights()) != w0))) viol("train.refuse", "kind %d, code %d: %lld epochs, %d callbacks, %d init callbacks, %d observers", kind, int(ec), m.nEpochs, cbs, ini, ob.nInit);
			if (std::strlen(nn.get_last_error_str()) == 0 || nn.get_last_error_string().find(nn.get_last_error_str()) == std::string::npos) viol("train.refuse", "no description of code %d", int(ec));
			ev("train.refusals");
		}
		if (have || ini) { w0 = snap(n.fc.get_weights()); have = true; }
		td.deinit4all();
	}
}
#ifdef NDEBUG
// a network that blows up is reported as diverged, even when the loss is not a number any more
template<typename T> void blowup(R& r) {
	struct I : dt_interfaces<T> { typedef inspector::dummy<T> iInspect_t; };
	const int nx = r.in(2, 6), ny = r.in(1, 3), N = r.in(5, 20), ep = r.in(20, 60); layer_input<I> inp(nx); layer_output<activation::identity_quad_loss<T>, grad_works<I>> out(ny, r.b() ? T(r.uni(1e3, 1e9)) : std::numeric_limits<T>::max() * T(r.u01())); auto lp = make_layers(inp, out); auto nn = make_nnet(lp); nn.get_iRng().seed64(r.u64() >> 1);
	M<T> xa(N, nx, true), ya(N, ny), xb(N, nx, true), yb(N, ny); mkXY<T>(r, xa, ya, DataSpec{ OutK::ident_q, nx, ny }); mkXY<T>(r, xb, yb, DataSpec{ OutK::ident_q, nx, ny }); for (nc i = 0; i < ya.numel(); ++i) ya.data()[i] *= 1000;
	inmem_train_data<T> td; if (!td.absorb(std::move(xa), std::move(ya), std::move(xb), std::move(yb))) return;
	struct Obs : training_observer_silent<T> { std::vector<T> l; void on_training_fragment_end(const numel_cnt_t, const T tr, const T, const std::chrono::nanoseconds&)noexcept { l.push_back(tr); } };
	nnet_train_opts<T, Obs> opts(nc(ep + 0), nc(ep + 0)); opts.bReportOnlyTime(false); opts.batchSize(N); const T thr = std::numeric_limits<T>::infinity(); const bool useInf = r.b(); opts.divergenceCheckLastEpoch(int16_t(ep)).divergenceCheckThreshold(useInf ? thr : T(1e5));
	const EC ec = nn.train(td, opts); ev("train.blowups"); seen("blowup", useInf, sizeof(T));
	auto& l = opts.observer().l; size_t exp = l.size(); for (size_t i = 1; i < l.size(); ++i) if (!(l[i] < opts.divergenceCheckThreshold())) { exp = i; break; }
	if ((ec == EC::NNDiverged) != (exp < l.size())) viol("train.diverged", "code %d with losses %g .. %g of %zu reports, threshold %g", int(ec), l.size() > 1 ? (double)l[1] : 0., l.empty() ? 0. : (double)l.back(), l.size(), (double)opts.divergenceCheckThreshold());
	else if (exp + 1 < l.size()) viol("train.diverged", "%zu reports after the divergence", l.size() - exp - 1);
}
#endif
// the same seed, data and options give bit-identical results, whatever the schedule
template<typename T> std::vector<std::vector<T>> once(uint64_t seed, bool big, int pct, std::vector<T>& losses) {
	R r(seed); const int nx = big ? r.in(50, 120) : r.in(1, 8), h = big ? r.in(80, 200) : r.in(1, 10), ny = r.in(1, 5); Net<T> n(nx, h, ny, T(.1), T(.1)); auto lp = make_layers(n.inp, n.fc, n.out); MonInsp<T> insp; auto nn = make_nnet(lp, insp); nn.get_iRng().seed64(seed >> 1);
	const int N = big ? r.in(100, 300) : r.in(2, 40); inmem_train_data<T> td; if (!mkTD<T>(r, td, N, N / 2 + 1, DataSpec{ OutK::sigm_xe, nx, ny })) return {};
	struct Obs : training_observer_silent<T> { std::vector<T> l; void on_training_fragment_end(const numel_cnt_t, const T tr, const T te, const std::chrono::nanoseconds&)noexcept { l.push_back(tr); l.push_back(te); } };
	nnet_train_opts<T, Obs> opts(nc(big ? 1 : 3)); opts.bReportOnlyTime(false).batchSize(r.in(1 + N / 4, N)); 
	pert::arm(vh::mix(seed + pct), pct); const EC ec = nn.train(td, opts); pert::disarm(); if (ec != EC::Success) viol("train.repro", "code %d", int(ec));
	losses = opts.observer().l; std::vector<std::vector<T>> v{ snap(n.fc.get_weights()), snap(n.out.get_weights()) }; td.deinit4all(); return v;
}
template<typename T> void repro(R& r, bool big) {
	const uint64_t seed = r.u64(); std::vector<T> l1, l2; const auto a = once<T>(seed, big, 0, l1), b = once<T>(seed, big, r.pick({ 0, 10, 40 }), l2);
	if (a != b || l1 != l2 || l1.empty()) viol("train.repro", "two runs from one seed differ (weights %d, losses %d of %zu)", a != b, l1 != l2, l1.size()); ev("train.repros"); seen("repro", big, sizeof(T));
}
int main(int argc, char** argv) {
	init(argc, argv); pert::install();
	for (unsigned hc : { 2u, 4u }) {
		g_hc = hc; auto nm = [&](const char* s) { return std::string(s) + std::to_string(hc); };
		group(nm("api.d").c_str(), 60, [](R& r, int) { sessions<double>(r, false); }); group(nm("api.f").c_str(), 60, [](R& r, int) { sessions<float>(r, false); });
		group(nm("reenter.d").c_str(), 40, [](R& r, int) { sessions<double>(r, true); }); group(nm("reenter.f").c_str(), 40, [](R& r, int) { sessions<float>(r, true); });
		group(nm("refuse.d").c_str(), 60, [](R& r, int) { refusals<double>(r); });
		group(nm("repro.d").c_str(), 12, [](R& r, int) { repro<double>(r, false); }); group(nm("repro.f").c_str(), 12, [](R& r, int) { repro<float>(r, false); });
		group(nm("reprobig.f").c_str(), 3, [](R& r, int) { repro<float>(r, true); });
#ifdef NDEBUG
		group(nm("blowup.f").c_str(), 20, [](R& r, int) { blowup<float>(r); }); group(nm("blowup.d").c_str(), 20, [](R& r, int) { blowup<double>(r); });
#endif
	}
	return done();
}
