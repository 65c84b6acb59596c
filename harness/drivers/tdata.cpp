// training data: absorption, batching over epochs, walking over sets, the run-time transforming wrapper and dataHolder.
// Every sample carries its identity in its values, so an offline check of what has been served sees loss, duplication and mispairing.
#include "mathcommon.h"
#include "nntl/train_data.h"
#include "nntl/train_data/inmem_train_data.h"
#include "nntl/train_data/transf_train_data.h"
#include "nntl/utils/dataHolder.h"
using namespace vh;

template<typename T> struct Env {
	typedef dt_interfaces<T> I; typedef _impl::common_nn_data<I> CD;
	IM<T> iM; typename I::iRng_t rng; typename I::iInspect_t insp; bool blocked = false; CD cd;
	Env(uint64_t seed) : cd(iM, rng, insp, blocked) { if (I::iRng_t::is_multithreaded) rng.init_ithreads(iM.ithreads()); rng.seed64(seed); if (!iM.init()) viol("td.imath", "init failed"); }
	void sizes(vl f, vl b) { if (cd.is_initialized()) cd.deinit(); cd.init(f, b); }
};
template<typename T> T xval(int set, vl i, vl j) { return T(set * 3000 + i + 1) + T(j) / T(512); }
template<typename T> T yval(int set, vl i, vl j) { return T(set * 3000 + i + 1) - T(j + 1) / T(256); }
template<typename T> MD<T> mk(vl n, vl w, bool bias, bool inRow) {
	MD<T> m; m.set_batchInRow(inRow); if (bias) m.will_emulate_biases(); else m.dont_emulate_biases();
	if (!m.resize_as_dataset(n, w)) viol("td.alloc", "resize_as_dataset failed");
	return m;
}
template<typename T> T at(const M<T>& m, vl i, vl j) { return m.bBatchInRow() ? m.get(j, i) : m.get(i, j); }
template<typename T> void put(M<T>& m, vl i, vl j, T v) { if (m.bBatchInRow()) m.set(j, i, v); else m.set(i, j, v); }
template<typename T> void fillX(MD<T>& m, int set) { for (vl i = 0; i < m.batch_size(); ++i) for (vl j = 0; j < m.sample_size(); ++j) put<T>(m, i, j, xval<T>(set, i, j)); }
template<typename T> void fillY(MD<T>& m, int set) { for (vl i = 0; i < m.batch_size(); ++i) for (vl j = 0; j < m.sample_size(); ++j) put<T>(m, i, j, yval<T>(set, i, j)); }
// identity of the i-th sample of a batch of X, -1 when it is not an intact sample of that set
template<typename T> vl idX(const M<T>& m, int set, vl i, vl cnt) { const vl id = vl(std::floor((double)at(m, i, 0))) - set * 3000 - 1; if (id < 0 || id >= cnt) return -1; for (vl j = 0; j < m.sample_size(); ++j) if (at(m, i, j) != xval<T>(set, id, j)) return -1; return id; }
template<typename T> vl idY(const M<T>& m, int set, vl i, vl cnt) { const vl id = vl(std::ceil((double)at(m, i, 0))) - set * 3000 - 1; if (id < 0 || id >= cnt) return -1; for (vl j = 0; j < m.sample_size(); ++j) if (at(m, i, j) != yval<T>(set, id, j)) return -1; return id; }

template<typename XT, typename YT> struct Shadow {
	inmem_train_data<XT, YT> td; vl n[2], xw, yw; bool xr, yr; std::vector<XT> x[2]; std::vector<YT> y[2];
	void save() { for (int s = 0; s < 2; ++s) { x[s] = snap(td.X(s)); y[s] = snap(td.Y(s)); } }
	void intact(const char* after) { for (int s = 0; s < 2; ++s) if (!same_bits(x[s], td.X(s).data()) || !same_bits(y[s], td.Y(s).data())) viol("td.data_modified", "%s changed the stored data of set %d", after, s); }
};
template<typename XT, typename YT> void check_walk(R& r, Env<XT>& E, Shadow<XT, YT>& S, vl maxF, bool bMini, vl forced = 0) {
	auto& td = S.td; const int set = r.below(2); const vl N = S.n[set];
	vl bs; const int how = forced ? 2 : r.below(4);
	if (how == 0) bs = -1; else if (how == 1 && maxF <= 512) { bs = 0; } else bs = forced ? forced : bMini ? r.in(1, maxF) : maxF;
	vl eff = bs < 0 ? maxF : bs;
	if (bs == 0) { eff = bMini ? r.in(1, maxF) : maxF; E.cd.set_mode_and_batch_size(false, eff); }
	eff = std::min(eff, N);
	const unsigned excl = r.pick({ 0u, 0u, 0u, 1u, 2u });
	const nc cnt = how == 3 && eff == std::min(maxF, N) && !excl ? (set == 0 ? td.walk_over_train_set(E.cd) : td.walk_over_test_set(E.cd)) : td.walk_over_set(set, E.cd, bs, excl);
	seen("walk", set, how, N % eff == 1, N % eff == 0, N < eff, excl, S.xr, S.yr, bMini);
	if (cnt != (N + eff - 1) / eff) { viol("td.walk_batches", "%u samples by %u: %lld batches", N, eff, (long long)cnt); }
	vl pos = 0;
	for (nc b = 0; b < cnt; ++b) {
		td.next_subset(b, E.cd);
		const vl want = std::min(eff, N - pos);
		if (!(excl & 1)) {
			const auto& X = td.batchX();
			if (X.batch_size() != want || X.sample_size() != S.xw || !X.emulatesBiases() || X.bBatchInRow() != S.xr) { viol("td.walk_shape", "X batch %lld has %u samples of %u, expected %u of %u", (long long)b, X.batch_size(), X.sample_size(), want, S.xw); return; }
			if (!X.test_biases_strict()) viol("td.walk_bias", "batch %lld of set %d lost its biases", (long long)b, set);
			for (vl i = 0; i < want; ++i) if (idX(X, set, i, N) != pos + i) { viol("td.walk_order", "set %d by %u: sample %u of X is %d", set, eff, pos + i, (int)idX(X, set, i, N)); return; }
		}
		if (!(excl & 2)) {
			const auto& Y = td.batchY();
			if (Y.batch_size() != want || Y.sample_size() != S.yw || Y.emulatesBiases() || Y.bBatchInRow() != S.yr) { viol("td.walk_shape", "Y batch %lld has %u samples of %u, expected %u of %u", (long long)b, Y.batch_size(), Y.sample_size(), want, S.yw); return; }
			for (vl i = 0; i < want; ++i) if (idY(Y, set, i, N) != pos + i) { viol("td.walk_order", "set %d by %u: sample %u of Y is %d", set, eff, pos + i, (int)idY(Y, set, i, N)); return; }
		}
		pos += want; ev("td.walk_subsets");
	}
	if (pos != N) viol("td.walk_total", "%u of %u samples of set %d walked over by %u", pos, N, set, eff);
	ev("td.walks"); ev("td.walk_samples", pos);
}
template<typename XT, typename YT> void check_epoch(R& r, Env<XT>& E, Shadow<XT, YT>& S, vl maxB, nc ep, std::vector<int>& used) {
	auto& td = S.td; const vl N = S.n[0]; const bool mini = maxB < N;
	vl eff, bs; const int how = r.below(3);
	if (how == 0) { bs = -1; eff = maxB; } else { eff = mini ? r.in(1, maxB) : maxB; bs = eff; if (how == 1) { bs = 0; E.cd.set_mode_and_batch_size(true, eff); } }
	const nc cnt = td.on_next_epoch(ep, E.cd, bs);
	if (cnt != N / eff) { viol("td.epoch_batches", "%u samples by %u: %lld batches", N, eff, (long long)cnt); return; }
	seen("epoch", mini, how, N % eff == 0, eff == 1, S.xr, S.yr);
	std::vector<char> got(N, 0);
	for (nc b = 0; b < cnt; ++b) {
		td.on_next_batch(b, E.cd); const auto& X = td.batchX(); const auto& Y = td.batchY();
		if (X.batch_size() != eff || Y.batch_size() != eff || X.sample_size() != S.xw || Y.sample_size() != S.yw || !X.emulatesBiases() || Y.emulatesBiases() || X.bBatchInRow() != S.xr || Y.bBatchInRow() != S.yr) { viol("td.epoch_shape", "batch of %u samples, %u expected", X.batch_size(), eff); return; }
		if (!X.test_biases_strict()) viol("td.epoch_bias", "a training batch lost its biases");
		for (vl i = 0; i < eff; ++i) {
			const vl a = idX(X, 0, i, N), c = idY(Y, 0, i, N);
			if (a < 0 || a != c) { viol("td.pairing", "row %u of a training batch pairs X of sample %d with Y of sample %d", i, (int)a, (int)c); return; }
			if (got[a]++) { viol("td.epoch_dupe", "sample %d served twice in an epoch (batch %lld)", (int)a, (long long)b); return; }
			++used[a];
		}
		ev("td.train_batches");
	}
	ev("td.epochs");
}
template<typename XT, typename YT> void inmem_history(R& r) {
	Env<XT> E(r.u64()); Shadow<XT, YT> S;
	const bool big = r.chance(6);
	S.n[0] = r.pick({ 1, 2, 3, r.in(1, 40), r.in(1, 40), big ? r.in(500, 2500) : 17 }); S.n[1] = r.pick({ 1, r.in(1, 40), r.in(1, 60), S.n[0], S.n[0] + 1, big ? r.in(500, 2500) : 9 });
	S.xw = r.in(1, big ? 20 : 7); S.yw = r.in(1, big ? 10 : 5);
	const bool how = r.b();// created in the target layout, or transposed after absorption
	const bool wantXr = r.chance(35), wantYr = r.chance(35); S.xr = wantXr; S.yr = wantYr;
	{
		auto a = mk<XT>(S.n[0], S.xw, true, how && wantXr), c = mk<XT>(S.n[1], S.xw, true, how && wantXr); auto b = mk<YT>(S.n[0], S.yw, false, how && wantYr), d = mk<YT>(S.n[1], S.yw, false, how && wantYr);
		fillX<XT>(a, 0); fillX<XT>(c, 1); fillY<YT>(b, 0); fillY<YT>(d, 1);
		if (!S.td.absorb(std::move(a), std::move(b), std::move(c), std::move(d))) { viol("td.absorb", "well formed data (X %s, Y %s) of %u/%u samples is refused", how && wantXr ? "batch in row" : "batch in column", how && wantYr ? "batch in row" : "batch in column", S.n[0], S.n[1]); return; }
		if (!how) {
			typedef typename Env<XT>::I::iMath_t iMath;
			if (wantXr && wantYr && r.b()) S.td.template transpose<iMath>();
			else { if (wantXr) S.td.template transposeX<iMath>(); if (wantYr) S.td.template transposeY<iMath>(); }
		}
	}
	seen("inmem", S.n[0] < S.n[1], S.n[0] == 1, S.n[1] == 1, S.xr, S.yr, how, sizeof(XT), sizeof(YT));
	if (S.td.empty() || S.td.xWidth() != S.xw || S.td.yWidth() != S.yw || S.td.trainset_samples_count() != S.n[0] || S.td.testset_samples_count() != S.n[1] || S.td.dataset_samples_count(1) != S.n[1] || S.td.biggest_samples_count() != std::max(S.n[0], S.n[1]) || S.td.datasets_count() != 2 || !S.td.isSuitableForOutputOf(S.yw) || S.td.isSuitableForOutputOf(S.yw + 1)) viol("td.sizes", "reported sizes differ from the absorbed data");
	S.save();
	const vl big1 = std::max(S.n[0], S.n[1]); std::vector<int> used(S.n[0], 0); int epochs = 0;
	{ vl f = 0, t = 0; bool mb = false; if (S.td.is_initialized4inference(f) || S.td.is_initialized4train(f, t, mb) || f || t) viol("td.initflag", "reports to be initialized before it is"); }
	for (int sess = r.in(1, 3); sess--;) {
		vl f = r.pick({ 0, r.in(1, big1), big1, big1 + r.in(1, 5), S.n[0] }), t = r.pick({ 0, r.in(1, S.n[0]), S.n[0], S.n[0] + 3 });
		const vl ef = f <= 0 || f > big1 ? big1 : f, et = t <= 0 || t > S.n[0] ? S.n[0] : t;
		const bool train = r.chance(70); bool mb = false; const vl f0 = f, t0 = t;
		char d[200]; snprintf(d, 200, "train %u test %u, %s fprop %d batch %d", S.n[0], S.n[1], train ? "init4train" : "init4inference", (int)f, (int)t); note(d);
		const auto ec = train ? S.td.init4train(E.iM, f, t, &mb) : S.td.init4inference(E.iM, f);
		if (train && et > ef) { if (ec != _nnet_errs::InvalidBatchSize2MaxFPropSizeRelation) viol("td.init_refuse", "batch %d for %d samples of fprop accepted", (int)t0, (int)f0); ev("td.init_refused"); continue; }
		if (ec != _nnet_errs::Success) { viol("td.init", "%s failed: %d", d, (int)ec); continue; }
		if (f != ef || (train && (t != et || mb != (et < S.n[0])))) { viol("td.init_sizes", "%s gave fprop %d batch %d minibatch %d", d, (int)f, (int)t, mb); continue; }
		ev("td.inits");
		const bool miniInf = ef < big1 || (train && mb);
		E.sizes(ef, train ? et : 0);
		{// what it says about itself
			vl q = 0, z = 0; bool m2 = !mb;
			if (!S.td.is_initialized4inference(q) || q != ef) viol("td.initflag", "%s: is_initialized4inference(0) gives %d", d, (int)q);
			q = ef + 1; if (S.td.is_initialized4inference(q) || q != ef + 1) viol("td.initflag", "%s: claims to serve %d samples at once", d, (int)q);
			if (ef > 1) {// a smaller batch: whatever is claimed must then be served
				const vl small = r.in(1, ef - 1); q = small;
				if (S.td.is_initialized4inference(q)) { if (q != small) viol("td.initflag", "%s: is_initialized4inference(%d) gives %d", d, (int)small, (int)q); else { check_walk(r, E, S, ef, miniInf, small); S.intact("walk_over_set"); ev("td.claims_walked"); } }
				else if (q != small) viol("td.initflag", "%s: is_initialized4inference(%d) refuses, but gives %d", d, (int)small, (int)q);
				else if (miniInf) viol("td.initflag", "%s: refuses to serve %d samples at once", d, (int)small);
				if (train && et > 1) { const vl fs = r.in(1, et - 1); q = fs; z = et; m2 = !mb; if (S.td.is_initialized4train(q, z, m2)) viol("td.initflag", "%s: claims to be ready to train by %d while propagating no more than %d", d, (int)et, (int)fs); else if (q != fs || z != et || m2 == mb) viol("td.initflag", "%s: arguments changed on refusal", d); }
				q = 0; z = 0; m2 = !mb;
			}
			q = 0; const bool tr = S.td.is_initialized4train(q, z, m2);
			if (tr != train) viol("td.initflag", "%s: is_initialized4train() is %d", d, tr);
			else if (train ? (q != ef || z != et || m2 != mb) : (q != 0 || z != 0)) viol("td.initflag", "%s: is_initialized4train() gives %d,%d,%d", d, (int)q, (int)z, m2);
			if (train && !mb && et > 1) { q = 0; z = et - 1; if (S.td.is_initialized4train(q, z, m2)) viol("td.initflag", "%s: full batch only, but claims to serve a batch of %d", d, (int)(et - 1)); else if (q != 0 || z != et - 1) viol("td.initflag", "%s: arguments changed on refusal", d); }
			if (train && mb) { q = 0; z = r.in(1, et); const vl z0 = z; if (!S.td.is_initialized4train(q, z, m2) || z != z0 || !m2) viol("td.initflag", "%s: refuses a batch of %d", d, (int)z0); z = et + 1; q = 0; if (S.td.is_initialized4train(q, z, m2) || q != 0) viol("td.initflag", "%s: claims a batch of %d", d, (int)et + 1); }
		}
		for (int k = r.in(2, 7); k--;) {
			if (train && r.chance(60)) { check_epoch(r, E, S, et, epochs++, used); S.intact("training epoch"); }
			else { check_walk(r, E, S, ef, miniInf); S.intact("walk_over_set"); }
		}
		if (r.b()) { S.td.deinit4all(); vl q = 0; if (S.td.is_initialized4inference(q) || S.td.empty()) viol("td.deinit", "state after deinit4all()"); }
	}
	sample("train %u x (%u->%u), test %u, Xrow %d Yrow %d, %d epochs", S.n[0], S.xw, S.yw, S.n[1], S.xr, S.yr, epochs);
	ev("td.histories");
}
// shuffling: over many epochs each sample gets to each position, and no order is preferred
template<typename T> void shuffling(R& r) {
	Env<T> E(r.u64()); Shadow<T, T> S; S.n[0] = r.in(3, 7); S.n[1] = 2; S.xw = 2; S.yw = 1; S.xr = S.yr = false;
	auto a = mk<T>(S.n[0], 2, true, false), c = mk<T>(2, 2, true, false); auto b = mk<T>(S.n[0], 1, false, false), d = mk<T>(2, 1, false, false);
	fillX<T>(a, 0); fillX<T>(c, 1); fillY<T>(b, 0); fillY<T>(d, 1);
	if (!S.td.absorb(std::move(a), std::move(b), std::move(c), std::move(d))) { viol("td.absorb", "refused"); return; }
	vl f = 0, t = r.in(1, S.n[0] - 1); bool mb; S.td.init4train(E.iM, f, t, &mb); E.sizes(f, t);
	const int EP = 900; const vl N = S.n[0]; std::vector<int> c2(N*N, 0), pairs(N*N, 0);
	for (int e = 0; e < EP; ++e) {
		const nc cnt = S.td.on_next_epoch(e, E.cd, t); vl pos = 0, prev = -1;
		for (nc q = 0; q < cnt; ++q) { S.td.on_next_batch(q, E.cd); for (vl i = 0; i < t; ++i, ++pos) { const vl id = idX(S.td.batchX(), 0, i, N); if (id < 0) { viol("td.pairing", "not a sample"); return; } ++c2[id*N + pos]; if (prev >= 0) ++pairs[prev*N + id]; prev = id; } }
	}
	const vl served = (N / t)*t; const double ex = double(EP) / N, sd = std::sqrt(ex);
	for (vl i = 0; i < N; ++i) for (vl p = 0; p < served; ++p) if (std::fabs(c2[i*N + p] - ex) > 9 * sd) { viol("td.shuffle", "%u samples by %u: in %d epochs sample %u came %d times to place %u", N, t, EP, i, c2[i*N + p], p); return; }
	const double ep = double(EP)*(served - 1) / (double(N)*(N - 1)), sp = std::sqrt(ep + 1);
	for (vl i = 0; i < N; ++i) for (vl j = 0; j < N; ++j) if (i != j && std::fabs(pairs[i*N + j] - ep) > 9 * sp) { viol("td.shuffle", "%u samples by %u: sample %u followed by %u %d times in %d epochs", N, t, i, j, pairs[i*N + j], EP); return; }
	ev("td.shuffles_observed", EP); seen("shuf", N, t);
}
// storage: refusal of malformed data, copying, moving, extraction, replacing
template<typename T> void storage(R& r) {
	typedef inmem_train_data_stor<T> St; St s;
	if (!s.empty()) viol("td.stor", "not empty when created");
	const bool xr = r.b(), yr = r.b(); vl n0 = r.in(1, 12), n1 = r.in(1, 12), xw = r.in(1, 6), yw = r.in(1, 4);
	const int bad = r.b() ? 0 : r.below(12);
	auto a = mk<T>(n0, xw, bad != 1, xr), c = mk<T>(bad == 2 ? n1 + 1 : n1, bad == 3 ? xw + 1 : xw, bad != 4, bad == 5 ? !xr : xr); auto b = mk<T>(bad == 6 ? n0 + 1 : n0, yw, bad == 7, yr), d = mk<T>(n1, bad == 8 ? yw + 1 : yw, false, bad == 9 ? !yr : yr);
	std::vector<T> ext; if (bad == 10) { c.clear(); }
	if (bad == 11) { ext.resize(a.numel()); a.useExternalStorage(&ext[0], a.rows(), a.cols(), true, false, xr); a.set_biases(); }
	if (bad != 10) fillX<T>(c, 1); fillX<T>(a, 0); fillY<T>(b, 0); fillY<T>(d, 1);
	const auto va = snap(a), vb = snap(b); const auto vc = bad == 10 ? std::vector<T>() : snap(c);
	seen("stor", bad, xr, yr, n0 == n1, xw == yw);
	const bool ok = s.absorb(std::move(a), std::move(b), std::move(c), std::move(d));
	if (bad) {
		if (ok) viol("td.absorb_bad", "incoherent data (defect %d, X %s, Y %s) is absorbed", bad, xr ? "row" : "col", yr ? "row" : "col");
		else if (!s.empty() || !same_bits(va, a.data()) || !same_bits(vb, b.data())) viol("td.absorb_bad", "refused data was touched");
		ev("td.stor_refusals"); return;
	}
	if (!ok) { viol("td.absorb", "well formed data refused: %u/%u samples, X %s, Y %s", n0, n1, xr ? "row" : "col", yr ? "row" : "col"); return; }
	if (s.empty() || !same_bits(va, s.train_x().data()) || !same_bits(vb, s.train_y().data()) || !same_bits(vc, s.test_x().data()) || s.samplesXStorageCoherent() != true || s.samplesYStorageCoherent() != true || s.samplesStorageCoherent() != (xr == yr)) viol("td.absorb", "absorbed data differs");
	St s2; if (!s.dupe(s2)) { viol("td.dupe", "failed"); return; }
	if (!(s2 == s) || s2.train_x().data() == s.train_x().data()) viol("td.dupe", "the duplicate differs or shares memory");
	{ const int q = r.below(4); M<T>& m = q == 0 ? (M<T>&)s2.train_x_mutable() : q == 1 ? (M<T>&)s2.train_y_mutable() : q == 2 ? (M<T>&)s2.test_x_mutable() : (M<T>&)s2.test_y_mutable(); const vl i = r.below(m.batch_size()), j = r.below(m.sample_size()); put<T>(m, i, j, at<T>(m, i, j) + T(1)); if (s2 == s) viol("td.equal", "stores that differ in matrix %d compare equal", q); }
	// replace Y
	const int rb = r.below(6); const vl yw2 = r.in(1, 4); const bool yr2 = r.b();
	auto ny = mk<T>(rb == 1 ? n0 + 1 : n0, yw2, rb == 2, yr2), nt = mk<T>(rb == 3 ? n1 + 1 : n1, rb == 4 ? yw2 + 1 : yw2, false, rb == 5 ? !yr2 : yr2); fillY<T>(ny, 0); fillY<T>(nt, 1); const auto vny = snap(ny), vnt = snap(nt); const auto oy = snap(s2.train_y());
	const bool rk = s2.replace_Y(std::move(ny), std::move(nt));
	if (rk != (rb == 0)) viol("td.replace_Y", "%s data (case %d, %u/%u samples of %u, %s) is %s", rb ? "incoherent" : "coherent", rb, n0, n1, yw2, yr2 ? "row" : "col", rk ? "taken" : "refused");
	else if (rk ? (!same_bits(vny, s2.train_y().data()) || !same_bits(vnt, s2.test_y().data())) : !same_bits(oy, s2.train_y().data())) viol("td.replace_Y", "wrong content after replace_Y");
	// moving and extraction
	St s3; s3 = std::move(s); if (!s.empty() || s3.empty() || !same_bits(va, s3.train_x().data())) viol("td.move", "moved data differs");
	MD<T> ea, ec; MD<T> eb, ed; s3.extract(ea, eb, ec, ed); if (!s3.empty() || !same_bits(va, ea.data()) || !same_bits(vb, eb.data()) || !same_bits(vc, ec.data()) || ea.bBatchInRow() != xr || eb.bBatchInRow() != yr || !ea.emulatesBiases() || eb.emulatesBiases()) viol("td.extract", "extracted data differs");
	s2.clear(); if (!s2.empty()) viol("td.clear", "not empty after clear()");
	{ St e; St e2; e2 = std::move(e); if (!e2.empty()) viol("td.move", "moving an empty store gives data"); }
	ev("td.stor_checks");
}
// a transformer that makes K samples of each base sample and records how it is driven
template<typename T> class Trf : public _i_td_transformer<T, T> {
	typedef _i_td_transformer<T, T> B;
public:
	typedef typename B::const_TD_stor_t const_TD_stor_t; typedef typename B::x_mtx_t x_mtx_t; typedef typename B::y_mtx_t y_mtx_t; typedef int data_set_id_t;
	vl K; vl cap = 0; vl epochBs = 0, walkBs = 0; MD<T> bx, by; bool inited = false; int inits = 0; nc calls = 0; std::vector<vl> last; nc lastIdx = -1; const void* stor = nullptr;
	Trf(vl k) : K(k) {}
	vl samplesInBaseSample()const noexcept { return K; }
	vl xWidth(const_TD_stor_t& s)const noexcept { return s.train_x().sample_size(); }
	vl yWidth(const_TD_stor_t& s)const noexcept { return s.train_y().sample_size(); }
	nc base_dataset_samples_count(const_TD_stor_t& s, data_set_id_t d)const noexcept { return s.X(d).batch_size(); }
	void deinit()noexcept { bx.clear(); by.clear(); inited = false; cap = 0; }
	template<typename iM> bool init(iM&, const_TD_stor_t& s, vl n)noexcept { stor = &s; inited = true; ++inits; cap = n; bx.will_emulate_biases(); return bx.resize_as_dataset(n*K, xWidth(s)) && by.resize_as_dataset(n*K, yWidth(s)); }
	void fill(const_TD_stor_t& s, int d, const vl* idx, vl ofs, vl n) { for (vl i = 0; i < n; ++i) for (vl k = 0; k < K; ++k) { const vl id = idx ? idx[i] : ofs + i; for (vl j = 0; j < bx.sample_size(); ++j) bx.set(i*K + k, j, s.X(d).get(id, j) + T(k) / T(16)); for (vl j = 0; j < by.sample_size(); ++j) by.set(i*K + k, j, s.Y(d).get(id, j) - T(k) / T(16)); } }
	template<typename C> void next_epoch(const_TD_stor_t& s, nc, const C&, vl n, x_mtx_t** px, y_mtx_t** py)noexcept { chk(s, n); epochBs = n; bx.deform_batch_size_with_biases(n*K); by.deform_batch_size(n*K); *px = &bx; *py = &by; }
	template<typename C> void next_batch(const_TD_stor_t& s, nc bi, const C&, const vl* idx, vl n)noexcept {
		chk(s, n); if (n != epochBs) viol("trf.protocol", "next_batch() gets %u base samples, the epoch announced %u", n, epochBs);
		last.assign(idx, idx + n); lastIdx = bi; for (auto i : last) if (i < 0 || i >= s.train_x().batch_size()) { viol("trf.protocol", "sample index %d of %u", (int)i, s.train_x().batch_size()); return; } fill(s, 0, idx, 0, n); ++calls; }
	template<typename C> void walk(const_TD_stor_t& s, int d, const C&, vl n, unsigned ex, x_mtx_t** px, y_mtx_t** py)noexcept { chk(s, n); walkBs = n; (void)d; bx.deform_batch_size_with_biases(n*K); by.deform_batch_size(n*K); *px = ex == 1 ? nullptr : &bx; *py = ex == 2 ? nullptr : &by; }
	template<typename C> void walk_next(const_TD_stor_t& s, int d, nc bi, const C&, vl n, vl ofs, unsigned)noexcept {
		chk(s, n); if (n > walkBs || ofs != bi * walkBs || ofs + n > s.X(d).batch_size() || (n < walkBs && ofs + n != s.X(d).batch_size())) viol("trf.protocol", "walk_next(#%lld) gets %u samples at %u of %u, walk announced %u", (long long)bi, n, ofs, s.X(d).batch_size(), walkBs);
		bx.deform_batch_size_with_biases(n*K); by.deform_batch_size(n*K); fill(s, d, nullptr, ofs, n); ++calls; }
	void chk(const_TD_stor_t& s, vl n) { if (&s != stor || !inited || n <= 0 || n > cap) viol("trf.protocol", "driven with %d base samples while prepared for %d", (int)n, (int)cap); }
};
template<typename T> void transformed(R& r) {
	Env<T> E(r.u64()); inmem_train_data_stor<T> st; const vl n0 = r.in(1, 25), n1 = r.in(1, 25), xw = r.in(1, 5), yw = r.in(1, 3), K = r.pick({ 1, 1, 2, 3, 5 }); const vl n[2] = { n0,n1 };
	{ auto a = mk<T>(n0, xw, true, false), c = mk<T>(n1, xw, true, false); auto b = mk<T>(n0, yw, false, false), d = mk<T>(n1, yw, false, false); fillX<T>(a, 0); fillX<T>(c, 1); fillY<T>(b, 0); fillY<T>(d, 1); if (!st.absorb(std::move(a), std::move(b), std::move(c), std::move(d))) { viol("td.absorb", "refused"); return; } }
	const auto x0 = snap(st.train_x()), x1 = snap(st.test_x());
	Trf<T> tf(K); transf_train_data<Trf<T>> td(tf, st);
	if (td.empty() || td.xWidth() != xw || td.yWidth() != yw || td.dataset_samples_count(0) != n0 * K || td.testset_samples_count() != n1 * K || td.base_trainset_samples_count() != n0) viol("trf.sizes", "reported sizes are wrong");
	const vl bigb = std::max(n0, n1);
	for (int ses = r.in(1, 2); ses--;) {
		const vl fb = r.pick({ 0, r.in(1, bigb), bigb + 2 }), tb = r.pick({ 0, r.in(1, n0), n0 + 1 }); vl f = fb * K, t = tb * K; const vl ef = fb <= 0 || fb > bigb ? bigb : fb, et = tb <= 0 || tb > n0 ? n0 : tb; const bool train = r.chance(65); bool mb = false;
		const auto ec = train ? td.init4train(E.iM, f, t, &mb) : td.init4inference(E.iM, f);
		if (train && et > ef) { if (ec != _nnet_errs::InvalidBatchSize2MaxFPropSizeRelation) viol("trf.init", "batch bigger than fprop is accepted"); continue; }
		if (ec != _nnet_errs::Success || f != ef * K || (train && (t != et * K || mb != (et < n0)))) { viol("trf.init", "init gives %d: fprop %d batch %d", (int)ec, (int)f, (int)t); return; }
		E.sizes(f, train ? t : 0);
		if (train && et > 1) { const vl fs = r.in(1, et - 1) * K; vl q = fs, z = t; bool m2 = false; if (td.is_initialized4train(q, z, m2)) viol("trf.initflag", "claims to train by %d while propagating no more than %d", (int)t, (int)fs); else if (q != fs || z != t) viol("trf.initflag", "arguments changed on refusal"); }
		{ vl q = 0, z = 0; bool m2 = false; const bool tr = td.is_initialized4train(q, z, m2); if (tr != train || (train ? (q != f || z != t || m2 != mb) : (q || z))) viol("trf.initflag", "is_initialized4train() %d gives %d,%d", tr, (int)q, (int)z); }
		seen("trf", K, n0 % et == 0, n0 % ef == 1, train, mb);
		for (int k = r.in(1, 5); k--;) {
			auto row = [&](int set, vl i, vl id, vl kk) { const auto& X = td.batchX(); const auto& Y = td.batchY(); for (vl j = 0; j < xw; ++j) if (X.get(i, j) != xval<T>(set, id, j) + T(kk) / T(16)) return false; for (vl j = 0; j < yw; ++j) if (Y.get(i, j) != yval<T>(set, id, j) - T(kk) / T(16)) return false; return true; };
			if (train && r.chance(55)) {
				const vl b = r.b() ? et : r.in(1, et); if (!mb && b != et) continue;
				const int hw = r.below(2); if (hw) E.cd.set_mode_and_batch_size(true, b*K);
				const nc cnt = td.on_next_epoch(k, E.cd, hw ? 0 : b * K); if (cnt != n0 / b) { viol("trf.batches", "%lld batches for %u by %u", (long long)cnt, n0, b); return; }
				std::vector<char> got(n0, 0);
				for (nc q = 0; q < cnt; ++q) { td.on_next_batch(q, E.cd); if (td.batchX().batch_size() != b * K || td.batchY().batch_size() != b * K) { viol("trf.shape", "batch size"); return; } if (tf.lastIdx != q) viol("trf.protocol", "batch index"); for (vl i = 0; i < b; ++i) { const vl id = tf.last[i]; if (got[id]++) { viol("trf.dupe", "base sample %d served twice in an epoch", (int)id); return; } for (vl kk = 0; kk < K; ++kk) if (!row(0, i*K + kk, id, kk)) { viol("trf.data", "training batch differs from what the transformer made"); return; } } }
				ev("trf.epochs");
			} else {
				const int set = r.below(2); vl b = r.b() ? -1 : r.in(1, ef); const vl e = std::min(b < 0 ? ef : b, n[set]); const unsigned ex = 0;
				const nc cnt = td.walk_over_set(set, E.cd, b < 0 ? -1 : b * K, ex); vl pos = 0;
				if (cnt != (n[set] + e - 1) / e) viol("trf.walk_batches", "%u base samples (x%u) by %u: %lld batches", n[set], K, e, (long long)cnt);
				for (nc q = 0; q < cnt; ++q) { td.next_subset(q, E.cd); const vl w = std::min(e, n[set] - pos); if (td.batchX().batch_size() != w * K) { viol("trf.walk_shape", "%u samples, expected %u", td.batchX().batch_size(), w*K); return; } for (vl i = 0; i < w; ++i) for (vl kk = 0; kk < K; ++kk) if (!row(set, i*K + kk, pos + i, kk)) { viol("trf.walk_data", "walk serves something else at %u", pos + i); return; } pos += w; }
				if (pos != n[set]) viol("trf.walk_total", "%u of %u base samples walked over", pos, n[set]);
				ev("trf.walks");
			}
		}
		if (!same_bits(x0, st.train_x().data()) || !same_bits(x1, st.test_x().data())) viol("trf.data_modified", "the underlying data changed");
	}
	ev("trf.histories");
}
template<typename T> void holder(R& r) {
	Env<T> E(r.u64()); const vl N = r.in(2, 30), xw = r.in(1, 6), yw = r.in(1, 4); auto x = mk<T>(N, xw, true, false); auto y = mk<T>(N, yw, false, false); fillX<T>(x, 0); fillY<T>(y, 0); const auto x0 = snap(x), y0 = snap(y);
	const bool hasY = r.chance(80), full = r.chance(15); const vl mx = r.in(1, N - 1);
	utils::dataHolder<T> h; h.init(full ? 0 : mx, x, hasY ? &y : nullptr); seen("holder", hasY, full, mx == 1, N % mx == 0);
	if (h.samplesCount() != N) viol("holder.count", "samplesCount");
	bool first = true;
	for (int s = r.in(1, 3); s--; first = false) {
		const vl bs = full ? N : r.chance(20) ? N : r.in(1, mx); h.prepareToBatchSize(bs); if (h.curBatchSize() != bs) { viol("holder.size", "batch size %u, asked %u", h.curBatchSize(), bs); return; }
		std::vector<int> got(N, 0); int inEpoch = 0; const int per = N / bs; const bool synced = first && bs < N; // a later size change continues the running epoch: no claim on where it ends
		for (int k = r.in(1, 40); k--;) {
			h.nextBatch(E.rng, E.iM); const auto& X = h.batchX(); if (X.rows() != bs || !X.test_biases_strict()) { viol("holder.batch", "shape or biases"); return; }
			bool dup = false; std::vector<vl> ids;
			for (vl i = 0; i < bs; ++i) { const vl id = idX(X, 0, i, N); if (id < 0 || (hasY && idY(h.batchY(), 0, i, N) != id)) { viol("holder.pairing", "row %u: X of %d, Y of %d", i, (int)id, hasY ? (int)idY(h.batchY(), 0, i, N) : -2); return; } ids.push_back(id); if (bs == N && id != i) { viol("holder.full", "full batch out of order"); return; } }
			if (bs < N) { std::vector<vl> e(h.curBatchIdxs(), h.curBatchIdxsEnd()); if (e != ids) { viol("holder.idxs", "curBatchIdxs() differ from the batch"); return; } }
			std::set<vl> u(ids.begin(), ids.end()); if (u.size() != ids.size()) { viol("holder.dupe", "a sample twice in a batch"); return; }
			for (auto i : ids) if (got[i]) dup = true;
			if (synced && inEpoch < per && dup) { viol("holder.epoch", "a sample came again after %d of %d batches (%u by %u)", inEpoch, per, N, bs); return; }
			if (inEpoch >= per || dup) { std::fill(got.begin(), got.end(), 0); inEpoch = 0; }
			for (auto i : ids) got[i] = 1; ++inEpoch; ev("holder.batches");
		}
	}
	if (!same_bits(x0, x.data()) || !same_bits(y0, y.data())) viol("holder.data", "the data itself changed");
	ev("holder.histories");
}
int main(int c, char** v) {
	init(c, v); g_hc = 4;
	group("inmem.d", 250, [&](R& r, int) { inmem_history<double, double>(r); });
	group("inmem.f", 150, [&](R& r, int) { inmem_history<float, float>(r); });
	group("inmem.fd", 60, [&](R& r, int) { inmem_history<float, double>(r); });
	group("shuffle.d", 6, [&](R& r, int) { shuffling<double>(r); });
	group("shuffle.f", 4, [&](R& r, int) { shuffling<float>(r); });
	group("storage.d", 200, [&](R& r, int) { storage<double>(r); });
	group("storage.f", 100, [&](R& r, int) { storage<float>(r); });
	group("transf.d", 150, [&](R& r, int) { transformed<double>(r); });
	group("transf.f", 80, [&](R& r, int) { transformed<float>(r); });
	group("holder.d", 100, [&](R& r, int) { holder<double>(r); });
	group("holder.f", 60, [&](R& r, int) { holder<float>(r); });
	return done();
}
