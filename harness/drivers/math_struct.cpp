// softmax, extraction, norms, products, transposition, covariance, orthogonalisation, k-ordered search
#include "mathcommon.h"
using namespace vh;
template<typename Prep, typename Chk> void run_(std::initializer_list<Var> vs, Prep&& prep, Chk&& chk) { for (auto& v : vs) { vh::note(v.name); prep(); v.f(); ev("st.variant_runs"); chk(v.name); } }

template<typename T> void softmaxes(R& r, IM<T>& iM, unsigned nw) {
	vl m, n; shape(r, m, n, 35, 12000);
	const bool bias = r.b(); const Fill f = anyFill(r);
	MD<T> A(m, n, bias); fillm(r, A, f); const auto A0 = snap<T>(A);
	std::vector<T> mx(m), den(nc(m)*nw), num(nc(m)*n);
	std::vector<ld> E(nc(m)*n), D(m); ld maxd = 0;
	for (vl q = 0; q < m; ++q) { mx[q] = A0[q]; for (vl c = 1; c < n; ++c) mx[q] = std::max(mx[q], A0[q + nc(m)*c]); for (vl c = 0; c < n; ++c) { const ld d = (ld)A0[q + nc(m)*c] - mx[q]; if (d > -800) maxd = std::max(maxd, -d); D[q] += E[q + nc(m)*c] = std::exp(d); } }
	const ld rel = EPS<T>*(8 + 2 * maxd), tiny = std::numeric_limits<T>::min();
	seen("softmax", bias, int(f), m > 40, n > 40, m == 1, n == 1, sizeof(T));
	{
		M<T> N; MD<T> B(m, n); std::copy(A0.begin(), A0.begin() + nc(m)*n, B.data()); const auto B0 = snap<T>(B), B_ = B0;
		auto chk = [&](const char* nm) {
			for (nc i = 0; i < nc(m)*n; ++i) if (!close(num[i], E[i], E[i] * rel + tiny)) { viol("st.softmax_parts", "%s [%u,%u] numerator %lld: %g expected %g", nm, m, n, (long long)i, (double)num[i], (double)E[i]); return; }
			for (vl q = 0; q < m; ++q) if (!close(den[q], D[q], D[q] * (rel + n * EPS<T>) + n*tiny)) { viol("st.softmax_parts", "%s [%u,%u] denominator %u: %g expected %g", nm, m, n, q, (double)den[q], (double)D[q]); return; }
			unchanged<T>("st.softmax_parts", nm, B, B0);
		};
		auto prep = [&] { for (auto& x : num) x = T(-7); for (auto& x : den) x = T(-7); };
		run_({ V_(softmax_parts(B, mx.data(), den.data(), num.data())), V_(softmax_parts_st(B, mx.data(), den.data(), num.data())), V_(softmax_parts_st_rw(B, mx.data(), den.data(), num.data())), V_(softmax_parts_st_cw(B, mx.data(), den.data(), num.data())), V_(softmax_parts_mt(B, mx.data(), den.data(), num.data())), V_(softmax_parts_mt_rw(B, mx.data(), den.data(), num.data())) }, prep, chk);
		if (n > 3) run_({ V_(softmax_parts_mt_cw(B, mx.data(), den.data(), num.data())) }, prep, chk);
	}
	run_({ V_(softmax(A)), V_(softmax_st(A)), V_(softmax_mt(A)) }, [&] { load<T>(A, A0); }, [&](const char* nm) {
		if (A.rows() != m || A.cols() != n + bias || A.emulatesBiases() != bias) { viol("st.softmax", "%s left the matrix as [%u,%u]", nm, A.rows(), A.cols()); return; }
		for (nc i = 0; i < nc(m)*n; ++i) { const ld e = E[i] / D[i%m]; if (!close(A.data()[i], e, e*(2 * rel + n * EPS<T>) + tiny)) { viol("st.softmax", "%s [%u,%u] element %lld: %g expected %g", nm, m, n, (long long)i, (double)A.data()[i], (double)e); return; } }
		for (vl q = 0; bias && q < m; ++q) if (A.data()[nc(m)*n + q] != T(1)) { viol("st.softmax", "%s touched a bias", nm); return; }
	});
	ev("st.softmax", nc(m)*n);
}

template<typename T> void extraction(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 30, 30000); if (m == 1 && r.b()) m = vl(r.in(2, 60));
	const bool sb = r.b(), db = r.b();
	M<T> S(m, n, sb); fillm(r, S, anyFill(r)); const auto S0 = snap(S);
	seen("extr", sb, db, m > 40, n > 40, m == 1, n == 1, sizeof(T));
	auto pois = [&](M<T>& d) { for (nc i = 0; i < d.numel_no_bias(); ++i) d.data()[i] = T(-9.5); if (d.emulatesBiases()) d.set_biases(); };
	auto biasok = [&](const char* key, const char* nm, M<T>& d) { if (!d.emulatesBiases()) return; for (vl q = 0; q < d.rows(); ++q) if (d.get(q, d.cols() - 1) != T(1)) { viol(key, "%s broke a bias", nm); return; } };
	{// rows by index; indexes may repeat
		const vl k = vl(r.in(1, int(m))); std::vector<vl> ix(k); for (auto& x : ix) x = r.below(m); if (r.chance(20)) for (vl i = 0; i < k; ++i) ix[i] = i;
		M<T> D(k, n, sb); const auto it = ix.begin();
		auto chk = [&](const char* nm) {
			for (vl c = 0; c < n; ++c) for (vl q = 0; q < k; ++q) if (D.get(q, c) != S0[nc(c)*m + ix[q]]) { viol("st.mExtractRows", "%s %u of %u rows, cell (%u,%u): %g expected %g", nm, k, m, q, c, (double)D.get(q, c), (double)S0[nc(c)*m + ix[q]]); return; }
			biasok("st.mExtractRows", nm, D); unchanged("st.mExtractRows", nm, S, S0);
		};
		auto prep = [&] { pois(D); };
		run_({ V_(mExtractRows(S, it, D)), V_(mExtractRows_seqWrite_st(S, it, D)), V_(mExtractRows_seqWrite_mt(S, it, D)), V_(mExtractBatches(S, it, D)) }, prep, chk);
		const vl ofs = vl(r.below(int(m - k) + 1));
		for (vl i = 0; i < k; ++i) ix[i] = ofs + i;
		run_({ V_(mExtractRowsSeq(S, ofs, D)), V_(mExtractRowsSeq_st(S, ofs, D)), V_(mExtractRowsSeq_mt(S, ofs, D)) }, prep, chk);
	}
	{// samples in columns
		M<T> C, D; C.set_batchInRow(true); D.set_batchInRow(true); if (sb) C.will_emulate_biases(); if (db) D.will_emulate_biases();
		const vl k = vl(r.in(1, int(n)));
		if (!C.resize_as_dataset(n, m) || !D.resize_as_dataset(k, m)) { viol("st.alloc", "resize"); return; }
		fillm(r, C, Fill::uni); if (sb) C.set_biases(); const auto C0 = snap(C);
		std::vector<vl> ix(k); for (auto& x : ix) x = r.below(n); const auto it = ix.begin();
		run_({ V_(mExtractCols(C, it, D)), V_(mExtractCols_st(C, it, D)), V_(mExtractCols_mt(C, it, D)), V_(mExtractBatches(C, it, D)) }, [&] { fillm(r, D, Fill::ties); if (db) D.set_biases(); }, [&](const char* nm) {
			for (vl c = 0; c < k; ++c) { for (vl q = 0; q < m; ++q) if (D.get(q, c) != C.get(q, ix[c])) { viol("st.mExtractCols", "%s cell (%u,%u)", nm, q, c); return; } if (db && D.get(m, c) != T(1)) { viol("st.mExtractCols", "%s broke a bias", nm); return; } }
			unchanged("st.mExtractCols", nm, C, C0);
		});
	}
	{// rows by mask and back
		std::vector<T> mk(m); vl k = 0; const int p = r.pick({ 10, 50, 90 }); for (auto& x : mk) { x = T(r.chance(p)); k += x != T(0); }
		if (!k) { mk[r.below(m)] = T(1); k = 1; }
		M<T> D(k, n, sb);
		std::vector<vl> pos; for (vl q = 0; q < m; ++q) if (mk[q] != T(0)) pos.push_back(q);
		run_({ V_(mExtractRowsByMask(S, mk.data(), D)), V_(mExtractRowsByMask_st(S, mk.data(), D)), V_(mExtractRowsByMask_mt(S, mk.data(), D)) }, [&] { pois(D); }, [&](const char* nm) {
			for (vl c = 0; c < n; ++c) for (vl q = 0; q < k; ++q) if (D.get(q, c) != S0[nc(c)*m + pos[q]]) { viol("st.mExtractRowsByMask", "%s %u of %u rows, cell (%u,%u)", nm, k, m, q, c); return; }
			biasok("st.mExtractRowsByMask", nm, D); unchanged("st.mExtractRowsByMask", nm, S, S0);
		});
		M<T> F(m, n, db); const auto D0 = snap(D);
		if (sb == db) run_({ V_(mFillRowsByMask(D, mk.data(), F)), V_(mFillRowsByMask_st(D, mk.data(), F)), V_(mFillRowsByMask_mt(D, mk.data(), F)) }, [&] { pois(F); }, [&](const char* nm) {
			for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) { const T e = mk[q] != T(0) ? S0[nc(c)*m + q] : T(0); if (F.get(q, c) != e) { viol("st.mFillRowsByMask", "%s %u of %u rows, cell (%u,%u): %g expected %g", nm, k, m, q, c, (double)F.get(q, c), (double)e); return; } }
			biasok("st.mFillRowsByMask", nm, F); unchanged("st.mFillRowsByMask", nm, D, D0);
		});
	}
	ev("st.extraction", nc(m)*n);
}

template<typename T> void norms(R& r, IM<T>& iM, unsigned nw) {
	vl m, n; shape(r, m, n, 35, 12000); if (n < 2) n = 2;
	const Fill f = r.pick({ Fill::uni, Fill::gauss, Fill::ties });
	MD<T> A(m, n); fillm(r, A, f);
	for (vl q = 0; q < m; ++q) A.set(q, 0, A.get(q, 0) == T(0) ? T(.5) : A.get(q, 0));
	const auto A0 = snap<T>(A);
	const bool inc = r.b();
	seen("norm", inc, int(f), m > 40, n > 40, m == 1, sizeof(T));
	std::vector<ld> full(m), part(m); for (vl q = 0; q < m; ++q) { for (vl c = 0; c < n; ++c) { const ld x = A0[q + nc(m)*c]; full[q] += x*x; if (c + 1 < n || inc) part[q] += x*x; } }
	std::vector<T> v(nc(m)*nw);
	auto prep = [&] { load<T>(A, A0); for (auto& x : v) x = T(-3); };
	run_({ V_(mrwL2NormSquared(A, v.data())), V_(mrwL2NormSquared_st(A, v.data())), V_(mrwL2NormSquared_mt(A, v.data())) }, prep, [&](const char* nm) {
		for (vl q = 0; q < m; ++q) if (!close(v[q], full[q], full[q] * n*EPS<T>)) { viol("st.mrwL2NormSquared", "%s [%u,%u] row %u: %g expected %g", nm, m, n, q, (double)v[q], (double)full[q]); return; }
		unchanged<T>("st.mrwL2NormSquared", nm, A, A0);
	});
	const T mxn = T(part[r.below(m)]) * T(r.pick({ .5, 1., 1.5 })) ;
	auto cmp = [&](const char* key, const char* nm, bool cond) {
		if (A.rows() != m || A.cols() != n) { viol(key, "%s left the matrix as [%u,%u]", nm, A.rows(), A.cols()); return; }
		for (vl q = 0; q < m; ++q) { const ld s = (cond && part[q] <= (ld)mxn) ? 1 : std::sqrt((ld)mxn / part[q]);
			for (vl c = 0; c < n; ++c) { const ld e = s*A0[q + nc(m)*c]; if (!close(A.get(q, c), e, std::fabs(e)*(n + 6)*EPS<T>)) { viol(key, "%s [%u,%u] incl.bias=%d row %u (norm^2 %g, limit %g): %g expected %g", nm, m, n, inc, q, (double)part[q], (double)mxn, (double)A.get(q, c), (double)e); return; } } }
	};
	run_({ V_(mCheck_normalize_rows(A, mxn, inc)), V_(mCheck_normalize_rows_st(A, mxn, inc)), V_(mCheck_normalize_rows_mt(A, mxn, inc)) }, prep, [&](const char* nm) { cmp("st.mCheck_normalize_rows", nm, true); });
	run_({ V_(mrwSetL2Norm(A, mxn, inc)), V_(mrwSetL2Norm_st(A, mxn, inc)), V_(mrwSetL2Norm_mt(A, mxn, inc)), V_(mrwSetL2Norm(static_cast<M<T>&>(A), mxn, inc)) }, prep, [&](const char* nm) { cmp("st.mrwSetL2Norm", nm, false); });
	ev("st.norms", m);
}

template<typename T> struct Mat { std::vector<ld> d; vl r, c; ld& operator()(vl i, vl j) { return d[i + nc(r)*j]; } ld operator()(vl i, vl j) const { return d[i + nc(r)*j]; } Mat(vl a, vl b) : d(nc(a)*b), r(a), c(b) {} };

// C[i,j] = sc * sum_k a(i,k)*b(k,j), with the bound of rounding errors
template<typename T, typename FA, typename FB, typename FC> void chk_prod(const char* key, vl I, vl J, vl K, ld sc, FA a, FB b, FC c) {
	for (vl i = 0; i < I; ++i) for (vl j = 0; j < J; ++j) {
		ld s = 0, ab = 0; for (vl k = 0; k < K; ++k) { const ld x = (ld)a(i, k)*b(k, j); s += x; ab += std::fabs(x); }
		s *= sc; ab *= std::fabs(sc);
		if (!close((T)c(i, j), s, ab*(K + 4)*EPS<T> + 1e-35L)) { viol(key, "(%u,%u) of [%u,%u] inner %u: %.9g expected %.9g", i, j, I, J, K, (double)c(i, j), (double)s); return; }
	}
}
template<typename T> void products(R& r, IM<T>& iM) {
	const vl I = r.chance(20) ? 1 : r.in(1, 30), J = r.chance(20) ? 1 : r.in(1, 30), K = r.chance(20) ? 1 : r.in(1, 40);
	const Fill f = r.pick({ Fill::uni, Fill::zeros, Fill::ties, Fill::hostile });
	seen("prod", int(f), I == 1, J == 1, K == 1, sizeof(T));
	auto pois = [](M<T>& c) { for (nc i = 0; i < c.numel(); ++i) c.data()[i] = T(1e3); };
	{
		M<T> A(I, K), B(K, J), C(I, J); fillm(r, A, f); fillm(r, B, f); pois(C); const auto A0 = snap(A), B0 = snap(B);
		iM.mMulAB_C(A, B, C);
		chk_prod<T>("st.mMulAB_C", I, J, K, 1, [&](vl i, vl k) { return A.get(i, k); }, [&](vl k, vl j) { return B.get(k, j); }, [&](vl i, vl j) { return C.get(i, j); });
		unchanged("st.mMulAB_C", "mMulAB_C", A, A0); unchanged("st.mMulAB_C", "mMulAB_C", B, B0);
	}
	{
		const bool cb = r.b(); M<T> A(I, K), B(J, K), C(I, J, cb); fillm(r, A, f); fillm(r, B, f); for (nc i = 0; i < C.numel_no_bias(); ++i) C.data()[i] = T(1e3);
		iM.mMulABt_Cnb(A, B, C);
		chk_prod<T>("st.mMulABt_Cnb", I, J, K, 1, [&](vl i, vl k) { return A.get(i, k); }, [&](vl k, vl j) { return B.get(j, k); }, [&](vl i, vl j) { return C.get(i, j); });
		if (cb) for (vl i = 0; i < I; ++i) if (C.get(i, J) != T(1)) { viol("st.mMulABt_Cnb", "broke a bias"); break; }
	}
	{
		const T sc = T(r.uni(-3, 3)); M<T> A(K, I), B(K, J), C(I, J); fillm(r, A, f); fillm(r, B, f); pois(C);
		iM.mScaledMulAtB_C(sc, A, B, C);
		chk_prod<T>("st.mScaledMulAtB_C", I, J, K, sc, [&](vl i, vl k) { return A.get(k, i); }, [&](vl k, vl j) { return B.get(k, j); }, [&](vl i, vl j) { return C.get(i, j); });
	}
	{// layer products: batch of I samples, K inputs, J neurons, in both layouts of the activations
		const bool pbir = r.b(), abir = r.b(), ab = r.b();
		auto mk = [&](M<T>& x, bool bir, bool bias, vl bs, vl ss) { x.set_batchInRow(bir); if (bias) x.will_emulate_biases(); if (!x.resize_as_dataset(bs, ss)) viol("st.alloc", "resize"); for (nc i = 0; i < x.numel(); ++i) x.data()[i] = T(77); if (bias) x.set_biases(); };
		auto at = [](const M<T>& x, vl s, vl c) { return x.bBatchInRow() ? x.get(c, s) : x.get(s, c); };
		M<T> P, A; mk(P, pbir, true, I, K); mk(A, abir, ab, I, J); fillm(r, P, f);
		MD<T> W(J, K + 1); fillm<T>(r, W, f);
		const auto P0 = snap(P), W0 = snap<T>(W);
		iM.mMul_prevAct_weights_2_act(P, static_cast<M<T>&>(W), A);
		chk_prod<T>("st.mMul_prevAct_weights_2_act", I, J, K + 1, 1, [&](vl i, vl k) { return at(P, i, k); }, [&](vl k, vl j) { return W.get(j, k); }, [&](vl i, vl j) { return at(A, i, j); });
		if (ab && !A.test_biases_strict()) viol("st.mMul_prevAct_weights_2_act", "broke biases (in row %d)", abir);
		unchanged("st.mMul_prevAct_weights_2_act", "", P, P0); unchanged<T>("st.mMul_prevAct_weights_2_act", "", W, W0);
		M<T> Z(I, J), dP; fillm(r, Z, f); mk(dP, pbir, false, I, K); const auto Z0 = snap(Z);
		iM.mMul_dLdZ_weights_2_dLdAPrev(Z, W, dP);
		chk_prod<T>("st.mMul_dLdZ_weights_2_dLdAPrev", I, K, J, 1, [&](vl i, vl k) { return Z.get(i, k); }, [&](vl k, vl j) { return W.get(k, j); }, [&](vl i, vl j) { return at(dP, i, j); });
		unchanged("st.mMul_dLdZ_weights_2_dLdAPrev", "", Z, Z0); unchanged<T>("st.mMul_dLdZ_weights_2_dLdAPrev", "", W, W0);
		if (W.cols() != K + 1) viol("st.mMul_dLdZ_weights_2_dLdAPrev", "weights left deformed");
		const T sc = T(r.uni(-2, 2)); M<T> dW(J, K + 1); pois(dW);
		iM.mMulScaled_dLdZ_prevAct_2_dLdW(sc, Z, P, dW);
		chk_prod<T>("st.mMulScaled_dLdZ_prevAct_2_dLdW", J, K + 1, I, sc, [&](vl i, vl k) { return Z.get(k, i); }, [&](vl k, vl j) { return at(P, k, j); }, [&](vl i, vl j) { return dW.get(i, j); });
		unchanged("st.mMulScaled_dLdZ_prevAct_2_dLdW", "", Z, Z0); unchanged("st.mMulScaled_dLdZ_prevAct_2_dLdW", "", P, P0);
	}
	{// covariance of columns: only the requested triangle is defined
		const vl n = J + 1; M<T> A(I, n), C(n, n); fillm(r, A, f); const bool lo = r.b(); pois(C); const auto A0 = snap(A);
		const int how = r.below(3); if (!how) iM.mColumnsCov(A, C, lo); else if (lo) iM.template mColumnsCov<true>(A, C); else iM.template mColumnsCov<false>(A, C);
		for (vl i = 0; i < n; ++i) for (vl j = 0; j < n; ++j) if (lo ? i >= j : i <= j) {
			ld s = 0, ab = 0; for (vl k = 0; k < I; ++k) { const ld x = (ld)A.get(k, i)*A.get(k, j); s += x; ab += std::fabs(x); }
			if (!close(C.get(i, j), s / I, ab*(I + 4)*EPS<T> / I + 1e-35L)) { viol("st.mColumnsCov", "(%u,%u) of %u, %u rows: %g expected %g", i, j, n, I, (double)C.get(i, j), (double)(s / I)); i = n; break; }
		}
		unchanged("st.mColumnsCov", "", A, A0);
	}
	{// orthogonalisation and its predicate
		M<T> A(I, J); fillm(r, A, Fill::gauss);
		const bool ok = iM.mSVD_Orthogonalize_ss(A);
		const bool tr = I >= J; const vl q = tr ? J : I, p = tr ? I : J; ld worst = 0;
		auto g = [&](vl a, vl b) { return (ld)(tr ? A.get(b, a) : A.get(a, b)); };
		for (vl a = 0; a < q; ++a) for (vl b = 0; b < q; ++b) { ld s = 0; for (vl k = 0; k < p; ++k) s += g(a, k)*g(b, k); worst = std::max(worst, std::fabs(s - (a == b))); }
		if (!ok || worst > 200 * EPS<T>) viol("st.mSVD_Orthogonalize_ss", "[%u,%u] ok=%d, distance from orthogonality %g", I, J, ok, (double)worst);
		if (!iM._mIsOrthogonal(A, tr)) viol("st._mIsOrthogonal", "[%u,%u] an orthogonal matrix is refused", I, J);
		const vl i0 = r.below(I), j0 = r.below(J); A.set(i0, j0, A.get(i0, j0) + T(.5));
		// a perturbed matrix: the predicate must agree with the definition when it is far from its threshold
		worst = 0; for (vl a = 0; a < q; ++a) for (vl b = 0; b < q; ++b) { ld s = 0; for (vl k = 0; k < p; ++k) s += g(a, k)*g(b, k); worst = std::max(worst, std::fabs(s - (a == b))); }
		if (worst > 1e-2 && iM._mIsOrthogonal(A, tr)) viol("st._mIsOrthogonal", "[%u,%u] deviation %g accepted", I, J, (double)worst);
	}
	ev("st.products", 9);
}

// thin wrappers over the BLAS: general leading dimensions, alpha/beta
template<typename T> void blas(R& r, IM<T>&) {
	typedef math::b_OpenBLAS B;
	const vl m = r.in(1, 12), n = r.in(1, 12), k = r.in(1, 12);
	auto buf = [&](nc s) { std::vector<T> v(s); for (auto& x : v) x = T(r.uni(-2, 2)); return v; };
	const T al = T(r.uni(-2, 2)), be = r.chance(30) ? T(0) : T(r.uni(-2, 2));
	{
		const bool ta = r.b(), tb = r.b(); const vl ra = ta ? k : m, ca = ta ? m : k, rb = tb ? n : k, cb = tb ? k : n, la = ra + r.below(3), lb = rb + r.below(3), lc = m + r.below(3);
		auto a = buf(nc(la)*ca), b = buf(nc(lb)*cb), c = buf(nc(lc)*n); const auto c0 = c;
		B::gemm(ta, tb, m, n, k, al, a.data(), la, b.data(), lb, be, c.data(), lc);
		for (vl j = 0; j < n; ++j) for (vl i = 0; i < lc; ++i) {
			if (i >= m) { if (c[i + nc(lc)*j] != c0[i + nc(lc)*j]) { viol("st.gemm", "wrote outside of the result"); j = n; break; } continue; }
			ld s = 0; for (vl q = 0; q < k; ++q) s += (ld)(ta ? a[q + nc(la)*i] : a[i + nc(la)*q])*(tb ? b[j + nc(lb)*q] : b[q + nc(lb)*j]);
			const ld e = al*s + be*(ld)c0[i + nc(lc)*j]; if (!close(c[i + nc(lc)*j], e, 100 * k*EPS<T>)) { viol("st.gemm", "t%d%d m%u n%u k%u (%u,%u): %g expected %g", ta, tb, m, n, k, i, j, (double)c[i + nc(lc)*j], (double)e); j = n; break; }
		}
	}
	{
		const bool lo = r.b(), tr = r.b(); const vl ra = tr ? k : n, ca = tr ? n : k, la = ra + r.below(3), lc = n + r.below(3);
		auto a = buf(nc(la)*ca), c = buf(nc(lc)*n); const auto c0 = c;
		B::syrk(lo, tr, n, k, al, a.data(), la, be, c.data(), lc);
		for (vl j = 0; j < n; ++j) for (vl i = 0; i < lc; ++i) {
			const bool in = i < n && (lo ? i >= j : i <= j);
			if (!in) { if (c[i + nc(lc)*j] != c0[i + nc(lc)*j]) { viol("st.syrk", "wrote outside of the triangle"); j = n; break; } continue; }
			ld s = 0; for (vl q = 0; q < k; ++q) s += (ld)(tr ? a[q + nc(la)*i] : a[i + nc(la)*q])*(tr ? a[q + nc(la)*j] : a[j + nc(la)*q]);
			const ld e = al*s + be*(ld)c0[i + nc(lc)*j]; if (!close(c[i + nc(lc)*j], e, 100 * k*EPS<T>)) { viol("st.syrk", "lower%d t%d (%u,%u): %g expected %g", lo, tr, i, j, (double)c[i + nc(lc)*j], (double)e); j = n; break; }
		}
	}
	{
		const bool left = r.b(), lo = r.b(); const vl d = left ? m : n, la = d + r.below(3), lb = m + r.below(3), lc = m + r.below(3);
		auto a = buf(nc(la)*d), b = buf(nc(lb)*n), c = buf(nc(lc)*n); const auto c0 = c;
		auto sa = [&](vl i, vl j) { return (lo ? i >= j : i <= j) ? a[i + nc(la)*j] : a[j + nc(la)*i]; };
		B::symm(left, lo, m, n, al, a.data(), la, b.data(), lb, be, c.data(), lc);
		for (vl j = 0; j < n; ++j) for (vl i = 0; i < m; ++i) {
			ld s = 0; if (left) for (vl q = 0; q < m; ++q) s += (ld)sa(i, q)*b[q + nc(lb)*j]; else for (vl q = 0; q < n; ++q) s += (ld)b[i + nc(lb)*q] * sa(q, j);
			const ld e = al*s + be*(ld)c0[i + nc(lc)*j]; if (!close(c[i + nc(lc)*j], e, 100 * 12 * EPS<T>)) { viol("st.symm", "left%d lower%d (%u,%u): %g expected %g", left, lo, i, j, (double)c[i + nc(lc)*j], (double)e); j = n; break; }
		}
	}
	{
		const vl ix = r.in(1, 3), iy = r.in(1, 3); auto x = buf(nc(1) + nc(n - 1)*ix), y = buf(nc(1) + nc(n - 1)*iy); const auto y0 = y;
		ld s = 0; for (vl i = 0; i < n; ++i) s += (ld)x[nc(i)*ix] * y[nc(i)*iy];
		const T d = B::dot(n, x.data(), ix, y.data(), iy); if (!close(d, s, 100 * n*EPS<T>)) viol("st.dot", "%g expected %g", (double)d, (double)s);
		B::axpy(n, al, x.data(), ix, y.data(), iy);
		for (nc i = 0; i < nc(y.size()); ++i) { const ld e = (i%iy) ? (ld)y0[i] : (ld)y0[i] + (ld)al*x[i / iy * ix]; if (!close(y[i], e, (i%iy) ? 0 : 16 * EPS<T>)) { viol("st.axpy", "%lld: %g expected %g", (long long)i, (double)y[i], (double)e); break; } }
	}
	{
		const bool tr = r.b(); const vl la = m + r.below(3), rb = tr ? n : m, cb = tr ? m : n, lb = rb + r.below(3);
		auto a = buf(nc(la)*n), b = buf(nc(lb)*cb); const auto b0 = b;
		B::omatcopy(tr, m, n, al, a.data(), la, b.data(), lb);
		for (vl j = 0; j < cb; ++j) for (vl i = 0; i < lb; ++i) { const ld e = i < rb ? (ld)al*(tr ? a[j + nc(la)*i] : a[i + nc(la)*j]) : (ld)b0[i + nc(lb)*j]; if (!close(b[i + nc(lb)*j], e, i < rb ? 8 * EPS<T> : 0)) { viol("st.omatcopy", "t%d (%u,%u)", tr, i, j); j = cb; break; } }
		auto c = buf(nc(m)*n); const auto c0 = c;
		B::imatcopy(true, m, n, al, c.data(), m, n);
		for (vl j = 0; j < m; ++j) for (vl i = 0; i < n; ++i) { const ld e = (ld)al*c0[j + nc(m)*i]; if (!close(c[i + nc(n)*j], e, 8 * EPS<T>)) { viol("st.imatcopy", "(%u,%u)", i, j); j = m; break; } }
	}
	ev("st.blas", 7);
}

template<typename T, typename U> void transposes_of(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 25, 300000);
	const bool sb = r.b(), db = r.b(), bir = r.b();
	auto uv = [&](U& x) { x = U(r.in(-100000, 100000)); };
	auto mk = [&](M<U>& x, bool b, bool row, vl bs, vl ss) { x.set_batchInRow(row); if (b) x.will_emulate_biases(); if (!x.resize_as_dataset(bs, ss)) viol("st.alloc", "resize"); for (nc i = 0; i < x.numel(); ++i) uv(x.data()[i]); if (b) x.set_biases(); };
	seen("transp", sb, db, bir, sizeof(U), m > 40, n > 40, m == 1, n == 1, m > n);
	auto at = [](const M<U>& x, vl s, vl c) { return x.bBatchInRow() ? x.get(c, s) : x.get(s, c); };
	M<U> S, D; mk(S, sb, bir, m, n); mk(D, db, !bir, m, n); const auto S0 = snap(S);
	auto chk = [&](const char* nm) {
		for (vl s = 0; s < m; ++s) for (vl c = 0; c < n; ++c) if (at(S, s, c) != at(D, s, c)) { viol("st.mTranspose", "%s %u samples of %u (biases %d->%d, in row %d): sample %u feature %u", nm, m, n, sb, db, bir, s, c); return; }
		if (db && !D.test_biases_strict()) viol("st.mTranspose", "%s broke biases", nm);
		unchanged("st.mTranspose", nm, S, S0);
	};
	auto prep = [&] { for (nc i = 0; i < D.numel(); ++i) D.data()[i] = U(3); if (db) D.set_biases(); };
	run_({ V_(mTranspose(S, D, true)), V_(mTranspose_ignore_bias(S, D)), V_(mTranspose_seq_read(S, D, true)), V_(mTranspose_seq_write(S, D, true)) }, prep, chk);
	if (sb == db) run_({ V_(mTranspose(S, D)), V_(mTranspose_seq_read(S, D, false)), V_(mTranspose_seq_write(S, D, false)) }, prep, chk);
	{
		const bool sb0 = sb; const bool sb = sb0 && std::is_floating_point<U>::value;
		MD<U> X; X.set_batchInRow(bir); if (sb) X.will_emulate_biases(); if (!X.resize_as_dataset(m, n)) viol("st.alloc", "resize");
		for (vl s = 0; s < m; ++s) for (vl c = 0; c < n; ++c) X.set(bir ? c : s, bir ? s : c, at(S, s, c));
		if (sb) X.set_biases();
		iM.s_mTranspose_ip(X);
		if (X.bBatchInRow() == bir || X.batch_size() != m || X.sample_size() != n || X.emulatesBiases() != sb) viol("st.mTranspose_ip", "wrong descriptor after the transposition: %u x %u", X.batch_size(), X.sample_size());
		else {
			for (vl s = 0; s < m; ++s) for (vl c = 0; c < n; ++c) if (at(S, s, c) != at(X, s, c)) { viol("st.mTranspose_ip", "%u samples of %u: sample %u feature %u", m, n, s, c); s = m; break; }
			if (sb && !X.test_biases_strict()) viol("st.mTranspose_ip", "broke biases");
		}
	}
	ev("st.transposes", nc(m)*n);
}
template<typename T> void transposes(R& r, IM<T>& iM) { if (r.b()) transposes_of<T, T>(r, iM); else if (r.b()) transposes_of<T, int>(r, iM); else transposes_of<T, T>(r, iM); }

// the K best values of every column, over one matrix and over a sequence of batches
template<typename T, template<class> class Ord, bool Distinct, bool Big> void korder(R& r, IM<T>& iM) {
	typedef math::mcwFindKOrdered_hlpr<T, Ord> H;
	const vl k = vl(r.in(1, 8)), n = vl(r.in(1, 12)), nb = vl(r.in(1, 4));
	const bool sb = r.b();
	typename H::hlprmtx_t h(H::hlprmtx_size_for(k, n));
	if (H::get_k(h) != k) { viol("st.korder", "k %u is read back as %u", k, H::get_k(h)); return; }
	typename H::Aggregator agg;
	std::vector<std::vector<T>> old(n);// what the cache held before the batch
	std::vector<std::vector<T>> all(n);// everything seen
	std::vector<M<T>> batches(nb);
	auto better = [](T a, T b) { return Big ? a > b : a < b; };
	for (vl b = 0; b < nb; ++b) {
		const vl m = std::max<vl>(k, vl(r.chance(20) ? r.in(200, 3000) : r.in(1, 60)));
		M<T>& S = batches[b]; if (sb) S.will_emulate_biases(); if (!S.resize_as_dataset(m, n)) { viol("st.alloc", "resize"); return; }
		const Fill f = r.pick({ Fill::uni, Fill::ties, Fill::gauss });
		fillm(r, S, f); if (sb) S.set_biases();
		if (!b && (Distinct)) for (vl c = 0; c < n; ++c) { vl off = r.below(int(m)); for (vl i = 0; i < k; ++i) S.set((off + i) % m, c, T(Big ? -1.25*i - .1 : 1.25*i + .1)); }// at least k different values
		const auto S0 = snap(S);
		if (r.b()) iM.template mcwFindKOrdered<H>(S, h, b > 0);
		else if (Big && Distinct) iM.mcwFindKBiggestDistinct(S, h, b > 0); else if (Big) iM.mcwFindKBiggest(S, h, b > 0); else if (Distinct) iM.mcwFindKSmallestDistinct(S, h, b > 0); else iM.mcwFindKSmallest(S, h, b > 0);
		unchanged("st.korder", "mcwFindKOrdered", S, S0);
		for (vl c = 0; c < n; ++c) {
			for (vl q = 0; q < m; ++q) all[c].push_back(S.get(q, c));
			std::vector<T> e = all[c]; std::sort(e.begin(), e.end(), better); if (Distinct) e.erase(std::unique(e.begin(), e.end()), e.end()); e.resize(k);
			const auto pc = h.colDataAsVec(c); const auto pI = H::get_idxs_ptr_from_column_ptr(pc, k); const auto pV = H::get_cache_ptr_from_column_ptr(pc, k);
			std::multiset<T> left(old[c].begin(), old[c].end()); std::set<vl> used; std::vector<T> nowv;
			for (vl i = 0; i < k; ++i) {
				const T v = pV[k - 1 - i]; const vl ix = pI[k - 1 - i]; nowv.push_back(v);
				if (v != e[i]) { viol("st.korder", "batch %u column %u: value %u of %u is %g, expected %g", b, c, i, k, (double)v, (double)e[i]); return; }
				if (ix == vl(-1)) { auto it = left.find(v); if (it == left.end()) { viol("st.korder", "batch %u column %u: value %g is said to be from an earlier batch", b, c, (double)v); return; } left.erase(it); }
				else if (ix >= m || S.get(ix, c) != v || !used.insert(ix).second) { viol("st.korder", "batch %u column %u: index %d of value %g is wrong", b, c, int(ix), (double)v); return; }
				else if (Distinct && std::find(old[c].begin(), old[c].end(), v) != old[c].end()) { viol("st.korder", "batch %u column %u: a value of an earlier batch was replaced by its duplicate", b, c); return; }
			}
			old[c] = nowv;
		}
		if (!H::is_hlprmtx_ok(h)) viol("st.korder", "is_hlprmtx_ok() refuses a proper result");
		if (Distinct && !agg.aggregate(h, b)) { viol("st.korder", "aggregate failed"); return; }
	}
	if (Distinct) {
		M<T> ex; if (!agg.export_values(ex) || ex.rows() != k || ex.cols() != n) { viol("st.korder_agg", "export failed"); return; }
		for (vl c = 0; c < n; ++c) for (vl i = 0; i < k; ++i) if (ex.get(i, c) != old[c][i]) { viol("st.korder_agg", "column %u value %u: %g expected %g", c, i, (double)ex.get(i, c), (double)old[c][i]); return; }
		const auto use = agg.batches_in_use(nb); std::vector<bool> use2(nb, false); nc tot = 0; bool bad = false;
		for (vl b = 0; b < nb; ++b) agg.for_batchIdx(b, [&](vl c, vl i, T v, vl ix) { ++tot; use2[b] = true; if (i >= k || c >= n || v != old[c][i] || ix >= batches[b].rows() || batches[b].get(ix, c) != v) bad = true; return true; });
		if (bad || tot != nc(k)*n || use != use2) viol("st.korder_agg", "batch attribution is wrong (%lld entries of %lld)", (long long)tot, (long long)(nc(k)*n));
	}
	seen("korder", Distinct, Big, k, nb, sb, sizeof(T)); ev("st.korder", nc(n)*nb);
}
template<typename T> void korders(R& r, IM<T>& iM) {
	switch (r.below(4)) { case 0: korder<T, math::Order_BiggestDistinct, true, true>(r, iM); break; case 1: korder<T, math::Order_Biggest, false, true>(r, iM); break; case 2: korder<T, math::Order_SmallestDistinct, true, false>(r, iM); break; default: korder<T, math::Order_Smallest, false, false>(r, iM); }
}

template<typename T> void all(int n) {
	std::string sfx = sizeof(T) == 8 ? ".d" : ".f";
	const int per = std::max(1, n / 4);
	for (unsigned hc : { 2u, 3u, 5u, 8u }) {
		g_hc = hc; MathBox<T> b(nc(900000));
		const unsigned nw = unsigned(b.iM.ithreads().cur_workers_count());
		auto nm = [&](const char* s) { return std::string(s) + sfx + std::to_string(hc); };
		group(nm("softmax").c_str(), per, [&](R& r, int) { softmaxes<T>(r, b.iM, nw); });
		group(nm("extract").c_str(), per * 2, [&](R& r, int) { extraction<T>(r, b.iM); });
		group(nm("norm").c_str(), per, [&](R& r, int) { norms<T>(r, b.iM, nw); });
		group(nm("prod").c_str(), per * 2, [&](R& r, int) { products<T>(r, b.iM); });
		group(nm("blas").c_str(), per * 2, [&](R& r, int) { blas<T>(r, b.iM); });
		group(nm("transp").c_str(), per, [&](R& r, int) { transposes<T>(r, b.iM); });
		group(nm("korder").c_str(), per * 2, [&](R& r, int) { korders<T>(r, b.iM); });
	}
}
int main(int argc, char** argv) {
	init(argc, argv);
	all<double>(100); all<float>(100);
	return done();
}
