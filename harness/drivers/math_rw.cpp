// rowwise/columnwise/reduction/structural operations of the simple math layer: every implementation variant against a long double oracle
#include "mathcommon.h"
using namespace vh;

template<typename T> struct Ctx { IM<T>& iM; R& r; const char* tn; };
#define KEY(k) (std::string("math.") + k).c_str()

// run every variant on fresh data, check via chk(name)
template<typename T, typename Prep, typename Chk> void variants(std::initializer_list<Var> vs, Prep&& prep, Chk&& chk) {
	for (auto& v : vs) { vh::note(v.name); prep(); v.f(); ev("rw.variant_runs"); chk(v.name); }
}

template<typename T> void rowvec(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n);
	const Fill f = anyFill(r);
	M<T> A(m, n); fillm(r, A, f);
	const auto A0 = snap(A);
	std::vector<T> v(m), d(m); for (auto& e : v) e = rv<T>(r, Fill::uni); for (auto& e : d) { e = rv<T>(r, Fill::pos); if (r.b()) e = -e; }
	const auto v0 = v, d0 = d;
	seen("rowvec", m > 40, n > 40, m == 1, n == 1, int(f), sizeof(T));
	auto restore = [&] { load(A, A0); };
	auto chkmul = [&](const char* nm) {
		for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) { const T e = T(A0[c*nc(m) + q] * v[q]); if (!close(A.get(q, c), e, ulps<T>(e, 2))) { viol("math.mrwMulByVec", "%s [%u,%u] at (%u,%u): %g expected %g", nm, m, n, q, c, (double)A.get(q, c), (double)e); return; } }
		if (v != v0) viol("math.mrwMulByVec", "%s changed its vector", nm);
	};
	variants<T>({ V_(mrwMulByVec(A, v.data())), V_(mrwMulByVec_st(A, v.data())), V_(mrwMulByVec_mt(A, v.data())), V_(mrwMulByVec_st_cw(A, v.data())), V_(mrwMulByVec_st_rw(A, v.data())), V_(mrwMulByVec_mt_cw(A, v.data())), V_(mrwMulByVec_mt_rw(A, v.data())) }, restore, chkmul);
	auto chkdiv = [&](const char* nm) {
		for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) { const T e = T(A0[c*nc(m) + q] / d[q]); if (!close(A.get(q, c), e, ulps<T>(e, 3))) { viol("math.mrwDivideByVec", "%s [%u,%u] at (%u,%u): %g expected %g", nm, m, n, q, c, (double)A.get(q, c), (double)e); return; } }
		if (d != d0) viol("math.mrwDivideByVec", "%s changed its vector", nm);
	};
	variants<T>({ V_(mrwDivideByVec(A, d.data())), V_(mrwDivideByVec_st(A, d.data())), V_(mrwDivideByVec_mt(A, d.data())), V_(mrwDivideByVec_st_cw(A, d.data())), V_(mrwDivideByVec_st_rw(A, d.data())), V_(mrwDivideByVec_mt_cw(A, d.data())), V_(mrwDivideByVec_mt_rw(A, d.data())) }, restore, chkdiv);
	ev("rw.rowvec", 14);
}

template<typename T> void rowmax(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n);
	const Fill f = r.pick({ Fill::uni, Fill::ties, Fill::gauss, Fill::hostile });
	M<T> A(m, n); fillm(r, A, f);
	if (r.chance(30)) for (int i = 0; i < 5; ++i) A.set(r.below(m), r.below(n), r.b() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
	if (r.chance(20)) for (vl c = 0; c < n; ++c) A.set(0, c, std::numeric_limits<T>::lowest());
	const auto A0 = snap(A);
	std::vector<T> e(m); for (vl q = 0; q < m; ++q) { e[q] = A0[q]; for (vl c = 1; c < n; ++c) e[q] = std::max(e[q], A0[q + nc(m)*c]); }
	seen("rowmax", m > 40, n > 40, m == 1, n == 1, int(f), sizeof(T));
	std::vector<vl> ix(m); std::vector<T> mx(m);
	auto prep = [&] { for (auto& x : ix) x = 0xabcdef; for (auto& x : mx) x = T(12345); };
	auto chkI = [&](const char* nm) {
		for (vl q = 0; q < m; ++q) if (ix[q] >= n || A0[q + nc(m)*ix[q]] != e[q]) { viol("math.mrwIdxsOfMax", "%s [%u,%u] row %u: index %u (%g), the maximum is %g", nm, m, n, q, ix[q], ix[q] < n ? (double)A0[q + nc(m)*ix[q]] : 0., (double)e[q]); return; }
		if (!same_bits(A0, A.data())) viol("math.mrwIdxsOfMax", "%s changed the matrix", nm);
	};
	variants<T>({ V_(mrwIdxsOfMax(A, ix.data())), V_(mrwIdxsOfMax_st(A, ix.data())), V_(mrwIdxsOfMax_mt(A, ix.data())), V_(mrwIdxsOfMax_st_cw(A, ix.data())), V_(mrwIdxsOfMax_st_rw(A, ix.data())), V_(mrwIdxsOfMax_st_rw_small(A, ix.data())), V_(mrwIdxsOfMax_mt_rw(A, ix.data())) }, prep, chkI);
	if (n > 4) variants<T>({ V_(mrwIdxsOfMax_mt_cw(A, ix.data())) }, prep, chkI);
	auto chkM = [&](const char* nm) {
		for (vl q = 0; q < m; ++q) if (mx[q] != e[q]) { viol("math.mrwMax", "%s [%u,%u] row %u: %g, expected %g", nm, m, n, q, (double)mx[q], (double)e[q]); return; }
		if (!same_bits(A0, A.data())) viol("math.mrwMax", "%s changed the matrix", nm);
	};
	variants<T>({ V_(mrwMax(A, mx.data())), V_(mrwMax_st(A, mx.data())), V_(mrwMax_mt(A, mx.data())), V_(mrwMax_st_cw(A, mx.data())), V_(mrwMax_st_rw(A, mx.data())), V_(mrwMax_st_rw_small(A, mx.data())), V_(mrwMax_mt_rw(A, mx.data())) }, prep, chkM);
	ev("rw.rowmax", 15);
}

template<typename T> void rowsum(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n);
	const Fill f = anyFill(r);
	M<T> A(m, n); fillm(r, A, f);
	const auto A0 = snap(A);
	std::vector<ld> e(m), ab(m); for (vl q = 0; q < m; ++q) for (vl c = 0; c < n; ++c) { const ld x = A0[q + nc(m)*c]; e[q] += x; ab[q] += std::fabs(x); }
	std::vector<T> s(m);
	seen("rowsum", m > 40, n > 40, m == 1, n == 1, int(f), sizeof(T));
	auto chk = [&](const char* nm) {
		for (vl q = 0; q < m; ++q) if (!close(s[q], e[q], ab[q] * n*EPS<T> + 1e-30L)) { viol("math.mrwSum", "%s [%u,%u] row %u: %g, expected %g", nm, m, n, q, (double)s[q], (double)e[q]); return; }
		if (!same_bits(A0, A.data())) viol("math.mrwSum", "%s changed the matrix", nm);
	};
	auto prep = [&] { for (auto& x : s) x = T(777); };
	variants<T>({ V_(mrwSum(A, s.data())), V_(mrwSum_st(A, s.data())), V_(mrwSum_mt(A, s.data())) }, prep, chk);
	if (n > 1) variants<T>({ V_(mrwSum_st_cw(A, s.data())), V_(mrwSum_st_rw(A, s.data())), V_(mrwSum_mt_rw(A, s.data())) }, prep, chk);
	if (n > 3) variants<T>({ V_(mrwSum_mt_cw(A, s.data())) }, prep, chk);
	auto chkip = [&](const char* nm) {
		for (vl q = 0; q < m; ++q) if (!close(A.data()[q], e[q], ab[q] * n*EPS<T> + 1e-30L)) { viol("math.mrwSum_ip", "%s [%u,%u] row %u: %g, expected %g", nm, m, n, q, (double)A.data()[q], (double)e[q]); return; }
		for (nc i = m; i < A.numel(); ++i) if (A.data()[i] != A0[i]) { viol("math.mrwSum_ip", "%s changed an element outside of the first column", nm); return; }
	};
	auto restore = [&] { load(A, A0); };
	variants<T>({ V_(mrwSum_ip(A)), V_(mrwSum_ip_st(A)), V_(mrwSum_ip_mt(A)) }, restore, chkip);
	if (n > 1) variants<T>({ V_(mrwSum_ip_st_cw(A)), V_(mrwSum_ip_st_rw(A)), V_(mrwSum_ip_st_rw_small(A)), V_(mrwSum_ip_mt_rw(A)) }, restore, chkip);
	if (n > 3) variants<T>({ V_(mrwSum_ip_mt_cw(A)) }, restore, chkip);
	ev("rw.rowsum", 15);
}

template<typename T> void rowor(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n);
	M<T> A(m, n); const int p = r.pick({ 1, 5, 30, 60 }); for (nc i = 0; i < A.numel(); ++i) A.data()[i] = T(r.chance(p));
	const auto A0 = snap(A);
	std::vector<T> e(m, T(0)), s(m); for (vl q = 0; q < m; ++q) for (vl c = 0; c < n; ++c) if (A0[q + nc(m)*c] != T(0)) e[q] = T(1);
	seen("rowor", m > 40, n > 40, m == 1, n == 1, p, sizeof(T));
	auto prep = [&] { for (auto& x : s) x = T(3); };
	auto chk = [&](const char* nm) {
		for (vl q = 0; q < m; ++q) if (s[q] != e[q]) { viol("math.mrwOr", "%s [%u,%u] row %u: %g, expected %g", nm, m, n, q, (double)s[q], (double)e[q]); return; }
		if (!same_bits(A0, A.data())) viol("math.mrwOr", "%s changed the matrix", nm);
	};
	variants<T>({ V_(mrwOr(A, s.data())), V_(mrwOr_st(A, s.data())), V_(mrwOr_mt(A, s.data())), V_(mrwOr_st_cw(A, s.data())), V_(mrwOr_st_rw(A, s.data())), V_(mrwOr_mt_rw(A, s.data())) }, prep, chk);
	if (n > 3) variants<T>({ V_(mrwOr_mt_cw(A, s.data())) }, prep, chk);
	ev("rw.rowor", 7);
}

template<typename T> void sums(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 30, 60000);
	const Fill f = anyFill(r);
	const bool bias = r.b();
	M<T> A(m, n, bias), B(m, n, bias); fillm(r, A, f); fillm(r, B, f);
	const auto A0 = snap(A), B0 = snap(B);
	const nc ne = A.numel();
	ld sp = 0, spa = 0, sq = 0; for (nc i = 0; i < ne; ++i) { const ld x = A0[i], y = B0[i]; sp += x*y; spa += std::fabs(x*y); sq += x*x; }
	seen("sums", m > 40, n > 40, m == 1, n == 1, int(f), sizeof(T), bias);
	const ld tol = ne*EPS<T>;
	auto c1 = [&](const char* nm, T v, ld e, ld a) { ev("rw.sum_values"); VCHECK(close(v, e, a*tol + 1e-30L), "math.sums", "%s over %lld elements: %.9g expected %.9Lg", nm, (long long)ne, (double)v, e); };
	if (!bias) { //defined over whole storage
		c1("ewSumProd", iM.ewSumProd(A, B), sp, spa); c1("ewSumProd_st", iM.ewSumProd_st(A, B), sp, spa); c1("ewSumProd_mt", iM.ewSumProd_mt(A, B), sp, spa);
		c1("ewSumSquares", iM.ewSumSquares(A), sq, sq); c1("ewSumSquares_st", iM.ewSumSquares_st(A), sq, sq); c1("ewSumSquares_mt", iM.ewSumSquares_mt(A), sq, sq);
		c1("ewSumSquares_ns", iM.ewSumSquares_ns(A), sq, sq); c1("ewSumSquares_st_ns", iM.ewSumSquares_st_ns(A), sq, sq); c1("ewSumSquares_mt_ns", iM.ewSumSquares_mt_ns(A), sq, sq);
	}
	const nc k = 1 + r.below(int(ne)); ld sk = 0; for (nc i = 0; i < k; ++i) sk += (ld)A0[i] * A0[i];
	const T* p = A.data();
	c1("ptr", iM.ewSumSquares(p, k), sk, sk); c1("ptr_st", iM.ewSumSquares_st(p, k), sk, sk); c1("ptr_mt", iM.ewSumSquares_mt(p, k), sk, sk);
	c1("ptr_ns", iM.ewSumSquares_ns(p, k), sk, sk); c1("ptr_st_ns", iM.ewSumSquares_st_ns(p, k), sk, sk); c1("ptr_mt_ns", iM.ewSumSquares_mt_ns(p, k), sk, sk);
	if (!same_bits(A0, A.data()) || !same_bits(B0, B.data())) viol("math.sums", "a sum changed its arguments");
	//column sums ignore biases
	std::vector<T> cs(A.cols_no_bias(), T(5)), cs2(A.cols_no_bias(), T(6));
	iM.template mcwSum<false>(A, cs.data()); iM.template mcwSum<true>(A, cs2.data());
	for (vl c = 0; c < A.cols_no_bias(); ++c) {
		ld s = 0, a = 0; for (vl q = 0; q < m; ++q) { s += A0[q + nc(m)*c]; a += std::fabs((ld)A0[q + nc(m)*c]); }
		if (!close(cs[c], s, a*m*EPS<T> + 1e-30L) || !close(cs2[c], s, a * m*EPS<T> + 1e-30L)) { viol("math.mcwSum", "[%u,%u] column %u: %g / %g expected %g", m, n, c, (double)cs[c], (double)cs2[c], (double)s); break; }
	}
	//compensated summation is accurate to the last bits, however long the vector
	if (r.chance(30)) {
		const nc q = r.in(1000, 60000); std::vector<T> v(q); ld s = 0; for (auto& e : v) { e = T(r.uni(.1, 1)); s += (ld)e*e; }
		const T a = iM.ewSumSquares_st_ns(v.data(), q), b = iM.ewSumSquares_mt_ns(v.data(), q);
		VCHECK(close(a, s, s * 8 * EPS<T>) && close(b, s, s * 8 * EPS<T>), "math.numstab", "numerically stable sum over %lld: %.10g / %.10g expected %.10Lg", (long long)q, (double)a, (double)b, s);
		ev("rw.numstab");
	}
}

template<typename T> void triang(R& r, IM<T>& iM) {
	const vl n = r.chance(25) ? r.in(80, 260) : r.in(2, 40);
	M<T> A(n, n); fillm(r, A, anyFill(r)); const auto A0 = snap(A);
	ld lo = 0, up = 0; for (vl c = 0; c < n; ++c) for (vl q = 0; q < n; ++q) { const ld x = (ld)A0[q + nc(n)*c] * A0[q + nc(n)*c]; if (q > c) lo += x; else if (q < c) up += x; }
	seen("triang", n > 40, n > 150, n, sizeof(T));
	auto c1 = [&](const char* nm, T v, ld e) { ev("rw.triang"); VCHECK(close(v, e, e*n*n*EPS<T> + 1e-30L), "math.triang", "%s n=%u: %.9g expected %.9Lg", nm, n, (double)v, e); };
	c1("lo", iM.template ewSumSquaresTriang<true, false>(A), lo); c1("lo_ns", iM.template ewSumSquaresTriang<true, true>(A), lo);
	c1("lo_st", iM.template ewSumSquaresTriang_st<true, false>(A), lo); c1("lo_mt", iM.template ewSumSquaresTriang_mt<true, false>(A), lo);
	c1("lo_st_ns", iM.template ewSumSquaresTriang_st<true, true>(A), lo); c1("lo_mt_ns", iM.template ewSumSquaresTriang_mt<true, true>(A), lo);
	c1("up", iM.template ewSumSquaresTriang<false, false>(A), up); c1("up_ns", iM.template ewSumSquaresTriang<false, true>(A), up);
	c1("up_st", iM.template ewSumSquaresTriang_st<false, false>(A), up); c1("up_mt", iM.template ewSumSquaresTriang_mt<false, false>(A), up);
	c1("up_st_ns", iM.template ewSumSquaresTriang_st<false, true>(A), up); c1("up_mt_ns", iM.template ewSumSquaresTriang_mt<false, true>(A), up);
	if (!same_bits(A0, A.data())) viol("math.triang", "changed its argument");
}

template<typename T> void colops(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n);
	const Fill f = anyFill(r);
	M<T> A(m, n); fillm(r, A, f); const auto A0 = snap(A);
	seen("colops", m > 40, n > 40, m == 1, n == 1, int(f), sizeof(T));
	std::vector<ld> mean(n), ab(n), mnz(n), cnz(n); const T cp = r.b() ? T(0) : T(r.in(-2, 2));
	for (vl c = 0; c < n; ++c) {
		for (vl q = 0; q < m; ++q) { const ld x = A0[q + nc(m)*c]; mean[c] += x; ab[c] += std::fabs(x); if (x != cp) { mnz[c] += x; cnz[c] += 1; } }
		mean[c] /= m; if (cnz[c] > 0) mnz[c] = mnz[c] / cnz[c] - cp;
	}
	std::vector<T> mv(n);
	auto prep = [&] { for (auto& x : mv) x = T(99); load(A, A0); };
	auto tolc = [&](vl c) { return 4 * ab[c] * EPS<T> + EPS<T> * 8 * ab[c] / m + 1e-30L; };
	auto chkmean = [&](const char* nm) {
		for (vl c = 0; c < n; ++c) if (!close(mv[c], mean[c], tolc(c))) { viol("math.mcwMean", "%s [%u,%u] col %u: %g expected %g", nm, m, n, c, (double)mv[c], (double)mean[c]); return; }
		if (!same_bits(A0, A.data())) viol("math.mcwMean", "%s changed the matrix", nm);
	};
	variants<T>({ Var{"mcwMean<0>",[&] {iM.template mcwMean<false>(A, mv.data()); }}, Var{"mcwMean<1>",[&] {iM.template mcwMean<true>(A, mv.data()); }}, Var{"mcwMean_st<0>",[&] {iM.template mcwMean_st<false>(A, mv.data()); }}, Var{"mcwMean_st<1>",[&] {iM.template mcwMean_st<true>(A, mv.data()); }}, Var{"mcwMean_mt<0>",[&] {iM.template mcwMean_mt<false>(A, mv.data()); }}, Var{"mcwMean_mt<1>",[&] {iM.template mcwMean_mt<true>(A, mv.data()); }} }, prep, chkmean);
	auto chkde = [&](const char* nm) {
		for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) { const ld e = A0[q + nc(m)*c] - mean[c]; if (!close(A.get(q, c), e, tolc(c) + ulps<T>(A0[q + nc(m)*c], 2))) { viol("math.mcwDeMean", "%s [%u,%u] (%u,%u): %g expected %g", nm, m, n, q, c, (double)A.get(q, c), (double)e); return; } }
	};
	variants<T>({ Var{"mcwDeMean<0>",[&] {iM.template mcwDeMean<false>(A); }}, Var{"mcwDeMean<1>",[&] {iM.template mcwDeMean<true>(A); }}, Var{"mcwDeMean_st",[&] {iM.template mcwDeMean_st<true>(A); }}, Var{"mcwDeMean_st<0>",[&] {iM.template mcwDeMean_st<false>(A); }}, Var{"mcwDeMean_mt",[&] {iM.template mcwDeMean_mt<true>(A); }}, Var{"mcwDeMean_mt<0>",[&] {iM.template mcwDeMean_mt<false>(A); }} }, prep, chkde);
	auto chknz = [&](const char* nm) {
		for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) { const T x = A0[q + nc(m)*c]; const ld e = x == cp ? (ld)cp : x - mnz[c]; if (!close(A.get(q, c), e, cnz[c] > 0 ? tolc(c)*(1 + m / cnz[c]) + ulps<T>(std::fabs((ld)x) + std::fabs((ld)cp), 4) : 0)) { viol("math.mcwDeMeanNZ", "%s [%u,%u] (%u,%u): %g expected %g cp %g", nm, m, n, q, c, (double)A.get(q, c), (double)e, (double)cp); return; } }
	};
	variants<T>({ Var{"mcwDeMeanNZ<0>",[&] {iM.template mcwDeMeanNZ<false>(A, cp); }}, Var{"mcwDeMeanNZ<1>",[&] {iM.template mcwDeMeanNZ<true>(A, cp); }}, Var{"mcwDeMeanNZ_st",[&] {iM.template mcwDeMeanNZ_st<true>(A, cp); }}, Var{"mcwDeMeanNZ_st<0>",[&] {iM.template mcwDeMeanNZ_st<false>(A, cp); }}, Var{"mcwDeMeanNZ_mt",[&] {iM.template mcwDeMeanNZ_mt<true>(A, cp); }}, Var{"mcwDeMeanNZ_mt<0>",[&] {iM.template mcwDeMeanNZ_mt<false>(A, cp); }} }, prep, chknz);
	std::vector<T> sv(n); for (auto& e : sv) e = rv<T>(r, Fill::gauss);
	auto chksub = [&](const char* nm) {
		for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) { const T e = A0[q + nc(m)*c] - sv[c]; if (!close(A.get(q, c), e, ulps<T>(e, 1))) { viol("math.mcwSub_ip", "%s [%u,%u] (%u,%u): %g expected %g", nm, m, n, q, c, (double)A.get(q, c), (double)e); return; } }
	};
	variants<T>({ V_(mcwSub_ip(A, sv.data())), V_(mcwSub_ip_st(A, sv.data())), V_(mcwSub_ip_mt(A, sv.data())) }, prep, chksub);
	if (n <= 300) {
		M<T> B(n, n); fillm(r, B, Fill::gauss); const auto B0 = snap(B);
		auto chkd = [&](const char* nm) {
			for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) { const T e = A0[q + nc(m)*c] * B0[c + nc(n)*c]; if (!close(A.get(q, c), e, ulps<T>(e, 1))) { viol("math.mcwMulDiag_ip", "%s [%u,%u] (%u,%u): %g expected %g", nm, m, n, q, c, (double)A.get(q, c), (double)e); return; } }
			if (!same_bits(B0, B.data())) viol("math.mcwMulDiag_ip", "%s changed B", nm);
		};
		variants<T>({ V_(mcwMulDiag_ip(A, B)), V_(mcwMulDiag_ip_st(A, B)), V_(mcwMulDiag_ip_mt(A, B)) }, prep, chkd);
	}
	ev("rw.colops", 24);
}

template<typename T> void cloning(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 15, 8000); if (n > 200) n = 200;
	M<T> S(m, n); fillm(r, S, Fill::gauss); const auto S0 = snap(S);
	std::vector<vl> spec(n); vl tot = 0; for (auto& e : spec) { e = r.chance(60) ? 1 : r.in(1, 7); tot += e; }
	M<T> D(m, tot);
	seen("cloneCols", m > 40, n > 40, m == 1, n == 1, n, sizeof(T));
	auto prep = [&] { for (nc i = 0; i < D.numel(); ++i) D.data()[i] = T(-77); };
	auto chk = [&](const char* nm) {
		vl dc = 0; for (vl c = 0; c < n; ++c) for (vl k = 0; k < spec[c]; ++k, ++dc) if (memcmp(D.colDataAsVec(dc), &S0[nc(m)*c], m * sizeof(T))) { viol("math.mCloneCols", "%s: dest column %u isn't a copy of column %u", nm, dc, c); return; }
		if (!same_bits(S0, S.data())) viol("math.mCloneCols", "%s changed the source", nm);
	};
	variants<T>({ V_(mCloneCols(S, D, spec.data())), V_(mCloneCols_st(S, D, spec.data())), V_(mCloneCols_mt(S, D, spec.data())) }, prep, chk);
	M<T> S1(m, 1); fillm(r, S1, Fill::gauss);
	auto chk1 = [&](const char* nm) { for (vl c = 0; c < tot; ++c) if (memcmp(D.colDataAsVec(c), S1.data(), m * sizeof(T))) { viol("math.mCloneCol", "%s: dest column %u of %u isn't a copy", nm, c, tot); return; } };
	variants<T>({ V_(mCloneCol(S1, D)), V_(mCloneCol_st(S1, D)), V_(mCloneCol_mt(S1, D)) }, prep, chk1);
	ev("rw.clone", 6);
}

template<typename T> void tiling(R& r, IM<T>& iM) {
	const bool big = r.chance(20);
	const vl m = big ? r.in(30, 300) : r.in(1, 20), n = big ? r.in(2, 40) : r.in(1, 9), k = r.in(2, 7); const bool bias = r.b();
	M<T> S(m, k*n, bias), D(k*m, n, bias); fillm(r, S, Fill::gauss); const auto S0 = snap(S);
	seen("tiling", m > 20, n == 1, m == 1, n, k, bias, sizeof(T));
	auto prep = [&] { for (nc i = 0; i < D.numel_no_bias(); ++i) D.data()[i] = T(-77); };
	auto chk = [&](const char* nm) {
		for (vl t = 0; t < k; ++t) for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) if (D.get(t*m + q, c) != S.get(q, t*n + c)) { viol("math.mTilingRoll", "%s m=%u n=%u k=%u bias=%d: tile %u col %u row %u", nm, m, n, k, bias, t, c, q); return; }
		if (bias) for (vl q = 0; q < k*m; ++q) if (D.get(q, n) != T(1)) { viol("math.mTilingRoll", "%s spoiled a bias", nm); return; }
		if (!same_bits(S0, S.data())) viol("math.mTilingRoll", "%s changed the source", nm);
	};
	variants<T>({ V_(mTilingRoll(S, D)), V_(mTilingRoll_st(S, D)), V_(mTilingRoll_mt(S, D)), V_(mTilingRoll_seqread_st(S, D)), V_(mTilingRoll_seqread_mt(S, D)), V_(mTilingRoll_seqwrite_st(S, D)), V_(mTilingRoll_seqwrite_mt(S, D)) }, prep, chk);
	fillm(r, D, Fill::gauss); const auto D0 = snap(D);
	auto prepU = [&] { for (nc i = 0; i < S.numel_no_bias(); ++i) S.data()[i] = T(-77); };
	auto chkU = [&](const char* nm) {
		for (vl t = 0; t < k; ++t) for (vl c = 0; c < n; ++c) for (vl q = 0; q < m; ++q) if (D0[nc(k*m)*c + t*m + q] != S.get(q, t*n + c)) { viol("math.mTilingUnroll", "%s m=%u n=%u k=%u bias=%d: tile %u col %u row %u", nm, m, n, k, bias, t, c, q); return; }
		if (bias) for (vl q = 0; q < m; ++q) if (S.get(q, k*n) != T(1)) { viol("math.mTilingUnroll", "%s spoiled a bias", nm); return; }
		if (!same_bits(D0, D.data())) viol("math.mTilingUnroll", "%s changed the source", nm);
	};
	variants<T>({ V_(mTilingUnroll(D, S)), V_(mTilingUnroll_st(D, S)), V_(mTilingUnroll_mt(D, S)), V_(mTilingUnroll_seqread_st(D, S)), V_(mTilingUnroll_seqread_mt(D, S)), V_(mTilingUnroll_seqwrite_st(D, S)), V_(mTilingUnroll_seqwrite_mt(D, S)) }, prepU, chkU);
	ev("rw.tiling", 14);
}

template<typename T> void all(const char* tn) {
	auto g = [&](const char* n, int cnt, auto f) {
		MathBox<T>* b = nullptr; unsigned hc = 0;
		group((std::string(n) + "_" + tn).c_str(), cnt, [&](R& r, int i) {
			const unsigned w = r.pick({ 2u, 3u, 4u, 5u, 8u });
			if (!b || w != hc) { if (b) delete b; g_hc = hc = w; b = new MathBox<T>(2 * 60000 * 9); }
			f(r, b->iM);
		});
		if (b) delete b;
	};
	g("rowvec", 40, rowvec<T>); g("rowmax", 50, rowmax<T>); g("rowsum", 50, rowsum<T>); g("rowor", 40, rowor<T>); g("sums", 50, sums<T>);
	g("triang", 40, triang<T>); g("colops", 40, colops<T>); g("cloning", 40, cloning<T>); g("tiling", 60, tiling<T>);
}
int main(int argc, char** argv) {
	init(argc, argv);
	all<float>("f"); all<double>("d");
	return done();
}
