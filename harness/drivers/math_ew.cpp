// elementwise operations of the math layer: every implementation variant against a per-element long double oracle
#include "mathcommon.h"
using namespace vh;

// run all variants: prep, call, check
template<typename Prep, typename Chk> void run_(std::initializer_list<Var> vs, Prep&& prep, Chk&& chk) { for (auto& v : vs) { vh::note(v.name); prep(); v.f(); ev("ew.variant_runs"); chk(v.name); } }

template<typename T> void binary_ops(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 30, 40000);
	const Fill f = anyFill(r), g = anyFill(r);
	M<T> A(m, n), B(m, n), C(m, n); fillm(r, A, f); fillm(r, B, g); fillm(r, C, f);
	const auto A0 = snap(A), B0 = snap(B), C0 = snap(C);
	auto prep = [&] { load(A, A0); load(C, C0); };
	T c; do c = rv<T>(r, Fill::uni); while (std::fabs(c) < T(1e-3));
	const bool one = r.chance(10); if (one) c = T(1);
	seen("bin", int(f), int(g), m > 40, n > 40, m == 1, n == 1, sizeof(T), one);
	auto chkA = [&](const char* key, auto e) { return [&, key, e](const char* nm) { chk_cells<T>(key, nm, A, A0, e); unchanged(key, nm, B, B0); }; };
	auto chkC = [&](const char* key, auto e) { return [&, key, e](const char* nm) { chk_cells<T>(key, nm, C, C0, e); unchanged(key, nm, A, A0); unchanged(key, nm, B, B0); }; };
	auto sg = [](ld x) { return x > 0 ? 1.L : (x < 0 ? -1.L : 0.L); };
	run_({ V_(evMul_ip(A, B)), V_(evMul_ip_st(A, B)), V_(evMul_ip_mt(A, B)) }, prep, chkA("ew.evMul_ip", [&](nc i, ld& t) { const ld x = (ld)A0[i] * B0[i]; t = ulps<T>(x, 1); return x; }));
	auto add = [&](nc i, ld& t) { const ld x = (ld)A0[i] + B0[i]; t = ulps<T>(x, 1); return x; };
	run_({ V_(evAdd_ip(A, B)), V_(evAdd_ip_st(A, B)), V_(evAdd_ip_mt(A, B)) }, prep, chkA("ew.evAdd_ip", add));
	run_({ V_(vAdd_ip(A.data(), B.data(), A.numel())), V_(vAdd_ip_st(A.data(), B.data(), A.numel())), V_(vAdd_ip_mt(A.data(), B.data(), A.numel())) }, prep, chkA("ew.vAdd_ip", add));
	auto sub = [&](nc i, ld& t) { const ld x = (ld)A0[i] - B0[i]; t = ulps<T>(x, 1); return x; };
	run_({ V_(evSub_ip(A, B)), V_(evSub_ip_st_naive(A, B)), V_(evSub_ip_mt_naive(A, B)) }, prep, chkA("ew.evSub_ip", sub));
	run_({ V_(evSub(A, B, C)), V_(evSub_st_naive(A, B, C)), V_(evSub_mt_naive(A, B, C)) }, prep, chkC("ew.evSub", sub));
	if (c != T(1)) {
		auto as = [&](nc i, ld& t) { const ld x = (ld)A0[i] + (ld)c*B0[i]; t = ulps<T>(std::fabs((ld)A0[i]) + std::fabs((ld)c*B0[i]), 2); return x; };
		run_({ V_(evAddScaled_ip(A, c, B)), V_(evAddScaled_ip_st(A, c, B)), V_(evAddScaled_ip_mt(A, c, B)) }, prep, chkA("ew.evAddScaled_ip", as));
		auto nz = [&](nc i, ld& t) { if (A0[i] == T(0)) { t = 0; return 0.L; } return as(i, t); };
		run_({ V_(evNZAddScaled_ip(A, c, B)), V_(evNZAddScaled_ip_st(A, c, B)), V_(evNZAddScaled_ip_mt(A, c, B)) }, prep, chkA("ew.evNZAddScaled_ip", nz));
	}
	auto ass = [&](nc i, ld& t) { const ld x = (ld)A0[i] + (ld)c*sg(B0[i]); t = ulps<T>(std::fabs((ld)A0[i]) + std::fabs((ld)c), 2); return x; };
	run_({ V_(evAddScaledSign_ip(A, c, B)), V_(evAddScaledSign_ip_st(A, c, B)), V_(evAddScaledSign_ip_mt(A, c, B)) }, prep, chkA("ew.evAddScaledSign_ip", ass));
	auto nzs = [&](nc i, ld& t) { if (A0[i] == T(0)) { t = 0; return 0.L; } return ass(i, t); };
	run_({ V_(evNZAddScaledSign_ip(A, c, B)), V_(evNZAddScaledSign_ip_st(A, c, B)), V_(evNZAddScaledSign_ip_mt(A, c, B)) }, prep, chkA("ew.evNZAddScaledSign_ip", nzs));
	run_({ V_(evSign(C, B)), V_(evSign_st(C, B)), V_(evSign_mt(C, B)) }, prep, chkC("ew.evSign", [&](nc i, ld&) { return sg(B0[i]); }));
	run_({ V_(evSquare(C, B)), V_(evSquare_st(C, B)), V_(evSquare_mt(C, B)) }, prep, chkC("ew.evSquare", [&](nc i, ld& t) { const ld x = (ld)B0[i] * B0[i]; t = ulps<T>(x, 1); return x; }));
	run_({ V_(evAbs(C, B)), V_(evAbs_st(C, B)), V_(evAbs_mt(C, B)) }, prep, chkC("ew.evAbs", [&](nc i, ld&) { return std::fabs((ld)B0[i]); }));
	{// momentum: v <- m*v + d ;  v <- m*v, w <- w - v
		const T mo = T(r.uni(.01, .999));
		run_({ V_(apply_momentum(A, mo, B)), V_(apply_momentum_st(A, mo, B)), V_(apply_momentum_mt(A, mo, B)) }, prep, chkA("ew.apply_momentum", [&](nc i, ld& t) { const ld x = (ld)mo*A0[i] + B0[i]; t = ulps<T>(std::fabs((ld)mo*A0[i]) + std::fabs((ld)B0[i]), 2); return x; }));
		run_({ V_(evMulC_ip_Sub_ip(A, mo, C)), V_(evMulC_ip_Sub_ip_st(A, mo, C)), V_(evMulC_ip_Sub_ip_mt(A, mo, C)) }, prep, [&](const char* nm) {
			chk_cells<T>("ew.evMulC_ip_Sub_ip", nm, A, A0, [&](nc i, ld& t) { const ld x = (ld)mo*A0[i]; t = ulps<T>(x, 1); return x; });
			chk_cells<T>("ew.evMulC_ip_Sub_ip", nm, C, C0, [&](nc i, ld& t) { const ld x = (ld)C0[i] - (ld)mo*A0[i]; t = ulps<T>(std::fabs((ld)C0[i]) + std::fabs((ld)mo*A0[i]), 2); return x; });
		});
	}
	{// sums of absolute values
		ld e = 0; for (auto x : A0) e += std::fabs((ld)x);
		T got[3]; load(A, A0); got[0] = iM.vSumAbs(A); got[1] = iM.vSumAbs_st(A); got[2] = iM.vSumAbs_mt(A);
		for (int k = 0; k < 3; ++k) if (!close(got[k], e, e*EPS<T> * ld(A0.size() + 16) + 1e-30L)) viol("ew.vSumAbs", "variant %d [%u,%u]: %.9g expected %.9g", k, m, n, (double)got[k], (double)e);
		unchanged("ew.vSumAbs", "vSumAbs", A, A0);
	}
	ev("ew.binary_ops", A.numel());
}

// operations whose first argument may carry biases that must stay
template<typename T> void bias_ops(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 30, 40000);
	const Fill f = anyFill(r), g = anyFill(r);
	const bool bias = r.chance(70), bir = r.chance(40);
	M<T> A; if (bir) A.set_batchInRow(true); if (bias) A.will_emulate_biases();
	if (!A.resize_as_dataset(bir ? n : m, bir ? m : n)) { viol("ew.alloc", "resize failed"); return; }
	fillm(r, A, f); if (bias) A.set_biases();
	const auto A0 = snap(A);
	auto prep = [&] { load(A, A0); };
	T c; do c = rv<T>(r, Fill::uni); while (std::fabs(c) < T(1e-3) || c == T(1));
	const T o = rv<T>(r, Fill::uni) + T(2.5);
	const bool ig = bias || r.b();
	seen("bias", bias, bir, int(f), m > 40, n > 40, m == 1, n == 1, sizeof(T));
	auto ck = [&](const char* key, auto e) { return [&, key, e](const char* nm) { chk_cells<T>(key, nm, A, A0, e); }; };
	auto mac = [&](nc i, ld& t) { const ld x = (ld)A0[i] * c + o; t = ulps<T>(std::fabs((ld)A0[i] * c) + std::fabs((ld)o), 2); return x; };
	run_({ V_(evMulCAddC_ip(A, c, o, ig)), V_(evMulCAddC_ip_nb(A, c, o)), V_(evMulCAddC_ip_st(A, c, o, ig)), V_(evMulCAddC_ip_mt(A, c, o, ig)) }, prep, ck("ew.evMulCAddC_ip", mac));
	auto mul = [&](nc i, ld& t) { const ld x = (ld)A0[i] * c; t = ulps<T>(x, 1); return x; };
	run_({ V_(evMulC_ip(A, c, ig)), V_(evMulC_ip_nb(A, c)), V_(evMulC_ip_st(A, c, ig)), V_(evMulC_ip_mt(A, c, ig)) }, prep, ck("ew.evMulC_ip", mul));
	auto adc = [&](nc i, ld& t) { const ld x = (ld)A0[i] + c; t = ulps<T>(std::fabs((ld)A0[i]) + std::fabs((ld)c), 1); return x; };
	run_({ V_(evAddC_ip(A, c, ig)), V_(evAddC_ip_nb(A, c)), V_(evAddC_ip_st(A, c, ig)), V_(evAddC_ip_mt(A, c, ig)) }, prep, ck("ew.evAddC_ip", adc));
	if (!bias) {
		run_({ V_(evMulC_ip(A.data(), A.numel(), c)), V_(evMulC_ip_st(A.data(), A.numel(), c)), V_(evMulC_ip_mt(A.data(), A.numel(), c)) }, prep, ck("ew.evMulC_ip_vec", mul));
		const T lo = rv<T>(r, Fill::uni) - T(1), hi = lo + T(r.uni(.1, 3));
		run_({ V_(evClamp(A, lo, hi)), V_(evClamp_st(A, lo, hi)), V_(evClamp_mt(A, lo, hi)) }, prep, ck("ew.evClamp", [&](nc i, ld&) { return (ld)std::min(std::max(A0[i], lo), hi); }));
	}
	if (!bir) {// the second operand has no biases
		M<T> B(m, n); fillm(r, B, g); const auto B0 = snap(B);
		auto ckb = [&](const char* key, auto e) { return [&, key, e](const char* nm) { chk_cells<T>(key, nm, A, A0, e); unchanged(key, nm, B, B0); }; };
		run_({ V_(evSubMtxMulC_ip_nb(A, B, c)), V_(evSubMtxMulC_ip_nb_st(A, B, c)), V_(evSubMtxMulC_ip_nb_mt(A, B, c)) }, prep, ckb("ew.evSubMtxMulC_ip_nb", [&](nc i, ld& t) { const ld x = ((ld)A0[i] - B0[i])*c; t = ulps<T>(x, 2); return x; }));
		run_({ V_(evMul_ip_Anb(A, B)), V_(evMul_ip_Anb_st(A, B)), V_(evMul_ip_Anb_mt(A, B)) }, prep, ckb("ew.evMul_ip_Anb", [&](nc i, ld& t) { const ld x = (ld)A0[i] * B0[i]; t = ulps<T>(x, 1); return x; }));
		run_({ V_(evAdd_Anb_ip(A, B)), V_(evAdd_Anb_ip_st(A, B)), V_(evAdd_Anb_ip_mt(A, B)) }, prep, ckb("ew.evAdd_Anb_ip", [&](nc i, ld& t) { const ld x = (ld)A0[i] + B0[i]; t = ulps<T>(x, 1); return x; }));
		{// gate complement
			M<T> G(m, n, r.b()), H(m, n, r.b()); fillm(r, G, Fill::bin); fillm(r, H, Fill::uni); const auto G0 = snap(G), H0 = snap(H);
			run_({ V_(evOneCompl(G, H)), V_(evOneCompl_st(G, H)), V_(evOneCompl_mt(G, H)) }, [&] { load(H, H0); }, [&](const char* nm) { chk_cells<T>("ew.evOneCompl", nm, H, H0, [&](nc i, ld&) { return 1.L - G0[i]; }); unchanged("ew.evOneCompl", nm, G, G0); });
		}
		{// binarisation
			const T fr = r.b() ? A0[r.below(int(A.numel_no_bias()))] : T(r.uni(-1, 1)), lb = rv<T>(r, Fill::ties), ub = lb + T(1);
			run_({ V_(ewBinarize_ip(A, fr, lb, ub)), V_(ewBinarize_ip_st(A, fr, lb, ub)), V_(ewBinarize_ip_mt(A, fr, lb, ub)) }, prep, ck("ew.ewBinarize_ip", [&](nc i, ld&) { return (ld)(A0[i] > fr ? ub : lb); }));
			run_({ V_(ewBinarize_ip(A, fr)), V_(ewBinarize_ip_st(A, fr)), V_(ewBinarize_ip_mt(A, fr)) }, prep, ck("ew.ewBinarize_ip", [&](nc i, ld&) { return (ld)(A0[i] > fr); }));
			load(A, A0);
			M<char> D(m, n); std::vector<char> D0(D.numel(), 7); M<T> D2(m, n); const std::vector<T> D20(D2.numel(), T(7));
			run_({ V_(ewBinarize(D, A, fr)), V_(ewBinarize_st(D, A, fr)), V_(ewBinarize_mt(D, A, fr)) }, [&] { load(D, D0); }, [&](const char* nm) { for (nc i = 0; i < D.numel(); ++i) if (D.data()[i] != char(A0[i] > fr)) { viol("ew.ewBinarize", "%s char dest, element %lld", nm, (long long)i); break; } unchanged("ew.ewBinarize", nm, A, A0); });
			run_({ V_(ewBinarize(D2, A, fr)), V_(ewBinarize_st(D2, A, fr)), V_(ewBinarize_mt(D2, A, fr)) }, [&] { load(D2, D20); }, [&](const char* nm) { chk_cells<T>("ew.ewBinarize", nm, D2, D20, [&](nc i, ld&) { return (ld)(A0[i] > fr); }); unchanged("ew.ewBinarize", nm, A, A0); });
			// a batch into a part of a bigger matrix
			const vl extra = r.b() ? 0 : vl(r.in(0, 20)), ofs = extra ? vl(r.below(int(extra) + 1)) : 0;
			M<char> W(m + extra, n); std::vector<char> W0(W.numel(), 7);
			run_({ V_(ewBinarizeBatch(W, ofs, A, fr)), V_(ewBinarizeBatch_st(W, ofs, A, fr)), V_(ewBinarizeBatch_mt(W, ofs, A, fr)) }, [&] { load(W, W0); }, [&](const char* nm) {
				for (vl cc = 0; cc < n; ++cc) for (vl q = 0; q < m + extra; ++q) { const char e = (q < ofs || q >= ofs + m) ? char(7) : char(A0[nc(cc)*m + q - ofs] > fr); if (W.get(q, cc) != e) { viol("ew.ewBinarizeBatch", "%s [%u,%u] at row %u of %u: cell (%u,%u) is %d, expected %d", nm, m, n, ofs, m + extra, q, cc, W.get(q, cc), e); return; } }
				unchanged("ew.ewBinarizeBatch", nm, A, A0);
			});
			// counting equal elements
			M<char> P(m + extra, n), Q(m, n); for (nc i = 0; i < P.numel(); ++i) P.data()[i] = r.below(3); for (nc i = 0; i < Q.numel(); ++i) Q.data()[i] = r.below(3);
			nc e = 0; for (vl cc = 0; cc < n; ++cc) for (vl q = 0; q < m; ++q) e += P.get(q + ofs, cc) == Q.get(q, cc);
			const nc gb = iM.vCountSameBatch(P, ofs, Q); if (gb != e) viol("ew.vCountSameBatch", "[%u,%u] at %u of %u: %lld expected %lld", m, n, ofs, m + extra, (long long)gb, (long long)e);
			std::vector<int> U(m*nc(1) + extra), V(m); for (auto& x : U) x = r.below(2); for (auto& x : V) x = r.below(2);
			nc es = 0; for (vl q = 0; q < m; ++q) es += U[q + ofs] == V[q];
			const nc g1 = iM.vCountSame(U, V, ofs), g2 = iM.vCountSame_st_naive(U, V, ofs), g3 = iM.vCountSame_mt_naive(U, V, ofs);
			if (g1 != es || g2 != es || g3 != es) viol("ew.vCountSame", "length %u offset %u: %lld %lld %lld expected %lld", m, ofs, (long long)g1, (long long)g2, (long long)g3, (long long)es);
			ev("ew.counts", 4);
		}
	}
	{
		nc nz = 0, nzs = 0; for (auto x : A0) { nz += x != T(0); nzs += (x != T(0)) || std::signbit(x); }
		const nc a = iM.vCountNonZeros(A0.data(), A0.size()), b = iM.vCountNonZerosStrict(A0.data(), A0.size());
		if (a != nz || b != nzs) viol("ew.vCountNonZeros", "%zu elements: %lld/%lld expected %lld/%lld", A0.size(), (long long)a, (long long)b, (long long)nz, (long long)nzs);
	}
	ev("ew.bias_ops", A.numel());
}

template<typename T> void dropouts(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 35, 20000);
	M<T> A(m, n, true), X(m, n), K(m, n); fillm(r, A, anyFill(r)); fillm(r, X, anyFill(r));
	const T p = T(r.uni(.05, .95));
	for (nc i = 0; i < K.numel(); ++i) K.data()[i] = r.chance(5) ? (r.b() ? T(0) : T(1)) : (r.chance(5) ? p : T(r.u01()));
	const auto A0 = snap(A), K0 = snap(K), X0 = snap(X);
	auto prep = [&] { load(A, A0); load(K, K0); load(X, X0); };
	seen("drop", m > 40, n > 40, int(p * 10), sizeof(T));
	run_({ V_(make_dropout(A, p, K)), V_(make_dropout_st(A, p, K)), V_(make_dropout_mt(A, p, K)) }, prep, [&](const char* nm) {
		chk_cells<T>("ew.make_dropout", nm, K, K0, [&](nc i, ld& t) { const ld x = K0[i] < p ? 1.L / p : 0.L; t = ulps<T>(x, 1); return x; });
		chk_cells<T>("ew.make_dropout", nm, A, A0, [&](nc i, ld& t) { const ld x = K0[i] < p ? (ld)A0[i] / p : 0.L; t = K0[i] < p ? ulps<T>(x, 2) : 0; return x; });
	});
	run_({ V_(apply_dropout_mask(X, p, K)), V_(apply_dropout_mask_st(X, p, K)), V_(apply_dropout_mask_mt(X, p, K)), V_(apply_dropout_mask(A, p, K)), V_(apply_dropout_mask_st(A, p, K)), V_(apply_dropout_mask_mt(A, p, K)) }, prep, [&](const char* nm) {
		const bool isA = strstr(nm, "(A") != nullptr; auto& Q = isA ? A : X; auto& Q0 = isA ? A0 : X0;
		chk_cells<T>("ew.apply_dropout_mask", nm, Q, Q0, [&](nc i, ld&) { return K0[i] < p ? (ld)Q0[i] : 0.L; }); unchanged("ew.apply_dropout_mask", nm, K, K0);
	});
	const T a = T(r.uni(.5, 1.5)), b = T(r.uni(-1, 1)), dv = T(r.uni(-2, 2));
	run_({ V_(make_alphaDropout(A, p, a, b, dv, K)), V_(make_alphaDropout_st(A, p, a, b, dv, K)), V_(make_alphaDropout_mt(A, p, a, b, dv, K)) }, prep, [&](const char* nm) {
		chk_cells<T>("ew.make_alphaDropout", nm, K, K0, [&](nc i, ld&) { return K0[i] < p ? (ld)a : 0.L; });
		chk_cells<T>("ew.make_alphaDropout", nm, A, A0, [&](nc i, ld& t) { const bool keep = K0[i] < p; const ld x = keep ? (ld)A0[i] * a + b : (ld)dv; t = ulps<T>(std::fabs((ld)A0[i] * a) + std::fabs((ld)b) + std::fabs((ld)dv), 6); return x; });
	});
	ev("ew.dropouts", A.numel());
}

template<typename T> void ilr(R& r, IM<T>& iM) {
	vl m, n; shape(r, m, n, 35, 30000);
	M<T> W(m, n), P(m, n), G(m, n); fillm(r, W, r.pick({ Fill::uni, Fill::zeros })); fillm(r, P, r.pick({ Fill::uni, Fill::zeros }));
	const T dec = T(r.uni(.5, .99)), inc = T(r.uni(1.01, 1.5)), lo = T(r.uni(.01, .9)), hi = T(r.uni(1., 10));
	for (nc i = 0; i < G.numel(); ++i) G.data()[i] = r.chance(10) ? lo : r.chance(10) ? hi : T(r.uni(lo*.7, hi*1.2));
	const auto W0 = snap(W), P0 = snap(P), G0 = snap(G);
	auto prep = [&] { load(W, W0); load(G, G0); };
	seen("ilr", m > 40, n > 40, sizeof(T));
	auto gain = [&](nc i) { const ld c = (ld)W0[i] * P0[i]; ld g = G0[i]; if (c > 0) { if (G0[i] < hi) g *= inc; } else if (c < 0) { if (G0[i] > lo) g *= dec; } return g; };
	run_({ V_(apply_ILR(W, P, G, dec, inc, lo, hi)), V_(apply_ILR_st_naive(W, P, G, dec, inc, lo, hi)), V_(apply_ILR_mt_naive(W, P, G, dec, inc, lo, hi)), V_(apply_ILR_st_vec(W, P, G, dec, inc, lo, hi)), V_(apply_ILR_mt_vec(W, P, G, dec, inc, lo, hi)) }, prep, [&](const char* nm) {
		chk_cells<T>("ew.apply_ILR", nm, G, G0, [&](nc i, ld& t) { const ld x = gain(i); t = ulps<T>(x, 2); return x; });
		chk_cells<T>("ew.apply_ILR", nm, W, W0, [&](nc i, ld& t) { const ld x = gain(i)*W0[i]; t = ulps<T>(x, 3); return x; });
		unchanged("ew.apply_ILR", nm, P, P0);
	});
	ev("ew.ilr", W.numel());
}

template<typename T> void all(int n) {
	std::string sfx = sizeof(T) == 8 ? ".d" : ".f";
	const int per = std::max(1, n / 4);
	for (unsigned hc : { 2u, 3u, 5u, 8u }) {
		g_hc = hc; MathBox<T> b(nc(200000));
		auto nm = [&](const char* s) { return std::string(s) + sfx + std::to_string(hc); };
		group(nm("bin").c_str(), per, [&](R& r, int) { binary_ops<T>(r, b.iM); });
		group(nm("bias").c_str(), per * 2, [&](R& r, int) { bias_ops<T>(r, b.iM); });
		group(nm("drop").c_str(), per, [&](R& r, int) { dropouts<T>(r, b.iM); });
		group(nm("ilr").c_str(), per, [&](R& r, int) { ilr<T>(r, b.iM); });
	}
}
int main(int argc, char** argv) {
	init(argc, argv);
	all<double>(100); all<float>(100);
	return done();
}
