// P02: predicates, index arithmetic, ranges and bias checks of the matrix classes against direct recomputation.
#include "prelude.h"
#include "nntl/math.h"
#include "nntl/common.h"
using vh::R;
namespace NM = ::nntl::math;
typedef ::nntl::vec_len_t vl; typedef ::nntl::numel_cnt_t nc;
typedef NM::smatrix_td TD;

template<typename T> T hostile(R& r, int pNonBin) {
	if (!r.chance(pNonBin)) return r.b() ? T(1) : T(0);
	if constexpr (std::is_floating_point<T>::value) {
		switch (r.below(8)) {
		case 0: return -T(0); case 1: return std::numeric_limits<T>::quiet_NaN(); case 2: return std::numeric_limits<T>::infinity();
		case 3: return std::nextafter(T(1), T(2)); case 4: return std::nextafter(T(1), T(0)); case 5: return std::numeric_limits<T>::denorm_min();
		case 6: return T(-1); default: return T(r.uni(-2, 2));
		}
	} else return T(r.pick({ 2,-1,3,255,100 }));
}
template<typename T> void binpred(R& r) {
	const int n = r.in(1, 90), ld = r.in(1, 9); const int p = r.pick({ 0,0,0,2,10,60 });
	// exactly sized heap storage: a walk beyond the vector is a reported access
	std::unique_ptr<T[]> a(new T[n]), s(new T[size_t(n - 1)*ld + 1]);
	bool bin = true, strict = true, sbin = true, sstrict = true;
	auto isneg0 = [](T v) { return v == T(0) && std::signbit(double(v)); };
	for (int i = 0; i < n; ++i) { a[i] = hostile<T>(r, p); const bool ok = a[i] == T(0) || a[i] == T(1); bin &= ok; strict &= ok && !isneg0(a[i]); }
	for (int i = 0; i < (n - 1)*ld + 1; ++i) s[i] = T(7);
	for (int i = 0; i < n; ++i) { T v = hostile<T>(r, p); s[i*ld] = v; const bool ok = v == T(0) || v == T(1); sbin &= ok; sstrict &= ok && !isneg0(v); }
	VCHECK(TD::_isBinaryVec<T>(a.get(), n, true) == bin, "pred:isBinaryVec", "n=%d expected %d", n, bin);
	VCHECK(TD::_isBinaryStrictVec<T>(a.get(), n, true) == strict, "pred:isBinaryStrictVec", "n=%d expected %d", n, strict);
	VCHECK(TD::_isBinaryVecWLd<T>(s.get(), n, ld, true) == sbin, "pred:isBinaryVecWLd", "n=%d ld=%d expected %d", n, ld, sbin);
	VCHECK(TD::_isBinaryStrictVecWLd<T>(s.get(), n, ld, true) == sstrict, "pred:isBinaryStrictVecWLd", "n=%d ld=%d expected %d", n, ld, sstrict);
	vh::ev("pred.binary", 4); vh::seen("bin", sizeof(T), std::is_floating_point<T>::value, bin, strict, sbin, sstrict, ld == 1);
	// through matrices
	NM::smatrix<T> m(a.get(), vl(n), vl(1));
	VCHECK(m._isBinary(true) == bin, "pred:mtx_isBinary", "n=%d", n); VCHECK(m._isBinaryStrict(true) == strict, "pred:mtx_isBinaryStrict", "n=%d", n);
	const int cols = r.in(1, 6), rows = r.in(1, 8);
	NM::smatrix<T> b(rows, cols, true); bool bs = true;
	for (int i = 0; i < rows*cols; ++i) { b.data()[i] = hostile<T>(r, p); bs &= (b.data()[i] == T(0) || b.data()[i] == T(1)) && !isneg0(b.data()[i]); }
	if (r.b()) b.bias_column()[0] = T(5);//what's in the bias column must not matter
	VCHECK(b._isBinaryStrictNoBias(true) == bs, "pred:isBinaryStrictNoBias", "%dx%d", rows, cols);
	if constexpr (std::is_floating_point<T>::value) {
		bool nan = false; for (int i = 0; i < n; ++i) nan |= a[i] != a[i];
#ifndef NDEBUG
		if (!nan)
#endif
		VCHECK(m.test_noNaNs() == !nan, "pred:test_noNaNs", "n=%d nan=%d", n, nan);
		const T eps = T(r.pick({ 1e-6,1e-3,.1 })); bool ab = true; for (int i = 0; i < n; ++i) ab &= std::abs(a[i] - T(1)) < eps || std::abs(a[i]) < eps;
#ifndef NDEBUG
		if (ab)
#endif
		VCHECK(m._isAlmostBinary(eps) == ab, "pred:isAlmostBinary", "n=%d", n);
		vh::ev("pred.nan");
	}
}
template<typename T> void biaspred(R& r) {
	const bool bir = r.b(), holey = r.b(); const int rows = r.in(1, 12), cols = r.in(1, 12);
	NM::smatrix<T> m(rows, cols, true, bir); for (nc i = 0; i < m.numel(); ++i) {}
	m.fill(T(-3)); m.set_biases(); if (holey) m.holey_biases(true);
	const long B = bir ? cols : rows; auto bp = [&](long i) -> T& { return bir ? m.data()[i*m.rows() + m.rows() - 1] : m.data()[(m.cols() - 1)*m.rows() + i]; };
	for (long i = 0; i < B; ++i) VCHECK(bp(i) == T(1), "bias:set_biases", "bias %ld of %dx%d bir=%d", i, rows, cols, bir);
	for (long i = 0; i < m.numel(); ++i) { const bool isb = bir ? i % m.rows() == m.rows() - 1 : i / m.rows() == m.cols() - 1; if (!isb) VCHECK(m.data()[i] == T(-3), "bias:set_biases-touched-data", "element %ld", i); }
	bool zero = false, bad = false;
	if (holey || r.b()) { for (long i = 0; i < B; ++i) if (r.chance(30)) { bp(i) = T(0); zero = true; } }
	if (r.chance(50)) { bp(r.below(int(B))) = T(2); bad = true; zero = false; for (long i = 0; i < B; ++i) zero |= bp(i) == T(0); }
	const bool exp = holey ? !bad : !(bad || zero);
#ifndef NDEBUG
	if (exp)
#endif
	{
		VCHECK(m.test_biases_ok() == exp, "bias:test_biases_ok", "%dx%d bir=%d holey=%d zero=%d bad=%d expected %d", rows, cols, bir, holey, zero, bad, exp);
		if (!holey) VCHECK(m.if_biases_test_strict() == exp, "bias:if_biases_test_strict", "%dx%d bir=%d", rows, cols, bir);
	}
	if (exp && !bir) {// biases copied between matrices of different width, and from a plain vector
		const int c2 = r.in(1, 5); NM::smatrix<T> d(rows, c2, true); d.fill(T(-9)); if (r.b()) { d.set_biases(); d.holey_biases(true); for (int i = 0; i < rows; ++i) d.bias_column()[i] = T(r.below(2)); } const bool byPtr = r.chance(40); int nz = 0; for (long i = 0; i < B; ++i) nz += bp(i) == T(1); const int told = r.b() ? nz : 0;
		std::vector<T> v(rows); for (int i = 0; i < rows; ++i) v[i] = bp(i); if (byPtr) d.copy_biases_from(v.data(), vl(told)); else d.copy_biases_from(m);
		for (int i = 0; i < rows; ++i) VCHECK(d.bias_column()[i] == bp(i), "bias:copy_biases_from", "bias %d of %d, holey %d", i, rows, holey); for (int j = 0; j < c2; ++j) for (int i = 0; i < rows; ++i) VCHECK(d.get(vl(i), vl(j)) == T(-9), "bias:copy-touched-data", "(%d,%d)", i, j);
		VCHECK(d.isHoleyBiases() == (byPtr ? told != rows : holey), "bias:copy-holey", "holey %d, %d of %d are nonzero, by vector %d", holey, nz, rows, byPtr); vh::ev("pred.bias_copies");
	}
	{ NM::smatrix_deform<T> e; e.will_emulate_biases(); const int how = r.below(4); if (how == 0) e.dont_emulate_biases(); else if (how == 1) e.emulate_biases(false); else if (how == 2) e.emulate_biases(true); VCHECK(e.resize(vl(rows), vl(cols)), "bias:resize", "%d", how); const bool w = how > 1; VCHECK(e.emulatesBiases() == w && e.cols() == cols + w && e.cols_no_bias() == cols, "bias:emulate", "how %d: %d columns of %d", how, int(e.cols()), cols); }
	vh::ev("pred.bias"); vh::seen("bias", bir, holey, zero, bad, rows == 1, cols == 1);
}
static void triangle(R& r, int idx) {
	if (idx < 40) {// complete enumeration
		const vl n = vl(idx + 2); nc k = 0;
		VCHECK(NM::smatrix<float>::sNumelTriangl(n) == nc(n)*(n - 1) / 2, "tri:numel", "n=%d", n);
		NM::smatrix<float> M(n, n); VCHECK(M.numel_triangl() == nc(n)*(n - 1) / 2, "tri:numel", "n=%d", n);
		vl a = -1, b = -1;
		for (vl c = 0; c < n; ++c) for (vl rr = 0; rr < c; ++rr, ++k) { NM::smatrix<float>::sTrianglCoordsFromIdx<false>(n, k, a, b); VCHECK(a == rr && b == c, "tri:upper", "n=%d k=%ld got (%d,%d) expected (%d,%d)", n, long(k), a, b, rr, c); M.triangl_coords_from_idx<false>(k, a, b); VCHECK(a == rr && b == c, "tri:upper-m", "n=%d k=%ld", n, long(k)); vh::ev("tri.coords"); }
		VCHECK(k == NM::smatrix<float>::sNumelTriangl(n), "tri:count", "n=%d", n); k = 0;
		for (vl c = 0; c < n; ++c) for (vl rr = c + 1; rr < n; ++rr, ++k) { NM::smatrix<float>::sTrianglCoordsFromIdx<true>(n, k, a, b); VCHECK(a == rr && b == c, "tri:lower", "n=%d k=%ld got (%d,%d) expected (%d,%d)", n, long(k), a, b, rr, c); vh::ev("tri.coords"); }
		vh::seen("tri", n);
	} else {// large ones
		const vl n = vl(r.in(1000, 30000000)); const vl c = vl(r.in(1, n - 1)), rr = vl(r.below(c)); const nc k = nc(c)*(c - 1) / 2 + rr; vl a, b;
		NM::smatrix<float>::sTrianglCoordsFromIdx<false>(n, k, a, b); VCHECK(a == rr && b == c, "tri:upper-big", "n=%d k=%ld got (%d,%d) expected (%d,%d)", n, long(k), a, b, rr, c);
		const nc tot = nc(n)*(n - 1) / 2; const nc k2 = tot - 1 - k; NM::smatrix<float>::sTrianglCoordsFromIdx<true>(n, k2, a, b); VCHECK(a == n - 1 - rr && b == n - 1 - c, "tri:lower-big", "n=%d k=%ld got (%d,%d)", n, long(k2), a, b);
		vh::ev("tri.coords", 2); vh::seen("trib", n >> 16);
	}
}
static void ranges(R& r) {
	typedef ::nntl::threads::parallel_range<nc> PR;
	const nc o = r.in(0, 100000), c = r.in(0, 100000); const int t = r.in(0, 20);
	{ PR p(o, c, t); VCHECK(p.offset() == o && p.cnt() == c && p.end() == o + c && p.tid() == t, "range:parallel_range", "o=%ld c=%ld", long(o), long(c)); NM::s_elems_range e(p); VCHECK(e.elmBegin == o && e.elmEnd == o + c && e.totalElements() == c, "range:elems(par)", "o=%ld c=%ld", long(o), long(c)); NM::s_vec_range v(p); VCHECK(v.elmBegin == o && v.elmEnd == o + c && v.totalElements() == c, "range:vec(par)", "o=%ld", long(o)); PR q(c); VCHECK(q.offset() == 0 && q.cnt() == c && q.tid() == 0, "range:parallel_range1", "c=%ld", long(c)); q.offset(o).cnt(c + 1); VCHECK(q.offset() == o && q.cnt() == c + 1 && q.end() == o + c + 1, "range:parallel_range set", "c=%ld", long(c)); }
	{ typedef NM::st_range<nc> SR; SR e(o, o + c); VCHECK(e.elmBegin == o && e.elmEnd == o + c && e.totalElements() == c, "range:st", "o=%ld", long(o)); SR f = e + nc(17); VCHECK(f.elmBegin == o + 17 && f.elmEnd == o + c + 17 && f.totalElements() == c, "range:st+", "o=%ld", long(o)); SR g(c); VCHECK(g.elmBegin == 0 && g.elmEnd == c, "range:st1", "c=%ld", long(c)); }
	const int rows = r.in(1, 20), cols = r.in(1, 20); const bool bi = r.b(), bir = r.b(); NM::smatrix<float> A(rows, cols, bi, bir); const vl Rr = A.rows(), Cc = A.cols();
	{ NM::s_elems_range e(A); VCHECK(e.elmBegin == 0 && e.elmEnd == nc(Rr)*Cc, "range:elems(mtx)", "%dx%d", Rr, Cc); }
	if (!(bi && bir)) { NM::s_elems_range e(A, NM::tag_noBias()); VCHECK(e.elmBegin == 0 && e.elmEnd == nc(rows)*cols, "range:elems(mtx,nb)", "%dx%d", Rr, Cc); }
	{ NM::s_rowcol_range q(A); VCHECK(q.rowBegin == 0 && q.rowEnd == Rr && q.colBegin == 0 && q.colEnd == Cc && q.totalRows() == Rr && q.totalCols() == Cc && q.can_apply(A), "range:rowcol", "%dx%d", Rr, Cc); }
	{ NM::s_rowcol_range q(A, NM::tag_noBias()); VCHECK(q.rowEnd == rows && q.colEnd == cols && q.rowBegin == 0 && q.colBegin == 0, "range:rowcol(nb)", "%dx%d", Rr, Cc); NM::s_rowcol_range q2(A, true); VCHECK(q2.rowEnd == rows && q2.colEnd == cols, "range:rowcol(true)", "%dx%d", Rr, Cc); NM::s_rowcol_range q3(A, false); VCHECK(q3.rowEnd == Rr && q3.colEnd == Cc, "range:rowcol(false)", "%dx%d", Rr, Cc); }
	const vl b = r.below(Rr), e = r.in(b, Rr), cb = r.below(Cc), ce = r.in(cb, Cc); const bool ig = r.b();
	{ NM::s_rowcol_range q(b, e, A); VCHECK(q.rowBegin == b && q.rowEnd == e && q.colBegin == 0 && q.colEnd == Cc && q.can_apply(A), "range:rows", "%d..%d", b, e); NM::s_rowcol_range q2(b, e, A, ig); VCHECK(q2.rowBegin == b && q2.rowEnd == e && q2.colEnd == (ig ? cols : Cc), "range:rows(ig)", "%d..%d", b, e); }
	{ NM::s_rowcol_range q(A, cb, ce); VCHECK(q.rowBegin == 0 && q.rowEnd == Rr && q.colBegin == cb && q.colEnd == ce && q.can_apply(A) && q.totalCols() == ce - cb, "range:cols", "%d..%d", cb, ce); NM::s_rowcol_range q2(A, cb, ce, ig); VCHECK(q2.rowEnd == (ig ? rows : Rr) && q2.colBegin == cb && q2.colEnd == ce, "range:cols(ig)", "%d..%d", cb, ce); }
#ifdef NDEBUG
	{ NM::s_rowcol_range q(b, Rr + 1 + r.below(3), A); VCHECK(!q.can_apply(A), "range:can_apply-rows-overrun", "%d", Rr); NM::s_rowcol_range q2(A, cb, Cc + 1); VCHECK(!q2.can_apply(A), "range:can_apply-cols-overrun", "%d", Cc); NM::s_rowcol_range q3(A, Cc, Cc); VCHECK(!q3.can_apply(A), "range:can_apply-begin-overrun", "%d", Cc); NM::s_rowcol_range q4(Rr, Rr, A); VCHECK(!q4.can_apply(A), "range:can_apply-rowbegin-overrun", "%d", Rr); }
#endif
	// sizes beyond 32 bits
	const vl x = r.in(40000, 2000000000), y = r.in(40000, 2000000000); VCHECK(TD::sNumel(x, y) == nc(int64_t(x)*int64_t(y)), "range:sNumel-overflow", "%d*%d -> %ld", x, y, long(TD::sNumel(x, y)));
	VCHECK(TD::sNumel(TD::mtx_size_t(x, y)) == nc(int64_t(x)*int64_t(y)), "range:sNumel-overflow2", "%d*%d", x, y);
	VCHECK(NM::smatrix<float>::sNumelTriangl(x) == nc(int64_t(x)*(x - 1) / 2), "range:sNumelTriangl-overflow", "%d", x);
	// numel/size helpers
	std::vector<int> v(r.in(0, 30)); VCHECK(NM::Numel(v) == nc(v.size()) && NM::Numel(A) == nc(Rr)*Cc, "range:Numel", "%zu", v.size());
	VCHECK(NM::IsSameSizeNumel(A, v) == (nc(v.size()) == nc(Rr)*Cc) && NM::IsSameSizeNumel(v, A) == (nc(v.size()) == nc(Rr)*Cc), "range:IsSameSizeNumel", "%zu", v.size());
	NM::smatrix<double> A2(r.b() ? Rr : r.in(1, 20), r.b() ? Cc : r.in(1, 20)); VCHECK(NM::IsSameSizeNumel(A, A2) == (A2.rows() == Rr && A2.cols() == Cc), "range:IsSameSizeNumel-mtx", "%dx%d", Rr, Cc);
	// batch sizes
	{ const vl m = r.in(1, 1000), tr = r.b() ? 0 : r.in(1, m), k = r.in(1, 9); ::nntl::BatchSizes B(m, tr); VCHECK(B.isValid() && B.isValidForTraining() == (tr > 0) && B.biggest() == m && B.max_bs4mode(false) == m && (!tr || B.max_bs4mode(true) == tr), "range:BatchSizes", "%d,%d", m, tr); auto B2 = B * k; VCHECK(B2.maxBS == m * k && B2.maxTrainBS == tr * k, "range:BatchSizes*", "%d,%d", m, tr); auto B3 = B2 / k; VCHECK(B3 == B && !(B3 != B), "range:BatchSizes/", "%d,%d*%d", m, tr, k); ::nntl::BatchSizes B4; VCHECK(!B4.isValid(), "range:BatchSizes-default", "-"); B4 = B; VCHECK(B4 == B, "range:BatchSizes=", "-"); B4.clear(); VCHECK(B4.maxBS == 0 && B4.maxTrainBS == 0 && (B4 != B), "range:BatchSizes clear", "-"); }
	vh::ev("ranges"); vh::seen("rng", bi, bir, ig, rows == 1, cols == 1, c == 0);
}
int main(int c, char** v) {
	vh::init(c, v);
	vh::group("binary_float", 1500, [](R& r, int) { binpred<float>(r); });
	vh::group("binary_double", 1000, [](R& r, int) { binpred<double>(r); });
	vh::group("binary_int", 600, [](R& r, int) { binpred<int>(r); });
	vh::group("binary_char", 400, [](R& r, int) { binpred<signed char>(r); });
	vh::group("bias_float", 1500, [](R& r, int) { biaspred<float>(r); });
	vh::group("bias_int", 500, [](R& r, int) { biaspred<int>(r); });
	vh::group("triangle", 2000, [](R& r, int i) { triangle(r, i); });
	vh::group("ranges", 2000, [](R& r, int) { ranges(r); });
	vh::sample("binary predicates over {0,1,-0,NaN,inf,1+ulp,1-ulp,denormal}; strides 1..9; triangular index maps enumerated for n=2..41");
	return vh::done();
}
