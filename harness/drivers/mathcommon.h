// shared by the math drivers: matrices with exactly sized storage, long double oracles, variant runner
#pragma once
#include "prelude.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
using namespace nntl;
using vh::R;
static unsigned g_hc = 4;
unsigned std::thread::hardware_concurrency() noexcept { return g_hc; }
typedef ::nntl::vec_len_t vl;
typedef ::nntl::numel_cnt_t nc;
typedef long double ld;

template<typename T> using M = math::smatrix<T>;
template<typename T> using MD = math::smatrix_deform<T>;
template<typename T> using IM = typename dt_interfaces<T>::iMath_t;

template<typename T> constexpr ld EPS = (ld)std::numeric_limits<T>::epsilon();

// one math object per (type, number of workers), with scratch memory requested for any case of the workload
template<typename T> struct MathBox {
	IM<T> iM;
	MathBox(nc tmp) { if (tmp) iM.preinit(tmp); if (!iM.init()) { vh::viol("math.init", "failed"); exit(1); } }
	~MathBox() { iM.deinit(); }
};

enum class Fill { uni, gauss, ties, bin, hostile, pos, tiny, zeros };
template<typename T> T rv(R& r, Fill f) {
	switch (f) {
	case Fill::uni: return T(r.uni(-2, 2));
	case Fill::gauss: return T(r.norm() * 3);
	case Fill::ties: return T(r.in(-2, 2));
	case Fill::bin: return T(r.b());
	case Fill::pos: return T(r.uni(.01, 5));
	case Fill::tiny: return T(r.uni(-1, 1) * 1e-3);
	case Fill::zeros: return r.chance(50) ? T(0) : T(r.uni(-2, 2));
	default: {
		switch (r.below(8)) { case 0: return T(0); case 1: return -T(0); case 2: return T(r.uni(-1, 1)*1e5); case 3: return T(r.uni(-1, 1)*1e-5); case 4: return T(1); case 5: return T(-1); default: return T(r.norm()); }
	}
	}
}
inline Fill anyFill(R& r) { return r.pick({ Fill::uni, Fill::gauss, Fill::ties, Fill::hostile, Fill::zeros }); }
template<typename T> void fillm(R& r, M<T>& m, Fill f) {
	if (!m.emulatesBiases() || m.bBatchInColumn()) { const nc n = m.numel_no_bias(); for (nc i = 0; i < n; ++i) m.data()[i] = rv<T>(r, f); }
	else for (vl c = 0; c < m.cols(); ++c) for (vl q = 0; q < m.rows_no_bias(); ++q) m.set(q, c, rv<T>(r, f));
}
// shape classes: tiny, row/col vectors, medium, and around the single/multi-threaded thresholds
inline void shape(R& r, vl& rows, vl& cols, int big_pct = 25, nc big = 40000) {
	if (r.chance(big_pct)) {
		const nc n = r.in(3000, int(big));
		switch (r.below(4)) {
		case 0: rows = r.in(1, 12); cols = vl(n / rows) + 1; break;
		case 1: cols = r.in(1, 12); rows = vl(n / cols) + 1; break;
		default: rows = vl(std::sqrt(double(n))); rows = r.in(std::max(1, int(rows / 2)), int(rows * 2)); cols = vl(n / rows) + 1;
		}
	} else switch (r.below(5)) {
	case 0: rows = 1; cols = r.in(1, 30); break;
	case 1: cols = 1; rows = r.in(1, 30); break;
	case 2: rows = r.in(1, 4); cols = r.in(1, 9); break;
	default: rows = r.in(1, 40); cols = r.in(1, 40);
	}
}
template<typename T> std::vector<T> snap(const M<T>& m) { return std::vector<T>(m.data(), m.data() + m.numel()); }
template<typename T> void load(M<T>& m, const std::vector<T>& v) { std::copy(v.begin(), v.end(), m.data()); }
template<typename T> bool same_bits(const std::vector<T>& a, const T* b) { return !memcmp(a.data(), b, a.size() * sizeof(T)); }

// |got-exp| within tol (absolute); equal infinities and both-NaN agree
template<typename T> bool close(T got, ld exp, ld tol) {
	if (std::isnan((double)exp) || std::isnan(got)) return std::isnan((double)exp) && std::isnan(got);
	if (std::isinf((double)exp) || std::isinf(got)) return (ld)got == exp || (T)exp == got;
	return std::fabs((ld)got - exp) <= tol;
}
template<typename T> ld ulps(ld v, ld n) { return n * (std::fabs(v)*EPS<T> + (ld)std::numeric_limits<T>::min()); }

struct Var { const char* name; std::function<void()> f; };
#define V_(call) Var{ #call, [&] { iM.call; } }

// checks every cell of m against e(i); i runs over the non-bias cells (in storage order), the other cells must keep v0
template<typename T, typename E> bool chk_cells(const char* key, const char* nm, const M<T>& m, const std::vector<T>& v0, E&& e) {
	const nc n = m.numel(); const bool bb = m.emulatesBiases(); const nc rows = m.rows();
	for (nc i = 0; i < n; ++i) {
		const bool isbias = bb && (m.bBatchInRow() ? (i % rows == rows - 1) : (i >= m.numel_no_bias()));
		if (isbias) { if (memcmp(&m.data()[i], &v0[i], sizeof(T))) { vh::viol(key, "%s [%u,%u] touched the bias cell %lld: %g", nm, m.rows(), m.cols(), (long long)i, (double)m.data()[i]); return false; } continue; }
		ld tol = 0; const ld x = e(i, tol);
		if (!close(m.data()[i], x, tol)) { vh::viol(key, "%s [%u,%u] element %lld: %.9g, expected %.9g", nm, m.rows(), m.cols(), (long long)i, (double)m.data()[i], (double)x); return false; }
	}
	return true;
}
template<typename T> void unchanged(const char* key, const char* nm, const M<T>& m, const std::vector<T>& v0) { if (!same_bits(v0, m.data())) vh::viol(key, "%s changed an argument it only reads", nm); }

