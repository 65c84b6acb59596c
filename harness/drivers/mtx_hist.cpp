// P01: random histories of matrix operations against a shadow model (shape, flags, ownership, contents).
#include "prelude.h"
#include "nntl/math.h"
#include "nntl/common.h"
using vh::R;
namespace NM = ::nntl::math;
typedef ::nntl::vec_len_t vl;
typedef ::nntl::numel_cnt_t nc;

// shadow cell: unknown or value
struct Cell { bool k = false; double v = 0; };
struct Model {
	bool empty = true; long r = 0, c = 0; bool bias = false, ext = false, holey = false, bir = false;
	std::vector<Cell> d; // capacity-sized
	long cap()const { return (long)d.size(); }
	long rnb()const { return r - (bias && bir); }
	long cnb()const { return c - (bias && !bir); }
	bool biasIdx(long i)const { return bias && (bir ? i % r == r - 1 : i / r == c - 1); }
};
static const char* OPN[] = { "ctor","resize","resize_ds","resize_like","clear","setget","fill","zeros","ones","nans","fillcol","fillrow","setbias","clone_to","clone_nb","copy_to","copy_skip","moveC","moveA","ext","extlike","internal","deform","deform_bs","deform_ss","deform_ds","hide","hiden","transp","view","biases","fromarr","eq","cloneFrom","fillnb","holey","nobias_resize","deform_like" };
enum { O_CTOR, O_RESIZE, O_RESIZE_DS, O_RESIZE_LIKE, O_CLEAR, O_SET, O_FILL, O_ZEROS, O_ONES, O_NANS, O_FCOL, O_FROW, O_SETB, O_CLONE, O_CLONENB, O_COPY, O_COPYSKIP, O_MOVEC, O_MOVEA, O_EXT, O_EXTLIKE, O_INT, O_DEF, O_DEFBS, O_DEFSS, O_DEFDS, O_HIDE, O_HIDEN, O_TRANSP, O_VIEW, O_BIASES, O_FROM, O_EQ, O_CLONEFROM, O_FILLNB, O_HOLEY, O_NBRESIZE, O_DEFLIKE, O_TOTAL };

template<typename M, typename T, bool DEF>
struct Run {
	R& rg; std::string hist;
	struct Slot { std::unique_ptr<M> m; Model s; std::unique_ptr<T[]> ext; };
	std::vector<Slot> sl;
	Run(R& r) : rg(r) { sl.resize(4); for (auto& x : sl) { x.m.reset(new M()); } }
	int dim() { return rg.chance(70) ? rg.in(1, 7) : rg.in(1, 60); }
	T val() { return T(rg.in(-50, 50)); }

	void wr(Slot& x, long i, T v) { x.m->data()[i] = v; x.s.d[i] = { true,double(v) }; }
	void unk(Model& s, long n) { s.d.assign(n, Cell()); }
	void setb(Model& s) { for (long i = 0; i < s.r*s.c; ++i) if (s.biasIdx(i)) s.d[i] = { true,1 }; s.holey = false; }
	void fillAll(Slot& x) { for (long i = 0; i < x.s.r*x.s.c; ++i) if (!x.s.biasIdx(i)) wr(x, i, val()); }

	void chk(bool c, const char* what, const Slot& x, long a = 0, long b = 0) {
		if (!c) vh::viol((std::string("matrix:") + what).c_str(), "observed %ld expected %ld; model %ldx%ld bias=%d ext=%d holey=%d bir=%d empty=%d deform=%d; history: %s", a, b, x.s.r, x.s.c, x.s.bias, x.s.ext, x.s.holey, x.s.bir, x.s.empty, DEF, hist.size() > 1200 ? hist.substr(hist.size() - 1200).c_str() : hist.c_str());
	}
#define EQ(a,b,w) chk(long(a)==long(b), w, x, long(a), long(b))
	void observe(Slot& x) {
		M& m = *x.m; const M& cm = m; Model& s = x.s;
		vh::ev("matrix.observations");
		vh::seen("st", s.empty, s.bias, s.ext, s.holey, s.bir, DEF, s.r > 1, s.c > 1, sizeof(T));
		EQ(m.empty(), s.empty, "empty"); EQ(m.bBatchInRow(), s.bir, "bBatchInRow"); EQ(m.bBatchInColumn(), !s.bir, "bBatchInColumn");
		EQ(m.bSampleInRow(), !s.bir, "bSampleInRow"); EQ(m.bSampleInColumn(), s.bir, "bSampleInColumn");
		EQ(m.emulatesBiases(), s.bias, "emulatesBiases"); EQ(m.bOwnStorage(), !s.ext, "bOwnStorage"); EQ(m.bDontManageStorage(), s.ext, "bDontManageStorage");
		EQ(m.isAllocationFailed(), 0, "isAllocationFailed");
		EQ(m.rows(), s.r, "rows"); EQ(m.cols(), s.c, "cols");
		if (s.empty) return;
		EQ(m.ldim(), s.r, "ldim");
		EQ(m.rows_no_bias(), s.rnb(), "rows_no_bias"); EQ(m.cols_no_bias(), s.cnb(), "cols_no_bias");
		EQ(m.rows(true), s.rnb(), "rows(true)"); EQ(m.cols(true), s.cnb(), "cols(true)"); EQ(m.rows(false), s.r, "rows(false)"); EQ(m.cols(false), s.c, "cols(false)");
		EQ(m.has_bias_row(), s.bias && s.bir, "has_bias_row"); EQ(m.has_bias_column(), s.bias && !s.bir, "has_bias_column");
		EQ(m.batch_size(), s.bir ? s.c : s.r, "batch_size"); EQ(m.sample_size(), s.bir ? s.rnb() : s.cnb(), "sample_size");
		EQ(m.size().first, s.r, "size.r"); EQ(m.size().second, s.c, "size.c"); EQ(m.transposed_size().first, s.c, "tsize.r"); EQ(m.transposed_size().second, s.r, "tsize.c");
		EQ(m.size_no_bias().first, s.rnb(), "size_nb.r"); EQ(m.size_no_bias().second, s.cnb(), "size_nb.c");
		EQ(m.transposed_size_no_bias().first, s.cnb(), "tsize_nb.r"); EQ(m.transposed_size_no_bias().second, s.rnb(), "tsize_nb.c");
		EQ(m.dataset_size().first, s.bir ? s.c : s.r, "dataset_size.batch"); EQ(m.dataset_size().second, s.bir ? s.rnb() : s.cnb(), "dataset_size.sample");
		EQ(m.numel(), s.r*s.c, "numel"); EQ(m.byte_size(), s.r*s.c*sizeof(T), "byte_size");
		EQ(m.numel_no_bias_sBiR(), s.rnb()*s.cnb(), "numel_no_bias_sBiR"); EQ(m.numel_sBiR(true), s.rnb()*s.cnb(), "numel_sBiR(1)"); EQ(m.numel_sBiR(false), s.r*s.c, "numel_sBiR(0)");
		EQ(m.end() - m.begin(), s.r*s.c, "end-begin"); EQ(cm.end() - cm.begin(), s.r*s.c, "cend-cbegin"); EQ(m.end_sBiR(true) - m.begin(), s.rnb()*s.cnb(), "end_sBiR");
		EQ(m.end_no_bias_sBiR() - m.data(), s.rnb()*s.cnb(), "end_no_bias_sBiR");
		if (!(s.bias && s.bir)) {
			EQ(m.numel_no_bias(), s.rnb()*s.cnb(), "numel_no_bias"); EQ(m.numel(true), s.rnb()*s.cnb(), "numel(1)"); EQ(m.byte_size_no_bias(), s.rnb()*s.cnb()*sizeof(T), "byte_size_no_bias");
			EQ(m.end_no_bias() - m.data(), s.rnb()*s.cnb(), "end_no_bias"); EQ(m.end(true) - m.data(), s.rnb()*s.cnb(), "end(1)"); EQ(m.end(false) - m.data(), s.r*s.c, "end(0)");
			if (s.bias) EQ(m.bias_column() - m.data(), s.r*(s.c - 1), "bias_column");
			EQ(m._universal_range_BiR_aware(true), s.bir ? s.r*s.c : s.rnb()*s.cnb(), "universal_range(1)");
		} else EQ(m._universal_range_BiR_aware(true), s.c, "universal_range(1)bir");
		EQ(m._universal_range_BiR_aware(false), s.r*s.c, "universal_range(0)");
		EQ(m.hasHoleyBiases(), s.bias && s.holey, "hasHoleyBiases"); if (s.bias) EQ(m.isHoleyBiases(), s.holey, "isHoleyBiases");
		if (!s.ext) chk(0 == (uintptr_t(m.data()) % ::nntl::utils::mem_align_for<T>()), "alignment", x);
		if (s.ext) chk(x.ext.get() <= m.data() && m.data() + s.r*s.c <= x.ext.get() + s.cap(), "external-storage-pointer", x);
		for (long cc = 0; cc < s.c; ++cc) {
			EQ(m.colDataAsVec(vl(cc)) - m.data(), cc*s.r, "colDataAsVec");
			for (long rr = 0; rr < s.r; ++rr) {
				const Cell& q = s.d[cc*s.r + rr]; if (!q.k) continue;
				const double o = double(cm.get(vl(rr), vl(cc)));
				if (!(o == q.v || (o != o && q.v != q.v))) { chk(false, "content", x, long(o), long(q.v)); return; }
				vh::S().ev["matrix.cells_compared"]++;
			}
		}
	}
	bool biases_known_strict(const Model& s) { for (long i = 0; i < s.r*s.c; ++i) if (s.biasIdx(i) && !(s.d[i].k && s.d[i].v == 1)) return false; return true; }
	bool biases_binary(const Model& s) { for (long i = 0; i < s.r*s.c; ++i) if (s.biasIdx(i) && !(s.d[i].k && (s.d[i].v == 1 || s.d[i].v == 0))) return false; return true; }

	void step() {
		const int op = rg.below(O_TOTAL); Slot& x = sl[rg.below(4)]; Slot& y = sl[rg.below(4)];
		M& m = *x.m; Model& s = x.s; const bool same = &x == &y;
		char b[200]; snprintf(b, sizeof(b), "%s(%d,%d) ", OPN[op], int(&x - &sl[0]), int(&y - &sl[0])); hist += b; vh::note(hist); vh::S().ev[std::string("op.") + OPN[op]]++;
		switch (op) {
		case O_CTOR: {
			const int r = dim(), c = dim(); const bool bi = rg.b(), bir = rg.b();
			s = Model(); s.empty = false; s.bias = bi; s.bir = bir; s.r = r + (bi && bir); s.c = c + (bi && !bir); unk(s, s.r*s.c);
			switch (rg.below(DEF ? 2 : 3)) {
			case 0: x.m.reset(new M(r, c, bi, bir)); if (bi) setb(s); break;
			case 1: if constexpr (DEF) {
				// storage only; the shape is given afterwards
				x.m.reset(new M(nc(s.r*s.c), bi, false, bir)); x.m->deform(vl(s.r), vl(s.c)); s.holey = false;
				if (bi) { x.m->set_biases(); setb(s); }
			} else { x.m.reset(new M(typename M::mtx_size_t(r, c), bi, bir)); if (bi) setb(s); } break;
			case 2: if constexpr (!DEF) { x.m.reset(new M(bir, vl(bir ? c : r), vl(bir ? r : c), bi)); if (bi) setb(s); } break;
			}
			x.ext.reset(); if (rg.b()) fillAll(x);
			break; }
		case O_RESIZE: case O_RESIZE_DS: {
			if (s.ext) { m.clear(); cleared(x); }
			const int r = dim(), c = dim(); bool ok;
			if (op == O_RESIZE) ok = rg.b() ? m.resize(vl(r), vl(c)) : m.resize(typename M::mtx_size_t(r, c)); else ok = m.resize_as_dataset(vl(s.bir ? c : r), vl(s.bir ? r : c));
			chk(ok, "resize-failed", x);
			s.empty = false; s.holey = false; s.r = r + (s.bias && s.bir); s.c = c + (s.bias && !s.bir); unk(s, s.r*s.c); if (s.bias) setb(s);
			if (rg.b()) fillAll(x);
			break; }
		case O_RESIZE_LIKE: {
			if (same || y.s.empty || s.ext || s.bias != y.s.bias || s.bir != y.s.bir) break;
			chk(m.resize(*y.m), "resize-failed", x); s.empty = false; s.holey = false; s.r = y.s.r; s.c = y.s.c; unk(s, s.r*s.c); if (s.bias) setb(s);
			break; }
		case O_NBRESIZE: if constexpr (!DEF) {
			if (s.holey && !s.ext) { m.clear(); cleared(x); }
			if (s.ext) break; const int r = dim(), c = dim();
			chk(m.resize(vl(r), vl(c), NM::tag_noBias()), "resize-failed", x); s.empty = false; s.bias = false; s.holey = false; s.r = r; s.c = c; unk(s, s.r*s.c);
		} break;
		case O_CLEAR: m.clear(); cleared(x); if (rg.b()) { const bool bb = rg.b(); m.emulate_biases(bb); s.bias = bb; } break;
		case O_SET: if (!s.empty) for (int k = 0; k < 4; ++k) { const long r = rg.below(s.r), c = rg.below(s.c); if (s.biasIdx(c*s.r + r)) continue; const T v = val(); if (rg.b()) m.set(vl(r), vl(c), v); else m.get(vl(r), vl(c)) = v; s.d[c*s.r + r] = { true,double(v) }; } break;
		case O_FILL: if (!s.empty && !s.bias) { T v = val(); m.fill(v); for (long i = 0; i < s.r*s.c; ++i) s.d[i] = { true,double(v) }; } break;
		case O_ZEROS: if (!s.empty) { m.zeros(); for (long i = 0; i < s.r*s.c; ++i) { if (!s.biasIdx(i)) s.d[i] = { true,0. }; else if (s.bir) s.d[i] = { true,1. }; } } break;
		case O_ONES: if (!s.empty) { m.ones(); for (long i = 0; i < s.r*s.c; ++i) s.d[i] = { true,1. }; s.holey = false; } break;
		case O_NANS: if (!s.empty && std::is_floating_point<T>::value && !s.bias) { m.nans(); for (long i = 0; i < s.r*s.c; ++i) s.d[i] = { true,NAN }; s.holey = false; chkNaN(x, true); fillAll(x); chkNaN(x, false); } break;
		case O_FILLNB: if (!s.empty && std::is_floating_point<T>::value && !(s.bias && s.bir)) { m.nans_no_bias(); for (long i = 0; i < s.rnb()*s.cnb(); ++i) s.d[i] = { true,NAN }; s.holey = s.holey && !biases_known_strict(s) ? false : false; if (s.bias && !biases_known_strict(s)) { m.set_biases(); setb(s); } } break;
		case O_FCOL: if (!s.empty && !(s.bias && s.bir)) { const long c = rg.below(s.cnb()); T v = val(); m.fill_column_with(vl(c), v); for (long i = 0; i < s.r; ++i) s.d[c*s.r + i] = { true,double(v) }; if (!s.bias) { m.fill_last_column(v); for (long i = 0; i < s.r; ++i) s.d[(s.c - 1)*s.r + i] = { true,double(v) }; } } break;
		case O_FROW: if (!s.empty && !(s.bias && !s.bir)) { const long r = rg.below(s.rnb()); T v = val(); m.fill_row_with(vl(r), v); for (long i = 0; i < s.c; ++i) s.d[i*s.r + r] = { true,double(v) }; if (!s.bias) { m.fill_last_row(v); for (long i = 0; i < s.c; ++i) s.d[i*s.r + s.r - 1] = { true,double(v) }; } } break;
		case O_SETB: if (!s.empty && s.bias) { m.set_biases(); setb(s); chk(m.test_biases_ok(), "test_biases_ok", x); chk(m.test_biases_strict(), "test_biases_strict", x); } break;
		case O_HOLEY: if (!s.empty && s.bias) {
			// make some biases zero, as gating layers do
			for (long i = 0; i < s.r*s.c; ++i) if (s.biasIdx(i)) wr(x, i, T(rg.b()));
			m.holey_biases(true); s.holey = true; chk(m.test_biases_ok(), "test_biases_ok(holey)", x); chk(m.test_biases_holey(), "test_biases_holey", x);
		} break;
		case O_CLONE: { if (same || s.empty) break;
			if (y.s.ext && !(y.s.r == s.r && y.s.c == s.c)) {
#ifdef NDEBUG
				std::vector<Cell> before = y.s.d; chk(!m.clone_to(*y.m), "clone_to-wrong-external-size-accepted", x); vh::ev("refused.clone_to");
#endif
				break; }
			chk(m.clone_to(*y.m), "clone_to-failed", x); hidden(y); copied(x, y, s.r*s.c); y.s.bias = s.bias; y.s.holey = s.holey; y.s.bir = s.bir; chk(*y.m == m && !(*y.m != m), "clone-equality", x);
			if (!y.s.ext && y.s.r*y.s.c > 0) { chk(y.m->data() != m.data(), "clone-shares-storage", x); }
			break; }
		case O_CLONEFROM: if constexpr (DEF) { if (same || y.s.empty || s.ext) break; chk(m.cloneFrom(*y.m), "cloneFrom-failed", x); copied(y, x, y.s.r*y.s.c); s.bias = y.s.bias; s.holey = y.s.holey; s.bir = y.s.bir; chk(m == *y.m, "clone-equality", x); } break;
		case O_CLONENB: { if (same || s.empty || (s.bias && s.bir)) break;
			if (rg.chance(30) && s.cnb() > 1) {// into storage of somebody else that used to have biases
				const long n = s.rnb()*s.cnb(); std::unique_ptr<T[]> e(new T[n]); Model q; q.empty = false; q.r = s.rnb(); q.c = s.cnb(); q.ext = true; q.bias = rg.b(); q.holey = q.bias && rg.b(); q.d.assign(n, Cell()); for (long i = 0; i < n; ++i) { e[i] = T(q.biasIdx(i) ? 1 : rg.in(-9, 9)); q.d[i] = { true, double(e[i]) }; }
				y.m->useExternalStorage(e.get(), vl(q.r), vl(q.c), q.bias, q.holey, false); y.ext = std::move(e); y.s = q;
			}
 if (y.s.ext && !(y.s.r == s.rnb() && y.s.c == s.cnb())) break; if (!y.s.ext && y.s.bir) { y.m->clear(); cleared(y); }
			chk(m.clone_to_no_bias(*y.m), "clone_to_no_bias-failed", x); hidden(y);
			{ std::vector<Cell> d(s.d.begin(), s.d.begin() + s.rnb()*s.cnb()); if (y.s.ext) { std::copy(d.begin(), d.end(), y.s.d.begin()); } else y.s.d = d; y.s.r = s.rnb(); y.s.c = s.cnb(); y.s.empty = false; y.s.bias = y.s.holey = false; y.s.bir = s.bir; }
			break; }
		case O_COPY: { if (same || s.empty || y.s.empty) break;
			if (y.s.r*y.s.c != s.r*s.c || y.s.bias != s.bias) {
#ifdef NDEBUG
				chk(!m.copy_to(*y.m), "copy_to-wrong-size-accepted", x); vh::ev("refused.copy_to");
#endif
				break; }
			chk(m.copy_to(*y.m), "copy_to-failed", x); { std::copy(s.d.begin(), s.d.begin() + s.r*s.c, y.s.d.begin()); y.s.r = s.r; y.s.c = s.c; y.s.holey = s.holey; y.s.bir = s.bir; } break; }
		case O_DEFLIKE: if constexpr (DEF) {
			if (same || s.empty || y.s.empty) break; const bool nb = rg.b() || y.s.bias != s.bias || s.bias; if (s.bias || (nb && y.s.bias && y.s.bir)) break; const long r = nb ? y.s.rnb() : y.s.r, c = nb ? y.s.cnb() : y.s.c; if (r*c > s.cap()) { if (s.ext || rg.b()) break; m.clear(); cleared(x); m.emulate_biases(false); s.bias = false; chk(m.resize(vl(r + rg.below(3)), vl(c + rg.below(3))), "resize-failed", x); s.empty = false; s.r = m.rows(); s.c = m.cols(); unk(s, s.r*s.c); }
			if (nb) m.deform_like_no_bias(*y.m); else m.deform_like(*y.m); s.r = r; s.c = c; s.bir = y.s.bir; vh::ev("matrix.deform_like");
		} break;
		case O_COPYSKIP: { if (!same && !s.empty && !(s.bias && s.bir) && rg.b()) { y.m.reset(new M(vl(s.rnb()), vl(s.cnb()), false, rg.b())); y.s = Model(); y.s.empty = false; y.s.r = s.rnb(); y.s.c = s.cnb(); y.s.bir = y.m->bBatchInRow(); unk(y.s, y.s.r*y.s.c); y.ext.reset(); if (rg.b()) fillAll(y); }
			if (same || s.empty || y.s.empty || (s.bias && s.bir) || (y.s.bias && y.s.bir)) break;
			if (y.s.r != s.r || y.s.cnb() != s.cnb()) {
#ifdef NDEBUG
				chk(!m.copy_data_skip_bias(*y.m), "copy_data_skip_bias-wrong-size-accepted", x); vh::ev("refused.copy_skip");
#endif
				break; }
			if (y.s.bias && s.bir) break;
			chk(m.copy_data_skip_bias(*y.m), "copy_data_skip_bias-failed", x); std::copy(s.d.begin(), s.d.begin() + s.r*s.cnb(), y.s.d.begin()); y.s.bir = s.bir; break; }
		case O_MOVEC: { if (s.empty) break; const void* p = m.data(); std::unique_ptr<M> n(new M(std::move(m))); chk(n->data() == p, "move-changed-storage", x); chk(m.empty() && m.rows() == 0 && m.cols() == 0, "moved-from-not-empty", x); x.m = std::move(n); break; }
		case O_MOVEA: { if (same) { if (rg.b()) { M& q = m; m = std::move(q); } break; } if (s.empty) break; const void* p = m.data(); *y.m = std::move(m); chk(y.m->data() == p, "move-changed-storage", x); chk(m.empty() && m.rows() == 0 && m.cols() == 0, "moved-from-not-empty", x); y.s = s; y.ext = std::move(x.ext); m.clear(); cleared(x); break; }
		case O_EXT: { const int r = dim(), c = dim(), bi = rg.b(), bir = rg.b(), ho = bi && rg.b(); const int R_ = r + (bi && bir), C_ = c + (bi && !bir);
			const int kind = rg.below(DEF ? 5 : 3); const int extra = kind == 3 ? rg.below(10) : 0; std::unique_ptr<T[]> e(new T[R_*C_ + extra]); Model ns; ns.empty = false; ns.r = R_; ns.c = C_; ns.bias = bi; ns.bir = bir; ns.ext = true; ns.d.assign(R_*C_ + extra, Cell());
			for (int i = 0; i < R_*C_ + extra; ++i) { T v = val(); e[i] = v; ns.d[i] = { true,double(v) }; }
			for (long i = 0; i < R_*C_; ++i) if (ns.biasIdx(i)) { T v = ho ? T(rg.b()) : T(1); e[i] = v; ns.d[i] = { true,double(v) }; }
			ns.holey = ho;
			switch (kind) {
			case 0: m.useExternalStorage(e.get(), vl(R_), vl(C_), bool(bi), bool(ho), bool(bir)); break;
			case 1: m.useExternalStorage(bool(bir), e.get(), vl(bir ? C_ : R_), vl(bir ? R_ : C_), bool(bi), bool(ho)); break;
			case 2: if (s.ext) m.clear(); else if (!s.empty) m.clear(); m.set_batchInRow(bool(bir)); m.useExternalStorage(vl(bir ? C_ : R_), vl(bir ? R_ : C_), e.get(), bool(bi), bool(ho)); break;
			case 3: if constexpr (DEF) { m.useExternalStorage(e.get(), nc(R_*C_ + extra), bool(bi), bool(ho), bool(bir)); m.deform(vl(R_), vl(C_)); } break;
			case 4: if constexpr (DEF) { x.m.reset(new M(e.get(), vl(R_), vl(C_), bool(bi), bool(ho), bool(bir))); } break;
			}
			x.ext = std::move(e); s = ns; break; }
		case O_EXTLIKE: { if (same || y.s.empty) break; const long n = y.s.r*y.s.c; std::unique_ptr<T[]> e(new T[n]); for (long i = 0; i < n; ++i) e[i] = T(1); const Model ys = y.s;
			m.useExternalStorage(e.get(), *y.m, ys.holey); x.ext = std::move(e); s = ys; s.ext = true; s.d.assign(n, Cell{ true,1. }); break; }
		case O_INT: { const int r = dim(), c = dim(); const bool bi = rg.b(), bir = rg.b(), sz = rg.b(); chk(m.useInternalStorage(sz ? vl(r) : 0, sz ? vl(c) : 0, bi, bir), "useInternalStorage", x); if constexpr (DEF) m.update_on_hidden_resize(); x.ext.reset(); s = Model(); s.bias = bi; s.bir = bir; if (sz) { s.empty = false; s.r = r + (bi && bir); s.c = c + (bi && !bir); unk(s, s.r*s.c); if (bi) setb(s); } break; }
		case O_DEF: if constexpr (DEF) { if (s.empty || s.bias) break; const long r = rg.in(1, int(s.cap())), c = rg.in(1, int(s.cap() / r)); m.deform(vl(r), vl(c)); s.r = r; s.c = c; } break;
		case O_DEFBS: if constexpr (DEF) { if (s.empty) break; const long per = s.bir ? s.r : s.c, mx = s.cap() / per; const long bs = rg.in(1, int(mx)); const long old = s.bir ? s.c : s.r;
			if (bs == old && s.bias && !biases_known_strict(s)) break; if (s.bias && s.holey && bs == old) break;
			m.deform_batch_size_with_biases(vl(bs)); if (s.bir) s.c = bs; else s.r = bs; if (bs != old && s.bias) setb(s); } break;
		case O_DEFSS: if constexpr (DEF) { if (s.empty || s.bias) break; const long per = s.bir ? s.c : s.r, mx = s.cap() / per; const long ss = rg.in(1, int(mx)), old = s.bir ? s.r : s.c; EQ(m.deform_sample_size(vl(ss)), old, "deform_sample_size-old"); if (s.bir) s.r = ss; else s.c = ss; } break;
		case O_DEFDS: if constexpr (DEF) { if (s.empty) break; const long bs = rg.in(1, int(s.cap() > 8 ? s.cap() / 2 : 1)), mx = s.cap() / bs; if (mx < 1 + s.bias) break; const long ss = rg.in(1 + s.bias, int(mx)); const long nr = s.bir ? ss : bs, ncl = s.bir ? bs : ss; if (nr == s.r && ncl == s.c && s.bias && (s.holey || !biases_known_strict(s))) break;
			const bool ch = nr != s.r || ncl != s.c; m.deform_dataset(vl(bs), vl(ss)); s.r = nr; s.c = ncl; if (ch && s.bias) setb(s); } break;
		case O_HIDE: if constexpr (DEF) { if (s.empty || (s.bias && s.bir) || s.bir) break; const Model sv = s; const bool h = m.hide_biases(); EQ(h, s.bias, "hide_biases"); if (s.bias) { s.c--; s.bias = false; } observe(x); m.restore_biases(h); s = sv; } break;
		case O_HIDEN: if constexpr (DEF) { if (s.empty) break; const Model sv = s; const long mx = s.c - (s.bias) - 1; if (mx < 1) break; const long n = rg.in(1, int(mx)); const bool bw = m.hide_last_n_cols(vl(n)); EQ(bw, s.bias && !s.bir, "hide_last_n_cols"); s.c -= n + (s.bias && !s.bir); if (s.bias && !s.bir) s.bias = false; observe(x); m.restore_last_n_cols(bw, vl(n)); s = sv; } break;
		case O_TRANSP: if constexpr (DEF) { if (s.empty) break; const Model sv = s; m.on_transposition(); std::swap(s.r, s.c); s.bir = !s.bir; EQ(m.rows(), s.r, "transp.rows"); EQ(m.cols(), s.c, "transp.cols"); EQ(m.bBatchInRow(), s.bir, "transp.bir"); EQ(m.batch_size(), sv.bir ? sv.c : sv.r, "transp.batch_size"); EQ(m.sample_size(), sv.bir ? sv.rnb() : sv.cnb(), "transp.sample_size"); m.on_transposition(); s = sv; } break;
		case O_VIEW: { if (s.empty || s.cnb() < 1 || (DEF && s.bias && s.bir)) break; const long c0 = rg.below(s.cnb()), n = rg.in(1, int(s.cnb() - c0)); M v(m.submatrix_cols_no_bias(vl(c0), vl(n))); EQ(v.rows(), s.r, "view.rows"); EQ(v.cols(), n, "view.cols"); EQ(v.emulatesBiases(), 0, "view.bias"); EQ(v.bOwnStorage(), 0, "view.owns"); EQ(v.data() - m.data(), c0*s.r, "view.offset"); if (!DEF) EQ(v.bBatchInRow(), s.bir, "view.bir");
			if (!(s.bias && s.bir)) { M w; w.useExternalStorage_no_bias(m); EQ(w.data() - m.data(), 0, "viewnb.offset"); EQ(w.rows(), s.rnb(), "viewnb.rows"); EQ(w.cols(), s.cnb(), "viewnb.cols"); EQ(w.emulatesBiases(), 0, "viewnb.bias"); EQ(w.bBatchInRow(), s.bir, "viewnb.bir"); }
			{ M w; w.useExternalStorage(m); EQ(w.data() - m.data(), 0, "viewfull.offset"); EQ(w.rows(), s.r, "viewfull.rows"); EQ(w.cols(), s.c, "viewfull.cols"); EQ(w.emulatesBiases(), s.bias, "viewfull.bias"); EQ(w.bBatchInRow(), s.bir, "viewfull.bir"); EQ(w.hasHoleyBiases(), s.bias && s.holey, "viewfull.holey"); EQ(w.bOwnStorage(), 0, "viewfull.owns"); }
			vh::ev("matrix.views"); break; }
		case O_BIASES: { if (s.empty || !s.bias || s.bir) break;
			if (rg.b() && !same && !y.s.empty && y.s.bias && !y.s.bir && y.s.r == s.r && (!y.s.holey || biases_binary(y.s))) { m.copy_biases_from(*y.m); s.holey = y.s.holey; for (long i = 0; i < s.r; ++i) s.d[s.r*(s.c - 1) + i] = s.holey ? y.s.d[y.s.r*(y.s.c - 1) + i] : Cell{ true,1. }; }
			else { std::unique_ptr<T[]> e(new T[s.r]); vl nz = 0; for (long i = 0; i < s.r; ++i) { e[i] = T(rg.b()); nz += e[i] != 0; s.d[s.r*(s.c - 1) + i] = { true,double(e[i]) }; } m.copy_biases_from(e.get(), nz); s.holey = nz != s.r; }
			chk(m.test_biases_ok(), "test_biases_ok(copied)", x); break; }
		case O_FROM: { if (s.empty || (s.bias && s.bir)) break; const long n = s.rnb()*s.cnb(); if (rg.b()) { std::unique_ptr<T[]> e(new T[n]); for (long i = 0; i < n; ++i) { e[i] = val(); s.d[i] = { true,double(e[i]) }; } m.fill_from_array_no_bias(e.get()); } else { std::unique_ptr<int16_t[]> e(new int16_t[n]); for (long i = 0; i < n; ++i) { e[i] = int16_t(rg.in(-99, 99)); s.d[i] = { true,double(e[i]) }; } m.fill_from_array_no_bias(e.get()); } break; }
		case O_EQ: { if (same || s.empty || y.s.empty) break; bool kn = true, eq = s.r == y.s.r && s.c == y.s.c && s.bias == y.s.bias && s.bir == y.s.bir && s.holey == y.s.holey; if (eq) for (long i = 0; i < s.r*s.c; ++i) { if (!s.d[i].k || !y.s.d[i].k || s.d[i].v != s.d[i].v || s.d[i].v == 0) kn = false; else if (s.d[i].v != y.s.d[i].v) eq = false; } if (kn || !eq) { if (!eq && !kn) break; EQ(m == *y.m, eq, "operator=="); EQ(m != *y.m, !eq, "operator!="); vh::ev("matrix.eq"); } break; }
		}
		observe(x); if (!same) observe(y); twin(x); if (!same) twin(y);
	}
	// a matrix made from scratch with the same shape, flags and contents compares equal
	void twin(Slot& x) {
		Model& s = x.s; if (s.empty || !rg.chance(30)) return; M z(vl(s.rnb()), vl(s.cnb()), s.bias, s.bir); std::memcpy(z.data(), x.m->data(), sizeof(T)*s.r*s.c); if (s.bias) z.holey_biases(s.holey);
		chk(z == *x.m && *x.m == z && !(z != *x.m), "equals-a-fresh-one", x); vh::ev("matrix.twins");
	}
	void chkNaN(Slot& x, bool has) {
#ifdef NDEBUG
		bool known = true; for (long i = 0; i < x.s.r*x.s.c; ++i) known &= x.s.d[i].k; if (known) { chk(x.m->test_noNaNs() == !has, "test_noNaNs", x); }
#endif
	}
	void hidden(Slot& y) { if constexpr (DEF) if (!y.s.ext) y.m->update_on_hidden_resize(); }
	void cleared(Slot& x) { const bool b = x.s.bias; x.s = Model(); x.s.bias = b; x.ext.reset(); }
	void copied(Slot& f, Slot& t, long n) { if (t.s.ext) std::copy(f.s.d.begin(), f.s.d.begin() + n, t.s.d.begin()); else t.s.d.assign(f.s.d.begin(), f.s.d.begin() + n); t.s.r = f.s.r; t.s.c = f.s.c; t.s.empty = false; }
};
template<typename M, typename T, bool D> void hist(R& r) { Run<M, T, D> x(r); const int n = r.in(20, 60); for (int i = 0; i < n && !vh::S().nviol; ++i) x.step(); vh::sample("%s...", x.hist.substr(0, 150).c_str()); }

int main(int c, char** v) {
	vh::init(c, v);
	vh::group("smatrix_float", 500, [](R& r, int) { hist<NM::smatrix<float>, float, false>(r); });
	vh::group("smatrix_double", 300, [](R& r, int) { hist<NM::smatrix<double>, double, false>(r); });
	vh::group("smatrix_int", 200, [](R& r, int) { hist<NM::smatrix<int>, int, false>(r); });
	vh::group("deform_float", 700, [](R& r, int) { hist<NM::smatrix_deform<float>, float, true>(r); });
	vh::group("deform_double", 400, [](R& r, int) { hist<NM::smatrix_deform<double>, double, true>(r); });
	return vh::done();
}
