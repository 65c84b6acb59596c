// what is written to mat files is what is read back: archives, manual structures, training data, networks
#define NNTL_MATLAB_AVAILABLE 1
#include "mat.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/_supp/io/matfile.h"
#include "netcommon.h"
#include "nntl/interface/inspectors/dumper.h"
#include <sys/stat.h>
#include <dirent.h>
#include <xmmintrin.h>
using namespace nntl_supp;
typedef _matfile_errs::ErrorCode ME;
static std::string fileFor(int i) { return S().tmpdir + "/m" + std::to_string(i) + ".mat"; }
static void start() { vmat::err().clear(); vmat::failAt() = -1; vmat::calls() = 0; _mm_setcsr(_mm_getcsr() & ~0x8040u); global_denormalized_floats_mode(); }
static unsigned fpMode() { return _mm_getcsr() & 0x8040u; }
static void finish(const char* g, unsigned fp) {
	if (!vmat::err().empty()) viol("mat.misuse", "%s: misuse of the interface: %s", g, vmat::err().c_str());
	if (vmat::live() || vmat::files()) { viol("mat.leak", "%s: %ld arrays and %ld files are left", g, vmat::live(), vmat::files()); vmat::live() = 0; vmat::files() = 0; }
	if (fpMode() != fp) viol("mat.fpmode", "%s: the handling of denormals was changed", g);
}
enum K { kD, kF, kI8, kU8, kI32, kU32, kI64, kU64, kB, kMF, kMD, kDF, kDD, kSz, kStruct, kEnum };
enum En { en0 = 3, en1 = 77 };
static std::string rname(R& r, std::set<std::string>& used) { for (;;) { std::string s; const int l = r.chance(10) ? r.in(40, 63) : r.in(1, 8); for (int i = 0; i < l; ++i) { const char* al = "abcXYZ_019"; s += i ? al[r.below(10)] : al[r.below(6)]; } if (s != "train_x" && s != "test_x" && used.insert(s).second) return s; } }
template<typename Q> Q anyInt(R& r) { return r.chance(30) ? r.pick({ std::numeric_limits<Q>::min(), std::numeric_limits<Q>::max(), Q(0), Q(-1) }) : Q(r.u64()); }
template<typename Q> Q anyReal(R& r) { switch (r.below(8)) { case 0: return Q(0); case 1: return -Q(0); case 2: return std::numeric_limits<Q>::infinity(); case 3: return std::numeric_limits<Q>::quiet_NaN(); case 4: return std::numeric_limits<Q>::denorm_min(); case 5: return std::numeric_limits<Q>::max(); default: return Q(r.norm()*10); } }
template<typename Q> bool eqb(const M<Q>& a, const M<Q>& b) { return a.rows() == b.rows() && a.cols() == b.cols() && same_bits(std::vector<Q>(a.data(), a.data() + a.numel()), b.data()); }
struct V {
	int k = kD; std::string name; double d = 0; float f = 0; int8_t i8 = 0; uint8_t u8 = 0; int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; uint64_t u64 = 0; bool b = false; En e = en0; size_t sz = 0; M<float> mf; M<double> md; MD<float> df; MD<double> dd; std::vector<std::unique_ptr<V>> ch;
	bool read = false;// was it read successfully
	template<typename Ar> void io(Ar& ar) {
		using serialization::make_nvp; const char* n = name.c_str();
		switch (k) {
		case kD: ar & make_nvp(n, d); break; case kF: ar & make_nvp(n, f); break; case kI8: ar & make_nvp(n, i8); break; case kU8: ar & make_nvp(n, u8); break; case kI32: ar & make_nvp(n, i32); break; case kU32: ar & make_nvp(n, u32); break; case kI64: ar & make_nvp(n, i64); break; case kU64: ar & make_nvp(n, u64); break; case kB: ar & make_nvp(n, b); break;
		case kMF: ar & make_nvp(n, mf); break; case kMD: ar & make_nvp(n, md); break; case kDF: ar & make_nvp(n, df); break; case kDD: ar & make_nvp(n, dd); break; case kSz: ar & make_nvp(n, sz); break; case kEnum: ioEnum(ar, n); break;
		case kStruct: ar & serialization::make_named_struct(n, *this); break;
		}
		read = ar.success();
	}
	template<typename Ar> std::enable_if_t<Ar::is_saving::value> ioEnum(Ar& ar, const char* n) { ar & serialization::make_nvp(n, e); }
	template<typename Ar> std::enable_if_t<Ar::is_loading::value> ioEnum(Ar& ar, const char* n) { size_t s = 0; ar & serialization::make_nvp(n, s); if (ar.success()) e = En(s); }
	template<typename Ar> void serialize(Ar& ar, const unsigned) { for (auto& c : ch) c->io(ar); }
	bool scalarEq(const V& o)const { return !std::memcmp(&d, &o.d, sizeof(d)) && !std::memcmp(&f, &o.f, sizeof(f)) && i8 == o.i8 && u8 == o.u8 && i32 == o.i32 && u32 == o.u32 && i64 == o.i64 && u64 == o.u64 && b == o.b && e == o.e && sz == o.sz; }
	// compares the value read with the value written, finding children by name
	std::string diff(const V& o)const {
		if (k != kStruct) return !scalarEq(o) ? name : (k == kMF && !eqb(mf, o.mf)) || (k == kMD && !eqb(md, o.md)) || (k == kDF && (!eqb<float>(df, o.df))) || (k == kDD && (!eqb<double>(dd, o.dd))) ? name : "";
		for (auto& c : ch) for (auto& q : o.ch) if (c->name == q->name) { const auto s = c->diff(*q); if (!s.empty()) return name + "." + s; } return "";
	}
	int count()const { int n = 1; for (auto& c : ch) n += c->count(); return n; }
};
typedef std::unique_ptr<V> PV;
template<typename Q> void fillM(R& r, M<Q>& m) { if (r.chance(30)) { m.will_emulate_biases(); } m.resize(r.in(1, 9), r.in(1, 9)); for (nc i = 0; i < m.numel_no_bias(); ++i) m.data()[i] = anyReal<Q>(r); }
static PV mk(R& r, std::set<std::string>& used, int depth) {
	PV v(new V); v->name = rname(r, used); v->k = depth > 0 && r.chance(25) ? kStruct : r.pick({ kD, kF, kI8, kU8, kI32, kU32, kI64, kU64, kB, kMF, kMD, kDF, kDD, kMF, kMD, kSz, kEnum });
	switch (v->k) { case kD: v->d = anyReal<double>(r); break; case kF: v->f = anyReal<float>(r); break; case kI8: v->i8 = anyInt<int8_t>(r); break; case kU8: v->u8 = anyInt<uint8_t>(r); break; case kI32: v->i32 = anyInt<int32_t>(r); break; case kU32: v->u32 = anyInt<uint32_t>(r); break; case kI64: v->i64 = anyInt<int64_t>(r); break; case kU64: v->u64 = anyInt<uint64_t>(r); break; case kB: v->b = r.b(); break; case kSz: v->sz = anyInt<size_t>(r); break; case kEnum: v->e = r.b() ? en0 : en1; break;
	case kMF: fillM(r, v->mf); break; case kMD: fillM(r, v->md); break; case kDF: v->df.resize(r.in(1, 9), r.in(1, 9)); for (nc i = 0; i < v->df.numel(); ++i) v->df.data()[i] = anyReal<float>(r); break; case kDD: v->dd.resize(r.in(1, 9), r.in(1, 9)); for (nc i = 0; i < v->dd.numel(); ++i) v->dd.data()[i] = anyReal<double>(r); break;
	case kStruct: { std::set<std::string> u; for (int n = r.in(1, 5); n-- > 0;) v->ch.push_back(mk(r, u, depth - 1)); } }
	return v;
}
// the same shape, other values; children in another order, some are left out; targets may be in any previous state
template<typename Q> void dirty(R& r, M<Q>& m) { if (r.b()) { if (r.b()) m.will_emulate_biases(); m.resize(r.in(1, 9), r.in(1, 9)); for (nc i = 0; i < m.numel_no_bias(); ++i) m.data()[i] = Q(-1); } }
static PV target(R& r, const V& s, int dropPct) {
	PV v(new V); v->name = s.name; v->k = s.k; std::vector<int> o; for (size_t i = 0; i < s.ch.size(); ++i) if (!r.chance(dropPct)) o.push_back(int(i)); r.shuffle(o); for (int i : o) v->ch.push_back(target(r, *s.ch[i], dropPct));
	dirty(r, v->mf); dirty(r, v->md); if (r.b()) { v->df.resize(r.in(1, 9), r.in(1, 9)); v->df.zeros(); v->df.deform_rows(1); } if (r.b()) { v->dd.resize(r.in(1, 9), r.in(1, 9)); v->dd.zeros(); } return v;
}
template<typename Om> void write(Om& o, std::vector<PV>& vs) { for (auto& v : vs) v->io(o); }
static void tree(R& r) {
	start(); const unsigned fp = fpMode(); { std::set<std::string> used; std::vector<PV> vs; for (int n = r.in(1, 8); n-- > 0;) vs.push_back(mk(r, used, 3)); const std::string fn = fileFor(0); int cnt = 0; for (auto& v : vs) cnt += v->count();
		seen("tree", vs.size(), std::min(cnt, 20), vs[0]->k, vs.back()->k);
		auto doWrite = [&](auto& o) {
			if (o.open(fn) != ME::Success) { viol("mat.open", "code %d", int(o.get_last_error())); return false; }
			if (r.chance(30)) { PV j = mk(r, used, 2); j->name = vs[0]->name; j->io(o); }// a variable written twice: the last one wins
			write(o, vs); if (!o.success()) { viol("mat.write", "code %d", int(o.get_last_error())); return false; } if (r.b() && o.close() != ME::Success) { viol("mat.close", "code %d", int(o.get_last_error())); return false; } return true; };
		bool ok; if (r.b()) { omatfile<> o; ok = doWrite(o); } else { omatfileEx<> o; ok = doWrite(o); }
		for (int rep = r.in(1, 2); ok && rep-- > 0;) {
			std::vector<PV> ts; for (auto& v : vs) if (!r.chance(15)) ts.push_back(target(r, *v, 15)); r.shuffle(ts); imatfile<> i; if (i.open(fn) != ME::Success) { viol("mat.open", "code %d", int(i.get_last_error())); break; } write(i, ts); if (!i.success()) viol("mat.read", "code %d", int(i.get_last_error()));
			for (auto& t : ts) for (auto& v : vs) if (v->name == t->name && t->read) { const auto d = t->diff(*v); if (!d.empty()) viol("mat.tree", "%s is different after it was written and read", d.c_str()); } ev("mat.vars", ts.size()); if (i.close() != ME::Success) viol("mat.close", "code %d", int(i.get_last_error()));
		}
		ev("mat.trees"); }
	finish("tree", fp);
}
// arrays of every class, made by somebody else
template<typename Q> long double getAs(mxClassID c, const unsigned char* p) { switch (c) { case mxDOUBLE_CLASS: return Q(*(const double*)p); case mxSINGLE_CLASS: return Q(*(const float*)p); case mxINT8_CLASS: return Q(*(const int8_t*)p); case mxUINT8_CLASS: case mxLOGICAL_CLASS: return Q(*p); case mxINT32_CLASS: return Q(*(const int32_t*)p); case mxUINT32_CLASS: return Q(*(const uint32_t*)p); case mxINT64_CLASS: return Q(*(const int64_t*)p); default: return Q(*(const uint64_t*)p); } }
template<typename Q> void convert(R& r) {
	start(); const unsigned fp = fpMode(); { const std::string fn = fileFor(1); const mxClassID c = r.pick({ mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxLOGICAL_CLASS });
		const int m = r.chance(30) ? 1 : r.in(1, 8), n = r.chance(30) ? 1 : r.in(1, 8); const bool x = r.chance(25); const char* nm = x ? (r.b() ? "train_x" : "test_x") : "v"; const size_t es = vmat::sz(c); auto a = vmat::make(c, m, n + x); std::vector<long double> want;
		for (int i = 0; i < m*n; ++i) { unsigned char* p = a->d + i*es; switch (c) { case mxDOUBLE_CLASS: { const double d = r.norm()*100; std::memcpy(p, &d, 8); break; } case mxSINGLE_CLASS: { const float d = float(r.norm()*100); std::memcpy(p, &d, 4); break; } case mxLOGICAL_CLASS: *p = r.b(); break; default: { const uint64_t u = r.chance(40) ? uint64_t(int64_t(r.in(-100, 100))) : r.u64(); std::memcpy(p, &u, es); } } want.push_back(getAs<Q>(c, p)); }
		{ MATFile* f = matOpen(fn.c_str(), "w"); matPutVariable(f, nm, a); matClose(f); mxDestroyArray(a); }
		imatfile<> i; if (i.open(fn) != ME::Success) viol("mat.open", "code %d", int(i.get_last_error())); M<Q> t; dirty(r, t); i & serialization::make_nvp(nm, t); seen("convert", int(c), sizeof(Q), m == 1, n == 1, x);
		if (!i.success()) viol("mat.convert", "class %d: code %d", int(c), int(i.get_last_error()));
		else if (t.rows() != m || t.cols_no_bias() != n || t.emulatesBiases() != x) viol("mat.convert", "%d x %d of class %d read as %d x %d, biases %d", m, n + x, int(c), int(t.rows()), int(t.cols_no_bias()), t.emulatesBiases());
		else { for (int k = 0; k < m*n; ++k) if ((long double)t.data()[k] != want[k]) { viol("mat.convert", "class %d: %Lg instead of %Lg", int(c), (long double)t.data()[k], want[k]); break; } if (x && !t.test_biases_strict()) viol("mat.convert", "biases are wrong"); }
		ev("mat.conversions"); i.close(); }
	finish("convert", fp);
}
// manual structures against a model of the file
struct Nd { bool st = false; double v = 0; std::map<std::string, Nd> f; };
static std::string cmpNd(const Nd& n, const mxArray* a) {
	if (!a) return "is missing"; if (!n.st) return a->id == mxDOUBLE_CLASS && a->m == 1 && a->n == 1 && *(const double*)a->d == n.v ? "" : "has another value"; if (a->id != mxSTRUCT_CLASS) return "is not a structure"; if (a->f.size() != n.f.size()) return "has another number of fields";
	for (auto& e : n.f) { const auto s = cmpNd(e.second, mxGetField(a, 0, e.first.c_str())); if (!s.empty()) return "." + e.first + " " + s; } return "";
}
struct ST { std::vector<std::pair<std::string, double>> v; template<typename Ar> void serialize(Ar& ar, const unsigned) { for (auto& e : v) ar & serialization::make_nvp(e.first.c_str(), e.second); } };
static void manual(R& r) {
	start(); const unsigned fp = fpMode(); { const std::string fn = fileFor(2); std::remove(fn.c_str()); Nd file; file.st = true; bool exists = false; std::string log;
		const char* names[] = { "A", "B", "C", "dd" };
		for (int sess = r.in(1, 3); sess-- > 0;) {
			omatfileEx<> o; typedef omatfileEx<>::FileOpenMode FM; const int md = r.below(4); const auto mode = md == 0 ? FM::WriteDelete : md == 1 ? FM::UpdateDelete : md == 2 ? FM::UpdateKeepOld : FM::Read;
			const ME oc = o.open(fn, mode);
			if (md == 3) { if (oc != ME::InvalidOpenMode) viol("mat.mode", "opened for reading by a saving archive: code %d", int(oc)); ev("mat.refused_modes"); continue; }
			if (md == 2 && !exists) { if (oc != ME::FailedToOpenFile) viol("mat.mode", "a missing file opened for update: code %d", int(oc)); continue; }
			if (oc != ME::Success) { viol("mat.open", "code %d", int(oc)); break; } if (md < 2) file.f.clear(); exists = true; log += " open" + std::to_string(md);
			struct Fr { std::string name; Nd v; int old; }; std::vector<Fr> fr; std::vector<int> vis;// the structures that are open; the visible ones
			auto top = [&]() -> Nd& { return vis.empty() ? file : fr[vis.back()].v; };
			for (int k = r.in(3, 30); k-- > 0 || !fr.empty();) {
				const int a = k <= 0 ? 2 : r.below(5); const std::string nm = names[r.below(4)];
				if (a == 0 || (a == 1 && fr.size() < 5)) {
					if (a == 0) { const double d = r.in(0, 100); o << serialization::make_nvp(nm.c_str(), d); top().f[nm] = Nd(); top().f[nm].v = d; log += " " + nm + "=" + std::to_string(int(d)); }
					else {
						bool upd = r.b(); const bool flat = r.b(); int old = -1; if (flat && !vis.empty()) { old = vis.back(); vis.pop_back(); }
						// a field that is open for update is shared with its structure till it is saved
						bool clash = false; if (!vis.empty() || flat) for (size_t i = 0; i < fr.size(); ++i) { (void)i; if (old >= 0 && fr[i].name == nm) clash = true; } 
						if (clash) { vis.push_back(old); continue; }
						Fr n; n.name = nm; n.old = old; n.v.st = true; if (r.b()) { std::vector<std::string> q; for (auto& e : top().f) if (e.second.st) q.push_back(e.first); if (!q.empty()) { n.name = q[r.below(int(q.size()))]; bool cl = false; for (auto& e : fr) if (old >= 0 && e.name == n.name) cl = true; if (cl) n.name = nm; else upd = true; } } const auto it = top().f.find(n.name); const bool found = upd && it != top().f.end() && it->second.st; if (found) n.v = it->second; log += std::string(" begin ") + n.name + (upd ? " upd" : "") + (flat ? " flat" : ""); note(log);
						const ME c = o.save_struct_begin(std::string(n.name), upd, flat); if (c != ME::Success || !o.success()) { viol("mat.manual", "save_struct_begin(): code %d:%s", int(c), log.c_str()); break; } seen("begin", upd, flat, found, fr.size(), old >= 0); if (found) ev(vis.empty() ? "mat.updates" : "mat.nested_updates"); fr.push_back(n); vis.push_back(int(fr.size()) - 1);
					}
				} else if (a == 2 || a == 3) {
					if (fr.empty()) { if (r.chance(10)) { const ME c = o.save_struct_end(); if (c != ME::NoStructToSave || o.success()) viol("mat.manual", "save_struct_end() without a structure: code %d", int(c)); const double d = 1; o << serialization::make_nvp("never", d); o._drop_last_error(); ev("mat.refused_ends"); } continue; }
					log += " end"; note(log); const ME c = o.save_struct_end(); if (c != ME::Success || !o.success()) { viol("mat.manual", "save_struct_end(): code %d:%s", int(c), log.c_str()); break; }
					Fr f = fr.back(); fr.pop_back(); vis.pop_back(); top().f[f.name] = f.v; if (f.old >= 0) vis.push_back(f.old);
				} else { ST s; Nd n; n.st = true; for (int q = r.below(4); q-- > 0;) { const std::string b = names[r.below(4)]; const double d = r.in(0, 100); s.v.push_back({ b, d }); n.f[b] = Nd(); n.f[b].v = d; } o << serialization::make_named_struct(nm.c_str(), s); top().f[nm] = n; log += " " + nm + "={}"; }
				if (!o.success()) { viol("mat.manual", "code %d:%s", int(o.get_last_error()), log.c_str()); break; } ev("mat.manual_ops");
			}
			if (o.close() != ME::Success) viol("mat.close", "code %d", int(o.get_last_error())); ev("mat.manual_sessions");
			auto f = matOpen(fn.c_str(), "r"); if (!f) { viol("mat.manual", "no file:%s", log.c_str()); break; }
			if (f->v.size() != file.f.size()) viol("mat.manual", "%zu variables instead of %zu:%s", f->v.size(), file.f.size(), log.c_str()); for (auto& e : file.f) { auto a = matGetVariable(f, e.first.c_str()); const auto s = cmpNd(e.second, a); if (!s.empty()) viol("mat.manual", "%s%s after%s", e.first.c_str(), s.c_str(), log.c_str()); mxDestroyArray(a); } matClose(f);
		} }
	finish("manual", fp);
}
// training data
template<typename T> void tdata(R& r) {
	start(); const unsigned fp = fpMode(); { const std::string fn = fileFor(3); const int nx = r.in(1, 6), ny = r.in(1, 4), n1 = r.in(1, 20), n2 = r.in(1, 20); inmem_train_data<T> td, t2; if (!mkTD<T>(r, td, n1, n2, DataSpec{ OutK::sigm_xe, nx, ny })) { viol("mat.td", "can't absorb"); return; }
		{ omatfile<> o; o.open(fn); o & serialization::make_named_struct("td", td); if (!o.success()) viol("mat.td", "writing: code %d", int(o.get_last_error())); }
		if (r.b()) mkTD<T>(r, t2, r.in(1, 9), r.in(1, 9), DataSpec{ OutK::sigm_xe, r.in(1, 6), r.in(1, 4) });
		{ imatfile<> i; i.open(fn); i & serialization::make_named_struct("td", t2); if (!i.success()) viol("mat.td", "reading: code %d", int(i.get_last_error())); else {
			if (!eqb<T>(td.train_x(), t2.train_x()) || !eqb<T>(td.test_x(), t2.test_x()) || !eqb<T>(td.train_y(), t2.train_y()) || !eqb<T>(td.test_y(), t2.test_y())) viol("mat.td", "the data is different after it was written and read"); if (!t2.train_x().emulatesBiases() || !t2.test_x().emulatesBiases() || t2.train_y().emulatesBiases() || !t2.train_x().test_biases_strict() || !t2.test_x().test_biases_strict()) viol("mat.td", "biases are wrong"); if (!(td == t2)) viol("mat.td", "operator==");
			if (t2.empty() || t2.dataset_samples_count(0) != n1 || t2.dataset_samples_count(1) != n2 || t2.xWidth() != nx || t2.yWidth() != ny) viol("mat.td", "sizes are wrong"); } }
		seen("td", n1 == 1, n2 == 1, nx == 1, ny == 1); ev("mat.tds"); }
	finish("tdata", fp);
}
// networks
template<typename T> struct NIp : dt_interfaces<T> { typedef inspector::dummy<T> iInspect_t; };
template<typename T> struct Net {
	typedef NIp<T> I; typedef grad_works<I> G; typedef activation::sigm<T, weights_init::XavierFour> A; typedef LFC<A, G> FC; typedef layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, G> OL; typedef LI<I> Id;
	layer_input<I> inp; FC a, b, c, d, e; Id id; LPV<FC, FC> pv; PHL<FC> p1; PHL<LPV<FC, FC>> p2; PHL<Id> p3; LPH<PHL<FC>, PHL<LPV<FC, FC>>, PHL<Id>> ph; FC f; OL out;
	static int part(int n, int k, int q) { return n*k / q; }
	Net(const int* h, T lr) : inp(6), a(h[0], lr), b(h[1], lr), c(h[2], lr), d(h[3], lr), e(h[4], lr), pv(b, c), p1(a, 0, 2), p2(pv, 1, 3), p3(id, 4, 2), ph(p1, p2, p3), f(h[5], lr), out(h[6], lr) {}
	template<typename F> void each(F f_) { f_(a); f_(b); f_(c); f_(f); f_(out); }
};
template<typename T, typename N> std::vector<std::vector<T>> wsOf(N& n) { std::vector<std::vector<T>> v; n.each([&](auto& l) { v.push_back(snap<T>(l.get_weights())); }); return v; }
static const mxArray* find(const mxArray* a, const std::string& name) { for (auto& e : a->f) { if (e.first == name && e.second) return e.second; if (e.second && e.second->id == mxSTRUCT_CLASS) if (auto q = find(e.second, name)) return q; } return nullptr; }
template<typename T> void nets(R& r) {
	start(); const unsigned fp = fpMode(); { const std::string fn = fileFor(4); int h[7]; for (auto& q : h) q = r.in(1, 7); Net<T> n1(h, T(.1)), n2(h, T(.2)); auto l1 = make_layers(n1.inp, n1.ph, n1.f, n1.out); auto l2 = make_layers(n2.inp, n2.ph, n2.f, n2.out); auto nn1 = make_nnet(l1), nn2 = make_nnet(l2); nn1.get_iRng().seed64(r.u64() >> 1); nn2.get_iRng().seed64(r.u64() >> 1);
		inmem_train_data<T> td; const DataSpec ds{ OutK::sigm_xe, 6, h[6] }; if (!mkTD<T>(r, td, r.in(2, 20), r.in(2, 20), ds)) return; const bool train = r.b(); bool idm = false;
		auto tr = [&](auto& nn, bool im) { nnet_train_opts<T, training_observer_silent<T>> o(nc(2), nc(2)); o.batchSize(r.in(1, 2)).ImmediatelyDeinit(im); if (nn.train(td, o) != _nnet_errs::ErrorCode::Success) viol("mat.net", "training: %s", nn.get_last_error_string().c_str()); };
		auto run = [&](auto& nn, const M<T>& X, std::vector<T>& to) { if (nn.fprop(X) != _nnet_errs::ErrorCode::Success) viol("mat.net", "fprop: %s", nn.get_last_error_string().c_str()); to = snap<T>(nn.get_layer_pack().output_layer().get_activations()); };
		M<T> X(r.in(1, 9), 6, true), Y(X.rows(), h[6]); mkXY<T>(r, X, Y, ds); std::vector<T> y1, y2;
		if (train) { idm = r.b(); tr(nn1, idm); } if (!train || r.b()) run(nn1, X, y1); const auto w1 = wsOf<T>(n1);
		if (!nn1.write_weights(fn.c_str())) viol("mat.net", "write_weights() failed"); if (wsOf<T>(n1) != w1) viol("mat.net", "write_weights() changed the weights");
		const int prior = r.below(3); if (prior == 1) run(nn2, X, y2); else if (prior == 2) tr(nn2, r.b());
		const bool mism = r.chance(30);
		if (mism) {// the file of another network
#ifdef NDEBUG
			int h3[7]; std::copy(h, h + 7, h3); const int which = r.pick({ 0, 1, 2, 5, 6 }); h3[which] += r.in(1, 3); Net<T> n3(h3, T(.1)); auto l3 = make_layers(n3.inp, n3.ph, n3.f, n3.out); auto nn3 = make_nnet(l3); M<T> Y3; std::vector<T> y3; const bool ini = r.b(); if (ini) run(nn3, X, y3); const auto w3 = wsOf<T>(n3);
			if (nn3.read_weights(fn.c_str())) viol("mat.net", "read_weights() took the weights of another network"); const auto w4 = wsOf<T>(n3); for (size_t i = 0; i < w3.size(); ++i) if (w4[i] != w3[i] && w4[i] != w1[i]) viol("mat.net", "a refused file left strange weights"); 
			run(nn3, X, y3); for (T v : y3) if (!(v >= 0 && v <= 1)) viol("mat.net", "the network does not work after a refused file"); ev("mat.refused_nets"); seen("refnet", which, ini);
			if (nn3.read_weights((fn + ".none").c_str())) viol("mat.net", "read_weights() read a missing file");
#endif
		}
		if (!nn2.read_weights(fn.c_str())) viol("mat.net", "read_weights() failed"); else {
			if (wsOf<T>(n2) != w1) viol("mat.net", "the weights read are not the weights written"); run(nn2, X, y2); run(nn1, X, y1); if (wsOf<T>(n2) != w1 || wsOf<T>(n1) != w1) viol("mat.net", "inference changed the weights"); if (y1 != y2) viol("mat.net", "the restored network computes something else");
			if (r.b()) { tr(nn2, false); if (wsOf<T>(n2) == w1) viol("mat.net", "the restored network does not learn"); ev("mat.continued"); } ev("mat.nets"); seen("nets", train, idm, prior, sizeof(T)); }
		if (r.b()) {// everything
			tr(nn1, false); const auto wd = wsOf<T>(n1); omatfile<> o; o.open(fn); o & nn1; if (!o.success()) viol("mat.dump", "code %d", int(o.get_last_error())); else { o.close(); auto f = matOpen(fn.c_str(), "r"); size_t i = 0; n1.each([&](auto& l) { const mxArray* a = nullptr; const std::string nm = l.get_layer_name_str(); for (auto& e : f->v) { if (e.first == nm) a = e.second; else if (auto q = find(e.second, nm)) a = q; } const mxArray* w = a ? mxGetField(a, 0, "m_weights") : nullptr; if (!w || w->bytes != wd[i].size() * sizeof(T) || std::memcmp(w->d, wd[i].data(), w->bytes)) viol("mat.dump", "weights of %s", nm.c_str()); const mxArray* lr = a ? mxGetField(a, 0, "m_learningRate") : nullptr; const T q = l.get_gradWorks().learning_rate(); if (!lr || lr->bytes != sizeof(T) || std::memcmp(lr->d, &q, sizeof(T))) viol("mat.dump", "learning rate of %s", nm.c_str()); const mxArray* ac = a ? mxGetField(a, 0, "m_activations") : nullptr; if (!ac || ac->bytes % (ac->m*ac->n) || ac->n != size_t(l.get_activations_storage()->cols()) || ac->m != size_t(l.get_activations_storage()->rows())) viol("mat.dump", "activations of %s", nm.c_str()); ++i; }); matClose(f); ev("mat.dumps"); }
		}
		td.deinit4all(); }
	finish("nets", fp);
}

// the dumper: exactly the files that were asked for, with exactly the values that were seen
template<typename T, typename CD> struct Rec : inspector::_dumper<Rec<T, CD>, T, omatfileEx<>, CD> {
	typedef inspector::_dumper<Rec<T, CD>, T, omatfileEx<>, CD> B; typedef M<T> X;
	std::function<bool(long long, long long)> wantBatch; std::function<bool(long long, int)> wantErr; std::function<bool(int)> wantLayer;
	typedef std::vector<T> VT; typedef std::map<std::string, VT> Fields; typedef std::map<std::string, std::map<std::string, Fields>> Files; mutable Files files; mutable Fields* dummy = nullptr;
	std::map<int, std::string> names; mutable std::vector<int> st; mutable std::string cur; long long ep = -1, ba = -1; bool on = true;
	Rec(const char* d) : B(d) {} Rec(const char* d, omatfileEx<>* a) : B(d, a) {}
	void begin() { files.clear(); cur.clear(); ep = -1; }
	void rec(const char* f, const X& m)const noexcept { if (!cur.empty() && !st.empty() && wantLayer(st.back())) files[cur][names.at(st.back())][f] = VT(m.data(), m.data() + m.numel()); }
	template<typename Q> void rec(const char*, const Q&)const noexcept {}
	std::string fname(const char* sfx)const { char b[64]; snprintf(b, sizeof(b), "ep%03lld_%03lld_%s.mat", ep + 1, ba, sfx); return b; }
	void file(const std::string& f)const { cur = f; files[cur]; }
	void train_epochBegin(const numel_cnt_t e, const numel_cnt_t n)noexcept { ep = e; B::train_epochBegin(e, n); }
	void train_batchBegin(const numel_cnt_t b)noexcept { ba = b; cur.clear(); if (on && wantBatch(ep, b)) file(fname("f")); B::train_batchBegin(b); }
	template<typename YT> void train_preBprop(const math::smatrix<YT>& y)noexcept { if (!cur.empty()) file(fname("b")); B::train_preBprop(y); }
	void train_batchEnd()noexcept { cur.clear(); B::train_batchEnd(); }
	void train_preCalcError(const data_set_id_t d)noexcept { cur.clear(); if (on && wantErr(ep, int(d))) { char b[64]; snprintf(b, sizeof(b), "ep%03lld_err_%d.mat", ep + 1, int(d)); file(b); } B::train_preCalcError(d); }
	void train_postCalcError()noexcept { cur.clear(); B::train_postCalcError(); }
	void fprop_begin(const layer_index_t l, const X& p, const bool tr)noexcept { st.push_back(int(l)); if (!cur.empty() && wantLayer(int(l))) files[cur][names.at(int(l))].clear(); B::fprop_begin(l, p, tr); }
	void fprop_end(const X& a)noexcept { rec("A", a); B::fprop_end(a); st.pop_back(); }
	void fprop_makePreActivations(const X& w, const X& p)const noexcept { rec("W", w); B::fprop_makePreActivations(w, p); }
	template<typename Q> void bprop_begin(const layer_index_t l, const math::smatrix<Q>& d)noexcept { st.push_back(int(l)); rec("dLdA", d); B::bprop_begin(l, d); }
	void bprop_end(const X& d)noexcept { if (!cur.empty() && wantLayer(st.back())) files[cur][names.at(st.back())]; B::bprop_end(d); st.pop_back(); }
	void bprop_dLdZ(const X& d)const noexcept { rec("dLdZ", d); B::bprop_dLdZ(d); }
	void apply_grad_begin(const X& w, const X& g)const noexcept { rec("W", w); rec("dLdW", g); B::apply_grad_begin(w, g); }
	void apply_grad_update(const X& w, const X& u)const noexcept { rec("a_WUpd_W", w); rec("a_WUpd", u); B::apply_grad_update(w, u); }
	void apply_grad_end(const X& w)const noexcept { rec("a_W", w); B::apply_grad_end(w); }
};
template<typename CD> struct DI : dt_interfaces<float> { typedef Rec<float, CD> iInspect_t; };
namespace ic = nntl::inspector::conds;
template<typename CD> struct IsCD { enum { num = std::is_base_of<ic::EpochNum, CD>::value, last = std::is_base_of<ic::EpochNumWLastBatch, CD>::value, firstn = std::is_same<ic::EpochNumWFirstNLastBatch, CD>::value, err = std::is_base_of<ic::CalcErrByEpochNum, CD>::value, erronly = std::is_same<ic::CalcErrOnlyByEpochNum, CD>::value }; };
template<typename CD> std::enable_if_t<IsCD<CD>::num> setE(CD& c, const std::vector<numel_cnt_t>& e) { c.m_epochsToDump.assign(e.begin(), e.end()); }
template<typename CD> std::enable_if_t<!IsCD<CD>::num> setE(CD&, const std::vector<numel_cnt_t>&) {}
template<typename CD> std::enable_if_t<IsCD<CD>::firstn> setN(CD& c, int n, int s) { c.m_firstNBatches = n; c.m_firstNBatchesStride = s; }
template<typename CD> std::enable_if_t<std::is_same<ic::FirstBatches, CD>::value> setN(CD& c, int n, int s) { c.maxBatches = n; c.stride = s; }
template<typename CD> std::enable_if_t<!IsCD<CD>::firstn && !std::is_same<ic::FirstBatches, CD>::value> setN(CD&, int, int) {}
template<typename CD> void dumper(R& r) {
	start(); const unsigned fp = fpMode(); { typedef float T; typedef DI<CD> I; typedef grad_works<I> G; typedef LFC<activation::sigm<T, weights_init::XavierFour>, G> FC; typedef layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, G> OL;
		const std::string dir = S().tmpdir + "/dump"; ::mkdir(dir.c_str(), 0777); const auto sweep = [&](std::set<std::string>& out, bool del) { if (DIR* d = opendir(dir.c_str())) { while (auto e = readdir(d)) if (e->d_name[0] != '.') { out.insert(e->d_name); if (del) std::remove((dir + "/" + e->d_name).c_str()); } closedir(d); } }; { std::set<std::string> q; sweep(q, true); }
		const int nx = r.in(2, 5), ny = r.in(1, 3); layer_input<I> inp(nx); FC a("first", r.in(1, 4), T(.1)), b(r.in(1, 4), T(.1)), c("cc", r.in(1, 4), T(.1)); LPV<FC, FC> pv("pack", b, c); OL out("res", ny, T(.1)); auto lp = make_layers(inp, a, pv, out);
		omatfileEx<> ext; const bool own = r.b(); std::unique_ptr<Rec<T, CD>> in(own ? new Rec<T, CD>(dir.c_str()) : new Rec<T, CD>(dir.c_str(), &ext)); auto nn = make_nnet(lp, *in); nn.get_iRng().seed64(r.u64() >> 1);
		int total = 0; nn.get_layer_pack().for_each_layer([&](auto& l) { in->names[int(l.get_layer_idx())] = l.get_layer_name_str(); ++total; });
		std::set<int> listed; const int lm = r.below(3); if (lm) { std::vector<layer_index_t> v; for (int i = 0; i < total; ++i) if (r.b()) { listed.insert(i); v.push_back(layer_index_t(i)); } if (v.empty()) { v.push_back(1); listed.insert(1); } if (r.b()) { if (lm == 1) in->whitelist(std::move(v)); else in->blacklist(std::move(v)); } else for (auto q : v) { if (lm == 1) in->whitelist(q); else in->blacklist(q); } }
		in->wantLayer = [&](int l) { return lm == 0 || (listed.count(l) != 0) == (lm == 1); };
		inmem_train_data<T> td; const DataSpec ds{ OutK::sigm_xe, nx, ny }; const int N = r.in(2, 12); if (!mkTD<T>(r, td, N, r.in(2, 8), ds)) return;
		const bool useE = r.chance(75); std::vector<numel_cnt_t> es; if (useE) for (int k = r.in(1, 4); k-- > 0;) es.push_back(r.in(IsCD<CD>::num ? -1 : 0, 5)); setE<CD>(in->getCondDump(), es); const int nF = r.in(1, 6), sF = r.in(1, 3); setN<CD>(in->getCondDump(), nF, sF);
		for (int sess = r.in(1, 3), first = 1; sess-- > 0; first = 0) {
			const int ep = r.in(1, 6), bs = r.in(1, N), nb = N / bs; std::set<long long> sel; bool ini = false; if (IsCD<CD>::num) { if (!useE) sel.insert(ep - 1); for (auto e : es) { if (e == -1) ini = true; else sel.insert(std::min<long long>(e, ep - 1)); } }
			in->wantBatch = [&](long long e, long long q) -> bool { if (IsCD<CD>::erronly) return false; if (!IsCD<CD>::num) return q < nF && q % sF == 0; if (IsCD<CD>::firstn && e == 0) return q < nF && q % sF == 0; if (!sel.count(e)) return false; return IsCD<CD>::last && e == ep - 1 ? q == nb - 1 : q == 0; };
			in->wantErr = [&](long long e, int d) -> bool { return IsCD<CD>::err && d == 0 && (e < 0 ? ini : sel.count(e) != 0); };
			in->on = r.chance(85); in->turn_on(in->on); in->begin(); std::set<std::string> q; sweep(q, true);
			nnet_train_opts<T, training_observer_silent<T>> o(nc(ep + 0), nc(ep + 0)); const bool imd = r.chance(40); o.batchSize(bs).ImmediatelyDeinit(imd).bForceInspectorOnDuringTraining(false); if (IsCD<CD>::err) o.bReportOnlyTime(false);
			char nt[100]; snprintf(nt, sizeof(nt), "session of %d epochs, batches of %d of %d, list %d, deinit %d, first %d", ep, bs, N, lm, imd, first); note(nt);
			if (nn.train(td, o) != _nnet_errs::ErrorCode::Success) viol("dump.train", "%s", nn.get_last_error_string().c_str());
			q.clear(); sweep(q, false); std::set<std::string> ex; for (auto& f : in->files) ex.insert(f.first); seen("dump", IsCD<CD>::num * 16 + IsCD<CD>::last * 8 + IsCD<CD>::firstn * 4 + IsCD<CD>::err * 2 + IsCD<CD>::erronly, lm, own, first, in->on, std::min<int>(5, int(ex.size()))); ev("dump.sessions"); ev("dump.files", ex.size());
			if (q != ex) { std::string l; for (auto& f : q) if (!ex.count(f)) l += " +" + f; for (auto& f : ex) if (!q.count(f)) l += " -" + f; viol("dump.files", "%zu files instead of %zu:%s", q.size(), ex.size(), l.substr(0, 150).c_str()); break; }
			bool bad = false; for (auto& f : in->files) { auto m = matOpen((dir + "/" + f.first).c_str(), "r"); if (!m) { viol("dump.files", "can't read %s", f.first.c_str()); break; }
				if (m->v.size() != f.second.size()) viol("dump.layers", "%s has %zu layers instead of %zu", f.first.c_str(), m->v.size(), f.second.size());
				for (auto& l : f.second) { const auto i = m->v.find(l.first); if (i == m->v.end()) { viol("dump.layers", "%s has no layer %s", f.first.c_str(), l.first.c_str()); bad = true; continue; } for (auto& d : l.second) { const mxArray* e = mxGetField(i->second, 0, d.first.c_str()); ev("dump.values"); if (!e || e->id != mxSINGLE_CLASS || e->m*e->n != d.second.size() || std::memcmp(e->d, d.second.data(), e->bytes)) { viol("dump.values", "%s of %s in %s is not what was seen", d.first.c_str(), l.first.c_str(), f.first.c_str()); bad = true; } } if (i->second->f.size() != l.second.size()) viol("dump.values", "%s of %s has %zu values instead of %zu", l.first.c_str(), f.first.c_str(), i->second->f.size(), l.second.size()); }
				matClose(m); if (bad) break; }
		}
		td.deinit4all(); std::set<std::string> q; sweep(q, true); ::rmdir(dir.c_str()); }
	finish("dumper", fp);
}
#ifdef NDEBUG
struct SX { int k; double d = -1; M<float> m; template<typename Ar> void serialize(Ar& ar, const unsigned) { if (k == 4) ar & serialization::make_nvp("none", d); else if (k == 5) ar & serialization::make_nvp("e", m); else if (k == 6) ar & serialization::make_nvp("s", d); else if (k == 7) ar & serialization::make_nvp("nul", d); else ar & serialization::make_nvp("d", d); } };
// something goes wrong: an error code, the rest is left alone
static void badvars(R& r) {
	start(); const unsigned fp = fpMode(); { const std::string fn = fileFor(5); { MATFile* f = matOpen(fn.c_str(), "w"); auto put = [&](const char* n, mxArray* a) { matPutVariable(f, n, a); mxDestroyArray(a); }; auto dbl = [](double v) { auto a = vmat::make(mxDOUBLE_CLASS, 1, 1); std::memcpy(a->d, &v, 8); return a; };
			put("d", dbl(5)); put("mtx", vmat::make(mxDOUBLE_CLASS, 2, 3)); put("i16", vmat::make(mxINT16_CLASS, 2, 2)); put("chr", vmat::make(mxCHAR_CLASS, 1, 3)); put("cell", vmat::make(mxCELL_CLASS, 1, 1)); put("e0", vmat::make(mxDOUBLE_CLASS, 0, 0)); put("e1", vmat::make(mxDOUBLE_CLASS, 3, 0)); put("e2", vmat::make(mxSINGLE_CLASS, 0, 3)); auto s = vmat::make(mxSTRUCT_CLASS, 1, 1); for (const char* n : { "d", "e", "s" }) { auto v = *n == 'd' ? dbl(6) : *n == 'e' ? vmat::make(mxDOUBLE_CLASS, 0, 2) : vmat::make(mxSTRUCT_CLASS, 1, 1); v->parent = s; s->f.push_back({ n, v }); } s->f.push_back({ "nul", nullptr }); put("s", s); put("s2", vmat::make(mxSTRUCT_CLASS, 1, 2)); put("s0", vmat::make(mxSTRUCT_CLASS, 0, 0)); put("train_x", vmat::make(mxDOUBLE_CLASS, 3, 1)); matClose(f); }
		imatfile<> i; i.open(fn); struct { const char* n; int k; ME e; } T_[] = { { "none", 0, ME::FailedToTransferVariable }, { "none", 1, ME::FailedToTransferVariable }, { "none", 2, ME::FailedToTransferVariable }, { "mtx", 0, ME::WrongVariableTypeHasBeenRead }, { "mtx", 2, ME::WrongVariableTypeHasBeenRead }, { "d", 3, ME::WrongVariableTypeHasBeenRead }, { "d", 2, ME::WrongVariableTypeHasBeenRead }, { "i16", 1, ME::WrongVariableTypeHasBeenRead }, { "chr", 1, ME::WrongVariableTypeHasBeenRead }, { "chr", 0, ME::WrongVariableTypeHasBeenRead }, { "cell", 1, ME::WrongVariableTypeHasBeenRead }, { "e0", 1, ME::EmptyVariableHasBeenRead }, { "e0", 0, ME::EmptyVariableHasBeenRead }, { "e1", 1, ME::EmptyVariableHasBeenRead }, { "e2", 1, ME::EmptyVariableHasBeenRead }, { "s", 0, ME::WrongVariableTypeHasBeenRead }, { "s", 1, ME::WrongVariableTypeHasBeenRead }, { "s2", 2, ME::WrongVariableTypeHasBeenRead }, { "s0", 2, ME::EmptyVariableHasBeenRead }, { "train_x", 1, ME::EmptyVariableHasBeenRead }, { "s", 4, ME::FailedToTransferVariable }, { "s", 5, ME::EmptyVariableHasBeenRead }, { "s", 6, ME::WrongVariableTypeHasBeenRead }, { "s", 7, ME::FailedToTransferVariable } };
		for (int n = r.in(1, 12); n-- > 0;) {
			const auto& t = T_[r.below(sizeof(T_) / sizeof(*T_))]; double d = -1; float f = -1; M<float> m; dirty(r, m); SX s; s.k = t.k; switch (t.k) { case 0: i & serialization::make_nvp(t.n, d); break; case 1: i & serialization::make_nvp(t.n, m); break; case 3: i & serialization::make_nvp(t.n, f); break; default: i & serialization::make_named_struct(t.n, s); }
			seen("bad", int(&t - T_)); if (i.get_last_error() != t.e) viol("mat.bad", "%s read as kind %d: code %d instead of %d", t.n, t.k, int(i.get_last_error()), int(t.e)); if (!std::strlen(i.get_last_error_str())) viol("mat.bad", "no description"); if (d != -1 || f != -1 || s.d != -1) viol("mat.bad", "%s: the variable was changed", t.n);
			double q = -2; i & serialization::make_nvp("d", q); if (q != -2 || i.get_last_error() != t.e) viol("mat.bad", "reading went on after an error"); i._drop_last_error(); i & serialization::make_nvp("d", q); if (q != 5 || !i.success()) viol("mat.bad", "reading does not work after an error"); SX g; g.k = 0; i & serialization::make_named_struct("s", g); if (g.d != 6 || !i.success()) viol("mat.bad", "reading does not work after an error"); ev("mat.bad_reads");
		}
		i.close(); imatfile<> j; double d = -1; j & serialization::make_nvp("d", d); if (j.get_last_error() != ME::NoFileOpened || d != -1) viol("mat.bad", "no file: code %d", int(j.get_last_error())); j._drop_last_error(); if (j.open((fn + ".none").c_str()) != ME::FailedToOpenFile) viol("mat.bad", "a missing file was opened"); j._drop_last_error(); if (j.open(fn, imatfile<>::FileOpenMode::WriteDelete) != ME::InvalidOpenMode) viol("mat.bad", "opened for writing"); j._drop_last_error(); if (j.open(fn) != ME::Success || j.open(fn) != ME::FileAlreadyOpened) viol("mat.bad", "opened twice"); }
	finish("badvars", fp);
}
static void faults(R& r) {
	start(); const unsigned fp = fpMode(); { std::set<std::string> used; std::vector<PV> vs; for (int n = r.in(1, 6); n-- > 0;) vs.push_back(mk(r, used, 3)); const std::string fn = fileFor(6); std::remove(fn.c_str());
		auto wr = [&](ME& closed) { for (auto& v : vs) v->read = false; omatfileEx<> o; ME c = o.open(fn); if (c == ME::Success) { write(o, vs); c = o.get_last_error(); closed = o.close(); } return c; };
		ME cl = ME::Success; vmat::calls() = 0; if (wr(cl) != ME::Success || cl != ME::Success) viol("mat.fault", "writing without faults"); const long nw = vmat::calls();
		const bool onRead = r.b();
		if (!onRead) {
			vmat::calls() = 0; vmat::failAt() = r.in(0, int(nw) - 1); const long at = vmat::failAt(); std::remove(fn.c_str()); const ME c = wr(cl); vmat::failAt() = -1; if (c == ME::Success && cl == ME::Success) viol("mat.fault", "the failure of call %ld of %ld was not reported", at, nw); seen("wfault", int(c), int(cl)); ev("mat.write_faults");
			if (at && cl != ME::ErrorClosingFile) { std::vector<PV> ts; for (auto& v : vs) if (v->read) ts.push_back(target(r, *v, 0)); imatfile<> i; if (i.open(fn) != ME::Success) viol("mat.fault", "no file"); write(i, ts); if (!i.success()) viol("mat.fault", "variables written before the failure can't be read: %d", int(i.get_last_error())); for (auto& t : ts) for (auto& v : vs) if (t->name == v->name && !t->diff(*v).empty()) viol("mat.fault", "%s written before the failure is damaged", v->name.c_str()); }
		} else {
			auto rd = [&](std::vector<PV>& ts, ME& closed) { imatfile<> i; ME c = i.open(fn); if (c == ME::Success) { write(i, ts); c = i.get_last_error(); closed = i.close(); } return c; };
			std::vector<PV> ts; for (auto& v : vs) ts.push_back(target(r, *v, 10)); vmat::calls() = 0; if (rd(ts, cl) != ME::Success || cl != ME::Success) viol("mat.fault", "reading without faults"); const long nr = vmat::calls(); ts.clear(); for (auto& v : vs) ts.push_back(target(r, *v, 10));
			vmat::calls() = 0; vmat::failAt() = r.in(0, int(nr) - 1); const ME c = rd(ts, cl); vmat::failAt() = -1; if (c == ME::Success && cl == ME::Success) viol("mat.fault", "the failure of a call while reading was not reported"); for (auto& t : ts) if (t->read) for (auto& v : vs) if (t->name == v->name && !t->diff(*v).empty()) viol("mat.fault", "%s read before the failure is damaged", v->name.c_str()); seen("rfault", int(c), int(cl)); ev("mat.read_faults");
		}
		// the weights of a network: success is reported only for a complete file
		if (r.chance(20)) { int h[7]; for (auto& q : h) q = r.in(1, 4); Net<float> n1(h, .1f); auto l1 = make_layers(n1.inp, n1.ph, n1.f, n1.out); auto nn1 = make_nnet(l1); M<float> X(2, 6, true); X.zeros(); X.set_biases(); nn1.fprop(X); const auto w = wsOf<float>(n1); vmat::calls() = 0; nn1.write_weights(fn.c_str()); const long n = vmat::calls(); std::remove(fn.c_str()); vmat::calls() = 0; vmat::failAt() = r.chance(30) ? n - 1 : r.in(0, int(n) - 1); const long at = vmat::failAt(); const bool ok = nn1.write_weights(fn.c_str()); vmat::failAt() = -1; if (ok) viol("mat.fault", "write_weights() reported success though call %ld of %ld failed", at, n); if (w != wsOf<float>(n1)) viol("mat.fault", "a failed write_weights() changed the weights"); nn1.write_weights(fn.c_str()); vmat::calls() = 0; nn1.read_weights(fn.c_str()); const long q = vmat::calls(); vmat::calls() = 0; vmat::failAt() = r.in(0, int(q) - 2); const bool ok2 = nn1.read_weights(fn.c_str()); vmat::failAt() = -1; if (ok2) viol("mat.fault", "read_weights() reported success though a call failed"); if (w != wsOf<float>(n1)) viol("mat.fault", "a failed read_weights() damaged the weights"); ev("mat.net_faults"); }
	}
	finish("faults", fp);
}
#endif
int main(int c, char** v) {
	init(c, v);
	group("tree", 300, [](R& r, int) { tree(r); });
	group("convert", 300, [](R& r, int) { if (r.b()) convert<float>(r); else convert<double>(r); });
	group("manual", 300, [](R& r, int) { manual(r); });
	group("tdata", 60, [](R& r, int) { if (r.b()) tdata<float>(r); else tdata<double>(r); });
	group("nets", 60, [](R& r, int) { if (r.b()) nets<float>(r); else nets<double>(r); });
	group("dumper", 120, [](R& r, int) { switch (r.below(6)) { case 0: dumper<ic::EpochNum>(r); break; case 1: dumper<ic::EpochNumWLastBatch>(r); break; case 2: dumper<ic::EpochNumWFirstNLastBatch>(r); break; case 3: dumper<ic::CalcErrByEpochNum>(r); break; case 4: dumper<ic::CalcErrOnlyByEpochNum>(r); break; default: dumper<ic::FirstBatches>(r); } });
#ifdef NDEBUG
	group("badvars", 200, [](R& r, int) { badvars(r); });
	group("faults", 300, [](R& r, int) { faults(r); });
#endif
	return done();
}
