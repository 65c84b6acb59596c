// .bin files: generated valid files come back cell for cell, damaged ones are refused with the right code and never leave something behind that looks like data.
// A reference reader over the very same bytes, written from the description of the format, says what has to come out.
#include "mathcommon.h"
#include "nntl/train_data.h"
#include "nntl/_supp/io/binfile.h"
#include <unistd.h>
using namespace vh;
typedef nntl_supp::binfile BF; typedef BF::ErrorCode EC;
typedef std::vector<unsigned char> Bytes;
static std::string g_fn;
static void put16(Bytes& b, unsigned v) { b.push_back(v & 255); b.push_back((v >> 8) & 255); }
static void put32(Bytes& b, uint32_t v) { put16(b, v & 0xffff); put16(b, v >> 16); }
static void set16(Bytes& b, size_t o, unsigned v) { b[o] = v & 255; b[o + 1] = (v >> 8) & 255; }
static void set32(Bytes& b, size_t o, uint32_t v) { set16(b, o, v & 0xffff); set16(b, o + 2, v >> 16); }
static uint32_t get16(const Bytes& b, size_t o) { return b[o] | (b[o + 1] << 8); }
static uint32_t get32(const Bytes& b, size_t o) { return get16(b, o) | (get16(b, o + 2) << 16); }
static void save(const Bytes& b) { FILE* f = fopen(g_fn.c_str(), "wb"); if (!f || (b.size() && fwrite(b.data(), b.size(), 1, f) != 1)) { fprintf(stderr, "cannot write %s\n", g_fn.c_str()); exit(3); } fclose(f); }

struct Fld { uint32_t r, c; std::string name; int type; std::vector<double> v; size_t at, dataAt; }; // at: offset of the entry
struct Img { Bytes b; std::vector<unsigned> cls; std::vector<Fld> f; bool seq; };
static double anyv(R& r) { // exactly representable as a float about half of the time
	switch (r.below(6)) { case 0: return r.in(-1000, 1000); case 1: return r.norm(); case 2: return (float)r.norm() * 1e-30f; case 3: return r.pick({ 0., -0., 1., 1e30, -1e-40, 3.4e38 }); case 4: return (float)r.uni(-1, 1); default: return r.uni(-1e6, 1e6); }
}
static Fld fld(R& r, const std::string& n, uint32_t rows, uint32_t cols) { Fld f; f.r = rows; f.c = cols; f.name = n; f.type = r.below(2); f.v.resize((size_t)rows*cols); for (auto& x : f.v) { x = anyv(r); if (f.type) x = (float)x; } return f; }
static void emit(Img& I) {
	Bytes& b = I.b; b.clear(); b.push_back('n'); b.push_back('n'); b.push_back('t'); b.push_back('l'); put16(b, 0); put16(b, unsigned(I.f.size() + I.cls.size())); put16(b, (unsigned)I.cls.size());
	for (unsigned c : I.cls) put16(b, c);
	for (auto& f : I.f) {
		f.at = b.size(); put32(b, f.r); put32(b, f.c); for (unsigned i = 0; i < 15; ++i) b.push_back(i < f.name.size() ? (unsigned char)f.name[i] : 0); b.push_back((unsigned char)f.type);
		f.dataAt = b.size();
		for (double x : f.v) { unsigned char t[8]; if (f.type) { float y = (float)x; memcpy(t, &y, 4); b.insert(b.end(), t, t + 4); } else { memcpy(t, &x, 8); b.insert(b.end(), t, t + 8); } }
	}
}
// ---- the reference reader ----
enum Kind { kMtx, kTd, kSeq };
struct Ref { bool ok = false; std::vector<Fld> f; std::vector<int> slot; std::vector<unsigned> cls; };
static bool refField(const Bytes& b, size_t& o, Fld& f) {
	if (b.size() - o < 24) return false;
	f.r = get32(b, o); f.c = get32(b, o + 4); f.name.assign((const char*)&b[o + 8], strnlen((const char*)&b[o + 8], 15)); f.type = b[o + 23]; o += 24;
	if (!f.r || !f.c || f.type > 1) return false;
	const unsigned __int128 need = (unsigned __int128)f.r*f.c*(f.type ? 4 : 8);
	if (need > b.size() - o) return false;
	const size_t n = (size_t)f.r*f.c; f.v.resize(n);
	for (size_t i = 0; i < n; ++i) { if (f.type) { float y; memcpy(&y, &b[o + 4 * i], 4); f.v[i] = y; } else memcpy(&f.v[i], &b[o + 8 * i], 8); }
	o += (size_t)need; return true;
}
static Ref reference(const Bytes& b, Kind k) {
	Ref R; if (b.size() < 10 || memcmp(b.data(), "nntl", 4) || get16(b, 4)) return R;
	const unsigned nf = get16(b, 6), nc_ = get16(b, 8); size_t o = 10;
	if (k != kSeq) {
		if (nc_ || nf != (k == kTd ? 4u : 1u)) return R;
		std::vector<int> have(4, 0);
		for (unsigned i = 0; i < nf; ++i) {
			Fld f; if (!refField(b, o, f)) return R;
			if (k == kTd) { static const char* nm[] = { "train_x","train_y","test_x","test_y" }; int id = -1; for (int q = 0; q < 4; ++q) if (f.name == nm[q]) id = q; if (id < 0 || have[id]++) return R; R.slot.push_back(id); } else R.slot.push_back(0);
			R.f.push_back(f);
		}
		if (k == kTd) { const Fld* p[4]; for (int q = 0; q < 4; ++q) p[R.slot[q]] = &R.f[q]; if (p[0]->r != p[1]->r || p[2]->r != p[3]->r || p[0]->c != p[2]->c || p[1]->c != p[3]->c) return R; }
		R.ok = true; return R;
	}
	unsigned tot = 0; if (nf <= nc_ || !nc_) return R;
	for (unsigned i = 0; i < nc_; ++i) { if (b.size() - o < 2) return R; const unsigned c = get16(b, o); o += 2; if (!c) return R; R.cls.push_back(c); tot += c; }
	if (tot + nc_ != nf) return R;
	std::vector<unsigned> filled(nc_, 0); unsigned base[64]; unsigned acc = 0; for (unsigned i = 0; i < nc_ && i < 64; ++i) { base[i] = acc; acc += R.cls[i]; }
	for (unsigned i = 0; i < tot; ++i) {
		Fld f; if (!refField(b, o, f)) return R;
		long id = 0; if (f.name[0] != 'c') return R; { const char* s = f.name.c_str() + 1; char* e; id = strtol(s, &e, 10); if (e == s) return R; } if (id < 1 || id > (long)nc_ || nc_ > 64) return R;
		if (filled[id - 1] >= R.cls[id - 1]) return R;
		R.slot.push_back(int(base[id - 1] + filled[id - 1]++)); R.f.push_back(f);
	}
	R.ok = true; return R;
}
// ---- comparison ----
template<typename T> bool sameMtx(const M<T>& m, const Fld& f, bool bias, const char* what) {
	if (m.empty() || m.rows() != (vl)f.r || m.cols_no_bias() != (vl)f.c || m.emulatesBiases() != bias || m.bBatchInRow()) { viol("bin.shape", "%s: %u x %u%s expected, got %d x %d", what, f.r, f.c, bias ? " + bias" : "", (int)m.rows(), m.empty() ? 0 : (int)m.cols()); return false; }
	if (bias && !m.test_biases_strict()) { viol("bin.bias", "%s: the bias column is not made of ones", what); return false; }
	for (vl j = 0; j < (vl)f.c; ++j) for (vl i = 0; i < (vl)f.r; ++i) { const T w = (T)f.v[(size_t)j*f.r + i], g = m.get(i, j); if (memcmp(&w, &g, sizeof(T)) && !(w != w && g != g)) { viol("bin.value", "%s (stored as %s, read as %s) %u x %u: cell (%d,%d) is %.9g instead of %.9g", what, f.type ? "float" : "double", sizeof(T) == 4 ? "float" : "double", f.r, f.c, (int)i, (int)j, (double)g, (double)w); return false; } }
	ev("cells", f.v.size()); return true;
}
struct Want { bool ok; std::vector<EC> codes; const char* what; };
static void judge(BF& rd, EC ec, bool refOk, const Want& w) {
	ev("reads"); ev(refOk ? "accepted" : "refused"); seen("code", hstr(w.what), (int)ec, refOk);
	if ((ec == EC::Success) != refOk) viol(refOk ? "bin.refused" : "bin.accepted", "%s: read() says '%s', the file is %s", w.what, BF::get_error_str(ec), refOk ? "valid" : "not valid");
	else if (!refOk && !w.codes.empty()) { bool in = false; for (EC c : w.codes) in = in || c == ec; if (!in) viol("bin.code", "%s: reported as '%s'", w.what, BF::get_error_str(ec)); }
	if (rd.get_last_error() != ec) viol("bin.last_error", "%s: read() returned '%s', get_last_error() says '%s'", w.what, BF::get_error_str(ec), rd.get_last_error_str());
	if (!rd.get_last_error_str()) viol("bin.errstr", "no text for the code %d", (int)ec);
}
template<typename T> struct SeqPeek : seq_data<T> { const std::vector<std::vector<MD<T>>>& stor() const { return this->m_seqStor; } };
// reads the bytes into a destination of the given kind with the reader rd and judges the outcome
template<typename T> void readIt(R& r, BF& rd, const Bytes& b, Kind k, const Want& w) {
	save(b); const Ref ref = reference(b, k);
	if (k == kMtx) {
		const bool bias = r.b(), def = r.b();
		if (def) { MD<T> m; if (bias) m.will_emulate_biases(); const EC ec = rd.read(g_fn.c_str(), m); judge(rd, ec, ref.ok, w); if (ref.ok && ec == EC::Success) { if (sameMtx<T>(m, ref.f[0], bias, w.what)) { const vl n = m.cols_no_bias(); m.deform_cols(bias ? n + 1 : n); } } else if (!m.empty() && ec != EC::Success) viol("bin.leftover", "%s: the refused file left a %d x %d matrix behind", w.what, (int)m.rows(), (int)m.cols()); }
		else { M<T> m; if (bias) m.will_emulate_biases(); const EC ec = rd.read(g_fn.c_str(), m); judge(rd, ec, ref.ok, w); if (ref.ok && ec == EC::Success) sameMtx<T>(m, ref.f[0], bias, w.what); else if (!m.empty() && ec != EC::Success) viol("bin.leftover", "%s: the refused file left a %d x %d matrix behind", w.what, (int)m.rows(), (int)m.cols()); }
		seen("mtx", def, bias, sizeof(T), ref.ok, ref.ok ? ref.f[0].type : 0);
	} else if (k == kTd) {
		inmem_train_data<T> td; const bool old = r.chance(40); std::vector<T> sx, sy, tx, ty;
		if (old) { MD<T> a(3, 2, true), c(3, 1), d(2, 2, true), e(2, 1); for (MD<T>* q : { &a, &c, &d, &e }) for (vl i = 0; i < q->rows(); ++i) for (vl j = 0; j < q->cols_no_bias(); ++j) q->set(i, j, (T)r.norm()); sx = snap(a); sy = snap(c); tx = snap(d); ty = snap(e); if (!td.absorb(std::move(a), std::move(c), std::move(d), std::move(e))) viol("bin.absorb", "valid data was not absorbed"); }
		const EC ec = rd.read(g_fn.c_str(), td); judge(rd, ec, ref.ok, w);
		if (ref.ok && ec == EC::Success) {
			const Fld* p[4]; for (int q = 0; q < 4; ++q) p[ref.slot[q]] = &ref.f[q];
			sameMtx<T>(td.train_x(), *p[0], true, "train_x") && sameMtx<T>(td.train_y(), *p[1], false, "train_y") && sameMtx<T>(td.test_x(), *p[2], true, "test_x") && sameMtx<T>(td.test_y(), *p[3], false, "test_y");
			if (td.empty()) viol("bin.td_empty", "the read training data claims to be empty");
		} else if (ec != EC::Success) {
			if (!old) { if (!td.empty()) viol("bin.leftover", "%s: the refused file left training data behind", w.what); }
			else if (!same_bits(sx, td.train_x().data()) || !same_bits(sy, td.train_y().data()) || !same_bits(tx, td.test_x().data()) || !same_bits(ty, td.test_y().data())) viol("bin.spoiled", "%s: the refused file changed the training data held before", w.what);
		}
		seen("td", old, sizeof(T), ref.ok);
	} else {
		SeqPeek<T> sd; seq_data<T>& base = sd; const EC ec = rd.read(g_fn.c_str(), base); judge(rd, ec, ref.ok, w);
		if (ref.ok && ec == EC::Success) {
			if (sd.empty() || sd.is_clear()) viol("bin.seq_empty", "a completely read set of sequences claims to be empty");
			const auto& cc = sd.get_class_seq_count(); bool okc = cc.size() == ref.cls.size() && sd.stor().size() == cc.size(); for (size_t i = 0; okc && i < cc.size(); ++i) okc = (unsigned)cc[i] == ref.cls[i] && sd.stor()[i].size() == ref.cls[i];
			if (!okc) viol("bin.seq_classes", "%d classes in the file", (int)ref.cls.size());
			else { std::vector<const MD<T>*> flat; for (auto& c : sd.stor()) for (auto& m : c) flat.push_back(&m); for (size_t i = 0; i < ref.f.size(); ++i) if (!sameMtx<T>(*flat[ref.slot[i]], ref.f[i], false, ref.f[i].name.c_str())) break; }
			sd.clear(); if (!sd.is_clear()) viol("bin.seq_clear", "clear() left something");
		} else if (ec != EC::Success && !sd.is_clear() && !sd.empty()) viol("bin.leftover", "%s: the refused file left a set of sequences that claims to be complete", w.what);
		seen("seq", sizeof(T), ref.ok, ref.cls.size() > 1);
	}
}
static Img mkImg(R& r, Kind k, bool valid = true) {
	Img I; I.seq = k == kSeq; const vl big = r.chance(10) ? 60 : 6;
	if (k == kMtx) { std::string n = r.pick<std::string>({ "train_x", "", "m", "a_name_of_15_ch", "whatever" }); I.f.push_back(fld(r, n, r.in(1, big), r.in(1, big))); }
	else if (k == kTd) {
		const vl n = r.in(1, big), m = r.in(1, big), xw = r.in(1, 6), yw = r.in(1, 4);
		I.f.push_back(fld(r, "train_x", n, xw)); I.f.push_back(fld(r, "train_y", n, yw)); I.f.push_back(fld(r, "test_x", m, xw)); I.f.push_back(fld(r, "test_y", m, yw));
	} else {
		const int cls = r.in(1, 5); for (int c = 0; c < cls; ++c) { const int q = r.in(1, 4); I.cls.push_back(q); for (int s = 0; s < q; ++s) { char nm[16]; snprintf(nm, 16, r.pick({ "c%d", "c%d_", "c%d_s", "c%dseq" }), c + 1); I.f.push_back(fld(r, nm, r.in(1, 6), r.in(1, 5))); } }
	}
	r.shuffle(I.f); emit(I); return I;
}
template<typename T> void g_valid(R& r, int) { BF rd; for (int i = 0; i < 12; ++i) { const Kind k = (Kind)r.below(3); Img I = mkImg(r, k); readIt<T>(r, rd, I.b, k, { true, {}, k == kMtx ? "a valid matrix" : k == kTd ? "valid training data" : "a valid set of sequences" }); } }
template<typename T> void g_trunc(R& r, int) {
	const Kind k = (Kind)r.below(3); Img I = mkImg(r, k); while (I.b.size() > 900) I = mkImg(r, k);
	BF rd; const size_t step = I.b.size() > 300 ? 3 : 1; const size_t off = r.below((int)step);
	for (size_t n = off; n < I.b.size(); n += step) {
		Bytes b(I.b.begin(), I.b.begin() + n); std::vector<EC> c;
		if (n < 10) c = { EC::FailedToReadHeader }; else if (n < 10 + 2 * I.cls.size()) c = { EC::FailedToReadSeqClassHeader };
		else for (auto& f : I.f) { if (n < f.dataAt) { c = { EC::FailedToReadFieldEntry }; break; } const size_t e = f.dataAt + f.v.size()*(f.type ? 4 : 8); if (n < e) { c = { EC::FailedToReadData }; break; } }
		ev("truncations"); readIt<T>(r, rd, b, k, { false, c, "a truncated file" });
	}
	readIt<T>(r, rd, I.b, k, { true, {}, "the whole file after its truncations" }); // the same reader, and get_last_error() has to follow
}
template<typename T> void g_fault(R& r, int) {
	BF rd;
	for (int q = 0; q < 14; ++q) {
		const Kind k = (Kind)r.below(3); Img I = mkImg(r, k); Bytes& b = I.b; Fld& f = I.f[r.below((int)I.f.size())];
		switch (r.below(15)) {
		case 0: b[r.below(4)] ^= 1 << r.below(8); readIt<T>(r, rd, b, k, { false, { EC::WrongHeaderSignature }, "a wrong signature" }); break;
		case 1: set16(b, 4, r.pick({ 1, 2, 255, 256, 65535 })); readIt<T>(r, rd, b, k, { false, { EC::UnsupportedFormatVersion }, "an unknown version" }); break;
		case 2: { const int d = r.pick({ -1, 1, 7 }); const int nf = int(get16(b, 6)) + d; set16(b, 6, nf); readIt<T>(r, rd, b, k, { false, { EC::WrongElementsCount }, "a wrong number of fields" }); break; }
		case 3: if (k == kSeq) { set16(b, 10 + 2 * r.below((int)I.cls.size()), 0); readIt<T>(r, rd, b, k, { false, { EC::InvalidSeqClassElement }, "a class without sequences" }); }
				else { set16(b, 8, r.in(1, 5)); readIt<T>(r, rd, b, k, { false, { EC::InvalidSeqClassCount }, "classes in a file without sequences" }); } break;
		case 4: b[f.at + 23] = r.pick({ 2, 3, 9, 127, 255 }); readIt<T>(r, rd, b, k, { false, { EC::UnsupportedIncorrectDataType }, "an unknown data type" }); break;
		case 5: set32(b, f.at + (r.b() ? 0 : 4), 0); readIt<T>(r, rd, b, k, { false, { EC::InvalidDataSize }, "a zero dimension" }); break;
		case 6: { const uint32_t v = r.pick<uint32_t>({ 0x80000000u, 0xffffffffu, 0x80000001u, 0xfffffffeu, 0x7fffffffu }); const bool col = r.b(); if (v < 0x80000000u) { set32(b, f.at, v); set32(b, f.at + 4, v); } else set32(b, f.at + (col ? 4 : 0), v); ev("huge");
			readIt<T>(r, rd, b, k, { false, { EC::InvalidDataSize, EC::MemoryAllocationFailed }, "a dimension beyond any matrix" }); break; }
		case 7: { // the product of the dimensions wraps the byte count to something small: it must not look like a small matrix
			const int sz = r.pick({ 4, 8 }); const uint64_t full = sz == 8 ? (uint64_t(1) << 61) : (uint64_t(1) << 62); bool got = false; uint32_t A = 0, B = 0;
			for (uint64_t ex = 0; ex < 64 && !got; ++ex) { const uint64_t n = full + ex; for (uint64_t a = 0x7ffffffeull; a > 0x7ffffffeull - 3000; --a) if (n % a == 0 && n / a < 0x7fffffffull) { A = (uint32_t)a; B = (uint32_t)(n / a); got = true; break; } }
			if (!got) { A = 1u << 30; B = sz == 8 ? 1u << 30 : 1u << 30; set32(b, f.at, A); set32(b, f.at + 4, sz == 8 ? (1u << 30) : (1u << 30)); } else { set32(b, f.at, A); set32(b, f.at + 4, B); }
			ev("wrapping"); readIt<T>(r, rd, b, k, { false, { EC::InvalidDataSize, EC::MemoryAllocationFailed }, "dimensions whose byte count wraps" }); break; }
		case 8: { // the bias column would wrap: (a)*(b+1) elements
			set32(b, f.at, 1u << 30); set32(b, f.at + 4, r.pick<uint32_t>({ (1u << 30) - 1, (1u << 30), 0x7fffffffu, 0x7ffffffeu })); ev("wrapping");
			readIt<T>(r, rd, b, k, { false, { EC::InvalidDataSize, EC::MemoryAllocationFailed }, "dimensions whose byte count wraps" }); break; }
		case 9: if (k == kTd) { const char* n = r.pick({ "train_z", "train_x2", "Train_x", "", "test", "x", "test_y_________" }); for (unsigned i = 0; i < 15; ++i) b[f.at + 8 + i] = i < strlen(n) ? n[i] : 0; readIt<T>(r, rd, b, k, { false, { EC::UnknownFieldName }, "an unknown field" }); }
				else if (k == kSeq) { const char* n = r.pick({ "x1", "1", "", "c", "C1", "cx", "c0", "c-1" }); for (unsigned i = 0; i < 15; ++i) b[f.at + 8 + i] = i < strlen(n) ? n[i] : 0; readIt<T>(r, rd, b, k, { false, { EC::FailedToParseClassId }, "a sequence without a class" }); } break;
		case 10: if (k == kTd) { Fld& g = I.f[r.below(4)]; if (&g != &f) { std::string was = f.name; memcpy(&b[f.at + 8], &b[g.at + 8], 15); readIt<T>(r, rd, b, k, { false, { EC::FieldHasBeenRead }, "a repeated field" }); } }
				 else if (k == kSeq) { char nm[16] = {}; snprintf(nm, 16, "c%d", int(I.cls.size()) + r.in(1, 3)); memcpy(&b[f.at + 8], nm, 15); readIt<T>(r, rd, b, k, { false, { EC::IncoherentSeqClassCount }, "a sequence of a class that is not there" }); } break;
		case 11: if (k == kSeq && I.cls.size() > 1) { int c = atoi(f.name.c_str() + 1), d = c == 1 ? 2 : 1; char nm[16] = {}; snprintf(nm, 16, "c%d", d); memcpy(&b[f.at + 8], nm, 15); readIt<T>(r, rd, b, k, { false, { EC::IncoherentSeqClassCount }, "too many sequences of a class" }); } break;
		case 12: if (k == kTd) { // incoherent sizes
			Fld& g = I.f[r.below(4)]; const bool x = g.name.back() == 'x'; const bool cols = r.b(); Fld n = fld(r, g.name, g.r + (cols ? 0 : 1), g.c + (cols ? 1 : 0)); g = n; (void)x; emit(I); readIt<T>(r, rd, I.b, k, { false, { EC::FailedToMakeTDOutOfReadData }, "incoherent sizes" }); } break;
		case 13: { const std::string keep = g_fn; g_fn += ".absent"; unlink(g_fn.c_str()); EC ec; if (k == kTd) { inmem_train_data<T> td; ec = rd.read(g_fn.c_str(), td); } else if (k == kSeq) { seq_data<T> sd; ec = rd.read(g_fn.c_str(), sd); } else { M<T> m; ec = rd.read(g_fn.c_str(), m); }
			g_fn = keep; judge(rd, ec, false, { false, { EC::FailedToOpenFile }, "a file that is not there" }); break; }
		default: { // a reader used for another kind of file
			const Kind o = (Kind)((k + r.in(1, 2)) % 3); if (!reference(b, o).ok) readIt<T>(r, rd, b, o, { false, { EC::WrongElementsCount, EC::InvalidSeqClassCount }, "a file of another kind" }); break; }
		}
	}
}
// arbitrary damage: only the reference reader knows
template<typename T> void g_noise(R& r, int) {
	BF rd;
	for (int q = 0; q < 25; ++q) {
		const Kind k = (Kind)r.below(3); Img I = mkImg(r, k); Bytes b = I.b; const int n = r.in(1, 4);
		for (int i = 0; i < n; ++i) { // mostly where the structure is
			size_t o; if (r.chance(30)) o = r.below(10); else { Fld& f = I.f[r.below((int)I.f.size())]; o = f.at + r.below(24); }
			if (r.b()) b[o] ^= 1 << r.below(8); else b[o] = (unsigned char)r.below(256);
		}
		if (r.chance(20)) b.resize(r.below((int)b.size() + 1));
		// sizes that fit the matrix type and the memory are a matter of the machine (an 8 GB request may be granted): left out
		bool skip = false; for (auto& f : I.f) if (f.at + 8 <= b.size()) { const unsigned __int128 p = (unsigned __int128)get32(b, f.at)*(uint64_t(get32(b, f.at + 4)) + 1); if (p > (1u << 20)) skip = true; }
		for (auto& f : I.f) if (k == kSeq && f.at + 23 <= b.size() && strnlen((const char*)&b[f.at + 8], 15) > 9) skip = true; // class numbers beyond int
		if (skip) { ev("skipped"); continue; }
		ev("noise"); readIt<T>(r, rd, b, k, { false, {}, "a damaged file" });
	}
}
int main(int c, char** v) {
	init(c, v); g_fn = S().tmpdir + "/binf." + std::to_string(getpid()) + ".bin";
	const int n = 60;
	group("valid_d", n, [](R& r, int i) { g_valid<double>(r, i); }); group("valid_f", n, [](R& r, int i) { g_valid<float>(r, i); });
	group("trunc_d", n / 3, [](R& r, int i) { g_trunc<double>(r, i); }); group("trunc_f", n / 3, [](R& r, int i) { g_trunc<float>(r, i); });
	group("fault_d", n * 2, [](R& r, int i) { g_fault<double>(r, i); }); group("fault_f", n * 2, [](R& r, int i) { g_fault<float>(r, i); });
	group("noise_d", n, [](R& r, int i) { g_noise<double>(r, i); }); group("noise_f", n, [](R& r, int i) { g_noise<float>(r, i); });
	unlink(g_fn.c_str());
	return done();
}
