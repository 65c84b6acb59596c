// JSON training data: generated texts (any order of members, layout and notation of numbers) come back value for value, anything else is refused with the code that
// names the member and the reason. What a text contains is known from its generation, numbers are re-read by strtod.
#include "mathcommon.h"
#include "nntl/train_data.h"
#include "nntl/_supp/io/jsonreader.h"
#include <unistd.h>
using namespace vh;
typedef nntl_supp::jsonreader JR; typedef JR::ErrorCode EC;
static std::string g_fn;
static void save(const std::string& s) { FILE* f = fopen(g_fn.c_str(), "wb"); if (!f || (s.size() && fwrite(s.data(), s.size(), 1, f) != 1)) { fprintf(stderr, "cannot write %s\n", g_fn.c_str()); exit(3); } fclose(f); }
static std::string ws(R& r) { std::string s; while (r.chance(25)) s += r.pick({ ' ', '\n', '\t', '\r' }); return s; }
static std::string num(R& r, int what, double& v) { // what: 0 - real, 1 - int, 2 - unsigned
	char b[64];
	if (what == 2) snprintf(b, 64, "%d", r.in(0, 255)); else if (what == 1) snprintf(b, 64, "%d", r.in(-100000, 100000));
	else switch (r.below(7)) {
	case 0: snprintf(b, 64, "%d", r.in(-300, 300)); break; case 1: snprintf(b, 64, "%.17g", r.norm()); break; case 2: snprintf(b, 64, "%.3f", r.uni(-9, 9)); break;
	case 3: snprintf(b, 64, "%.12e", r.norm()*1e-20); break; case 4: snprintf(b, 64, "%dE%c%d", r.in(-9, 9), r.pick({ '+', '-' }), r.in(0, 20)); break;
	case 5: snprintf(b, 64, "%s", r.pick({ "0", "-0", "0.0", "1", "-1", "1e-30", "3.4e38", "4294967296", "-2147483648", "18446744073709551615", "0.1", "123456789012345678901234567890", "2.2250738585072014e-308", "9007199254740993" })); break;
	default: snprintf(b, 64, "%.25g", r.uni(-1, 1)); }
	v = strtod(b, nullptr); return b;
}
struct Arr { vl rows, cols; bool vec; std::vector<double> v; std::string text; }; // v is column-major
static Arr arr(R& r, vl rows, vl cols, int what) {
	Arr a; a.rows = rows; a.cols = cols; a.vec = cols == 1 && r.b(); a.v.resize((size_t)rows*cols); std::string& s = a.text; auto col = [&](vl j) { s += "["; for (vl i = 0; i < rows; ++i) { s += ws(r) + num(r, what, a.v[(size_t)j*rows + i]) + ws(r); if (i + 1 < rows) s += ","; } s += "]"; };
	if (a.vec) col(0); else { s += "["; for (vl j = 0; j < cols; ++j) { s += ws(r); col(j); s += ws(r); if (j + 1 < cols) s += ","; } s += "]"; }
	return a;
}
static std::string junkMember(R& r) { return r.pick<std::string>({ "\"name\":\"a \\\"text\\\" ] }\"", "\"train_X\":[1,2]", "\"extra\":null", "\"o\":{\"train_x\":[[9]],\"b\":[true,false]}", "\"train_x2\":[[1],[2,3]]", "\"u\":\"\\u0041\\n\"" }); }
static std::string object(R& r, std::vector<std::pair<std::string, std::string>> m) {
	std::vector<std::string> p; for (auto& x : m) p.push_back("\"" + x.first + "\"" + ws(r) + ":" + ws(r) + x.second); while (r.chance(30)) p.push_back(junkMember(r)); r.shuffle(p);
	std::string s = ws(r) + "{" + ws(r); for (size_t i = 0; i < p.size(); ++i) { s += p[i] + ws(r); if (i + 1 < p.size()) s += "," + ws(r); } return s + "}" + ws(r);
}
template<typename T> bool sameMtx(const M<T>& m, const Arr& a, bool bias, const char* what) {
	if (m.empty() || m.rows() != a.rows || m.cols_no_bias() != a.cols || m.emulatesBiases() != bias || m.bBatchInRow()) { viol("json.shape", "%s: %d x %d%s expected, got %d x %d", what, (int)a.rows, (int)a.cols, bias ? " + bias" : "", m.empty() ? 0 : (int)m.rows(), m.empty() ? 0 : (int)m.cols()); return false; }
	if (bias) for (vl i = 0; i < a.rows; ++i) if (m.get(i, a.cols) != T(1)) { viol("json.bias", "%s: the bias column is not made of ones", what); return false; }
	for (vl j = 0; j < a.cols; ++j) for (vl i = 0; i < a.rows; ++i) { const T w = (T)a.v[(size_t)j*a.rows + i], g = m.get(i, j); if (!(w == g)) { viol("json.value", "%s %d x %d: cell (%d,%d) is %.17g instead of %.17g", what, (int)a.rows, (int)a.cols, (int)i, (int)j, (double)g, (double)w); return false; } }
	ev("cells", a.v.size()); return true;
}
static void judge(JR& rd, EC ec, EC want, const char* what, size_t len) {
	ev("reads"); ev(want == EC::Success ? "accepted" : "refused"); seen("code", hstr(what), (int)ec, (int)want);
	if (ec != want) viol((ec == EC::Success) == (want == EC::Success) ? "json.code" : want == EC::Success ? "json.refused" : "json.accepted", "%s: read() says '%s', expected '%s'", what, JR::get_error_str(ec), JR::get_error_str(want));
	if (rd.get_last_error() != ec) viol("json.last_error", "%s: read() returned '%s', get_last_error() says '%s'", what, JR::get_error_str(ec), rd.get_last_error_str());
	const std::string t = rd.get_last_error_string(); if (t.compare(0, strlen(JR::get_error_str(ec)), JR::get_error_str(ec))) viol("json.errstr", "the text of the code %d is '%s'", (int)ec, t.c_str());
	if (ec == EC::FailedToParseJson && (rd.get_parse_error() == rapidjson::kParseErrorNone || rd.get_parse_error_offset() > len)) viol("json.parse_info", "%s: parse error %d at %llu of %llu", what, (int)rd.get_parse_error(), (unsigned long long)rd.get_parse_error_offset(), (unsigned long long)len);
	if (ec != EC::FailedToParseJson && ec != EC::FailedToOpenFile && rd.get_parse_error() != rapidjson::kParseErrorNone) viol("json.parse_info", "%s: a parse error is reported for a well-formed text", what);
}
template<typename T> struct Old { std::vector<T> s[4]; };
static const char* g_nm[4] = { "train_x","train_y","test_x","test_y" };
template<typename T> void readTd(R& r, JR& rd, const std::string& text, const Arr* a, EC want, const char* what) {
	save(text); inmem_train_data<T> td; const bool old = r.chance(40); Old<T> o;
	if (old) { MD<T> m[4]; const vl n[4] = { 3,3,2,2 }, w[4] = { 2,1,2,1 }; for (int q = 0; q < 4; ++q) { if (!(q & 1)) m[q].will_emulate_biases(); m[q].resize(n[q], w[q]); for (vl i = 0; i < n[q]; ++i) for (vl j = 0; j < w[q]; ++j) m[q].set(i, j, (T)r.norm()); o.s[q] = snap(m[q]); } if (!td.absorb(std::move(m[0]), std::move(m[1]), std::move(m[2]), std::move(m[3]))) viol("json.absorb", "valid data was not absorbed"); }
	const EC ec = rd.read(g_fn.c_str(), td); judge(rd, ec, want, what, text.size());
	if (ec == EC::Success && want == ec) { sameMtx<T>(td.train_x(), a[0], true, g_nm[0]) && sameMtx<T>(td.train_y(), a[1], false, g_nm[1]) && sameMtx<T>(td.test_x(), a[2], true, g_nm[2]) && sameMtx<T>(td.test_y(), a[3], false, g_nm[3]); if (td.empty()) viol("json.td_empty", "the read training data claims to be empty"); }
	else if (ec != EC::Success) {
		if (!old) { if (!td.empty()) viol("json.leftover", "%s: the refused text left training data behind", what); }
		else if (!same_bits(o.s[0], td.train_x().data()) || !same_bits(o.s[1], td.train_y().data()) || !same_bits(o.s[2], td.test_x().data()) || !same_bits(o.s[3], td.test_y().data())) viol("json.spoiled", "%s: the refused text changed the training data held before", what);
	}
	seen("td", old, want, sizeof(T));
}
template<typename T> void readM(R& r, JR& rd, const std::string& text, const Arr& a, EC want, const char* what) {
	save(text); M<T> m; const bool bias = r.b(), pre = r.chance(30); if (pre && bias) m.will_emulate_biases();
	const EC ec = rd.read(g_fn.c_str(), m, pre ? false : bias); judge(rd, ec, want, what, text.size());
	if (ec == EC::Success && want == ec) sameMtx<T>(m, a, bias, "a matrix"); else if (ec != EC::Success && !m.empty()) viol("json.leftover", "%s: the refused text left a %d x %d matrix behind", what, (int)m.rows(), (int)m.cols());
	seen("mtx", bias, want, sizeof(T), a.vec);
}
struct TD4 { Arr a[4]; std::vector<std::pair<std::string, std::string>> m() const { std::vector<std::pair<std::string, std::string>> v; for (int q = 0; q < 4; ++q) v.emplace_back(g_nm[q], a[q].text); return v; } };
static TD4 td4(R& r) { TD4 t; const vl big = r.chance(10) ? 50 : 6, n = r.in(1, big), m = r.in(1, big), xw = r.in(1, 5), yw = r.in(1, 4); t.a[0] = arr(r, n, xw, 0); t.a[1] = arr(r, n, yw, 0); t.a[2] = arr(r, m, xw, 0); t.a[3] = arr(r, m, yw, 0); return t; }
static void bufs(R& r, JR& rd) { if (r.b()) rd.m_readBufSize = r.pick({ 4, 5, 7, 16, 33, 100, 4096 }); }
template<typename T> void g_valid(R& r, int) {
	JR rd; for (int i = 0; i < 10; ++i) { bufs(r, rd); if (r.b()) { TD4 t = td4(r); readTd<T>(r, rd, object(r, t.m()), t.a, EC::Success, "valid training data"); } else { Arr a = arr(r, r.in(1, 8), r.in(1, 6), 0); readM<T>(r, rd, object(r, { { "train_x", a.text } }), a, EC::Success, "a valid matrix"); } }
	Arr a = arr(r, r.in(1, 8), r.in(1, 6), 1); readM<int>(r, rd, object(r, { { "train_x", a.text } }), a, EC::Success, "a valid matrix of integers");
	a = arr(r, r.in(1, 8), r.in(1, 6), 2); readM<uint8_t>(r, rd, object(r, { { "train_x", a.text } }), a, EC::Success, "a valid matrix of bytes");
}
template<typename T> void g_trunc(R& r, int) {
	JR rd; bufs(r, rd); TD4 t = td4(r); std::string s = object(r, t.m()); const size_t end = s.rfind('}'); const size_t step = end > 250 ? 1 + end / 250 : 1;
	for (size_t n = r.below((int)step); n <= end; n += step) { ev("truncations"); readTd<T>(r, rd, s.substr(0, n), t.a, EC::FailedToParseJson, "a truncated text"); }
	readTd<T>(r, rd, s, t.a, EC::Success, "the whole text after its truncations");
}
template<typename T> void g_fault(R& r, int) {
	JR rd;
	for (int q = 0; q < 14; ++q) {
		bufs(r, rd); TD4 t = td4(r); auto m = t.m(); const int k = r.below(4); const bool mtx = r.chance(30); const int kk = mtx ? 0 : k; Arr& a = t.a[kk]; std::string& tx = m[kk].second;
		const EC no = EC(int(EC::NoTrainX) + kk), bad = EC(int(EC::InvalidTrainX) + kk);
		auto go = [&](EC w, const char* what) { const std::string s = object(r, m); if (mtx) readM<T>(r, rd, s, t.a[0], w, what); else readTd<T>(r, rd, s, t.a, w, what); };
		switch (r.below(11)) {
		case 0: m[kk].first = r.pick<std::string>({ "Train_x", "train_z", "x", "" }); go(no, "an absent member"); break;
		case 1: tx = r.pick<std::string>({ "1", "null", "\"[[1]]\"", "{}", "true", "{\"a\":[1]}" }); go(bad, "a member that is not an array"); break;
		case 2: tx = r.pick<std::string>({ "[]", "[ ]", "[[]]", "[[],[]]" }); go(bad, "an empty array"); break;
		case 3: { const vl j = r.in(0, a.cols); std::string s = "["; for (vl c = 0; c <= a.cols; ++c) { s += c ? ",[" : "["; const vl n = a.rows + 1 + (c == j ? (j ? r.pick({ -1, 1 }) : 1) : 0); for (vl i = 0; i < n; ++i) s += i ? ",1" : "2"; s += "]"; } tx = s + "]"; go(bad, "a ragged array"); break; }
		case 4: { // one cell is not a number
			size_t d; do d = r.below((int)a.text.size()); while (!isdigit((unsigned char)a.text[d])); size_t b = d, e = d; auto nm = [](char c) { return isdigit((unsigned char)c) || strchr("+-.eE", c); }; while (b > 0 && nm(tx[b - 1])) --b; while (e < tx.size() && nm(tx[e])) ++e;
			tx = tx.substr(0, b) + r.pick<std::string>({ "null", "\"1\"", "true", "{}" }) + tx.substr(e); go(bad, "a cell that is not a number"); break; }
		case 5: tx = r.pick<std::string>({ "[1,[2]]", "[1,2,[3]]", "[[1],2]", "[[1],[2],3]" }); go(bad, "scalars and arrays mixed"); break;
		case 6: if (!mtx) { const vl dr = r.b(), dc = !dr; a = arr(r, a.rows + dr, a.cols + dc, 0); tx = a.text; go(EC::MismatchingDataLength, "incoherent sizes"); } break;
		case 7: { std::string s = object(r, m); const int h = r.below(4); if (h == 0) s = "[" + s + "]"; else s = r.pick<std::string>({ "1", "null", "\"{}\"", "[]", "true", "[[1,2],[3,4]]" }); if (mtx) readM<T>(r, rd, s, t.a[0], EC::RootIsNotAnObject, "a root that is not an object"); else readTd<T>(r, rd, s, t.a, EC::RootIsNotAnObject, "a root that is not an object"); break; }
		case 8: { std::string s = object(r, m); switch (r.below(5)) { case 0: s = s.substr(0, s.rfind('}')); break; case 1: s += "x"; break; case 2: s[s.find(':')] = ' '; break; case 3: s.insert(s.find('[') + 1, ","); break; default: s.insert(s.find('[') + 1, r.pick<std::string>({ "nan,", "01,", "1.,", "+1,", ".5,", "0x10,", "1e999," })); }
			if (mtx) readM<T>(r, rd, s, t.a[0], EC::FailedToParseJson, "a text that is not JSON"); else readTd<T>(r, rd, s, t.a, EC::FailedToParseJson, "a text that is not JSON"); break; }
		case 9: { const std::string f = g_fn + ".absent"; unlink(f.c_str()); M<T> x; EC ec; if (mtx) ec = rd.read(f.c_str(), x); else { inmem_train_data<T> td; ec = rd.read(f.c_str(), td); } judge(rd, ec, EC::FailedToOpenFile, "a file that is not there", 0); break; }
		default: go(EC::Success, "a valid text after refused ones");
		}
	}
}
int main(int c, char** v) {
	init(c, v); g_fn = S().tmpdir + "/json." + std::to_string(getpid()) + ".json"; const int n = 60;
	group("valid_d", n, [](R& r, int i) { g_valid<double>(r, i); }); group("valid_f", n, [](R& r, int i) { g_valid<float>(r, i); });
	group("trunc_d", n / 4, [](R& r, int i) { g_trunc<double>(r, i); }); group("trunc_f", n / 4, [](R& r, int i) { g_trunc<float>(r, i); });
	group("fault_d", n * 2, [](R& r, int i) { g_fault<double>(r, i); }); group("fault_f", n * 2, [](R& r, int i) { g_fault<float>(r, i); });
	unlink(g_fn.c_str());
	return done();
}
