// A small stand-in for MATLAB's libmat/libmx: the documented behaviour of the functions nntl uses, on files of an own format.
// It counts the arrays that are alive, checks every handle it is given, and can be told to fail.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <set>
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS } mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX } mxComplexity;
typedef bool mxLogical;
struct mxArray_tag {
	static constexpr uint64_t ALIVE = 0x6d78417272617921ull; uint64_t magic = ALIVE; mxClassID id = mxDOUBLE_CLASS; size_t m = 0, n = 0; unsigned char* d = nullptr; size_t bytes = 0;
	std::vector<std::pair<std::string, mxArray_tag*>> f; mxArray_tag* parent = nullptr;
};
typedef mxArray_tag mxArray;
namespace vmat {
	inline long& live() { static long v = 0; return v; }
	inline long& calls() { static long v = 0; return v; }
	inline long& failAt() { static long v = -1; return v; }// the number of the call that fails
	inline std::string& err() { static std::string v; return v; }// a misuse of the interface
	inline void misuse(const char* w) { if (err().empty()) err() = w; }
	inline bool ok(const mxArray* a, const char* w) { if (!a || a->magic != mxArray::ALIVE) { misuse(w); return false; } return true; }
	inline bool fails() { return calls()++ == failAt(); }
	inline size_t sz(mxClassID c) { switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxSTRUCT_CLASS: return 0; default: return 8; } }
	inline mxArray* make(mxClassID c, size_t m, size_t n) { auto a = new mxArray; ++live(); a->id = c; a->m = m; a->n = n; a->bytes = sz(c)*m*n; a->d = new unsigned char[a->bytes](); return a; }
	inline void destroy(mxArray* a) { for (auto& e : a->f) if (e.second) destroy(e.second); delete[] a->d; a->magic = 0; --live(); delete a; }
	inline mxArray* dup(const mxArray* a) { auto r = make(a->id, a->m, a->n); std::memcpy(r->d, a->d, a->bytes); for (auto& e : a->f) { r->f.push_back({ e.first, e.second ? dup(e.second) : nullptr }); if (e.second) r->f.back().second->parent = r; } return r; }
	inline bool name_ok(const char* s) { if (!s) return false; const size_t l = std::strlen(s); if (!l || l > 63) return false; for (size_t i = 0; i < l; ++i) { const char c = s[i]; const bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); if (!(al || (i && ((c >= '0' && c <= '9') || c == '_')))) return false; } return true; }
	inline void put(FILE* o, const mxArray* a) { uint64_t h[4] = { uint64_t(a->id), a->m, a->n, a->f.size() }; fwrite(h, 8, 4, o); if (a->bytes) fwrite(a->d, 1, a->bytes, o); for (auto& e : a->f) { uint64_t l = e.first.size(), has = e.second != nullptr; fwrite(&l, 8, 1, o); fwrite(e.first.data(), 1, l, o); fwrite(&has, 8, 1, o); if (has) put(o, e.second); } }
	inline mxArray* get(FILE* i) {
		uint64_t h[4]; if (fread(h, 8, 4, i) != 4 || h[0] > 15 || h[1] > (1u << 28) || h[2] > (1u << 28) || h[1] * h[2] > (1u << 28) || h[3] > 4096) return nullptr;
		auto a = make(mxClassID(h[0]), h[1], h[2]); if (a->bytes && fread(a->d, 1, a->bytes, i) != a->bytes) { destroy(a); return nullptr; }
		for (uint64_t k = 0; k < h[3]; ++k) { uint64_t l, has; if (fread(&l, 8, 1, i) != 1 || l > 4096) { destroy(a); return nullptr; } std::string s(l, 0); if (fread(&s[0], 1, l, i) != l || fread(&has, 8, 1, i) != 1) { destroy(a); return nullptr; } mxArray* c = nullptr; if (has && !(c = get(i))) { destroy(a); return nullptr; } a->f.push_back({ s, c }); if (c) c->parent = a; }
		return a;
	}
}
struct MATFile { std::string fn; bool w = false; std::map<std::string, mxArray*> v; };
namespace vmat { inline long& files() { static long v = 0; return v; } }
inline bool mclmcrInitialize() { return true; }
inline mxArray* mxCreateNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity) { return vmat::fails() ? nullptr : vmat::make(c, m, n); }
inline mxArray* mxCreateLogicalMatrix(size_t m, size_t n) { return vmat::fails() ? nullptr : vmat::make(mxLOGICAL_CLASS, m, n); }
inline mxArray* mxCreateStructMatrix(size_t m, size_t n, int, const char**) { return vmat::fails() ? nullptr : vmat::make(mxSTRUCT_CLASS, m, n); }
inline void mxDestroyArray(mxArray* a) { if (!a) return; if (!vmat::ok(a, "mxDestroyArray() of something that is not alive")) return; if (a->parent) for (auto& e : a->parent->f) if (e.second == a) e.second = nullptr; vmat::destroy(a); }
inline void* mxGetData(const mxArray* a) { return vmat::ok(a, "mxGetData()") ? a->d : nullptr; }
inline size_t mxGetM(const mxArray* a) { return vmat::ok(a, "mxGetM()") ? a->m : 0; }
inline size_t mxGetN(const mxArray* a) { return vmat::ok(a, "mxGetN()") ? a->n : 0; }
inline mxClassID mxGetClassID(const mxArray* a) { return vmat::ok(a, "mxGetClassID()") ? a->id : mxUNKNOWN_CLASS; }
inline bool mxIsStruct(const mxArray* a) { return vmat::ok(a, "mxIsStruct()") && a->id == mxSTRUCT_CLASS; }
inline bool mxIsLogical(const mxArray* a) { return vmat::ok(a, "mxIsLogical()") && a->id == mxLOGICAL_CLASS; }
inline bool mxIsNumeric(const mxArray* a) { return vmat::ok(a, "mxIsNumeric()") && a->id >= mxDOUBLE_CLASS; }
inline int mxGetFieldNumber(const mxArray* a, const char* n) { if (!vmat::ok(a, "mxGetFieldNumber()")) return -1; for (size_t i = 0; i < a->f.size(); ++i) if (a->f[i].first == n) return int(i); return -1; }
inline int mxAddField(mxArray* a, const char* n) { if (!vmat::ok(a, "mxAddField()") || vmat::fails()) return -1; const int k = mxGetFieldNumber(a, n); if (k >= 0) return k; a->f.push_back({ n, nullptr }); return int(a->f.size()) - 1; }
inline mxArray* mxGetFieldByNumber(const mxArray* a, size_t i, int k) { return vmat::ok(a, "mxGetFieldByNumber()") && !i && k >= 0 && size_t(k) < a->f.size() ? a->f[k].second : nullptr; }
inline mxArray* mxGetField(const mxArray* a, size_t i, const char* n) { return vmat::ok(a, "mxGetField()") && a->m*a->n > i ? mxGetFieldByNumber(a, i, mxGetFieldNumber(a, n)) : nullptr; }
// like the original, it does not dispose of the old value, nor detaches it
inline void mxSetFieldByNumber(mxArray* a, size_t i, int k, mxArray* v) {
	if (!vmat::ok(a, "mxSetFieldByNumber()") || !(v == nullptr || vmat::ok(v, "mxSetFieldByNumber(): the value is not alive")) || i || k < 0 || size_t(k) >= a->f.size()) return;
	if (v && v->parent && v->parent != a) vmat::misuse("mxSetFieldByNumber(): the value belongs to another structure"); a->f[k].second = v; if (v) v->parent = a;
}
inline MATFile* matOpen(const char* fn, const char* md) {
	if (vmat::fails()) return nullptr; auto r = new MATFile; r->fn = fn; r->w = *md != 'r'; const bool load = *md != 'w';
	FILE* f = fopen(fn, load ? "rb" : "wb"); if (!f) { delete r; return nullptr; }
	if (load) { char h[8]; bool good = fread(h, 1, 8, f) == 8 && !std::memcmp(h, "VMATFILE", 8); uint64_t l; while (good && fread(&l, 8, 1, f) == 1) { if (l > 4096) { good = false; break; } std::string s(l, 0); if (fread(&s[0], 1, l, f) != l) { good = false; break; } auto a = vmat::get(f); if (!a) { good = false; break; } if (r->v.count(s)) vmat::destroy(r->v[s]); r->v[s] = a; } if (!good) { for (auto& e : r->v) vmat::destroy(e.second); fclose(f); delete r; return nullptr; } }
	else fwrite("VMATFILE", 1, 8, f);
	fclose(f); ++vmat::files(); return r;
}
inline int matClose(MATFile* f) {
	if (!f) { vmat::misuse("matClose(nullptr)"); return -1; } int rc = vmat::fails() ? -1 : 0;
	if (f->w) { FILE* o = fopen(f->fn.c_str(), "wb"); if (!o) rc = -1; else { fwrite("VMATFILE", 1, 8, o); for (auto& e : f->v) { uint64_t l = e.first.size(); fwrite(&l, 8, 1, o); fwrite(e.first.data(), 1, l, o); vmat::put(o, e.second); } fclose(o); } }
	for (auto& e : f->v) vmat::destroy(e.second); --vmat::files(); delete f; return rc;
}
inline int matPutVariable(MATFile* f, const char* n, const mxArray* a) { if (!f || !vmat::ok(a, "matPutVariable()") || !f->w || vmat::fails() || !vmat::name_ok(n)) return 1; auto& x = f->v[n]; if (x) vmat::destroy(x); x = vmat::dup(a); return 0; }
inline mxArray* matGetVariable(MATFile* f, const char* n) { if (!f || vmat::fails()) return nullptr; const auto i = f->v.find(n); return i == f->v.end() ? nullptr : vmat::dup(i->second); }
