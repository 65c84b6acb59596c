// Force-included before everything: supplies the MSVC run-time names nntl uses.
#pragma once
#include <cmath>
#include <math.h>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <ctime>
#include <climits>
#include <cerrno>
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <limits>
#include <type_traits>
#include <utility>
#include <tuple>
#include <map>
#include <list>
#include <atomic>
#include <thread>
#include <chrono>
#include <iostream>
#include <sstream>
#include <mm_malloc.h>
#include <xmmintrin.h>
#include <pmmintrin.h>

#define _USE_MATH_DEFINES
#define NOMINMAX

// <sdkddkver.h> on the real platform: makes nntl use its native (SRW lock + condition variable) synchronisation
#ifndef _WIN32_WINNT
#define _WIN32_WINNT 0x0601
#endif

#ifndef __cdecl
#define __cdecl
#endif

//////////////////////////////////////////////////////////////////////////
// aligned memory. The harness may make an allocation fail or account for it.
namespace vshim {
	template<typename T, typename...> struct lazy { typedef T type; };
	typedef bool(*alloc_fail_fn)(size_t sz);
	inline alloc_fail_fn& alloc_fail() { static alloc_fail_fn f = nullptr; return f; }
}
inline void* _aligned_malloc(size_t sz, size_t al) {
	if (vshim::alloc_fail() && vshim::alloc_fail()(sz)) return nullptr;
	void* p = nullptr;
	if (al < sizeof(void*)) al = sizeof(void*);
	return posix_memalign(&p, al, sz ? sz : 1) ? nullptr : p;
}
inline void _aligned_free(void* p) { free(p); }

//////////////////////////////////////////////////////////////////////////

namespace vshim { [[noreturn]] void debugbreak_hit(const char* file, int line); }
#ifndef __debugbreak
#define __debugbreak() (::fprintf(stderr,"NNTL_DEBUGBREAK at %s:%d\n",__FILE__,__LINE__), ::fflush(stderr), ::abort())
#endif
#ifndef _ASSERTE
#define _ASSERTE(x) ((x) ? (void)0 : (::fprintf(stderr,"NNTL_ASSERT failed at %s:%d: %s\n",__FILE__,__LINE__,#x), ::fflush(stderr), ::abort()))
#endif

//////////////////////////////////////////////////////////////////////////
// floating point control word, mapped onto MXCSR as the x64 CRT does
#define _MCW_DN 0x03000000u
#define _DN_SAVE 0x00000000u
#define _DN_FLUSH 0x01000000u
#define _MCW_RC 0x00000300u
#define _RC_NEAR 0x00000000u
#define _RC_CHOP 0x00000300u
#define _CW_DEFAULT 0x0008001fu
inline int _controlfp_s(unsigned* cur, unsigned newv, unsigned mask) {
	unsigned c = _mm_getcsr();
	if (mask & _MCW_DN) c = (newv & _MCW_DN) == _DN_FLUSH ? (c | 0x8040u) : (c & ~0x8040u);
	if (mask & _MCW_RC) c = (c & ~0x6000u) | (((newv & _MCW_RC) >> 8) << 13);
	if (mask) _mm_setcsr(c);
	if (cur) *cur = ((c & 0x8040u) == 0x8040u ? _DN_FLUSH : _DN_SAVE) | (((c >> 13) & 3u) << 8);
	return 0;
}

//////////////////////////////////////////////////////////////////////////
// secure CRT. As the real ones, they never write beyond the given size; an overflow is an invalid-parameter abort.
namespace vshim {
	inline void crt_invalid_parameter(const char* fn) { ::fprintf(stderr, "CRT_INVALID_PARAMETER in %s\n", fn); ::fflush(stderr); ::abort(); }
}
inline int sprintf_s(char* d, size_t n, const char* fmt, ...) {
	va_list a; va_start(a, fmt); const int r = vsnprintf(d, n, fmt, a); va_end(a);
	if (r < 0 || size_t(r) >= n) vshim::crt_invalid_parameter("sprintf_s");
	return r;
}
template<size_t N>
inline int sprintf_s(char(&d)[N], const char* fmt, ...) {
	va_list a; va_start(a, fmt); const int r = vsnprintf(d, N, fmt, a); va_end(a);
	if (r < 0 || size_t(r) >= N) vshim::crt_invalid_parameter("sprintf_s");
	return r;
}
inline int strcpy_s(char* d, size_t n, const char* s) {
	if (!d || !s || strlen(s) >= n) vshim::crt_invalid_parameter("strcpy_s");
	strcpy(d, s); return 0;
}
template<size_t N> inline int strcpy_s(char(&d)[N], const char* s) { return strcpy_s(d, N, s); }
inline int fopen_s(FILE** f, const char* name, const char* mode) {
	char m[8]; size_t j = 0;
	for (const char* p = mode; *p && j < 7; ++p) if (*p != 'S' && *p != 'R' && *p != 'T' && *p != 'D') m[j++] = *p;
	m[j] = 0;
	*f = fopen(name, m); return *f ? 0 : errno;
}
inline size_t fread_s(void* b, size_t bs, size_t es, size_t n, FILE* f) {
	if (!es || !n) return 0;
	if (es*n > bs) { vshim::crt_invalid_parameter("fread_s"); }
	return fread(b, es, n, f);
}
#define sscanf_s sscanf
inline long long _ftelli64(FILE* f) { return (long long)ftello(f); }
inline int _fseeki64(FILE* f, long long o, int w) { return fseeko(f, (off_t)o, w); }
#define printf_s printf
inline int rand_s(unsigned* v) { *v = (unsigned(rand()) << 16) ^ unsigned(rand()); return 0; }
