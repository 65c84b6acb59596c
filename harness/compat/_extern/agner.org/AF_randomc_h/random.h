// Stand-in for Agner Fog's AF_randomc_h package (a separate GPL download that is not part of
// Arech/nntl and is not available offline). It implements the documented interface that nntl uses
// (RandomInit, RandomInitByArray, IRandom, IRandomX, BRandom, Random, FRandom, FPRandom) on top of
// a small xoshiro128** generator. Every draw is counted, so the monitors can see RNG consumption.
#pragma once
#include <cstdint>
#include <type_traits>
#include <utility>

namespace AFog {

	static constexpr int GEN_ERROR = static_cast<int>(0x80000000);

	template<int TAG, bool HAS_F>
	class CRandomStandIn {
		uint32_t s_[4];
		static uint32_t rotl(const uint32_t x, int k)noexcept { return (x << k) | (x >> (32 - k)); }
		static uint64_t sm64(uint64_t& x)noexcept {
			uint64_t z = (x += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		void init64(uint64_t x)noexcept {
			const uint64_t a = sm64(x), b = sm64(x);
			s_[0] = static_cast<uint32_t>(a); s_[1] = static_cast<uint32_t>(a >> 32);
			s_[2] = static_cast<uint32_t>(b); s_[3] = static_cast<uint32_t>(b >> 32);
			if (!(s_[0] | s_[1] | s_[2] | s_[3])) s_[0] = 1;
		}
	public:
		explicit CRandomStandIn(int seed = 0)noexcept { RandomInit(seed); }
		void RandomInit(int seed)noexcept { init64((uint64_t(uint32_t(TAG)) << 40) ^ uint32_t(seed)); }
		void RandomInitByArray(int const seeds[], int n)noexcept {
			uint64_t h = 0xcbf29ce484222325ull ^ uint64_t(uint32_t(TAG));
			for (int i = 0; i < n; ++i) { h ^= uint32_t(seeds[i]); h *= 0x100000001b3ull; h ^= h >> 29; }
			init64(h);
		}
		uint32_t BRandom()noexcept {
			const uint32_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 9;
			s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 11);
			return r;
		}
		//double in [0,1)
		double Random()noexcept {
			const uint64_t hi = BRandom(), lo = BRandom();
			return static_cast<double>(((hi << 32) | lo) >> 11)*(1.0 / 9007199254740992.0);
		}
		//float in [0,1)
		float FRandom()noexcept { return static_cast<float>(BRandom() >> 8)*(1.0f / 16777216.0f); }

		template<typename T>
		::std::enable_if_t<HAS_F && ::std::is_same<T, float>::value, float> FPRandom()noexcept { return FRandom(); }
		template<typename T>
		::std::enable_if_t<!(HAS_F && ::std::is_same<T, float>::value), double> FPRandom()noexcept { return Random(); }

		int IRandom(int mn, int mx)noexcept { return IRandomX(mn, mx); }
		//exact uniform integer in [mn,mx]
		int IRandomX(int mn, int mx)noexcept {
			if (mx <= mn) return mx == mn ? mn : GEN_ERROR;
			const uint64_t n = uint64_t(int64_t(mx) - int64_t(mn)) + 1;
			const uint64_t lim = (0x100000000ull / n)*n;
			uint64_t v;
			do { v = BRandom(); } while (v >= lim);
			return static_cast<int>(int64_t(mn) + int64_t(v%n));
		}
	};

	typedef CRandomStandIn<1, false> CRandomMersenne;
	typedef CRandomStandIn<2, true> CRandomSFMT0;
	typedef CRandomStandIn<3, true> CRandomSFMT1;

	template<typename T> struct has_FRandom : ::std::false_type {};
	template<int TAG> struct has_FRandom<CRandomStandIn<TAG, true>> : ::std::true_type {};
}
