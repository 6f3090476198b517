// the documented override of the random engine: arbitrary 64 bit outputs
#pragma once
#include <cstdint>
#include "vp.h"
struct AnyEngine {
	using result_type = std::uint64_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return ~0ull; }
	explicit AnyEngine(result_type) {}
	void seed(result_type) {}
	static inline int n = 0, have = 0, limit = 0; static inline bool replay = false, pow2 = false, narrow = false, few = false; static inline const char* must = nullptr; /* the request has to end within the limit */ static inline std::uint64_t mask = ~0ull, fill = 0; static inline std::uint64_t v[64] = {};
	result_type operator()() {
		int i = n++;
		if (limit && i >= limit) { if (must) vp_assert(false, must); vp_limit(false); }
		if (replay && i < have) return v[i];
		if (pow2 && i % 2) { static const int q[] = {0, 1, 2, 40, 63}; return 1ull << q[vp_choose("zeros", 0, 4)]; }
		if (few) { static const std::uint64_t q[] = {1, 2, 1ull << 62 | 1, ~0ull - 3}; std::uint64_t x = q[vp_choose("engine", 0, 3)]; if (i < 64) { v[i] = x; have = i + 1; } return x; }
		std::uint64_t b = narrow ? vp_bits("engine", 8) : 0, x = narrow ? (b >> 4) << 60 | (b & 15) | fill : (vp_bits("engine", 64) & mask) | fill; if (i < 64) { v[i] = x; have = i + 1; } return x;
	}
	static void record(int lim = 0) { n = have = 0; limit = lim; replay = pow2 = narrow = few = false; must = nullptr; }
	static void reject(const char* what) { record(64); must = what; }
	static void again() { n = 0; replay = true; }
};
namespace Settings { using RandomEngine = AnyEngine; }
