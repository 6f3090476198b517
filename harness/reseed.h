// Random::seed and the raw draws against a fresh engine RandomEngine(seed)
#pragma once
#include "common.h"
#include <bitset>
// history: what was drawn before; s: the seed
static inline void reseed(std::uint64_t s, int history, int draws) {
	if (history == 1) Random::integer(); if (history == 2) { Random::seed(77); Random::bit(); Random::integer(); Random::integer(); }
	Random::seed(s); RandomEngine e(s);
	for (int i = 0; i < draws; i++) { Integer x = Random::integer(); vp_assert((std::uint64_t)x == e(), "raw draws are the outputs of the engine constructed with the seed"); if (i == 0) vp_obs(x); }
	Random::seed(s); RandomEngine f(s); std::uint64_t y = f(); y ^= y >> 32; y ^= y >> 16; y ^= y >> 8; y ^= y >> 4; y ^= y >> 2; y ^= y >> 1; bool b = Random::bit(); vp_assert(b == (bool)(y & 1), "seeding again restarts the sequence"); Integer z = Random::integer(); vp_assert((std::uint64_t)z == f(), "one output per draw");
	Integer l = -5, u = 11; Random::seed(s); Integer p = Random::integer(l, u), q = Random::integer(); Random::seed(s); Integer p2 = Random::integer(l, u), q2 = Random::integer(); vp_assert(p == p2, "equal seeds give equal draws"); vp_assert(q == q2, "equal seeds give equal draws"); vp_obs(z);
}
static inline void initial() { RandomEngine e(DEFAULT_SEED); for (int i = 0; i < 3; i++) { std::uint64_t x = e(); vp_assert((std::uint64_t)Random::integer() == x, "unseeded draws are those of the default seed"); } }
