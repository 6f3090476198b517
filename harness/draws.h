#pragma once
#include <cstdint>
struct DrawLimit {};
struct Draws { // the draws of Random::integer seen by the stand-in
	static const int N = 256;
	std::int64_t window = 0; // > 0: only the last values of every range are drawn, < 0: only the first
	int conc = 0; // the first draws are split into concrete values
	int wfrom = -1; // >= 0: the window applies from this draw on, otherwise after the concrete ones
	int n = 0, have = 0, limit = 0; bool replay = false, same = true, quiet = false; // quiet: DrawLimit is thrown without ending the path
	std::int64_t lo[N], hi[N], v[N];
	void record() { n = have = 0; replay = false; same = true; must = nullptr; }
	const char* must = nullptr; // the request has to end within the limit
	void reject(const char* what) { record(); limit = 64; must = what; }
	void again() { n = 0; replay = true; same = true; } // the same draws once more
};
extern Draws vp_draws;
extern std::int64_t vp_binomial_n; extern long double vp_binomial_p; // the last request (randstub2.cpp only)
