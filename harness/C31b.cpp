//@ stub randstub.cpp
//@ oracle discrete: index i for as many draws as its weight; maximum and minimum of the draws made
//@ bounds six weight vectors of 1..5 weights including zeros; every 64-bit interval with 1..4 draws for maximum, minimum and minmax; every rejected argument
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range
//@ case discrete quick=0-5 reach=done
//@ case extreme quick=0-3 reach=done
//@ case rejected quick=0-2 reach=threw
#include "common.h"
#include "draws.h"
template<Integer... W> static void disc() {
	const Integer w[] = {W...}; const int n = sizeof...(W); Integer sum = 0; for (Integer x : w) sum += x; vp_draws.record(); Integer r = Random::discrete<W...>();
	vp_assert(vp_and(0 <= r, r < n), "an index of a weight"); vp_assert(vp_draws.have == 1 && vp_draws.lo[0] == 0 && vp_draws.hi[0] == sum, "as many outcomes as the total weight");
	Integer a = 0; for (int i = 0; i < n; i++) { Integer b = a + w[i], d = vp_draws.v[0]; vp_assert((r == i) == vp_and(a <= d, d < b), "every index is hit by as many draws as its weight"); a = b; } vp_reach("done"); vp_obs(r);
}
VP_CASE(discrete) { int a = (int)vp_arg(); if (a == 0) disc<1>(); if (a == 1) disc<1, 1>(); if (a == 2) disc<3, 0, 2>(); if (a == 3) disc<0, 5, 1, 0, 4>(); if (a == 4) disc<1000000000000, 1, 1000000000000>(); if (a == 5) disc<0, 0, 7>(); }
VP_CASE(extreme) {
	Integer n = vp_arg() + 1, l = vp_i64("lower"), u = vp_i64("upper"); vp_assume(l < u); int k = (int)vp_choose("k", 0, 3); bool z = vp_flag("zero"); if (z) vp_assume(l == 0); vp_draws.record(); Integer r;
	if (k == 0) r = z ? Random::maximum(u, n) : Random::maximum(l, u, n); if (k == 1) r = z ? Random::minimum(u, n) : Random::minimum(l, u, n); if (k == 2) r = z ? Random::minmax(u, n) : Random::minmax(l, u, n); if (k == 3) r = z ? Random::minmax(u, -n) : Random::minmax(l, u, -n);
	vp_assert(vp_and(l <= r, r < u), "the result lies in [lower, upper)"); vp_assert(vp_draws.have == n, "one draw per variable"); std::uint64_t best = 0; // distance to the lower bound
	for (int i = 0; i < vp_draws.have; i++) { std::uint64_t d = (std::uint64_t)vp_draws.v[i] - (std::uint64_t)vp_draws.lo[i]; vp_assert((std::uint64_t)vp_draws.hi[i] - (std::uint64_t)vp_draws.lo[i] == (std::uint64_t)u - (std::uint64_t)l, "draws over the whole interval"); best = (std::uint64_t)vp_ite(d > best, (Integer)d, (Integer)best); }
	if (k == 0 || k == 2) vp_assert((std::uint64_t)r - (std::uint64_t)l == best, "distributed like the maximum of uniform integers"); else vp_assert((std::uint64_t)u - 1 - (std::uint64_t)r == best, "distributed like the minimum of uniform integers");
	vp_reach("done"); vp_obs(0);
}
VP_CASE(rejected) {
	Integer n = vp_i64("n"), l = vp_i64("lower"), u = vp_i64("upper"); int a = (int)vp_arg(); bool t = false; if (a < 2) { if (vp_flag("n")) vp_assume(n <= 0); else { vp_assume(n > 0); vp_assume(l >= u); } } else vp_assume(n == 0);
	vp_draws.reject("no variables and empty intervals are rejected"); try { if (a == 0) Random::maximum(l, u, n); if (a == 1) Random::minimum(l, u, n); if (a == 2) Random::minmax(l, u, n); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "no variables and empty intervals are rejected"); vp_reach("threw"); vp_obs(t);
}
