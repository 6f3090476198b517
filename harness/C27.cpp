//@ stub randstub.cpp
//@ oracle number, sum and smallest part; the cut points (partial sums of the parts reduced by min - 1) are an increasing sequence drawn uniformly, the one Random::increasing yields for the same draws, hence every partition is equally likely
//@ bounds 1..4 parts, every total from 1 to 8 with every minimum from -2 to 3; every 64-bit total up to 2^62 with up to 3 parts and minima in {-2^58, 0, 1, 12345, 2^60}; every sequence of draws; rejected arguments over all 64-bit values
//@ outside more parts; totals and minima for which total - (min - 1) * parts leaves the 64-bit range
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range
//@ case small quick=1-4 thorough=1-5 reach=done
//@ case large quick=1-2 thorough=1-3 reach=done
//@ case reject quick=0-2 reach=threw
#include "common.h"
#include "draws.h"
using V = std::vector<Integer>;
static void check(Integer n, Integer k, Integer min, bool dflt) {
	vp_draws.record(); V r = dflt ? Random::partition(n, k) : Random::partition(n, k, min);
	vp_assert((Integer)r.size() == k, "number of parts"); Integer s = 0; for (Integer x : r) { vp_assert(x >= min, "no part is below the minimum"); s += x; } vp_assert(s == n, "the parts sum up to the total");
	vp_draws.again(); V c = Random::increasing(k - 1, 1, n - (min - 1) * k); vp_assert(vp_draws.same && vp_draws.n == vp_draws.have, "the same draws"); Integer at = 0;
	for (size_t i = 0; i + 1 < r.size(); i++) { at += r[i] - (min - 1); vp_assert(at == c[i], "every partition is equally likely"); }
	vp_reach("done"); vp_obs(k);
}
VP_CASE(small) { Integer k = vp_arg(), n = vp_choose("n", 1, 8), m = vp_choose("min", -2, 3); vp_assume(m <= 0 || k * m <= n); bool d = m == 1 && vp_flag("default"); if (k > 3) vp_assume(n - (m - 1) * k <= 7); check(n, k, m, d); }
VP_CASE(large) { Integer k = vp_arg(), n = vp_range("n", 1, 1ll << 62), m = vp_choose("min", 0, 4); const Integer ms[] = {1, 0, -(1ll << 58), 1ll << 60, 12345}; m = ms[m]; vp_assume(vp_or(m <= 0, k * m <= n)); check(n, k, m, false); }
VP_CASE(reject) {
	int a = (int)vp_arg(); Integer n = vp_i64("n"), k = vp_i64("k"), m = a == 2 ? vp_choose("min", 1, 3) : vp_i64("min"); if (a == 0) vp_assume(n <= 0); if (a == 1) vp_assume(k <= 0); if (a == 2) { vp_assume(vp_and(n > 0, k > 0)); vp_assume(n < 1ll << 60); vp_assume(k < 1ll << 60); vp_assume(k * m > n); }
	bool t = false; vp_draws.reject("impossible partitions are rejected"); try { if (m == 1 && vp_flag("default")) Random::partition(n, k); else Random::partition(n, k, m); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "impossible partitions are rejected"); vp_reach("threw"); vp_obs(t);
}
