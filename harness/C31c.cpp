//@ stub mathstub.cpp
//@ oracle order relations with the bounds; a binomial variable with negligible p is 0
//@ bounds success probabilities 1e-4000, 1e-25, 1e-6, 0.125, 0.5, 0.75, 1; intervals [0, 1), [-3, 2), [2^62, 2^63-1) and the whole 64-bit range; counts 0, 1, 3, 5, 100, 2^62; up to 2 rejected candidates; every long double outside of the domain
//@ assume the transcendental functions are replaced by tables of representative values, engine outputs by a fixed one
//@ case geometric quick=0-4 reach=done
//@ case binomial quick=0-6 reach=done
//@ case binrange reach=done
//@ case real quick=0-1 reach=done
//@ case many quick=0-3 reach=done
//@ case domain quick=0-5 reach=threw
//@ case interval quick=0-3 reach=threw
#include "engine.h"
#include "common.h"
static const Real probs[] = {1e-4000L, 1e-25L, 1e-6L, 0.125L, 0.5L, 0.75L, 1.0L};
static const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
static const Integer iv[][2] = {{0, 1}, {-3, 2}, {1ll << 62, MX}, {MN, MX}};
static void fix(int lim) { AnyEngine::record(lim); AnyEngine::mask = 0; AnyEngine::fill = 1ull << 63 | 1; }
VP_CASE(geometric) {
	Real p = probs[vp_arg() == 4 ? 5 : vp_arg()]; int k = (int)vp_choose("k", 0, 4); fix(k == 4 ? 8 : 4); Integer r, l = 0, u = MX; if (k == 4) r = Random::geometric(p); else { l = iv[k][0]; u = iv[k][1]; r = Random::geometric(l, u, p); }
	vp_assert(vp_and(l <= r, r < u), "the result lies in [lower, upper)"); vp_reach("done"); vp_obs(k);
}
VP_CASE(binomial) {
	Real p = probs[vp_arg()]; const Integer ns[] = {0, 1, 3, 5, 100, 1ll << 62}; Integer n = ns[vp_choose("n", 0, 5)]; fix(p * n < 10 ? 10 : 8); Integer r = Random::binomial(n, p);
	vp_assert(vp_and(0 <= r, r <= n), "the result lies in [0, n]"); if (p == 1.0L) vp_assert(r == n, "certain success"); if (p <= 1e-25L && n <= 100) { vp_assert(r == 0, "negligible success"); }
	vp_reach("done"); vp_obs(0);
}
VP_CASE(binrange) {
	const Integer b[][2] = {{0, 2}, {1, 3}, {-5, 1}}; int k = (int)vp_choose("k", 0, 2); fix(8); Integer r = Random::binomial(b[k][0], b[k][1], 2, 0.5L); vp_assert(vp_and(b[k][0] <= r, r < b[k][1]), "the result lies in [lower, upper)"); vp_reach("done"); vp_obs(r);
}
VP_CASE(real) {
	const Real b[][2] = {{0, 1}, {-3, 2}, {1.5L, 1e300L}, {-1e4000L, -1}}; int k = (int)vp_choose("k", 0, 3); Real l = b[k][0], u = b[k][1], r; fix(4); if (vp_arg() == 0) r = Random::normal(l, u, 0.25L, 4.0L); else r = Random::exponential(l, u, vp_flag("small") ? 1e-3L : 2.0L);
	vp_assert(vp_and(l <= r, r < u), "the result lies in [lower, upper)"); vp_reach("done"); vp_obs(0);
}
VP_CASE(many) { // maximum and minimum of many variables are drawn directly
	Integer l = iv[vp_arg()][0], u = iv[vp_arg()][1]; fix(2); Integer n = vp_flag("n") ? 5 : 1000000000000ll, r; int k = (int)vp_choose("k", 0, 3); if (k == 0) r = Random::maximum(l, u, n); if (k == 1) r = Random::minimum(l, u, n); if (k == 2) r = Random::minmax(l, u, n); if (k == 3) r = Random::minmax(l, u, -n);
	vp_assert(vp_and(l <= r, r < u), "the result lies in [lower, upper)"); vp_reach("done"); vp_obs(0);
}
VP_CASE(domain) {
	int a = (int)vp_arg(); Real x = vp_ld("x"); bool t = false; fix(64); AnyEngine::must = "arguments outside of the domain are rejected"; if (a < 2) vp_assume(!(x >= 0) || x > 1 || (a == 0 && x == 0)); else if (a < 4) vp_assume(!(x > 0)); else vp_assume(!(x >= 0)); if (a == 2 || a == 3) vp_assume(!(x > 0));
	try { if (a == 0) { if (vp_flag("b")) Random::geometric(0, 5, x); else Random::geometric(x); } if (a == 1) Random::binomial(5, x); if (a == 2) Random::exponential(x); if (a == 3) Random::exponential(0, 1, x); if (a == 4) Random::normal(0, x); if (a == 5) Random::normal(0, 1, 0, x); } catch (std::domain_error&) { t = true; }
	vp_assert(t, "arguments outside of the domain are rejected"); vp_reach("threw"); vp_obs(t);
}
VP_CASE(interval) { // empty intervals and intervals without or with infinite bounds where no number can be drawn
	int a = (int)vp_arg(); Real x = a < 2 ? vp_ld("x") : 0, y = a < 2 ? vp_ld("y") : 0; Integer l = a < 2 ? 0 : vp_i64("lower"), u = a < 2 ? 0 : vp_i64("upper"); bool t = false; fix(64); AnyEngine::must = "empty intervals are rejected";
	if (a == 0) vp_assume(!(x < y)); if (a == 1) vp_assume(!(x < y) || std::isinf(x)); if (a == 2) vp_assume(l >= u); if (a == 3) vp_assume(l >= u);
	try { if (a == 0) Random::normal(x, y, 0, 1); if (a == 1) Random::exponential(x, y, 1); if (a == 2) Random::geometric(l, u, 0.5L); if (a == 3) Random::binomial(l, u, 5, 0.5L); } catch (std::domain_error&) { t = true; } catch (std::invalid_argument&) { t = true; }
	vp_assert(t, "empty intervals are rejected"); vp_reach("threw"); vp_obs(t);
}
