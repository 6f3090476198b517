//@ stub randstub.cpp
//@ oracle primality by trial division with a concrete table of small primes; every prime of the range corresponds to exactly one draw
//@ bounds every range with bounds in -3..40 and up to 2 draws; ranges of up to 40 numbers around 2^31, 2^32, 2^61, 2^62 and 2^63-1; wide ranges up to the whole 64-bit range
//@ outside the probability with which a range containing primes is given up after many unsuccessful trials
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range
//@ case small quick=0-7 reach=prime
//@ case none quick=0-1 reach=threw
//@ case wide quick=0-5 reach=prime
//@ case empty reach=threw
#include "common.h"
#include "draws.h"
static bool pr(Integer x) { if (x < 2) return false; for (Integer i = 2; i * i <= x; i++) if (x % i == 0) return false; return true; }
VP_CASE(small) { // every first draw: exactly one draw per prime
	Integer l = vp_choose("l", -3 + 5 * vp_arg(), 1 + 5 * vp_arg()), u = vp_choose("u", l + 1, 40); vp_limit(u - l <= 14 || u == 40); int np = 0; for (Integer x = l; x < u; x++) np += pr(x); vp_assume(np > 0);
	Integer r[2] = {-1, -1}, v[2] = {0, 0}; 
	for (int k = 0; k < 2; k++) {
		vp_draws.record(); vp_draws.limit = 1; Integer x; try { x = l == 0 && u % 2 ? Random::prime(u) : Random::prime(l, u); } catch (DrawLimit&) { return; }
		vp_assert(vp_and(l <= x, x < u), "the prime lies in [lower, upper)"); bool ok = false; for (Integer y = l; y < u; y++) ok = vp_or(ok, vp_and(pr(y), x == y)); vp_assert(ok, "the number is prime"); r[k] = x; v[k] = vp_draws.have ? vp_draws.v[0] : 0;
	}
	Integer dl = vp_draws.lo[0], dh = vp_draws.hi[0]; std::set<Integer> got; vp_draws.quiet = true; vp_draws.limit = 1; // every draw on its own
	for (Integer d = dl; d < dh; d++) { vp_draws.again(); vp_draws.v[0] = d; try { got.insert(Random::prime(l, u)); } catch (DrawLimit&) {} }
	for (Integer y = l; y < u; y++) vp_assert(!pr(y) || got.count(y), "every prime of the range can be drawn");
	vp_assert(vp_or(r[0] != r[1], v[0] == v[1]), "every prime is equally likely"); vp_reach("prime"); vp_obs(0);
}
static const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
VP_CASE(none) { // at most one odd candidate
	bool t = false; Integer l, u; if (vp_arg() == 0) { l = vp_choose("l", -6, 60); u = l + vp_choose("n", 1, 2); bool p = false; for (Integer x = l; x < u; x++) p = p || pr(x); vp_assume(!p); } else { const Integer b[] = {MN, MX - 1, 1ll << 62, MX - 3, 3037000499ll * 3037000499ll, -5}; int k = (int)vp_choose("k", 0, 5); l = b[k]; u = k == 0 || k == 5 ? (Integer)vp_choose("u", -4, 2) : l + 1; }
	vp_draws.record(); vp_draws.limit = 40; try { if (l == 0) Random::prime(u); else Random::prime(l, u); } catch (std::domain_error&) { t = true; } vp_assert(t, "a range without primes is rejected"); vp_reach("threw"); vp_obs(l);
}
VP_CASE(wide) { // the draws are restricted to either end of the candidates
	const Integer r[][2] = {{0, 1ll << 31}, {MN, 1ll << 61}, {0, 1ll << 62}, {-1000000, MX}, {MN, MX}, {1ll << 61, (1ll << 62) + 5}}; int k = (int)vp_arg(); Integer l = r[k][0], u = r[k][1]; bool top = vp_flag("top");
	vp_draws.record(); vp_draws.limit = 1; vp_draws.window = top ? 32 : -32; Integer x; try { x = l == 0 ? Random::prime(u) : Random::prime(l, u); } catch (DrawLimit&) { vp_reach("prime"); return; }
	vp_assert(vp_and(l <= x, x < u), "the prime lies in [lower, upper)"); x = vp_conc(x); bool ok = false; if (!top && k < 5) ok = pr(x); else if (top) { const Integer d[] = {(1ll << 31) - 1, (1ll << 31) - 19, (1ll << 31) - 61, (1ll << 61) - 1, (1ll << 61) - 31, (1ll << 61) - 45, (1ll << 62) - 57, MX - 24}; for (Integer y : d) ok = ok || x == y; } else { for (Integer y : {15, 21, 57}) ok = ok || x == (1ll << 61) + y; }
	vp_assert(ok, "the number is prime"); vp_reach("prime"); vp_obs(x);
}
VP_CASE(empty) { Integer l = vp_i64("lower"), u = vp_i64("upper"); vp_assume(l >= u); bool t = false; vp_draws.reject("an empty range is rejected"); try { Random::prime(l, u); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "an empty range is rejected"); vp_reach("threw"); vp_obs(t); }
