//@ oracle the scale of a real in [0, 1) is given by the trailing zeros of the second engine output (each further zero halves it) and its mantissa by the first one; order relations with the bounds
//@ bounds every pair of engine outputs for the unit interval, and with up to 128 further zeros; bounded reals: bounds -5..5 in multiples of 1/8 and engine outputs with 8 arbitrary bits; intervals of one to three representable values around 2^63, -2^63 and from 0, where the scaled value may round up to the upper bound; every pair of long doubles which is no interval
//@ outside reals whose generation is repeated more than once
//@ case unit reach=done
//@ case zeros reach=done
//@ case bounded quick=0-1 reach=done
//@ case tight quick=0-1 reach=done
//@ case least quick=0-1 reach=done
//@ case bad reach=threw
#include <cstring>
#include "engine.h"
#include "common.h"
static void check(Real r, std::uint64_t m, int k) { // r in [2^-(k+1), 2^-k) with this mantissa
	vp_assert(vp_and(0.0L <= r, r < 1.0L), "reals lie in [0, 1)"); struct { std::uint64_t m; std::uint16_t e; } b; std::memcpy(&b, &r, 10);
	std::uint64_t w = m | 1ull << 63; vp_assert(b.e == 16382 - k, "the scale halves with probability one half"); vp_assert(vp_and(b.m >= w - vp_ite(w == 1ull << 63, 0, 1024), b.m - w <= 1024 || b.m <= w), "the mantissa is uniform");
}
VP_CASE(unit) {
	AnyEngine::record(2); Real r = Random::real(); std::uint64_t x = AnyEngine::v[1]; int k = 0; for (; k < 64; k++) if (vp_conc(x >> k & 1)) break;
	check(r, AnyEngine::v[0], k); vp_reach("done"); vp_obs(k);
}
VP_CASE(zeros) {
	int z = (int)vp_choose("z", 1, 2); AnyEngine::record(2 + z); std::uint64_t m = vp_bits("m", 64); AnyEngine::v[0] = m; for (int i = 1; i <= z; i++) AnyEngine::v[i] = 0; AnyEngine::v[z + 1] = 1ull << vp_choose("k", 0, 63); AnyEngine::again(); AnyEngine::have = z + 2;
	Real r = Random::real(); int k = 0; while (!(AnyEngine::v[z + 1] >> k & 1)) k++; check(r, m, 64 * z + k); vp_reach("done"); vp_obs(k);
}
VP_CASE(bounded) {
	AnyEngine::record(4); AnyEngine::fill = vp_flag("fill") ? 0x07FFFFFFFFFFFFF0ull : 0; AnyEngine::pow2 = AnyEngine::narrow = true; int l = (int)vp_choose("l", -2, 2), d = (int)vp_choose("d", 1, 3); const int q[] = {0, 1, 3, 40}; Real lo = l * 2.5L, hi = lo + q[d] / 8.0L, r;
	if (vp_arg() == 0) { lo = 0; hi = q[d] / 8.0L; r = Random::real(hi); } else r = Random::real(lo, hi);
	vp_assert(vp_and(lo <= r, r < hi), "reals lie in [lower, upper)"); vp_reach("done"); vp_obs(0);
}
VP_CASE(bad) {
	Real a = vp_ld("lower"), b = vp_ld("upper"); int k = (int)vp_choose("k", 0, 1); bool t = false; AnyEngine::reject("empty and infinite intervals are rejected"); if (k == 0) vp_assume(!(b > 0) || std::isinf(b)); else vp_assume(!(a < b) || std::isinf(a) || std::isinf(b));
	try { if (k == 0) Random::real(b); else Random::real(a, b); } catch (std::domain_error&) { t = true; } catch (std::invalid_argument&) { t = true; }
	vp_assert(t, "empty and infinite intervals are rejected"); vp_reach("threw"); vp_obs(t);
}
VP_CASE(tight) { // intervals with few representable values: the scaled value may round to the upper bound, which is drawn again
	AnyEngine::record(4); AnyEngine::fill = vp_flag("fill") ? 0x07FFFFFFFFFFFFF0ull : 0; AnyEngine::pow2 = AnyEngine::narrow = true; int s = (int)vp_choose("s", 0, 1), d = (int)vp_choose("d", 1, 3); Real lo = s ? 0x1p63L : -0x1p64L, hi = lo + d, r;
	if (vp_arg() == 0) { lo = 0; hi = d * 0x1p-16445L; r = Random::real(hi); } else r = Random::real(lo, hi);
	vp_assert(vp_and(lo <= r, r < hi), "reals lie in [lower, upper), also after rounding"); vp_reach("done"); vp_obs(0);
}
VP_CASE(least) { // draws next to the lower bound are used
	AnyEngine::record(32); std::uint64_t m = vp_bits("m", 4) << 59; AnyEngine::v[0] = m; AnyEngine::v[1] = 1ull << vp_choose("zeros", 4, 63); for (int i = 2; i < 32; i++) AnyEngine::v[i] = AnyEngine::v[i & 1]; AnyEngine::again(); AnyEngine::have = 32; AnyEngine::must = "the lower bound belongs to the interval";
	Real lo = vp_arg() ? 0x1p63L : 0, hi = vp_arg() ? 0x1p63L + 1 : 0x1p-16445L, r = vp_arg() ? Random::real(lo, hi) : Random::real(hi); vp_assert(r == lo, "the only number of the interval"); vp_reach("done"); vp_obs(0);
}
