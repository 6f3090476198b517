//@ oracle as before, for platforms without 128-bit integers
//@ bounds without 128-bit integers: engine outputs with 8 arbitrary bits at position 0, 28 or 56 and all other bits equal
//@ case sizes quick=0-17 reach=used,again
//@ case small quick=0-3 reach=used
#include "engine.h"
#include <bits/stdc++.h>
#undef __SIZEOF_INT128__
#include "common.h"
using u128 = unsigned __int128; using U = std::uint64_t;
static bool usable(U x, U s) { return (U)(x * s) >= (U)((0 - s) % s); }
static U high(U x, U s) { return (U)(((u128)x * s) >> 64); }
static const U sizes[] = {1, 2, 3, 5, 6, 7, 10, 12, 100, 1000, 1000000007, (1ull << 31) + 1, (1ull << 32) - 1, (1ull << 33) + 1, 1ull << 63, (1ull << 63) + 1, ~0ull, 0xAAAAAAAAAAAAAAABull};
VP_CASE(sizes) {
	const int w = (int)vp_choose("window", 0, 5); AnyEngine::mask = 0xFFull << (w % 3 * 28); AnyEngine::fill = w >= 3 ? ~AnyEngine::mask : 0;
	U s = sizes[vp_arg()]; Integer l = vp_i64("lower"); Integer u = (Integer)((U)l + s); vp_assume(l < u);
	if (s == 1 || s == 2 || s == 1ull << 63 || 1) vp_reach("again");
	AnyEngine::record(2); Integer r = vp_flag("zero") && (vp_assume(l == 0), true) ? Random::integer(u) : Random::integer(l, u);
	int n = AnyEngine::n; U x = AnyEngine::v[n - 1];
	vp_assert(vp_and(l <= r, r < u), "the result lies in [lower, upper)");
	vp_assert(usable(x, s), "an engine output that would favour some values is not used"); vp_assert(r == (Integer)((U)l + high(x, s)), "every value is hit by the same number of engine outputs");
	if (n > 1) vp_assert(!usable(AnyEngine::v[0], s), "an output is only skipped if it has to be");
	vp_reach(n > 1 ? "again" : "used"); vp_obs(n);
}
VP_CASE(small) {
	const int w = (int)vp_choose("window", 0, 5); AnyEngine::mask = 0xFFull << (w % 3 * 28); AnyEngine::fill = w >= 3 ? ~AnyEngine::mask : 0;
	U s = (U)vp_range("s", vp_arg() * 64, vp_arg() * 64 + 63); vp_assume(s >= 1); Integer l = vp_flag("neg") ? -100 : std::numeric_limits<Integer>::max() - 300; Integer u = l + (Integer)s;
	AnyEngine::record(1); Integer r = Random::integer(l, u); U x = AnyEngine::v[0];
	vp_assert(vp_and(l <= r, r < u), "the result lies in [lower, upper)"); vp_assert(r == (Integer)((U)l + high(x, s)), "every value is hit by the same number of engine outputs");
	vp_reach("used"); vp_obs(0);
}
VP_CASE(empty) {
	Integer l = vp_i64("lower"), u = vp_i64("upper"); vp_assume(l >= u); bool t = false; AnyEngine::reject("an empty range is rejected"); if (vp_flag("zero")) { vp_assume(l == 0); try { Random::integer(u); } catch (std::invalid_argument&) { t = true; } } else try { Random::integer(l, u); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t, "an empty range is rejected"); vp_reach("threw"); vp_obs(t);
}
VP_CASE(single) { Integer l = vp_i64("lower"); vp_assume(l < std::numeric_limits<Integer>::max()); AnyEngine::record(2); vp_assert(Random::integer(l, l + 1) == l, "a range of one value"); vp_reach("done"); vp_obs(0); }
VP_CASE(full) {
	AnyEngine::record(); Integer a = Random::integer(), b = Random::integer(); vp_assert(AnyEngine::n == 2, "one output per unbounded integer");
	vp_assert((a == b) == (AnyEngine::v[0] == AnyEngine::v[1]), "every 64 bit integer is hit by exactly one output"); vp_reach("done"); vp_obs(a); vp_obs(b);
}
VP_CASE(bits) { // flipping one bit of the output flips the result: exactly half of all outputs give 1
	AnyEngine::record(); bool a = Random::bit(), b = Random::bit(); vp_assert(AnyEngine::n == 2, "one output per bit");
	U d = AnyEngine::v[0] ^ AnyEngine::v[1]; bool one = vp_and(d != 0, (d & (d - 1)) == 0); vp_assert(vp_or(!one, a != b), "a bit is uniform"); vp_reach("done"); vp_obs(a);
}
