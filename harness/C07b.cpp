//@ oracle grammars 0|-?[1-9][0-9]* and [+-]?([0-9]*\.[0-9]+|[0-9]+\.|[0-9]+)([eE][+-]?[0-9]+)?; value by Horner's rule; size comparison
//@ bounds isInteger: strings of 0..4 arbitrary bytes (blanks included) and 18..20 digits around the limits; isReal: 0..4 bytes, exponents below 20; shorter and longer: containers of 0..3 elements
//@ case integer quick=0-4 thorough=0-6 reach=no
//@ case limits quick=0-4 reach=yes,no
//@ case real quick=0-4 thorough=0-5 reach=no
//@ case sizes reach=done
#include "stream.h"
#include "reals.h"
VP_CASE(integer) {
	int n = (int)vp_arg(); std::string t = vp_string("t", n); auto r = isInteger(t); bool ok = n > 0 ? intTok(t) : false;
	vp_assert(bool(r) == ok, "an integer exactly when the string is an integer literal"); vp_assert(r.hasReason() == bool(r), "the value is given");
	if (r) { bool neg = t[0] == '-'; Integer w = 0; for (size_t i = 0; i < t.size(); i++) w = vp_ite(vp_and(neg, i == 0), 0, w * 10 + (t[i] - '0')); vp_assert(*r.reason == vp_ite(neg, -w, w), "exact value"); vp_reach("yes"); } else vp_reach("no");
	vp_obs(bool(r));
}
VP_CASE(limits) {
	const char* base[] = {"9223372036854775807", "-9223372036854775808", "18446744073709551616", "-18446744073709551615", "9999999999999999999"};
	std::string t = base[vp_arg()]; for (size_t i = t.size() - 3; i < t.size(); i++) t[i] = (char)('0' + vp_range("d", 0, 9)); auto r = isInteger(t);
	bool neg = t[0] == '-'; unsigned __int128 w = 0; for (size_t i = neg; i < t.size(); i++) w = w * 10 + (unsigned)(t[i] - '0');
	bool ok = w <= (unsigned __int128)std::numeric_limits<Integer>::max() + (neg ? 1 : 0); vp_assert(bool(r) == ok, "an integer exactly when the value fits in 64 bits");
	if (r) { vp_assert((UInteger)*r.reason == (neg ? 0 - (UInteger)w : (UInteger)w), "exact value"); vp_reach("yes"); } else vp_reach("no");
	vp_obs(bool(r));
}
VP_CASE(real) {
	int n = (int)vp_arg(); std::string t = vp_string("t", n); vp_limit(!expBig(t)); auto r = isReal(t); bool ok = n > 0 ? realTok(t) : false;
	vp_assert(bool(r) == ok, "a real exactly when the string is a decimal number"); vp_assert(r.hasReason() == bool(r), "the value is given");
	if (r) { vp_assert(vp_or(*r.reason == 0, vp_and(*r.reason < 1e25L, *r.reason > -1e25L)), "finite value"); vp_assert((*r.reason < 0) <= (t[0] == '-'), "sign"); if (n == 3) { bool d = vp_and(dig((unsigned char)t[0]), vp_and(t[1] == '.', dig((unsigned char)t[2]))); if (d) vp_assert(*r.reason == (Real)((t[0] - '0') * 10 + t[2] - '0') / 10, "exact value"); } vp_reach("yes"); } else vp_reach("no");
	vp_obs(bool(r));
}
VP_CASE(sizes) {
	std::vector<Integer> a((size_t)vp_choose("a", 0, 3), 7); std::string b((size_t)vp_choose("b", 0, 3), 'x'); vp_assert(shorter()(a, b) == (a.size() < b.size()), "shorter"); vp_assert(longer()(a, b) == (a.size() > b.size()), "longer"); vp_reach("done"); vp_obs((Integer)a.size());
}
