//@ oracle the token grammar 0|-?[1-9][0-9]* evaluated without branching, the exact value by Horner's rule, the half-open interval test
//@ bounds tokens of 1..5 arbitrary non-blank bytes (thorough 7) followed by end of file, blank or newline, both whitespace modes; tokens with a sign and 18..20 digits around the limits of the 64-bit range; every 64-bit lower and upper bound against tokens of up to 3 symbolic digits and the 64-bit extremes; arbitrary 32-bit verdict codes
//@ outside longer tokens that are not numbers close to the 64-bit limits
//@ case token quick=1-5 thorough=1-7 reach=ok,bad
//@ case limits quick=0-5 reach=ok,bad
//@ case bounds quick=0-3 thorough=0-3 reach=ok,bad
//@ case extreme reach=ok,bad
#include "stream.h"
VP_CASE(token) {
	int n = (int)vp_arg(); std::string t = vp_string("t", n), text = t;
	for (char c : t) vp_assume(!wsp((unsigned char)c));
	Integer e = vp_choose("end", 0, 2); if (e) text += e == 1 ? " 7" : "\n7";
	bool space = vp_flag("space"), cs = vp_flag("case");
	int code = (int)(1 + vp_range("code", 0, 254));
	Feed f(text, space, cs, code);
	Integer v = 0; int r = attempt([&] { v = f.s.integer(); });
	bool ok = intTok(t);
	vp_assert((r == -1) == ok, "accepted exactly when the token is an integer literal");
	if (r == -1) {
		bool neg = t[0] == '-'; Integer w = 0;
		for (size_t i = 0; i < t.size(); i++) w = vp_ite(vp_and(neg, i == 0), 0, w * 10 + (t[i] - '0'));
		vp_assert(v == vp_ite(neg, -w, w), "exact value"); vp_assert(f.left() == (e ? 2 : 0), "exactly the token is consumed"); vp_reach("ok");
	} else { vp_assert(r == code, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r); vp_obs(v);
}
VP_CASE(limits) { // 6 symbolic trailing or leading digits
	const char* base[] = {"9223372036854775807", "-9223372036854775808", "18446744073709551616", "-18446744073709551615", "9999999999999999999", "-1000000000000000000"};
	std::string t = base[vp_arg()];
	size_t k = vp_flag("lead") ? (t[0] == '-' ? 1 : 0) : t.size() - 3;
	for (size_t i = k; i < k + 3; i++) t[i] = (char)('0' + vp_range("d", i == 0 || t[i - 1] == '-' ? 1 : 0, 9));
	Feed f(t + "\n", true, true, 43);
	Integer v = 0; int r = attempt([&] { v = f.s.integer(); });
	bool neg = t[0] == '-'; unsigned __int128 w = 0;
	for (size_t i = neg; i < t.size(); i++) w = w * 10 + (unsigned)(t[i] - '0');
	bool ok = w <= (unsigned __int128)std::numeric_limits<Integer>::max() + (neg ? 1 : 0);
	vp_assert((r == -1) == ok, "accepted exactly when the value fits in 64 bits");
	if (r == -1) { vp_assert((UInteger)v == (neg ? 0 - (UInteger)w : (UInteger)w), "exact value at the limits"); vp_reach("ok"); if (vp_arg() == 5) vp_reach("bad"); } else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); if (vp_arg() == 2 || vp_arg() == 3 || vp_arg() == 4) vp_reach("ok"); }
	vp_obs(r); vp_obs(v);
}
VP_CASE(bounds) {
	int n = (int)vp_arg(); std::string t; // sign and digits
	bool neg = vp_flag("neg"); Integer v = 0;
	if (n == 0) { vp_assume(!neg); t = "0"; }
	else { if (neg) t = "-"; for (int i = 0; i < n; i++) { int d = (int)vp_range("d", i == 0 ? 1 : 0, 9); t += (char)('0' + d); v = v * 10 + d; } if (neg) v = -v; }
	Integer lo = vp_i64("lo"), hi = vp_i64("hi");
	Feed f(t, vp_flag("space"), true, 43);
	Integer g = 0; int r = attempt([&] { g = f.s.integer(lo, hi); });
	bool ok = vp_and(lo <= v, v < hi);
	vp_assert((r == -1) == ok, "accepted exactly inside the half-open interval");
	if (r == -1) { vp_assert(g == v, "value"); vp_reach("ok"); } else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r); vp_obs(g);
}
VP_CASE(extreme) {
	const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
	bool top = vp_flag("top"); Integer v = top ? MX : MN;
	Integer lo = vp_i64("lo"), hi = vp_i64("hi");
	Feed f(top ? "9223372036854775807 " : "-9223372036854775808 ", true, true, 43);
	Integer g = 0; int r = attempt([&] { g = f.s.integer(lo, hi); });
	vp_assert((r == -1) == vp_and(lo <= v, v < hi), "extreme values respect the half-open interval");
	if (top) vp_assert(r == 43, "the largest value is never below the upper bound");
	if (r == -1) vp_reach("ok"); else vp_reach("bad");
	vp_obs(r); vp_obs(g);
}
