//@ oracle byte-wise comparison (folded to lower case when case-insensitive), integer equality, and |given - expected| <= tolerance in exact integer arithmetic
//@ bounds given and expected tokens of up to 3 arbitrary bytes (thorough 5); tokens of 1..40 characters differing at any one position or in length; every expected 64-bit integer against tokens of up to 3 symbolic digits; reals in multiples of 1/8 from -1 to 7/8, tolerances in {0, 1/8, 1/4, 1}
//@ outside longer arbitrary tokens
//@ case str quick=0-3 thorough=0-5 reach=ok,bad,arg
//@ case longstr quick=0-5 reach=ok,bad
//@ case ints quick=0-3 reach=ok,bad
//@ case reals quick=0-15 reach=ok,bad
#include "stream.h"
static unsigned char low(unsigned char c) { return (unsigned char)(c + 32 * (int)((unsigned char)(c - 'A') <= 25)); }
VP_CASE(str) {
	int n = (int)vp_arg(), m = (int)vp_choose("m", 0, n < 3 ? 3 : n); std::string s = vp_string("seen", n), e = vp_string("exp", m);
	for (char c : s) vp_assume(graph((unsigned char)c));
	bool cs = vp_flag("case"), sens = vp_flag("space");
	bool tok = m > 0; for (char c : e) tok = vp_and(tok, !wsp((unsigned char)c));
	Feed f(s + "\n", sens, cs, 43); int r = 0; bool arg = false;
	try { r = attempt([&] { f.s.expectString(e); }); } catch (std::invalid_argument&) { arg = true; }
	vp_assert(arg == !tok, "an expectation which is no token is rejected as programming error");
	if (arg) { vp_reach("arg"); if (n == 0) vp_reach("ok"); return; }
	bool eq = n == m; for (int i = 0; i < n && i < m; i++) eq = vp_and(eq, cs ? s[(size_t)i] == e[(size_t)i] : low((unsigned char)s[(size_t)i]) == low((unsigned char)e[(size_t)i]));
	vp_assert((r == -1) == eq, "accepted exactly when the tokens are equal");
	if (r == -1) { vp_reach("ok"); vp_assert(f.left() == 1, "exactly the token is consumed"); } else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	if (n == 0) vp_reach("ok");
	vp_obs(r);
}
VP_CASE(longstr) {
	const int len[] = {1, 9, 17, 25, 26, 40}; int n = len[vp_arg()], m = len[vp_choose("m", 0, 5)];
	int p = (int)vp_choose("p", 0, n - 1);
	std::string s((size_t)n, 'a'), e((size_t)m, 'A'); s[(size_t)p] = vp_char("c"); vp_assume(graph((unsigned char)s[(size_t)p]));
	bool swap = vp_flag("swap"), cs = vp_flag("case"); if (cs) for (char& c : e) c = 'a';
	if (swap) std::swap(s, e);
	Feed f(s, true, cs, 43); int r = attempt([&] { f.s.expectString(e); });
	unsigned char c = (unsigned char)(swap ? e : s)[(size_t)p]; bool eq = vp_and(n == m, vp_or(c == 'a', vp_and(!cs, c == 'A')));
	vp_assert((r == -1) == eq, "accepted exactly when the tokens are equal");
	if (r == -1) vp_reach("ok"); else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(ints) {
	int n = (int)vp_arg(); std::string t; bool neg = vp_flag("neg"); Integer v = 0;
	if (n == 0) t = neg ? "-9223372036854775808" : "9223372036854775807", v = neg ? std::numeric_limits<Integer>::min() : std::numeric_limits<Integer>::max();
	else { if (neg) t = "-"; for (int i = 0; i < n; i++) { int d = (int)vp_range("d", i == 0 ? 1 : 0, 9); t += (char)('0' + d); v = v * 10 + d; } if (neg) v = -v; }
	Integer e = vp_i64("expected"); Feed f(t + " ", vp_flag("space"), true, 43); int r = attempt([&] { f.s.expectInt(e); });
	vp_assert((r == -1) == (e == v), "accepted exactly when the integers are equal");
	if (r == -1) vp_reach("ok"); else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
static const char* TK[16] = {"-1.000", "-0.875", "-0.750", "-0.625", "-0.500", "-0.375", "-0.250", "-0.125", "+0.000", "+0.125", "+0.250", "+0.375", "+0.500", "+0.625", "+0.750", "+0.875"};
VP_CASE(reals) {
	Integer A = vp_arg() % 4, R = vp_arg() / 4; const Integer tol8[] = {0, 1, 2, 8};
	Integer ki = vp_range("v", 0, 15), y = vp_range("e", 0, 15) - 8, x = ki - 8;
	std::string t(6, ' '); for (size_t j = 0; j < 6; j++) { Integer c = TK[0][j]; for (Integer i = 1; i < 16; i++) c = vp_ite(ki == i, TK[i][j], c); t[j] = (char)c; }
	Feed f(t, true, true, 43, tol8[A] / 8.0L, tol8[R] / 8.0L); int r = attempt([&] { f.s.expectReal(y / 8.0L); });
	Integer d = x - y; d = vp_ite(d < 0, -d, d); Integer ay = vp_ite(y < 0, -y, y);
	bool ok = vp_or(d <= tol8[A], vp_and(y != 0, 8 * d <= tol8[R] * ay));
	vp_assert((r == -1) == ok, "accepted exactly within the tolerances");
	if (r == -1) vp_reach("ok"); else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	if (A == 3 || R == 3) vp_reach("bad");
	vp_obs(r);
}
