//@ oracle the token grammars of decimal numbers evaluated without branching, the exact value as integer multiple of 1/8 (dyadic tokens) or digits/10^k, the half-open interval widened by the tolerances in exact integer arithmetic
//@ bounds language: tokens of 1..4 arbitrary non-blank bytes (thorough 5) for tolerant and 1..5 (thorough 6) for strict reals, exponents below 20; values: up to 3 symbolic digits around the point and exponents -9..9; intervals: 16 values, 8 lower, 8 upper bounds in multiples of 1/8, tolerances in {0, 1/8, 1/4, 1}; decimals limits: every 64-bit value; strict bounds: every non-NaN long double
//@ outside tokens with more than 18 significant digits or exponents beyond +-27
//@ assume std::from_chars for long double is replaced by a decimal model (exact for the tokens in range), the regex by an automaton model; sampled paths are replayed with the real ones
//@ case lang quick=1-4 thorough=1-5 reach=ok,bad
//@ case slang quick=1-5 thorough=1-6 reach=ok,bad
//@ case value quick=0-7 reach=ok
//@ case range quick=0-7 thorough=0-15 reach=ok,bad
//@ case decimals quick=0-4 reach=ok,bad
//@ case sbound quick=0-1 reach=ok,bad
//@ case overflow reach=bad
#include "stream.h"
#include "reals.h"
static bool strictTok(const std::string& t, Integer& dec) { // -?(0|[1-9][0-9]*)(\.[0-9]*)?
	bool S = true, sg = false, Z = false, I = false, F = false; dec = 0;
	for (char ch : t) {
		unsigned char c = (unsigned char)ch; bool st = vp_or(S, sg);
		bool nZ = vp_and(st, c == '0'), nI = vp_or(vp_and(st, (unsigned char)(c - '1') <= 8), vp_and(I, dig(c))), nF = vp_or(vp_and(vp_or(Z, I), c == '.'), vp_and(F, dig(c))), ns = vp_and(S, c == '-');
		dec = dec + (Integer)vp_and(F, dig(c)); S = false; sg = ns; Z = nZ; I = nI; F = nF;
	}
	return vp_or(Z, vp_or(I, F));
}
static std::string sym(int n) { std::string t = vp_string("t", n); for (char c : t) vp_assume(!wsp((unsigned char)c)); return t; }
VP_CASE(lang) {
	std::string t = sym((int)vp_arg()); bool cs = vp_flag("case"), sens = vp_flag("space");
	vp_limit(!expBig(t));
	Feed f(t + "\n", sens, cs, 43); int r = attempt([&] { f.s.real(); });
	vp_assert((r == -1) == realTok(t), "accepted exactly when the token is a decimal number");
	if (r == -1) vp_reach("ok"); else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(slang) {
	std::string t = sym((int)vp_arg()); bool cs = vp_flag("case");
	Feed f(t + "\n", true, cs, 43); int r = attempt([&] { f.s.realStrict(-1e30L, 1e30L, 0, 100); });
	Integer dec; vp_assert((r == -1) == strictTok(t, dec), "accepted exactly when the token is a canonical decimal number");
	if (r == -1) vp_reach("ok"); else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(value) {
	const char* form[] = {"d", "dd.", "-d.d", "+.dd", "d.de2", "dde-3", "-d.dE+9", "d.dd"};
	const int pw[] = {0, 0, -1, -2, 1, -3, 8, -2};
	std::string t; Integer m = 0; int a = (int)vp_arg();
	for (const char* p = form[a]; *p; p++) { if (*p == 'd') { int d = (int)vp_range("d", 0, 9); t += (char)('0' + d); m = m * 10 + d; } else t += *p; }
	Feed f(t, true, true, 43); Real v = 0; int r = attempt([&] { v = f.s.real(); });
	vp_assert(r == -1, "a decimal number is accepted");
	Real w = (Real)m, ten = 1; for (int i = 0; i < (pw[a] < 0 ? -pw[a] : pw[a]); i++) ten *= 10;
	w = pw[a] < 0 ? w / ten : w * ten; if (t[0] == '-') w = -w;
	vp_assert(v == w, "the value of the token");
	vp_reach("ok"); vp_obs(v > 0.5L);
}
// tokens for k/8, k = -8..7
static const char* TK[16] = {"-1.000", "-0.875", "-0.750", "-0.625", "-0.500", "-0.375", "-0.250", "-0.125", "+0.000", "+0.125", "+0.250", "+0.375", "+0.500", "+0.625", "+0.750", "+0.875"};
static std::string pick(Integer k) { std::string t(6, ' '); for (size_t j = 0; j < 6; j++) { Integer c = TK[0][j]; for (Integer i = 1; i < 16; i++) c = vp_ite(k == i, TK[i][j], c); t[j] = (char)c; } return t; }
VP_CASE(range) { // shard: tolerances
	Integer A = vp_arg() % 4, R = vp_arg() / 4; const Integer tol8[] = {0, 1, 2, 8};
	Integer ki = vp_range("v", 0, 15), lo = vp_range("lo", 0, 7), hi = vp_range("hi", 0, 7);
	std::string t = pick(ki); vp_assume(vp_or(t[0] == '-', true));
	Integer k = ki - 8, l = 3 * lo - 12, h = 3 * hi - 11; // units of 1/8
	Feed f(t, true, true, 43, tol8[A] / 8.0L, tol8[R] / 8.0L);
	Real v = 0; int r = attempt([&] { v = f.s.real(l / 8.0L, h / 8.0L); });
	auto near = [&](Integer x, Integer y) { Integer d = x - y; d = vp_ite(d < 0, -d, d); Integer ay = vp_ite(y < 0, -y, y); return vp_or(d <= tol8[A], vp_and(y != 0, 8 * d <= tol8[R] * ay)); };
	bool ok = vp_or(vp_or(near(k, l), near(k, h)), vp_and(l <= k, k < h));
	vp_assert((r == -1) == ok, "accepted exactly inside the interval or within the tolerance of a bound");
	if (r == -1) { vp_assert(v * 8 == (Real)k, "value"); vp_reach("ok"); } else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(decimals) {
	const char* form[] = {"7", "0.", "-d.d", "1d.dd", "0.ddd"};
	std::string t; Integer dec = 0, m = 0; bool dot = false; int a = (int)vp_arg();
	for (const char* p = form[a]; *p; p++) { char c = *p == 'd' ? (char)('0' + vp_range("d", 0, 9)) : *p; t += c; if (dot) dec++; if (c == '.' && *p == '.') dot = true; }
	(void)m;
	Integer lo = vp_i64("min"), hi = vp_i64("max");
	Feed f(t, true, true, 43); int r = attempt([&] { f.s.realStrict(-100, 100, lo, hi); });
	vp_assert((r == -1) == vp_and(lo <= dec, dec < hi), "number of decimals in the half-open interval");
	if (r == -1) vp_reach("ok"); else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(sbound) { // arbitrary bounds, no tolerance
	const char* tok[] = {"0.125", "-3.0"}; Real w = vp_arg() ? -3 : 0.125L;
	Real lo = vp_ld("lo"), hi = vp_ld("hi"); vp_assume(lo == lo); vp_assume(hi == hi);
	Feed f(tok[vp_arg()], true, true, 43, 1, 1); Real v = 0; int r = attempt([&] { v = f.s.realStrict(lo, hi, 0, 5); });
	vp_assert((r == -1) == vp_and(lo <= w, w < hi), "accepted exactly inside the half-open interval");
	if (r == -1) { vp_assert(v == w, "value"); vp_reach("ok"); } else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(overflow) { // numbers beyond the range of the type are no values
	std::string t = "1e"; t += (char)('5' + vp_range("d", 1, 4)); t += "000"; if (vp_flag("neg")) t[1] = 'E', t = "-" + t;
	Feed f(t, true, true, 43); int r = attempt([&] { f.s.real(); });
	vp_assert(r == 43, "a number outside the range of reals is rejected"); vp_reach("bad"); vp_obs(r);
}
