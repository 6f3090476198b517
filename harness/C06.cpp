//@ oracle exact integer arithmetic on a dyadic grid; the documented treatment of NaN and infinities
//@ bounds non-finite: every pair of long doubles of which at least one is not finite, every tolerance; identical values: every long double; finite: given and expected in multiples of 1/8 times 2^s (s in -16300, -60, 0, 60, 16300), tolerances 0, 2^-3..2^1 and huge; every negative or NaN tolerance
//@ outside finite values off the grid (the comparison rounds once in the difference and once in the quotient)
//@ case special reach=eq,ne
//@ case same reach=done
//@ case grid quick=0-4 reach=eq,ne
//@ case mixed quick=0-4 reach=eq,ne
//@ case bad reach=threw
//@ case strings quick=0-3 reach=eq,ne
#include "common.h"
using ValidateBase::floatEqual; using ValidateBase::floatLess; using ValidateBase::floatGreater;
static Real tol(const char* n) { Real t = vp_ld(n); vp_assume(t >= 0); return t; }
VP_CASE(special) {
	Real a = vp_ld("given"), b = vp_ld("expected"); const Real M = std::numeric_limits<Real>::max();
	bool fa = vp_and(a <= M, a >= -M), fb = vp_and(b <= M, b >= -M); vp_assume(!vp_and(fa, fb));
	Real at = tol("abs"), rt = tol("rel");
	bool r = floatEqual(a, b, at, rt), nn = vp_and(a != a, b != b);
	vp_assert(r == vp_or(nn, vp_and(!fa, a == b)), "not finite: equal exactly for two NaNs or the same infinity");
	vp_assert(floatLess(a, b, at, rt) == vp_or(nn, a <= b), "less or equal"); vp_assert(floatGreater(a, b, at, rt) == vp_or(nn, a >= b), "greater or equal");
	vp_obs(r); vp_reach(r ? "eq" : "ne");
}
VP_CASE(same) {
	Real a = vp_ld("a"); bool r = floatEqual(a, a, 0, 0); vp_assert(r, "every value equals itself with zero tolerance");
	vp_assert(vp_and(floatLess(a, a, 0, 0), floatGreater(a, a, 0, 0)), "and is neither less nor greater"); vp_reach("done"); vp_obs(r);
}
static Real scale(Real x, int s) { Real f = 1, b = s < 0 ? 0.5L : 2; for (int e = s < 0 ? -s : s; e; e >>= 1) { if (e & 1) f *= b; b *= b; } return x * f; }
static void spec(Integer x, Integer y, Integer a8, Integer r8, bool r, Real X, Real Y, Real A, Real R) {
	Integer d = x - y; d = vp_ite(d < 0, -d, d); Integer ay = vp_ite(y < 0, -y, y);
	bool ok = vp_or(d <= a8, vp_and(y != 0, 8 * d <= r8 * ay));
	vp_assert(r == ok, "equal exactly within the absolute or the relative tolerance");
	vp_assert(floatLess(X, Y, A, R) == vp_or(x <= y, ok), "less or equal within the tolerance"); vp_assert(floatGreater(X, Y, A, R) == vp_or(x >= y, ok), "greater or equal within the tolerance");
	vp_obs(r); vp_reach(r ? "eq" : "ne");
}
VP_CASE(grid) {
	const int sh[] = {0, -60, 60, -16300, 16300}; int s = sh[vp_arg()];
	Integer x = vp_range("x", 0, 15) - 8, y = vp_range("y", 0, 15) - 8, a8 = vp_choose("a", 0, 3), r8 = vp_choose("r", 0, 3);
	a8 = a8 == 3 ? 16 : a8 * a8; r8 = r8 == 3 ? 8 : r8; // 0, 1, 4, 16 and 0, 1, 2, 8 eighths
	Real X = scale(x / 8.0L, s), Y = scale(y / 8.0L, s), A = scale(a8 / 8.0L, s), R = r8 / 8.0L;
	spec(x, y, a8, r8, floatEqual(X, Y, A, R), X, Y, A, R);
}
VP_CASE(mixed) { // very different magnitudes
	const Real big[] = {1e18L, 1e-18L, std::numeric_limits<Real>::max(), std::numeric_limits<Real>::denorm_min(), 1.5L};
	Real b = big[vp_arg()]; Integer k = vp_range("k", 0, 7); Real x = b, y = -b; if (k & 1) std::swap(x, y);
	bool zero = vp_flag("zero"); if (zero) y = 0;
	Integer ai = vp_choose("a", 0, 3); Real A = ai == 0 ? 0 : ai == 1 ? b : ai == 2 ? b / 2 : 1e300L;
	Integer ri = vp_choose("r", 0, 2); Real R = ri == 0 ? 0 : ri == 1 ? 2 : 1;
	Real d = zero ? (x < 0 ? -x : x) : b + b; // exact or infinite
	bool ok = d <= A || (!zero && ri == 1 && d <= std::numeric_limits<Real>::max());
	vp_assert(floatEqual(x, y, A, R) == ok, "opposite or zero values of one magnitude");
	if (!zero && ri == 1) vp_reach("eq"); vp_reach(ok ? "eq" : "ne"); vp_obs(ok);
}
VP_CASE(bad) {
	Real t = vp_ld("t"), x = vp_ld("x"), y = vp_ld("y"); vp_assume(!(t >= 0)); bool which = vp_flag("which"), thr = false;
	try { floatEqual(x, y, which ? t : 0, which ? 0 : t); } catch (std::domain_error&) { thr = true; }
	vp_assert(thr, "a negative or undefined tolerance is rejected"); vp_reach("threw"); vp_obs(thr);
}
VP_CASE(strings) {
	int n = (int)vp_arg(), m = (int)vp_choose("m", 0, 3); std::string a = vp_string("a", n), b = vp_string("b", m); bool cs = vp_flag("case");
	auto low = [](unsigned char c) { return (unsigned char)(c + 32 * (int)((unsigned char)(c - 'A') <= 25)); };
	bool eq = n == m; for (size_t i = 0; i < (size_t)n && i < (size_t)m; i++) eq = vp_and(eq, cs ? a[i] == b[i] : low((unsigned char)a[i]) == low((unsigned char)b[i]));
	bool r = bool(ValidateBase::stringEqual(a, b, cs)); vp_assert(r == eq, "string comparison"); vp_reach(r ? "eq" : "ne"); vp_obs(r);
}
