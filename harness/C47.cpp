//@ stub mathstub3.cpp
//@ oracle the textbook relations between the members of a family of distributions for the same draws: a standard normal variable is sqrt(-2 log U) times the cosine or sine of an angle (Box-Muller), a normal variable is mean plus standard deviation times a standard normal one, an exponential one 1/lambda times a standard exponential one, a geometric one is k exactly when (1-p)^(k+1) < U <= (1-p)^k, a binomial one counts the successes at geometric distances, success and failure are exchanged with p and 1-p, intervals take the first candidate inside, the maximum of n uniform variables is upper * U^(1/n)
//@ bounds standard deviations 0, 1/4, 1, 2, 9, 100, means 0, -3.5, 1000000; rates 1/4, 1, 2, 100; success probabilities 1/8, 1/2, 3/4; logarithms of the uniform draws -k/8 with k in 1..64, cosine and sine k/16; up to three candidates; 5 to 1000 variables for extremes
//@ assume logarithms and trigonometric values of the uniform draws are chosen by the harness for each draw, the others are exact
//@ case normal quick=0-5 reach=done
//@ case normalrange quick=0-2 reach=first,second
//@ case exponential quick=0-3 reach=done
//@ case exprange reach=first,second
//@ case geometric quick=0-2 reach=zero,more
//@ case georange reach=first,second
//@ case binomial quick=0-2 reach=done
//@ case mirror quick=0-1 reach=done
//@ case large reach=done
//@ case extreme quick=0-2 reach=done
#include "engine.h"
#include "common.h"
extern long double vp_math_x[16], vp_math_y[16], vp_math_c, vp_math_s; extern int vp_math_n;
static const Real sds[] = {0, 0.25L, 1, 2, 9, 100}, means[] = {0, -3.5L, 1e6L}, rates[] = {0.25L, 1, 2, 100}, probs[] = {0.125L, 0.5L, 0.75L};
static void draws(int n) { // n uniform reals
	AnyEngine::record(2 * n); for (int i = 0; i < n; i++) { AnyEngine::v[2 * i] = 0x8123456789ABCDEFull + 0x0765432100000000ull * i; AnyEngine::v[2 * i + 1] = 1; }
	AnyEngine::have = 2 * n; AnyEngine::again(); for (int i = 0; i < n; i++) vp_math_x[i] = Random::real(); AnyEngine::again();
}
static void logs(int n, int lo = 1, int hi = 64) { static const char* const nm[] = {"log0", "log1", "log2", "log3", "log4", "log5"}; for (int i = 0; i < n; i++) vp_math_y[i] = -(Real)vp_range(nm[i], lo, hi) / 8; vp_math_n = n; }
static void sq(int n) { static const char* const nm[] = {"r0", "r1", "r2"}; for (int i = 0; i < n; i++) { int k = (int)vp_choose(nm[i], 1, 5); vp_math_y[i] = -(Real)(k * k) / 2; } vp_math_n = n; }
static void trig() { vp_math_c = (Real)vp_range("cos", -16, 16) / 16; vp_math_s = (Real)vp_range("sin", -16, 16) / 16; }
static bool near(Real a, Real b) { Real d = a - b; return vp_and(d <= 1e-9L, d >= -1e-9L); }
static bool boxmuller(Real z, int n) { bool r = false; for (int i = 0; i < n; i++) { Real q = __builtin_sqrtl(-2 * vp_math_y[i]); r = vp_or(r, vp_or(near(z, q * vp_math_c), near(z, q * vp_math_s))); } return r; }
VP_CASE(normal) {
	draws(2); sq(2); trig(); Real s = sds[vp_arg()], m = means[vp_choose("m", 0, 2)]; Real z = Random::normal(0, 1); vp_assert(boxmuller(z, 2), "a standard normal variable is sqrt(-2 log U) times the cosine or sine of a uniform angle"); AnyEngine::again(); Real r = Random::normal(m, s);
	vp_assert(near(r, m + s * z), "a normal variable is the mean plus the standard deviation times a standard normal variable"); vp_reach("done"); vp_obs(0);
}
VP_CASE(normalrange) {
	draws(2); sq(1); trig(); Real s = sds[2 * vp_arg() + 1], m = means[vp_choose("m", 0, 1)], big = 1e30L; vp_math_n = 1; vp_math_x[1] = 0; Real z = Random::normal(-big, big, 0, 1); vp_assert(boxmuller(z, 1), "a standard normal variable is sqrt(-2 log U) times the cosine or sine of a uniform angle"); AnyEngine::again();
	vp_assert(near(Random::normal(-big, big, m, s), m + s * z), "a normal variable is the mean plus the standard deviation times a standard normal variable");
	Real lo = m - s, up = m + s; AnyEngine::again(); Real r = Random::normal(lo, up, m, s); vp_assert(vp_and(lo <= r, r < up), "the result lies in [lower, upper)");
	if (lo <= m + s * z && m + s * z < up) { vp_assert(near(r, m + s * z), "the first candidate inside is taken"); vp_reach("first"); } else vp_reach("second");
	vp_obs(0);
}
VP_CASE(exponential) {
	draws(1); logs(1); Real l = rates[vp_arg()]; Real z = Random::exponential(1); AnyEngine::again(); Real r = Random::exponential(l);
	vp_assert(z == -vp_math_y[0], "a standard exponential variable is -log(U)"); vp_assert(near(r * l, z), "the rate divides"); vp_reach("done"); vp_obs(0);
}
VP_CASE(exprange) {
	draws(3); logs(2); vp_math_x[2] = vp_math_x[2]; vp_math_y[2] = -1.0L / 64; vp_math_n = 3; Real l = rates[vp_choose("rate", 0, 2)], lo = vp_flag("neg") ? -3.5L : 1, up = lo + 1; Real r = Random::exponential(lo, up, l); int i = 0; while (i < 2 && !(-vp_math_y[i] / l < 1)) i++;
	vp_assert(near(r, lo - vp_math_y[i] / l), "the first candidate inside is taken"); vp_reach(i ? "second" : "first"); vp_obs(i);
}
static bool geo(Real u, Real p, Integer k) { Real q = p == 0.5L ? -0.693147180559945309417L : p == 0.125L ? -0.133531392624522623146L : -1.386294361119890618835L; return vp_and(u <= (Real)k * q + 1e-9L, u > (Real)(k + 1) * q - 1e-9L); }
VP_CASE(geometric) {
	draws(1); logs(1, 1, 40); Real p = probs[vp_arg()]; Integer r = Random::geometric(p); vp_assert(r >= 0, "never negative"); vp_assert(geo(vp_math_y[0], p, vp_conc(r)), "k failures with probability (1-p)^k * p"); vp_reach(r ? "more" : "zero"); vp_obs(r);
}
VP_CASE(georange) {
	draws(3); logs(2, 1, 20); vp_math_y[2] = -1.0L / 64; vp_math_n = 3; Real p = probs[vp_choose("p", 0, 1)]; Integer lo = vp_flag("neg") ? -5 : 1ll << 40; Integer r = vp_conc(Random::geometric(lo, lo + 3, p)) - lo; vp_assert(0 <= r && r < 3, "the result lies in [lower, upper)");
	int i = 0; Real q = p == 0.5L ? -0.693147180559945309417L : -0.133531392624522623146L; while (i < 2 && !(vp_math_y[i] > 3 * q)) i++;
	vp_assert(geo(vp_math_y[i], p, r), "the first candidate inside is taken"); vp_reach(i ? "second" : "first"); vp_obs(r);
}
VP_CASE(binomial) { // successes at geometric distances
	draws(6); logs(2, 1, 24); static const Real end[] = {-5.0L, -0.1L, -3.0L, -100.0L}; for (int i = 2; i < 6; i++) vp_math_y[i] = end[i - 2]; vp_math_n = 6; Real p = probs[vp_arg()], pp = p > 0.5L ? 1 - p : p, q = pp == 0.5L ? -0.693147180559945309417L : pp == 0.25L ? -0.287682072451780927439L : -0.133531392624522623146L; Integer n = vp_choose("n", 0, 9);
	Integer r = vp_conc(Random::binomial(n, p)), pos = 0, w = 0; for (int i = 0; i < 6; i++) { Integer k = 0; while (k <= n && vp_math_y[i] <= (Real)(k + 1) * q) k++; pos += k + 1; if (pos > n) break; w++; }
	if (p > 0.5L) w = n - w;
	vp_assert(r == w, "the successes among n trials"); vp_reach("done"); vp_obs(r);
}
VP_CASE(mirror) { // failures are binomial with the opposite probability
	draws(6); static const Real lg[] = {-0.3L, -0.7L, -0.01L, -2.5L, -0.2L, -90.0L}; for (int i = 0; i < 6; i++) vp_math_y[i] = lg[i]; Integer n = vp_arg() ? 1000 : vp_choose("n", 0, 12); vp_math_n = vp_arg() ? 0 : 6; Real p = vp_arg() ? 0.25L : 0.375L; 
	if (vp_arg()) for (int i = 0; i < 6; i++) { static const char* const nm[] = {"u0", "u1", "u2", "u3", "u4", "u5"}; AnyEngine::v[2 * i] = 1ull << 63 | (std::uint64_t)(i < 2 ? vp_choose(nm[i], 0, 15) : 5 + i) << 59 | 12345; }
	Integer a = Random::binomial(n, p); AnyEngine::again(); Integer b = Random::binomial(n, 1 - p); vp_assert(a + b == n, "successes and failures add up"); vp_reach("done"); vp_obs(a);
}
VP_CASE(large) { // the median draw gives the centre
	draws(2); vp_math_n = 0; AnyEngine::v[0] = 1ull << 63; AnyEngine::v[2] = 1ull << 63; AnyEngine::v[3] = 1ull << 10; static const Real ps[] = {0.5L, 0.25L, 0.75L, 0.0625L}; static const Integer ns[] = {400, 1000, 1000000007}; Real p = ps[vp_choose("p", 0, 3)]; Integer n = ns[vp_choose("n", 0, 2)];
	Integer r = Random::binomial(n, p); Real d = (Real)r - (Real)n * p; vp_assert(d <= 1 && d >= -1, "the centre of the distribution is n * p"); vp_reach("done"); vp_obs(r);
}
VP_CASE(extreme) { // U^(1/n)
	draws(1); static const Integer ns[] = {5, 8, 1000}; Integer n = ns[vp_arg()]; int k = (int)vp_choose("k", 0, 20); vp_math_y[0] = -(Real)(k * n); vp_math_n = 1; Integer lo = vp_flag("neg") ? -9 : 5, len = vp_flag("big") ? 1ll << 61 : 1 << 20, up = lo + len; 
	Integer w = lo + (len >> k); if (w >= up) w = up - 1; Integer r = Random::maximum(lo, up, n); vp_assert(r == w, "the maximum of n variables is U^(1/n) scaled"); AnyEngine::again(); vp_assert(Random::minimum(lo, up, n) == up - 1 - (w - lo), "the minimum mirrors the maximum"); vp_reach("done"); vp_obs(r);
}
