// Stand-ins for transcendental functions which are functions of their argument: values chosen by the harness for the arguments it names, exact values for concrete others.
#include "vp.h"
struct MathTab { static inline int n = 0; static inline long double x[16], y[16]; };
long double vp_math_x[16], vp_math_y[16]; int vp_math_n = 0; long double vp_math_c = 1, vp_math_s = 1;
static long double ln(long double x) { // concrete arguments
	int e = 0; while (x >= 1.5L) x /= 2, e++; while (x < 0.75L) x *= 2, e--;
	long double t = (x - 1) / (x + 1), p = t, r = 0; for (int i = 1; i < 70; i += 2, p *= t * t) r += p / i;
	return 2 * r + e * 0.6931471805599453094172321214581765680755L;
}
extern "C" {
	long double logl(long double x) { vp_stub("logl: chosen by the harness for the random arguments, series for others"); for (int i = 0; i < vp_math_n; i++) if (vp_math_x[i] == x) return vp_math_y[i]; return ln(x); }
	long double log1pl(long double x) { vp_stub("log1pl: series"); return x > -1e-9L && x < 1e-9L ? x - x * x / 2 : ln(1 + x); }
	long double log2l(long double x) { vp_stub("log2l: as logl"); for (int i = 0; i < vp_math_n; i++) if (vp_math_x[i] == x) return vp_math_y[i]; return ln(x) / 0.6931471805599453094172321214581765680755L; }
	long double exp2l(long double x) { vp_stub("exp2l: exact for integers, else 1"); if (x < -62 || x > 0 || (long long)x != x) return 1; long double r = 1; for (long long i = (long long)x; i < 0; i++) r /= 2; return r; }
	long double cosl(long double) { vp_stub("cosl: a value chosen by the harness"); return vp_math_c; }
	long double sinl(long double) { vp_stub("sinl: a value chosen by the harness"); return vp_math_s; }
	long double lgammal(long double x) { vp_stub("lgammal: sum of logarithms"); long double r = 0; for (int i = 2; i < x; i++) r += ln(i); return r; }
}
