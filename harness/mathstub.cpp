// Stand-ins for transcendental functions: an arbitrary value out of a table of representative ones within the range of the function.
#include "vp.h"
static long double pick(const long double* t, int n) { return t[vp_choose("math", 0, n - 1)]; }
extern "C" {
	long double logl(long double x) { vp_stub("logl: arbitrary out of 7 values in [-45, 0)"); static const long double t[] = {-0x1p-64L, -1e-9L, -0.125L, -0.693147180559945309417L, -1.0L, -7.5L, -45.0L}; (void)x; return pick(t, 7); }
	long double log1pl(long double x) { vp_stub("log1pl: series or arbitrary out of 2 values enclosing the exact one"); if (x > -1e-9L) return x; const long double t[] = {x - x * x, x * 1.125L - x * x / 2}; return pick(t, 2); }
	long double log2l(long double x) { vp_stub("log2l: arbitrary out of 3 values in [-64, 0)"); static const long double t[] = {-0x1p-64L, -1.5L, -64.0L}; (void)x; return pick(t, 3); }
	long double exp2l(long double x) { vp_stub("exp2l: arbitrary out of 5 values in [0, 1]"); static const long double t[] = {0x1p-64L, 0.25L, 0.7L, 1.0L - 0x1p-64L, 1.0L}; (void)x; return pick(t, 5); }
	long double cosl(long double x) { vp_stub("cosl: arbitrary out of 5 values in [-1, 1]"); static const long double t[] = {-1.0L, -0.3L, 0.0L, 0.6L, 1.0L}; (void)x; return pick(t, 5); }
	long double sinl(long double x) { vp_stub("sinl: arbitrary out of 5 values in [-1, 1]"); static const long double t[] = {-1.0L, -0.3L, 0.0L, 0.6L, 1.0L}; (void)x; return pick(t, 5); }
	long double lgammal(long double x) { vp_stub("lgammal: arbitrary out of 3 values"); static const long double t[] = {0.0L, 3.5L, 1e6L}; (void)x; return pick(t, 3); }
}
