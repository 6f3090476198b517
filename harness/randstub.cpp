// Stand-in for the bounded integer draw of Random: an arbitrary value of the requested range (its contract is
// discharged by the property on Random::integer itself). Draws can be recorded and replayed.
//@weaken _ZN6Random7integerEll
#include "draws.h"
#include "vp.h"
#include <stdexcept>
Draws vp_draws;
namespace Random {
	std::int64_t integer(std::int64_t lower, std::int64_t upper) {
		vp_stub("Random::integer(lower, upper): arbitrary value in [lower, upper), std::invalid_argument if empty");
		if (!(lower < upper)) throw std::invalid_argument("Random::integer(): Lower must be less than upper!");
		Draws& d = vp_draws; int i = d.n;
		if (d.limit && i >= d.limit) { if (d.must) vp_assert(false, d.must); if (!d.quiet) vp_limit(false); throw DrawLimit(); }
		d.n++;
		if (d.replay && i < d.have) { d.same = vp_and(d.same, vp_and(d.lo[i] == lower, d.hi[i] == upper)); return d.v[i]; }
		std::int64_t a = lower, b = upper - 1; int w = d.wfrom >= 0 ? d.wfrom : d.conc;
		if (i >= w && d.window > 0 && (std::uint64_t)b - (std::uint64_t)a >= (std::uint64_t)d.window) a = b - d.window + 1;
		if (i >= w && d.window < 0 && (std::uint64_t)b - (std::uint64_t)a >= (std::uint64_t)-d.window) b = a - d.window - 1;
		std::int64_t x = vp_range("draw", a, b); if (i < d.conc) x = vp_conc(x);
		if (i < Draws::N) { d.lo[i] = lower; d.hi[i] = upper; d.v[i] = x; d.have = i + 1; }
		return x;
	}
}
