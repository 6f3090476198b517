// as randstub.cpp, and the binomial distribution yields an arbitrary value of its range
//@weaken _ZN6Random7integerEll
//@weaken _ZN6Random8binomialEle
#include "randstub.cpp"
std::int64_t vp_binomial_n = -1; long double vp_binomial_p = -1;
namespace Random {
	std::int64_t binomial(std::int64_t n, long double p) {
		vp_binomial_n = n; vp_binomial_p = p;
		vp_stub("Random::binomial(n, p): arbitrary value in [0, n]");
		return vp_choose("binomial", 0, n);
	}
}
