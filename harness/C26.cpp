//@ stub randstub.cpp
//@ oracle distinct: different draws give different results and there are n(n-1)...(n-k+1) sequences of draws; multiple: one unbounded draw per element in order; the ordered variants: the sorted result of distinct or multiple for the same draws
//@ bounds up to 3 elements (thorough 4); ranges of at most 5 values around 0 and at both ends of the 64-bit range for the distribution, every pair of 64-bit bounds for range, order and distinctness; every sequence of draws
//@ outside longer sequences
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range
//@ case distinct quick=0-2 thorough=0-4 reach=done
//@ case uniform quick=0-8 thorough=0-14 reach=done
//@ case multiple quick=0-3 thorough=0-4 reach=done
//@ case ordered quick=0-3 thorough=0-3 reach=done
//@ case small quick=0-3 reach=done
//@ case reject reach=threw
#include "common.h"
#include "draws.h"
using V = std::vector<Integer>;
static Integer prod() { Integer p = 1; for (int i = 0; i < vp_draws.have; i++) p *= vp_conc(vp_draws.hi[i] - vp_draws.lo[i]); return p; }
static bool same(const V& a, const V& b) { bool r = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); i++) r = vp_and(r, a[i] == b[i]); return r; }
static void inside(const V& r, Integer n, Integer l, Integer u) { vp_assert((Integer)r.size() == n, "number of elements"); for (Integer x : r) vp_assert(vp_and(l <= x, x < u), "elements lie in [lower, upper)"); }
static void different(const V& r) { for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) vp_assert(r[i] != r[j], "elements are different"); }
static bool fits(Integer l, Integer u, Integer n) { return vp_and(l <= u, (std::uint64_t)u - (std::uint64_t)l >= (std::uint64_t)n); }
VP_CASE(distinct) {
	Integer n = vp_arg(), l = vp_i64("lower"), u = vp_i64("upper"); vp_assume(fits(l, u, n)); vp_draws.record(); V r = vp_flag("zero") && (vp_assume(l == 0), true) ? Random::distinct(n, u) : Random::distinct(n, l, u);
	inside(r, n, l, u); different(r); vp_reach("done"); vp_obs(n);
}
static const int shape[][2] = {{1, 1}, {1, 4}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {3, 3}, {3, 4}, {0, 2}, {3, 5}, {4, 4}, {4, 5}, {4, 6}, {3, 6}, {3, 7}};
VP_CASE(uniform) {
	Integer n = shape[vp_arg()][0], w = shape[vp_arg()][1], f = 1, MX = std::numeric_limits<Integer>::max(); const Integer ls[] = {-1, -MX - 1, MX - w}; Integer l = ls[n < 3 ? vp_choose("l", 0, 2) : 0]; V r[2], v[2]; for (Integer i = 0; i < n; i++) f *= w - i;
	for (int k = 0; k < 2; k++) { vp_draws.record(); r[k] = Random::distinct(n, l, l + w); inside(r[k], n, l, l + w); different(r[k]); vp_assert(prod() == f, "as many outcomes as results"); v[k].assign(vp_draws.v, vp_draws.v + vp_draws.have); }
	vp_assert(vp_or(!same(r[0], r[1]), same(v[0], v[1])), "every result is equally likely"); vp_reach("done"); vp_obs(n);
}
VP_CASE(multiple) {
	Integer n = vp_arg(), l = vp_i64("lower"), u = vp_i64("upper"); vp_assume(l < u); vp_draws.record(); V r = vp_flag("zero") && (vp_assume(l == 0), true) ? Random::multiple(n, u) : Random::multiple(n, l, u); inside(r, n, l, u);
	vp_draws.again(); for (Integer i = 0; i < n; i++) vp_assert(r[(size_t)i] == Random::integer(l, u), "the same as calling integer repeatedly"); vp_assert(vp_draws.same, "the same draws"); vp_assert(vp_draws.have == n, "one draw per element"); vp_reach("done"); vp_obs(n);
}
static void order(Integer n, Integer l, Integer u, bool zero) {
	int k = (int)vp_arg(); vp_draws.record(); V r;
	if (k == 0) r = zero ? Random::increasing(n, u) : Random::increasing(n, l, u); if (k == 1) r = zero ? Random::decreasing(n, u) : Random::decreasing(n, l, u); if (k == 2) r = zero ? Random::nonDecreasing(n, u) : Random::nonDecreasing(n, l, u); if (k == 3) r = zero ? Random::nonIncreasing(n, u) : Random::nonIncreasing(n, l, u);
	inside(r, n, l, u); for (size_t i = 1; i < r.size(); i++) vp_assert(k == 0 ? r[i - 1] < r[i] : k == 1 ? r[i - 1] > r[i] : k == 2 ? r[i - 1] <= r[i] : r[i - 1] >= r[i], "the order of the sequence");
	vp_draws.again(); V s = k < 2 ? Random::distinct(n, l, u) : Random::multiple(n, l, u); vp_assert(vp_draws.same, "the same draws");
	for (Integer x : s) { int a = 0, b = 0; for (Integer y : s) a += x == y; for (Integer y : r) b += x == y; vp_assert(a == b, "the sorted result of the unordered draw"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(ordered) { Integer n = vp_choose("n", 0, 2), l = vp_i64("lower"), u = vp_i64("upper"); vp_assume(l < u); if (vp_arg() < 2) vp_assume(fits(l, u, n)); order(n, l, u, false); }
VP_CASE(small) { Integer n = vp_choose("n", 0, 3), l = vp_choose("l", -1, 0), u = vp_choose("u", 1, 4); if (vp_arg() < 2) vp_assume(u - l >= n); order(n, l, u, l == 0); }
VP_CASE(reject) {
	int k = (int)vp_choose("k", 0, 2); Integer l = vp_i64("lower"), u = vp_i64("upper"), n = k == 0 ? vp_i64("n") : vp_choose("n", 1, 4); bool t = false; int f = (int)vp_choose("f", 0, k == 0 ? 2 : 4);
	if (k == 0) vp_assume(n < 0); if (k == 1) vp_assume(l >= u); if (k == 2) { vp_assume(f < 3); vp_assume(l < u); vp_assume(!fits(l, u, n)); }
	vp_draws.reject("negative counts, empty ranges and ranges with too few values are rejected"); try { if (f == 0) Random::distinct(n, l, u); if (f == 1) Random::increasing(n, l, u); if (f == 2) Random::decreasing(n, l, u); if (f == 3) Random::nonDecreasing(n, l, u); if (f == 4) Random::multiple(n, l, u); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t, "negative counts, empty ranges and ranges with too few values are rejected"); vp_reach("threw"); vp_obs(t);
}
