//@ oracle the closed form of range (from + i*step while before the bound), the recursive definition of Thue-Morse, concatenation for append/flatten
//@ bounds range: up to 5 elements, start and step in windows of 8 around 0/1, 2^31, 2^32, 2^61/2^62 and the int64 extremes, both directions, bound 1, half a step or a whole step behind the last element; empty ranges: every 64-bit start, bound and step; thueMorse: up to 5 elements from starts in windows of 16 around 9 positions up to 2^63-1; append/flatten: up to 3 parts of up to 3 elements
//@ outside longer sequences
//@ case range quick=0-2 reach=one,many
//@ case rangeextreme reach=many
//@ case empty reach=empty
//@ case zero reach=threw
//@ case thue quick=1-5 reach=done
//@ case thuebad reach=threw
//@ case append quick=0-3 reach=self,other
//@ case flatten quick=0-2 reach=done
//@ case containers reach=done
#include "common.h"
static const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
using i128 = __int128;
VP_CASE(range) { // exactly n elements: the bound lies behind the last one, at most one step away
	const Integer n = vp_choose("n", 1, 5), a = vp_arg();
	const Integer fb[] = {-4, MN, MX - 7, 1ll << 31, -(1ll << 62) - 3}, sb[] = {1, (1ll << 31) - 3, (1ll << 32) - 5, (1ll << 61) - 4, MX - 7};
	Integer from = fb[vp_choose("fb", 0, 4)] + vp_range("from", 0, 7), step = a == 0 ? 1 : sb[vp_choose("sb", 0, 4)] + vp_range("step", 0, 7);
	Integer dk = vp_range("d", 0, 3), d = vp_ite(dk == 0, 1, vp_ite(dk == 1, step, vp_ite(dk == 2, step / 2 + 1, vp_ite(step > 1, step - 1, 1))));
	if (a == 2) step = -step;
	std::uint64_t us = (std::uint64_t)step, ul = (std::uint64_t)from + (std::uint64_t)(n - 1) * us;
	Integer last = (Integer)ul, to = (Integer)(step > 0 ? ul + (std::uint64_t)d : ul - (std::uint64_t)d);
	// representable
	const Integer mag = step > 0 ? step : -step;
	std::uint64_t room = step > 0 ? (std::uint64_t)MX - (std::uint64_t)from : (std::uint64_t)from - (std::uint64_t)MN;
	i128 need = (i128)(n - 1) * mag + d;
	vp_assume(need <= (i128)room);
	auto r = a == 0 && vp_flag("nostep") ? range(from, to) : range(from, to, step);
	vp_assert((Integer)r.size() == n, "number of elements");
	for (Integer i = 0; i < n; i++) vp_assert(r[(size_t)i] == (Integer)((std::uint64_t)from + (std::uint64_t)i * us), "element from + i*step");
	(void)last;
	vp_obs((Integer)r.size());
	vp_reach(n == 1 ? "one" : "many");
}
VP_CASE(rangeextreme) {
	Integer k = vp_choose("k", 0, 5);
	std::vector<Integer> r, w;
	if (k == 0) { r = range(MN, MX, MX); w = {MN, -1, MX - 1}; }
	if (k == 1) { r = range(MX, MN, -MX); w = {MX, 0, -MX}; }
	if (k == 2) { r = range(MX, MN, MN); w = {MX, -1}; }
	if (k == 3) { r = range(MX - 1, MX); w = {MX - 1}; }
	if (k == 4) { r = range(MN, MN + 2); w = {MN, MN + 1}; }
	if (k == 5) { r = range(MN, MX, 1ll << 62); w = {MN, -(1ll << 62), 0, 1ll << 62}; }
	vp_assert(r == w, "range at the extremes");
	vp_obs((Integer)r.size()); vp_reach("many");
}
VP_CASE(empty) {
	Integer from = vp_i64("from"), to = vp_i64("to"), step = vp_i64("step");
	vp_assume(step != 0);
	vp_assume(step > 0 ? to <= from : from <= to);
	vp_assert(range(from, to, step).empty(), "no element before the bound");
	vp_reach("empty"); vp_obs(0);
}
VP_CASE(zero) {
	Integer from = vp_i64("from"), to = vp_i64("to");
	bool t = false;
	try { range(from, to, 0); } catch (std::domain_error&) { t = true; }
	vp_assert(t, "step 0 is rejected");
	vp_reach("threw"); vp_obs(t);
}
static Integer parity(std::uint64_t x) { x ^= x >> 32; x ^= x >> 16; x ^= x >> 8; x ^= x >> 4; x ^= x >> 2; x ^= x >> 1; return (Integer)(x & 1); }
VP_CASE(thue) {
	const Integer bs[] = {0, 16, 100, 1000, (1ll << 31) - 8, (1ll << 32) - 8, (1ll << 62) - 8, MX - 31, 0x5555555555555555};
	Integer n = vp_arg(), lo = bs[vp_choose("b", 0, 8)] + vp_range("lo", 0, 15);
	auto r = thueMorse(lo, lo + n);
	vp_assert((Integer)r.size() == n, "length");
	for (Integer i = 0; i < n; i++) vp_assert(r[(size_t)i] == parity((std::uint64_t)(lo + i)), "element is the parity of its index");
	auto q = thueMorse(n);
	vp_assert((Integer)q.size() == n, "length of the prefix");
	for (Integer i = 0; i < n; i++) vp_assert(q[(size_t)i] == parity((std::uint64_t)i), "prefix element");
	vp_obs(r[0]); vp_reach("done");
}
VP_CASE(thuebad) {
	Integer lo = vp_i64("lo"), hi = vp_i64("hi");
	vp_assume(vp_or(lo < 0, lo >= hi));
	bool t = false;
	try { thueMorse(lo, hi); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t, "negative or empty range is rejected"); vp_reach("threw"); vp_obs(t);
}
VP_CASE(append) {
	Integer n = vp_arg(), m = vp_choose("m", 0, 3), k = vp_choose("kind", 0, 3);
	std::vector<Integer> a, b; for (Integer i = 0; i < n; i++) a.push_back(vp_i64("a")); for (Integer i = 0; i < m; i++) b.push_back(vp_i64("b"));
	std::vector<Integer> w = a, got = a;
	if (k == 0) { append(got, b); w.insert(w.end(), b.begin(), b.end()); vp_reach("other"); }
	if (k == 1) { append(got, got); w.insert(w.end(), a.begin(), a.end()); vp_reach("self"); }
	if (k == 2) { Integer c[3] = {n, m, 7}; append(got, c); w.push_back(n); w.push_back(m); w.push_back(7); }
	if (k == 3) { std::deque<Integer> d(a.begin(), a.end()); append(d, b); w.insert(w.end(), b.begin(), b.end()); got.assign(d.begin(), d.end()); }
	vp_assert(got.size() == w.size(), "length");
	for (size_t i = 0; i < w.size(); i++) vp_assert(got[i] == w[i], "element");
	vp_obs((Integer)got.size());
}
VP_CASE(flatten) {
	Integer outer = vp_arg() + 1;
	std::vector<std::vector<Integer>> v; std::vector<Integer> w;
	for (Integer i = 0; i < outer; i++) { v.emplace_back(); Integer m = vp_choose("m", 0, 2); for (Integer j = 0; j < m; j++) { Integer x = vp_i64("x"); v.back().push_back(x); w.push_back(x); } }
	auto eq = [&](const std::vector<Integer>& g) { vp_assert(g.size() == w.size(), "length"); for (size_t i = 0; i < w.size(); i++) vp_assert(g[i] == w[i], "element"); };
	eq(flatten(v));
	eq(flatten<Integer>(v));
	std::vector<std::vector<std::vector<Integer>>> u{v, {}, v};
	auto g = flatten(u);
	vp_assert(g.size() == 2 * w.size(), "nested length");
	for (size_t i = 0; i < g.size(); i++) vp_assert(g[i] == w[i % w.size()], "nested element");
	auto h = flatten<std::vector<Integer>>(u);
	vp_assert((Integer)h.size() == 2 * outer, "one level only");
	eq(flatten(std::move(v)));
	vp_obs((Integer)w.size()); vp_reach("done");
}
VP_CASE(containers) {
	std::vector<Integer> v{vp_i64("a"), vp_i64("b"), vp_i64("c")};
	auto f = asFunction(v); auto g = asFunction({v[2], v[0]}); auto h = asFunction(std::vector<Integer>(v));
	vp_assert(vp_and(f(1) == v[1], vp_and(g(0) == v[2], h(2) == v[2])), "containers as functions");
	std::vector<Integer> s{1, 2}, t{1};
	vp_assert(shorter{}(t, s) && !shorter{}(s, t) && !shorter{}(s, s) && longer{}(s, t) && !longer{}(t, s) && !longer{}(t, t), "length comparators");
	Integer a = vp_i64("x"), b = vp_i64("y");
	vp_assume(vp_and(a > MN / 2, a < MX / 2)); vp_assume(vp_and(b > MN / 2, b < MX / 2));
	vp_assert(dist(a, b) == vp_ite(a < b, b - a, a - b), "dist");
	vp_assert(sign(a) == vp_ite(a > 0, 1, vp_ite(a < 0, -1, 0)), "sign");
	MinPQ<Integer> mn; MaxPQ<Integer> mx;
	for (Integer x : v) { mn.push(x); mx.push(x); }
	for (Integer x : v) vp_assert(vp_and(mn.top() <= x, mx.top() >= x), "priority queues");
	std::set<Integer> S{v[0], v[1]};
	vp_assert(contains(S, v[2]) == vp_or(v[2] == v[0], v[2] == v[1]), "contains");
	vp_reach("done"); vp_obs(1);
}
