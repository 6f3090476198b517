//@ oracle element-wise definition of every ordering/adjacency/distinctness predicate and its documented witness
//@ bounds sequences of 0..6 arbitrary 64-bit integers (sorting based checks: 0..5); 0..3 arbitrary long doubles; up to 3 strings of up to 2 characters; predicates <, ==, != as samples of arbitrary binary predicates
//@ outside longer sequences; element types other than integers, reals (including NaN and infinities), strings and characters
//@ case orders quick=0-6 thorough=0-9 reach=yes,no
//@ case adjacent quick=0-5 thorough=0-7 reach=yes,no
//@ case distinct quick=0-5 reach=yes,no
//@ case chars quick=2-5 reach=yes,no
//@ case reals quick=0-3 reach=yes,no
//@ case strings quick=1-3 reach=yes,no
#include "common.h"
template<typename R> static bool firstBad(const std::vector<Integer>& v, R ok, Integer& pos) {
	for (size_t i = 1; i < v.size(); i++) if (!ok(v[i - 1], v[i])) { pos = (Integer)i; return false; }
	return true;
}
template<typename R> static void check(const boolean<Integer>& b, const std::vector<Integer>& v, R ok, const char* l) {
	Integer pos = -1;
	bool good = firstBad(v, ok, pos);
	vp_assert((bool)b == good, l);
	if (!good) { vp_assert(b.hasReason() && *b.reason == pos, "the witness is the length of the longest valid prefix"); vp_reach("no"); }
	else vp_reach("yes");
	vp_obs((bool)b); vp_obs(pos);
}
VP_CASE(orders) {
	std::vector<Integer> v; for (Integer i = 0, n = vp_arg(); i < n; i++) v.push_back(vp_i64("v"));
	Integer k = vp_choose("k", 0, 7);
	auto lt = [](Integer a, Integer b) { return a < b; }; auto le = [](Integer a, Integer b) { return a <= b; };
	auto gt = [](Integer a, Integer b) { return a > b; }; auto ge = [](Integer a, Integer b) { return a >= b; };
	if (k == 0) check(areIncreasing(v), v, lt, "areIncreasing");
	if (k == 1) check(areNonDecreasing(v), v, le, "areNonDecreasing");
	if (k == 2) check(areDecreasing(v), v, gt, "areDecreasing");
	if (k == 3) check(areNonIncreasing(v), v, ge, "areNonIncreasing");
	if (k == 4) check(areIncreasing(v.begin(), v.end()), v, lt, "areIncreasing(range)");
	if (k == 5) check(areNonDecreasing(v.begin(), v.end()), v, le, "areNonDecreasing(range)");
	if (k == 6) check(areDecreasing(v.begin(), v.end()), v, gt, "areDecreasing(range)");
	if (k == 7) check(areNonIncreasing(v.begin(), v.end()), v, ge, "areNonIncreasing(range)");
	if (v.size() < 2) vp_reach("no");
}
VP_CASE(adjacent) {
	std::vector<Integer> v; for (Integer i = 0, n = vp_arg(); i < n; i++) v.push_back(vp_i64("v"));
	Integer p = vp_choose("p", 0, 2), k = vp_choose("k", 0, 5);
	auto pred = [p](Integer a, Integer b) { return p == 0 ? a == b : p == 1 ? a < b : a != b; };
	auto neg = [&](Integer a, Integer b) { return !pred(a, b); };
	Integer pos = -1;
	if (k == 0 || k == 1) {
		auto b = k ? anyAdjacent(v.begin(), v.end(), pred) : anyAdjacent(v, pred);
		bool any = !firstBad(v, neg, pos);
		vp_assert((bool)b == any, "anyAdjacent");
		if (any) vp_assert(b.hasReason() && *b.reason == pos, "the witness is the first position");
		vp_obs((bool)b);
		vp_reach(any ? "yes" : "no");
	}
	if (k == 2) check(noneAdjacent(v, pred), v, neg, "noneAdjacent");
	if (k == 3) check(noneAdjacent(v.begin(), v.end(), pred), v, neg, "noneAdjacent(range)");
	if (k == 4) check(allAdjacent(v, pred), v, pred, "allAdjacent");
	if (k == 5) check(allAdjacent(v.begin(), v.end(), pred), v, pred, "allAdjacent(range)");
	if (v.size() < 2) { vp_reach("no"); vp_reach("yes"); }
}
VP_CASE(distinct) {
	std::vector<Integer> v; for (Integer i = 0, n = vp_arg(); i < n; i++) v.push_back(vp_i64("v"));
	auto b = vp_flag("range") ? areDistinct(v.begin(), v.end()) : areDistinct(v);
	bool dup = false;
	for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) dup = vp_or(dup, v[i] == v[j]);
	vp_assert((bool)b == !dup, "areDistinct");
	if (!b) {
		vp_assert(b.hasReason(), "a duplicate is reported");
		Integer c = 0;
		for (Integer x : v) c += vp_ite(x == *b.reason, 1, 0);
		vp_assert(c >= 2, "the reported element occurs at least twice");
		vp_reach("no");
	} else vp_reach("yes");
	vp_obs((bool)b);
	if (v.size() < 2) vp_reach("no");
}
VP_CASE(chars) { // another element type and container
	std::string s = vp_string("c", (int)vp_arg());
	auto b = areNonDecreasing(s);
	bool ok = true; Integer pos = -1;
	for (size_t i = s.size() - 1; i >= 1; i--) if (!(s[i - 1] <= s[i])) { ok = false; pos = (Integer)i; }
	vp_assert((bool)b == ok, "areNonDecreasing on characters");
	if (!ok) { vp_assert(*b.reason == pos, "the witness is the length of the longest valid prefix"); vp_reach("no"); } else vp_reach("yes");
	vp_obs((bool)b);
}
VP_CASE(reals) { // a real may be incomparable to its neighbour
	int n = (int)vp_arg(), k = (int)vp_choose("k", 0, 3); std::vector<Real> v; static const char* const nm[] = {"x0", "x1", "x2"}; for (int i = 0; i < n; i++) v.push_back(vp_ld(nm[i]));
	boolean<Integer> b = k == 0 ? areIncreasing(v) : k == 1 ? areNonDecreasing(v) : k == 2 ? areDecreasing(v) : areNonIncreasing(v); bool good = true; Integer pos = 0;
	for (int i = n - 1; i >= 1; i--) { Real x = v[(size_t)i - 1], y = v[(size_t)i]; if (!(k == 0 ? x < y : k == 1 ? x <= y : k == 2 ? x > y : x >= y)) { good = false; pos = i; } }
	vp_assert((bool)b == good, "the order of reals"); if (!good) vp_assert(b.hasReason() && *b.reason == pos, "the witness is the length of the longest valid prefix"); vp_reach(good ? "yes" : "no"); if (n < 2) vp_reach("no"); vp_obs((bool)b);
}
VP_CASE(strings) {
	int n = (int)vp_arg(); std::vector<std::string> v; static const char* const nm[] = {"s0", "s1", "s2"}; for (int i = 0; i < n; i++) { int l = (int)vp_choose("length", 0, n == 3 ? 1 : 2); v.push_back(vp_string(nm[i], l)); }
	bool inc = true, dis = true; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { int c = v[(size_t)j].compare(v[(size_t)i]); if (c == 0) dis = false; if (j == i - 1 && c >= 0) inc = false; }
	vp_assert((bool)areIncreasing(v) == inc, "areIncreasing on strings"); auto b = areDistinct(v); vp_assert((bool)b == dis, "areDistinct on strings"); if (!dis) { int c = 0; for (auto& x : v) c += x == *b.reason; vp_assert(c >= 2, "the reported element occurs at least twice"); } vp_reach(dis ? "yes" : "no"); if (n < 2) vp_reach("no"); vp_obs(dis);
}
