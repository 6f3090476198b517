//@ oracle multiset equality by counting; the documented witness (duplicate or out-of-range element; an element of the first range whose counts differ)
//@ bounds up to 5 arbitrary 64-bit elements and every 64-bit offset for permutations of a range; two sequences of up to 4+4 arbitrary elements
//@ outside longer sequences; element types other than 64-bit and 8-bit integers
//@ case perm quick=0-4 thorough=0-5 reach=yes,no
//@ case permsmall quick=0-4 reach=yes,no
//@ case two quick=0-4 reach=yes,no
#include "common.h"
VP_CASE(perm) {
	Integer n = vp_arg();
	std::vector<Integer> v; for (Integer i = 0; i < n; i++) v.push_back(vp_i64("v"));
	Integer off = vp_flag("off") ? vp_i64("o") : 0;
	vp_assume(off <= std::numeric_limits<Integer>::max() - n); // the range [off, off + n) exists
	auto b = vp_flag("range") ? isPerm(v.begin(), v.end(), off) : isPerm(v, off);
	bool ok = true;
	for (Integer i = 0; i < n; i++) { bool f = false; for (Integer x : v) f = vp_or(f, x == off + i); ok = vp_and(ok, f); }
	vp_obs((bool)b);
	vp_assert((bool)b == ok, "isPerm of a range");
	if (!b) {
		vp_assert(b.hasReason(), "a witness is given");
		Integer x = *b.reason, c = 0;
		for (Integer y : v) c += vp_ite(x == y, 1, 0);
		vp_assert(c >= 1, "the witness is an element");
		vp_assert(vp_or(c >= 2, vp_or(x < off, x >= off + n)), "the witness is a duplicate or outside the range");
		vp_reach("no");
	} else vp_reach("yes");
	if (n == 0) vp_reach("no");
}
VP_CASE(permsmall) { // narrow element type
	Integer n = vp_arg();
	std::vector<signed char> v; for (Integer i = 0; i < n; i++) v.push_back((signed char)vp_bits("v", 8));
	auto b = isPerm(v, (signed char)-2);
	bool ok = true;
	for (Integer i = 0; i < n; i++) { bool f = false; for (auto x : v) f = vp_or(f, x == i - 2); ok = vp_and(ok, f); }
	vp_assert((bool)b == ok, "isPerm of a range of small integers");
	vp_obs((bool)b);
	vp_reach(b ? "yes" : "no");
	if (n == 0) vp_reach("no");
}
VP_CASE(two) {
	Integer n = vp_arg(), m = n < 4 ? vp_choose("m", n > 0 ? n - 1 : 0, n + 1) : n;
	if (n == 4) vp_limit(true);
	std::vector<Integer> a, b;
	for (Integer i = 0; i < n; i++) a.push_back(vp_i64("a"));
	for (Integer i = 0; i < m; i++) b.push_back(vp_i64("b"));
	if (n == 4) { vp_limit(a[0] < a[1] && a[1] <= a[2]); vp_limit(b[0] <= b[1]); } // order of the inputs is irrelevant beyond this
	auto r = vp_flag("range") ? isPerm(a.begin(), a.end(), b.begin(), b.end()) : isPerm(a, b);
	bool ok = n == m;
	auto cnt = [](const std::vector<Integer>& v, Integer x) { Integer c = 0; for (Integer y : v) c += vp_ite(x == y, 1, 0); return c; };
	if (ok) for (Integer x : a) ok = vp_and(ok, cnt(a, x) == cnt(b, x));
	vp_obs((bool)r);
	vp_assert((bool)r == ok, "isPerm of two sequences");
	if (!r) {
		if (n == m) { vp_assert(r.hasReason(), "a witness is given"); vp_assert(cnt(a, *r.reason) >= 1, "the witness is an element of the first sequence"); }
		vp_reach("no");
	} else vp_reach("yes");
}
