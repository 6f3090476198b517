//@ oracle pairwise edge test: non-neighbouring edges share no point, neighbouring edges share exactly their common vertex, no edge is degenerate
//@ bounds 0..4 vertices: triangles on a 4x4 grid, quadrilaterals on a 3x3 grid; pentagons on a small grid in the thorough tier
//@ outside polygons with more vertices
//@ case few quick=0-2 reach=no
//@ case simple quick=300,301,302,303,400,401,402 thorough=300,301,302,303,400,401,402,500,501,502 reach=yes,no
#include "common.h"
using Pt = std::pair<Integer, Integer>;
static Integer cr(const Pt& a, const Pt& b, const Pt& c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); }
static bool on(const Pt& a, const Pt& b, const Pt& c) { // c on segment ab, given collinear
	return vp_and((c.first - a.first) * (c.first - b.first) <= 0, (c.second - a.second) * (c.second - b.second) <= 0);
}
static bool meet(const Pt& a, const Pt& b, const Pt& c, const Pt& d) { // closed segments share a point
	Integer p = cr(a, b, c), q = cr(a, b, d), r = cr(c, d, a), s = cr(c, d, b);
	auto opp = [](Integer x, Integer y) { return vp_or(vp_and(x > 0, y < 0), vp_and(x < 0, y > 0)); };
	return vp_or(vp_and(opp(p, q), opp(r, s)), vp_or(vp_or(vp_and(p == 0, on(a, b, c)), vp_and(q == 0, on(a, b, d))), vp_or(vp_and(r == 0, on(c, d, a)), vp_and(s == 0, on(c, d, b)))));
}
static bool spec(const std::vector<Pt>& v) {
	size_t n = v.size(); bool ok = n >= 3;
	for (size_t i = 0; i < n && n >= 3; i++) {
		const Pt &a = v[i], &b = v[(i + 1) % n], &c = v[(i + 2) % n];
		ok = vp_and(ok, vp_or(a.first != b.first, a.second != b.second));
		// neighbours: no overlap beyond the common vertex
		Integer d = (b.first - a.first) * (c.first - b.first) + (b.second - a.second) * (c.second - b.second);
		ok = vp_and(ok, vp_or(cr(a, b, c) != 0, d > 0));
		for (size_t j = i + 2; j < n; j++) if ((j + 1) % n != i) ok = vp_and(ok, !meet(a, b, v[j], v[(j + 1) % n]));
	}
	return ok;
}
static void check(const std::vector<Pt>& v) {
	bool s = spec(v);
	bool r = v.size() & 1 ? isSimple(v.begin(), v.end()) : isSimple(v);
	vp_obs(r);
	vp_assert(r == s, "isSimple");
	vp_reach(r ? "yes" : "no");
}
VP_CASE(few) { std::vector<Pt> v; for (Integer i = 0; i < vp_arg(); i++) v.emplace_back(vp_range("x", -4, 3), vp_range("y", -4, 3)); check(v); }
VP_CASE(simple) { // order of the sweep events split by case, heights symbolic
	Integer n = vp_arg() / 100, first = vp_arg() % 100, m = n == 3 ? 3 : 2;
	std::vector<Pt> v;
	for (Integer i = 0; i < n; i++) {
		Integer x = i == 0 && first < 10 ? first : vp_choose("x", 0, m), y = n == 5 ? vp_range("y", 0, 1 + (i < 3 ? 1 : 0)) : vp_range("y", 0, n == 3 ? 3 : 2);
		v.emplace_back(x, y);
	}
	check(v);
}
