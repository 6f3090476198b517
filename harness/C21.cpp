//@ oracle every other vertex lies left of or on every edge, vertices are distinct, the boundary never reverses, and the area is not zero
//@ bounds 0..5 vertices: coordinates in a 16x16 grid for triangles, 8x8 for quadrilaterals, 4x4 for pentagons; selected polygons translated and scaled to +-2^30
//@ outside polygons with more than 5 vertices (6 in the thorough tier, 3x3 grid)
//@ case few quick=0-2 reach=no
//@ case convex quick=3-5 thorough=3-6 reach=yes,no
//@ case scaled reach=yes,no
#include "common.h"
using Pt = std::pair<Integer, Integer>;
static Integer cr(const Pt& a, const Pt& b, const Pt& c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); }
static void spec(const std::vector<Pt>& v, bool& convex, bool& strict) {
	size_t n = v.size();
	convex = n >= 3; strict = true; bool area = false;
	for (size_t i = 0; i < n && n >= 3; i++) {
		const Pt &a = v[i], &b = v[(i + 1) % n], &c = v[(i + 2) % n];
		for (size_t j = 0; j < n; j++) if (j != i && j != (i + 1) % n) { Integer s = cr(a, b, v[j]); convex = vp_and(convex, s >= 0); area = vp_or(area, s > 0); }
		for (size_t j = 0; j < i; j++) convex = vp_and(convex, vp_or(v[i].first != v[j].first, v[i].second != v[j].second));
		Integer d = (b.first - a.first) * (c.first - b.first) + (b.second - a.second) * (c.second - b.second), s = cr(a, b, c);
		convex = vp_and(convex, vp_or(s != 0, d > 0));
		strict = vp_and(strict, s != 0);
	}
	convex = vp_and(convex, area); strict = vp_and(strict, convex);
}
static void check(const std::vector<Pt>& v) {
	bool c, s; spec(v, c, s);
	bool k = vp_flag("range");
	bool rc = k ? isConvex(v.begin(), v.end()) : isConvex(v);
	vp_obs(rc);
	vp_assert(rc == c, "isConvex");
	vp_reach(rc ? "yes" : "no");
	bool rs = k ? isStrictlyConvex(v.begin(), v.end()) : isStrictlyConvex(v);
	vp_obs(rs);
	vp_assert(rs == s, "isStrictlyConvex");
}
VP_CASE(few) { std::vector<Pt> v; for (Integer i = 0; i < vp_arg(); i++) v.emplace_back(vp_range("x", -4, 3), vp_range("y", -4, 3)); check(v); }
VP_CASE(convex) {
	Integer n = vp_arg(), m = n == 3 ? 7 : n == 4 ? 3 : n == 5 ? 3 : 2;
	std::vector<Pt> v; for (Integer i = 0; i < n; i++) { Integer x = vp_range("x", 0, m), y = vp_range("y", 0, m); v.emplace_back(x, y); }
	check(v);
}
VP_CASE(scaled) {
	const Integer sc[] = {1, 0x3FFFFFFF, 0x1FFFFFFF, 12345678};
	Integer f = sc[vp_choose("scale", 0, 3)];
	std::vector<Pt> v; for (Integer i = 0; i < 4; i++) { Integer x = vp_range("x", -1, 1), y = vp_range("y", -1, 1); v.emplace_back(x * f, y * f); }
	check(v);
}
