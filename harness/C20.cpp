//@ oracle the algebraic definition of dot and cross product; the shoelace sum for orientation
//@ bounds every coordinate in [-2^30, 2^30] for dot/cross over pairs, structs, arrays and complex numbers; orientation: 0..4 points with coordinates in [-8, 7], triangles translated by up to +-2^29; coordinates beyond 2^30 - 1 are rejected for every 64-bit value
//@ outside polygons with more than 4 vertices
//@ case products reach=done
//@ case accessors reach=done
//@ case ccw quick=0-4 reach=yes,no
//@ case ccwfar reach=yes,no
//@ case large reach=threw
#include "common.h"
struct P { Integer x, y; };
VP_CASE(products) {
	const Integer B = 1 << 30;
	Integer ax = vp_range("ax", -B, B), ay = vp_range("ay", -B, B), bx = vp_range("bx", -B, B), by = vp_range("by", -B, B), px = vp_range("px", -B, B), py = vp_range("py", -B, B);
	Integer k = vp_choose("k", 0, 3), d, c, c3;
	if (k == 0) { std::pair<Integer, Integer> a{ax, ay}, b{bx, by}, p{px, py}; d = dot(a, b); c = cross(a, b); c3 = cross(p, a, b); }
	else if (k == 1) { P a{ax, ay}, b{bx, by}, p{px, py}; d = dot(a, b); c = cross(a, b); c3 = cross(p, a, b); }
	else if (k == 2) { std::array<Integer, 2> a{ax, ay}, b{bx, by}, p{px, py}; d = dot(a, b); c = cross(a, b); c3 = cross(p, a, b); }
	else { std::complex<Integer> a(ax, ay), b(bx, by), p(px, py); d = dot(a, b); c = cross(a, b); c3 = cross(p, a, b); }
	vp_obs(d); vp_obs(c); vp_obs(c3);
	vp_assert(d == ax * bx + ay * by, "dot product");
	vp_assert(c == ax * by - ay * bx, "cross product");
	vp_assert(c3 == (ax - px) * (by - py) - (ay - py) * (bx - px), "cross product relative to a point");
	vp_reach("done");
}
VP_CASE(accessors) {
	Integer x = vp_i64("x"), y = vp_i64("y"), z = vp_i64("z");
	std::tuple<Integer, Integer, Integer> t{0, 0, 0}; getX(t) = x; getY(t) = y; getZ(t) = z;
	struct Q { Integer x, y, z; } q{0, 0, 0}; getX(q) = x; getY(q) = y; getZ(q) = z;
	std::complex<Integer> c(0, 0); getX(c) = x; getY(c) = y;
	const auto& ct = t; const auto& cq = q; const auto& cc = c;
	vp_assert(vp_and(vp_and(getX(ct) == x, getY(ct) == y), getZ(ct) == z), "tuple coordinates");
	vp_assert(vp_and(vp_and(getX(cq) == x, getY(cq) == y), getZ(cq) == z), "struct coordinates");
	vp_assert(vp_and(getX(cc) == x, getY(cc) == y), "complex coordinates");
	auto pr = convert(cc); vp_assert(vp_and(pr.first == x, pr.second == y), "complex to pair");
	auto co = convert(std::pair<Integer, Integer>(x, y)); vp_assert(vp_and(co.real() == x, co.imag() == y), "pair to complex");
	vp_reach("done"); vp_obs(1);
}
static void ccw(const std::vector<std::pair<Integer, Integer>>& v) {
	Integer s = 0;
	for (size_t i = 0; i < v.size(); i++) { auto& a = v[i]; auto& b = v[(i + 1) % v.size()]; s += a.first * b.second - a.second * b.first; }
	bool b = vp_flag("range") ? isCCW(v.begin(), v.end()) : isCCW(v);
	vp_assert(b == (s > 0), "isCCW is the sign of the area");
	vp_obs(b); vp_reach(b ? "yes" : "no");
}
VP_CASE(ccw) {
	std::vector<std::pair<Integer, Integer>> v;
	for (Integer i = 0, n = vp_arg(); i < n; i++) { Integer x = vp_range("x", -8, 7), y = vp_range("y", -8, 7); v.emplace_back(x, y); }
	ccw(v);
	if (v.size() < 3) vp_reach("yes");
}
VP_CASE(ccwfar) {
	const Integer fars[] = {1 << 29, -(1 << 29), 0x3FFFFFF8, -0x3FFFFFF8};
	Integer dx = fars[vp_choose("dx", 0, 3)], dy = fars[vp_choose("dy", 0, 3)];
	std::vector<std::pair<Integer, Integer>> v; Integer s = 0;
	Integer c[6]; for (auto& x : c) x = vp_range("c", -2, 1);
	for (int i = 0; i < 3; i++) v.emplace_back(dx + c[2 * i], dy + c[2 * i + 1]);
	s = (c[2] - c[0]) * (c[5] - c[1]) - (c[3] - c[1]) * (c[4] - c[0]);
	bool b = isCCW(v);
	vp_assert(b == (s > 0), "orientation does not depend on the position");
	vp_obs(b); vp_reach(b ? "yes" : "no");
}
VP_CASE(large) {
	Integer bad = vp_i64("bad"), k = vp_choose("pos", 0, 5), f = vp_choose("f", 0, 3);
	vp_assume(vp_or(bad > 0x3FFFFFFF, vp_and(bad < -0x3FFFFFFF, bad != std::numeric_limits<Integer>::min())));
	Integer c[6] = {0, 0, 4, 0, 0, 4}; c[k] = bad;
	std::vector<std::pair<Integer, Integer>> v{{c[0], c[1]}, {c[2], c[3]}, {c[4], c[5]}};
	bool t = false;
	try { if (f == 0) isCCW(v); if (f == 1) isConvex(v); if (f == 2) isStrictlyConvex(v); if (f == 3) isSimple(v); } catch (...) { t = true; }
	vp_assert(t, "too large coordinates are rejected"); vp_reach("threw"); vp_obs(t);
}
