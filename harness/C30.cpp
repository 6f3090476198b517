//@ stub randstub2.cpp
//@ oracle exact cross products of all edges and points; the polygon turns left only and passes each half plane once; extremes of the coordinates; the cross product of every three points
//@ bounds convex: 3 and 4 points (thorough 5) in dimension 2 and 3, every draw; non-collinear points: 1..3 points (thorough 4) in dimensions 2..4 (thorough 6), every draw without repetition of rejected draws (several points, and one point in dimensions up to 11: the coefficients, offsets and abscissas at either end of their ranges); every rejected argument
//@ outside larger polygons and point sets; degenerate polygons of zero area are not excluded (the documentation allows collinear points)
//@ assume Random::integer(lower, upper) and Random::binomial(n, p) are replaced by arbitrary values of their ranges
//@ case convex quick=0-2,5 thorough=0-7 reach=done
//@ case badconvex reach=threw
//@ case general quick=0-4 thorough=0-8 reach=done
//@ case one reach=done
//@ case badgeneral reach=threw,empty
#include "common.h"
#include "draws.h"
using P = std::pair<Integer, Integer>;
static Integer crs(const P& a, const P& b, const P& c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); }
static const int shape[][2] = {{3, 2}, {4, 2}, {3, 3}, {5, 2}, {4, 3}, {3, 4}, {3, 7}, {3, 12}};
VP_CASE(convex) {
	int n = shape[vp_arg()][0], dim = shape[vp_arg()][1]; vp_draws.record(); if (n * dim > 6) vp_draws.conc = 100; std::vector<P> r = Random::convex(n, dim);
	vp_assert((int)r.size() == n, "number of points"); Integer mnx = dim, mxx = -dim, mny = dim, mxy = -dim;
	for (auto& p : r) { mnx = vp_ite(p.first < mnx, p.first, mnx); mxx = vp_ite(p.first > mxx, p.first, mxx); mny = vp_ite(p.second < mny, p.second, mny); mxy = vp_ite(p.second > mxy, p.second, mxy); }
	vp_assert(vp_and(mnx == 1 - dim, mxx == dim - 1), "the polygon fills the width"); vp_assert(vp_and(mny == 1 - dim, mxy == dim - 1), "the polygon fills the height");
	int ch = 0; for (int i = 0; i < n; i++) {
		P a = r[(size_t)i], b = r[(size_t)((i + 1) % n)], c = r[(size_t)((i + 2) % n)]; vp_assert(vp_or(a.first != b.first, a.second != b.second), "consecutive points are different");
		for (auto& q : r) vp_assert(crs(a, b, q) >= 0, "no point lies to the right of an edge");
		Integer dx = b.first - a.first, dy = b.second - a.second, ex = c.first - b.first, ey = c.second - b.second; bool h1 = vp_or(dy < 0, vp_and(dy == 0, dx < 0)), h2 = vp_or(ey < 0, vp_and(ey == 0, ex < 0)); ch += h1 != h2;
	}
	vp_assert(ch <= 2, "the polygon winds once"); vp_reach("done"); vp_obs(n);
}
VP_CASE(badconvex) {
	Integer n = vp_i64("n"), dim = vp_i64("dim"); int k = (int)vp_choose("k", 0, 3); if (k == 0) vp_assume(dim <= 0); if (k == 1) vp_assume(dim > 0x3FFFFFFF); if (k == 2) vp_assume(n < 3); if (k == 3) { vp_assume(vp_and(dim > 0, dim <= 0x3FFFFFFF)); vp_assume(n > 8 * dim - 8); }
	bool t = false; vp_draws.reject("impossible polygons are rejected"); try { Random::convex(n, dim); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "impossible polygons are rejected"); vp_reach("threw"); vp_obs(t);
}
static const int gshape[][2] = {{1, 2}, {2, 3}, {2, 4}, {3, 4}, {1, 4}, {3, 5}, {4, 5}, {3, 6}, {4, 6}};
VP_CASE(general) {
	int n = gshape[vp_arg()][0], dim = gshape[vp_arg()][1]; vp_draws.record(); vp_draws.conc = 3; if (n > 1) vp_draws.window = vp_flag("top") ? 2 : -2; vp_draws.limit = 8 + n; std::vector<P> r = Random::nonCollinearPoints(n, dim);
	vp_assert((int)r.size() == n, "number of points"); for (auto& p : r) { vp_assert(vp_and(-dim < p.first, p.first < dim), "points lie inside of the square"); vp_assert(vp_and(-dim < p.second, p.second < dim), "points lie inside of the square"); }
	for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) { vp_assert(vp_or(r[i].first != r[j].first, r[i].second != r[j].second), "points are different"); for (size_t k = 0; k < j; k++) vp_assert(crs(r[i], r[j], r[k]) != 0, "no three points are collinear"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(one) { // every dimension has enough room
	Integer dim = vp_choose("dim", 0, 3); dim = 2 + dim * dim; vp_draws.record(); vp_draws.window = vp_flag("top") ? 2 : -2; vp_draws.conc = 1; vp_draws.limit = 9; std::vector<P> r = Random::nonCollinearPoints(1, dim); vp_assert(r.size() == 1, "number of points"); for (auto& p : r) { vp_assert(vp_and(-dim < p.first, p.first < dim), "points lie inside of the square"); vp_assert(vp_and(-dim < p.second, p.second < dim), "points lie inside of the square"); } vp_reach("done"); vp_obs(0); }
VP_CASE(badgeneral) {
	Integer n = vp_i64("n"), dim = vp_i64("dim"); int k = (int)vp_choose("k", 0, 3); if (k == 0) vp_assume(n < 0); if (k == 1) vp_assume(dim > 0x1FFFFFFF); if (k == 2) vp_assume(dim <= n); if (k == 3) { n = 0; vp_assume(vp_and(dim > 0, dim <= 0x1FFFFFFF)); if (vp_flag("tiny")) dim = 1; else dim = vp_choose("dim", 2, 9); vp_draws.limit = 8; vp_draws.conc = 1; }
	bool t = false; size_t m = 0; if (k < 3) vp_draws.reject("impossible point sets are rejected"); else vp_draws.record(); try { m = Random::nonCollinearPoints(n, dim).size(); } catch (std::invalid_argument&) { t = true; } vp_assert(t == (k < 3), "impossible point sets are rejected, no points are always possible"); vp_assert(m == 0, "no points"); vp_reach(t ? "threw" : "empty"); vp_obs(t);
}
