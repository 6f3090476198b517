//@ stub randstub.cpp
//@ oracle permutation of the range; plain: different draws give different permutations and there are n! sequences of draws; cycles: the lengths of all cycles, and the conjugation by the plain permutation of the same draws does not depend on the draws; fix points: fixed, and the result is determined by, and determines, the relative order of the other elements in a shuffle with the same draws
//@ bounds up to 4 elements (thorough 5), every sequence of draws, every list of up to 3 cycle lengths in -3..6, every set of fix points, also with duplicates; every 64-bit offset for which the range is representable (with fix points: -3..0)
//@ outside longer permutations; sums of cycle lengths beyond 64 bits
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range
//@ case plain quick=0-4 thorough=0-5 reach=done
//@ case bad reach=threw
//@ case cycles quick=0-4,6 thorough=0-9 reach=done
//@ case badcycles reach=threw,ok
//@ case fix quick=0-3 thorough=0-5 reach=done
//@ case badfix reach=threw,ok
#include "common.h"
#include "draws.h"
using V = std::vector<Integer>;
static Integer offs(Integer n) { Integer o = vp_i64("offset"); vp_assume(o <= std::numeric_limits<Integer>::max() - n); return o; }
static void isPermutation(const V& p, int n, Integer o) {
	vp_assert((int)p.size() == n, "number of elements"); if ((int)p.size() != n) return;
	for (Integer i = 0; i < n; i++) { int c = 0; for (Integer x : p) c += x == o + i; vp_assert(c == 1, "every number of the range exactly once"); }
}
static Integer prod() { Integer p = 1; for (int i = 0; i < vp_draws.have; i++) p *= vp_conc(vp_draws.hi[i] - vp_draws.lo[i]); return p; }
static Integer at(const V& p, Integer i) { Integer r = -1; for (size_t k = 0; k < p.size(); k++) r = vp_ite(i == (Integer)k, p[k], r); return r; }
static V inverse(const V& p) { V r; for (size_t i = 0; i < p.size(); i++) { Integer x = -1; for (size_t k = 0; k < p.size(); k++) x = vp_ite(p[k] == (Integer)i, (Integer)k, x); r.push_back(x); } return r; }
static bool same(const V& a, const V& b) { bool r = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); i++) r = vp_and(r, a[i] == b[i]); return r; }
VP_CASE(plain) {
	int n = (int)vp_arg(); Integer o = offs(n), f = 1; for (int i = 2; i <= n; i++) f *= i; V r[2], v[2];
	for (int k = 0; k < 2; k++) { vp_draws.record(); if (vp_flag("offset0")) { vp_assume(o == 0); r[k] = Random::perm(n); } else r[k] = Random::perm(n, o); isPermutation(r[k], n, o); vp_assert(prod() == f, "as many outcomes as permutations"); v[k].assign(vp_draws.v, vp_draws.v + vp_draws.have); }
	vp_assert(vp_or(!same(r[0], r[1]), same(v[0], v[1])), "every permutation is equally likely"); vp_reach("done"); vp_obs(0);
}
VP_CASE(bad) { Integer n = vp_i64("n"); vp_assume(n < 0); int k = (int)vp_choose("k", 0, 3); bool t = false; vp_draws.reject("a negative size is rejected"); try { if (k == 0) Random::perm(n); if (k == 1) Random::perm(n, 5); if (k == 2) Random::perm(n, V{}); if (k == 3) Random::perm(n, V{1}, 0); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "a negative size is rejected"); vp_reach("threw"); vp_obs(t); }
static const std::vector<V> shapes = {{}, {1}, {2}, {1, 1}, {1, 2}, {2, 2}, {3, 1}, {4}, {1, 1, 2}, {2, 3}};
VP_CASE(cycles) {
	V c = shapes[(size_t)vp_arg()]; int n = 0; for (Integer x : c) n += (int)x; Integer o = n > 3 ? vp_range("o", -5, 5) : offs(n); V q[2];
	for (int k = 0; k < 2; k++) {
		vp_draws.record(); V r = Random::perm(c, o); isPermutation(r, n, o); V z; for (Integer x : r) z.push_back(x - o);
		V len((size_t)n + 1, 0); for (int i = 0; i < n; i++) { Integer x = i, l = 0; bool on = true; for (int s = 1; s <= n; s++) { x = at(z, x); bool back = vp_and(on, x == i); l = vp_ite(back, s, l); on = vp_and(on, x != i); } for (int s = 1; s <= n; s++) len[(size_t)s] += l == s; }
		for (int s = 1; s <= n; s++) { Integer w = 0; for (Integer x : c) w += x == s ? s : 0; vp_assert(len[(size_t)s] == w, "the lengths of the cycles are as requested"); }
		vp_draws.again(); V p = Random::perm(n), ip = inverse(p); vp_assert(vp_draws.same, "as many outcomes as permutations"); for (int i = 0; i < n; i++) q[k].push_back(at(ip, at(z, p[(size_t)i])));
	}
	vp_assert(same(q[0], q[1]), "every permutation with these cycles is equally likely"); vp_reach("done"); vp_obs(n);
}
VP_CASE(badcycles) {
	V c; int m = (int)vp_choose("m", 1, 3); Integer s = 0; for (int i = 0; i < m; i++) c.push_back(vp_choose("len", -3, 6)), s += c.back(); vp_assume(s <= 4); bool bad = false; for (Integer x : c) bad = bad || x <= 0; vp_draws.record();
	bool t = false; try { V r = Random::perm(c); vp_assert((Integer)r.size() == s, "size"); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t == bad, "cycle lengths must be positive"); vp_reach(t ? "threw" : "ok"); vp_obs(t);
}
VP_CASE(fix) {
	int n = (int)vp_arg(); int m = (int)vp_choose("set", 0, (1 << n) - 1); bool dup = m && vp_flag("dup"); Integer o = vp_range("o", -3, 0); const bool zero = dup; if (zero) vp_assume(o == 0); V f; std::vector<bool> is((size_t)n, false);
	for (int i = 0; i < n; i++) if (m >> i & 1) { f.push_back(i + o); is[(size_t)i] = true; if (dup) f.insert(f.begin(), i + o); }
	V r[2], p[2];
	for (int k = 0; k < 2; k++) {
		vp_draws.record(); if (zero) r[k] = Random::perm(n, f); else r[k] = Random::perm(n, f, o); isPermutation(r[k], n, o); for (int i = 0; i < n; i++) if (is[(size_t)i]) vp_assert(r[k][(size_t)i] == i + o, "fix points are fixed");
		vp_draws.again(); V q = range(n); Random::shuffle(q); p[k] = inverse(q);
	}
	bool order = true; for (size_t a = 0; a < (size_t)n; a++) for (size_t b = 0; b < (size_t)n; b++) if (!is[a] && !is[b]) order = vp_and(order, (p[0][a] < p[0][b]) == (p[1][a] < p[1][b]));
	vp_assert(same(r[0], r[1]) == order, "every permutation with these fix points is equally likely"); vp_reach("done"); vp_obs(m);
}
VP_CASE(badfix) {
	int n = (int)vp_choose("n", 0, 3); Integer o = offs(n), f = vp_i64("f"); bool good = vp_and(o <= f, f < o + n); vp_draws.record(); bool t = false; try { Random::perm(n, V{f}, o); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t != good, "fix points outside of the permutation are rejected"); vp_reach(t ? "threw" : "ok"); vp_obs(t);
}
