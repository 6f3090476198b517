//@ oracle minimum, maximum, touched bounds and extreme bounds of the history, folded over the logged triples
//@ bounds histories of 1..3 updates (thorough 5): every 64-bit lower bound, upper bound and value for integers; containers of size 0..3; reals in multiples of 1/8 with tolerances as configured; type changes at every position
//@ outside longer histories
//@ case ints quick=1-3 thorough=1-5 reach=hit,miss
//@ case containers quick=1-3 reach=hit,miss
//@ case reals quick=1-2 thorough=1-3 reach=hit,miss
//@ case types reach=threw,ok
#include "num.h"
static std::string logged(Constraint&& c) { // written through a logger
	{ ConstraintsLogger l("constraints.log"); l["n"] = std::move(c); }
	bool ok; std::string s = slurp("constraints.log", ok); vp_assert(ok, "the file is written"); return s;
}
static void check(const std::string& s, bool hmin, bool hmax, Integer mn, Integer mx, Integer lo, Integer hi) {
	size_t p = 0; Integer a = 0, b = 0, c = 0, d = 0, e = 0, f = 0;
	bool sh = lit(s, p, "LocationNotSupported:n n ") && getInt(s, p, a) && lit(s, p, " ") && getInt(s, p, b) && lit(s, p, " ") && getInt(s, p, c) && lit(s, p, " ") && getInt(s, p, d) && lit(s, p, " ") && getInt(s, p, e) && lit(s, p, " ") && getInt(s, p, f) && lit(s, p, "\n") && p == s.size();
	vp_assert(sh, "one line: name, two flags, seen minimum and maximum, lower and upper bound");
	vp_assert(a == (Integer)hmin, "flag: the lower bound was attained"); vp_assert(b == (Integer)hmax, "flag: the upper bound was attained");
	vp_assert(c == mn, "smallest value"); vp_assert(d == mx, "largest value"); vp_assert(e == lo, "smallest lower bound"); vp_assert(f == hi, "largest upper bound (inclusive)");
	vp_obs(hmin); vp_obs(hmax); vp_obs(mn); vp_obs(mx); vp_reach(hmin ? "hit" : "miss");
}
static Integer mini(Integer a, Integer b) { return vp_ite(a < b, a, b); }
static Integer maxi(Integer a, Integer b) { return vp_ite(a < b, b, a); }
VP_CASE(ints) {
	Constraint c; bool h1 = false, h2 = false; Integer mn = 0, mx = 0, lo = 0, hi = 0; bool small = vp_flag("int");
	for (int i = 0, n = (int)vp_arg(); i < n; i++) {
		Integer l = vp_i64("lower"), u = vp_i64("upper"), v = small ? (int)vp_bits("v", 32) : vp_i64("v"); vp_assume(vp_and(l <= v, v < u));
		if (small) c.log(l, u, (int)v); else c.log(l, u, v);
		h1 = vp_or(h1, v == l); h2 = vp_or(h2, v == u - 1);
		if (i) mn = mini(mn, v), mx = maxi(mx, v), lo = mini(lo, l), hi = maxi(hi, u - 1); else mn = mx = v, lo = l, hi = u - 1;
	}
	check(logged(std::move(c)), h1, h2, mn, mx, lo, hi);
}
VP_CASE(containers) {
	Constraint c; bool h1 = false, h2 = false; Integer mn = 0, mx = 0, lo = 0, hi = 0; bool str = vp_flag("string");
	for (int i = 0, n = (int)vp_arg(); i < n; i++) {
		Integer l = vp_i64("lower"), u = vp_i64("upper"), v = vp_choose("size", 0, 3); vp_assume(vp_and(l <= v, v < u));
		if (str) c.log(l, u, std::string((size_t)v, 'x')); else c.log(l, u, std::vector<int>((size_t)v));
		h1 = vp_or(h1, v == l); h2 = vp_or(h2, v == u - 1);
		if (i) mn = mini(mn, v), mx = maxi(mx, v), lo = mini(lo, l), hi = maxi(hi, u - 1); else mn = mx = v, lo = l, hi = u - 1;
	}
	check(logged(std::move(c)), h1, h2, mn, mx, lo, hi);
}
VP_CASE(reals) {
	Constraint c; bool h1 = false, h2 = false; Integer mn = 0, mx = 0, lo = 0, hi = 0;
	for (int i = 0, n = (int)vp_arg(); i < n; i++) {
		Integer l = vp_range("lower", 0, 3), u = 4 + vp_range("upper", 0, 3), v = vp_range("v", 0, 7);
		c.log(l / 8.0L, u / 8.0L, v / 8.0L);
		h1 = vp_or(h1, v == l); h2 = vp_or(h2, v == u);
		if (i) mn = mini(mn, v), mx = maxi(mx, v), lo = mini(lo, l), hi = maxi(hi, u); else mn = mx = v, lo = l, hi = u;
	}
	std::string s = logged(std::move(c)); size_t p = 0; Integer a = 0, b = 0;
	bool sh = lit(s, p, "LocationNotSupported:n n ") && getInt(s, p, a) && lit(s, p, " ") && getInt(s, p, b) && lit(s, p, " "); vp_assert(sh, "name and flags"); if (!sh) return;
	vp_assert(a == (Integer)h1, "flag: the lower bound was attained"); vp_assert(b == (Integer)h2, "flag: the upper bound was attained");
	vp_assert(getReal(s, p, mn / 8.0L, 6), "smallest value"); vp_assert(lit(s, p, " "), "separator"); vp_assert(getReal(s, p, mx / 8.0L, 6), "largest value"); vp_assert(lit(s, p, " "), "separator");
	vp_assert(getReal(s, p, lo / 8.0L, 6), "smallest lower bound"); vp_assert(lit(s, p, " "), "separator"); vp_assert(getReal(s, p, hi / 8.0L, 6), "largest upper bound"); vp_assert(lit(s, p, "\n") && p == s.size(), "end of line");
	vp_obs(h1); vp_obs(h2); vp_reach(h1 ? "hit" : "miss");
}
VP_CASE(types) { // one constraint logs values of one type only
	Constraint c; int a = (int)vp_choose("a", 0, 3), b = (int)vp_choose("b", 0, 3); bool thr = false; int at = -1;
	for (int i = 0; i < 2; i++) { int k = i ? b : a; Integer v = vp_range("v", 0, 9);
		try { if (k == 0) c.log(0, 10, v); if (k == 1) c.log(0.0L, 10.0L, (Real)v); if (k == 2) c.log(0, 10, std::string("ab")); if (k == 3) c.log(0, 10, std::vector<int>(3)); } catch (std::logic_error&) { thr = true; at = i; } }
	vp_assert(thr == (a != b), "a change of the type is rejected"); if (thr) vp_assert(at == 1, "the first value is always accepted");
	vp_reach(thr ? "threw" : "ok"); vp_obs(thr);
}
