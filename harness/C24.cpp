//@ stub randstub.cpp
//@ oracle the result is a rearrangement of the input; different draws give different results and the product of the draw ranges equals the number of possible results, hence every result is equally likely
//@ bounds containers of 0..5 elements (thorough 6) with arbitrary contents: iterator ranges, vectors, arrays, braced lists, views, sets, pairs and complex numbers; every sequence of draws
//@ outside longer containers
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range, the engine by arbitrary outputs
//@ case select quick=1-5 thorough=1-7 reach=done
//@ case selectkinds reach=done
//@ case empty reach=threw
//@ case pairs reach=done
//@ case shuffle quick=0-4 thorough=0-5 reach=done
//@ case shuffleseq quick=0-4 thorough=0-5 reach=done
//@ case rotate quick=1-5 thorough=1-7 reach=done
#include "engine.h"
#include "common.h"
#include "draws.h"
static Integer prod() { Integer p = 1; for (int i = 0; i < vp_draws.have; i++) p *= vp_conc(vp_draws.hi[i] - vp_draws.lo[i]); return p; }
VP_CASE(select) { // a reference to every element, by different draws
	int n = (int)vp_arg(); std::vector<Integer> a = vp_vec("a", n, -100, 100); const std::vector<Integer> b = a; int how = (int)vp_choose("how", 0, 2);
	size_t idx[2];
	for (int k = 0; k < 2; k++) {
		vp_draws.record();
		if (how == 0) idx[k] = (size_t)(&Random::select(a.begin(), a.end()) - a.data());
		if (how == 1) idx[k] = (size_t)(&Random::select(a) - a.data());
		if (how == 2) idx[k] = (size_t)(&Random::select(b.begin(), b.end()) - b.data());
		vp_assert(prod() == n, "as many outcomes as elements"); vp_assert(idx[k] < (size_t)n, "an element of the container");
		static Integer first; if (k == 0) first = vp_draws.have ? vp_draws.v[0] : 0; else vp_assert((idx[0] == idx[1]) == (first == (vp_draws.have ? vp_draws.v[0] : 0)), "every element is equally likely");
	}
	if (how == 1) { vp_draws.record(); Integer& r = Random::select(a); r = 1000; int c = 0; for (Integer x : a) c += x == 1000; vp_assert(c == 1, "a reference into the container"); }
	vp_reach("done"); vp_obs(0);
}
VP_CASE(selectkinds) {
	int k = (int)vp_choose("k", 0, 5); Integer r = -1; vp_draws.record(); bool ok = false; Integer d = 0;
	auto at = [&](Integer i) { return vp_draws.v[0] == i; };
	if (k == 0) { r = Random::select({10, 20, 30}); d = 3; ok = r == vp_ite(at(0), 10, vp_ite(at(1), 20, 30)); }
	if (k == 1) { Integer a[3] = {1, 2, 3}; Integer& q = Random::select(a); r = q; q = 9; d = 3; ok = vp_and(r == vp_draws.v[0] + 1, a[0] + a[1] + a[2] == 6 - r + 9); }
	if (k == 2) { std::array<Integer, 4> a{5, 6, 7, 8}; r = Random::select(a); d = 4; ok = r == 5 + vp_draws.v[0]; }
	if (k == 3) { std::string_view a = "abc"; r = Random::select(a); d = 3; ok = r == 'a' + vp_draws.v[0]; }
	if (k == 4) { const std::vector<Integer> a{4, 5}; r = Random::select(a); d = 2; ok = r == 4 + vp_draws.v[0]; }
	if (k == 5) { std::deque<Integer> a{4, 5, 6}; r = Random::select(a); d = 3; ok = r == 4 + vp_draws.v[0]; }
	vp_assert(prod() == d, "as many outcomes as elements"); vp_assert(ok, "the selected element"); vp_reach("done"); vp_obs(r);
}
VP_CASE(empty) {
	int k = (int)vp_choose("k", 0, 3); bool t = false; std::vector<Integer> a; const std::vector<Integer> b; vp_draws.reject("nothing can be selected from an empty container"); 
	try { if (k == 0) Random::select(a); if (k == 1) Random::select(a.begin(), a.end()); if (k == 2) Random::select(b); if (k == 3) Random::select(std::string_view("")); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t, "nothing can be selected from an empty container"); vp_reach("threw"); vp_obs(t);
}
template<typename T> static void pairkind() {
	Integer x = vp_range("x", -9, 9), y = vp_range("y", -9, 9); vp_assume(x != y); const T t{(typename std::decay_t<decltype(getX(std::declval<T&>()))>)x, (typename std::decay_t<decltype(getX(std::declval<T&>()))>)y};
	AnyEngine::record(); bool b = Random::bit(); AnyEngine::again(); Integer r = (Integer)Random::select(t); vp_assert(AnyEngine::n == 1, "one bit selects"); vp_assert(vp_or(r == x, r == y), "one of both"); bool rx = r == x;
	AnyEngine::record(); bool b2 = Random::bit(); AnyEngine::again(); Integer r2 = (Integer)Random::select(t); bool r2x = r2 == x; vp_assert((b == b2) == (rx == r2x), "both are equally likely");
	T u = t; AnyEngine::record(); b = Random::bit(); AnyEngine::again(); Random::shuffle(u); vp_assert(AnyEngine::n == 1, "one bit shuffles"); bool kept = vp_and((Integer)getX(u) == x, (Integer)getY(u) == y), swapped = vp_and((Integer)getX(u) == y, (Integer)getY(u) == x); vp_assert(vp_or(kept, swapped), "a rearrangement");
	T w = t; AnyEngine::record(); b2 = Random::bit(); AnyEngine::again(); Random::shuffle(w); bool k2 = (Integer)getX(w) == x; vp_assert((b == b2) == (kept == k2), "both orders are equally likely");
	vp_reach("done"); vp_obs(kept);
}
VP_CASE(pairs) { if (vp_flag("complex")) pairkind<std::complex<Integer>>(); else pairkind<std::pair<Integer, Integer>>(); }
static bool same(const std::vector<Integer>& a, const std::vector<Integer>& b) { bool r = true; for (size_t i = 0; i < a.size(); i++) r = vp_and(r, a[i] == b[i]); return r; }
static void shuffled(bool container) {
	int n = (int)vp_arg(); std::vector<Integer> r[2]; std::vector<Integer> v[2]; Integer fact = 1; for (int i = 2; i <= n; i++) fact *= i; bool str = vp_flag("list");
	for (int k = 0; k < 2; k++) {
		std::vector<Integer> a; for (int i = 0; i < n; i++) a.push_back(100 + i); vp_draws.record();
		if (str) { std::deque<Integer> q(a.begin(), a.end()); if (container) Random::shuffle(q); else Random::shuffle(q.begin(), q.end()); a.assign(q.begin(), q.end()); } else if (container) Random::shuffle(a); else Random::shuffle(a.begin(), a.end());
		vp_assert((int)a.size() == n, "the number of elements"); for (int i = 0; i < n; i++) { int c = 0; for (Integer x : a) c += x == 100 + i; vp_assert(c == 1, "every element is kept"); }
		vp_assert(prod() == fact, "as many outcomes as orders"); r[k] = a; for (int i = 0; i < vp_draws.have; i++) v[k].push_back(vp_draws.v[i]);
	}
	if (v[0].size() == v[1].size()) vp_assert(vp_or(!same(r[0], r[1]), same(v[0], v[1])), "every order is equally likely");
	vp_reach("done"); vp_obs(0);
}
VP_CASE(shuffle) { shuffled(true); }
VP_CASE(shuffleseq) { shuffled(false); }
VP_CASE(rotate) {
	int n = (int)vp_arg(); std::vector<Integer> a = vp_vec("a", n, -100, 100), b = a; vp_draws.record(); Integer r = vp_flag("c") ? Random::rotate(a) : Random::rotate(a.begin(), a.end());
	vp_assert(prod() == n, "as many outcomes as rotations"); vp_assert(vp_and(0 <= r, r < n), "the amount of the rotation"); Integer d = vp_draws.have ? vp_draws.v[0] : 0; r = vp_conc(r); vp_assert((int)a.size() == n, "size");
	for (int i = 0; i < n; i++) vp_assert(a[(size_t)i] == b[(size_t)((i + r) % n)], "rotated to the left by the returned amount");
	std::vector<Integer> c(b); vp_draws.record(); Integer r2 = Random::rotate(c); vp_assert((r == r2) == (d == (vp_draws.have ? vp_draws.v[0] : 0)), "every rotation is equally likely"); vp_reach("done"); vp_obs(r);
}
