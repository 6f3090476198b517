//@ oracle the elements and separators of the text, one by one
//@ bounds sequences of 0..4 elements of up to 2 characters; every byte as separator of the text and every byte as requested separator; both whitespace modes; every 64-bit element bound
//@ outside longer sequences
//@ case ints quick=0-4 thorough=0-6 reach=ok,bad
//@ case strings quick=0-3 reach=ok,bad
//@ case reals quick=0-3 reach=ok,bad
//@ case sep reach=ok,threw
#include "stream.h"
// text e_0 s_1 e_1 ... with symbolic one byte separators; returns whether each separator byte is c
static std::string text(const std::vector<std::string>& e, bool& exact, bool& blank, char want) {
	std::string t; exact = blank = true;
	for (size_t i = 0; i < e.size(); i++) { if (i) { char c = vp_char("s"); exact = vp_and(exact, c == want); blank = vp_and(blank, wsp((unsigned char)c)); vp_assume(vp_or(wsp((unsigned char)c), c == '#')); t += c; } t += e[i]; }
	return t;
}
VP_CASE(ints) {
	int n = (int)vp_arg(); bool nl = vp_flag("newline"), sens = vp_flag("space"), lim = vp_flag("lim"), useC = lim && vp_flag("constraint"); std::vector<std::string> e; std::vector<Integer> v;
	for (int i = 0; i < n; i++) { int d = (int)vp_range("d", 1, 9); v.push_back(d); e.push_back(std::string(1, (char)('0' + d))); }
	bool ex, bl; std::string t = text(e, ex, bl, nl ? '\n' : ' '); t += vp_flag("end") ? "\n" : "";
	Integer lo = lim ? vp_i64("lo") : 0, hi = lim ? vp_i64("hi") : 10; Constraint c;
	Feed f(t, sens, true, 43); std::vector<Integer> g; char sep = nl ? '\n' : ' ';
	int r = attempt([&] { g = !lim ? f.s.integers(n, sep) : useC ? f.s.integers(lo, hi, c, n, sep) : f.s.integers(lo, hi, n, sep); });
	bool in = true; for (Integer x : v) in = vp_and(in, vp_and(lo <= x, x < hi));
	bool ok = vp_and(in, sens ? ex : bl);
	vp_assert((r == -1) == ok, "accepted exactly when every element and every separator is right");
	if (r == -1) { vp_assert((int)g.size() == n, "number of elements"); bool s = true; for (size_t i = 0; i < g.size() && i < v.size(); i++) s = vp_and(s, g[i] == v[i]); vp_assert(s, "elements in order"); vp_assert(f.left() == (t.size() && t.back() == '\n' ? 1 : 0), "nothing behind the last element is consumed"); vp_reach("ok"); if (n == 0) vp_reach("bad"); }
	else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(strings) {
	int n = (int)vp_arg(); bool nl = vp_flag("newline"), sens = vp_flag("space"); Integer k = vp_choose("form", 0, 4); std::vector<std::string> e; bool in = true; Integer lo = 0, hi = 0;
	if (k == 1 || k == 2 || k == 4) { lo = vp_i64("lo"); hi = vp_i64("hi"); }
	for (int i = 0; i < n; i++) { int len = i % 2 + 1; std::string s = vp_string("e", len); for (char c : s) vp_assume(graph((unsigned char)c)); e.push_back(s);
		if (k == 1 || k == 2 || k == 4) in = vp_and(in, vp_and(lo <= len, len < hi)); if (k >= 3) for (char c : s) in = vp_and(in, (unsigned char)(c - 'a') <= 25); }
	bool ex, bl; std::string t = text(e, ex, bl, nl ? '\n' : ' '); for (size_t i = 0, p = 0; i + 1 < e.size(); i++) { p += e[i].size(); vp_assume(t[p] != '#'); p++; }
	Feed f(t, sens, true, 43); Constraint c; char sep = nl ? '\n' : ' '; std::vector<std::string> g; std::regex re("[a-z]*");
	int r = attempt([&] { g = k == 0 ? f.s.strings(n, sep) : k == 1 ? f.s.strings(lo, hi, n, sep) : k == 2 ? f.s.strings(lo, hi, c, n, sep) : k == 3 ? f.s.strings(re, n, sep) : f.s.strings(re, lo, hi, n, sep); });
	bool ok = vp_and(in, sens ? ex : bl);
	vp_assert((r == -1) == ok, "accepted exactly when every element and every separator is right");
	if (r == -1) { vp_assert((int)g.size() == n, "number of elements"); for (size_t i = 0; i < g.size() && i < e.size(); i++) { vp_assert(g[i].size() == e[i].size(), "element length"); bool s = true; for (size_t j = 0; j < e[i].size() && j < g[i].size(); j++) s = vp_and(s, g[i][j] == e[i][j]); vp_assert(s, "element content"); } vp_reach("ok"); if (n == 0) vp_reach("bad"); }
	else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(reals) {
	int n = (int)vp_arg(); bool nl = vp_flag("newline"), sens = vp_flag("space"); Integer k = vp_choose("form", 0, 3); std::vector<std::string> e; std::vector<Integer> v; bool in = true; Integer h = vp_range("hi", 0, 9), md = k == 3 ? vp_range("md", 0, 3) : 0;
	for (int i = 0; i < n; i++) { Integer d = vp_range("d", 0, 9); v.push_back(d); std::string s(1, (char)('0' + d)); s += ".5"; e.push_back(s); if (k) in = vp_and(in, d < h); if (k == 3) in = vp_and(in, 1 < md); }
	bool ex, bl; std::string t = text(e, ex, bl, nl ? '\n' : ' '); for (size_t i = 0; i + 1 < e.size(); i++) vp_assume(t[4 * i + 3] != '#');
	Feed f(t, sens, true, 43, 0, 0); Constraint c; char sep = nl ? '\n' : ' '; std::vector<Real> g;
	int r = attempt([&] { g = k == 0 ? f.s.reals(n, sep) : k == 1 ? f.s.reals(0, h, n, sep) : k == 2 ? f.s.reals(0, h, c, n, sep) : f.s.realsStrict(0, h, 1, md, n, sep); });
	bool ok = vp_and(in, sens ? ex : bl);
	vp_assert((r == -1) == ok, "accepted exactly when every element and every separator is right");
	if (r == -1) { vp_assert((int)g.size() == n, "number of elements"); for (size_t i = 0; i < g.size() && i < v.size(); i++) vp_assert(g[i] * 2 == (Real)(2 * v[i] + 1), "element value"); vp_reach("ok"); if (n == 0) vp_reach("bad"); }
	else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
VP_CASE(sep) {
	char s = vp_char("sep"); int k = (int)vp_choose("k", 0, 3); bool thr = false; Feed f("1", true, true, 43);
	try { if (k == 0) f.s.integers(1, s); if (k == 1) f.s.strings(1, s); if (k == 2) f.s.reals(1, s); if (k == 3) f.s.realsStrict(0, 5, 0, 1, 1, s); } catch (std::invalid_argument&) { thr = true; }
	vp_assert(thr == vp_and(s != ' ', s != '\n'), "only blank and newline may separate elements"); vp_reach(thr ? "threw" : "ok"); vp_obs(thr);
}
