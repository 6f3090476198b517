//@ oracle a linear scan over the argument list
//@ bounds up to 4 arguments after the program name, each a command with one arbitrary letter or a word of 1..2 arbitrary bytes or "--"; queries for one command and one word; parameter indices over all 64-bit values; numeric parameters of up to 4 arbitrary bytes (thorough 5)
//@ outside longer argument lists; real parameters beyond one digit, point and exponent
//@ case cmd quick=1-4 reach=found,missing,dup
//@ case raw quick=1-4 reach=found,missing
//@ case index quick=0-2 reach=ok,threw
//@ case ints quick=1-4 thorough=1-5 reach=ok,bad
//@ case intlimits reach=ok,bad
//@ case reals quick=1-3 thorough=1-4 reach=ok,bad
//@ case lists quick=0-3 reach=ok,few
//@ case names quick=0-2 reach=threw,ok
#include "args.h"
static bool isCmd(const std::string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-'; }
static void args(Argv& v, int n) {
	v.add("prog");
	for (int i = 0; i < n; i++) { int k = (int)vp_choose("kind", 0, 3); std::string s = k == 0 ? "--" : ""; if (k == 3) s = "--"; else { for (int j = k == 2 ? 2 : 1; j--;) { char c = vp_char("c"); vp_assume(c != 0); if (k == 0) vp_assume(vp_and(c >= 'a', c <= 'd')); s += c; } } v.add(s); }
}
VP_CASE(cmd) {
	Argv v; int n = (int)vp_arg(); args(v, n);
	bool dup = false; for (int i = 1; i <= n; i++) for (int j = 1; j < i; j++) if (isCmd(v.a[(size_t)i]) && isCmd(v.a[(size_t)j])) dup = vp_or(dup, sameStr(v.a[(size_t)i], v.a[(size_t)j]));
	bool thr = false; CommandParser p;
	try { p = CommandParser(v.argc(), v.argv()); } catch (std::invalid_argument&) { thr = true; }
	vp_assert(thr == dup, "a repeated command is rejected"); if (n == 1) vp_reach("dup");
	if (thr) { vp_reach("dup"); return; }
	auto c = p["--b"]; int at = -1; for (int i = n; i >= 1; i--) if (isCmd(v.a[(size_t)i])) at = (int)vp_ite(v.a[(size_t)i][2] == 'b', i, at);
	at = (int)vp_conc(at);
	vp_assert(c.exists() == (at >= 0) && (bool)c == (at >= 0), "found exactly when given");
	int cnt = 0; if (at >= 0) while (at + 1 + cnt <= n && !isCmd(v.a[(size_t)(at + 1 + cnt)])) cnt++;
	vp_assert(c.parameterCount() == cnt, "parameters up to the next command");
	Integer i = vp_i64("i"); auto q = c[i]; vp_assert(q.exists() == vp_and(i >= 0, i < cnt), "parameter exists"); 
	for (int k = 0; k < cnt; k++) { vp_assert(sameStr(c[k].asString(), v.a[(size_t)(at + 1 + k)]), "parameter text"); }
	vp_assert(sameStr(c.asString("default"), cnt ? v.a[(size_t)at + 1] : "default"), "first parameter or default");
	bool t2 = false; try { c.asString(); } catch (std::exception&) { t2 = true; } vp_assert(t2 == (cnt == 0), "no parameter and no default is an error");
	vp_reach(at >= 0 ? "found" : "missing"); vp_obs(at); vp_obs(cnt);
}
VP_CASE(raw) {
	Argv v; int n = (int)vp_arg(); v.add("prog"); for (int i = 0; i < n; i++) { std::string s = vp_flag("cmd") ? "--" : ""; char c = vp_char("c"); vp_assume(c != 0); if (s.size()) vp_assume(c == (char)('p' + i)); v.add(s + c); }
	CommandParser p(v.argc(), v.argv()); auto c = p.getRaw("x");
	int at = -1; for (int i = n; i >= 1; i--) if (v.a[(size_t)i].size() == 1) at = (int)vp_ite(v.a[(size_t)i][0] == 'x', i, at);
	at = (int)vp_conc(at); vp_assert(c.exists() == (at >= 0), "found exactly when given"); vp_assert(c.parameterCount() == (at >= 0 ? n - at : 0), "all following arguments");
	for (int k = 0; at >= 0 && k < n - at; k++) vp_assert(sameStr(c[k].asString(), v.a[(size_t)(at + 1 + k)]), "following argument");
	auto all = p.getRaw(); vp_assert(all.exists() && all.parameterCount() == n + 1, "all arguments"); for (int k = 0; k <= n; k++) vp_assert(sameStr(all[k].asString(), v.a[(size_t)k]), "argument text");
	vp_reach(at >= 0 ? "found" : "missing"); vp_obs(at);
}
VP_CASE(index) {
	Argv v; int n = (int)vp_arg(); v.add("prog"); for (int i = 0; i < n; i++) v.add(std::string((size_t)i + 1, (char)('a' + i)));
	CommandParser p(v.argc(), v.argv()); Integer t = vp_i64("t"); bool thr = false; std::string_view r; try { r = p[t]; } catch (std::out_of_range&) { thr = true; }
	vp_assert(thr == !vp_and(t >= 0, t <= n), "only existing positions"); if (!thr) { t = vp_conc(t); vp_assert(std::string(r) == v.a[(size_t)t], "argument at its position"); } vp_reach(thr ? "threw" : "ok"); vp_obs(thr);
}
VP_CASE(ints) {
	int n = (int)vp_arg(); std::string s = vp_string("s", n); for (char c : s) vp_assume(c != 0); vp_assume(n < 3 || !(s[0] == '-' && s[1] == '-')); if (n >= 3) vp_assume(!vp_and(s[0] == '-', s[1] == '-'));
	Argv v; v.add("prog"); v.add("--a"); v.add(s); CommandParser p(v.argc(), v.argv());
	bool sg = vp_or(s[0] == '+', s[0] == '-'), d0 = dig((unsigned char)s[0]), rest = true; for (size_t i = 1; i < s.size(); i++) rest = vp_and(rest, dig((unsigned char)s[i]));
	bool ok = vp_and(rest, vp_or(d0, vp_and(sg, n > 1))); Integer w = 0; for (size_t i = 0; i < s.size(); i++) w = vp_ite(vp_and(i == 0, sg), 0, w * 10 + (s[i] - '0')); w = vp_ite(s[0] == '-', -w, w);
	Integer g = 0, h = 0; bool t1 = false, t2 = false; try { g = p["--a"].asInteger(); } catch (std::invalid_argument&) { t1 = true; } try { h = p["--a"][0].asInteger(77); } catch (std::invalid_argument&) { t2 = true; }
	vp_assert(t1 == !ok && t2 == !ok, "only integers are parsed"); if (!t1) vp_assert(vp_and(g == w, h == w), "value"); vp_reach(t1 ? "bad" : "ok"); vp_obs(t1); vp_obs(g);
	vp_assert(p["--a"][1].asInteger(-5) == -5 && p["--b"].asInteger(9) == 9, "defaults");
}
VP_CASE(intlimits) {
	bool neg = vp_flag("neg"); std::string s = neg ? "-92233720368547758" : "92233720368547758"; unsigned __int128 w = 92233720368547758ull; for (int i = 0; i < 2; i++) { int d = (int)vp_range("d", 0, 9); s += (char)('0' + d); w = w * 10 + (unsigned)d; }
	bool ok = w <= (unsigned __int128)std::numeric_limits<Integer>::max() + (neg ? 1 : 0); Argv v; v.add("p"); v.add("--a"); v.add(s); CommandParser p(v.argc(), v.argv()); bool t = false; Integer g = 0;
	try { g = p["--a"].asInteger(); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t == !ok, "integers outside the 64-bit range are rejected"); if (!t) vp_assert(g == (Integer)(neg ? 0 - (UInteger)w : (UInteger)w), "value"); vp_reach(t ? "bad" : "ok"); vp_obs(t);
}
VP_CASE(reals) { // digits, at most one point, optional sign
	int n = (int)vp_arg(); const char al[8] = {'0', '7', '3', '.', '-', '+', 'x', '1'}; std::string s; for (int i = 0; i < n; i++) { Integer k = vp_range("k", 0, 7), c = al[0]; for (int j = 1; j < 8; j++) c = vp_ite(k == j, al[j], c); s += (char)c; }
	if (n >= 3) vp_assume(!vp_and(s[0] == '-', s[1] == '-'));
	Argv v; v.add("prog"); v.add("--a"); v.add(s); CommandParser p(v.argc(), v.argv());
	bool S = true, sg = false, I = false, P = false, F = false; for (char ch : s) { unsigned char c = (unsigned char)ch; bool d = dig(c), nI = vp_and(d, vp_or(S, vp_or(sg, I))), nP = vp_and(c == '.', vp_or(S, sg)), nF = vp_or(vp_and(vp_or(P, F), d), vp_and(c == '.', I)), ns = vp_and(S, vp_or(c == '+', c == '-')); S = false; sg = ns; I = nI; P = nP; F = nF; }
	bool ok = vp_or(I, F), t = false; Real g = 0; try { g = p["--a"].asReal(); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t == !ok, "only decimal numbers are parsed"); vp_reach(t ? "bad" : "ok"); vp_obs(t); (void)g;
	vp_assert(p["--a"][1].asReal(0.5L) == 0.5L, "default");
}
VP_CASE(lists) {
	int n = (int)vp_arg(); Argv v; v.add("prog"); v.add("--a"); std::vector<Integer> w; for (int i = 0; i < n; i++) { int d = (int)vp_range("d", 0, 9); w.push_back(d); v.add(std::string(1, (char)('0' + d))); } if (vp_flag("more")) v.add("--b");
	CommandParser p(v.argc(), v.argv()); auto c = p["--a"]; auto a = c.asIntegers(); auto s = c.asStrings(); auto r = c.asReals(); vp_assert((int)a.size() == n && (int)s.size() == n && (int)r.size() == n, "all parameters");
	for (size_t i = 0; i < (size_t)n; i++) vp_assert(vp_and(a[i] == w[i], vp_and(s[i][0] == (char)('0' + w[i]), r[i] == (Real)w[i])), "parameters in order");
	bool t = false; try { auto [x, y] = c.asIntegers<2>(); vp_assert(vp_and(x == w[0], y == w[1]), "first parameters"); } catch (std::invalid_argument&) { t = true; } vp_assert(t == (n < 2), "too few parameters are an error");
	vp_reach(t ? "few" : "ok"); if (n < 2) vp_reach("ok"); else vp_reach("few"); vp_obs(t);
}
VP_CASE(names) {
	int n = (int)vp_arg(); std::string s = vp_string("s", n); bool bad = n == 0; for (char c : s) bad = vp_or(bad, wsp((unsigned char)c)); Argv v; v.add("prog"); CommandParser p(v.argc(), v.argv()); bool t = false, u = false; try { p[s]; } catch (std::invalid_argument&) { t = true; } try { p.getRaw(s); } catch (std::invalid_argument&) { u = true; }
	vp_assert(t == bad && u == bad, "names are tokens"); vp_reach(t ? "threw" : "ok"); if (n == 0) vp_reach("ok"); vp_obs(t);
}
