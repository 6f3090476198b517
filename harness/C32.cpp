//@ oracle elements printed one by one with an explicit separator between each two of them
//@ bounds containers of 0..3 elements (thorough 4) with arbitrary characters, arbitrary integers of up to 4 digits, both truth values and reals in quarters; every separator character; vectors, lists, sets, arrays, C arrays, string literals, pairs, tuples, nested containers, braced lists, temporaries; printing twice, as a string, and after a change of the referenced container
//@ outside more elements; user-defined stream manipulators
//@ case sequence quick=0-3 thorough=0-4 reach=done
//@ case kinds quick=0-3 thorough=0-4 reach=done
//@ case tuples reach=done
//@ case chars quick=0-3 reach=done
//@ case life quick=0-3 reach=done
//@ case direct quick=0-3 reach=done
//@ case reals reach=done
#include <list>
#include <set>
#include <array>
#include <tuple>
#include "stream.h"
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = vp_and(r, a[i] == b[i]); return r; }
static std::string dec(Integer x) { if (!x) return "0"; std::string s; bool n = x < 0; if (n) x = -x; while (x) { s = std::string(1, (char)('0' + x % 10)) + s; x /= 10; } return n ? "-" + s : s; }
template<typename T> static std::string put(const T& t) { std::ostringstream o; OutputStream s(o); s << t; return o.str(); }
static std::string glue(const std::vector<std::string>& v, const char* sep) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i && sep) r += *sep; r += v[i]; } return r; }
static const Integer vals[] = {0, 7, -42, 1000, -9999};
static std::vector<Integer> ints(int n) { std::vector<Integer> v; for (int i = 0; i < n; i++) v.push_back(vals[vp_choose("x", 0, 4)]); return v; }
static std::vector<std::string> texts(const std::vector<Integer>& v) { std::vector<std::string> r; for (Integer x : v) r.push_back(dec(x)); return r; }
VP_CASE(sequence) {
	int n = (int)vp_arg(); std::vector<Integer> v = ints(n); char sep = (char)vp_char("sep"); vp_assume(sep != NOSEP); std::string e = glue(texts(v), &sep);
	vp_assert(same(put(join(v, sep)), e), "elements separated by the separator"); vp_assert(same(put(join(v.begin(), v.end(), sep)), e), "the same for an iterator range");
	char sp = ' '; vp_assert(same(put(join(v)), glue(texts(v), &sp)), "a space is the default"); vp_assert(same(put(join(v, NOSEP)), glue(texts(v), nullptr)), "no separator on request"); vp_assert(same(join(v, sep).asString(), e), "the same as a string"); vp_assert(same(std::string(join(v, sep)), e), "the same by conversion");
	vp_reach("done"); vp_obs(n);
}
VP_CASE(kinds) {
	int n = (int)vp_arg(); std::vector<Integer> v = ints(n); char sep = ','; std::string e = glue(texts(v), &sep);
	std::list<Integer> l(v.begin(), v.end()); vp_assert(same(put(join(l, sep)), e), "lists"); const std::vector<Integer> cv = v; vp_assert(same(put(join(cv, sep)), e), "constants"); vp_assert(same(put(join(std::vector<Integer>(v), sep)), e), "temporaries");
	std::set<Integer> s(v.begin(), v.end()); std::vector<Integer> u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); vp_assert(same(put(join(s, sep)), glue(texts(u), &sep)), "sets in order");
	std::vector<std::vector<Integer>> vv = {v, {}, v}; std::string in = glue(texts(v), " "); vp_assert(same(put(join(vv, sep)), in + ",," + in), "inner containers are printed with spaces");
	if (n == 3) { std::array<Integer, 3> a = {v[0], v[1], v[2]}; vp_assert(same(put(join(a, sep)), e), "arrays"); Integer c[3] = {v[0], v[1], v[2]}; vp_assert(same(put(join(c, sep)), e), "C arrays"); vp_assert(same(put(join({v[0], v[1], v[2]}, sep)), e), "braced lists"); vp_assert(same(put(join({v[0], v[1], v[2]})), in), "braced lists with spaces"); vp_assert(same(put(join(std::array<Integer, 3>(a), sep)), e), "temporary arrays"); }
	if (n == 1) { vp_assert(same(put(join({v[0], 'x', "ab"}, sep)), dec(v[0]) + ",x,ab"), "mixed braced lists"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(tuples) {
	Integer a = vals[vp_choose("a", 0, 4)]; char c = (char)vp_char("c"), sep = (char)vp_char("sep"); vp_assume(sep != NOSEP); bool b = vp_flag("b"); std::string bs = b ? "true" : "false", s(1, sep), cs(1, c);
	std::pair<Integer, char> p{a, c}; vp_assert(same(put(join(p, sep)), dec(a) + s + cs), "pairs"); vp_assert(same(put(p), dec(a) + " " + cs), "pairs without join");
	std::tuple<bool, Integer, std::string> t{b, a, "z"}; vp_assert(same(put(join(t, sep)), bs + s + dec(a) + s + "z"), "tuples"); vp_assert(same(put(t), bs + " " + dec(a) + " z"), "tuples without join"); vp_assert(same(put(join(t, NOSEP)), bs + dec(a) + "z"), "tuples without separator"); vp_assert(same(put(join(std::tuple<Integer>(a), sep)), dec(a)), "single elements");
	std::tuple<std::pair<Integer, Integer>, std::vector<Integer>> n{{a, 1}, {2, a}}; vp_assert(same(put(join(n, sep)), dec(a) + " 1" + s + "2 " + dec(a)), "nested values are printed with spaces"); vp_assert(put(std::tuple<>()).empty(), "an empty tuple"); vp_reach("done"); vp_obs(c);
}
VP_CASE(chars) {
	int n = (int)vp_arg(); char sep = (char)vp_char("sep"); vp_assume(sep != NOSEP); std::string t = vp_string("t", n), e; for (int i = 0; i < n; i++) { if (i) e += sep; e += t[(size_t)i]; } vp_assert(same(put(join(t, sep)), e), "characters of a string"); vp_assert(same(put(join(std::string(t), sep)), e), "of a temporary string"); vp_assert(same(put(t), t), "strings are printed as they are");
	if (n == 3) { char c[4] = {t[0], t[1], t[2], 0}; vp_assert(same(put(join(c, sep)), e), "the last element of a C string is left out"); const char d[4] = {t[0], t[1], t[2], 0}; vp_assert(same(put(join(d, sep)), e), "the same for constants"); vp_assert(same(put(join("xyz", sep)), std::string("x") + sep + "y" + sep + "z"), "literals"); std::vector<char> v = {t[0], t[1], t[2]}; vp_assert(same(put(join(v, sep)), e), "vectors of characters"); std::vector<std::string> w = {t, "", t}; vp_assert(same(put(join(w, sep)), t + sep + sep + t), "strings as elements"); std::string_view sv(t); vp_assert(same(put(join(sv, sep)), e), "views"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(life) { // references for lvalues, copies of temporaries
	int k = (int)vp_arg(); std::vector<Integer> v = ints(2); std::string old = glue(texts(v), ";");
	if (k == 0) { auto j = join(v, ';'); v[0] = 5; vp_assert(same(put(j), "5;" + dec(v[1])), "an lvalue is referenced"); vp_assert(same(put(j), "5;" + dec(v[1])), "twice"); }
	if (k == 1) { auto j = join(std::move(v), ';'); v = {1, 2, 3}; vp_assert(same(put(j), old), "an rvalue is stored"); vp_assert(same(put(j), old), "twice"); }
	if (k == 2) { std::pair<Integer, Integer> p{v[0], v[1]}; auto j = join(p, ';'); auto q = join(std::pair<Integer, Integer>(p), ';'); p.first = 5; vp_assert(same(put(j), "5;" + dec(v[1])), "an lvalue pair is referenced"); vp_assert(same(put(q), old), "an rvalue pair is stored"); }
	if (k == 3) { std::string s = "ab"; auto j = join(s, ';'); auto q = join(std::string(s), ';'); s[0] = (char)vp_char("c"); vp_assert(same(put(j), std::string(1, s[0]) + ";b"), "an lvalue string is referenced"); vp_assert(same(put(q), "a;b"), "an rvalue string is stored"); }
	vp_reach("done"); vp_obs(k);
}
VP_CASE(direct) { // containers given to a stream without join
	int n = (int)vp_arg(); std::vector<Integer> v = ints(n); std::string e = glue(texts(v), " "); vp_assert(same(put(v), e), "containers are printed with spaces"); std::vector<std::pair<Integer, bool>> p; std::vector<std::string> q; for (Integer x : v) { p.emplace_back(x, x > 0); q.push_back(dec(x) + (x > 0 ? " true" : " false")); } vp_assert(same(put(p), glue(q, " ")), "of pairs as well"); std::map<Integer, Integer> m; std::string me; for (Integer x : v) m[x] = x; for (auto [x, y] : m) me += (me.empty() ? "" : " ") + dec(x) + " " + dec(y); vp_assert(same(put(m), me), "maps in order");
	if (n == 2) { Integer a[2][2] = {{v[0], v[1]}, {v[1], v[0]}}; vp_assert(same(put(a), e + " " + dec(v[1]) + " " + dec(v[0])), "arrays of arrays"); std::ostringstream o; OutputStream s(o); s << v[0] << ' ' << "x" << std::endl << v; vp_assert(same(o.str(), dec(v[0]) + " x\n" + e), "chains"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(reals) {
	Integer q = vp_range("q", -40, 40); q = (Integer)vp_conc(q); Real r = (Real)q / 4; Integer w = q < 0 ? -q : q; std::string z((size_t)(DEFAULT_PRECISION - 2), '0'); const char* f[] = {"00", "25", "50", "75"}; std::string e = (q < 0 ? "-" : "") + dec(w / 4) + "." + f[w % 4] + z;
	vp_assert(same(put(r), e), "fixed notation with the default precision"); vp_assert(same(put(join({r, r})), e + " " + e), "inside of a list"); vp_reach("done"); vp_obs(q);
}
