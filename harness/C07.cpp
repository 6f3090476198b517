//@ bounds every char value (256); strings of length 0..4 over all bytes; toLower/toUpper strings of length 0..4; string pairs up to 4x4
//@ oracle direct definition over ASCII code points; branch-free
//@ case chars reach=done
//@ case strings quick=0-4 thorough=0-6 reach=some
//@ case equal quick=0-4 thorough=0-6 reach=eq,ne
//@ case token quick=0-5 thorough=0-9 reach=tok,nontok
#include "common.h"
static bool lo(unsigned char c) { return (unsigned char)(c - 97) <= 25; }
static bool up(unsigned char c) { return (unsigned char)(c - 65) <= 25; }
static bool dg(unsigned char c) { return (unsigned char)(c - 48) <= 9; }
static unsigned char low(unsigned char c) { return (unsigned char)(c + 32 * (int)up(c)); }
static unsigned char upp(unsigned char c) { return (unsigned char)(c - 32 * (int)lo(c)); }
static bool vw(unsigned char c) { c = low(c); return bool((c == 'a') | (c == 'e') | (c == 'i') | (c == 'o') | (c == 'u')); }
VP_CASE(chars) {
	char c = vp_char("c"); unsigned char u = (unsigned char)c;
	vp_assert(isLower(c) == lo(u), "isLower"); vp_assert(isUpper(c) == up(u), "isUpper");
	vp_assert(isLetter(c) == (lo(u) | up(u)), "isLetter"); vp_assert(isDigit(c) == dg(u), "isDigit");
	vp_assert(isVowel(c) == vw(u), "isVowel"); vp_assert(isConsonant(c) == ((lo(u) | up(u)) & !vw(u)), "isConsonant");
	vp_assert((unsigned char)toLower(c) == low(u), "toLower"); vp_assert((unsigned char)toUpper(c) == upp(u), "toUpper");
	vp_assert((unsigned char)toDefaultCase(c) == low(u), "toDefaultCase");
	vp_obs(toLower(c)); vp_obs(isConsonant(c));
	vp_reach("done");
}
template<typename F, typename G> static void pred(const std::string& s, F f, G g, const char* l) {
	auto r = f(s);
	bool want = true; char first = 0; bool found = false;
	for (char c : s) { bool ok = g((unsigned char)c); first = (char)vp_ite(vp_or(ok, found), first, c); found = vp_or(found, !ok); want = vp_and(want, ok); }
	vp_assert(bool(r) == want, l);
	if constexpr (!std::is_same_v<decltype(r), bool>) {
		if (!bool(r)) { vp_assert(r.hasReason(), l); vp_assert(!g((unsigned char)*r.reason), l); vp_assert(*r.reason == first, l); }
	}
	vp_obs(bool(r));
}
VP_CASE(strings) {
	int n = (int)vp_arg();
	std::string s = vp_string("s", n);
	int k = (int)vp_choose("which", 0, 8);
	if (k == 0) pred(s, [](auto& x) { return isLower(std::string_view(x)); }, lo, "isLower(string)");
	if (k == 1) pred(s, [](auto& x) { return isUpper(std::string_view(x)); }, up, "isUpper(string)");
	if (k == 2) pred(s, [](auto& x) { return isLetter(std::string_view(x)); }, [](unsigned char c) { return bool(lo(c) | up(c)); }, "isLetter(string)");
	if (k == 3) pred(s, [](auto& x) { return isDigit(std::string_view(x)); }, dg, "isDigit(string)");
	if (k == 4) pred(s, [](auto& x) { return isVowel(std::string_view(x)); }, vw, "isVowel(string)");
	if (k == 5) pred(s, [](auto& x) { return isConsonant(std::string_view(x)); }, [](unsigned char c) { return bool((lo(c) | up(c)) & !vw(c)); }, "isConsonant(string)");
	if (k >= 6) {
		std::string t = s;
		if (k == 6) toLower(t); else if (k == 7) toUpper(t); else toDefaultCase(t);
		vp_assert(t.size() == s.size(), "case conversion keeps the length");
		bool ok = true;
		for (size_t i = 0; i < s.size(); i++) ok = vp_and(ok, (unsigned char)t[i] == (k == 7 ? upp((unsigned char)s[i]) : low((unsigned char)s[i])));
		vp_assert(ok, "case conversion of every position");
	}
	vp_reach("some");
}
VP_CASE(equal) {
	int n = (int)vp_arg(), m = (int)vp_choose("m", 0, 4);
	std::string a = vp_string("a", n), b = vp_string("b", m);
	bool cs = vp_flag("caseSensitive");
	auto r = details::stringEqual(a, b, cs);
	long d = -1;
	for (int i = std::min(n, m) - 1; i >= 0; i--) {
		unsigned char x = (unsigned char)a[(size_t)i], y = (unsigned char)b[(size_t)i];
		bool same = cs ? x == y : low(x) == low(y);
		d = vp_ite(same, d, i);
	}
	if (n == m) vp_assert(bool(r) == (d == -1), "stringEqual"); else vp_assert(!bool(r), "stringEqual of different lengths");
	if (!bool(r)) { vp_assert(r.hasReason(), "mismatch position given"); vp_assert((long)*r.reason == vp_ite(d == -1, std::min(n, m), d), "first mismatch position"); vp_reach("ne"); }
	else vp_reach("eq");
	vp_obs(bool(r));
}
VP_CASE(token) {
	std::string a = vp_string("a", (int)vp_arg());
	bool ok = !a.empty();
	for (char c : a) { unsigned char u = (unsigned char)c; ok = vp_and(ok, !bool((u == 32) | ((unsigned char)(u - 9) <= 4))); }
	bool r = details::isToken(a);
	vp_assert(r == ok, "isToken");
	if (r) vp_reach("tok"); else vp_reach("nontok");
	vp_obs(r);
}
