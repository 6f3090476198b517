//@ oracle token length, content and position computed from the input bytes; patterns checked by hand-written matchers
//@ bounds tokens of 1..4 arbitrary printable bytes (thorough 6), every 64-bit lower and upper length bound, six patterns (character classes, repetition, alternation, anchored prefixes, counted repetition), both case modes
//@ outside patterns other than the listed ones; longer tokens
//@ assume std::regex is replaced by an automaton model while executing symbolically; sampled paths are replayed with the real std::regex
//@ case fold quick=1-4 thorough=1-7 reach=ok
//@ case length quick=1-4 thorough=1-7 reach=ok,bad
//@ case pattern quick=0-17 thorough=0-35 reach=ok,bad
//@ case both quick=1-3 thorough=1-5 reach=ok,len,pat
#include "stream.h"
static std::string sym(int n) { std::string t = vp_string("t", n); for (char c : t) vp_assume(graph((unsigned char)c)); return t; }
static char low(char c) { return (char)(c + 32 * (int)((unsigned char)(c - 'A') <= 25)); }
static bool lo(char c) { return (unsigned char)(c - 'a') <= 25; }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = vp_and(r, a[i] == b[i]); return r; }
static std::string folded(std::string s, bool cs) { if (!cs) for (char& c : s) c = low(c); return s; }
VP_CASE(fold) {
	std::string t = sym((int)vp_arg()); bool cs = vp_flag("case"), sens = vp_flag("space");
	Feed f(t + " x", sens, cs, 43); std::string g;
	int r = attempt([&] { g = f.s.string(); });
	vp_assert(r == -1, "a printable token is accepted"); vp_assert(same(g, folded(t, cs)), "content, folded to lower case exactly when case-insensitive");
	vp_assert(f.left() == 2, "nothing after the token is consumed");
	vp_reach("ok"); vp_obs(r); vp_obs(g[0]);
}
VP_CASE(length) {
	int n = (int)vp_arg(); std::string t = sym(n); Integer l = vp_i64("lo"), h = vp_i64("hi"); bool cs = vp_flag("case");
	Feed f(t, true, cs, 43); std::string g;
	int r = attempt([&] { g = f.s.string(l, h); });
	vp_assert((r == -1) == vp_and(l <= n, n < h), "length in the half-open interval");
	if (r == -1) { vp_assert(same(g, folded(t, cs)), "content"); vp_reach("ok"); } else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	vp_obs(r);
}
static const char* PAT[6] = {"[a-z]+", "a*b?", "yes|no|maybe", "[^0-9a]{2,3}", "x.*", "(ab)+c?"};
static bool match(int k, const std::string& t) {
	size_t n = t.size(); bool r = true;
	auto eq = [&](const char* w) { std::string s = w; return same(t, s); };
	if (k == 0) { for (char c : t) r = vp_and(r, lo(c)); return r; }
	if (k == 1) { for (size_t i = 0; i + 1 < n; i++) r = vp_and(r, t[i] == 'a'); return vp_and(r, vp_or(t[n - 1] == 'a', t[n - 1] == 'b')); }
	if (k == 2) return vp_or(eq("yes"), vp_or(eq("no"), eq("maybe")));
	if (k == 3) { for (char c : t) r = vp_and(r, vp_and(!dig((unsigned char)c), c != 'a')); return vp_and(r, n == 2 || n == 3); }
	if (k == 4) return t[0] == 'x';
	for (size_t i = 0; i < n; i++) r = vp_and(r, i + 1 == n && n % 2 == 1 ? t[i] == 'c' : t[i] == (i % 2 ? 'b' : 'a')); return vp_and(r, n >= 2);
}
VP_CASE(pattern) { // 6 patterns, lengths 1, 2, 3 (and 4, 5, 6)
	int k = (int)(vp_arg() % 6), n = 1 + (int)(vp_arg() / 6); std::string t = sym(n); bool cs = vp_flag("case");
	Feed f(t + "\n", true, cs, 43); std::string g; std::regex re(PAT[k]);
	int r = attempt([&] { g = f.s.string(re); });
	vp_assert((r == -1) == match(k, folded(t, cs)), "accepted exactly when the whole token matches");
	if (r == -1) { vp_assert(same(g, folded(t, cs)), "content"); vp_reach("ok"); } else { vp_assert(r == 43, "the configured verdict"); vp_reach("bad"); }
	if ((k == 2 && (n == 1 || n == 4 || n == 6)) || (k == 3 && (n == 1 || n > 3)) || (k == 5 && n == 1)) vp_reach("ok");
	vp_obs(r);
}
VP_CASE(both) {
	int n = (int)vp_arg(); std::string t = sym(n); Integer l = vp_i64("lo"), h = vp_i64("hi"); int k = (int)vp_choose("k", 0, 1) * 4; bool cs = vp_flag("case");
	Feed f(t, true, cs, 43); std::string g; std::regex re(PAT[k]); Constraint c;
	bool withc = vp_flag("constraint");
	int r = attempt([&] { g = withc ? f.s.string(re, l, h, c) : f.s.string(re, l, h); });
	bool len = vp_and(l <= n, n < h), m = match(k, folded(t, cs));
	vp_assert((r == -1) == vp_and(len, m), "length and pattern both apply");
	if (r == -1) { vp_assert(same(g, folded(t, cs)), "content"); vp_reach("ok"); } else { vp_assert(r == 43, "the configured verdict"); if (len) vp_reach("pat"); else vp_reach("len"); }
	vp_obs(r);
}
