//@ oracle a character-level reference reader: position in the text, one rule per operation and whitespace mode
//@ bounds texts of 0..4 arbitrary bytes (thorough 6), every sequence of 3 operations out of token, space, newline, end of file, not end of file, in both whitespace modes; files of up to 3 lines with up to 2 one-character tokens separated by an arbitrary byte
//@ outside longer texts and operation sequences; locale settings other than "C"
//@ case ops quick=0-24 thorough=0-34 reach=ok,bad
//@ case line quick=0-1 reach=ok,bad
//@ case triple quick=0-1 thorough=0-1 reach=ok,bad
#include "stream.h"
struct Ref {
	std::string t; bool sens; size_t p = 0; bool failed = false;
	int at() { return p < t.size() ? (int)(unsigned char)t[p] : -1; }
	void skip() { if (!sens) while (p < t.size() && wsp((unsigned char)t[p])) p++; }
	std::string token() { skip(); std::string r; if (p >= t.size()) { failed = true; return r; } if (sens && !graph((unsigned char)t[p])) { failed = true; return r; } while (p < t.size() && !wsp((unsigned char)t[p])) r += t[p++]; return r; }
	void one(char c) { if (!sens) return; if (p < t.size() && t[p] == c) p++; else failed = true; }
	void eof() { skip(); if (p < t.size()) failed = true; }
	void noteof() { skip(); if (p >= t.size()) failed = true; }
};
static bool step(Integer op, Feed& f, Ref& m) { // false: stop
	std::string g, w;
	int r = attempt([&] { if (op == 0) g = f.s.string(); if (op == 1) f.s.space(); if (op == 2) f.s.newline(); if (op == 3) f.s.eof(); if (op == 4) f.s.noteof(); });
	if (op == 0) w = m.token(); if (op == 1) m.one(' '); if (op == 2) m.one('\n'); if (op == 3) m.eof(); if (op == 4) m.noteof();
	vp_assert((r == -1) == !m.failed, "operation succeeds exactly when the text has the required shape");
	if (r == -1 && op == 0) { vp_assert(g.size() == w.size(), "token length"); bool same = true; for (size_t i = 0; i < w.size() && i < g.size(); i++) same = vp_and(same, g[i] == w[i]); vp_assert(same, "token content"); }
	if (r != -1) vp_assert(r == 43, "the configured verdict");
	vp_obs(r); vp_reach(r == -1 ? "ok" : "bad");
	return r == -1;
}
VP_CASE(ops) { // shard: 4 lengths x first operation
	int n = (int)(vp_arg() / 5); Integer op = vp_arg() % 5;
	if (n == 0) vp_reach(op == 3 || op == 1 || op == 2 ? "ok" : "bad");
	std::string t = vp_string("t", n); bool sens = vp_flag("space");
	Feed f(t, sens, true, 43); Ref m{t, sens};
	if (!step(op, f, m)) return;
	if (step(vp_choose("op2", 0, 4), f, m)) step(vp_choose("op3", 0, 4), f, m);
	if (n == 0) { vp_reach("ok"); vp_reach("bad"); }
}
VP_CASE(line) { // two tokens on a line, then the end
	bool sens = vp_arg() == 1;
	char s1 = vp_char("sep"), s2 = vp_char("end"), a = (char)('a' + vp_range("a", 0, 25)), b = (char)('a' + vp_range("b", 0, 25));
	std::string t{a, s1, b, s2}; if (vp_flag("more")) t += vp_char("x");
	Feed f(t, sens, true, 43); Ref m{t, sens};
	for (Integer op : {0, 1, 0, 2, 3}) if (!step(op, f, m)) return;
}
VP_CASE(triple) { // three lines: separators between the values are arbitrary bytes
	bool sens = vp_arg() == 1;
	std::string t = "1"; t += vp_char("s1"); t += "2"; t += vp_char("s2"); t += "3"; if (vp_flag("end")) t += vp_char("s3");
	bool nl = vp_flag("nl");
	Feed f(t, sens, true, 43); Ref m{t, sens};
	for (Integer op : {0, nl ? 2 : 1, 0, nl ? 1 : 2, 0, 2, 3}) if (!step(op, f, m)) return;
}
