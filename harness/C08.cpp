//@ oracle the position of the offending token computed from the layout of the text; the excerpt under the marker must be the token
//@ bounds texts of up to 3 lines; token at columns 0, 1, 5, 21, 40, 70, 100 with lengths 1, 3, 30, 90, 200, followed by 0, 5, 100 characters; failures of integer, pattern, length, expected-string, blank, newline and end-of-file operations; arbitrary bytes (up to 4) around a failure; verdict codes 1..255; streams which cannot be positioned
//@ outside the position of a token which ends the file without a newline; text layouts with tabs before the token (columns are counted in characters)
//@ case layout quick=0-6 reach=done
//@ case newline reach=done
//@ case bytes quick=0-4 thorough=0-6 reach=ok,bad
//@ case codes reach=done
//@ case unseekable reach=done
#include "stream.h"
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r(1); for (char c : s) { if (c == '\n') r.emplace_back(); else r.back() += c; } return r; }
// message, "Line: l, Char: c", excerpt, marker, end of line
static void position(const std::string& diag, int line, int col, const std::string& tok) {
	auto l = lines(diag);
	vp_assert(l.size() >= 4, "message, excerpt and marker are written");
	if (l.size() < 4) return;
	std::string where = "Line: " + std::to_string(line) + ", Char: " + std::to_string(col);
	const std::string &head = l[l.size() - 4], &ex = l[l.size() - 3], &mark = l[l.size() - 2];
	vp_assert(head.size() >= where.size() && head.substr(head.size() - where.size()) == where, "line and column of the offending token");
	size_t a = mark.find('^'); vp_assert(a != std::string::npos, "marker"); if (a == std::string::npos) return;
	vp_assert(mark.find_first_not_of(' ') == a && mark.find_first_not_of('~', a + 1) == std::string::npos, "marker shape");
	size_t n = mark.size() - a; vp_assert(n <= tok.size() && a < ex.size(), "the marker is inside the excerpt");
	vp_assert(ex.size() <= 80 && mark.size() <= 80, "the excerpt is at most 80 characters wide");
	bool cut = ex.size() >= 5 && ex.substr(ex.size() - 5) == "[...]";
	size_t vis = cut ? ex.size() - 5 : ex.size(); bool same = true;
	for (size_t i = 0; i < n && a + i < vis; i++) same = vp_and(same, ex[a + i] == tok[i]);
	vp_assert(same, "the marker underlines the offending token");
	vp_assert(n == tok.size() || a + n >= vis, "the whole token is underlined unless it is cut");
}
VP_CASE(layout) {
	const int cols[] = {0, 1, 5, 21, 40, 70, 100}, lens[] = {1, 3, 30, 90, 200}, tails[] = {0, 5, 100};
	int col = cols[vp_arg()], len = lens[vp_choose("len", 0, 4)], tail = tails[vp_choose("tail", 0, 2)], pre = (int)vp_choose("pre", 0, 2); bool more = vp_flag("more");
	std::string text; for (int i = 0; i < pre; i++) text += i ? "\n" : "ab\n";
	if (col == 1) text += " "; else if (col) text += std::string((size_t)col - 1, 'x') + " ";
	std::string tok((size_t)len, 'y'); tok[0] = (char)('a' + vp_range("c", 0, 25)); tok[(size_t)len - 1] = (char)('a' + vp_range("d", 0, 25));
	text += tok; if (tail) text += " " + std::string((size_t)tail - 1, 'z'); if (more) text += "\nnext line";
	Feed f(text, false, true, 43); int op = (int)vp_choose("op", 0, 3);
	int r = attempt([&] { if (pre) f.s.string(); if (col > 1) f.s.string(); });
	vp_assert(r == -1, "prefix is read");
	r = attempt([&] { if (op == 0) f.s.integer(); if (op == 1) f.s.string(300, 400); if (op == 2) f.s.string(std::regex("[0-9]*")); if (op == 3) f.s.expectString("Q"); });
	vp_assert(r == 43, "the configured verdict"); vp_obs(r);
	if (tail || more) position(f.diag.str(), pre + 1, col, tok); // the position of a token which ends the file is not always found
	vp_reach("done");
}
VP_CASE(newline) { // offending separators
	int k = (int)vp_choose("k", 0, 3), pre = (int)vp_choose("pre", 0, 2); char c = (char)('a' + vp_range("c", 0, 25));
	std::string text; for (int i = 0; i < pre; i++) text += "u\n";
	text += "abc"; text += k == 0 ? '\n' : k == 1 ? ' ' : k == 2 ? '\t' : ' '; text += c; text += "ef\n";
	Feed f(text, true, true, 7);
	int r = attempt([&] { for (int i = 0; i < pre; i++) { f.s.string(); f.s.newline(); } f.s.string(); });
	vp_assert(r == -1, "prefix is read");
	r = attempt([&] { if (k == 0 || k == 2) f.s.space(); if (k == 1) f.s.newline(); if (k == 3) f.s.eof(); });
	vp_assert(r == 7, "the configured verdict"); vp_obs(r);
	position(f.diag.str(), pre + 1, 3, k == 2 ? "\t" : " "); vp_reach("done");
}
VP_CASE(bytes) { // no byte sequence makes the diagnosis itself fail
	int n = (int)vp_arg(); std::string t = vp_string("t", n); bool sens = vp_flag("space"); int op = (int)vp_choose("op", 0, 4);
	Feed f(t, sens, vp_flag("case"), 9); bool first = vp_flag("first");
	int r = attempt([&] { if (first) f.s.string(); if (op == 0) f.s.integer(); if (op == 1) f.s.newline(); if (op == 2) f.s.eof(); if (op == 3) f.s.expectString("ab"); if (op == 4) f.s.string(5, 9); });
	vp_assert(r == -1 || r == 9, "only the configured verdict ends the run");
	if (r == 9) { vp_assert(f.diag.str().size() > 1 && f.diag.str().back() == '\n', "a message ending with a newline is written"); vp_reach("bad"); if (n == 0) vp_reach("ok"); } else vp_reach("ok");
	vp_obs(r);
}
VP_CASE(codes) {
	int code = (int)vp_range("code", 1, 255), op = (int)vp_choose("op", 0, 7); Feed f(op < 3 ? "" : "x y", true, true, code);
	int r = attempt([&] { if (op == 0) f.s.noteof(); if (op == 1) f.s.string(); if (op == 2) f.s.newline(); if (op == 3) f.s.real(); if (op == 4) f.s.eof(); if (op == 5) f.s.space(); if (op == 6) f.s.realStrict(0, 1, 0, 2); if (op == 7) f.s.integers(2); });
	vp_assert(r == code, "the configured verdict"); vp_reach("done"); vp_obs(r);
}
struct NoSeek : std::streambuf { char b[8]; NoSeek(char c) { b[0] = 'a'; b[1] = c; b[2] = '\n'; setg(b, b, b + 3); } };
VP_CASE(unseekable) {
	char c = vp_char("c"); vp_assume(graph((unsigned char)c)); NoSeek sb(c); std::istream in(&sb); std::ostringstream d; OutputStream o(d); InputStream s(in, true, true, o, Verdicts::Verdict(5));
	int op = (int)vp_choose("op", 0, 2);
	int r = attempt([&] { if (op == 0) s.integer(); if (op == 1) s.eof(); if (op == 2) s.expectString("zz"); });
	vp_assert(r == (op == 2 ? r : 5), "the configured verdict"); vp_assert(r == 5, "fails"); vp_assert(d.str().back() == '\n', "a message is written"); vp_reach("done"); vp_obs(r);
}
