#pragma once
#include "common.h"
#include <sstream>
// runs f; -1 when it returns, otherwise the exit code of the verdict
template<typename F> static int attempt(F f) { try { f(); return -1; } catch (VerdictExc& e) { return e.code; } }
struct Feed { // a stream under test over a text, with its own diagnostics sink
	std::istringstream in; std::ostringstream diag; OutputStream out; InputStream s;
	Feed(const std::string& text, bool space, bool cs, int code, Real a = DEFAULT_EPS, Real r = DEFAULT_EPS) : in(text), out(diag), s(in, space, cs, out, Verdicts::Verdict(code), a, r) {}
	long left() { in.clear(); auto p = in.tellg(); return (long)in.str().size() - (long)p; } // characters not consumed
};
static inline bool wsp(unsigned char c) { return vp_or(c == ' ', (unsigned char)(c - 9) <= 4); }
static inline bool dig(unsigned char c) { return (unsigned char)(c - '0') <= 9; }
static inline bool graph(unsigned char c) { return (unsigned char)(c - 33) <= 93; }
static inline bool intTok(const std::string& t) { // 0|-?[1-9][0-9]*
	size_t n = t.size(); if (n == 0) return false;
	bool neg = t[0] == '-', rest = true;
	for (size_t i = 2; i < n; i++) rest = vp_and(rest, dig((unsigned char)t[i]));
	bool nz0 = (unsigned char)(t[0] - '1') <= 8;
	if (n == 1) return dig((unsigned char)t[0]);
	bool pos = vp_and(nz0, vp_and(dig((unsigned char)t[1]), rest)), ng = vp_and(neg, vp_and((unsigned char)(t[1] - '1') <= 8, rest));
	return vp_or(pos, ng);
}
