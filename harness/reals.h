// language of decimal numbers
#pragma once
#include "common.h"
static bool expBig(const std::string& t) { // exponent of two or more digits not starting with 0 or 1 at a fixed place: outside the decimal model
	bool r = false; size_t n = t.size();
	for (size_t i = 0; i + 2 < n; i++) {
		bool e = vp_or(t[i] == 'e', t[i] == 'E');
		r = vp_or(r, vp_and(e, vp_and((unsigned char)(t[i + 1] - '2') <= 7, dig((unsigned char)t[i + 2]))));
		if (i + 3 < n) {
			bool sg = vp_or(t[i + 1] == '+', t[i + 1] == '-'), d1 = dig((unsigned char)t[i + 1]), d3 = dig((unsigned char)t[i + 3]), d2 = dig((unsigned char)t[i + 2]);
			r = vp_or(r, vp_and(e, vp_and(sg, vp_and((unsigned char)(t[i + 2] - '2') <= 7, d3))));
			r = vp_or(r, vp_and(e, vp_and(d1, vp_and(d2, d3))));
		}
	}
	return r;
}
// position automaton of [+-]?([0-9]*\.[0-9]+|[0-9]+\.|[0-9]+)([eE][+-]?[0-9]+)?
static bool realTok(const std::string& t) {
	bool S = true, sgn = false, I = false, D0 = false, D1 = false, F = false, E = false, es = false, X = false;
	for (char ch : t) {
		unsigned char c = (unsigned char)ch; bool d = dig(c), p = c == '.', e = vp_or(c == 'e', c == 'E'), s = vp_or(c == '+', c == '-');
		bool nI = vp_and(d, vp_or(S, vp_or(sgn, I))), nD0 = vp_and(p, vp_or(S, sgn)), nD1 = vp_and(p, I), nF = vp_and(d, vp_or(D0, vp_or(D1, F)));
		bool nE = vp_and(e, vp_or(I, vp_or(D1, F))), nes = vp_and(s, E), nX = vp_and(d, vp_or(E, vp_or(es, X))), ns = vp_and(s, S);
		S = false; sgn = ns; I = nI; D0 = nD0; D1 = nD1; F = nF; E = nE; es = nes; X = nX;
	}
	return vp_or(vp_or(I, D1), vp_or(F, X));
}
