#pragma once
#include "common.h"
#include <fstream>
#include <sstream>
// reads back a number printed to a stream (symbolic numbers are printed as an opaque token by the executor)
static inline bool getInt(const std::string& s, size_t& p, Integer& v) {
	if (p < s.size() && s[p] == '\x01') { UInteger u = 0; for (int i = 0; i < 8; i++) u |= (UInteger)(unsigned char)s[p + 2 + (size_t)i] << (8 * i); v = s[p + 1] == '-' ? (Integer)(0 - u) : (Integer)u; p += 10; return true; }
	bool neg = p < s.size() && s[p] == '-'; if (neg) p++;
	size_t a = p; UInteger u = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9') u = u * 10 + (UInteger)(s[p++] - '0');
	v = neg ? (Integer)(0 - u) : (Integer)u; return p > a;
}
// reals: fixed notation with `prec` decimals natively; returns |printed - v| <= half a unit of the last decimal
static inline bool getReal(const std::string& s, size_t& p, Real v, int prec) {
	if (p < s.size() && s[p] == '\x02') { Real x = 0; char* c = (char*)&x; for (int i = 0; i < 10; i++) c[i] = s[p + 1 + (size_t)i]; int pr = s[p + 11]; p += 12; return vp_and(x == v, pr == prec); }
	size_t a = p; if (p < s.size() && s[p] == '-') p++;
	Real x = 0; bool dot = false; int d = 0; while (p < s.size() && (s[p] == '.' || (s[p] >= '0' && s[p] <= '9'))) { if (s[p] == '.') dot = true; else { x = x * 10 + (s[p] - '0'); if (dot) d++; } p++; }
	Real t = 1; for (int i = 0; i < d; i++) t *= 10;
	x /= t; if (s[a] == '-') x = -x;
	Real e = x - v; if (e < 0) e = -e;
	return p > a && d == prec && e <= 0.51L / t;
}
static inline bool lit(const std::string& s, size_t& p, const char* w) { while (*w) { if (p >= s.size() || s[p] != *w) return false; p++; w++; } return true; }
static inline std::string slurp(const std::string& name, bool& ok) { std::ifstream f(name); ok = f.good(); std::ostringstream o; char c; if (ok) while (f.get(c)) o << c; return o.str(); }
