// colour arithmetic of both visualizers; PARTS parts, make(v...) builds a colour
#pragma once
#include "vp.h"
static Color some(const std::uint8_t* p) { Color c; for (std::size_t i = 0; i < PARTS; i++) c[i] = p[i]; return c; }
static std::uint8_t u8(const char* n) { return (std::uint8_t)vp_bits(n, 8); }
VP_CASE(clampreal) {
	std::int64_t k = vp_arg(); std::uint8_t r; long double v;
	if (k == 0) { v = vp_ld("v"); vp_assume(v == v); r = clamp_color(v); } else { double d = (double)vp_range("v", -3000, 3000) / 8.0; v = d; r = clamp_color(d); }
	vp_assert(vp_or(!(v < 0.5L), r == 0), "small values become 0"); vp_assert(vp_or(!(v >= 254.5L), r == 255), "large values become 255");
	vp_assert(vp_or(vp_or(v < 0.5L, v >= 254.5L), vp_and(r - 0.5L <= v, v < r + 0.5L)), "values are rounded to the nearest part"); vp_reach("done"); vp_obs(0);
}
VP_CASE(clampint) {
	std::int64_t v = vp_i64("v"); int w = (int)vp_bits("w", 32); std::uint8_t r = clamp_color((long long)v), s = clamp_color(w);
	vp_assert(r == vp_ite(v < 0, 0, vp_ite(v > 255, 255, v)), "integers are clamped"); vp_assert(s == vp_ite(w < 0, 0, vp_ite(w > 255, 255, w)), "integers are clamped"); vp_reach("done"); vp_obs(r + s);
}
VP_CASE(scale) {
	static const long double f[] = {0, 0.25L, 0.5L, 1, 1.5L, 2, 3, -1, -0.25L, 1e30L, 1e300L, 0.125L, 37.75L, 255}; static const int num[] = {0, 2, 4, 8, 12, 16, 24, -8, -2, 1 << 20, 1 << 20, 1, 302, 2040};
	int k = (int)vp_choose("f", 0, 13); std::uint8_t p[4]; for (std::size_t i = 0; i < PARTS; i++) p[i] = u8("part"); Color c = some(p), d = c; Color x = f[k] * c, y = c * f[k]; Color& z = d *= f[k]; vp_assert(&z == &d, "assignment yields the colour");
	for (std::size_t i = 0; i < PARTS; i++) { int e = (2 * num[k] * p[i] + 8) / 16; e = vp_ite(2 * num[k] * p[i] + 8 < 16, 0, vp_ite(e > 255, 255, e)); vp_assert(x[i] == e, "every part is multiplied, rounded and clamped"); vp_assert(y[i] == e, "multiplication commutes"); vp_assert(d[i] == e, "multiplication assigns"); vp_assert(c[i] == p[i], "operands are unchanged"); } vp_reach("done"); vp_obs(x[0]);
}
VP_CASE(sum) {
	std::uint8_t p[4], q[4]; for (std::size_t i = 0; i < PARTS; i++) { p[i] = u8("a"); q[i] = u8("b"); } Color a = some(p), b = some(q), s = a + b, d = a - b, t = a, u = a; Color& t2 = t += b; Color& u2 = u -= b; vp_assert(&t2 == &t && &u2 == &u, "assignment yields the colour");
	bool eq = true;
	for (std::size_t i = 0; i < PARTS; i++) { int e = p[i] + q[i]; e = vp_ite(e > 255, 255, e); int g = p[i] - q[i]; g = vp_ite(g < 0, 0, g); vp_assert(s[i] == e, "parts are added and clamped"); vp_assert(t[i] == e, "addition assigns"); vp_assert(d[i] == g, "parts are subtracted and clamped"); vp_assert(u[i] == g, "subtraction assigns"); eq = vp_and(eq, p[i] == q[i]); }
	bool x = a == b, y = a != b; vp_assert(x == eq, "colours are equal iff all parts are"); vp_assert(y != eq, "colours differ iff a part does"); vp_reach("done"); vp_obs(s[0]);
}
VP_CASE(access) {
	std::uint8_t p[4]; for (std::size_t i = 0; i < PARTS; i++) p[i] = u8("part"); Color c = some(p); const Color k = c; vp_assert(vp_and(c.r == p[0], vp_and(c.g == p[1], c.b == p[2])), "parts are red, green and blue"); std::size_t at = (std::size_t)vp_choose("i", 0, (std::int64_t)PARTS + 1); if (at > PARTS) at = (std::size_t)-1; int n = 0;
	try { std::uint8_t v = k[at]; vp_assert(v == p[at % PARTS], "reads the part"); } catch (std::out_of_range&) { n++; }
	try { std::uint8_t v = (c + Color(c.r, c.g, c.b))[at]; (void)v; } catch (std::out_of_range&) { n++; }
	try { c[at] = 7; for (std::size_t i = 0; i < PARTS; i++) vp_assert(c[i] == (i == at ? 7 : p[i]), "writes the part"); } catch (std::out_of_range&) { n++; }
	vp_assert(n == (at >= PARTS ? 3 : 0), "parts out of range are rejected"); vp_reach("done"); vp_obs(n);
}
VP_CASE(lerping) {
	static const int q[] = {0, 255, 1, 128, 127, 254, 2, 3, 77, 100, 200, 253}; int k = (int)vp_choose("f", 0, 8); int w = q[vp_arg() % 12]; bool flip = vp_flag("flip"); std::uint8_t v = u8("v");
	std::uint8_t p[4], o[4]; for (std::size_t i = 0; i < PARTS; i++) { p[i] = flip ? v : (std::uint8_t)w; o[i] = flip ? (std::uint8_t)w : v; } Color r = lerp(some(p), some(o), k / 8.0L);
	for (std::size_t i = 0; i < PARTS; i++) { int e = p[i] * k + o[i] * (8 - k); vp_assert(vp_and(8 * r[i] - e <= 4, e - 8 * r[i] <= 4), "parts are interpolated and rounded"); } vp_reach("done"); vp_obs(r[0]);
}
