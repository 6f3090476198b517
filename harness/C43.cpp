//@ oracle integer arithmetic of each part: saturating sums and differences, rounded products and convex combinations, the over operator bounded by its exact rational value
//@ bounds every long double and every integer clamped (doubles: multiples of 1/8 within 375); every pair of colours added, subtracted and compared; every colour times 14 factors; interpolation of every value with 12 (thorough: all of them per arg) others at multiples of 1/8; blending: every part and 16 alphas above and below
//@ outside NaN; interpolation at other positions
//@ case clampreal quick=0-1 reach=done
//@ case clampint reach=done
//@ case scale reach=done
//@ case sum reach=done
//@ case access reach=done
//@ case lerping quick=0-11 reach=done
//@ case blending quick=0-15 reach=done
//@ case opaque quick=0,5,10,15 thorough=0-15 reach=done
//@ case make reach=done
#include "visualizer_png.h"
static constexpr std::size_t PARTS = 4;
#include "colors.h"
static const int alphas[] = {0, 1, 2, 3, 64, 100, 127, 128, 129, 170, 200, 252, 253, 254, 255, 85};
VP_CASE(blending) {
	int au = alphas[vp_arg()], al = alphas[vp_choose("lower", 0, 15)]; std::uint8_t p[4], q[4]; for (int i = 0; i < 3; i++) { p[i] = u8("lower"); q[i] = u8("upper"); } p[3] = (std::uint8_t)al; q[3] = (std::uint8_t)au; Color l = some(p), u = some(q), r = blend(l, u);
	int e = au * 255 + al * (255 - au); vp_assert(255 * r.a <= e && e - 255 * r.a < 255, "alpha of the over operator"); vp_assert(r.a >= au && r.a >= al, "nothing becomes more transparent");
	for (std::size_t i = 0; i < 3; i++) {
		vp_assert(vp_and(r[i] >= vp_ite(p[i] < q[i], p[i], q[i]), r[i] <= vp_ite(p[i] < q[i], q[i], p[i])), "parts lie between those of the colours");
		if (au == 255) vp_assert(r[i] == q[i], "an opaque colour replaces"); if (au == 0) vp_assert(r[i] == p[i], "a transparent colour is not seen"); if (al == 0 && au) vp_assert(r[i] == q[i], "nothing is blended from a transparent colour");
		if (al == 255) { int x = q[i] * au + p[i] * (255 - au); vp_assert(vp_and(255 * r[i] <= x, x - 255 * r[i] < 255), "parts are weighted by alpha"); }
	}
	vp_reach("done"); vp_obs(r.r);
}
VP_CASE(opaque) { // every alpha above, one part
	int a0 = (int)vp_arg() * 16, a = a0 + (int)vp_choose("alpha", 0, 15); std::uint8_t x = u8("lower"), y = u8("upper"); Color r = blend(Color(x, x, x), Color(y, x, x, (std::uint8_t)a)); vp_assert(r.a == 255, "opaque colours stay opaque"); int e = y * a + x * (255 - a); vp_assert(vp_and(255 * r.r <= e, e - 255 * r.r < 255), "parts are weighted by alpha"); vp_assert(vp_and(r.g == x, r.b == x), "equal parts stay"); vp_reach("done"); vp_obs(r.r);
}
VP_CASE(make) {
	std::uint32_t v = (std::uint32_t)vp_bits("rgb", 32); std::uint8_t a = u8("a"); Color c(v), d(v, a), e((std::uint8_t)(v >> 16), (std::uint8_t)(v >> 8), (std::uint8_t)v), f; vp_assert(vp_and(c.r == (v >> 16 & 255), vp_and(c.g == (v >> 8 & 255), vp_and(c.b == (v & 255), c.a == 255))), "24 bits, opaque"); vp_assert(c == e, "parts or number"); vp_assert(vp_and(d.r == c.r, vp_and(d.g == c.g, vp_and(d.b == c.b, d.a == a))), "alpha is given"); vp_assert(f == Color(0, 0, 0, 255), "black");
	vp_assert(BLACK == Color(0) && DARKGRAY == Color(0x404040) && GRAY == Color(0x808080) && LIGHTGRAY == Color(0xC0C0C0) && WHITE == Color(0xFFFFFF) && TRANSPARENT == Color(0, 0, 0, 0) && RED == Color(255, 0, 0) && GREEN == Color(0, 255, 0) && BLUE == Color(0, 0, 255) && YELLOW == Color(255, 255, 0) && MAGENTA == Color(255, 0, 255) && CYAN == Color(0, 255, 255), "documented colours"); vp_reach("done"); vp_obs(c.r);
}
