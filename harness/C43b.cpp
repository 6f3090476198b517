//@ bounds the same for svg colours, and the text of every colour
//@ case clampreal quick=0-1 reach=done
//@ case clampint reach=done
//@ case scale reach=done
//@ case sum reach=done
//@ case access reach=done
//@ case lerping quick=0-11 reach=done
//@ case make reach=done
//@ case text reach=done
#include "visualizer_svg.h"
static constexpr std::size_t PARTS = 3;
#include "colors.h"
VP_CASE(make) {
	std::uint32_t v = (std::uint32_t)vp_bits("rgb", 32); std::uint8_t a = u8("a"); Color c(v), e((std::uint8_t)(v >> 16), (std::uint8_t)(v >> 8), (std::uint8_t)v), f, g(a); vp_assert(vp_and(c.r == (v >> 16 & 255), vp_and(c.g == (v >> 8 & 255), c.b == (v & 255))), "24 bits"); vp_assert(c == e, "parts or number"); vp_assert(vp_and(g.r == a, vp_and(g.g == a, g.b == a)), "gray"); vp_assert(f == Color(0, 0, 0), "black");
	vp_assert(BLACK == Color(0, 0, 0) && DARKGRAY == Color(0x404040u) && GRAY == Color(0x808080u) && LIGHTGRAY == Color(0xC0C0C0u) && WHITE == Color(0xFFFFFFu) && RED == Color(255, 0, 0) && GREEN == Color(0, 255, 0) && BLUE == Color(0, 0, 255) && YELLOW == Color(255, 255, 0) && MAGENTA == Color(255, 0, 255) && CYAN == Color(0, 255, 255), "documented colours"); vp_reach("done"); vp_obs(c.r);
}
VP_CASE(text) {
	std::size_t at = (std::size_t)vp_choose("part", 0, 2); Color c(1, 0xA0, 0xFF); std::uint8_t v = u8("v"); c[at] = v; std::ostringstream o; int m = (int)vp_choose("mode", 0, 2); if (m == 1) o << std::hex << std::uppercase << std::setfill('*') << std::setprecision(3); if (m == 2) o << std::left << std::setfill('x'); auto flags = o.flags(); auto fill = o.fill(); o << c; std::string s = o.str();
	vp_assert(s.size() == 7 && s[0] == '#', "#rrggbb"); for (std::size_t i = 0; i < 6; i++) { int d = i % 2 ? c[i / 2] & 15 : c[i / 2] >> 4; char u = vp_ite(d < 10, '0' + d, 'A' + d - 10), l = vp_ite(d < 10, '0' + d, 'a' + d - 10); vp_assert(vp_or(s[i + 1] == l, s[i + 1] == u), "hexadecimal parts"); }
	vp_assert(o.flags() == flags && o.fill() == fill, "the format of the stream is unchanged"); vp_reach("done"); vp_obs((std::int64_t)s.size());
}
