//@ oracle the set of painted pixels: the rectangle and its border; the connected component of equal colours found by relaxation to a fixed point; a monotone 8-connected walk of max(|dx|,|dy|)+1 pixels within half a pixel of the line; each painted pixel is combined once with its previous colour
//@ bounds images of 1x1 to 4x4 (rectangles, lines 6x6) with every placement of the corners; flood fill on every pattern of two colours of 3x3 (thorough 4x3) and symbolic fill parts; the four blend modes; images of up to 5x5 cleared
//@ outside pixels outside the image (documented as unchecked); larger images
//@ case rect quick=0-7 thorough=0-15 reach=done
//@ case fill quick=0-7 thorough=0-15 reach=done
//@ case flood quick=0-20 reach=done
//@ case floodkeep quick=0-3 reach=done
//@ case line quick=0-5 reach=done
//@ case longline quick=0-7 thorough=0-15 reach=done
//@ case clear reach=done
//@ case modes reach=done
#include "visualizer_png.h"
#include "vp.h"
static Color over(int mode, const Color& lo, const Color& up) { return mode == 0 ? up : mode == 1 ? blend(lo, up) : mode == 2 ? lo + up : lo - up; }
static Color base(Integer x, Integer y) { return Color((std::uint8_t)(100 + 20 * x), (std::uint8_t)(90 + 15 * y), (std::uint8_t)(10 * x + 7 * y), (std::uint8_t)(255 - 9 * x - 5 * y)); }
static PNG image(Integer w, Integer h) { PNG p; p.clear(w, h); for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) p(x, y) = base(x, y); return p; }
static Color paint(const char* n) { std::uint8_t v = (std::uint8_t)vp_bits(n, 8); return Color(v, 30, 200, 120); }
static void rectangle(int mode, PNG& p, Point a, Point b, Color border, Color fill) { if (mode == 0) p.fillRectangle(a, b, border, fill); if (mode == 1) p.fillRectangle<BLEND>(a, b, border, fill); if (mode == 2) p.fillRectangle<ADD>(a, b, border, fill); if (mode == 3) p.fillRectangle<SUBTRACT>(a, b, border, fill); }
static Point pt(const char* n, Integer w, Integer h) { std::int64_t k = vp_choose(n, 0, w * h - 1); return Point(k % w, k / w); }
static bool inside(Integer v, Integer a, Integer b) { return std::min(a, b) <= v && v <= std::max(a, b); }
static const Integer W[] = {4, 3, 4, 1}, H[] = {4, 4, 3, 4};
VP_CASE(rect) {
	int q = (int)vp_arg(); Integer w = q < 8 ? 4 : W[q % 4], h = q < 8 ? 4 : H[q % 4]; int mode = q % 4; bool dif = q / 4 % 2; PNG p = image(w, h); Point a = pt("a", w, h), b = pt("b", w, h); Color border = paint("border"), fill(20, 250, 3, 200); if (dif) rectangle(mode, p, a, b, border, fill); else { if (mode == 0) p.fillRectangle(a, b, border); if (mode == 1) p.fillRectangle<BLEND>(a, b, border); if (mode == 2) p.fillRectangle<ADD>(a, b, border); if (mode == 3) p.fillRectangle<SUBTRACT>(a, b, border); fill = border; }
	vp_assert(p.width() == w && p.height() == h, "the size stays");
	for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) { Color e = base(x, y); if (inside(x, a.x, b.x) && inside(y, a.y, b.y)) e = over(mode, e, x == a.x || x == b.x || y == a.y || y == b.y ? border : fill); vp_assert(p(x, y) == e, "border and content of the rectangle are painted once, all else stays"); }
	vp_reach("done"); vp_obs(w);
}
VP_CASE(fill) { // a loop which does not terminate shows as a step limit
	int q = (int)vp_arg(); Integer w = 2 + q % 4, h = 5 - q % 4; PNG p = image(w, h); Color fill = paint("fill"); Point a(0, 0), b(w - 1, h - 1); if (q / 4 % 2) std::swap(a, b); if (q / 8 % 2) { a = Point(w - 1, 0); b = Point(0, h - 1); } p.fillRectangle(a, b, fill, RED); for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) { bool e = x == 0 || y == 0 || x == w - 1 || y == h - 1; vp_assert(p(x, y) == (e ? fill : RED), "the whole image is a rectangle"); } vp_reach("done"); vp_obs(w);
}
static void flooded(Integer w, Integer h, int at, bool keep) {
	PNG p; p.clear(w, h, RED); int n = (int)(w * h); bool other[16]; int mode = keep ? (int)vp_arg() : (int)vp_choose("mode", 0, 3); int free = keep ? 3 : n - 1; for (int i = 0; i < n; i++) { other[i] = i != at && (i < free || i == n - 1 || n <= 9) && vp_flag("other"); if (other[i]) p(i % w, i / w) = i % 2 ? BLUE : Color(255, 0, 0, 254); }
	Color f = keep ? mode == 0 ? RED : mode == 1 ? Color(1, 2, 3, 0) : Color(0, 0, 0, 0) : Color(5, (std::uint8_t)vp_bits("fill", 8), 9, 100);
	if (keep && mode == 3) f = TRANSPARENT;
	PNG q = p; Integer x0 = at % w, y0 = at / w; if (mode == 0) p.floodFill(Point(x0, y0), f); if (mode == 1) p.floodFill<BLEND>(Point(x0, y0), f); if (mode == 2) p.floodFill<ADD>(Point(x0, y0), f); if (mode == 3) p.floodFill<SUBTRACT>(Point(x0, y0), f);
	bool in[16] = {}; in[at] = true; for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) { if (in[i] || other[i]) continue; int x = (int)(i % w), y = (int)(i / w); if ((x && in[i - 1]) || (x + 1 < w && in[i + 1]) || (y && in[i - w]) || (y + 1 < h && in[i + w])) in[i] = true; }
	for (int i = 0; i < n; i++) { Color e = q(i % w, i / w); if (in[i]) e = over(mode, e, f); vp_assert(p(i % w, i / w) == e, "exactly the connected pixels of the same colour are painted once"); } vp_reach("done"); vp_obs(n);
}
VP_CASE(flood) { int a = (int)vp_arg(); if (a < 9) flooded(3, 3, a, false); else flooded(4, 3, a - 9, false); }
VP_CASE(floodkeep) { flooded(4, 2, (int)vp_choose("at", 0, 7), true); }
static void lined(Integer w, Integer h, Point a, Point b, int mode, Color f) {
	PNG p = image(w, h); if (mode == 0) p.drawLine(a, b, f); if (mode == 1) p.drawLine<BLEND>(a, b, f); if (mode == 2) p.drawLine<ADD>(a, b, f); if (mode == 3) p.drawLine<SUBTRACT>(a, b, f);
	Integer dx = std::abs(b.x - a.x), dy = std::abs(b.y - a.y), m = std::max(dx, dy), n = 0; bool ends = false; Integer sx = b.x < a.x ? -1 : 1, sy = b.y < a.y ? -1 : 1;
	Integer lastMinor = 0; // walk along the major axis
	for (Integer i = 0; i <= m; i++) { Integer here = -1, cnt = 0; for (Integer j = 0; j <= std::min(dx, dy); j++) { Integer x = dx >= dy ? a.x + sx * i : a.x + sx * j, y = dx >= dy ? a.y + sy * j : a.y + sy * i; if (!(p(x, y) == base(x, y))) { here = j; cnt++; vp_assert(p(x, y) == over(mode, base(x, y), f), "pixels of the line are painted once"); Integer num = 2 * j * m - 2 * i * std::min(dx, dy); vp_assert(m == 0 || (num <= m && -num <= m), "pixels are within half a pixel of the line"); } } vp_assert(cnt == 1, "one pixel per step"); vp_assert(here - lastMinor <= 1 && here >= lastMinor, "the line is connected"); lastMinor = here; n += cnt; }
	Integer total = 0; for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) if (!(p(x, y) == base(x, y))) total++; vp_assert(total == n, "nothing else is painted"); ends = !(p(a.x, a.y) == base(a.x, a.y)) && !(p(b.x, b.y) == base(b.x, b.y)); vp_assert(ends, "both ends are painted"); vp_reach("done"); vp_obs(n);
}
VP_CASE(line) { Integer x = vp_arg(); Point a = Point(x, vp_choose("y", 0, 5)), b = pt("b", 6, 6); int mode = (int)vp_choose("mode", 0, 3); lined(6, 6, a, b, mode, Color(7, (std::uint8_t)vp_range("g", 1, 60), 111, 130)); }
VP_CASE(longline) { Integer d = 7 + vp_arg(); Point a(vp_flag("left") ? 0 : d, vp_flag("top") ? 0 : d), b(0, 0); Integer e = vp_choose("e", 0, d); bool s = vp_flag("steep"); b = Point(a.x == 0 ? (s ? e : d) : (s ? d - e : 0), a.y == 0 ? (s ? d : e) : (s ? 0 : d - e)); lined(d + 1, d + 1, a, b, 0, Color(1, 2, 3, 4)); }
VP_CASE(clear) {
	Integer w = vp_choose("w", 0, 5), h = vp_choose("h", 0, 5); PNG p; vp_assert(p.width() == 0 && p.height() == 0, "empty at first"); if (vp_flag("before")) p.clear(3, 2, RED); Color f(1, (std::uint8_t)vp_bits("f", 8), 3, 4); bool t = vp_flag("default"); if (t) { p.clear(w, h); f = TRANSPARENT; } else p.clear(w, h, f); vp_assert(p.height() == h && p.width() == (h ? w : 0), "the requested size"); const PNG& c = p; for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) { vp_assert(p(x, y) == f, "the requested colour"); p(x, y) = base(x, y); vp_assert(c(x, y) == base(x, y), "pixels can be set"); }
	PNG q = p; for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) { vp_assert(q(x, y) == base(x, y), "pixels stay, copies have them"); q(x, y) = RED; vp_assert(p(x, y) == base(x, y), "copies are independent"); } Point u(w, h), v(w, 3); vp_assert((u == v) == (h == 3) && (u != v) == (h != 3), "points are equal iff their coordinates are"); vp_reach("done"); vp_obs(w);
}
VP_CASE(modes) { PNG p = image(3, 3); Color f = paint("f"); p.fillRectangle(Point(0, 0), Point(0, 0), f); vp_assert(p(0, 0) == f, "pixels are overwritten by default"); p.floodFill(Point(0, 0), Color(9, 9, 9, 9)); vp_assert(p(0, 0) == Color(9, 9, 9, 9), "pixels are overwritten by default"); p.drawLine(Point(0, 0), Point(0, 0), f); vp_assert(p(0, 0) == f, "pixels are overwritten by default"); vp_reach("done"); vp_obs(0); }
