//@ oracle a small XML reader in the harness: every element has exactly the expected attributes with the expected numbers, words and colours (the y axis points upwards); the bounding box is the hull of the origin and the extent of all shapes, the view box is its mirror image
//@ bounds shapes with coordinates and lengths in multiples of 1/2 within 8, up to 3 points; every combination of stroke, cap, join, scaling and fill; colours with one arbitrary part; bounding boxes of 3 points on a grid of 8x8 values per axis (symbolic) and of every shape; images of up to 3 objects and text between them, written 0 to 2 times, moved and assigned
//@ outside coordinates which need more than 6 significant digits; comments which contain --
//@ case shape quick=0-5 reach=done
//@ case style reach=done
//@ case box quick=0-1 reach=done
//@ case grow quick=0-5 reach=done
//@ case chain quick=0-2 reach=done
//@ case file reach=done
//@ case move reach=done
//@ case math reach=done
//@ case init reach=done
#include "visualizer_svg.h"
#include "vp.h"
#include <map>
#include <set>
using S = std::string;
static bool has(const S& n) { std::ifstream f(n); return (bool)f && f.is_open(); }
static S get(const S& n) { std::ifstream f(n); return S(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
struct Tag { S name; std::vector<std::pair<S, S>> at; const S* find(const S& k) const { const S* r = nullptr; for (auto& a : at) if (a.first == k) { vp_assert(!r, "attributes are unique"); r = &a.second; } return r; } };
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t'; }
// reads <name key="value" ... END at p
static Tag tag(const S& s, std::size_t& p, const S& open, const S& end) {
	Tag t; vp_assert(s.compare(p, open.size(), open) == 0, "an element starts"); p += open.size(); while (p < s.size() && !ws(s[p]) && s.compare(p, end.size(), end) != 0) t.name += s[p++];
	for (;;) { bool sp = false; while (p < s.size() && ws(s[p])) { p++; sp = true; } vp_assert(p < s.size(), "elements end"); if (s.compare(p, end.size(), end) == 0) { p += end.size(); return t; } vp_assert(sp, "attributes are separated"); S k, v; while (p < s.size() && s[p] != '=' && !ws(s[p])) k += s[p++]; vp_assert(p + 1 < s.size() && s[p] == '=' && s[p + 1] == '"', "attributes are quoted"); p += 2; while (p < s.size() && s[p] != '"') { vp_assert(s[p] != '<', "no element inside a value"); v += s[p++]; } vp_assert(p < s.size(), "values end"); p++; t.at.push_back({k, v}); }
}
static std::vector<S> words(const S& s) { std::vector<S> r; S c; for (char x : s) { if (ws(x) || x == ',') { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; } if (!c.empty()) r.push_back(c); return r; }
static bool isNum(const S& t, Real v) {
	std::size_t i = 0, n = t.size(), d = 0; bool neg = false; if (i < n && t[i] == '-') { neg = true; i++; } Real x = 0, f = 1; while (i < n && t[i] >= '0' && t[i] <= '9') { x = x * 10 + (t[i++] - '0'); d++; } if (i < n && t[i] == '.') { i++; while (i < n && t[i] >= '0' && t[i] <= '9') { f /= 10; x += f * (t[i++] - '0'); d++; } }
	if (i + 1 < n && d && t[i] == 'e') { bool m = t[i + 1] == '-'; i += 1 + (m || t[i + 1] == '+'); int e = 0; while (i < n && t[i] >= '0' && t[i] <= '9') e = e * 10 + (t[i++] - '0'); while (e--) x = m ? x / 10 : x * 10; } if (neg) x = -x; return d && i == n && std::fabs(x - v) <= 2e-6L;
}
static void num(const Tag& t, const char* k, Real v) { const S* a = t.find(k); vp_assert(a && isNum(*a, v), "the number of an attribute"); }
static void word(const Tag& t, const char* k, const char* v) { const S* a = t.find(k); vp_assert(a && *a == v, "the word of an attribute"); }
static Real half(const char* n, int lo, int hi) { return vp_choose(n, lo, hi) / 2.0L; }
template<typename T> static Tag read(const T& t) { std::ostringstream o; o << t; S s = o.str(); std::size_t p = 0; Tag r = tag(s, p, "<", "/>"); vp_assert(p == s.size(), "one element per shape"); return r; }
static void bare(const Tag& t, const char* name, std::size_t n) { vp_assert(t.name == name, "the element of the shape"); vp_assert(t.at.size() == n + 2, "no other attributes"); word(t, "stroke", "none"); word(t, "fill", "none"); }
static void points(const Tag& t, const std::vector<Point>& v) { const S* a = t.find("points"); vp_assert(a, "points"); auto w = words(*a); vp_assert(w.size() == 2 * v.size(), "all points"); for (std::size_t i = 0; i < v.size(); i++) vp_assert(isNum(w[2 * i], v[i].x) && isNum(w[2 * i + 1], -v[i].y), "points in order, y upwards"); }
static std::vector<Point> several() { static const Real q[] = {0, 1.5L, -3, 7.25L}; int n = (int)vp_choose("n", 0, 3); std::vector<Point> v; for (int i = 0; i < n; i++) { int k = (int)vp_choose("p", 0, 5); v.emplace_back(q[k % 4], q[(k + k / 2 + 1) % 4]); } return v; }
VP_CASE(shape) {
	int k = (int)vp_arg(); if (k >= 4) { auto v = several(); if (k == 4) { Tag t = read(Polygon(v)); bare(t, "polygon", 1); points(t, v); } else { Tag t = read(Polyline(v)); bare(t, "polyline", 1); points(t, v); } vp_reach("done"); vp_obs((std::int64_t)v.size()); return; }
	Real x = half("x", -2, 2), y = half("y", -3, 3), a = half("a", 0, 5), b = half("b", 0, 4); int form = (int)vp_choose("form", 0, 3);
	if (k == 0) { Rectangle r = form == 0 ? Rectangle(Point(x, y), Dimension(a, b)) : form == 1 ? Rectangle(Point(x, y), a, b) : form == 2 ? Rectangle(x, y, Dimension(a, b)) : Rectangle(x, y, a, b); Tag t = read(r); bare(t, "rect", 4); num(t, "x", x); num(t, "y", -(y + b)); num(t, "width", a); num(t, "height", b); }
	if (k == 1) { Tag t = read(form % 2 ? Circle(Point(x, y), a) : Circle(x, y, a)); bare(t, "circle", 3); num(t, "cx", x); num(t, "cy", -y); num(t, "r", a); }
	if (k == 2) { Tag t = read(form % 2 ? Ellipse(Point(x, y), a, b) : Ellipse(x, y, a, b)); bare(t, "ellipse", 4); num(t, "cx", x); num(t, "cy", -y); num(t, "rx", a); num(t, "ry", b); }
	if (k == 3) { Tag t = read(form % 2 ? Line(Point(x, y), Point(a, b)) : Line(x, y, a, b)); bare(t, "line", 4); num(t, "x1", x); num(t, "y1", -y); num(t, "x2", a); num(t, "y2", -b); }
	vp_reach("done"); vp_obs(k);
}
static S colorText(const Color& c) { static const char* h = "0123456789abcdef"; S r = "#"; for (std::size_t i = 0; i < 3; i++) { r += h[c[i] / 16]; r += h[c[i] % 16]; } return r; }
VP_CASE(style) {
	int cap = (int)vp_choose("cap", -1, 2), join = (int)vp_choose("join", -1, 2); bool stroke = vp_flag("stroke"), fill = vp_flag("fill"), scale = vp_flag("scale"); Real w = half("width", 1, 5); Color c(0x12A0F3u), d(9, 200, 77); Circle s(1, 2, 3); Stroke k(c, w, scale); if (scale && cap < 0) k = Stroke(c, w);
	if (cap >= 0) k.linecap = cap == 0 ? Linecap::BUTT : cap == 1 ? Linecap::ROUND : Linecap::SQUARE; if (join >= 0) k.linejoin = join == 0 ? Linejoin::ROUND : join == 1 ? Linejoin::BEVEL : Linejoin::MITER; if (stroke) s.stroke = k; if (fill) s.fill = Fill(d); Tag t = read(s); std::size_t n = 5;
	if (stroke) { word(t, "stroke", colorText(c).c_str()); num(t, "stroke-width", w); n++; static const char* caps[] = {"butt", "round", "square"}; static const char* joins[] = {"round", "bevel", "miter"}; if (cap >= 0) { word(t, "stroke-linecap", caps[cap]); n++; } if (join >= 0) { word(t, "stroke-linejoin", joins[join]); n++; } if (!scale) { word(t, "vector-effect", "non-scaling-stroke"); n++; } } else word(t, "stroke", "none");
	word(t, "fill", fill ? colorText(d).c_str() : "none"); vp_assert(t.at.size() == n, "no other attributes"); vp_reach("done"); vp_obs((std::int64_t)n);
}
static void boxed(const SVG& s, Real x0, Real y0, Real x1, Real y1) { vp_assert(vp_and(s.origin.x == x0, s.origin.y == y0), "the box starts at the smallest coordinates"); vp_assert(vp_and(s.origin.x + s.dimension.width == x1, s.origin.y + s.dimension.height == y1), "the box ends at the largest coordinates"); }
VP_CASE(box) { // one axis at a time is symbolic
	bool vertical = vp_arg(); SVG s; Real v[3]; int l = 0, u = 0; Real lo2 = 0, hi2 = 0; static const Real other[] = {2, -3.5L, 1}; for (int i = 0; i < 3; i++) { int q = (int)vp_range("v", -4, 3); v[i] = q * 1.5L; l = vp_ite(q < l, q, l); u = vp_ite(q > u, q, u); Real lo = l * 1.5L, hi = u * 1.5L; lo2 = std::min(lo2, other[i]); hi2 = std::max(hi2, other[i]); if (vertical) s.includeInBB(Point(other[i], v[i])); else s.includeInBB(Point(v[i], other[i])); if (vertical) boxed(s, lo2, lo, hi2, hi); else boxed(s, lo, lo2, hi, hi2); } vp_reach("done"); vp_obs(0);
}
static void draw(SVG& s, int k, Real x, Real y, Real a, Real b, std::vector<Point>& ext) { // ext: the corners of the extent
	if (k == 0) { s << Rectangle(x, y, a, b); ext = {Point(x, y), Point(x + a, y + b)}; } if (k == 1) { s << Circle(x, y, a); ext = {Point(x - a, y - a), Point(x + a, y + a)}; } if (k == 2) { s << Ellipse(x, y, a, b); ext = {Point(x - a, y - b), Point(x + a, y + b)}; } if (k == 3) { s << Line(x, y, a, b); ext = {Point(x, y), Point(a, b)}; }
	std::vector<Point> v = {Point(x, y), Point(-y, b), Point(a, -x)}; if (k == 4) { s << Polygon(v); ext = v; } if (k == 5) { s << Polyline(v); ext = v; }
}
struct Hull { Real x0 = 0, y0 = 0, x1 = 0, y1 = 0; void add(const std::vector<Point>& v) { for (auto& p : v) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } } };
VP_CASE(grow) { int k = (int)vp_arg(); SVG s; Hull h; for (int i = 0; i < 2; i++) { std::vector<Point> e; int q = (int)vp_choose("q", 0, 7); Real x = half("x", -3, 3), y = half("y", -1, 1), a = (q % 4) / 2.0L, b = (q * 3 % 8) / 2.0L; draw(s, (k + 2 * i) % 6, x, y, a, b, e); h.add(e); boxed(s, h.x0, h.y0, h.x1, h.y1); } vp_reach("done"); vp_obs(0); }
static void document(const S& s, const Hull& h, const S& content) {
	std::size_t p = 0; Tag x = tag(s, p, "<?", "?>"); vp_assert(x.name == "xml", "xml declaration"); word(x, "version", "1.0"); while (p < s.size() && ws(s[p])) p++; Tag t = tag(s, p, "<", ">"); vp_assert(t.name == "svg", "svg element"); word(t, "xmlns", "http://www.w3.org/2000/svg"); const S* v = t.find("viewBox"); vp_assert(v, "view box"); auto w = words(*v); vp_assert(w.size() == 4 && isNum(w[0], h.x0) && isNum(w[1], -h.y1) && isNum(w[2], h.x1 - h.x0) && isNum(w[3], h.y1 - h.y0), "the view box is the bounding box, y upwards");
	while (p < s.size() && ws(s[p])) p++; std::size_t e = s.rfind("</svg>"); vp_assert(e != S::npos, "the svg element is closed"); S rest = s.substr(e + 6); for (char c : rest) vp_assert(ws(c), "nothing follows"); S in = s.substr(p, e - p); while (!in.empty() && ws(in.back())) in.pop_back(); S c = content; while (!c.empty() && ws(c.back())) c.pop_back(); vp_assert(in == c, "the content in the order of drawing");
}
template<typename T> static S text(const T& t) { std::ostringstream o; o << t; return o.str(); }
VP_CASE(chain) {
	int k = (int)vp_arg(); Real x = half("x", 3, 5), y = half("y", 1, 2); Circle c(x, y, 1); Line l(-x, -y, 2, 9); Rectangle r(1, 1, 8, 3); S want = text(r); Hull h; h.add({Point(1, 1), Point(9, 4), Point(x - 1, y - 1), Point(x + 1, y + 1), Point(-x, -y), Point(2, 9)});
	{ SVG s("c.svg"); if (k == 0) { s << r << c << l; want += text(c) + text(l); } if (k == 1) { s << r << "\n" << c << std::endl << l; want += "\n" + text(c) + "\n" + text(l); } if (k == 2) { s << r << Comment("note") << c << ' ' << S("<g/>") << 7 << l; want += "<!-- note -->" + text(c) + " <g/>7" + text(l); } boxed(s, h.x0, h.y0, h.x1, h.y1); }
	document(get("c.svg"), h, want); vp_reach("done"); vp_obs(k);
}
VP_CASE(file) {
	int k = (int)vp_choose("k", 0, 3), n = (int)vp_choose("writes", 0, 2); Real x = half("x", -3, 3); Circle c(x, 1, 0.5L); Hull h; h.add({Point(x - 0.5L, 0.5L), Point(x + 0.5L, 1.5L)});
	if (k == 0) { { SVG s; s << c; for (int i = 0; i < n; i++) s.write(); } { SVG s("d.svg"); for (int i = 0; i < n; i++) s.write(); s.includeInBB(Point(1, 1)); } vp_assert(!has("d.svg") && !has(""), "images without name or content are not written"); }
	if (k == 1) { SVG s("e.svg"); s << c; vp_assert(!has("e.svg"), "not before the end"); s.write(); document(get("e.svg"), h, text(c)); for (int i = 0; i < n; i++) { s << c; s.write(); } S w = text(c); for (int i = 0; i < n; i++) w += text(c); document(get("e.svg"), h, w); }
	if (k == 2) { { SVG s("f.svg"); s << c; s.includeInBB(Point(20, -30)); h.add({Point(20, -30)}); for (int i = 0; i < n; i++) s.write(); } document(get("f.svg"), h, text(c)); }
	if (k == 3) { { SVG s("g.svg"); s << Comment("only"); } document(get("g.svg"), Hull(), "<!-- only -->"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(move) {
	int k = (int)vp_choose("k", 0, 2); Real x = half("x", -3, 3); Circle c(x, 1, 0.5L); Line l(0, 0, 3, -5); Hull h; h.add({Point(x - 0.5L, 0.5L), Point(x + 0.5L, 1.5L), Point(3, -5)});
	{ SVG a("h.svg"); a << c; if (k == 0) { SVG b(std::move(a)); b << l; vp_assert(b.good(), "moved images can be drawn on"); } if (k == 1) { SVG b("i.svg"); b << l << l; b = std::move(a); b << l; } if (k == 2) { std::vector<SVG> v; v.push_back(std::move(a)); v.emplace_back("j.svg"); v[0] << l; v[1] << l; } }
	vp_assert(!has("i.svg"), "assignment replaces the image"); document(get("h.svg"), h, text(c) + text(l)); if (k == 2) { Hull g; g.add({Point(3, -5)}); document(get("j.svg"), g, text(l)); } vp_reach("done"); vp_obs(k);
}
VP_CASE(math) {
	Real a = (int)vp_range("a", -4, 3) * 1.5L, b = (int)vp_range("b", -4, 3) * 0.5L, c = (int)vp_range("c", -4, 3) * 2.0L; Dimension d(a, b), e(c, 7); Dimension s = d + e, m = d - e, t = d, u = d; t += e; u -= e; vp_assert(vp_and(s.width == a + c, s.height == b + 7), "dimensions are added"); vp_assert(vp_and(m.width == a - c, m.height == b - 7), "dimensions are subtracted"); vp_assert(vp_and(t.width == a + c, t.height == b + 7), "dimensions are added"); vp_assert(vp_and(u.width == a - c, u.height == b - 7), "dimensions are subtracted");
	Point p(b, a), q = p + e, r = p - e, v = p, w = p; v += e; w -= e; vp_assert(vp_and(q.x == b + c, q.y == a + 7), "points are moved"); vp_assert(vp_and(r.x == b - c, r.y == a - 7), "points are moved back"); vp_assert(vp_and(v.x == b + c, v.y == a + 7), "points are moved"); vp_assert(vp_and(w.x == b - c, w.y == a - 7), "points are moved back"); vp_reach("done"); vp_obs(0);
}
VP_CASE(init) {
	{ std::ofstream f("t.in"); f << "12 34"; } if (vp_flag("answer")) { std::ofstream f("t.ans"); f << "56"; } char prog[] = "p", name[] = "t"; char* argv[] = {prog, name, nullptr}; Visualizer::init(2, argv); int x = 0, y = 0, z = 0; Visualizer::testIn >> x >> y; vp_assert(x == 12 && y == 34, "the input is opened"); bool ok = (bool)(Visualizer::testAns >> z); vp_assert(ok == has("t.ans") && (!ok || z == 56), "the answer is opened"); vp_assert(!has("t.svg"), "nothing is drawn"); Circle c(1, 2, 1); Hull h; h.add({Point(0, 1), Point(2, 3)}); Visualizer::image << c; Visualizer::image.write(); document(get("t.svg"), h, text(c)); vp_reach("done"); vp_obs(x);
}
