//@ oracle a decoder written from the PNG, zlib and deflate specifications: signature, chunk layout, bitwise CRC-32, header fields, stored blocks, Adler-32, filter bytes; the decoded pixels are those of the image, top row first
//@ bounds images up to 4x3 with any value of any one part of any one pixel; widths 64 to 16383 and heights up to 40 in which both checksums wrap around; images where the halves of the Adler checksum reach a multiple of 65521 at the end; images without name or content; several writes
//@ outside failing file systems
//@ case pixel quick=0-15 reach=done canon=8
//@ case big quick=0-6 thorough=0-6 reach=done steps=400000000
//@ case wrap quick=0-3 reach=done canon=8
//@ case when reach=done
//@ case init reach=done
#include "visualizer_png.h"
#include "vp.h"
using S = std::string;
static bool has(const S& n) { std::ifstream f(n); return (bool)f && f.is_open(); }
static S get(const S& n) { std::ifstream f(n); return S(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
static std::uint32_t at32(const S& s, std::size_t p) { std::uint32_t r = 0; for (int i = 0; i < 4; i++) r = r << 8 | (std::uint8_t)s[p + i]; return r; }
static std::uint32_t crcTable[256];
static void build() { for (std::uint32_t i = 0; i < 256; i++) { std::uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ c >> 1 : c >> 1; crcTable[i] = c; } }
static std::uint32_t crc(const S& s, std::size_t p, std::size_t n) { std::uint32_t c = ~0u; for (std::size_t i = 0; i < n; i++) c = crcTable[(c ^ (std::uint8_t)s[p + i]) & 255] ^ c >> 8; return ~c; }
static void decode(const S& s, const PNG& img) {
	static const unsigned char sig[] = {0x89, 'P', 'N', 'G', '\r', '\n', 0x1A, '\n'}; std::size_t w = (std::size_t)img.width(), h = (std::size_t)img.height(), p = 8; vp_assert(s.size() >= 8, "the signature"); for (int i = 0; i < 8; i++) vp_assert((unsigned char)s[i] == sig[i], "the signature");
	S z; int part = 0; const char* names[] = {"IHDR", "IDAT", "IEND"};
	while (p + 12 <= s.size() && part < 3) { // IHDR, one or more IDAT, IEND
		std::size_t n = at32(s, p); vp_assert(p + 12 + n <= s.size(), "chunks are complete"); S name = s.substr(p + 4, 4); if (part == 1 && name == "IEND") part = 2; vp_assert(name == names[part], "header, data and end"); vp_assert(crc(s, p + 4, n + 4) == at32(s, p + 8 + n), "checksums of chunks");
		if (part == 0) { vp_assert(n == 13 && at32(s, p + 8) == w && at32(s, p + 12) == h, "width and height"); vp_assert(s[p + 16] == 8 && s[p + 17] == 6 && s[p + 18] == 0 && s[p + 19] == 0 && s[p + 20] == 0, "8 bit, red, green, blue and alpha"); part = 1; } else if (part == 1) z += s.substr(p + 8, n); else { vp_assert(n == 0, "the end is empty"); part = 3; }
		p += 12 + n;
	}
	vp_assert(part == 3 && p == s.size(), "the file ends after the end chunk");
	vp_assert(z.size() > 6, "zlib"); unsigned cmf = (unsigned char)z[0], flg = (unsigned char)z[1]; vp_assert((cmf & 15) == 8 && cmf >> 4 <= 7 && (cmf * 256 + flg) % 31 == 0 && !(flg & 32), "zlib header"); S raw; p = 2; bool last = false;
	while (!last) { vp_assert(p + 5 <= z.size(), "blocks are complete"); unsigned b = (unsigned char)z[p]; last = b & 1; vp_assert((b & 6) == 0, "stored blocks"); std::size_t n = (unsigned char)z[p + 1] | (unsigned char)z[p + 2] << 8, m = (unsigned char)z[p + 3] | (unsigned char)z[p + 4] << 8; vp_assert((n ^ m) == 0xFFFF, "length and its complement"); p += 5; vp_assert(p + n <= z.size(), "blocks are complete"); raw += z.substr(p, n); p += n; }
	vp_assert(p + 4 == z.size(), "the checksum follows the last block"); std::uint32_t a = 1, b = 0; for (char c : raw) { a += (std::uint8_t)c; a = vp_ite(a >= 65521, a - 65521, a); b += a; b = vp_ite(b >= 65521, b - 65521, b); } vp_assert(at32(z, p) == (b << 16 | a), "checksum of the data");
	vp_assert(raw.size() == h * (4 * w + 1), "rows with a filter byte"); std::size_t k = 0; for (std::size_t y = 0; y < h; y++) { vp_assert(raw[k++] == 0, "no filter"); for (std::size_t x = 0; x < w; x++) { Color c = img((Integer)x, (Integer)(FLIP_Y ? h - 1 - y : y)); bool ok = true; for (std::size_t i = 0; i < 4; i++) ok = vp_and(ok, (std::uint8_t)raw[k++] == c[i]); vp_assert(ok, "the pixels of the image, y upwards"); } }
}
static void fill(PNG& p, Integer w, Integer h) { p.clear(w, h); for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) p(x, y) = Color((std::uint8_t)(x * 37 + y), (std::uint8_t)(y * 59 + 3), (std::uint8_t)(x * y + 200), (std::uint8_t)(255 - x)); }
VP_CASE(pixel) { build(); static const Integer W[] = {1, 4, 2, 3}, H[] = {1, 1, 3, 2}; int a = (int)vp_arg(); Integer w = W[a % 4], h = H[a % 4]; std::size_t part = (std::size_t)a / 4; std::int64_t at = vp_choose("at", 0, w * h - 1); PNG p("a.png"); fill(p, w, h); p(at % w, at / w)[part] = (std::uint8_t)vp_bits("v", 8); p.write(); decode(get("a.png"), p); vp_reach("done"); vp_obs(w); }
VP_CASE(big) { build(); static const Integer W[] = {64, 300, 65, 256, 129, 16383, 8000}, H[] = {1, 2, 40, 3, 5, 2, 3}; int a = (int)vp_arg(); Integer w = W[a], h = H[a]; PNG p("b.png"); if (a % 2) p.clear(w, h, WHITE); else fill(p, w, h); p.write(); decode(get("b.png"), p); vp_reach("done"); vp_obs(w); }
VP_CASE(wrap) { // the last row brings a half of the data checksum to or next to a multiple of its modulus
	build(); int a = (int)vp_arg(); bool lower = a >= 2; Integer w = lower ? 128 : 6, h = a % 2 ? 2 : 1; if (a == 1) w = 4; Integer bytes = h * (4 * w + 1); PNG p("w.png"); p.clear(w, h); int f = 0;
	auto sums = [&](int fill, int y, std::int64_t& A, std::int64_t& B) { A = 1; B = 0; for (Integer i = 0; i < bytes; i++) { A += i % (4 * w + 1) == 0 ? 0 : i == bytes - 2 ? 0 : i == bytes - 1 ? y : fill; B += A; } };
	std::int64_t A, B, at = 0; int y = (int)vp_choose("y", 0, 1); for (f = 1; f < 256; f++) { sums(f, y, A, B); at = lower ? 65521 - A % 65521 : (65521 - B % 65521) / 2; if (at >= 4 && at < 250) break; }
	vp_assert(f < 256, "the image is at the edge of the modulus"); for (Integer r = 0; r < h; r++) for (Integer x = 0; x < w; x++) p(x, r) = Color((std::uint8_t)f, (std::uint8_t)f, (std::uint8_t)f, (std::uint8_t)f);
	Integer last = FLIP_Y ? 0 : h - 1; p(w - 1, last).b = (std::uint8_t)vp_bits("v", 8); p(w - 1, last).a = (std::uint8_t)y; p.write(); decode(get("w.png"), p); vp_reach("done"); vp_obs(f);
}
VP_CASE(when) {
	build(); int k = (int)vp_choose("k", 0, 4);
	if (k == 0) { { PNG p; fill(p, 2, 2); p.write(); } { PNG p("e.png"); } { PNG p("f.png"); p.clear(3, 0); p.clear(0, 3); } vp_assert(!has("") && !has("e.png") && !has("f.png"), "images without name or pixels are not written"); }
	if (k == 1) { PNG c; { PNG p("g.png"); fill(p, 2, 1); vp_assert(!has("g.png"), "not before the end"); c.clear(2, 1); for (Integer x = 0; x < 2; x++) c(x, 0) = p(x, 0); } vp_assert(has("g.png"), "images are written when destroyed"); decode(get("g.png"), c); }
	if (k == 2) { PNG p("h.png"); fill(p, 3, 3); p.write(); fill(p, 1, 2); p.write(); decode(get("h.png"), p); }
	if (k == 3) { PNG q("i.png"); { PNG p("j.png"); fill(p, 2, 2); q = std::move(p); } q.write(); decode(get("j.png"), q); vp_assert(!has("i.png"), "the name moves with the image"); }
	if (k == 4) { PNG c; fill(c, 2, 3); { PNG p("k.png"); p = c; } vp_assert(!has("k.png"), "assigned images have no name"); { PNG p("l.png"); fill(p, 2, 3); PNG q(p); PNG r(std::move(p)); } decode(get("l.png"), c); }
	vp_reach("done"); vp_obs(k);
}
VP_CASE(init) {
	build(); { std::ofstream f("t.in"); f << "12 34"; } if (vp_flag("answer")) { std::ofstream f("t.ans"); f << "56"; } char prog[] = "p", name[] = "t"; char* argv[] = {prog, name, nullptr}; Visualizer::init(2, argv); int x = 0, y = 0, z = 0; Visualizer::testIn >> x >> y; vp_assert(x == 12 && y == 34, "the input is opened"); bool ok = (bool)(Visualizer::testAns >> z); vp_assert(ok == has("t.ans") && (!ok || z == 56), "the answer is opened"); vp_assert(!has("t.png"), "nothing is drawn"); fill(Visualizer::image, 2, 2); Visualizer::image.write(); decode(get("t.png"), Visualizer::image); vp_reach("done"); vp_obs(x);
}
