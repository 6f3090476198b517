//@ oracle an independent AES-256 (S-box from inversion in GF(2^8) and the affine map, multiplication by shifts) checked against the FIPS-197 vector; the generator: the block counter is incremented as a little-endian 128-bit number, encrypted, and the two halves of the block are combined
//@ bounds every value of each byte of the block and of each nibble of the key against fixed others (FIPS-197 example, zeros, thorough all ones); counters whose first 0 to 16 bytes are 0xFF with every value of either nibble of the next byte, the other nibble 0xF; seeds: every value of each nibble against zeros and ones; 2 outputs
//@ outside blocks and keys which differ in several bytes from the base values
//@ case block quick=0-15 thorough=0-47 reach=done time=600 canon=8
//@ case key quick=0-15 thorough=0-31 reach=done time=600 canon=8
//@ case counter quick=0-33 reach=done canon=8
//@ case seed quick=0-31 reach=done canon=8
#include "secure_rng.h"
#include "vp.h"
#include <utility>
using B = std::uint8_t; using W = std::uint64_t;
static B mul(B a, B b) { B r = 0; for (int i = 0; i < 8; i++) { r ^= (B)((0 - (b >> i & 1)) & a); a = (B)(a << 1 ^ ((0 - (a >> 7)) & 0x1b)); } return r; }
static B sboxTable[256];
static void build() { for (int x = 0; x < 256; x++) { B p = (B)x, r = 1; for (int i = 0; i < 7; i++) { p = mul(p, p); r = mul(r, p); } B v = 0; for (int i = 0; i < 8; i++) v |= (B)((r >> i ^ r >> ((i + 4) % 8) ^ r >> ((i + 5) % 8) ^ r >> ((i + 6) % 8) ^ r >> ((i + 7) % 8) ^ 0x63 >> i) & 1) << i; sboxTable[x] = v; } }
static void reference(const B* key, const B* in, B* out) {
	B w[60][4]; B rc = 1; for (int i = 0; i < 60; i++) { B t[4]; if (i < 8) { for (int k = 0; k < 4; k++) w[i][k] = key[4 * i + k]; continue; } for (int k = 0; k < 4; k++) t[k] = w[i - 1][k]; if (i % 8 == 0) { B a = t[0]; for (int k = 0; k < 3; k++) t[k] = sboxTable[t[k + 1]]; t[3] = sboxTable[a]; t[0] ^= rc; rc = mul(rc, 2); } else if (i % 8 == 4) for (int k = 0; k < 4; k++) t[k] = sboxTable[t[k]]; for (int k = 0; k < 4; k++) w[i][k] = w[i - 8][k] ^ t[k]; }
	B s[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i / 4][i % 4];
	for (int r = 1; r <= 14; r++) { B t[16]; for (int i = 0; i < 16; i++) t[i] = sboxTable[s[(i + 4 * (i % 4)) % 16]]; if (r < 14) for (int c = 0; c < 4; c++) { for (int k = 0; k < 4; k++) s[4 * c + k] = mul(t[4 * c + k], 2) ^ mul(t[4 * c + (k + 1) % 4], 3) ^ t[4 * c + (k + 2) % 4] ^ t[4 * c + (k + 3) % 4]; } else for (int i = 0; i < 16; i++) s[i] = t[i]; for (int i = 0; i < 16; i++) s[i] ^= w[4 * r + i / 4][i % 4]; }
	for (int i = 0; i < 16; i++) out[i] = s[i];
}
static AES::Key someKey(int k) { AES::Key r{}; for (size_t i = 0; i < 32; i++) r[i] = k == 0 ? (B)i : k == 1 ? 0 : 0xFF; return r; }
static AES::Block someBlock(int k) { AES::Block r{}; for (size_t i = 0; i < 16; i++) r[i] = k == 0 ? (B)(i * 17) : k == 1 ? 0 : 0xFF; return r; }
static void vector() { static const B want[] = {0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89}; auto k = someKey(0); auto b = someBlock(0); B o[16]; reference(k.data(), b.data(), o); for (int i = 0; i < 16; i++) vp_assert(o[i] == want[i], "the reference agrees with FIPS-197"); }
VP_CASE(block) { build(); vector(); int a = (int)vp_arg(); auto k = someKey(a / 16); auto b = someBlock(a / 16); const AES aes(k); size_t at = (size_t)a % 16; b[at] = (B)vp_bits("value", 8); AES::Block r = aes(b); B o[16]; reference(k.data(), b.data(), o); bool ok = true; for (size_t i = 0; i < 16; i++) ok = vp_and(ok, r[i] == o[i]); vp_assert(ok, "the block is encrypted with AES-256"); vp_obs(r[0]); vp_reach("done"); }
VP_CASE(key) { build(); vector(); int a = (int)vp_arg(); int q = a / 16; for (size_t h = 0; h < 4; h++) { auto k = someKey(q); auto b = someBlock(q); k[(size_t)a % 16 + 16 * (h / 2)] ^= (B)(vp_bits("value", 4) << (h % 2 * 4)); AES aes(k); AES::Block r = aes(b); B o[16]; reference(k.data(), b.data(), o); bool ok = true; for (size_t i = 0; i < 16; i++) ok = vp_and(ok, r[i] == o[i]); vp_assert(ok, "the key is expanded as in AES-256"); vp_obs(r[0]); } vp_reach("done"); }
static W fold(const B* key, const B* iv) { B o[16]; reference(key, iv, o); W r = 0; for (int i = 0; i < 16; i++) r ^= (W)o[i] << (i % 8 * 8); return r; }
static void inc(B* iv) { unsigned c = 1; for (int i = 0; i < 16; i++) { c += iv[i]; iv[i] = (B)c; c >>= 8; } }
VP_CASE(counter) { build(); int a = (int)vp_arg(); auto k = someKey(0); AES::Block iv = someBlock(0); for (size_t i = 0; i < (size_t)a / 2; i++) iv[i] = 0xFF; if (a < 32) iv[(size_t)a / 2] = (B)(vp_bits("value", 4) << (a % 2 * 4) | (a % 2 ? 0xF : 0xF0)); AES_RNG g(k, iv), h(k, iv); for (int i = 0; i < 2; i++) { inc(iv.data()); W x = g(), y = fold(k.data(), iv.data()); vp_assert(x == y, "the encrypted counter"); AES_RNG c = g; inc(iv.data()); W z = c(); vp_assert(z == fold(k.data(), iv.data()), "copies continue at the same position"); vp_assert(z == g(), "the encrypted counter"); } vp_assert(AES_RNG::min() == 0 && AES_RNG::max() == ~0ull, "the documented range"); vp_obs((std::int64_t)h()); vp_reach("done"); }
VP_CASE(seed) {
	build(); static const B pi[] = {0x32, 0x43, 0xF6, 0xA8, 0x88, 0x5A, 0x30, 0x8D, 0x31, 0x31, 0x98, 0xA2, 0xE0, 0x37, 0x07, 0x34, 0x4A, 0x40, 0x93, 0x82, 0x22, 0x99, 0xF3, 0x1D, 0x00, 0x82, 0xEF, 0xA9, 0x8E, 0xC4, 0xE6, 0xC8, 0x94, 0x52, 0x82, 0x1E, 0x63, 0x8D, 0x01, 0x37, 0x7B, 0xE5, 0x46, 0x6C, 0xF3, 0x4E, 0x90, 0xC6};
	int a = (int)vp_arg(); W s = (a / 16 ? ~0ull : 0) ^ vp_bits("value", 4) << (a % 16 * 4); AES_RNG g(s); B iv[16]; for (int i = 0; i < 16; i++) iv[i] = pi[32 + i] ^ (B)(i < 8 ? s >> (8 * i) : 0); for (int i = 0; i < 2; i++) { inc(iv); W x = g(); vp_assert(x == fold(pi, iv), "the documented key and counter of a seed"); vp_obs((std::int64_t)x); } vp_reach("done");
}
