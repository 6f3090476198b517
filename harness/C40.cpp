//@ oracle the published xoshiro256** step; jump: x^(2^128) modulo the minimal polynomial of the reference step over GF(2), found by Berlekamp-Massey and repeated squaring, evaluated at the step; engines seeded with one number: digits of pi combined with the seed, then jumped
//@ bounds step: every state of 4 x 64 bits (1 step) and every difference in one byte against three states for 12 steps; jump: every value of one of the 64 nibbles, the others all zero, all one or digits of pi; seeds: every value of one of the 16 nibbles of the seed, the others zero or one, and the first 3 outputs
//@ outside states which differ in several bytes from the base states (jump is linear in the state)
//@ case step reach=done
//@ case steps quick=0-2 reach=done canon=8
//@ case jump quick=0-7 thorough=0-23 reach=done time=600 canon=8
//@ case seed quick=0-7 reach=done canon=8
#include "rng.h"
#include "vp.h"
#include <utility>
#include <string>
using W = std::uint64_t; using S = std::array<W, 4>;
static W rotl(W x, int k) { return (x << k) | (x >> (64 - k)); }
static W step1(S& s) { W r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
static const S pi = {0x3243F6A8885A308Dull, 0x313198A2E0370734ull, 0x4A4093822299F31Dull, 0x0082EFA98EC4E6C8ull};
static S base(int k) { return k == 0 ? S{0, 0, 0, 0} : k == 1 ? S{~0ull, ~0ull, ~0ull, ~0ull} : pi; }
VP_CASE(step) { S s; for (auto& w : s) w = vp_bits("state", 64); Xoshiro256ss g(s); W a = g(); W b = step1(s); vp_assert(a == b, "the documented output"); vp_assert(Xoshiro256ss::min() == 0 && Xoshiro256ss::max() == ~0ull, "the documented range"); a = g(); b = step1(s); vp_assert(a == b, "the next output"); vp_reach("done"); vp_obs((std::int64_t)a); }
VP_CASE(steps) { S s = base((int)vp_arg()); int at = (int)vp_choose("byte", 0, 31); s[(size_t)at / 8] ^= vp_bits("value", 8) << (at % 8 * 8); Xoshiro256ss g(s), h(s); for (int i = 0; i < 12; i++) { W a = g(), b = step1(s); vp_assert(a == b, "the documented sequence"); if (i == 5) { Xoshiro256ss c = g; W x = c(); S t = s; vp_assert(x == step1(t), "copies continue at the same position"); } } vp_reach("done"); vp_obs((std::int64_t)h()); }
// the jump by 2^128 steps as a polynomial in the step: x^(2^128) modulo the minimal polynomial of a bit of the state (Berlekamp-Massey)
static bool P[257], J[256];
static void build() {
	static bool seq[512], C[520], B[520], t[520]; S s = pi; for (int i = 0; i < 512; i++) { seq[i] = s[0] & 1; step1(s); }
	for (int i = 0; i < 520; i++) C[i] = B[i] = i == 0; int L = 0, m = 1; for (int n = 0; n < 512; n++, m++) { bool d = seq[n]; for (int i = 1; i <= L; i++) d ^= C[i] & seq[n - i]; if (!d) continue; for (int i = 0; i < 520; i++) t[i] = C[i]; for (int i = 0; i + m < 520; i++) C[i + m] ^= B[i]; if (2 * L <= n) { L = n + 1 - L; for (int i = 0; i < 520; i++) B[i] = t[i]; m = 0; } }
	vp_assert(L == 256, "the step has full period"); W p[4] = {}, r[4] = {2, 0, 0, 0}; for (int i = 0; i <= 256; i++) P[i] = C[256 - i]; for (int i = 0; i < 256; i++) p[i / 64] |= (W)P[i] << (i % 64);
	for (int k = 0; k < 128; k++) { W q[4] = {}; for (int i = 256; i--; ) { W top = q[3] >> 63; for (int j = 4; j-- > 1; ) q[j] = q[j] << 1 | q[j - 1] >> 63; q[0] <<= 1; if (top) for (int j = 0; j < 4; j++) q[j] ^= p[j]; if (r[i / 64] >> (i % 64) & 1) for (int j = 0; j < 4; j++) q[j] ^= r[j]; } for (int j = 0; j < 4; j++) r[j] = q[j]; }
	for (int i = 0; i < 256; i++) J[i] = r[i / 64] >> (i % 64) & 1;
}
static S jumped(S s) { S r{}; for (int i = 0; i < 256; i++) { if (J[i]) for (size_t k = 0; k < 4; k++) r[k] ^= s[k]; step1(s); } return r; }
VP_CASE(jump) { build(); int a = (int)vp_arg(); int lo = a % 8 * 8; S f = base(a / 8 == 0 ? 2 : a / 8 - 1); for (int at = lo; at < lo + 8; at++) { S s = f; s[(size_t)at / 16] ^= vp_bits("value", 4) << (at % 16 * 4); Xoshiro256ss g(s); g.jump(); S e = jumped(s); W x = g(), y = step1(e); vp_assert(x == y, "a jump equals 2^128 steps"); for (int i = 0; i < 3; i++) { x = g(); y = step1(e); vp_assert(x == y, "a jump equals 2^128 steps"); } vp_obs((std::int64_t)x); } vp_reach("done"); }
VP_CASE(seed) { build(); int a = (int)vp_arg(); W f = a / 4 ? ~0ull : 0; S p = pi; for (auto& w : p) w ^= f; for (int at = a % 4 * 4; at < a % 4 * 4 + 4; at++) { W v = vp_bits("value", 4) << (at * 4); Xoshiro256ss g(f ^ v); S s = p; for (auto& w : s) w ^= v; S e = jumped(s); for (int i = 0; i < 3; i++) { W x = g(), y = step1(e); vp_assert(x == y, "the documented sequence of a seed"); if (i == 2) vp_obs((std::int64_t)x); } } vp_reach("done"); }
