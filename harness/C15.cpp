//@ oracle mulMod/powMod against a bit-serial 128-bit reference with the same residue; multInv against the definition of the inverse (existence and value); applyMod against the mathematical residue
//@ bounds applyMod: every 64-bit x for five power-of-two moduli, every x in -128..127 with mod 1..100, and 12 moduli with x in the windows below; mulMod: 11 moduli from 1 to 2^63-1, both factors in windows of 16 around 0, +-1, +-mod, +-2^31, +-2^32, +-2^62 and the int64 extremes; powMod: mod 1..15 x base -16..15 x exp 0..7 symbolically, and large moduli with windowed base, exponents up to 2^63-1; multInv: mod 1..11 with every n in -40..40, and large moduli with windowed n
//@ outside moduli and operands outside the listed windows
//@ case applyfull quick=0-4 reach=done
//@ case applymod reach=done
//@ case applysmall reach=done
//@ case mulmod quick=0-10 reach=done
//@ case powsmall quick=1-15 thorough=1-31 reach=done
//@ case powbig quick=0-7 reach=done
//@ case invsmall quick=1-11 thorough=1-24 reach=inv,noinv
//@ case invbig quick=0-5 reach=inv
//@ case domain reach=mul,pow,exp,inv
#include "common.h"
static const Integer MODS[] = {1, 2, 3, 255, 1000000007, 0x7FFFFFFF, 0x100000000, 0x100000001, 0x1FFFFFFF7, (1ll << 61) - 1, std::numeric_limits<Integer>::max(), 7};
using u128 = unsigned __int128;
using i128 = __int128;
// mathematical residue of x modulo m in [0, m), for const m
static Integer residue(Integer x, Integer m) {
	std::uint64_t neg = std::uint64_t(0) - (std::uint64_t)x; // |x| for negative x
	std::uint64_t rp = (std::uint64_t)x % (std::uint64_t)m, rn = neg % (std::uint64_t)m;
	Integer n = (Integer)((std::uint64_t)m - rn);
	return vp_ite(x >= 0, (Integer)rp, vp_ite(rn == 0, 0, n));
}
static Integer window(const char* n, Integer m) {
	const Integer mx = std::numeric_limits<Integer>::max(), mn = std::numeric_limits<Integer>::min();
	Integer k = vp_choose("base", 0, 11);
	const Integer base[] = {-8, m > mx - 8 ? mx - 15 : m - 8, -(m > mx - 8 ? mx - 16 : m + 8), (1ll << 31) - 8, (1ll << 32) - 8, -(1ll << 31) - 8, -(1ll << 32) - 8, (1ll << 62) - 8, -(1ll << 62) - 8, mx - 15, mn, m / 2};
	Integer b = base[k];
	if (b > mx - 15) b = mx - 15;
	return b + vp_range(n, 0, 15);
}
static void checkApply(Integer x, Integer m) {
	Integer r = applyMod(x, m);
	vp_assert(vp_and(r >= 0, r < m), "residue in [0, mod)");
	vp_assert(r == residue(x, m), "residue value");
	vp_obs(r); vp_reach("done");
}
VP_CASE(applyfull) { const Integer ms[] = {1, 2, 4096, 0x100000000, 1ll << 62}; checkApply(vp_i64("x"), ms[vp_arg()]); }
VP_CASE(applymod) { Integer m = MODS[vp_choose("m", 0, 11)]; checkApply(window("x", m), m); }
VP_CASE(applysmall) { Integer m = vp_choose("m", 1, 100); checkApply(vp_range("x", -128, 127), m); }
static Integer refMul(Integer a, Integer b, Integer m) { // a, b residues
	return (Integer)(u128((std::uint64_t)a) * u128((std::uint64_t)b) % u128((std::uint64_t)m));
}
VP_CASE(mulmod) {
	Integer m = MODS[vp_arg()];
	Integer a = window("a", m), b = window("b", m);
	Integer r = mulMod(a, b, m);
	vp_assert(vp_and(r >= 0, r < m), "product in [0, mod)");
	vp_assert(r == refMul(residue(a, m), residue(b, m), m), "product value");
	vp_obs(r); vp_reach("done");
}
VP_CASE(powsmall) {
	Integer m = vp_arg(), b = vp_range("b", -16, 15), e = vp_choose("e", 0, 7);
	Integer r = powMod(b, e, m);
	Integer w = 1 % m, x = residue(b, m);
	for (Integer i = 0; i < e; i++) w = (Integer)((std::uint64_t)(w * x) % (std::uint64_t)m);
	vp_assert(vp_and(r >= 0, r < m), "power in [0, mod)");
	vp_assert(r == w, "power value");
	vp_obs(r); vp_reach("done");
}
static Integer pick(const char* n, std::initializer_list<Integer> l) { // symbolic choice without forking
	Integer k = vp_range(n, 0, (Integer)l.size() - 1), r = *l.begin(), i = 0;
	for (Integer x : l) { r = vp_ite(k == i, x, r); i++; }
	return r;
}
VP_CASE(powbig) {
	const Integer mx = std::numeric_limits<Integer>::max();
	const Integer mods[] = {1000000007, 0xFFFFFFFF, 0x100000000, 0x100000001, 0x1FFFFFFF7, (1ll << 61) - 1, mx, 998244353};
	Integer m = mods[vp_arg()];
	const Integer exps[] = {0, 1, 2, 3, 4, 5, 64, 0xFFFFFFFF, 0x100000001, (1ll << 61) - 3, mx, mx - 1};
	Integer e = exps[vp_choose("exp", 0, 11)];
	Integer b = pick("b", {0, 1, -1, 2, 3, m - 1, -(m / 2), m / 2 + 1, 0xFFFFFFFF, 0x100000000, mx, mx / 3, -mx, std::numeric_limits<Integer>::min(), 123456789123456789, m});
	Integer r = powMod(b, e, m);
	// left-to-right square and multiply
	Integer x = residue(b, m), w = 1 % m;
	for (int i = 62; i >= 0; i--) { w = refMul(w, w, m); if ((e >> i) & 1) w = refMul(w, x, m); }
	vp_assert(vp_and(r >= 0, r < m), "power in [0, mod)");
	vp_assert(r == w, "power value");
	vp_obs(r); vp_reach("done");
}
static void checkInv(Integer n, Integer m, Integer r, bool exists) {
	vp_assert(r >= -1 && r < m, "inverse in [0, mod) or -1");
	vp_assert((r != -1) == exists, "an inverse is returned exactly if one exists");
	if (r != -1) { vp_assert(refMul(residue(n, m), r, m) == 1 % m, "product with the inverse is 1"); vp_reach("inv"); }
	else vp_reach("noinv");
}
VP_CASE(invsmall) {
	Integer m = vp_arg(), n = vp_range("n", -40, 40);
	Integer r = multInv(n, m);
	bool exists = false;
	Integer x = residue(n, m);
	for (Integer i = 0; i < m; i++) exists = vp_or(exists, (x * i) % m == 1 % m);
	vp_obs(r);
	checkInv(n, m, r, exists);
	if (m == 1) vp_reach("noinv");
}
VP_CASE(invbig) {
	const Integer mx = std::numeric_limits<Integer>::max();
	const Integer mods[] = {1000000007, (1ll << 61) - 1, 998244353, 0x7FFFFFFF, 4611686018427387847ll, mx};
	Integer m = mods[vp_arg()]; // primes, except the last: 2^63-1 = 7*7*73*127*337*92737*649657
	Integer n = pick("n", {1, 2, 3, -1, -2, 5, 7, -7, m - 1, m - 2, m / 2, -(m / 2), 0xFFFFFFFF, 0x100000000, 123456789123456789, -123456789123456789, 0, m, std::numeric_limits<Integer>::min(), mx, mx - 1});
	Integer r = multInv(n, m);
	Integer x = residue(n, m);
	bool exists = x != 0;
	if (m == mx) for (Integer p : {7, 73, 127, 337, 92737, 649657}) exists = vp_and(exists, x % p != 0);
	vp_obs(r);
	checkInv(n, m, r, exists);
}
VP_CASE(domain) { // invalid moduli and exponents are rejected
	Integer m = vp_i64("m"), a = vp_i64("a"), b = vp_range("b", 0, 3);
	vp_assume(m <= 0);
	auto threw = [](auto f) { try { f(); return false; } catch (std::domain_error&) { return true; } };
	Integer k = vp_choose("k", 0, 3);
	if (k == 0) { vp_assert(threw([&] { mulMod(a, b, m); }), "mulMod rejects mod <= 0"); vp_reach("mul"); }
	if (k == 1) { vp_assert(threw([&] { powMod(a, b, m); }), "powMod rejects mod <= 0"); vp_reach("pow"); }
	if (k == 2) { vp_assume(m < 0); vp_assert(threw([&] { powMod(a, m, 7); }), "powMod rejects exp < 0"); vp_reach("exp"); }
	if (k == 3) { vp_assert(threw([&] { multInv(a, m); }), "multInv rejects mod <= 0"); vp_reach("inv"); }
}
