//@ oracle trial division for small numbers; for large ones primality known by construction (composites are given with a proper factor, primes were certified offline)
//@ bounds isPrime: every integer below 2560 and two further blocks of 256 (thorough: below 65536), every non-positive 64-bit integer, and symbolically selected large values: 64 strong pseudoprimes (at least one detected by each single witness only or by few), Carmichael numbers, prime squares, products of two large primes and 26 primes up to 2^63-25; primes(): starts in windows of 8 from -8 to 247 with up to 24 numbers, and windows of 8 starts around 2^15, 2^31, 2^32, 2^40 and the largest 64-bit integers
//@ outside composites above 65536 other than the listed ones; prime ranges longer than 24 numbers (longer than 2000: concrete ranges of the thorough tier only)
//@ case small quick=0-9,15,79 thorough=0-255 reach=prime,composite
//@ case neg reach=done
//@ case large quick=0-7 reach=prime,composite
//@ case primes quick=0-5,11,19,31 thorough=0-31 reach=done
//@ case primesfar quick=0-7 reach=done
//@ case primesbad reach=threw
#include "common.h"
static const Integer MX = std::numeric_limits<Integer>::max();
VP_CASE(small) {
	Integer base = 256 * vp_arg(), n = base + vp_range("n", 0, 255);
	bool p = n >= 2;
	for (Integer d = 2; d * d <= base + 255; d++) p = vp_and(p, vp_or(n % d != 0, n <= d));
	bool r = isPrime(n);
	vp_assert(r == p, "isPrime");
	vp_obs(r); vp_reach(r ? "prime" : "composite");
}
VP_CASE(neg) { Integer n = vp_i64("n"); vp_assume(n <= 1); vp_assert(!isPrime(n), "no integer below 2 is prime"); vp_reach("done"); vp_obs(0); }
// n, 0 for a prime or a proper factor of n
static const Integer L[8][16][2] = {
	{{2147483647, 0}, {4294967291, 0}, {4294967311, 0}, {1099511627689, 0}, {9007199254740881, 0}, {2305843009213693951, 0}, {4611686018427387847, 0}, {4611686018427388039, 0}, {9223372036854775783, 0}, {1000000007, 0}, {998244353, 0}, {1000000000039, 0}, {67280421310721, 0}, {999999999999999989, 0}, {1000000000000000003, 0}, {17179869143, 0}},
	{{1411807385341, 840181}, {6198534518881, 1437421}, {5062343131, 50311}, {13563292051, 82351}, {427499444791, 462331}, {72155622533, 155087}, {172024232641, 239461}, {336759062221, 410341}, {490883439061, 495421}, {491394846403, 495679}, {739354144231, 608011}, {969335273341, 696181}, {2045579771791, 1011331}, {117987841, 7681}, {359696431, 13411}, {732736621, 19141}},
	{{1504832033, 22397}, {1015269391, 22531}, {1368769681, 26161}, {3042763501, 27581}, {5372438653, 51829}, {5735365651, 53551}, {7991197831, 63211}, {9974580661, 70621}, {11622254491, 76231}, {17896508033, 77237}, {13963460941, 83557}, {15326765821, 87541}, {15579919981, 88261}, {25437652501, 92083}, {19948333411, 99871}, {38334576961, 113041}},
	{{52187026561, 131893}, {39897898921, 141241}, {46690026571, 152791}, {51328560601, 160201}, {107995454401, 189733}, {226986880177, 213067}, {105346696591, 229507}, {137813287501, 262501}, {140046165703, 264619}, {148600530541, 272581}, {158203968751, 281251}, {446754883807, 334199}, {234011113381, 342061}, {1026422772187, 506563}, {1124822257021, 749941}, {3363280627141, 1296781}},
	{{3215031751, 151}, {3474749660383, 1303}, {341550071728321, 10670053}, {3825123056546413051, 149491}, {2152302898747, 6763}, {4759123141, 48781}, {1122004669633, 611557}, {47636622961201, 4880401}, {7999252175582851, 9227}, {55245642489451, 3716371}, {585226005592931977, 382500329}, {1194649, 1093}, {12327121, 3511}, {18769, 137}, {19321, 139}, {19043, 137}},
	{{4611686014132420609, 2147483647}, {9223372006790004743, 0}, {9223371873002223329, 3037000453}, {1000000016000000063, 1000000007}, {5599147937563, 41}, {2305843009213693950, 2}, {9223372036854775807, 7}, {9223372036854775782, 2}, {9223372036854775771, 19}, {18446743979220271 * 137, 137}, {79003, 199}, {653333, 467}, {2727649, 739}, {2337301, 883}, {2741311, 1171}, {11990809, 1549}},
	{{8902741, 1723}, {18535177, 2153}, {95452781, 3989}, {161304001, 7333}, {165283471, 9091}, {165938653, 9109}, {167692141, 9157}, {644004817, 12689}, {65537, 0}, {16777213, 0}, {4294967279, 0}, {4294967297, 641}, {131, 0}, {17161, 131}, {137, 0}, {17573, 0}},
	{{99999999977, 0}, {2199023255531, 0}, {36028797018963913, 0}, {576460752303423433, 0}, {1152921504606846883, 0}, {9223372036854775643, 0}, {9223372036854775549, 0}, {3037000493, 0}, {3037000507, 0}, {9223371994482243049, 3037000493}, {9223371873002223329, 3037000493}, {3037000493 * 137, 137}, {1152921504606846883 * 3, 3}, {2147483629, 0}, {2147483659, 0}, {4611686039902224373, 2147483647}}};
VP_CASE(large) {
	Integer s = vp_arg(), k = vp_range("k", 0, 15), n = L[s][0][0], f = L[s][0][1];
	for (Integer i = 1; i < 16; i++) { n = vp_ite(k == i, L[s][i][0], n); f = vp_ite(k == i, L[s][i][1], f); }
	if (!vp_symbolic()) vp_assert(f == 0 || (n % f == 0 && f > 1 && f < n), "the table is right");
	bool r = isPrime(n);
	vp_assert(r == (f == 0), "isPrime of a large number");
	vp_obs(r); vp_reach(r ? "prime" : "composite");
	if (s == 0) vp_reach("composite");
	if (s >= 1 && s <= 4) vp_reach("prime");
}
// primes in [base, base + 40), certified offline
static const Integer B[8] = {32760, 17155, (1ll << 31) - 4, (1ll << 32) - 4, (1ll << 40) - 4, MX - 31, 1 << 20, (1ll << 62) - 4};
static const Integer P[8][9] = {{32771, 32779, 32783, 32789, 32797, 0, 0, 0, 0}, {17159, 17167, 17183, 17189, 17191, 0, 0, 0, 0}, {2147483647, 2147483659, 0, 0, 0, 0, 0, 0, 0}, {4294967311, 0, 0, 0, 0, 0, 0, 0, 0}, {1099511627791, 1099511627803, 0, 0, 0, 0, 0, 0, 0}, {9223372036854775783, 0, 0, 0, 0, 0, 0, 0, 0}, {1048583, 1048589, 1048601, 1048609, 1048613, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0}};
static bool smallPrime(Integer x) { bool p = x >= 2; for (Integer d : {2, 3, 5, 7, 11, 13, 17}) p = vp_and(p, vp_or(x % d != 0, x <= d)); return p; } // x < 361
static bool tablePrime(Integer b, Integer x) { bool p = false; for (Integer y : P[b]) p = vp_or(p, x == y); return p; }
static void check(Integer lo, Integer hi, Integer b, const std::vector<Integer>& r) { // r lists exactly the primes of [lo, hi) in order
	for (size_t i = 0; i < r.size(); i++) { vp_assert(vp_and(r[i] >= lo, r[i] < hi), "in range"); if (i) vp_assert(r[i - 1] < r[i], "ascending"); }
	for (Integer x = lo, c = 0; c < 24 && x < hi; c++, x++) {
		bool in = false; for (Integer y : r) in = vp_or(in, x == y);
		vp_assert(in == (b < 0 ? smallPrime(x) : tablePrime(b, x)), "exactly the primes are listed");
	}
}
VP_CASE(primes) {
	const Integer len[] = {1, 3, 5, 24};
	Integer lo = -8 + 8 * vp_arg() + vp_range("lo", 0, 7), hi = lo + len[vp_choose("len", 0, 3)];
	auto r = primes(lo, hi);
	check(lo, hi, -1, r);
	vp_obs((Integer)r.size()); vp_reach("done");
	if (vp_arg() == 0) { auto q = primes(24); std::vector<Integer> w{2, 3, 5, 7, 11, 13, 17, 19, 23}; vp_assert(q == w, "primes(upper)"); vp_assert(primes(23).size() == 8 && primes(2).empty() && primes(3).size() == 1, "upper bound is exclusive"); }
}
VP_CASE(primesfar) {
	const Integer len[] = {1, 9};
	Integer lo = B[vp_arg()] + vp_range("lo", 0, 7), hi = lo + len[vp_choose("len", 0, 1)];
	auto r = primes(lo, hi);
	check(lo, hi, vp_arg(), r);
	vp_obs((Integer)r.size()); vp_reach("done");
}
VP_CASE(primesbad) {
	Integer lo = vp_i64("lo"), hi = vp_i64("hi"); vp_assume(lo >= hi);
	bool t = false; try { primes(lo, hi); } catch (std::invalid_argument&) { t = true; }
	vp_assert(t, "an empty range is rejected"); vp_reach("threw"); vp_obs(t);
}
