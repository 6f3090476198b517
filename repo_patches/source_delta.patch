From ece2c2efc22956195dd45770858b708fd56d2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 01/48] fix: powMod with modulus 1 returns 0

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..0924f45 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1018,7 +1018,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From 5215c8195a47013531c7dbb884a0dc2fc3a6504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 02/48] fix: multInv finds the inverse of negative numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 0924f45..9de9e7d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1078,7 +1078,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From 7541b078c2eb1e615576026536def3404dfe5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 03/48] fix: allAdjacent on containers checks all instead of
 none

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 9de9e7d..9f4e4ac 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -630,7 +630,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From ce8068a9bce65036e5795d21928d7dbf284862c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 04/48] fix: isPerm does not overflow for distant values and
 offsets

---
 src/validate.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 9f4e4ac..09548bb 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -564,10 +564,12 @@ auto isPerm(RandomIt first, RandomIt last, typename std::iterator_traits<RandomI
 	std::vector<bool> seen(count, false);
 	for (; first != last; first++) {
 		const T& x = *first;
-		if (x < offset or x - offset >= count or seen[x - offset]) {
+		// unsigned difference, x - offset might overflow
+		const UInteger pos = static_cast<UInteger>(x) - static_cast<UInteger>(offset);
+		if (x < offset or pos >= static_cast<UInteger>(count) or seen[pos]) {
 			return boolean<T>(false, x);
 		}
-		seen[x - offset] = true;
+		seen[pos] = true;
 	}
 	return boolean<T>(true);
 }
-- 
2.43.0


From 9b910ed4e4a283196fd96c7751624720e29b275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 05/48] fix: range handles the smallest integer as step

---
 src/validate.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 09548bb..4e1dcd8 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -796,8 +796,12 @@ std::vector<Integer> range(Integer from, Integer to, Integer step = 1) {
 	if (step > 0 and to <= from) return {};
 	if (step < 0 and from <= to) return {};
 	UInteger n = static_cast<UInteger>(to) - static_cast<UInteger>(from);
-	if (step < 0) n = 0 - n;
-	std::vector<Integer> res(1 + (n - 1) / std::abs(step), from);
+	UInteger absStep = static_cast<UInteger>(step);
+	if (step < 0) {
+		n = 0 - n;
+		absStep = 0 - absStep;
+	}
+	std::vector<Integer> res(1 + (n - 1) / absStep, from);
 	for (std::size_t i = 1; i < res.size(); i++) {
 		res[i] = res[i - 1] + step;
 	}
-- 
2.43.0


From 7a7e134a3a82eb95ba9b31e3b34f4b5780686682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 06/48] fix: isConvex rejects polygons which overlap themselves
 or wind more than once

---
 src/validate.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 4e1dcd8..09c067d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1207,6 +1207,23 @@ namespace details {
 		}
 		return n;
 	}
+
+	// checks if the segments ab and bc overlap
+	template<typename Point>
+	constexpr bool isSpike(const Point& a, const Point& b, const Point& c) {
+		return cross(b, a, c) == 0 and
+		       (getX(a) - getX(b)) * (getX(c) - getX(b)) + (getY(a) - getY(b)) * (getY(c) - getY(b)) > 0;
+	}
+
+	// checks if the directions ab and bc belong to different half planes
+	template<typename Point>
+	constexpr bool changesSide(const Point& a, Point b, Point c) {
+		getX(c) -= getX(b);
+		getY(c) -= getY(b);
+		getX(b) -= getX(a);
+		getY(b) -= getY(a);
+		return left(b) != left(c);
+	}
 }
 
 template<typename RandomIt>
@@ -1214,13 +1231,17 @@ constexpr bool isConvex(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
 	bool hasArea = false;
+	std::size_t sides = 0;
 	for (std::size_t i = 0; i < n; i++) {
 		if (first[i] == first[(i+1) % n]) return false;
+		if (details::isSpike(first[i], first[(i+1) % n], first[(i+2) % n])) return false;
 		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
 		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
 		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
+		sides += details::changesSide(first[i], first[(i+1) % n], first[(i+2) % n]);
 	}
-	return hasArea;
+	// the border of a convex polygon makes exactly one turn
+	return hasArea and sides <= 2;
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From 36b25ad2b6f3d1d6ee5da7ed39f1eea6e5e63ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 07/48] fix: isSimple orders segments consistently and rejects
 overlapping adjacent edges

---
 src/validate.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 09c067d..f63e0ef 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1273,11 +1273,11 @@ bool isSimple(RandomIt first, RandomIt last) {
 
 		bool operator<(const Segment& other) const {
 			if (getX(l) > getX(other.l)) return !(other < *this);
+			if (getX(l) == getX(other.l) and getY(l) != getY(other.l)) return getY(l) < getY(other.l);
 			Integer s = cross(l, r, other.l);
+			if (s == 0) s = cross(l, r, other.r);
 			if (s != 0) return s > 0;
-			s = cross(l, r, other.r) > 0;
-			if (s != 0) return s > 0;
-			return getY(l) < getY(other.l);
+			return id < other.id;
 		}
 
 		bool intersect(const Segment& other, std::size_t n) const {
@@ -1296,6 +1296,9 @@ bool isSimple(RandomIt first, RandomIt last) {
 		bool swap = false;
 		Point a = first[i];
 		Point b = first[(i+1) % n];
+		// adjacent edges may only share their common point
+		if (a == b) return false;
+		if (details::isSpike(a, b, Point(first[(i+2) % n]))) return false;
 		if (getX(a) > getX(b)) swap = true;
 		if (getX(a) == getX(b) and getY(a) > getY(b)) swap = true;
 		if (swap) std::swap(a, b);
-- 
2.43.0


From 53e08408aec6f5b05b078f480ff722e27f041136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 08/48] fix: primes does not overflow for ranges close to the
 largest integer

---
 src/validate.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index f63e0ef..ab99858 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1126,15 +1126,16 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
 	Integer cache = (count + 1) / 2;
 
-	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
+	std::vector<bool> notPrime(cache), notPrimeSegment((upper - lower + 1) / 2);
 	for (Integer i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
 				notPrime[j / 2] = true;
 			}
-			Integer lowest = lower - (lower % (2*i)) + i;
-			if (lowest < lower) lowest += 2*i;
-			for (Integer j = std::max(i * i, lowest); j < upper; j += 2 * i) {
+			// unsigned since values close to the largest Integer would overflow
+			UInteger lowest = static_cast<UInteger>(lower - (lower % (2*i))) + i;
+			if (lowest < static_cast<UInteger>(lower)) lowest += 2*i;
+			for (UInteger j = std::max<UInteger>(i * i, lowest); j < static_cast<UInteger>(upper); j += 2 * i) {
 				notPrimeSegment[(j - lower) / 2] = true;
 			}
 		}
-- 
2.43.0


From 7bc929873863eb28ea51835687a99e2cb58f1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 09/48] fix: strict reals without a decimal point must not have
 leading zeros

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index ab99858..f203f9e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From 2d2ff49e58830aeee8e91c55d369a8a2b941672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 10/48] fix: expectReal fails on different instead of equal
 numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index f203f9e..26fde46 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2682,7 +2682,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From fb64972f03bc60ff71ec43e891dd791068330dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 11/48] fix: diagnostics of an unexpected newline name the line
 it ends

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 26fde46..6410268 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2710,9 +2710,9 @@ private:
 					*in >> tmp;
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
-					line++;
 					in->get();
 					if (in->tellg() < originalPos) {
+						line++;
 						buffer.clear();
 					} else {
 						buffer += ' ';
-- 
2.43.0


From 776a7fa20e98f7e1174496b6835cdc7c19957334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 12/48] fix: numbers with two signs are not parsed

---
 src/validate.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 6410268..632f4d0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -959,7 +959,10 @@ namespace details {
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
 		const char* end = s.data() + s.size();
-		if (!s.empty() && s[0] == '+') begin++;
+		if (!s.empty() && s[0] == '+') {
+			begin++;
+			if (begin != end and *begin == '-') return false; // only one sign is allowed
+		}
 		auto [ptr, ec] = std::from_chars(begin, end, res);
 		return ptr == end and ec == std::errc();
 	}
-- 
2.43.0


From c4fccea5f6ef7278809fc8def03e3a339e4394e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 13/48] fix: all input streams use the configured tolerances

---
 src/validate.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 632f4d0..a676305 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2938,8 +2938,8 @@ namespace AnswerValidator {
 		ValidateBase::details::init(argc, argv);
 		juryOut = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2961,9 +2961,9 @@ namespace OutputValidator {
 		juryOut = OutputStream(std::filesystem::path(arguments[3]) / JUDGE_MESSAGE, MESSAGE_MODE);
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2985,8 +2985,8 @@ namespace Interactor {
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 		toTeam = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
@@ -3016,7 +3016,7 @@ namespace Multipass {
 			if ((pass & 1) != 0) {
 				std::swap(nextfile, prevfile);
 			}
-			prevstate = InputStream(std::filesystem::path(arguments[3]) / prevfile, false, true, juryOut, Verdicts::FAIL);
+			prevstate = InputStream(std::filesystem::path(arguments[3]) / prevfile, false, true, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
 		} else {
 			pass = 0;
 		}
-- 
2.43.0


From 4f50bd811b5fd1c279dc237ff815ad9b9b6d28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 14/48] fix: perm checks all cycle lengths before using them

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index a676305..1716cc4 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1746,11 +1746,13 @@ namespace Random {
 	}
 
 	std::vector<Integer> perm(const std::vector<Integer>& cycles, Integer offset = 0) {
+		for (Integer cycle : cycles) {
+			judgeAssert<std::invalid_argument>(cycle > 0, "Random::perm(): Cycle lengths must be positive!");
+		}
 		auto p = perm(std::accumulate(cycles.begin(), cycles.end(), 0_int));
 		std::vector<Integer> res(p.size());
 		Integer tmp = 0;
 		for (std::size_t i = 0; i < cycles.size(); tmp += cycles[i], i++) {
-			judgeAssert<std::invalid_argument>(cycles[i] > 0, "Random::perm(): Cycle lengths must be positive!");
 			for (Integer j = tmp; j + 1 < tmp + cycles[i]; j++) {
 				res[p[j]] = p[j + 1] + offset;
 			}
-- 
2.43.0


From 82553b794c9531dce40ef29a3a2bdf7b4b34d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 15/48] fix: perm accepts duplicate fix points

---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 1716cc4..e705dc8 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1767,6 +1767,7 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
+			if (res[x - offset] >= 0) continue; // duplicate fix point
 			std::swap(tmp[x - offset], res[x - offset]);
 		}
 		shuffle(tmp);
-- 
2.43.0


From 02fc1f0918b9040e1054a4ac757dd545d3f1533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 16/48] fix: prime stays below 2 as upper bound and handles
 wide ranges

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index e705dc8..ee936ed 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1622,9 +1622,10 @@ namespace Random {
 	Integer prime(Integer lower, Integer upper) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::prime(): Lower must be less than upper!");
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
-		Integer sampleU = upper / 2;
+		Integer sampleU = upper <= 2 ? 0 : (upper / 2);
 		if (sampleL < sampleU) {
-			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
+			Integer count = upper - std::max<Integer>(0, lower);
+			for (Integer i = 0; i < details::PRIME_TRIALS and i / 4 < count; i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (isPrime(res)) return res;
 			}
-- 
2.43.0


From 020f773387de72ad5136214cbe669fd6474b13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 17/48] fix: nonCollinearPoints uses primes which fit and an
 invertible rotation

---
 src/validate.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index ee936ed..9e2c4f2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1919,10 +1919,11 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
-		Integer p = prime(dim - 1, 2*dim + 2);
+		if (n == 0) return {};
+		Integer p = prime(dim - 1, 2*dim);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		while ((rotA * rotA + rotB * rotB) % p == 0) { // must be invertible
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
@@ -1931,8 +1932,8 @@ namespace Random {
 			integer(0, p),
 			integer(0, p),
 		};
-		Integer dx = integer(-dim + 1, dim - p);
-		Integer dy = integer(-dim + 1, dim - p);
+		Integer dx = integer(-dim + 1, dim - p + 1);
+		Integer dy = integer(-dim + 1, dim - p + 1);
 
 		auto xs = distinct(n, p);
 		std::vector<Point> res;
-- 
2.43.0


From eb30c9227e47fd9f45528a83e4593b9bd0ae0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 18/48] fix: Random::real never returns 1

---
 src/validate.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 9e2c4f2..2d9211e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1425,15 +1425,19 @@ namespace Random {
 	}
 
 	Real real() {// in [0, 1)
-		UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
-		int exponent = -64;
-		UInteger x;
-		do {
-			x = details::randomNumberGenerator();
-			//count trailing (or leading) zeroes in x
-			exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
-		} while (x == 0);
-		return std::ldexp(mantissa, exponent);
+		while (true) {
+			UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
+			int exponent = -64;
+			UInteger x;
+			do {
+				x = details::randomNumberGenerator();
+				//count trailing (or leading) zeroes in x
+				exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
+			} while (x == 0);
+			// the mantissa may get rounded if Real is less precise
+			Real res = std::ldexp(static_cast<Real>(mantissa), exponent);
+			if (res < 1.0_real) return res;
+		}
 	}
 	Real real(Real upper) {// in [0, upper)
 		judgeAssert<std::domain_error>(std::isfinite(upper), "Random::real(): Upper must be finite!");
-- 
2.43.0


From 08f7b9a29af630452c29d0b4d185c384dbac4a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 19/48] fix: Random::geometric stays in range for small p

---
 src/validate.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 2d9211e..68db0fd 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1507,20 +1507,21 @@ namespace Random {
 		}
 	}
 
-	Integer geometric(Real p) {// theoretically in [0, inf)
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
-		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger uu = static_cast<UInteger>(upper);
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-			Integer res = lower + std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-			if (res < upper) return res;
+			Real res = std::floor(std::log(real()) / std::log1p(-p));
+			if (res < static_cast<Real>(uu - ul)) return static_cast<Integer>(ul + static_cast<UInteger>(res));
 		}
 	}
+	Integer geometric(Real p) {// theoretically in [0, inf)
+		return geometric(0, std::numeric_limits<Integer>::max(), p);
+	}
 
 	Integer binomial(Integer n, Real p) {// in [0, n]
 		judgeAssert<std::domain_error>(n >= 0, "Random::binomial(): n must be non negative!");
-- 
2.43.0


From 5ef22c40fcdd8f534490d6e45a4c7f31dcf2a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 20/48] fix: Random::binomial does not overflow for small p

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 68db0fd..3a27f51 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1536,8 +1536,9 @@ namespace Random {
 			Real lg = std::log1p(-p);
 			if (lg >= 0) return swap ? n : 0;
 			do {
-				y += std::llround(std::floor(std::log(real()) / lg)) + 1;
-				if (y > n) return swap ? n - res : res;
+				Real skip = std::floor(std::log(real()) / lg);
+				if (skip >= static_cast<Real>(n - y)) return swap ? n - res : res;
+				y += std::llround(skip) + 1;
 				res++;
 			} while (true);
 		} else {
-- 
2.43.0


From 66afcbbf7d36e4d4b20e0160fd4b80838da3c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 21/48] fix: Random::minimum does not overflow for wide ranges

---
 src/validate.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 3a27f51..cfbbd0f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1607,7 +1607,10 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger uu = static_cast<UInteger>(upper);
+		UInteger res = static_cast<UInteger>(maximum(lower, upper, n)) - ul;
+		return static_cast<Integer>(uu - 1 - res);
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From 72822c1611fb0383e71501da8e55e450fd05a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 22/48] fix: areConnected is const as documented

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..88738db 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -138,7 +138,7 @@ public:
 	bool isForest() const {return forest;}
 	bool isTree() const {return components <= 1 and forest;}
 	bool isBipartite() const {return bipartite;}
-	bool areConnected(Integer a, Integer b) {return uf.connected(a - offset, b - offset);}
+	bool areConnected(Integer a, Integer b) const {return uf.connected(a - offset, b - offset);}
 };
 
 class DiGraph final : private details::BaseGraph  {
-- 
2.43.0


From 81114c7f9b96da13b2059bb3d0e40e384c88319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 23/48] fix: isDAG counts incoming edges

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 88738db..4273c4f 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From 202f75911f11d175667f6a22b27a43ea18f0030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 24/48] fix: DiGraph::isTree rejects a root beside a cycle

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 4273c4f..64dabc7 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (rootCount == 1 and edgeCount() + 1 == nodeCount() and root < nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From 8a47b6bbb45cb721b6cf984ea054e8f34c79fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 25/48] fix: Graph::range() copied edges with shifted endpoints

---
 src/graph_gen.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..f34deac 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -226,11 +226,9 @@ namespace GraphDetail {
 		Graph range(Integer from, Integer to) const {
 			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
 			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
 			for (const auto& e : getEdges()) {
 				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
+					res.addEdge(e.from, e.to, *e);
 				}
 			}
 			return res;
-- 
2.43.0


From 1d68b2617d8af1840de2d4691c175625be51e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 26/48] fix: Graph::permutate(perm) accepted permutations of
 another size

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f34deac..98cf79f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -399,7 +399,7 @@ namespace GraphDetail {
 		}
 
 		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
 			for (auto& n : adj) n.clear();
 			Random::shuffle(edges.begin(), edges.end());
 			for (auto& e : edges) {
-- 
2.43.0


From 3ec046b13a4840a6eab57711af7a34a4785d1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 27/48] fix: Graph::power() inserted undirected edges twice

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 98cf79f..b97bb26 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -513,7 +513,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (DIR ? i != c : i < c) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From 682123b88c8694e119be595615c10003462ff22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 28/48] fix: Graph::transitiveClosure() returned a reference to
 a temporary

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index b97bb26..cd52332 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -522,7 +522,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From f6ee7decd79a24c60c58e044fbd435ab52eff76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 29/48] fix: Graph::lineGraph() did not compile for graphs

---
 src/graph_gen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index cd52332..8820dea 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -570,15 +570,15 @@ namespace GraphDetail {
 			return o.cartesian(*this).combine(o.product(*this));
 		}
 
-		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
+		GraphType<NoData, DIR> lineGraph() const {
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
 			Integer nextEdge = 0;
 			for (const auto& e : getEdges()) {
 				tmp.emplaceEdge(e.from, e.to, nextEdge);
 				nextEdge++;
 			}
 			tmp.buildAdj();
-			Graph res(nextEdge);
+			GraphType<NoData, DIR> res(nextEdge);
 			for (const auto& e1 : tmp.getEdges()) {
 				if constexpr (DIR) {
 					for (const auto& e2 : tmp[e1.to]) {
-- 
2.43.0


From b6bdd2838c47fb95d6d7027afaa9f72dcf8c4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 30/48] fix: randomBipartite(n, m, p) drew too few edges for
 directed graphs

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 8820dea..f68c2c1 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -682,7 +682,7 @@ GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k)
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+	return randomBipartite<E, DIR>(n, m, Random::binomial((DIR ? 2 : 1) * n * m, p));
 }
 
 // star with root = 0 and chilrden [1, leaves]
-- 
2.43.0


From cd5ed1a2dcf1567c8ea4be0d2af819aaaa1cfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 31/48] fix: cycle() ignored the direction of the requested
 graph

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f68c2c1..043309b 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -705,7 +705,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 16e759f276bd1ef80b1a029c35b69b5affafbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 32/48] fix: wheel() did not close the outer cycle

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 043309b..b2295e7 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -713,7 +713,7 @@ GraphDetail::GraphType<E, DIR> cycle(Integer n) {
 // wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
 template<typename E = NoData>
 Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
 }
 
 // lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-- 
2.43.0


From 70080cf02532d71c7184ec8ed29265e0f687494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 33/48] fix: rado() missed edges and reversed directed edges

---
 src/graph_gen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index b2295e7..906c469 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -786,15 +786,15 @@ GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
 	return res;
 }
 
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// prefix of the rado graph j->i <=> j<i and i[j] == true;
 // vertices in [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
+		for (Integer j = 0; (1 << j) <= i; j++) {
 			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From 4fb9d92e4c4fc08ff77ad8dcc3637fe362964c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 34/48] fix: randomGraph(n, p) drew too few edges for directed
 graphs

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 906c469..4d7abfc 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -881,7 +881,7 @@ GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / (DIR ? 1 : 2), p));
 }
 
 // generate a random graph with linear growing degrees
-- 
2.43.0


From c0acf5b19143e2da68cff253835dbe6e33ea393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 35/48] fix: randomGraph(degree) accepted negative degrees

---
 src/graph_gen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 4d7abfc..f50ab79 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -905,6 +905,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 	// havel hakimi in O(m*log(n))
 	std::priority_queue<std::pair<Integer, Integer>> pq;
 	for (Integer i = 0; i < std::ssize(degree); i++) {
+		judgeAssert<std::invalid_argument>(degree[i] >= 0, "randomGraph(): Invalid degree sequence!");
 		if (degree[i] > 0) {
 			pq.emplace(degree[i], i);
 		}
-- 
2.43.0


From 019b16f3e5172d7798d9701f243acafcfe0bcb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 36/48] fix: randomGraph(degree) threw for graphs without edges

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f50ab79..985cdeb 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -927,7 +927,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 		for (const auto& e : todo) pq.push(e);
 	}
 	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+	for (Integer i = 0; i < averageFlips*res.nodeCount() and res.edgeCount() > 0; i++) {
 		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
 		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
 		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-- 
2.43.0


From 2493420212bb707e5f8b08a98d8b06d5418180b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 37/48] fix: Random::seed works with every documented
 RandomEngine

Xoshiro256ss and AES_RNG (the documented replacement engines) have no
seed() member, so setting Settings::RandomEngine to one of them did not
compile. Assign a freshly seeded engine instead, which is equivalent for
std::mt19937_64.
---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cfbbd0f..0a5ee6f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1377,7 +1377,7 @@ namespace Random {
 	}
 
 	void seed(UInteger seed) {
-		details::randomNumberGenerator.seed(seed);
+		details::randomNumberGenerator = RandomEngine(seed);
 	}
 
 	//========================================================================//
-- 
2.43.0


From 5376b7c18c1276ac092b2c6967ffea765c6d751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 38/48] fix: visualizer_png.h includes the headers it uses

---
 src/visualizer_png.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..d87df42 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -18,6 +18,11 @@
 #include <vector>
 #include <cmath>
 #include <optional>
+#include <string>
+#include <string_view>
+#include <utility>
+#include <stdexcept>
+#include <cstdint>
 
 using Integer = std::int64_t;
 using Real = long double;
-- 
2.43.0


From b91c710b5f9536c35a3f1d67a95178f8bcc82855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 39/48] fix: clamp_color of large reals (png)

std::llround of a value out of range is unspecified, large values became 0.
---
 src/visualizer_png.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index d87df42..97fabf9 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -97,12 +97,14 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	// clamp first, large values do not fit into the result of llround
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0L, 255.0L)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	// clamp first, large values do not fit into the result of llround
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From f0c03fe933cdb14e1693507104a70fdbaceef4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 40/48] fix: lerp rounds each part once (png)

lerp(c, c, 0.5) changed odd parts.
---
 src/visualizer_png.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 97fabf9..eab3e98 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -146,7 +146,11 @@ constexpr Color& operator-=(Color& a, const Color& b) {
 
 constexpr Color lerp(const Color& a, const Color& b, Real f) {
 	assert(0 <= f and f <= 1);
-	return a*f+b*(1-f);
+	// round only once per part
+	return Color(clamp_color(a.r*f+b.r*(1-f)),
+	             clamp_color(a.g*f+b.g*(1-f)),
+	             clamp_color(a.b*f+b.b*(1-f)),
+	             clamp_color(a.a*f+b.a*(1-f)));
 }
 
 constexpr Color blend(const Color& lower, const Color& upper) {
-- 
2.43.0


From b99af476cea5c91d16b9a741f75f1fa264c37a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 41/48] fix: fillRectangle compares with the border row instead
 of assigning it

y = a.y reset the loop variable.
---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index eab3e98..658fa79 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -353,7 +353,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From 4bc1a1ba207000f099c85401b5595c09abecea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 42/48] fix: visualizer_svg.h includes the headers it uses

---
 src/visualizer_svg.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index ecd0768..146b231 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -18,6 +18,11 @@
 #include <vector>
 #include <cmath>
 #include <optional>
+#include <sstream>
+#include <string>
+#include <utility>
+#include <stdexcept>
+#include <cstdint>
 
 using Integer = std::int64_t;
 using Real = long double;
-- 
2.43.0


From 86151efe769dff832226973c2ac89a9f5f74c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 43/48] fix: printing a svg color does not depend on or change
 the stream format

The fill character stayed 0 and left adjusted streams printed wrong digits.
---
 src/visualizer_svg.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 146b231..f62f7ee 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -78,10 +78,12 @@ struct Color {
 
 	friend std::ostream& operator<<(std::ostream& os, const Color& c) {
 		std::ios_base::fmtflags flags(os.flags());
-		os << "#" << std::hex;
-		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.r);
-		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.g);
-		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.b);
+		char fill = os.fill('0');
+		os << "#" << std::hex << std::right;
+		os << std::setw(2) << static_cast<int>(c.r);
+		os << std::setw(2) << static_cast<int>(c.g);
+		os << std::setw(2) << static_cast<int>(c.b);
+		os.fill(fill);
 		os.flags(flags);
 		return os;
 	}
-- 
2.43.0


From 375305619cf67c2db9e51ef65c34e4ff7dca02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 44/48] fix: clamp_color of large reals (svg)

std::llround of a value out of range is unspecified, large values became 0.
---
 src/visualizer_svg.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index f62f7ee..d603493 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -108,12 +108,14 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	// clamp first, large values do not fit into the result of llround
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0L, 255.0L)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	// clamp first, large values do not fit into the result of llround
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From d7222753aa91a9920765135b72147e49a244fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 45/48] fix: lerp rounds each part once (svg)

lerp(c, c, 0.5) changed odd parts.
---
 src/visualizer_svg.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index d603493..b534e9c 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -155,7 +155,10 @@ constexpr Color& operator-=(Color& a, const Color& b) {
 
 constexpr Color lerp(const Color& a, const Color& b, Real f) {
 	assert(0 <= f and f <= 1);
-	return a*f+b*(1-f);
+	// round only once per part
+	return Color(clamp_color(a.r*f+b.r*(1-f)),
+	             clamp_color(a.g*f+b.g*(1-f)),
+	             clamp_color(a.b*f+b.b*(1-f)));
 }
 
 // some default colors
-- 
2.43.0


From 950ad365efacd6d9f45c0b2ad78c6d417648c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 46/48] fix: SVG can be moved as declared

The defaulted move constructor was deleted, because the virtual base of
std::ostream can not be moved.
---
 src/visualizer_svg.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index b534e9c..4bbb3c0 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -320,7 +320,10 @@ public:
 	}
 
 	SVG(const SVG&) = default;
-	SVG(SVG&&) = default;
+	SVG(SVG&& o) : std::ostream(nullptr), fileName(std::move(o.fileName)), out(std::move(o.out)), origin(o.origin), dimension(o.dimension) {
+		// the buffer is not moved by std::ostream
+		init(out.rdbuf());
+	}
 	SVG& operator=(const SVG&) = default;
 	SVG& operator=(SVG&&) = default;
 
-- 
2.43.0


From 5b0db5c0dd9f949601ec3e7a8ba8a248635c9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 47/48] fix: shapes after text in one expression are included
 in the bounding box

image << shape << "\\n" << shape resolved the last operator to std::ostream&.
---
 src/visualizer_svg.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 4bbb3c0..e95d15a 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -327,6 +327,18 @@ public:
 	SVG& operator=(const SVG&) = default;
 	SVG& operator=(SVG&&) = default;
 
+	// return SVG& such that shapes which follow in the same expression are included in the bounding box
+	template<typename T>
+	SVG& operator<<(const T& value) {
+		static_cast<std::ostream&>(*this) << value;
+		return *this;
+	}
+
+	SVG& operator<<(std::ostream& (*manipulator)(std::ostream&)) {
+		static_cast<std::ostream&>(*this) << manipulator;
+		return *this;
+	}
+
 	void write() const {
 		if (!fileName or out.str().empty()) return;
 		std::ofstream os(*fileName);
-- 
2.43.0


From 04dac7f69e1780f250b6b37754145bd2c42693ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:46 +0000
Subject: [PATCH 48/48] fix: Random::normal scales by the standard deviation

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 0a5ee6f..5781f6d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1470,7 +1470,7 @@ namespace Random {
 		Real u1 = real();
 		Real u2 = real();
 		Real res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-		return std::sqrt(stddev) * res + mean;
+		return stddev * res + mean;
 	}
 	Real normal(Real lower, Real upper, Real mean, Real stddev) {// in [lower, upper)
 		judgeAssert<std::domain_error>(!std::isnan(lower), "Random::normal(): Lower must not be NaN!");
@@ -1484,10 +1484,10 @@ namespace Random {
 			// Box-Muller-Methode
 			// https://en.wikipedia.org/wiki/Box%E2%80%93Muller_transform
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::sin(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 		}
 	}
-- 
2.43.0

