//@ stub randstub.cpp
//@ oracle strings: length, and each character is the alphabet letter of an own draw; bracket sequences: the number of completions of a prefix (ballot numbers) determines which share of the draws must open the next bracket, so that every proper sequence has probability one over the Catalan number
//@ bounds strings of length 0..4 over alphabets of 1..5 arbitrary bytes and a-z; bracket sequences of 0..4 pairs (thorough 6) with arbitrary bracket characters; every draw; all invalid lengths
//@ outside longer sequences
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range
//@ case string quick=0-4 reach=done
//@ case badstring quick=0-1 reach=threw
//@ case bracket quick=0-4 thorough=0-6 reach=done
//@ case badbracket reach=threw
#include "common.h"
#include "draws.h"
VP_CASE(string) {
	Integer n = vp_arg(); int m = (int)vp_choose("m", 0, 5); std::string al = m ? vp_string("a", m) : std::string("abcdefghijklmnopqrstuvwxyz"); vp_draws.record(); std::string r = m ? Random::string(n, al) : Random::string(n);
	vp_assert((Integer)r.size() == n, "length of the string"); vp_assert(vp_draws.have == n, "one draw per character");
	for (Integer i = 0; i < n && i < vp_draws.have; i++) { vp_assert(vp_draws.hi[i] - vp_draws.lo[i] == (Integer)al.size(), "as many outcomes as letters"); Integer d = vp_draws.v[i] - vp_draws.lo[i]; bool ok = false; for (size_t k = 0; k < al.size(); k++) ok = vp_or(ok, vp_and(d == (Integer)k, r[(size_t)i] == al[k])); vp_assert(ok, "every letter is equally likely"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(badstring) { Integer n = vp_i64("n"); bool e = vp_arg() == 1; if (e) vp_assume(n >= 0 && n < 5); else vp_assume(vp_or(n < 0, n > 0xFFFFFFFFll)); bool t = false; vp_draws.reject("invalid lengths and empty alphabets are rejected"); try { if (e) Random::string(n, ""); else if (vp_flag("default")) Random::string(n); else Random::string(n, "ab"); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "invalid lengths and empty alphabets are rejected"); vp_reach("threw"); vp_obs(t); }
static Integer ballot[20][20]; // completions with the given number of characters left at the given depth
VP_CASE(bracket) {
	int n = (int)vp_arg(); char a = '(', b = ')'; bool own = vp_flag("own"); if (own) { a = vp_char("a"); b = vp_char("b"); vp_assume(a != b); }
	for (int left = 0; left <= 2 * n; left++) for (int d = 0; d <= 2 * n; d++) ballot[left][d] = left == 0 ? d == 0 : (d ? ballot[left - 1][d - 1] : 0) + (d < 2 * n ? ballot[left - 1][d + 1] : 0);
	vp_draws.record(); std::string r = own ? Random::bracketSequence(n, a, b) : Random::bracketSequence(n); vp_assert((int)r.size() == 2 * n, "length of the sequence");
	int d = 0, k = 0; for (int i = 0; i < 2 * n; i++) {
		bool op = r[(size_t)i] == a; if (!own) vp_assert(vp_or(op, r[(size_t)i] == b), "a bracket"); Integer all = ballot[2 * n - i][d], opn = d < 2 * n ? ballot[2 * n - i - 1][d + 1] : 0;
		if (vp_draws.have == 2 * n || (opn != 0 && opn != all)) { Integer R = vp_draws.hi[k] - vp_draws.lo[k], v = vp_draws.v[k] - vp_draws.lo[k]; k++; vp_assert(op == (v * all < R * opn), "every proper bracket sequence is equally likely"); vp_assert(R * opn % all == 0, "the share of the draws is exact"); }
		d += op ? 1 : -1; vp_assert(d >= 0, "no bracket is closed before it is opened");
		if (d < 0) return;
	}
	vp_assert(d == 0, "all brackets are closed"); vp_reach("done"); vp_obs(n);
}
VP_CASE(badbracket) { Integer n = vp_i64("n"); vp_assume(vp_or(n < 0, n > 0x7FFFFFFFll)); bool t = false; vp_draws.reject("invalid lengths are rejected"); try { Random::bracketSequence(n); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "invalid lengths are rejected"); vp_reach("threw"); vp_obs(t); }
