//@ oracle a list of names in order of first use with the history of each name
//@ bounds up to 3 constraints with names of 1..2 arbitrary bytes (equal or different), each logged 0..2 times; explicit writes before the end; the three kinds of validators with and without the flag which names the file; stream reads that log into named constraints
//@ outside more constraints
//@ case order quick=0-2 reach=same,diff
//@ case names quick=0-2 reach=ok,threw
//@ case stream reach=done
//@ case nofile reach=done
//@ case program quick=0-2 reach=with,without
#include "num.h"
#include "args.h"
#include <filesystem>
struct Ent { std::string name; bool any; Integer v; };
static bool line(const std::string& s, size_t& p, const std::string& name, Integer mn, Integer mx) {
	Integer a, b, c = 0, d = 0, e, f; bool r = lit(s, p, "LocationNotSupported:") && lit(s, p, name.c_str()) && lit(s, p, " ") && lit(s, p, name.c_str()) && lit(s, p, " ") && getInt(s, p, a) && lit(s, p, " ") && getInt(s, p, b) && lit(s, p, " ") && getInt(s, p, c) && lit(s, p, " ") && getInt(s, p, d) && lit(s, p, " ") && getInt(s, p, e) && lit(s, p, " ") && getInt(s, p, f) && lit(s, p, "\n");
	if (!r) return false;
	return vp_and(vp_and(c == mn, d == mx), vp_and(e == -100, f == 99));
}
VP_CASE(order) { // three uses of names; shard: names of the second and third use
	std::string n[3]; n[0] = "b"; n[1] = vp_arg() == 1 ? n[0] : std::string(1, (char)vp_choose("n", 'a', 'c')); n[2] = vp_arg() == 2 ? "long_name-1" : std::string(1, (char)('a' + vp_choose("m", 0, 2)));
	std::vector<Ent> ref; bool logs[3]; std::vector<std::vector<Integer>> vals;
	{
		ConstraintsLogger l("c.log");
		for (int i = 0; i < 3; i++) {
			logs[i] = vp_flag("log"); Integer v = vp_range("v", -100, 99);
			Constraint& c = l[n[i]]; if (logs[i]) c.log(-100, 100, v);
			size_t k = 0; while (k < ref.size() && ref[k].name != n[i]) k++;
			if (k == ref.size()) { ref.push_back({n[i], false, 0}); vals.emplace_back(); }
			if (logs[i]) vals[k].push_back(v);
		}
		if (vp_flag("write")) l.write();
	}
	bool ok; std::string s = slurp("c.log", ok); vp_assert(ok, "the file exists"); size_t p = 0;
	for (size_t k = 0; k < ref.size(); k++) if (vals[k].size()) {
		Integer mn = vals[k][0], mx = mn; for (Integer v : vals[k]) mn = vp_ite(v < mn, v, mn), mx = vp_ite(v > mx, v, mx);
		vp_assert(line(s, p, ref[k].name, mn, mx), "one line per used constraint in order of first use");
	}
	vp_assert(p == s.size(), "nothing else is written"); vp_reach(ref.size() == 3 ? "diff" : "same"); if (vp_arg() == 1) vp_reach("diff"); vp_obs((Integer)s.size() > 0);
}
VP_CASE(names) {
	int n = (int)vp_arg(); std::string s = vp_string("name", n); bool bad = n == 0; for (char c : s) bad = vp_or(bad, wsp((unsigned char)c));
	ConstraintsLogger l; bool thr = false; try { l[s]; } catch (std::invalid_argument&) { thr = true; }
	vp_assert(thr == bad, "names are tokens"); vp_reach(thr ? "threw" : "ok"); if (n == 0) vp_reach("ok"); vp_obs(thr);
}
VP_CASE(stream) { // values read with a constraint end up in the file
	Integer a = vp_range("a", 0, 9), b = vp_range("b", 0, 9); std::string t; t += (char)('0' + a); t += ' '; t += (char)('0' + b); t += " abc 2.5 x y";
	{
		ConstraintsLogger l("s.log"); Feed f(t, true, true, 43);
		int r = attempt([&] { f.s.integers(-100, 100, l["n"], 2); f.s.space(); f.s.string(0, 100, l["len"]); f.s.space(); f.s.realStrict(0, 9, 0, 2, l["r"]); f.s.space(); f.s.strings(1, 5, l["len2"], 2); f.s.eof(); });
		vp_assert(r == -1, "the input is valid");
	}
	bool ok; std::string s = slurp("s.log", ok); size_t p = 0;
	vp_assert(line(s, p, "n", vp_ite(a < b, a, b), vp_ite(a < b, b, a)), "integers");
	vp_assert(s.substr(p) == "LocationNotSupported:len len 0 0 3 3 0 99\nLocationNotSupported:r r 0 0 2.500000 2.500000 0.000000 9.000000\nLocationNotSupported:len2 len2 1 0 1 1 1 4\n", "strings and reals");
	vp_reach("done"); vp_obs((Integer)p > 0);
}
VP_CASE(nofile) {
	{ ConstraintsLogger l; l["a"].log(0, 5, vp_range("v", 0, 4)); l.write(); }
	bool ok; slurp("", ok); vp_assert(!ok, "without a file name nothing is written"); vp_reach("done"); vp_obs(0);
}
struct Cin { std::istringstream s; std::streambuf* o; Cin(const std::string& t) : s(t) { o = std::cin.rdbuf(s.rdbuf()); } ~Cin() { std::cin.rdbuf(o); } };
VP_CASE(program) { // the file named on the command line of each kind of validator
	int kind = (int)vp_arg(); bool with = vp_flag("with"), before = vp_flag("before"); Integer a = vp_range("a", 0, 9), b = vp_range("b", 0, 9);
#ifndef VP_SYM
	std::filesystem::create_directories("fb");
#endif
	for (const char* n : {"in.txt", "ans.txt"}) { std::ofstream f(n); f << "1"; }
	std::string t; t += (char)('0' + a); t += ' '; t += (char)('0' + b); t += '\n';
	Argv v; v.add("prog"); if (kind >= 1) v.add("in.txt"); if (kind == 2) { v.add("ans.txt"); v.add("fb"); } if (with && before) v.add("case_sensitive"); if (with) { v.add("--constraints_file"); v.add("limits.log"); } if (!before) v.add("space_change_sensitive");
	Cin c(t); if (kind == 0) InputValidator::init(v.argc(), v.argv()); if (kind == 1) AnswerValidator::init(v.argc(), v.argv()); if (kind == 2) OutputValidator::init(v.argc(), v.argv());
	InputStream& s = kind == 0 ? InputValidator::testIn : kind == 1 ? AnswerValidator::ans : OutputValidator::teamAns;
	int r = attempt([&] { s.integers(-100, 100, ConstraintsBase::constraint["n"], 2); s.newline(); s.eof(); }); vp_assert(r == -1, "the input is valid");
	ConstraintsBase::constraint.write(); bool ok; std::string w = slurp("limits.log", ok); vp_assert(ok == with, "the file is written exactly when it is asked for"); size_t p = 0;
	if (ok) { vp_assert(line(w, p, "n", vp_ite(a < b, a, b), vp_ite(a < b, b, a)), "the values read"); vp_assert(p == w.size(), "nothing else is written"); }
	vp_reach(with ? "with" : "without"); vp_obs(a);
}
