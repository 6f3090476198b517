//@ oracle the documented defaults and command line flags of each program kind, observed through the streams
//@ bounds the five program kinds with every subset of the four flags and symbolic tolerance digits, symbolic token bytes probing case, whitespace and tolerance of every stream; settings assigned before init
//@ outside other flags
//@ case settings quick=0-4 reach=done
//@ case streams quick=0-3 reach=done
//@ case change quick=0-4 reach=threw
//@ case pattern reach=ok,bad
//@ case output quick=0-4 reach=done
#include "args.h"
#include <filesystem>
#include <fstream>
struct Cin { std::istringstream s; std::streambuf* o; Cin(const std::string& t) : s(t) { o = std::cin.rdbuf(s.rdbuf()); } ~Cin() { std::cin.rdbuf(o); } };
struct Cap { std::ostream& t; std::ostringstream s; std::streambuf* o; Cap(std::ostream& t_) : t(t_) { o = t.rdbuf(s.rdbuf()); } ~Cap() { t.rdbuf(o); } };
static void put(const std::string& n, const std::string& t) { std::ofstream f(n); f << t; }
static void prepare() {
#ifndef VP_SYM
	std::filesystem::create_directories("fb");
#endif
}
// kinds: 0 input validator, 1 answer validator, 2 output validator, 3 interactor, 4 generator
static void base(Argv& v, int kind) { v.add("prog"); if (kind >= 1 && kind <= 3) v.add("in.txt"); if (kind >= 2 && kind <= 3) { v.add("ans.txt"); v.add("fb"); } }
static void start(Argv& v, int kind) { if (kind == 0) InputValidator::init(v.argc(), v.argv()); if (kind == 1) AnswerValidator::init(v.argc(), v.argv()); if (kind == 2) OutputValidator::init(v.argc(), v.argv()); if (kind == 3) Interactor::init(v.argc(), v.argv()); if (kind == 4) Generator::init(v.argc(), v.argv()); }
static Real def(int k) { return k == 0 ? 1e-6L : k == 1 ? 0.25L : 0.5L; }
struct Set { bool sp, cs; Real a, r; };
static Set flags(Argv& v, int kind, bool pre) {
	Set s{kind <= 1, kind <= 1, DEFAULT_EPS, DEFAULT_EPS};
	if (pre && kind >= 2 && vp_flag("presens")) { ValidateBase::spaceSensitive = true; s.sp = true; } if (pre && kind >= 2 && vp_flag("precase")) { ValidateBase::caseSensitive = true; s.cs = true; }
	if (pre && vp_flag("pretol")) { ValidateBase::floatAbsTol = 0.5L; ValidateBase::floatRelTol = 0.25L; s.a = 0.5L; s.r = 0.25L; }
	if (vp_flag("sp")) { v.add("space_change_sensitive"); s.sp = true; } if (vp_flag("cs")) { v.add("case_sensitive"); s.cs = true; }
	int order = (int)vp_choose("tol", 0, 5); Integer d = 1; // 0: none
	auto num = [&](Integer& x) { x = vp_range("d", 1, 9); return std::string(1, (char)('0' + x)); };
	if (order == 1 || order == 4 || order == 5) { std::string n = num(d); v.add("float_tolerance"); v.add(n); s.a = s.r = (Real)d; }
	if (order == 2 || order == 4) { std::string n = num(d); v.add("float_absolute_tolerance"); v.add(n); s.a = (Real)d; }
	if (order == 3 || order == 5) { std::string n = num(d); v.add("float_relative_tolerance"); v.add(n); s.r = (Real)d; }
	return s;
}
VP_CASE(settings) {
	int kind = (int)vp_arg(); Argv v; base(v, kind); prepare(); put("in.txt", "1"); put("ans.txt", "1"); Cin c("1"); Set s = flags(v, kind, true);
	start(v, kind);
	vp_assert((bool)ValidateBase::spaceSensitive == s.sp, "whitespace mode"); vp_assert((bool)ValidateBase::caseSensitive == s.cs, "case mode"); vp_assert(vp_and((Real)ValidateBase::floatAbsTol == s.a, (Real)ValidateBase::floatRelTol == s.r), "tolerances");
	Integer x = vp_range("x", 0, 15); bool q = ValidateBase::floatEqual((Real)x, 0); vp_assert(q == (x <= s.a), "the default tolerance of comparisons");
	bool e = bool(ValidateBase::stringEqual("a", "A", ValidateBase::caseSensitive)); vp_assert(e == !s.cs, "string comparison follows the case mode");
	vp_reach("done"); vp_obs(s.sp); vp_obs(s.cs); vp_obs(q);
}
static void probe(InputStream& s, bool sp, bool cs, const Set& t, int code, Integer x, char c) { // text: "B" c x ".0"
	std::string g; int r = attempt([&] { g = s.string(); }); vp_assert(r == -1, "first token"); vp_assert(g == (cs ? "B" : "b"), "case mode of the stream");
	r = attempt([&] { s.space(); }); vp_assert((r == -1) == vp_or(!sp, c == ' '), "whitespace mode of the stream"); if (r != -1) { vp_assert(r == code, "verdict of the stream"); return; }
	r = attempt([&] { s.real(0, 0); }); vp_assert((r == -1) == (x <= t.a), "tolerance of the stream"); if (r != -1) vp_assert(r == code, "verdict of the stream");
}
VP_CASE(streams) {
	int kind = (int)vp_arg(); Argv v; base(v, kind); prepare(); Set s = flags(v, kind, false); int which = kind == 0 ? 0 : kind == 2 ? (int)vp_choose("which", 0, 2) : (int)vp_choose("which", 0, 1);
	Integer x = vp_range("x", 0, 9); char c = vp_flag("nl") ? '\n' : ' '; std::string t = "B"; t += c; t += (char)('0' + x); t += ".0\n";
	put("in.txt", t); put("ans.txt", t); Cin in(t); Cap o(std::cout); start(v, kind);
	if (kind == 0) probe(InputValidator::testIn, true, true, s, 43, x, c);
	if (kind == 1) { if (which) probe(AnswerValidator::ans, true, true, s, 43, x, c); else probe(AnswerValidator::testIn, false, true, s, 1, x, c); }
	if (kind == 2) { if (which == 2) probe(OutputValidator::teamAns, s.sp, s.cs, s, 43, x, c); else probe(which ? OutputValidator::juryAns : OutputValidator::testIn, false, s.cs, s, 1, x, c); }
	if (kind == 3) { if (which) probe(Interactor::fromTeam, s.sp, s.cs, s, 43, x, c); else probe(Interactor::testIn, false, s.cs, s, 1, x, c); }
	vp_reach("done"); vp_obs(x);
}
VP_CASE(change) {
	int kind = (int)vp_arg(); Argv v; base(v, kind); prepare(); put("in.txt", "1"); put("ans.txt", "1"); Cin c("1"); start(v, kind); int n = 0; Real t = vp_ld("t"); bool b = vp_bool("b");
	Real a0 = ValidateBase::floatAbsTol; bool s0 = ValidateBase::spaceSensitive, c0 = ValidateBase::caseSensitive;
	try { ValidateBase::floatAbsTol = t; } catch (std::logic_error&) { n++; } try { ValidateBase::floatRelTol = t; } catch (std::logic_error&) { n++; } try { ValidateBase::spaceSensitive = b; } catch (std::logic_error&) { n++; } try { ValidateBase::caseSensitive = b; } catch (std::logic_error&) { n++; } if (kind >= 2) { try { start(v, kind); } catch (std::logic_error&) { n++; } } else n++;
	vp_assert(n == 5, "settings are fixed after initialisation and initialisation happens once"); vp_assert((Real)ValidateBase::floatAbsTol == a0 && (bool)ValidateBase::spaceSensitive == s0 && (bool)ValidateBase::caseSensitive == c0, "settings keep their value"); vp_reach("threw"); vp_obs(n);
}
VP_CASE(pattern) { // patterns built from the setting follow the case mode
	bool cs = vp_flag("cs"); ValidateBase::caseSensitive = cs; auto re = ValidateBase::caseSensitive.regex("[b-d]x*"); char c = vp_char("c"), d = vp_char("d"); std::string s{c, d};
	auto low = [](unsigned char x) { return (unsigned char)(x + 32 * (int)((unsigned char)(x - 'A') <= 25)); };
	unsigned char a = cs ? (unsigned char)c : low((unsigned char)c), b = cs ? (unsigned char)d : low((unsigned char)d);
	bool m = std::regex_match(s, re); vp_assert(m == vp_and((unsigned char)(a - 'b') <= 2, b == 'x'), "pattern matching follows the case mode"); vp_reach(m ? "ok" : "bad"); vp_obs(m);
}
static std::string get(const std::string& n) { std::ifstream f(n); std::ostringstream o; char c; while (f.get(c)) o << c; return o.str(); }
VP_CASE(output) { // where the output goes
	int kind = (int)vp_arg(); Argv v; base(v, kind); prepare(); put("in.txt", "1"); put("ans.txt", "1"); Cin c("1"); Cap o(std::cout), e(std::cerr); start(v, kind); std::string m = "m"; m += (char)('a' + vp_range("c", 0, 25));
	ValidateBase::juryOut << m << std::flush; if (kind == 2) OutputValidator::teamOut << "t" << m << std::flush; if (kind == 3) { Interactor::teamOut << "t" << m << std::flush; Interactor::toTeam << "u" << m << std::flush; } if (kind == 4) Generator::testOut << "g" << m << std::flush;
	if (kind <= 1) { vp_assert(sameStr(o.s.str(), m), "messages of validators go to the standard output"); }
	if (kind == 2 || kind == 3) { vp_assert(sameStr(get("fb/judgemessage.txt"), m), "judge message file"); vp_assert(sameStr(get("fb/teammessage.txt"), "t" + m), "team message file"); vp_assert(sameStr(o.s.str(), kind == 3 ? "u" + m : ""), "only the interactor talks to the team"); }
	if (kind == 4) { vp_assert(sameStr(e.s.str(), m), "messages of generators go to the error output"); vp_assert(sameStr(o.s.str(), "g" + m), "the generated test goes to the standard output"); }
	vp_assert(kind == 4 || e.s.str().empty(), "nothing on the error output"); vp_reach("done"); vp_obs((Integer)m.size());
}
