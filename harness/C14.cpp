//@ oracle a list of the tokens written in each pass
//@ bounds runs of 1..3 consecutive passes (thorough 4), arbitrary tokens of two letters handed from pass to pass, stale state files; single passes started from every stored pass number below 1000
//@ outside more consecutive passes; crashes inside a pass
//@ case passes quick=1-3 thorough=1-4 reach=done
//@ case resume quick=0-2 reach=done
//@ case early reach=threw
//@ case nextpass quick=0-1 reach=done
#include "args.h"
#include <filesystem>
#include <fstream>
static void put(const std::string& n, const std::string& t) { std::ofstream f(n); f << t; }
static std::string get(const std::string& n) { std::ifstream f(n); std::ostringstream o; char c; while (f.get(c)) o << c; return o.str(); }
static Argv av;
static void boot(bool interactive) {
#ifndef VP_SYM
	std::filesystem::create_directories("fb");
#endif
	put("in.txt", "1"); put("ans.txt", "1"); av.add("p"); av.add("in.txt"); av.add("ans.txt"); av.add("fb"); if (interactive) Interactor::init(av.argc(), av.argv()); else OutputValidator::init(av.argc(), av.argv());
}
VP_CASE(passes) {
	int n = (int)vp_arg(); boot(vp_flag("interactive")); std::string last; bool stale = vp_flag("stale"); if (stale) { put("fb/.state0", "stale"); put("fb/.state1", "stale"); }
	for (int i = 0; i < n; i++) {
		Multipass::init(); vp_assert(Multipass::pass == i, "passes are counted from zero");
		if (i) { std::string g; int r = attempt([&] { g = Multipass::prevstate.string(); Multipass::prevstate.eof(); }); vp_assert(r == -1 && sameStr(g, last), "the previous state is what the previous pass stored"); }
		else { bool thr = false; try { Multipass::prevstate.string(); } catch (std::runtime_error&) { thr = true; } vp_assert(thr, "the first pass has no previous state"); }
		last = std::string{(char)('A' + vp_range("c", 0, 25)), (char)('a' + vp_range("d", 0, 25))}; Multipass::nextstate << last << std::flush;
		std::string np = get("fb/.pass"); vp_assert(np.size() >= 1 && np[0] == (char)('0' + i), "the pass number is stored");
	}
	vp_reach("done"); vp_obs(n);
}
VP_CASE(resume) { // a pass in the middle
	boot(false); int dg = (int)vp_arg() + 1; std::string s; Integer old = 0; for (int i = 0; i < dg; i++) { int d = (int)vp_range("d", i ? 0 : 1, 9); s += (char)('0' + d); old = old * 10 + d; }
	put("fb/.pass", s); bool odd = old % 2 != 0; std::string a{(char)('a' + vp_range("a", 0, 25))}, b{(char)('a' + vp_range("b", 0, 25))}; put("fb/.state0", a); put("fb/.state1", b);
	Multipass::init(); vp_assert(Multipass::pass == old + 1, "the next pass number"); std::string g; int r = attempt([&] { g = Multipass::prevstate.string(); }); vp_assert(r == -1, "state is readable"); vp_assert(g.size() == 1 && g[0] == (char)vp_ite(odd, b[0], a[0]), "state of the previous pass");
	Multipass::nextstate << "N" << std::flush; std::string x = get("fb/.state0"), y = get("fb/.state1"); vp_assert(sameStr(odd ? x : y, "N"), "the new state does not overwrite the previous one"); vp_assert(sameStr(odd ? y : x, odd ? b : a), "the previous state is kept"); vp_reach("done"); vp_obs(old);
}
VP_CASE(early) { bool t = false; try { Multipass::init(); } catch (std::logic_error&) { t = true; } vp_assert(t, "multipass needs an initialised program"); vp_reach("threw"); vp_obs(t); }
VP_CASE(nextpass) {
	boot(vp_arg() == 1); Multipass::init(); std::string w; for (int i = 0, n = (int)vp_choose("n", 0, 3); i < n; i++) { std::string p{(char)('a' + vp_range("c", 0, 25))}; p += i % 2 ? '\n' : ' '; Multipass::nextpass << p; w += p; }
	int k = (int)vp_choose("how", 0, 1); int r = attempt([&] { if (k == 0) Multipass::NEXT(); else Multipass::nextpass << Multipass::NEXT; }); vp_assert(r == 42, "another pass is requested with the accepting verdict");
	if (k == 1) w += '\n'; vp_assert(sameStr(get("fb/nextpass.in"), w), "the input of the next pass is exactly what was written"); vp_reach("done"); vp_obs(r);
}
