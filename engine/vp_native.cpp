// native side of the harness interface: replays recorded input values
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <exception>
#include <typeinfo>

static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> m; return m; }
void vp_register(const char* name, void (*fn)()) { reg()[name] = fn; }
static std::vector<std::uint64_t> in;
static size_t pos = 0;
static long arg = 0;
static FILE* outf = stdout;
static std::uint64_t nextv() {
	if (pos >= in.size()) { fprintf(outf, "END exhausted\n"); fflush(outf); _exit(0); }
	return in[pos++];
}
extern "C" {
std::uint64_t vp_bits(const char*, int w) { std::uint64_t v = nextv(); return w < 64 ? v & ((1ull << w) - 1) : v; }
std::int64_t vp_range(const char*, std::int64_t lo, std::int64_t hi) {
	if (lo > hi) { fprintf(outf, "END assume\n"); fflush(outf); _exit(0); }
	std::int64_t v = (std::int64_t)nextv();
	if (v < lo || v > hi) { fprintf(outf, "END range\n"); fflush(outf); _exit(0); }
	return v;
}
long double vp_ld(const char*) { std::uint64_t a = nextv(), b = nextv(); long double r = 0; memcpy(&r, &a, 8); memcpy((char*)&r + 8, &b, 2); return r; }
void vp_assume(bool c) { if (!c) { fprintf(outf, "END assume\n"); fflush(outf); _exit(0); } }
void vp_limit(bool c) { if (!c) { fprintf(outf, "END assume\n"); fflush(outf); _exit(0); } }
void vp_assert(bool c, const char* l) { if (!c) { fprintf(outf, "ASSERT %s\n", l); fflush(outf); _exit(0); } }
void vp_reach(const char*) {}
void vp_obs(std::int64_t v) { fprintf(outf, "OBS %llu\n", (unsigned long long)v); }
std::int64_t vp_conc(std::int64_t v) { return v; }
std::int64_t vp_arg() { return arg; }
bool vp_symbolic() { return false; }
void vp_stub(const char*) {}
void vp_note(const char* t, std::int64_t v) { fprintf(stderr, "note: %s %lld\n", t, (long long)v); }
std::int64_t vp_ite(bool c, std::int64_t a, std::int64_t b) { return c ? a : b; }
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
}
// input: lines "<case> <arg> <v> <v> ..."; one child process per line
int main(int argc, char** argv) {
	const char* file = argc > 1 ? argv[1] : "/dev/stdin";
	int tmo = argc > 2 ? atoi(argv[2]) : 10;
	FILE* f = fopen(file, "r");
	if (!f) return 2;
	char* line = nullptr; size_t cap = 0; ssize_t n; int idx = 0;
	outf = fdopen(dup(1), "w");
	char dir[] = "/tmp/vpnatXXXXXX";
	if (!mkdtemp(dir)) return 2;
	while ((n = getline(&line, &cap, f)) > 0) {
		fprintf(outf, "REC %d\n", idx++); fflush(outf);
		pid_t p = fork();
		if (p == 0) {
			std::string own = std::string(dir) + "/" + std::to_string(idx);
			if (mkdir(own.c_str(), 0700) || chdir(own.c_str())) _exit(9);
			rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
			alarm(tmo);
			freopen("/dev/null", "w", stdout);
			freopen("/dev/null", "r", stdin);
			char* t = strtok(line, " \n"); std::string name = t ? t : "";
			t = strtok(nullptr, " \n"); arg = t ? atol(t) : 0;
			while ((t = strtok(nullptr, " \n"))) in.push_back(strtoull(t, nullptr, 10));
			if (!reg().count(name)) { fprintf(outf, "END nocase\n"); fflush(outf); _exit(0); }
			try { reg()[name](); }
			catch (std::exception& e) { fprintf(outf, "UNCAUGHT %s %s\n", typeid(e).name(), e.what()); fflush(outf); _exit(0); }
			catch (...) { fprintf(outf, "UNCAUGHT other\n"); fflush(outf); _exit(0); }
			fprintf(outf, "END ok %zu %zu\n", pos, in.size()); fflush(outf);
			_exit(0);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (WIFSIGNALED(st)) fprintf(outf, WTERMSIG(st) == SIGALRM ? "HANG\n" : "CRASH signal %d\n", WTERMSIG(st));
		else if (WEXITSTATUS(st) != 0) fprintf(outf, "CRASH exit %d\n", WEXITSTATUS(st));
		fflush(outf);
	}
	std::string cmd = std::string(dir);
	// the scratch directory only ever holds plain files written by a harness
	{ std::string c = "/bin/rm -rf -- " + cmd; if (system(c.c_str())) {} }
	return 0;
}
