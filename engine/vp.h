// Harness interface. The same harness source is compiled twice:
//  * with clang to LLVM IR and executed symbolically by vsx (VP_SYM defined)
//  * natively with g++ against the real libraries, fed with concrete values (replay)
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
	std::uint64_t vp_bits(const char* name, int w);                       // arbitrary w-bit value
	std::int64_t vp_range(const char* name, std::int64_t lo, std::int64_t hi); // arbitrary value in [lo, hi]
	long double vp_ld(const char* name);                                  // arbitrary canonical long double
	void vp_assume(bool c);                                               // precondition (paths violating it are dropped)
	void vp_limit(bool c);                                                // stated exploration bound
	void vp_assert(bool c, const char* label);
	void vp_reach(const char* tag);                                       // reachability witness
	void vp_obs(std::int64_t v);                                          // compared between executor and native run
	std::int64_t vp_conc(std::int64_t v);                                 // split on the value
	std::int64_t vp_arg();                                                // shard index
	bool vp_symbolic();
	void vp_stub(const char* text);
	void vp_note(const char* text, std::int64_t v);
	std::int64_t vp_ite(bool c, std::int64_t a, std::int64_t b);          // no fork
	bool vp_and(bool a, bool b);
	bool vp_or(bool a, bool b);
}
#ifdef VP_SYM
#define VP_CASE(n) extern "C" __attribute__((noinline)) void vp_case_##n()
#else
void vp_register(const char* name, void (*fn)());
#define VP_CASE(n) extern "C" void vp_case_##n(); static int vp_reg_##n = (vp_register(#n, &vp_case_##n), 0); extern "C" void vp_case_##n()
#endif
static inline std::int64_t vp_choose(const char* name, std::int64_t lo, std::int64_t hi) { return vp_conc(vp_range(name, lo, hi)); }
static inline bool vp_bool(const char* name) { return vp_bits(name, 1) != 0; }
static inline bool vp_flag(const char* name) { return vp_choose(name, 0, 1) != 0; } // split
static inline std::int64_t vp_i64(const char* name) { return (std::int64_t)vp_bits(name, 64); }
static inline char vp_char(const char* name) { return (char)vp_bits(name, 8); }
#define VP_REACH(t) vp_reach(t)
