#pragma once
// verdicts surface as exceptions: the documented override of Settings::exitVerdict
#include <string>
struct VerdictExc { int code; };
namespace Settings { [[noreturn]] void exitVerdict(int exitCode) { throw VerdictExc{exitCode}; } }
#include "validate.h"
#include "vp.h"
static inline std::string vp_string(const char* name, int n) { std::string s((size_t)n, '\0'); for (int i = 0; i < n; i++) s[(size_t)i] = vp_char(name); return s; }
static inline std::vector<Integer> vp_vec(const char* name, int n, Integer lo, Integer hi) { std::vector<Integer> v; for (int i = 0; i < n; i++) v.push_back(vp_range(name, lo, hi)); return v; }
