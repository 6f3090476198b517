#pragma once
#include "stream.h"
struct Argv { std::vector<std::string> a; std::vector<char*> p; void add(const std::string& s) { a.push_back(s); } int argc() { return (int)a.size(); } char** argv() { p.clear(); for (auto& s : a) p.push_back(&s[0]); p.push_back(nullptr); return p.data(); } };
static inline bool sameStr(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = vp_and(r, a[i] == b[i]); return r; }
