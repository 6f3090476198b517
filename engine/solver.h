#pragma once
#include "expr.h"
enum Res { SAT, UNSAT, UNK };
struct SolverStats {
	u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, external = 0;
	double time = 0, maxTime = 0;
};
extern SolverStats solverStats;
extern double queryTimeout;      // seconds, total per query
extern std::string scratchDir;
// solves the conjunction of `cons`; on SAT fills `out` (values for variables in cons)
Res solve(const std::vector<Ex*>& cons, std::vector<std::pair<uint32_t, u128>>& out);
double nowSec();
