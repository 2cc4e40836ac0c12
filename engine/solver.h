#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <map>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
    uint64_t queries = 0, cacheHits = 0, modelHits = 0, solverCalls = 0, sat = 0, unsat = 0, unknown = 0, external = 0, fpQueries = 0, tables = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
extern double g_qtimeout;       // seconds, in-process
extern double g_xtimeout;       // seconds, external portfolio
extern double g_deadline;       // absolute wall clock (monotonic seconds)
extern std::string g_dumpDir;

void solverInit();
double nowSec();
// satisfiability of cons && cond. base (may be null) is a model satisfying cons; when the answer is Sat,
// *out (if not null) is a model of cons && cond.
Res solve(const std::vector<Ref> &cons, Ref cond, Model *base, Model *out);
