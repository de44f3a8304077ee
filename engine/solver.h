// Satisfiability of path conditions: byte-domain decision where exact, Z3 otherwise.
#pragma once
#include "expr.h"

struct SolverStats
{
    uint64_t z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, domainDecided = 0, cacheHits = 0, modelHits = 0;
    double z3Seconds = 0, z3Max = 0;
};
extern SolverStats gStats;

enum class Res { Sat, Unsat, Unknown };

// Decide conj(constraints). On Sat, model is overlaid with values for the variables of the constraints.
Res solve(const std::vector<E>& constraints, std::vector<uint64_t>& model, unsigned timeoutMs, bool forceZ3 = false);
// slice pc to what is connected to cond and decide pc && cond.  `model` satisfies pc on entry.
Res solveWith(const std::vector<E>& pc, E cond, std::vector<uint64_t>& model, unsigned timeoutMs, bool forceZ3 = false);
void solverReset();
extern bool gCrossCheck;   // have Z3 confirm every byte-domain 'infeasible' verdict
extern bool gCrossCheckFailed;
extern unsigned gSolverTimeoutMs;
