// Z3-backed decision procedure with independence slicing, query caching and model reuse.
#pragma once
#include "expr.h"
#include <deque>
#include <set>

enum class Sat { Yes, No, Unknown };

struct SolverStats {
    uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unknown = 0, satN = 0, unsatN = 0;
    double z3s = 0;
    double maxs = 0;
};
extern SolverStats g_sstats;
extern unsigned g_queryTimeoutMs;

void solverInit();
// Is conj(pc) /\ cond satisfiable?  base must satisfy pc. On Yes, *out is base overridden on the relevant variables.
Sat solverCheck(const std::vector<Expr*>& pc, Expr* cond, const Model& base, ModelP* out);
