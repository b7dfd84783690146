#pragma once
#include "expr.h"
#include <memory>
struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, sat_minisat = 0, unsat_minisat = 0, crosschecked = 0, z3_queries = 0; double time = 0; double maxTime = 0; };
extern SolverStats gS;
extern unsigned gSolverTimeoutMs;
enum SatResult { SAT, UNSAT, UNKNOWN };
// Is pc /\ cond satisfiable?  `base` satisfies pc; on SAT `out` satisfies pc /\ cond.
SatResult checkSat(const std::vector<E> &pc, E cond, const Model &base, Model &out);

extern void (*gQueryLog)(double, E, SatResult);
