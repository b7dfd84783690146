// Bit-blasting back end: hash-consed AIG (with XOR nodes) + MiniSat.
#pragma once
#include "expr.h"
#include <vector>
// Returns 1 sat, 0 unsat, -1 undecided within the conflict budget.
// On sat, `vals` receives (var id, value) for the variables in `vars`.
int blastSolve(const std::vector<E> &conj, const std::vector<uint32_t> &vars, std::vector<std::pair<uint32_t, uint64_t>> &vals, long confBudget);
