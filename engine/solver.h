#pragma once
#include "expr.h"
struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, cacheHits=0; double secs=0, maxq=0; };
extern SolverStats g_sstats;
extern unsigned g_solverTimeoutMs;
// returns 1 sat, 0 unsat, -1 unknown.  On sat, model[v] is set for the variables in the constraints' support.
int solveQuery(const std::vector<Expr*>& cs, std::vector<u8>& model);
std::string smtlib(const std::vector<Expr*>& cs);
// all values of e under cs (at most limit); returns false on unknown / limit / stop
bool solveAll(const std::vector<Expr*>& cs, Expr* e, size_t limit, const std::vector<u8>& base, std::vector<std::pair<u64, std::vector<u8>>>& out, bool (*stop)());
