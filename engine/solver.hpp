#pragma once
#include "expr.hpp"
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, abstractUnsat = 0; double time = 0, maxTime = 0; };
extern SolverStats sstats;
extern unsigned gQueryTimeoutMs;
extern std::string gDumpDir; // dump every discharged query as SMT-LIB when non-empty
// Is (/\ pc) /\ q satisfiable?  `base` is a model of pc; on SAT `out` extends it to a model of pc /\ q.
Res solve(const std::vector<E>& pc, E q, const Model& base, Model* out);
void solverReset(); // drop the z3 context (used after fork)
std::string toSmt2(const std::vector<E>& cs);
