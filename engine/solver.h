#pragma once
#include "state.h"
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, cacheHits = 0, domainHits = 0, modelHits = 0; double time = 0, maxTime = 0; uint64_t maxSlice = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
// Is pc(s) && c satisfiable? On success m receives a model of the whole path condition.
bool feasible(State& s, E c, std::shared_ptr<Model>* m);
void addConstraint(State& s, E c);
// is there an assignment in which c changes when only uninitialised bytes change?
bool uninitMatters(State& s, E c);
