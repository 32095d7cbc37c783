#pragma once
#include "expr.hpp"
enum Res { UNSAT, SAT, UNK };
struct SolverStats { uint64_t queries=0, unsat=0, sat=0, unk=0, ident=0, identZ3=0, guessed=0, nlq=0; double secs=0; };
extern SolverStats sstats;
void solverInit();
// satisfiability of the conjunction; fills m (ints, reals) when sat
Res solverCheck(const std::vector<const Expr*>& cs, Model* m, unsigned timeoutMs);
std::string vpshow(const Expr*);
// decides x == y for real polynomials: asks the solver for a counterexample of the cleared identity
Res solverIdentity(const Poly* x, const Poly* y, unsigned timeoutMs);
bool guessModel(const std::vector<const Expr*>& cs, Model& m, unsigned tries, uint64_t seed);
