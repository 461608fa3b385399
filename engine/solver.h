#pragma once
#include "expr.h"
#include <unordered_map>
namespace vx {
struct SolverStats { uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double secs = 0; };
class Solver {
    Z3_context ctx; Z3_solver slv, hard; Z3_lbool checkHard(const std::vector<Expr*>&); std::vector<Z3_ast> symAst; std::vector<unsigned> symW;
    std::unordered_map<uint64_t, int> cache; // hash of slice -> 0 unsat
    Z3_ast tr(Expr* e);
    Z3_ast bv(Expr* e);
public:
    SolverStats st; unsigned timeoutMs = 60000;
    Solver();
    // is /\pc /\ cond satisfiable? on sat, updates model (which satisfies pc) to satisfy both. 1 sat, 0 unsat, -1 unknown
    int check(const std::vector<Expr*>& pc, Expr* cond, Model& model);
    std::string smt(const std::vector<Expr*>& pc, Expr* cond);
};
}
