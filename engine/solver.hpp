#pragma once
#include "core.hpp"
enum class R { SAT, UNSAT, UNK };
typedef std::map<Z3_ast, Z3_ast> Assign;   // variable -> value
struct SolverStats {
  long queries = 0, sat = 0, unsat = 0, unk = 0, cached = 0, ext = 0, poly = 0; double secs = 0;
};
extern SolverStats SS;
// definitional axioms attached to a variable (sqrt, reciprocal, trig...)
void addAxiom(Z3_ast var, Z3_ast ax);
// pairwise axioms etc: attached to var list
Z3_ast mkNot(Z3_ast a);
bool isTrue(Z3_ast a); bool isFalse(Z3_ast a);
Z3_ast simp(Z3_ast a);
const std::vector<Z3_ast>& varsOf(Z3_ast a);
// constraints in pc relevant to the seeds, closed under axioms
std::vector<Z3_ast> slice(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& extra);
R checkSat(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& extra, bool strong, Assign* out);
// full assignment for everything in pc+extra (independent components solved separately)
R solveAll(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& extra, Assign& out, bool strong, int variant,
           const std::vector<Z3_ast>& pinVars);
std::string valueStr(Z3_ast v);   // decimal for real, 0x.. for bv, true/false
// tries to satisfy pc+bad by pinning inputs to generic rationals; returns the conjunction of pins on success
bool pinnedSearch(const std::vector<Z3_ast>& pc, Z3_ast bad, const std::vector<Z3_ast>& pinVars, std::vector<Z3_ast>& pins);
extern double DEADLINE;   // steady-clock second after which queries give up
bool trigFix(Assign& a);
