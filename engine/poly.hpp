#pragma once
struct State;
Z3_ast polyNorm(State& S, Z3_ast a);
bool polyDiff(State& S, Z3_ast a, Z3_ast b, mpq_class& q, Z3_ast* diff);
void polyEq(State& S, Z3_ast a, Z3_ast b);
void polyAssume(State& S, Z3_ast c);
std::string polyDump(State& S);
bool polySqrt(State& S, Z3_ast a, Z3_ast* root);
void polyHint(Z3_ast h);
bool polyRatio(State& S, Z3_ast a, Z3_ast b, mpq_class& k);   // true if a = k b
