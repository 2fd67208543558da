#pragma once
#include "expr.h"
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern bool g_auditing; bool auditDue(); void auditTook(double);
extern bool g_domain; extern u64 g_domainHits;   // conditions over at most two input bytes may be decided on the table of their values
extern unsigned g_timeoutMs; extern double g_budgetEnd;
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
void solverInit();
// Is (constraints /\ cond) satisfiable?  base: a model of constraints (may be null). On SAT *out gets a full model.
Res solve(const std::vector<Expr*>& constraints, Expr* cond, ModelP base, ModelP* out);
ModelP emptyModel();
u64 newModelId();
Res enumValues(const std::vector<Expr*>& cons, Expr* e, ModelP base, unsigned maxn, double tmax, std::vector<std::pair<u64, ModelP>>& out);
bool tableValues(const std::vector<Expr*>& cons, Expr* e, const ModelP& base, size_t maxn, std::vector<u64>& out);
