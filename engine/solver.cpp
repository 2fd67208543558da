#include "solver.h"
#include <z3.h>
#include <chrono>
#include <map>
#include <functional>
SolverStats g_ss; unsigned g_timeoutMs = 60000;
static Z3_context C;
static u64 g_modelId = 1;
u64 newModelId() { return ++g_modelId; }
ModelP emptyModel() { auto m = std::make_shared<Model>(); m->id = newModelId(); return m; }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static u64 g_translated;
static std::vector<Expr*> g_touched; static std::vector<void*> g_updZ; static std::map<u32, Z3_ast> g_arrZ;
static void ctxNew() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, errh);
  for (Expr* e : g_touched) e->zb = e->zv = e->zf = nullptr; g_touched.clear(); g_updZ.clear(); g_arrZ.clear(); g_translated = 0;
}
void solverInit() { Z3_global_param_set("model", "true"); ctxNew(); }
static Z3_ast bvv(u64 v, unsigned w) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w)); }
static Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast toB(Expr* e); static Z3_ast toV(Expr* e); static Z3_ast toF(Expr* e);
static Z3_ast arrConst(Array* A) {
  auto it = g_arrZ.find(A->id); if (it != g_arrZ.end()) return it->second;
  Z3_sort s = Z3_mk_array_sort(C, Z3_mk_bv_sort(C, 32), Z3_mk_bv_sort(C, 8));
  Z3_ast r;
  if (A->isConst) { r = Z3_mk_const_array(C, Z3_mk_bv_sort(C, 32), bvv(A->fill, 8));
    for (size_t i = 0; i < A->bytes.size(); i++) if (A->bytes[i] != A->fill) r = Z3_mk_store(C, r, bvv(i, 32), bvv(A->bytes[i], 8)); }
  else r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("arr" + std::to_string(A->id)).c_str()), s);
  return g_arrZ[A->id] = r; }
static Z3_ast updZ(Upd* u) {
  std::vector<Upd*> st; while (u->idx && !(u->id < g_updZ.size() && g_updZ[u->id])) { st.push_back(u); u = u->next; }
  Z3_ast r = u->idx ? (Z3_ast)g_updZ[u->id] : arrConst(u->root);
  while (!st.empty()) { Upd* x = st.back(); st.pop_back(); r = Z3_mk_store(C, r, toV(x->idx), toV(x->val)); if (g_updZ.size() <= x->id) g_updZ.resize(x->id + 1024); g_updZ[x->id] = r; }
  return r; }
static Z3_ast readZ(Expr* e) {
  Upd* u = e->ul; Upd* r = u; unsigned n = 0; while (r->idx) { r = r->next; n++; }
  Array* A = r->root;
  if (n <= 80) {
    Z3_ast idx = toV(e->a); Z3_ast res;
    if (A->isConst) {
      // ITE over distinct entries when small
      u64 lo = e->a->umin, hi = std::min<u64>(e->a->umax, A->bytes.size() ? A->bytes.size() - 1 : 0);
      unsigned nz = 0; for (u64 i = lo; i <= hi && i < A->bytes.size() && nz <= 300; i++) nz += A->bytes[i] != A->fill;
      if (nz <= 300) { res = bvv(A->fill, 8);
        for (u64 i = lo; i <= hi && i < A->bytes.size(); i++) if (A->bytes[i] != A->fill) res = Z3_mk_ite(C, Z3_mk_eq(C, idx, bvv(i, 32)), bvv(A->bytes[i], 8), res); }
      else res = Z3_mk_select(C, arrConst(A), idx);
    } else res = Z3_mk_select(C, arrConst(A), idx);
    std::vector<Upd*> st; for (; u->idx; u = u->next) st.push_back(u);
    while (!st.empty()) { Upd* x = st.back(); st.pop_back(); res = Z3_mk_ite(C, Z3_mk_eq(C, toV(x->idx), idx), toV(x->val), res); }
    return res;
  }
  return Z3_mk_select(C, updZ(u), toV(e->a)); }
static bool isFP(Kind k) { return (k >= K_FADD && k <= K_FDIV) || k == K_FPEXT || k == K_FPTRUNC || k == K_SITOFP || k == K_UITOFP; }
static Z3_ast toF(Expr* e) {
  if (e->zf) return (Z3_ast)e->zf; Z3_ast r; Z3_ast rm = Z3_mk_fpa_rne(C);
  switch (e->k) {
  case K_FADD: r = Z3_mk_fpa_add(C, rm, toF(e->a), toF(e->b)); break;
  case K_FSUB: r = Z3_mk_fpa_sub(C, rm, toF(e->a), toF(e->b)); break;
  case K_FMUL: r = Z3_mk_fpa_mul(C, rm, toF(e->a), toF(e->b)); break;
  case K_FDIV: r = Z3_mk_fpa_div(C, rm, toF(e->a), toF(e->b)); break;
  case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_fp_float(C, rm, toF(e->a), fsort(e->w)); break;
  case K_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rm, toV(e->a), fsort(e->w)); break;
  case K_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rm, toV(e->a), fsort(e->w)); break;
  case K_ITE: r = Z3_mk_ite(C, toB(e->a), toF(e->b), toF(e->d)); break;
  case K_XOR: if (isC(e->b) && e->b->c == (1ull << (e->w - 1))) { r = Z3_mk_fpa_neg(C, toF(e->a)); break; } // fallthrough
  default: r = Z3_mk_fpa_to_fp_bv(C, toV(e), fsort(e->w)); break;
  }
  g_touched.push_back(e); e->zf = r; return r; }
static Z3_ast fpconst(double d, unsigned w) { return w == 32 ? Z3_mk_fpa_numeral_float(C, (float)d, fsort(32)) : Z3_mk_fpa_numeral_double(C, d, fsort(64)); }
static Z3_ast toV(Expr* e) {
  if (e->zv) return (Z3_ast)e->zv; Z3_ast r; g_translated++;
  switch (e->k) {
  case K_CONST: r = bvv(e->c, e->w); break;
  case K_VAR: { r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(e->c)).c_str()), Z3_mk_bv_sort(C, e->w)); } break;
  case K_READ: r = readZ(e); break;
  case K_ADD: r = Z3_mk_bvadd(C, toV(e->a), toV(e->b)); break; case K_SUB: r = Z3_mk_bvsub(C, toV(e->a), toV(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(C, toV(e->a), toV(e->b)); break; case K_UDIV: r = Z3_mk_bvudiv(C, toV(e->a), toV(e->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(C, toV(e->a), toV(e->b)); break; case K_UREM: r = Z3_mk_bvurem(C, toV(e->a), toV(e->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(C, toV(e->a), toV(e->b)); break;
  case K_AND: if (e->w == 1) goto viaB; r = Z3_mk_bvand(C, toV(e->a), toV(e->b)); break;
  case K_OR: if (e->w == 1) goto viaB; r = Z3_mk_bvor(C, toV(e->a), toV(e->b)); break;
  case K_XOR: if (e->w == 1) goto viaB; r = isC(e->b) && e->b->c == maskw(e->w) ? Z3_mk_bvnot(C, toV(e->a)) : Z3_mk_bvxor(C, toV(e->a), toV(e->b)); break;
  case K_SHL: r = Z3_mk_bvshl(C, toV(e->a), toV(e->b)); break; case K_LSHR: r = Z3_mk_bvlshr(C, toV(e->a), toV(e->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(C, toV(e->a), toV(e->b)); break;
  case K_ITE: if (e->w == 1) goto viaB; r = Z3_mk_ite(C, toB(e->a), toV(e->b), toV(e->d)); break;
  case K_EXTRACT: r = Z3_mk_extract(C, e->c + e->w - 1, e->c, toV(e->a)); break;
  case K_CONCAT: r = Z3_mk_concat(C, toV(e->a), toV(e->b)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, toV(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, toV(e->a)); break;
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FPEXT: case K_FPTRUNC: {
    Z3_ast f = toF(e); r = Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), bvv(e->w == 32 ? 0x7fc00000u : 0x7ff8000000000000ull, e->w), Z3_mk_fpa_to_ieee_bv(C, f)); } break;
  case K_SITOFP: case K_UITOFP: r = Z3_mk_fpa_to_ieee_bv(C, toF(e)); break;
  case K_FPTOSI: { Z3_ast f = toF(e->a); unsigned wa = e->a->w; Z3_ast in;
    if (e->w <= 32) in = wa == 32 ? Z3_mk_fpa_geq(C, f, fpconst(-2147483648.0, 32)) : Z3_mk_fpa_gt(C, f, fpconst(-2147483649.0, 64));
    else in = Z3_mk_fpa_geq(C, f, fpconst(-9223372036854775808.0, wa));
    Z3_ast hi = Z3_mk_fpa_lt(C, f, fpconst(e->w <= 32 ? 2147483648.0 : 9223372036854775808.0, wa));
    Z3_ast both[2] = { in, hi }; unsigned cw = e->w <= 32 ? 32 : 64; Z3_ast v = Z3_mk_ite(C, Z3_mk_and(C, 2, both), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f, cw), bvv(1ull << (cw - 1), cw));
    r = cw == e->w ? v : Z3_mk_extract(C, e->w - 1, 0, v); } break;
  case K_FPTOUI: { Z3_ast f = toF(e->a); unsigned wa = e->a->w;
    if (e->w <= 32) { Z3_ast both[2] = { Z3_mk_fpa_geq(C, f, fpconst(-9223372036854775808.0, wa)), Z3_mk_fpa_lt(C, f, fpconst(9223372036854775808.0, wa)) };
      Z3_ast v = Z3_mk_ite(C, Z3_mk_and(C, 2, both), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f, 64), bvv(0, 64)); r = Z3_mk_extract(C, e->w - 1, 0, v); }
    else { Z3_ast both[2] = { Z3_mk_fpa_gt(C, f, fpconst(-1.0, wa)), Z3_mk_fpa_lt(C, f, fpconst(18446744073709551616.0, wa)) };
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, both), Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f, 64), bvv(1ull << 63, 64)); } } break;
  default:
  viaB: r = Z3_mk_ite(C, toB(e), bvv(1, 1), bvv(0, 1)); break;
  }
  g_touched.push_back(e); e->zv = r; return r; }
static Z3_ast toB(Expr* e) {
  if (e->zb) return (Z3_ast)e->zb; Z3_ast r, x[2];
  switch (e->k) {
  case K_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case K_EQ: r = e->a->w == 1 ? Z3_mk_eq(C, toB(e->a), toB(e->b)) : Z3_mk_eq(C, toV(e->a), toV(e->b)); break;
  case K_ULT: r = Z3_mk_bvult(C, toV(e->a), toV(e->b)); break; case K_ULE: r = Z3_mk_bvule(C, toV(e->a), toV(e->b)); break;
  case K_SLT: r = Z3_mk_bvslt(C, toV(e->a), toV(e->b)); break; case K_SLE: r = Z3_mk_bvsle(C, toV(e->a), toV(e->b)); break;
  case K_AND: x[0] = toB(e->a); x[1] = toB(e->b); r = Z3_mk_and(C, 2, x); break;
  case K_OR: x[0] = toB(e->a); x[1] = toB(e->b); r = Z3_mk_or(C, 2, x); break;
  case K_XOR: r = isTrue(e->b) ? Z3_mk_not(C, toB(e->a)) : Z3_mk_xor(C, toB(e->a), toB(e->b)); break;
  case K_ITE: r = Z3_mk_ite(C, toB(e->a), toB(e->b), toB(e->d)); break;
  case K_FEQ: r = Z3_mk_fpa_eq(C, toF(e->a), toF(e->b)); break; case K_FLT: r = Z3_mk_fpa_lt(C, toF(e->a), toF(e->b)); break;
  case K_FLE: r = Z3_mk_fpa_leq(C, toF(e->a), toF(e->b)); break; case K_FNAN: r = Z3_mk_fpa_is_nan(C, toF(e->a)); break;
  default: r = Z3_mk_eq(C, toV(e), bvv(1, 1)); break;
  }
  g_touched.push_back(e); e->zb = r; return r; }

// ---- caches ----
struct CRes { Res r; ModelP m; };
struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };
static std::unordered_map<std::vector<u32>, CRes, VH> g_cache;

static void collectReads(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Expr*>& reads, std::unordered_set<Upd*>& useen) {
  std::vector<Expr*> st{ e };
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!x || x->sup->empty() || !seen.insert(x).second) continue;
    if (x->k == K_READ) { reads.push_back(x); for (Upd* u = x->ul; u->idx && useen.insert(u).second; u = u->next) { st.push_back(u->idx); st.push_back(u->val); } }
    st.push_back(x->a); st.push_back(x->b); st.push_back(x->d); } }

// the solver does not keep to its time limit on large tables
static bool bigTables(const std::vector<Expr*>& cs, Expr* cond) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> rd; std::unordered_set<Upd*> us; for (Expr* e : cs) collectReads(e, seen, rd, us); collectReads(cond, seen, rd, us);
  for (Expr* e : rd) { Upd* r = e->ul; while (r->idx) r = r->next; if (r->root->isConst && r->root->bytes.size() > 2048) return true; }
  return false; }
static bool overlap(const std::vector<u64>* a, const std::vector<u64>* b);
static ModelP getModel(Z3_solver s, const std::vector<Expr*>& cs) {
    Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
    auto m = std::make_shared<Model>(); m->id = newModelId();
    auto ev = [&](Z3_ast a) -> u64 { Z3_ast v; u64 x = 0; if (!Z3_model_eval(C, zm, a, true, &v)) abort(); if (!Z3_get_numeral_uint64(C, v, &x)) abort(); return x; };
    std::unordered_set<Expr*> seen; std::unordered_set<Upd*> useen; std::vector<Expr*> reads;
    for (Expr* e : cs) collectReads(e, seen, reads, useen);
    for (Expr* e : seen) if (e->k == K_VAR) m->vars[e->c] = ev(toV(e));
    std::sort(reads.begin(), reads.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    for (Expr* e : reads) {
      Upd* r = e->ul; while (r->idx) r = r->next; if (r->root->isConst) continue;
      Model tmp; u64 idx; { // evaluate the index under the partial model (ids are ordered children-first)
        if (isC(e->a)) idx = e->a->c; else { m->id = newModelId(); idx = evalExpr(e->a, *m); } }
      u64 k = ((u64)r->root->id << 32) | (idx & 0xffffffffu);
      if (!m->elems.count(k)) m->elems[k] = (u8)ev(Z3_mk_select(C, arrConst(r->root), bvv(idx, 32)));
    }
    m->id = newModelId();
    for (Expr* e : cs) if (!evalExpr(e, *m)) { fprintf(stderr, "INTERNAL: model does not satisfy constraint %s\n%s\n", exprStr(e, 12).c_str(), Z3_model_to_string(C, zm)); abort(); }
    Z3_model_dec_ref(C, zm); return m; }
double g_budgetEnd = 0; // steady clock seconds; queries do not run past it
bool g_auditing;
static unsigned budgetMs() { if (g_auditing) return 300; if (!g_budgetEnd) return g_timeoutMs; double left = (g_budgetEnd - std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count()) * 1000 + 1000; return left < 200 ? 200 : left < g_timeoutMs ? (unsigned)left : g_timeoutMs; }
static Res rawSolve(const std::vector<Expr*>& cs, ModelP* out) {
  if (g_translated > 3000000) { Z3_del_context(C); ctxNew(); }
  auto t0 = std::chrono::steady_clock::now();
  std::vector<u32> key; for (Expr* e : cs) key.push_back(e->id); std::sort(key.begin(), key.end());
  auto it = g_cache.find(key); if (it != g_cache.end()) { g_ss.cacheHits++; if (out) *out = it->second.m; return it->second.r; }
  bool fp = false; for (Expr* e : cs) fp |= e->hasFP;
  Z3_solver s = getenv("QSYM_SIMPLE") ? Z3_mk_simple_solver(C) : Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), budgetMs()); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (Expr* e : cs) Z3_solver_assert(C, s, toB(e));
  static const char* dumpDir = getenv("QSYM_DUMP"); static int dn = 0;
  if (dumpDir) { FILE* f = fopen((std::string(dumpDir) + "/current.smt2").c_str(), "w"); if (f) { fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); } }
  Z3_lbool lr = Z3_solver_check(C, s);
  Res r = lr == Z3_L_TRUE ? R_SAT : lr == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (dumpDir && (dt > 1.0)) { std::string fn = std::string(dumpDir) + "/q" + std::to_string(dn++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); if (f) { for (Expr* e : cs) fprintf(f, "; %s\n", exprStr(e, 10).c_str()); fprintf(f, "; %.2fs res=%d\n%s\n(check-sat)\n", dt, r, Z3_solver_to_string(C, s)); fclose(f); } }
  g_ss.queries++; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  (r == R_SAT ? g_ss.sat : r == R_UNSAT ? g_ss.unsat : g_ss.unknown)++;
  ModelP mp; if (r == R_SAT) mp = getModel(s, cs);
  Z3_solver_dec_ref(C, s);
  if (r != R_UNKNOWN) g_cache[key] = { r, mp };
  if (out) *out = mp; return r;
}
static bool overlap(const std::vector<u64>* a, const std::vector<u64>* b) {
  // element keys: arr<<32|idx ; whole-array key arr<<32|0xffffffff ; vars have bit 63
  size_t i = 0, j = 0;
  while (i < a->size() && j < b->size()) {
    u64 x = (*a)[i], y = (*b)[j]; if (x == y) return true;
    if (!(x >> 63) && !(y >> 63) && (x >> 32) == (y >> 32)) {
      // same array: whole marker sorts last within the array; check it
      u64 whole = x | 0xffffffffu; if (std::binary_search(a->begin() + i, a->end(), whole) || std::binary_search(b->begin() + j, b->end(), whole)) return true;
    }
    if (x < y) i++; else j++;
  }
  return false; }

// constraints transitively sharing support with cond
static std::vector<Expr*> slice(const std::vector<Expr*>& cons, Expr* cond, const ModelP& base) {
  std::vector<Expr*> sl; std::vector<char> used(cons.size(), 0);
  std::vector<const std::vector<u64>*> work{ cond->sup };
  if (!base) { for (Expr* e : cons) sl.push_back(e); work.clear(); }
  std::unordered_set<const std::vector<u64>*> doneS;
  while (!work.empty()) { auto* s = work.back(); work.pop_back(); if (!doneS.insert(s).second) continue;
    for (size_t i = 0; i < cons.size(); i++) if (!used[i] && overlap(s, cons[i]->sup)) { used[i] = 1; sl.push_back(cons[i]); work.push_back(cons[i]->sup); } }
  return sl; }
static ModelP merge(const ModelP& base, const ModelP& m, const std::vector<Expr*>& sl) {
  auto n = std::make_shared<Model>(*base); n->id = newModelId();
  for (auto& kv : m->vars) n->vars[kv.first] = kv.second;
  // whole arrays in the slice: drop stale elements of the base
  std::unordered_set<u64> whole; for (Expr* e : sl) for (u64 k : *e->sup) if (!(k >> 63) && (u32)k == 0xffffffffu) whole.insert(k >> 32);
  if (!whole.empty()) for (auto it = n->elems.begin(); it != n->elems.end();) { if (whole.count(it->first >> 32)) it = n->elems.erase(it); else ++it; }
  for (auto& kv : m->elems) n->elems[kv.first] = kv.second;
  return n; }
// ---- conditions over up to four input bytes: decided on the table of their possible values ----
bool g_domain = true; u64 g_domainHits; static double g_auditTime;
// a share of the table decisions is repeated with Z3: the first ones, then as long as this takes under a tenth of the time
bool auditDue() { static auto t0 = std::chrono::steady_clock::now(); static u64 n = 0; double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return n++ % 7 == 0 && g_auditTime < 0.3 + 0.1 * el; }
void auditTook(double t) { g_auditTime += t; }
struct Dom { std::vector<u64> keys; std::vector<u32> vals; };   // vals: byte of keys[i] << 8i
typedef std::shared_ptr<Dom> DomP;
static std::unordered_map<std::vector<u32>, DomP, VH> g_dom; static u64 g_domVals;
static bool byteKey(u64 k) { if (k >> 63) return g_varW[(u32)k] <= 8; return (u32)k != 0xffffffffu; }
static u64 keyMax(u64 k) { return k >> 63 ? maskw(g_varW[(u32)k]) : 255; }
static void setKey(Model& m, u64 k, u8 v) { if (k >> 63) m.vars[(u32)k] = v; else m.elems[k] = v; }
static DomP filterDom(const DomP& d, Expr* c) {
  auto r = std::make_shared<Dom>(); r->keys = d->keys; Model m;
  for (u32 v : d->vals) { m.id = newModelId(); for (size_t i = 0; i < d->keys.size(); i++) setKey(m, d->keys[i], (v >> (8 * i)) & 255); if (evalExpr(c, m)) r->vals.push_back(v); }
  return r; }
// values allowed by the constraints cs, all of whose support lies in keys (in order); at most four bytes and 65536 combinations
enum { DOM_KEYS = 4, DOM_MAX = 65536 };
static DomP domOf(std::vector<Expr*> cs, const std::vector<u64>& keys) {
  if (cs.empty() && keys.size() <= 1) { auto d = std::make_shared<Dom>(); d->keys = keys; if (keys.empty()) d->vals.push_back(0); else for (u64 v = 0; v <= keyMax(keys[0]); v++) d->vals.push_back(v); return d; }
  std::vector<u32> id; for (Expr* e : cs) id.push_back(e->id); std::sort(id.begin(), id.end()); for (u64 k : keys) { id.push_back(k >> 32); id.push_back((u32)k); } id.push_back(keys.size());
  auto it = g_dom.find(id); if (it != g_dom.end()) return it->second;
  DomP d;
  if (keys.size() >= 2) {
    std::vector<std::vector<Expr*>> c1(keys.size()); std::vector<Expr*> cn;
    for (Expr* e : cs) if (e->sup->size() >= 2) cn.push_back(e); else c1[std::find(keys.begin(), keys.end(), (*e->sup)[0]) - keys.begin()].push_back(e);
    if (cn.empty()) {
      d = std::make_shared<Dom>(); d->keys = keys; d->vals.push_back(0);
      for (size_t i = 0; i < keys.size() && d; i++) {
        DomP a = domOf(c1[i], { keys[i] }); if (a->vals.size() * d->vals.size() > DOM_MAX) { d = nullptr; break; }
        std::vector<u32> nv; for (u32 y : a->vals) for (u32 x : d->vals) nv.push_back(x | y << (8 * i)); d->vals = std::move(nv); }
    } else { Expr* last = cn.back(); cs.erase(std::find(cs.begin(), cs.end(), last)); DomP p = domOf(cs, keys); if (p) d = filterDom(p, last); }
  } else { Expr* last = cs.back(); cs.pop_back(); DomP p = domOf(cs, keys); d = filterDom(p, last); }
  if (d && (g_domVals += d->vals.size()) > 100000000) { g_dom.clear(); g_domVals = 0; }
  g_dom[id] = d; return d; }
static DomP domainFor(const std::vector<Expr*>& sl, Expr* cond) {
  std::vector<u64> keys = *cond->sup; if (keys.empty() || keys.size() > DOM_KEYS) return nullptr;
  for (Expr* e : sl) { if (e->sup->size() > DOM_KEYS) return nullptr; for (u64 k : *e->sup) if (std::find(keys.begin(), keys.end(), k) == keys.end()) { if (keys.size() == DOM_KEYS) return nullptr; keys.push_back(k); } }
  for (u64 k : keys) if (!byteKey(k)) return nullptr;
  std::sort(keys.begin(), keys.end());
  std::vector<Expr*> cs(sl); return domOf(cs, keys); }
// All feasible values of e besides the one in base, on one incremental solver. Returns R_UNSAT when the enumeration is complete.
Res enumValues(const std::vector<Expr*>& cons, Expr* e, ModelP base, unsigned maxn, double tmax, std::vector<std::pair<u64, ModelP>>& out) {
  if (g_translated > 3000000) { Z3_del_context(C); ctxNew(); }
  std::vector<Expr*> sl = slice(cons, e, base);
  if (g_domain) if (DomP d = domainFor(sl, e)) {
    u64 v0 = evalExpr(e, *base); std::unordered_set<u64> seen{ v0 }; Model m; g_domainHits++;
    for (u32 v : d->vals) { m.id = newModelId(); for (size_t i = 0; i < d->keys.size(); i++) setKey(m, d->keys[i], (v >> (8 * i)) & 255); u64 x = evalExpr(e, m);
      if (!seen.insert(x).second) continue; if (out.size() >= maxn) return R_UNKNOWN;
      auto n = std::make_shared<Model>(*base); for (auto& kv : m.vars) n->vars[kv.first] = kv.second; for (auto& kv : m.elems) n->elems[kv.first] = kv.second; n->id = newModelId(); out.push_back({ x, n }); }
    return R_UNSAT; }
  Z3_solver s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), budgetMs()); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (Expr* x : sl) Z3_solver_assert(C, s, toB(x));
  u64 v0 = evalExpr(e, *base); Z3_solver_assert(C, s, toB(mkNot1(mkBin(K_EQ, e, mkConst(v0, e->w)))));
  std::vector<Expr*> ms = sl; ms.push_back(mkBin(K_EQ, e, mkConst(v0 ^ 1, e->w))); // for support only, replaced per value
  Res res = R_UNKNOWN; auto tb = std::chrono::steady_clock::now();
  while (out.size() < maxn) {
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool lr = Z3_solver_check(C, s); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.queries++; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    (lr == Z3_L_TRUE ? g_ss.sat : lr == Z3_L_FALSE ? g_ss.unsat : g_ss.unknown)++;
    if (lr == Z3_L_FALSE) { res = R_UNSAT; break; }
    if (lr != Z3_L_TRUE) break;
    Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm); Z3_ast v; u64 x = 0; if (!Z3_model_eval(C, zm, toV(e), true, &v) || !Z3_get_numeral_uint64(C, v, &x)) abort(); Z3_model_dec_ref(C, zm);
    Expr* is = mkBin(K_EQ, e, mkConst(x, e->w)); ms.back() = is;
    ModelP m = getModel(s, ms); out.push_back({ x, merge(base, m, ms) });
    Z3_solver_assert(C, s, toB(mkNot1(is)));
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - tb).count() > tmax) break;
  }
  Z3_solver_dec_ref(C, s); return res; }
// the feasible values of e when its value table says that there are at most maxn of them
bool tableValues(const std::vector<Expr*>& cons, Expr* e, const ModelP& base, size_t maxn, std::vector<u64>& out) {
  if (!g_domain || !base || e->sup->size() > DOM_KEYS) return false;
  DomP d = domainFor(slice(cons, e, base), e); if (!d) return false;
  std::unordered_set<u64> seen; Model m; g_domainHits++;
  for (u32 v : d->vals) { m.id = newModelId(); for (size_t i = 0; i < d->keys.size(); i++) setKey(m, d->keys[i], (v >> (8 * i)) & 255); u64 x = evalExpr(e, m); if (seen.insert(x).second) { out.push_back(x); if (out.size() > maxn) return false; } }
  return !out.empty(); }
Res solve(const std::vector<Expr*>& cons, Expr* cond, ModelP base, ModelP* out) {
  if (isFalse(cond)) return R_UNSAT;
  if (isTrue(cond) && base) { if (out) *out = base; return R_SAT; }
  std::vector<Expr*> sl = slice(cons, cond, base);
  if (g_domain && base) if (DomP d = domainFor(sl, cond)) {
    Model m; g_domainHits++; Res audit = R_UNKNOWN;
    if (auditDue() && !bigTables(sl, cond)) { std::vector<Expr*> q(sl); q.push_back(cond); u64 u = g_ss.unknown; double b = g_ss.time; g_auditing = true; audit = rawSolve(q, nullptr); g_auditing = false; g_ss.unknown = u; auditTook(g_ss.time - b); }
    auto agree = [&](Res r) { if (audit != R_UNKNOWN && audit != r) { fprintf(stderr, "INTERNAL: value table and Z3 disagree\n"); abort(); } return r; };
    for (u32 v : d->vals) { m.id = newModelId(); for (size_t i = 0; i < d->keys.size(); i++) setKey(m, d->keys[i], (v >> (8 * i)) & 255); if (!evalExpr(cond, m)) continue;
      agree(R_SAT); if (out) { auto n = std::make_shared<Model>(*base); for (auto& kv : m.vars) n->vars[kv.first] = kv.second; for (auto& kv : m.elems) n->elems[kv.first] = kv.second; n->id = newModelId(); *out = n; }
      return R_SAT; }
    return agree(R_UNSAT); }
  if (!isTrue(cond)) sl.push_back(cond);
  auto heavy = [](Expr* e) { for (u64 k : *e->sup) if (!(k >> 63) && (u32)k == 0xffffffffu) return true; return false; };
  if (base && !heavy(cond)) { // first without the constraints over whole arrays
    std::vector<Expr*> lite; for (Expr* e : sl) if (!heavy(e)) lite.push_back(e);
    if (lite.size() < sl.size()) {
      ModelP lm; Res lr = rawSolve(lite, &lm); if (lr == R_UNSAT) return lr;
      if (lr == R_SAT) {
        auto n = std::make_shared<Model>(*base); n->id = newModelId(); for (auto& kv : lm->vars) n->vars[kv.first] = kv.second; for (auto& kv : lm->elems) n->elems[kv.first] = kv.second;
        bool ok = true; for (Expr* e : sl) if (!evalExpr(e, *n)) { ok = false; break; }
        if (ok) { if (out) *out = n; return R_SAT; } } } }
  ModelP m; Res r = rawSolve(sl, &m);
  if (r == R_SAT && out) {
    if (!base) *out = m; else {
      *out = merge(base, m, sl);
    }
  }
  return r;
}
