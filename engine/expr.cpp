#include "expr.h"
#include <map>
#include <set>

u32 g_numVars; std::vector<std::string> g_varNames; size_t g_numExprs;
static std::vector<Array*> g_arrays;
u32 newVarId(const std::string& n) { g_varNames.push_back(n); return g_numVars++; }
Array* newArray(const std::string& n, bool c) { Array* a = new Array(); a->id = g_arrays.size(); a->name = n; a->isConst = c; a->fill = 0; a->uninit = false; g_arrays.push_back(a); return a; }

// ---------- hash consing ----------
struct EHash { size_t operator()(const Expr* e) const {
  u64 h = e->k * 0x9E3779B97F4A7C15ull + e->w; 
  auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix(e->c); mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->d ? e->d->id + 1 : 0); mix((u64)e->ul); return h; } };
struct EEq { bool operator()(const Expr* x, const Expr* y) const { return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d && x->ul == y->ul; } };
static std::unordered_set<Expr*, EHash, EEq> g_tab;

struct VHash { size_t operator()(const std::vector<u64>* v) const { u64 h = v->size(); for (u64 x : *v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 13); return h; } };
struct VEq { bool operator()(const std::vector<u64>* a, const std::vector<u64>* b) const { return *a == *b; } };
static std::unordered_set<const std::vector<u64>*, VHash, VEq> g_sups;
static const std::vector<u64>* g_emptySup = nullptr;
static const std::vector<u64>* internSup(std::vector<u64>&& v) {
  auto it = g_sups.find(&v); if (it != g_sups.end()) return *it;
  auto* n = new std::vector<u64>(std::move(v)); g_sups.insert(n); return n; }
static std::map<std::pair<const void*, const void*>, const std::vector<u64>*> g_supMemo;
static const std::vector<u64>* unionSup(const std::vector<u64>* a, const std::vector<u64>* b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  auto key = std::make_pair((const void*)std::min(a, b), (const void*)std::max(a, b));
  auto it = g_supMemo.find(key); if (it != g_supMemo.end()) return it->second;
  std::vector<u64> r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  auto* s = internSup(std::move(r)); g_supMemo[key] = s; return s; }

// support of an update list (cached by id)
static std::vector<const std::vector<u64>*> g_updSup;
static const std::vector<u64>* updSup(Upd* u);

static u64 hibitmask(u64 v) { if (!v) return 0; return ~0ull >> __builtin_clzll(v); }

static Expr* intern(Expr& t) {
  auto it = g_tab.find(&t); if (it != g_tab.end()) return *it;
  Expr* e = new Expr(t); e->id = g_numExprs++; e->evModel = 0; e->zb = e->zv = e->zf = nullptr;
  u64 m = maskw(e->w);
  if (!g_emptySup) g_emptySup = internSup({});
  const std::vector<u64>* s = g_emptySup;
  if (e->k == K_VAR) s = internSup({ (1ull << 63) | e->c });
  else if (e->k == K_READ) {
    s = unionSup(e->a->sup, updSup(e->ul));
    Upd* r = e->ul; while (r->idx) r = r->next;
    if (!r->root->isConst) {
      u64 key = ((u64)r->root->id << 32) | ((isC(e->a)) ? (e->a->c & 0xffffffffu) : 0xffffffffu);
      s = unionSup(s, internSup({ key }));
    }
  } else { if (e->a) s = unionSup(s, e->a->sup); if (e->b) s = unionSup(s, e->b->sup); if (e->d) s = unionSup(s, e->d->sup); }
  e->sup = s;
  e->hasFP = (e->k >= K_FADD) || (e->a && e->a->hasFP) || (e->b && e->b->hasFP) || (e->d && e->d->hasFP);
  // ranges
  u64 lo = 0, hi = m, kz = 0; Expr *a = e->a, *b = e->b;
  switch (e->k) {
  case K_CONST: lo = hi = e->c; kz = ~e->c; break;
  case K_AND: kz = a->kz | b->kz; hi = std::min(a->umax, b->umax); break;
  case K_OR: kz = a->kz & b->kz; lo = std::max(a->umin, b->umin); break;
  case K_XOR: kz = a->kz & b->kz; break;
  case K_ADD: { u64 h = a->umax + b->umax; if (h >= a->umax && h <= m) { hi = h; lo = a->umin + b->umin; }
      else if (isC(b)) { // x + (-c): when x.umin >= c
        u64 c = (0 - b->c) & m; if (a->umin >= c) { lo = a->umin - c; hi = a->umax - c; } }
      u64 z = a->kz & b->kz & m; unsigned tz = 0; while (tz < e->w && ((z >> tz) & 1)) tz++; kz = maskw(tz); if (!tz) kz = 0; } break;
  case K_SUB: if (a->umin >= b->umax) { lo = a->umin - b->umax; hi = a->umax - b->umin; } break;
  case K_MUL: { unsigned __int128 h = (unsigned __int128)a->umax * b->umax; if (h <= m) { hi = (u64)h; lo = a->umin * b->umin; } 
      } break;
  case K_UDIV: hi = b->umin ? a->umax / b->umin : m; if (b->umin) lo = b->umax ? a->umin / b->umax : 0; break;
  case K_UREM: if (b->umin) hi = std::min(a->umax, b->umax - 1); break;
  case K_SHL: if (isC(b) && b->c < e->w) { kz = ((a->kz & maskw(e->w)) << b->c) | maskw(b->c); if (!b->c) kz = a->kz; u64 h = a->umax << b->c; if ((h >> b->c) == a->umax && h <= m) { hi = h; lo = a->umin << b->c; } } break;
  case K_LSHR: if (isC(b) && b->c < e->w) { kz = ((a->kz | ~m) >> b->c) | ~(m >> b->c); hi = a->umax >> b->c; lo = a->umin >> b->c; } else hi = a->umax; break;
  case K_ASHR: if (a->umax <= (m >> 1)) { hi = a->umax; if (isC(b) && b->c < e->w) { hi = a->umax >> b->c; lo = a->umin >> b->c; } } break;
  case K_ITE: lo = std::min(b->umin, e->d->umin); hi = std::max(b->umax, e->d->umax); kz = b->kz & e->d->kz; break;
  case K_EXTRACT: kz = (a->kz >> e->c); if (e->c == 0 && a->umax <= m) { lo = a->umin; hi = a->umax; } else if (e->c + e->w == a->w) { hi = a->umax >> e->c; lo = a->umin >> e->c; } break;
  case K_CONCAT: kz = ((a->kz & maskw(a->w)) << b->w) | (b->kz & maskw(b->w)); hi = (a->umax << b->w) | b->umax; lo = (a->umin << b->w) | b->umin; break;
  case K_ZEXT: lo = a->umin; hi = a->umax; kz = (a->kz & maskw(a->w)) | ~maskw(a->w); break;
  case K_SEXT: if (a->umax <= (maskw(a->w) >> 1)) { lo = a->umin; hi = a->umax; kz = (a->kz & maskw(a->w)) | ~maskw(a->w); } break;
  default: break;
  }
  kz |= ~m; kz |= ~hibitmask(hi);
  u64 mx = ~kz; if (hi > mx) hi = mx;
  e->umin = lo; e->umax = hi; e->kz = kz;
  g_tab.insert(e); return e;
}
static Expr* node(Kind k, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr, u64 c = 0, Upd* ul = nullptr) {
  Expr t; memset(&t, 0, sizeof t); t.k = k; t.w = w; t.a = a; t.b = b; t.d = d; t.c = c; t.ul = ul; return intern(t); }

Expr* mkConst(u64 v, unsigned w) { return node(K_CONST, w, 0, 0, 0, v & maskw(w)); }
std::vector<u8> g_varW;
Expr* mkVar(u32 id, unsigned w) { if (g_varW.size() <= id) g_varW.resize(id + 64, 255); g_varW[id] = w; return node(K_VAR, w, 0, 0, 0, id); }

// ---------- update lists ----------
struct UKey { Expr* i; Expr* v; Upd* n; Array* r; bool operator==(const UKey& o) const { return i == o.i && v == o.v && n == o.n && r == o.r; } };
struct UKH { size_t operator()(const UKey& k) const { return (size_t)k.i * 31 + (size_t)k.v * 131 + (size_t)k.n * 1031 + (size_t)k.r; } };
static std::unordered_map<UKey, Upd*, UKH> g_upd;
static Upd* getUpd(Expr* i, Expr* v, Upd* n, Array* r) {
  UKey k{ i, v, n, r }; auto it = g_upd.find(k); if (it != g_upd.end()) return it->second;
  if (!g_emptySup) g_emptySup = internSup({});
  Upd* u = new Upd{ i, v, n, r, (u32)g_updSup.size(), n ? n->depth + 1 : 0 };
  const std::vector<u64>* s = g_emptySup;
  if (i) {
    s = unionSup(unionSup(i->sup, v->sup), g_updSup[n->id]);
    if (!isC(i)) { }
  }
  if (n) u->hasRange = n->hasRange;
  g_updSup.push_back(s);
  g_upd[k] = u; return u; }
Upd* mkRangeUpd(Upd* next, Expr* dst, Expr* n, Upd* src, Expr* so, Expr* v) {
  Upd* u = new Upd{ dst, v, next, next->root, (u32)g_updSup.size(), next->depth + 1 }; u->rn = n; u->rs = src; u->ro = so; u->hasRange = true;
  const std::vector<u64>* s = unionSup(unionSup(dst->sup, n->sup), g_updSup[next->id]); if (v) s = unionSup(s, v->sup); if (src) s = unionSup(unionSup(s, so->sup), g_updSup[src->id]);
  g_updSup.push_back(s); return u; }
static const std::vector<u64>* updSup(Upd* u) { return g_updSup[u->id]; }
Upd* mkRoot(Array* a) { return getUpd(nullptr, nullptr, nullptr, a); }
Upd* mkUpd(Upd* next, Expr* idx, Expr* val) { return getUpd(idx, val, next, next->root); }

// split expr into base + const
static void splitAdd(Expr* e, Expr*& base, u64& c) { if (e->k == K_CONST) { base = nullptr; c = e->c; } else if (e->k == K_ADD && isC(e->b)) { base = e->a; c = e->b->c; } else { base = e; c = 0; } }
// 1 equal, 0 different, -1 unknown
int aliasCmp(Expr* x, Expr* y) {
  if (x == y) return 1;
  Expr *bx, *by; u64 cx, cy; splitAdd(x, bx, cx); splitAdd(y, by, cy);
  if (bx == by) return cx == cy ? 1 : 0;
  if (x->umax < y->umin || y->umax < x->umin) return 0;
  // known bits
  if (isC(x) && (x->c & y->kz & maskw(y->w))) return 0;
  if (isC(y) && (y->c & x->kz & maskw(x->w))) return 0;
  return -1;
}
Expr* mkRead(Upd* ul, Expr* idx) {
  if (ul->hasRange) { // expanded into a choice over the updates
    std::vector<std::pair<Expr*, Expr*>> alts; Expr* base = nullptr;
    while (true) {
      if (!ul->hasRange) { base = mkRead(ul, idx); break; }
      if (ul->rn) {
        Expr* c = mkBin(K_ULT, mkBin(K_SUB, idx, ul->idx), ul->rn);
        if (!isFalse(c)) { Expr* v = ul->rs ? mkRead(ul->rs, mkBin(K_ADD, mkBin(K_SUB, idx, ul->idx), ul->ro)) : ul->val; if (isTrue(c)) { base = v; break; } alts.push_back({ c, v }); }
      } else { int r = aliasCmp(ul->idx, idx); if (r == 1) { base = ul->val; break; } if (r < 0) alts.push_back({ mkBin(K_EQ, idx, ul->idx), ul->val }); }
      ul = ul->next; }
    for (size_t i = alts.size(); i-- > 0;) base = mkIte(alts[i].first, alts[i].second, base);
    return base; }
  while (ul->idx) {
    int r = aliasCmp(ul->idx, idx);
    if (r == 1) return ul->val;
    if (r == 0) { ul = ul->next; continue; }
    break;
  }
  if (!ul->idx) {
    Array* A = ul->root;
    if (A->isConst) {
      if (isC(idx)) return mkConst(idx->c < A->bytes.size() ? A->bytes[idx->c] : A->fill, 8);
      if (A->bytes.empty()) return mkConst(A->fill, 8);
      // small constant-range reads of a uniform region
      u64 lo = idx->umin, hi = idx->umax;
      if (hi - lo < 4096) {
        auto at = [&](u64 i) -> int { return i < A->bytes.size() ? A->bytes[i] : A->fill; };
        int v = at(lo); bool same = true; for (u64 i = lo; i <= hi && same; i++) if (at(i) != v) same = false;
        if (same) return mkConst(v, 8);
      }
    }
  }
  return node(K_READ, 8, idx, nullptr, nullptr, 0, ul);
}

// ---------- folding ----------
u64 foldBin(Kind k, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? (a / b) & m : m; case K_UREM: return b ? (a % b) & m : a;
  case K_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
  case K_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
  case K_SHL: return b < w ? (a << b) & m : 0; case K_LSHR: return b < w ? a >> b : 0;
  case K_ASHR: { i64 x = sx(a, w); return (u64)(b < w ? x >> b : (x < 0 ? -1 : 0)) & m; }
  case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
  case K_SLT: return sx(a, w) < sx(b, w); case K_SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
u64 foldF(Kind k, u64 a, u64 b, unsigned w) {
  if (w == 32) { float x = bf(a), y = bf(b); switch (k) { case K_FADD: return fb(x + y); case K_FSUB: return fb(x - y); case K_FMUL: return fb(x * y); case K_FDIV: return fb(x / y); case K_FEQ: return x == y; case K_FLT: return x < y; case K_FLE: return x <= y; default: abort(); } }
  double x = bd(a), y = bd(b); switch (k) { case K_FADD: return db(x + y); case K_FSUB: return db(x - y); case K_FMUL: return db(x * y); case K_FDIV: return db(x / y); case K_FEQ: return x == y; case K_FLT: return x < y; case K_FLE: return x <= y; default: abort(); }
}
u64 foldFUn(Kind k, u64 a, unsigned wa, unsigned w) {
  switch (k) {
  case K_FNAN: return fisnan(a, wa);
  case K_FPEXT: return db((double)bf(a)); case K_FPTRUNC: return fb((float)bd(a));
  case K_SITOFP: { i64 x = sx(a, wa); return w == 32 ? fb((float)x) : db((double)x); }
  case K_UITOFP: return w == 32 ? fb((float)a) : db((double)a);
  case K_FPTOSI: { double x = wa == 32 ? (double)bf(a) : bd(a);
    if (w <= 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000u & maskw(w); return (u64)(i64)x & maskw(w); }
    if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0x8000000000000000ull; return (u64)(i64)x; }
  case K_FPTOUI: { double x = wa == 32 ? (double)bf(a) : bd(a);
    if (w <= 32) { if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0; return (u64)(i64)x & maskw(w); }
    if (!(x > -1.0 && x < 18446744073709551616.0)) return 0x8000000000000000ull; return (u64)x; }
  default: abort();
  }
}

static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
Expr* mkNot1(Expr* a) { return mkBin(K_XOR, a, mkConst(1, 1)); }
static bool isNot1(Expr* e) { return e->w == 1 && e->k == K_XOR && isTrue(e->b); }

// bytewise merge of OR/ADD-free disjoint pieces
static Expr* byteMerge(Expr* a, Expr* b) {
  unsigned w = a->w; if (w % 8 || w < 16) return nullptr;
  u64 m = maskw(w);
  if (((a->kz | b->kz) & m) != m) return nullptr;
  unsigned n = w / 8; Expr* parts[8];
  for (unsigned i = 0; i < n; i++) {
    u64 bm = 0xffull << (8 * i); bool az = (a->kz & bm) == bm, bz = (b->kz & bm) == bm;
    if (!az && !bz) return nullptr;
    parts[i] = az ? (bz ? mkConst(0, 8) : mkExtract(b, 8 * i, 8)) : mkExtract(a, 8 * i, 8);
  }
  Expr* r = parts[0]; for (unsigned i = 1; i < n; i++) r = mkConcat(parts[i], r);
  return r;
}

// e * f as a sum of atoms with coefficients modulo 2^w; false when it is too large
static bool linear(Expr* e, u64 f, std::map<Expr*, u64>& m, u64& c, int& left, unsigned w) {
  if (--left < 0) return false;
  if (isC(e)) { c += f * e->c; return true; }
  if (e->k == K_ADD) return linear(e->a, f, m, c, left, w) && linear(e->b, f, m, c, left, w);
  if (e->k == K_SUB) return linear(e->a, f, m, c, left, w) && linear(e->b, 0 - f, m, c, left, w);
  if (e->k == K_MUL && isC(e->b)) return linear(e->a, f * e->b->c, m, c, left, w);
  if (e->k == K_CONCAT && isC(e->b) && !e->b->c) return linear(e->a, f << e->b->w, m, c, left, w);
  // the bits cut off are multiples of 2^w
  if (e->k == K_EXTRACT && e->c == 0 && e->a->w <= w && !((f << e->w) & maskw(w))) return linear(e->a, f, m, c, left, w);
  m[e] += f; return true;
}
static bool isLin(Expr* e) { return e->k == K_ADD || e->k == K_SUB || (e->k == K_CONCAT && isC(e->b) && !e->b->c); }

Expr* mkBin(Kind k, Expr* a, Expr* b) {
  if (k >= K_FADD) return mkFBin(k, a, b);
  unsigned w = a->w; u64 m = maskw(w);
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch k=%d %d %d\n", k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->c, b->c, w), isCmp(k) ? 1 : w);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
  if (comm) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->id > b->id) std::swap(a, b); }
  switch (k) {
  case K_ADD:
    if (isC(b)) { if (!b->c) return a; if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->c + b->c, w));
      if (a->k == K_SUB && isC(a->a)) return mkBin(K_SUB, mkConst(a->a->c + b->c, w), a->b);
      if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c + b->c, w), mkConst(a->d->c + b->c, w));
      if (w == 1) return mkBin(K_XOR, a, b); 
      if (a->k == K_ZEXT && a->a->k == K_ADD && isC(a->a->b) && w > a->a->w) { // zext(x + c1) + c2 when no overflow in narrow add
        Expr* x = a->a->a; u64 c1 = a->a->b->c; u64 nm = maskw(a->a->w);
        if (x->umax + c1 <= nm && x->umax + c1 >= x->umax) return mkBin(K_ADD, mkZext(x, w), mkConst(c1 + b->c, w));
        u64 neg = (0 - c1) & nm; if (x->umin >= neg && neg) return mkBin(K_ADD, mkZext(x, w), mkConst(b->c - neg, w)); }
    } else {
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (a->k == K_SUB && a->b == b) return a->a; if (b->k == K_SUB && b->b == a) return b->a;
    }
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(K_ADD, a, mkConst(0 - b->c, w));
    if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(0 - b->b->c, w));
    if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->k == K_ADD) { if (b->a == a) return mkBin(K_SUB, mkConst(0, w), b->b); if (b->b == a) return mkBin(K_SUB, mkConst(0, w), b->a); }
    if (b->k == K_SUB && isFalse(b->a)) return mkBin(K_ADD, a, b->b);
    break;
  case K_MUL:
    if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a; if (!(b->c & (b->c - 1))) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(b->c), w));
      if (a->k == K_MUL && isC(a->b)) return mkBin(K_MUL, a->a, mkConst(a->b->c * b->c, w)); }
    break;
  case K_UDIV: if (isC(b)) { if (b->c == 1) return a; if (b->c && !(b->c & (b->c - 1))) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(b->c), w)); }
    if (b->umin > a->umax) return mkConst(0, w); break;
  case K_UREM: if (isC(b)) { if (b->c && !(b->c & (b->c - 1))) return mkBin(K_AND, a, mkConst(b->c - 1, w)); }
    if (b->umin > a->umax) return a; break;
  case K_SDIV: if (isC(b) && b->c == 1) return a; 
    if (a->umax <= (m >> 1) && b->umax <= (m >> 1) && b->umin > 0) return mkBin(K_UDIV, a, b); break;
  case K_SREM: if (isC(b) && b->c == 1) return mkConst(0, w);
    if (a->umax <= (m >> 1) && b->umax <= (m >> 1) && b->umin > 0) return mkBin(K_UREM, a, b); break;
  case K_AND:
    if (a == b) return a;
    if (isC(b)) { if (!b->c) return b; if (b->c == m) return a; if (!(~b->c & ~a->kz & m)) return a;
      if (!(b->c & ~a->kz)) return mkConst(0, w);
      if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->c & b->c, w));
      if (a->k == K_ZEXT) return mkZext(mkBin(K_AND, a->a, mkConst(b->c, a->a->w)), w);
      if (a->k == K_SEXT && !(b->c & ~maskw(a->a->w))) return mkZext(mkBin(K_AND, a->a, mkConst(b->c, a->a->w)), w);
      if (a->k == K_CONCAT) return mkConcat(mkBin(K_AND, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(K_AND, a->b, mkConst(b->c, a->b->w)));
      if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c & b->c, w), mkConst(a->d->c & b->c, w));
      // low mask = zext(extract)
      if (!((b->c + 1) & b->c)) { unsigned n = __builtin_popcountll(b->c); if (n % 8 == 0 || a->k == K_ADD) { return mkZext(mkExtract(a, 0, n), w); } }
    } else if (!( ~a->kz & ~b->kz & m)) return mkConst(0, w);
    if (w == 1) { if (isNot1(a) && a->a == b) return mkConst(0, 1); if (isNot1(b) && b->a == a) return mkConst(0, 1); }
    break;
  case K_OR:
    if (a == b) return a;
    if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; if (a->k == K_OR && isC(a->b)) return mkBin(K_OR, a->a, mkConst(a->b->c | b->c, w)); }
    if (w == 1) { if (isNot1(a) && a->a == b) return mkConst(1, 1); if (isNot1(b) && b->a == a) return mkConst(1, 1); }
    if (Expr* r = byteMerge(a, b)) return r;
    break;
  case K_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (!b->c) return a; if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->c ^ b->c, w));
      if (w == 1) { // boolean not
        if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a); if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
        if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a); if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
        if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkNot1(a->b), mkNot1(a->d));
      } }
    break;
  case K_SHL: case K_LSHR: case K_ASHR:
    if (isC(b)) {
      if (!b->c) return a;
      if (b->c >= w) { if (k != K_ASHR) return mkConst(0, w); b = mkConst(w - 1, w); }
      if (a->k == k && isC(a->b)) { u64 s = a->b->c + b->c; if (s >= w) { if (k != K_ASHR) return mkConst(0, w); s = w - 1; } return mkBin(k, a->a, mkConst(s, w)); }
      if (k == K_SHL) return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
      if (k == K_LSHR) return mkZext(mkExtract(a, b->c, w - b->c), w);
      if (k == K_ASHR) return mkSext(mkExtract(a, b->c, w - b->c), w);
    } else if (isC(a) && !a->c) return a;
    if (k == K_ASHR && a->umax <= (m >> 1)) return mkBin(K_LSHR, a, b);
    break;
  case K_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
    if (isC(b)) {
      u64 c = b->c;
      if (c & a->kz) return mkConst(0, 1);
      if (w == 1) return c ? a : mkNot1(a);
      if (a->k == K_ZEXT || a->k == K_SEXT) { Expr* x = a->a; u64 nc = c & maskw(x->w);
        u64 back = a->k == K_ZEXT ? nc : ((u64)sx(nc, x->w) & m); if (back != c) return mkConst(0, 1); return mkBin(K_EQ, x, mkConst(nc, x->w)); }
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(c - a->b->c, w));
      if (a->k == K_SUB && isC(a->a)) return mkBin(K_EQ, a->b, mkConst(a->a->c - c, w));
      if (a->k == K_SUB && !c) return mkBin(K_EQ, a->a, a->b);
      if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(c ^ a->b->c, w));
      if (a->k == K_XOR && !c) return mkBin(K_EQ, a->a, a->b);
      if (a->k == K_ITE) { bool kb = isC(a->b), kd = isC(a->d);
        if (kb && kd) { bool tb = a->b->c == c, td = a->d->c == c; return tb ? (td ? mkConst(1, 1) : a->a) : (td ? mkNot1(a->a) : mkConst(0, 1)); }
        if (kb || kd) return mkIte(a->a, mkBin(K_EQ, a->b, b), mkBin(K_EQ, a->d, b)); }
      if (a->k == K_CONCAT) return mkBin(K_AND, mkBin(K_EQ, a->b, mkConst(c, a->b->w)), mkBin(K_EQ, a->a, mkConst(c >> a->b->w, a->a->w)));
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
      if (w > 8 && w <= 64 && isLin(a) && isLin(b)) { std::map<Expr*, u64> lm; u64 lc = 0; int left = 120;
        if (linear(a, 1, lm, lc, left, w) && linear(b, 0 - 1ull, lm, lc, left, w)) { bool all = true; for (auto& x : lm) if (x.second & m) { all = false; break; } if (all) return mkConst(!(lc & m), 1); } }
      Expr *ba, *bb; u64 ca, cb; splitAdd(a, ba, ca); splitAdd(b, bb, cb);
      if (ba == bb) return mkConst(ca == cb, 1);
      if (ca && cb) return mkBin(K_EQ, mkBin(K_ADD, ba, mkConst(ca - cb, w)), bb);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkBin(K_AND, mkBin(K_EQ, a->b, b->b), mkBin(K_EQ, a->a, b->a));
      if (w == 1) { if (isNot1(a) && a->a == b) return mkConst(0, 1); if (isNot1(b) && b->a == a) return mkConst(0, 1); 
        if (isNot1(a) && isNot1(b)) return mkBin(K_EQ, a->a, b->a);}
      if (a->k == K_ITE && a->b == b && isC(a->d) == false && a->d == b) return mkConst(1, 1);
    }
    break;
  case K_ULT:
    if (a == b) return mkConst(0, 1);
    if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1);
    if (isC(b) && b->c == 1) return mkBin(K_EQ, a, mkConst(0, w));
    if (isC(a) && a->c == 0) return mkNot1(mkBin(K_EQ, b, a));
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    if (a->k == K_ZEXT && isC(b) && b->c <= maskw(a->a->w)) return mkBin(k, a->a, mkConst(b->c, a->a->w));
    if (b->k == K_ZEXT && isC(a) && a->c <= maskw(b->a->w)) return mkBin(k, mkConst(a->c, b->a->w), b->a);
    if (w == 1) return mkBin(K_AND, mkNot1(a), b);
    break;
  case K_ULE:
    if (a == b) return mkConst(1, 1);
    if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1);
    if (isC(b) && b->c == 0) return mkBin(K_EQ, a, b);
    if (isC(b)) return mkBin(K_ULT, a, mkConst(b->c + 1, w));
    if (isC(a)) return mkBin(K_ULT, mkConst(a->c - 1, w), b);
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    if (w == 1) return mkBin(K_OR, mkNot1(a), b);
    break;
  case K_SLT: case K_SLE: {
    if (a == b) return mkConst(k == K_SLE, 1);
    u64 h = m >> 1;
    bool pa = a->umax <= h, pb = b->umax <= h, na = a->umin > h, nb = b->umin > h;
    if ((pa && pb) || (na && nb)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (pa && nb) return mkConst(0, 1); if (na && pb) return mkConst(1, 1);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    if (a->k == K_SEXT && isC(b) && sx(b->c, w) == sx(b->c, a->a->w)) return mkBin(k, a->a, mkConst(b->c, a->a->w));
    if (b->k == K_SEXT && isC(a) && sx(a->c, w) == sx(a->c, b->a->w)) return mkBin(k, mkConst(a->c, b->a->w), b->a);
    if (k == K_SLE && isC(b) && sx(b->c, w) != sx(h, w)) return mkBin(K_SLT, a, mkConst(b->c + 1, w));
    if (k == K_SLE && isC(a) && a->c != ((h + 1) & m)) return mkBin(K_SLT, mkConst(a->c - 1, w), b);
    } break;
  default: break;
  }
  return node(k, isCmp(k) ? 1 : w, a, b);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (isNot1(c)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot1(c);
    if (isTrue(a)) return mkBin(K_OR, c, b); if (isFalse(a)) return mkBin(K_AND, mkNot1(c), b);
    if (isTrue(b)) return mkBin(K_OR, mkNot1(c), a); if (isFalse(b)) return mkBin(K_AND, c, a);
  }
  if (isC(a) && isC(b) && a->c == 1 && b->c == 0) return mkZext(c, a->w);
  if (isC(a) && isC(b) && a->c == 0 && b->c == 1) return mkZext(mkNot1(c), a->w);
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  return node(K_ITE, a->w, c, a, b);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  u64 bits = maskw(w) << lo;
  if ((a->kz & bits) == bits) return mkConst(0, w);
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a, lo + a->c, w);
  case K_CONCAT: if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w); if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
  case K_ZEXT: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
  case K_SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo < a->a->w) return mkSext(mkExtract(a->a, lo, a->a->w - lo), w); 
    return mkSext(mkExtract(a->a, a->a->w - 1, 1), w);
  case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case K_AND: case K_OR: case K_XOR: if (lo == 0 || isC(a->b) || (lo % 8 == 0 && w % 8 == 0)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
  case K_ITE: if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
  default: break;
  }
  return node(K_EXTRACT, w, a, nullptr, nullptr, lo);
}
static bool adjacent(Expr* h, Expr* l) { return h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && h->c == l->c + l->w; }
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (isC(hi) && !hi->c) return mkZext(lo, w);
  if (adjacent(hi, lo)) return mkExtract(lo->a, lo->c, w);
  // extract(x, lo.w, n) over a full low part x == lo
  if (hi->k == K_EXTRACT && lo == hi->a) {}
  if (lo->k == K_CONCAT) {
    if (adjacent(hi, lo->a)) return mkConcat(mkExtract(lo->a->a, lo->a->c, hi->w + lo->a->w), lo->b);
    if (isC(hi) && isC(lo->a)) return mkConcat(mkConst((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w), lo->b);
  }
  // a constant operation on the upper part only
  if ((hi->k == K_XOR || hi->k == K_AND || hi->k == K_OR) && hi->w > 1 && isC(hi->b) && adjacent(hi->a, lo)) {
    Expr* x = mkExtract(lo->a, lo->c, w); if (x->k == K_VAR || x->k == K_EXTRACT || (x->k >= K_FADD && x->k <= K_FDIV) || x->k >= K_FPEXT) return mkBin(hi->k, x, mkConst((hi->b->c << lo->w) | (hi->k == K_AND ? maskw(lo->w) : 0), w)); }
  if (hi->w == 1 && !isC(hi) && lo->w > 1 && lo->k != K_CONST && mkExtract(lo, lo->w - 1, 1) == hi) return mkSext(lo, w);
  if (hi->k == K_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  if (hi->k == K_SEXT) return mkSext(mkConcat(hi->a, lo), w);
  // merge sext: concat of replicated sign bits is not reconstructed
  // same-condition ITE of constants
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  if (hi->k == K_ITE && isC(hi->b) && isC(hi->d) && isC(lo)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->d, lo));
  if (hi->k == K_EXTRACT && hi->w + hi->c == hi->a->w && lo->w == hi->c && hi->a->k != K_EXTRACT) {
    // hi part of x concatenated with something equal to low part of x
    if (mkExtract(hi->a, 0, hi->c) == lo) return hi->a;
  }
  if (hi->k == K_EXTRACT && lo->w <= hi->c && mkExtract(hi->a, hi->c - lo->w, lo->w) == lo) return mkExtract(hi->a, hi->c - lo->w, w);
  return node(K_CONCAT, w, hi, lo);
}
Expr* mkZext(Expr* a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  return node(K_ZEXT, w, a);
}
Expr* mkSext(Expr* a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst((u64)sx(a->c, a->w), w);
  if (a->k == K_SEXT) return mkSext(a->a, w);
  if (a->umax <= (maskw(a->w) >> 1)) return mkZext(a, w);
  return node(K_SEXT, w, a);
}
Expr* mkFBin(Kind k, Expr* a, Expr* b) {
  unsigned w = a->w; bool cmp = k >= K_FEQ && k <= K_FLE;
  if (isC(a) && isC(b)) return mkConst(foldF(k, a->c, b->c, w), cmp ? 1 : w);
  if (k == K_FSUB) { k = K_FADD; b = mkBin(K_XOR, b, mkConst(1ull << (w - 1), w)); }   // a - b is a + (-b), NaNs being canonical
  if ((k == K_FADD || k == K_FMUL || k == K_FEQ) && a->id > b->id) std::swap(a, b);
  return node(k, cmp ? 1 : w, a, b);
}
Expr* mkFUn(Kind k, Expr* a, unsigned w) {
  if (isC(a)) return mkConst(foldFUn(k, a->c, a->w, w), w);
  if (k == K_FPTRUNC && a->k == K_FPEXT && a->a->w == w) { /* NaN payload canonicalisation */ return mkIte(mkFUn(K_FNAN, a->a, 1), mkConst(0x7fc00000u, 32), a->a); }
  if (k == K_SITOFP && a->umax <= (maskw(a->w) >> 1)) k = K_UITOFP;
  if (k == K_SITOFP && a->k == K_SEXT) a = a->a;
  if (k == K_UITOFP) { unsigned n = 8; while (a->umax > maskw(n)) n += 8; if (n < a->w) a = mkExtract(a, 0, n); if (a->k == K_ZEXT) a = a->a; }
  // f32 ops computed in double then rounded are exact for + - * /
  return node(k, w, a);
}
Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* d) {
  switch (e->k) {
  case K_CONST: case K_VAR: return e;
  case K_READ: return mkRead(e->ul, a);
  case K_ITE: return mkIte(a, b, d);
  case K_EXTRACT: return mkExtract(a, e->c, e->w);
  case K_CONCAT: return mkConcat(a, b);
  case K_ZEXT: return mkZext(a, e->w); case K_SEXT: return mkSext(a, e->w);
  case K_FNAN: case K_FPEXT: case K_FPTRUNC: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: return mkFUn(e->k, a, e->w);
  default: return mkBin(e->k, a, b);
  }
}

// ---------- evaluation ----------
static u64 evalRead(Upd* ul, u64 idx, const Model& m) {
  for (; ul->idx; ul = ul->next) if (evalExpr(ul->idx, m) == idx) return evalExpr(ul->val, m);
  Array* A = ul->root;
  if (A->isConst) return idx < A->bytes.size() ? A->bytes[idx] : A->fill;
  auto it = m.elems.find(((u64)A->id << 32) | (idx & 0xffffffffu)); return it == m.elems.end() ? 0 : it->second;
}
u64 evalExpr(Expr* e, const Model& m) {
  if (e->k == K_CONST) return e->c;
  if (e->evModel == m.id) return e->evVal;
  u64 r;
  switch (e->k) {
  case K_VAR: { auto it = m.vars.find(e->c); r = it == m.vars.end() ? 0 : it->second & maskw(e->w); } break;
  case K_READ: r = evalRead(e->ul, evalExpr(e->a, m), m); break;
  case K_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->d, m); break;
  case K_EXTRACT: r = (evalExpr(e->a, m) >> e->c) & maskw(e->w); break;
  case K_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
  case K_ZEXT: r = evalExpr(e->a, m); break;
  case K_SEXT: r = (u64)sx(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
  case K_FNAN: case K_FPEXT: case K_FPTRUNC: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: r = foldFUn(e->k, evalExpr(e->a, m), e->a->w, e->w); break;
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FEQ: case K_FLT: case K_FLE: r = foldF(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
  default: r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
  }
  e->evModel = m.id; e->evVal = r; return r;
}
static const char* KN[] = { "const","var","read","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","extract","concat","zext","sext","fadd","fsub","fmul","fdiv","feq","flt","fle","fnan","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui" };
std::string exprStr(Expr* e, int depth) {
  char buf[64];
  if (e->k == K_CONST) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->k == K_VAR) return g_varNames[e->c];
  if (depth == 0) { snprintf(buf, 64, "#%u", e->id); return buf; }
  std::string s = std::string("(") + KN[e->k];
  if (e->k == K_EXTRACT) { snprintf(buf, 64, "[%llu+:%d]", (unsigned long long)e->c, e->w); s += buf; }
  if (e->k == K_READ) { Upd* r = e->ul; int n = 0; while (r->idx) { r = r->next; n++; } s += " " + r->root->name + "^" + std::to_string(n); }
  if (e->a) s += " " + exprStr(e->a, depth - 1); if (e->b) s += " " + exprStr(e->b, depth - 1); if (e->d) s += " " + exprStr(e->d, depth - 1);
  return s + ")";
}
