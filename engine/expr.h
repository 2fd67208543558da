// Hash-consed bit-vector / float expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>

typedef uint16_t u16; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Kind : u8 {
  K_CONST, K_VAR, K_READ,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_EXTRACT, K_CONCAT, K_ZEXT, K_SEXT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FEQ, K_FLT, K_FLE, K_FNAN,
  K_FPEXT, K_FPTRUNC, K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI
};

struct Expr; struct Upd;
struct Array { u32 id; std::string name; bool isConst; std::vector<u8> bytes; u8 fill; bool uninit; };
struct Upd { Expr* idx; Expr* val; Upd* next; Array* root; u32 id; u32 depth; Expr* rn = nullptr; Upd* rs = nullptr; Expr* ro = nullptr; bool hasRange = false; };   // idx==0: root marker
// rn != 0: bytes [idx, idx+rn) become val, or the bytes of rs starting at ro

struct Expr {
  Kind k; u8 w; bool hasFP; u8 pad; u32 id;
  u64 c;              // CONST value, VAR id, EXTRACT low bit
  Expr *a, *b, *d; Upd* ul;
  u64 umin, umax, kz; // unsigned range, known-zero mask (within width)
  const std::vector<u64>* sup;  // support
  u64 evModel, evVal;
  void *zb, *zv, *zf;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

// --- FP helpers (canonical NaN) ---
static inline float bf(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline double bd(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static inline u64 fb(float f) { if (f != f) return 0x7fc00000u; u32 x; memcpy(&x, &f, 4); return x; }
static inline u64 db(double f) { if (f != f) return 0x7ff8000000000000ull; u64 x; memcpy(&x, &f, 8); return x; }
static inline bool fisnan(u64 v, unsigned w) { return w == 32 ? bf(v) != bf(v) : bd(v) != bd(v); }

struct Model {   // a (partial) assignment; missing = 0
  u64 id;
  std::unordered_map<u64, u64> vars;        // var id -> value
  std::unordered_map<u64, u8> elems;        // arr<<32|idx -> byte
};
typedef std::shared_ptr<const Model> ModelP;

u64 evalExpr(Expr* e, const Model& m);

Expr* mkConst(u64 v, unsigned w);
Expr* mkVar(u32 varid, unsigned w);
Expr* mkRead(Upd* ul, Expr* idx32);
Upd* mkRoot(Array* a);
Upd* mkUpd(Upd* next, Expr* idx32, Expr* val8);
Upd* mkRangeUpd(Upd* next, Expr* dst32, Expr* n32, Upd* src, Expr* srcOff32, Expr* val8);
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkNot1(Expr* a);             // boolean negation (w==1)
Expr* mkFBin(Kind k, Expr* a, Expr* b);   // FADD.. FEQ..
Expr* mkFUn(Kind k, Expr* a, unsigned w); // FNAN, conversions (w = result width)
u64 foldBin(Kind k, u64 a, u64 b, unsigned w);
u64 foldF(Kind k, u64 a, u64 b, unsigned w);
u64 foldFUn(Kind k, u64 a, unsigned wa, unsigned w);
int aliasCmp(Expr* x, Expr* y);
Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* d);
std::string exprStr(Expr* e, int depth = 6);
static inline bool isC(Expr* e) { return e->k == K_CONST; }
static inline bool isTrue(Expr* e) { return e->k == K_CONST && e->c; }
static inline bool isFalse(Expr* e) { return e->k == K_CONST && !e->c; }
Array* newArray(const std::string& name, bool isConst);
extern std::vector<u8> g_varW; extern u32 g_numVars; extern std::vector<std::string> g_varNames;
u32 newVarId(const std::string& name);
extern size_t g_numExprs;
