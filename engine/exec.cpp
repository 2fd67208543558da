// qsym: bounded symbolic execution of LLVM bitcode (compiled from /repo's C sources) with Z3 as decision procedure.
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <deque>
#include <map>
#include <set>
#include <sys/resource.h>
#include <thread>
#include <pthread.h>
#include <unistd.h>
using namespace llvm;

struct Val { Expr* e; u64 c; };
static inline Val VC(u64 c) { return Val{ nullptr, c }; }
static inline Val VE(Expr* e) { if (isC(e)) return Val{ nullptr, e->c }; return Val{ e, 0 }; }
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------------ memory
struct Page { int rc; u8 st[256]; u8 conc[256]; Expr** sym; };  // st: 0 unset 1 concrete 2 symbolic, |4 dirty
static Page* pageNew() { Page* p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; return p; }
static Page* pageClone(Page* o) { Page* p = (Page*)malloc(sizeof(Page)); memcpy(p, o, sizeof(Page)); p->rc = 1; if (o->sym) { p->sym = (Expr**)malloc(256 * sizeof(Expr*)); memcpy(p->sym, o->sym, 256 * sizeof(Expr*)); } return p; }
static void pageRel(Page* p) { if (p && !--p->rc) { free(p->sym); free(p); } }
enum OKind { O_GLOBAL, O_STACK, O_HEAP, O_FUNC, O_BLOCK };
struct Obj {
  int rc; u32 id; u64 size; Expr* symSize; OKind kind; bool alive, ro; const char* name; void* fn;
  Array* root; Upd* ul; std::vector<Page*> pages;
  bool dirtyAny;
};
static Array* g_zeroArr;
static Obj* objNew(u32 id, u64 size, OKind k, const char* name, Array* root) {
  Obj* o = new Obj(); o->rc = 1; o->id = id; o->size = size; o->symSize = nullptr; o->kind = k; o->alive = true; o->ro = false; o->name = name; o->fn = nullptr; o->root = root; o->ul = nullptr; o->dirtyAny = false; return o; }
static Obj* objClone(Obj* s) { Obj* o = new Obj(*s); o->rc = 1; for (Page* p : o->pages) if (p) p->rc++; return o; }
static void objRel(Obj* o) { if (o && !--o->rc) { for (Page* p : o->pages) pageRel(p); delete o; } }
static const u64 SLOT = 36, HALF = 1ull << 35;
static inline u64 addrOf(u32 id, u64 off = 0) { return ((u64)(id + 1) << SLOT) + HALF + (u64)((id * 40503u) & 0xfff) * 64 + off; }

// ------------------------------------------------------------------ decoded code
struct Opnd { int slot; u64 c; bool undef; };
struct FuncInfo;
struct Inst {
  u16 op; u8 w, w2; u8 pred; bool nuw; int dst; int line; int ndst;
  std::vector<Opnd> o; std::vector<u64> aux; std::vector<u8> ow;
  FuncInfo* callee; int builtin; const Instruction* I; Type* ty;
};
struct Edge { int target; std::vector<std::pair<int, Opnd>> moves; std::vector<u8> mw; };
struct FuncInfo {
  Function* F; std::string name; bool decoded; std::vector<Inst> code; int nslots; std::vector<Edge> edges; std::vector<int> argSlot; std::vector<u8> argW; std::vector<u64> argByval;
  std::map<const BasicBlock*, int> blockStart; std::map<std::pair<const BasicBlock*, const BasicBlock*>, int> edgeIdx; std::map<const Value*, int> slot; u64 execCount; bool isVarArg; std::string file; std::vector<bool> cov;
};
enum { X_GEP = 1000, X_BR, X_CBR, X_SWITCH, X_IBR, X_RET, X_CALL, X_UNREACH, X_MOV, X_ALLOCA, X_LOAD, X_STORE, X_BIN, X_FBIN, X_ICMP, X_FCMP, X_CAST, X_FCAST, X_SELECT, X_EXTRACTV, X_INSERTV, X_FNEG, X_UNSUP, X_NOP };
enum Builtin { B_NONE, B_MAKE_SYM, B_ASSUME, B_CHECK, B_REACH, B_SELECT, B_FUEL, B_STOP, B_CUT, B_RO, B_PARAM, B_CONC, B_PRINT, B_FAIL, B_ISSYM, B_NONDETFILL, B_SYMSIZE, B_VALID, B_SIZEOF,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_NOOP, B_ABORT, B_ASSERT, B_VASTART, B_VAEND, B_VACOPY, B_FABS, B_EXPECT, B_OVF, B_MINMAX, B_STACKSAVE, B_IGNORE, B_OBJSIZE, B_ISCONST, B_ERRNO, B_BSWAP, B_TRACE, B_UNSUP };

struct Frame { FuncInfo* f; u32 pc; int retDst; std::vector<Val> regs; std::vector<u32> allocas; u32 vaObj; };
struct SymRec { std::string name; u32 n; int kind; u64 id; };  // kind 0: var (n bytes), 1: array, 2: concrete value id, 3: byte array of vars starting var id
struct Rng { u64 lo, hi; i64 slo, shi; bool hasS; };
struct State {
  std::vector<Frame> st; std::vector<Obj*> mem; std::vector<Expr*> cons; ModelP model;
  std::unordered_map<Expr*, Expr*> eq; std::vector<u64> eqSup; std::unordered_map<Expr*, Expr*> memo; std::unordered_map<Expr*, Rng> bnd, rmemo; bool overapprox = false; std::string oaNote;
  std::vector<SymRec> syms; i64 fuel = -1; u64 steps = 0; std::deque<u32> freeIds; std::vector<std::string> reached; int dup = 0; bool hasDup = false;
  std::map<std::string,int> symCount;
};
static State* cloneState(State* s) { State* n = new State(*s); for (Obj* o : n->mem) if (o) o->rc++; n->memo.clear(); n->rmemo.clear(); return n; }
static void freeState(State* s) { for (Obj* o : s->mem) objRel(o); delete s; }

// ------------------------------------------------------------------ globals
static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u32> g_gid; static std::vector<FuncInfo*> g_funcs; static std::unordered_map<const Function*, FuncInfo*> g_fi;
static std::map<const BlockAddress*, u32> g_ba; static std::vector<std::pair<u32, std::pair<FuncInfo*, const BasicBlock*>>> g_blocks; static std::unordered_map<u32, std::pair<FuncInfo*, const BasicBlock*>> g_blockOf;
static std::vector<State*> g_work; static std::map<std::string, long> g_params;
struct Violation { std::string kind, msg, loc, stack; std::vector<std::pair<std::string, std::string>> inputs; bool oa; u64 count; };
static std::vector<Violation> g_viol; static std::map<std::string, size_t> g_violIdx;
static std::vector<std::vector<std::pair<std::string, std::string>>> g_samples; static u64 g_sampleSeen; static int g_maxSamples = 4;
static std::map<std::string, u64> g_reach; static std::map<std::string, u64> g_notes;
static u64 g_pathsDone, g_pathsCut, g_pathsErr, g_pathsAssume, g_instrs, g_forks, g_unknownForks; static bool g_incomplete; static double g_maxTime = 600; static u64 g_maxViol = 8; static u64 g_seed = 1;
static bool g_trace; static std::string g_traceOut; static size_t g_maxStates = 200000; static int g_concMax = 512; static bool g_noteUninitFork;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static Array* g_uninitProto; static u64 g_rng = 88172645463325252ull;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

// ------------------------------------------------------------------ widths
static unsigned tyW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static void flatten(Type* t, std::vector<std::pair<Type*, u64>>& out, u64 off = 0) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), out, off + L->getElementOffset(i)); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), out, off + i * es); }
  else out.push_back({ t, off }); }
static unsigned nslotsOf(Type* t) { if (t->isVoidTy()) return 0; if (!t->isAggregateType()) return 1; std::vector<std::pair<Type*, u64>> v; flatten(t, v); return v.size(); }

// ------------------------------------------------------------------ constants
static FuncInfo* fiOf(const Function* F);
static u32 blockId(const BlockAddress* ba);
static void constVals(const Constant* C, std::vector<Opnd>& out);
static u64 constInt(const Constant* C) { std::vector<Opnd> v; constVals(C, v); if (v.size() != 1) { errs() << "constInt: " << *C << "\n"; abort(); } return v[0].c; }
static void constVals(const Constant* C, std::vector<Opnd>& out) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { out.push_back({ -1, ci->getValue().extractBitsAsZExtValue(64, 0), false }); return; } out.push_back({ -1, ci->getZExtValue(), false }); return; }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { APInt b = cf->getValueAPF().bitcastToAPInt(); out.push_back({ -1, b.extractBitsAsZExtValue(std::min(64u, b.getBitWidth()), 0), false }); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back({ -1, 0, false }); return; }
  if (isa<UndefValue>(C)) { unsigned n = nslotsOf(C->getType()); for (unsigned i = 0; i < n; i++) out.push_back({ -1, 0, true }); return; }
  if (isa<ConstantAggregateZero>(C)) { unsigned n = nslotsOf(C->getType()); for (unsigned i = 0; i < n; i++) out.push_back({ -1, 0, false }); return; }
  if (auto* gv = dyn_cast<GlobalAlias>(C)) { constVals(gv->getAliasee(), out); return; }
  if (auto* gv = dyn_cast<GlobalValue>(C)) { auto it = g_gid.find(gv); if (it == g_gid.end()) { errs() << "unknown global " << *gv << "\n"; abort(); } out.push_back({ -1, addrOf(it->second), false }); return; }
  if (auto* ba = dyn_cast<BlockAddress>(C)) { out.push_back({ -1, addrOf(blockId(ba)), false }); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(cast<Constant>(ca->getOperand(i)), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    unsigned w = tyW(ce->getType());
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: out.push_back({ -1, constInt(ce->getOperand(0)) & maskw(w), false }); return;
    case Instruction::Add: out.push_back({ -1, (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(w), false }); return;
    case Instruction::Sub: out.push_back({ -1, (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(w), false }); return;
    case Instruction::Mul: out.push_back({ -1, (constInt(ce->getOperand(0)) * constInt(ce->getOperand(1))) & maskw(w), false }); return;
    case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) abort(); out.push_back({ -1, constInt(ce->getOperand(0)) + off.getZExtValue(), false }); return; }
    default: break;
    }
  }
  errs() << "unsupported constant " << *C << "\n"; abort();
}
static u32 g_initNext; static std::vector<Obj*> g_initMem;
static u32 addInit(u64 size, OKind k, const char* name) { u32 id = g_initMem.size(); g_initMem.push_back(objNew(id, size, k, name, g_zeroArr)); return id; }
static u32 blockId(const BlockAddress* ba) { auto it = g_ba.find(ba); if (it != g_ba.end()) return it->second; u32 id = addInit(0, O_BLOCK, "block"); g_ba[ba] = id; g_blockOf[id] = { fiOf(ba->getFunction()), ba->getBasicBlock() }; return id; }

// ------------------------------------------------------------------ decoding
static int builtinId(const std::string& n) {
  static const std::map<std::string, int> M = {
    {"qs_make_symbolic", B_MAKE_SYM}, {"qs_assume", B_ASSUME}, {"qs_check", B_CHECK}, {"qs_reach", B_REACH}, {"qs_select", B_SELECT}, {"qs_fuel", B_FUEL}, {"qs_stop", B_STOP}, {"qs_cut", B_CUT}, {"qs_readonly", B_RO}, {"qs_param", B_PARAM}, {"qs_concretize", B_CONC}, {"qs_print", B_PRINT}, {"qs_fail", B_FAIL}, {"qs_is_symbolic", B_ISSYM}, {"qs_trace", B_TRACE}, {"qs_obj_size", B_SIZEOF},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERT}, {"__errno_location", B_ERRNO} };
  auto it = M.find(n); if (it != M.end()) return it->second;
  static const std::set<std::string> N = { "printf","puts","putchar","fprintf","fputs","fputc","putc","vfprintf","vprintf","fflush","perror","fwrite_noop" };
  if (N.count(n)) return B_NOOP;
  return B_UNSUP;
}
static Opnd opndOf(FuncInfo* fi, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { if (tyW(c->getType()) == 0) return { -1, 0, true }; std::vector<Opnd> o; constVals(c, o); return o[0]; }
  auto it = fi->slot.find(v); if (it == fi->slot.end()) return { -1, 0, true }; return { it->second, 0, false }; }
static void opndsOf(FuncInfo* fi, const Value* v, std::vector<Opnd>& out) {
  if (auto* c = dyn_cast<Constant>(v)) { constVals(c, out); return; }
  int s = fi->slot[v]; unsigned n = nslotsOf(v->getType()); for (unsigned i = 0; i < n; i++) out.push_back({ s + (int)i, 0, false }); }
static FuncInfo* fiOf(const Function* F) { auto it = g_fi.find(F); if (it != g_fi.end()) return it->second; FuncInfo* f = new FuncInfo(); f->F = const_cast<Function*>(F); f->name = F->getName().str(); f->decoded = false; f->nslots = 0; f->execCount = 0; f->isVarArg = F->isVarArg(); if (auto* sp = F->getSubprogram()) f->file = sp->getFilename().str(); g_fi[F] = f; g_funcs.push_back(f); return f; }
static int edgeFor(FuncInfo* fi, const BasicBlock* from, const BasicBlock* to) {
  auto key = std::make_pair(from, to); auto it = fi->edgeIdx.find(key); if (it != fi->edgeIdx.end()) return it->second;
  Edge e; e.target = fi->blockStart[to];
  for (auto& p : to->phis()) { const Value* v = p.getIncomingValueForBlock(from); std::vector<Opnd> o; opndsOf(fi, v, o); int d = fi->slot[&p]; std::vector<std::pair<Type*, u64>> fl; flatten(p.getType(), fl); for (size_t i = 0; i < o.size(); i++) { e.moves.push_back({ d + (int)i, o[i] }); e.mw.push_back(tyW(fl[i].first)); } }
  fi->edges.push_back(e); return fi->edgeIdx[key] = fi->edges.size() - 1; }
static bool skipInst(const Instruction& I) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) return true; if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) return true; } return false; }
static void decode(FuncInfo* fi) {
  fi->decoded = true; Function* F = fi->F; int ns = 0;
  for (auto& a : F->args()) { fi->slot[&a] = ns; fi->argSlot.push_back(ns); fi->argW.push_back(tyW(a.getType())); fi->argByval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0); ns += nslotsOf(a.getType()); }
  int pc = 0;
  for (auto& B : *F) { fi->blockStart[&B] = pc; for (auto& I : B) { if (!I.getType()->isVoidTy()) { fi->slot[&I] = ns; ns += nslotsOf(I.getType()); } if (!skipInst(I)) pc++; } }
  fi->nslots = ns;
  for (auto& B : *F) for (auto& I : B) {
    if (skipInst(I)) continue;
    Inst n; n.op = X_UNSUP; n.w = tyW(I.getType()); n.w2 = 0; n.pred = 0; n.nuw = false; n.dst = I.getType()->isVoidTy() ? -1 : fi->slot[&I]; n.ndst = nslotsOf(I.getType()); n.callee = nullptr; n.builtin = 0; n.I = &I; n.ty = I.getType(); n.line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
    auto O = [&](unsigned i) { n.o.push_back(opndOf(fi, I.getOperand(i))); };
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (!n.w || n.w > 64) break; static const std::map<unsigned, int> M = { {Instruction::Add,K_ADD},{Instruction::Sub,K_SUB},{Instruction::Mul,K_MUL},{Instruction::UDiv,K_UDIV},{Instruction::SDiv,K_SDIV},{Instruction::URem,K_UREM},{Instruction::SRem,K_SREM},{Instruction::And,K_AND},{Instruction::Or,K_OR},{Instruction::Xor,K_XOR},{Instruction::Shl,K_SHL},{Instruction::LShr,K_LSHR},{Instruction::AShr,K_ASHR} };
      n.op = X_BIN; n.pred = M.at(I.getOpcode()); O(0); O(1); } break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: if (!n.w) break; n.op = X_FBIN; n.pred = I.getOpcode() == Instruction::FAdd ? K_FADD : I.getOpcode() == Instruction::FSub ? K_FSUB : I.getOpcode() == Instruction::FMul ? K_FMUL : K_FDIV; O(0); O(1); break;
    case Instruction::FNeg: if (!n.w) break; n.op = X_FNEG; O(0); break;
    case Instruction::ICmp: n.w2 = tyW(I.getOperand(0)->getType()); if (!n.w2 || n.w2 > 64) break; n.op = X_ICMP; n.pred = cast<ICmpInst>(I).getPredicate(); O(0); O(1); break;
    case Instruction::FCmp: n.w2 = tyW(I.getOperand(0)->getType()); if (!n.w2) break; n.op = X_FCMP; n.pred = cast<FCmpInst>(I).getPredicate(); O(0); O(1); break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: n.w2 = tyW(I.getOperand(0)->getType()); if (!n.w || !n.w2 || n.w > 64 || n.w2 > 64) break; n.op = X_CAST; n.pred = I.getOpcode() == Instruction::SExt; O(0); break;
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: n.w2 = tyW(I.getOperand(0)->getType()); if (!n.w || !n.w2) break; n.op = X_FCAST;
      n.pred = I.getOpcode() == Instruction::FPExt ? K_FPEXT : I.getOpcode() == Instruction::FPTrunc ? K_FPTRUNC : I.getOpcode() == Instruction::SIToFP ? K_SITOFP : I.getOpcode() == Instruction::UIToFP ? K_UITOFP : I.getOpcode() == Instruction::FPToSI ? K_FPTOSI : K_FPTOUI; O(0); break;
    case Instruction::Select: if (I.getType()->isAggregateType()) break; n.op = X_SELECT; O(0); O(1); O(2); break;
    case Instruction::Freeze: if (I.getType()->isAggregateType()) break; n.op = X_MOV; O(0); break;
    case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); n.op = X_ALLOCA; n.aux.push_back(DL->getTypeAllocSize(A.getAllocatedType())); n.o.push_back(opndOf(fi, A.getArraySize())); n.ow.push_back(tyW(A.getArraySize()->getType())); } break;
    case Instruction::Load: case Instruction::Store: { bool ld = I.getOpcode() == Instruction::Load; Type* t = ld ? I.getType() : I.getOperand(0)->getType(); std::vector<std::pair<Type*, u64>> fl; flatten(t, fl); bool ok = true; for (auto& x : fl) { if (!tyW(x.first) || tyW(x.first) > 64) ok = false; }
      if (!ok) break; n.op = ld ? X_LOAD : X_STORE; n.o.push_back(opndOf(fi, I.getOperand(ld ? 0 : 1))); if (!ld) opndsOf(fi, I.getOperand(0), n.o); for (auto& x : fl) { n.aux.push_back(x.second); n.ow.push_back(tyW(x.first)); } } break;
    case Instruction::GetElementPtr: { auto& G = cast<GetElementPtrInst>(I); n.op = X_GEP; n.o.push_back(opndOf(fi, G.getPointerOperand())); u64 off = 0; std::vector<std::pair<Opnd, std::pair<u64, u8>>> idx;
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { const Value* v = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); } else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(v)) off += es * (u64)ci->getSExtValue(); else { n.o.push_back(opndOf(fi, v)); n.aux.push_back(es); n.ow.push_back(tyW(v->getType())); } } }
      n.aux.push_back(off); } break;
    case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); std::vector<Opnd> all; opndsOf(fi, E.getAggregateOperand(), all); Type* t = E.getAggregateOperand()->getType(); unsigned pos = 0; for (unsigned ix : E.indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) pos += nslotsOf(s->getElementType(i)); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); pos += ix * nslotsOf(a->getElementType()); t = a->getElementType(); } }
      n.op = X_INSERTV; for (int i = 0; i < n.ndst; i++) n.o.push_back(all[pos + i]); } break;
    case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); std::vector<Opnd> all, ins; opndsOf(fi, E.getAggregateOperand(), all); opndsOf(fi, E.getInsertedValueOperand(), ins); Type* t = E.getType(); unsigned pos = 0; for (unsigned ix : E.indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) pos += nslotsOf(s->getElementType(i)); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); pos += ix * nslotsOf(a->getElementType()); t = a->getElementType(); } }
      n.op = X_INSERTV; n.o = all; for (size_t i = 0; i < ins.size(); i++) n.o[pos + i] = ins[i]; } break;
    case Instruction::Br: { auto& Br = cast<BranchInst>(I); if (Br.isUnconditional()) { n.op = X_BR; n.aux.push_back(edgeFor(fi, &B, Br.getSuccessor(0))); } else { n.op = X_CBR; O(0); n.aux.push_back(edgeFor(fi, &B, Br.getSuccessor(0))); n.aux.push_back(edgeFor(fi, &B, Br.getSuccessor(1))); } } break;
    case Instruction::Switch: { auto& S = cast<SwitchInst>(I); n.op = X_SWITCH; O(0); n.w2 = tyW(S.getCondition()->getType()); n.aux.push_back(edgeFor(fi, &B, S.getDefaultDest())); for (auto& c : S.cases()) { n.aux.push_back(c.getCaseValue()->getZExtValue()); n.aux.push_back(edgeFor(fi, &B, c.getCaseSuccessor())); } } break;
    case Instruction::IndirectBr: { auto& S = cast<IndirectBrInst>(I); n.op = X_IBR; O(0); for (unsigned i = 0; i < S.getNumDestinations(); i++) edgeFor(fi, &B, S.getDestination(i)); } break;
    case Instruction::Ret: n.op = X_RET; if (I.getNumOperands()) { opndsOf(fi, I.getOperand(0), n.o); std::vector<std::pair<Type*, u64>> fl; flatten(I.getOperand(0)->getType(), fl); for (auto& x : fl) n.ow.push_back(tyW(x.first)); } break;
    case Instruction::Unreachable: n.op = X_UNREACH; break;
    case Instruction::Call: { auto& CI = cast<CallInst>(I); if (CI.isInlineAsm()) break; n.op = X_CALL; Function* callee = dyn_cast<Function>(CI.getCalledOperand()->stripPointerCasts());
      if (callee) { 
        if (callee->isIntrinsic()) {
          switch (callee->getIntrinsicID()) {
          case Intrinsic::memcpy: n.builtin = B_MEMCPY; break; case Intrinsic::memmove: n.builtin = B_MEMMOVE; break; case Intrinsic::memset: n.builtin = B_MEMSET; break;
          case Intrinsic::vastart: n.builtin = B_VASTART; break; case Intrinsic::vaend: n.builtin = B_VAEND; break; case Intrinsic::vacopy: n.builtin = B_VACOPY; break;
          case Intrinsic::fabs: n.builtin = B_FABS; break; case Intrinsic::expect: n.builtin = B_EXPECT; break; case Intrinsic::trap: case Intrinsic::ubsantrap: n.builtin = B_ABORT; break;
          case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stackrestore: n.builtin = B_IGNORE; break; case Intrinsic::stacksave: n.builtin = B_STACKSAVE; break;
          case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: n.builtin = B_OVF; n.pred = callee->getIntrinsicID() == Intrinsic::sadd_with_overflow ? 0 : callee->getIntrinsicID() == Intrinsic::uadd_with_overflow ? 1 : callee->getIntrinsicID() == Intrinsic::ssub_with_overflow ? 2 : callee->getIntrinsicID() == Intrinsic::usub_with_overflow ? 3 : callee->getIntrinsicID() == Intrinsic::smul_with_overflow ? 4 : 5; break;
          case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: n.builtin = B_MINMAX; n.pred = callee->getIntrinsicID() == Intrinsic::smin ? 0 : callee->getIntrinsicID() == Intrinsic::smax ? 1 : callee->getIntrinsicID() == Intrinsic::umin ? 2 : 3; break;
          case Intrinsic::bswap: n.builtin = B_BSWAP; break; case Intrinsic::is_constant: n.builtin = B_ISCONST; break; case Intrinsic::objectsize: n.builtin = B_OBJSIZE; break;
          default: n.builtin = B_UNSUP; break; } }
        else if (callee->isDeclaration()) n.builtin = builtinId(callee->getName().str());
        else { n.callee = fiOf(callee); if (callee->getName() == "memcpy" || callee->getName() == "memset") { } }
      }
      n.o.push_back(callee ? Opnd{ -1, 0, false } : opndOf(fi, CI.getCalledOperand()));
      for (unsigned i = 0; i < CI.arg_size(); i++) { Value* a = CI.getArgOperand(i); if (a->getType()->isMetadataTy()) { n.o.push_back({ -1, 0, true }); n.ow.push_back(32); n.aux.push_back(0); continue; } n.o.push_back(opndOf(fi, a)); n.ow.push_back(tyW(a->getType())); n.aux.push_back(CI.isByValArgument(i) ? (u64)DL->getTypeAllocSize(CI.getParamByValType(i)) : 0); }
    } break;
    default: break;
    }
    fi->code.push_back(std::move(n));
  }
  fi->cov.assign(fi->code.size(), false);
}

// ------------------------------------------------------------------ reporting
static std::string locOf(State* s) { Frame& f = s->st.back(); Inst& n = f.f->code[f.pc]; return f.f->name + ":" + std::to_string(n.line); }
static std::string stackOf(State* s) { std::string r; int k = 0; for (int i = (int)s->st.size() - 1; i >= 0 && k < 6; i--, k++) { Frame& f = s->st[i]; u32 pc = i == (int)s->st.size() - 1 ? f.pc : (f.pc ? f.pc - 1 : 0); if (k) r += " < "; r += f.f->name + ":" + std::to_string(f.f->code[pc].line); } return r; }
static std::vector<std::pair<std::string, std::string>> inputsOf(State* s, const Model& m) {
  std::vector<std::pair<std::string, std::string>> r; char b[4];
  for (auto& y : s->syms) { std::string h; if (y.kind == 0) { auto it = m.vars.find(y.id); u64 v = it == m.vars.end() ? 0 : it->second; for (u32 i = 0; i < y.n; i++) { snprintf(b, 4, "%02x", (unsigned)((v >> (8 * i)) & 255)); h += b; } }
    else if (y.kind == 1) { std::vector<std::pair<u32,u8>> nz; u32 last = 0; for (auto& kv : m.elems) if ((kv.first >> 32) == y.id && (u32)kv.first < y.n && kv.second) { nz.push_back({ (u32)kv.first, kv.second }); last = std::max(last, (u32)kv.first + 1); }
      std::string v(last, 0); for (auto& x : nz) v[x.first] = (char)x.second; 
      if (nz.size() * 12 < (size_t)last * 2) { h = "@"; std::sort(nz.begin(), nz.end()); for (auto& x : nz) { char q[32]; snprintf(q, 32, "%x:%02x,", x.first, x.second); h += q; } }
      else for (char c : v) { snprintf(b, 4, "%02x", (u8)c); h += b; } }
    else { for (u32 i = 0; i < y.n; i++) { snprintf(b, 4, "%02x", (unsigned)((y.id >> (8 * i)) & 255)); h += b; } }
    r.push_back({ y.name + ":" + std::to_string(y.n), h }); }
  return r; }
static void report(State* s, const std::string& kind, const std::string& msg, ModelP m) {
  std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : locOf(s));
  auto it = g_violIdx.find(key); if (it != g_violIdx.end()) { g_viol[it->second].count++; if (!(g_viol[it->second].oa && !s->overapprox)) return; }
  Violation v; v.kind = kind; v.msg = msg; v.loc = locOf(s); v.stack = stackOf(s); v.inputs = inputsOf(s, *m); v.oa = s->overapprox; v.count = 1;
  if (it != g_violIdx.end()) { v.count = g_viol[it->second].count; g_viol[it->second] = v; return; }
  g_violIdx[key] = g_viol.size(); g_viol.push_back(v);
  fprintf(stderr, "qsym: violation %s: %s at %s\n", kind.c_str(), msg.c_str(), v.stack.c_str());
}


// ------------------------------------------------------------------ value ranges implied by the path condition
static Rng rangeOf(State* s, Expr* e, int depth = 24) {
  Rng r{ e->umin, e->umax, 0, 0, false };
  if (isC(e) || s->bnd.empty()) return r;
  auto im = s->rmemo.find(e); if (im != s->rmemo.end()) return im->second;
  u64 m = maskw(e->w); auto meet = [&](u64 lo, u64 hi) { if (lo > r.lo) r.lo = lo; if (hi < r.hi) r.hi = hi; };
  if (depth > 0 && e->w > 1) switch (e->k) {
    case K_ZEXT: { Rng a = rangeOf(s, e->a, depth - 1); meet(a.lo, a.hi); break; }
    case K_SEXT: { Rng a = rangeOf(s, e->a, depth - 1); if (a.hi <= (maskw(e->a->w) >> 1)) meet(a.lo, a.hi); break; }
    case K_EXTRACT: if (e->c == 0) { Rng a = rangeOf(s, e->a, depth - 1); if (a.hi <= m) meet(a.lo, a.hi); } break;
    case K_ADD: { Rng a = rangeOf(s, e->a, depth - 1), b = rangeOf(s, e->b, depth - 1); u64 h = a.hi + b.hi; if (h >= a.hi && h <= m) meet(a.lo + b.lo, h);
      else if (isC(e->b)) { u64 c = (0 - b.lo) & m; if (a.lo >= c) meet(a.lo - c, a.hi - c); } break; }
    case K_SUB: { Rng a = rangeOf(s, e->a, depth - 1), b = rangeOf(s, e->b, depth - 1); if (a.lo >= b.hi) meet(a.lo - b.hi, a.hi - b.lo); break; }
    case K_AND: { Rng a = rangeOf(s, e->a, depth - 1), b = rangeOf(s, e->b, depth - 1); meet(0, std::min(a.hi, b.hi)); break; }
    case K_ITE: { Rng a = rangeOf(s, e->b, depth - 1), b = rangeOf(s, e->d, depth - 1); meet(std::min(a.lo, b.lo), std::max(a.hi, b.hi)); break; }
    case K_LSHR: if (isC(e->b) && e->b->c < e->w) { Rng a = rangeOf(s, e->a, depth - 1); meet(a.lo >> e->b->c, a.hi >> e->b->c); } break;
    case K_SHL: if (isC(e->b) && e->b->c < e->w) { Rng a = rangeOf(s, e->a, depth - 1); u64 h = a.hi << e->b->c; if ((h >> e->b->c) == a.hi && h <= m) meet(a.lo << e->b->c, h); } break;
    default: break; }
  auto it = s->bnd.find(e); if (it != s->bnd.end()) { meet(it->second.lo, it->second.hi); if (it->second.hasS && it->second.slo >= 0) meet((u64)it->second.slo, (u64)it->second.shi); }
  if (r.lo > r.hi) { r.lo = e->umin; r.hi = e->umax; } // contradictory path: decide nothing
  s->rmemo[e] = r; return r; }
static void bndAdd(State* s, Expr* x, u64 lo, u64 hi, bool sg) {
  if (isC(x) || x->w < 2) return;
  auto it = s->bnd.find(x); if (it == s->bnd.end()) it = s->bnd.emplace(x, Rng{ 0, maskw(x->w), sx((u64)1 << (x->w - 1), x->w), (i64)(maskw(x->w) >> 1), true }).first;
  Rng& r = it->second;
  if (sg) { r.slo = std::max(r.slo, (i64)lo); r.shi = std::min(r.shi, (i64)hi); } else { r.lo = std::max(r.lo, lo); r.hi = std::min(r.hi, hi); }
  s->rmemo.clear(); }
static void bndLearn(State* s, Expr* c, bool pos = true) {
  if (c->k == K_XOR && c->w == 1 && isTrue(c->b)) { bndLearn(s, c->a, !pos); return; }
  if (c->k != K_ULT && c->k != K_ULE && c->k != K_SLT && c->k != K_SLE) return;
  Expr *a = c->a, *b = c->b; bool strict = c->k == K_ULT || c->k == K_SLT, sg = c->k == K_SLT || c->k == K_SLE; if (!pos) { std::swap(a, b); strict = !strict; }
  unsigned w = a->w; // a < b or a <= b
  if (sg) {
    if (isC(b)) { i64 v = sx(b->c, w); if (strict) { if (v == sx((u64)1 << (w - 1), w)) return; v--; } bndAdd(s, a, (u64)sx((u64)1 << (w - 1), w), (u64)v, true); }
    else if (isC(a)) { i64 v = sx(a->c, w); if (strict) { if (v == (i64)(maskw(w) >> 1)) return; v++; } bndAdd(s, b, (u64)v, (u64)(i64)(maskw(w) >> 1), true); }
  } else {
    Rng ra = rangeOf(s, a), rb = rangeOf(s, b);
    if (!isC(a) && rb.hi < maskw(w)) { if (!(strict && rb.hi == 0)) bndAdd(s, a, 0, strict ? rb.hi - 1 : rb.hi, false); }
    if (!isC(b) && ra.lo > 0) { if (!(strict && ra.lo == maskw(w))) bndAdd(s, b, strict ? ra.lo + 1 : ra.lo, maskw(w), false); } } }
// e as an integer (its unsigned value) = c + sum of coeff * atom, using ranges to rule out wrap-around
struct Lin { __int128 c = 0; std::vector<std::pair<Expr*, int>> t; };
static void linTo(State* s, Expr* e, int sign, Lin& l, int depth) {
  if (isC(e)) { l.c += (__int128)sign * (__int128)e->c; return; }
  if (depth > 0) switch (e->k) {
    case K_ZEXT: linTo(s, e->a, sign, l, depth - 1); return;
    case K_SEXT: if (rangeOf(s, e->a).hi <= (maskw(e->a->w) >> 1)) { linTo(s, e->a, sign, l, depth - 1); return; } break;
    case K_EXTRACT: if (e->c == 0 && rangeOf(s, e->a).hi <= maskw(e->w)) { linTo(s, e->a, sign, l, depth - 1); return; } break;
    case K_ADD: { Rng a = rangeOf(s, e->a), b = rangeOf(s, e->b); u64 m = maskw(e->w), h = a.hi + b.hi;
      if (h >= a.hi && h <= m) { linTo(s, e->a, sign, l, depth - 1); linTo(s, e->b, sign, l, depth - 1); return; }
      if (isC(e->b)) { u64 c = (0 - e->b->c) & m; if (a.lo >= c) { linTo(s, e->a, sign, l, depth - 1); l.c -= (__int128)sign * (__int128)c; return; } }
      break; }
    case K_SUB: { Rng a = rangeOf(s, e->a), b = rangeOf(s, e->b); if (a.lo >= b.hi) { linTo(s, e->a, sign, l, depth - 1); linTo(s, e->b, -sign, l, depth - 1); return; } break; }
    default: break; }
  for (auto& p : l.t) if (p.first == e) { p.second += sign; return; }
  l.t.push_back({ e, sign }); }
// bounds of x - y as integers
static void diffRange(State* s, Expr* x, Expr* y, __int128& lo, __int128& hi) {
  Lin l; linTo(s, x, 1, l, 16); linTo(s, y, -1, l, 16); lo = hi = l.c;
  for (auto& p : l.t) { if (!p.second) continue; Rng r = rangeOf(s, p.first); __int128 a = (__int128)r.lo * p.second, b = (__int128)r.hi * p.second; lo += std::min(a, b); hi += std::max(a, b); } }
static int aliasCmpS(State* s, Expr* x, Expr* y) {
  int r = aliasCmp(x, y); if (r >= 0 || s->bnd.empty()) return r;
  __int128 lo, hi; diffRange(s, x, y, lo, hi); if (lo > 0 || hi < 0) return 0; if (lo == 0 && hi == 0) return 1; return -1; }
// a comparison decided by ranges alone: 1 true, 0 false, -1 open
static int rangeDecide(State* s, Expr* c) {
  if (c->w != 1 || s->bnd.empty()) return -1;
  if (c->k == K_XOR && isTrue(c->b)) { int r = rangeDecide(s, c->a); return r < 0 ? r : !r; }
  if (c->k == K_AND) { int a = rangeDecide(s, c->a); if (a == 0) return 0; int b = rangeDecide(s, c->b); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
  if (c->k == K_OR) { int a = rangeDecide(s, c->a); if (a == 1) return 1; int b = rangeDecide(s, c->b); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
  if (c->k != K_EQ && c->k != K_ULT && c->k != K_ULE && c->k != K_SLT && c->k != K_SLE) return -1;
  if (c->a->w == 1 || c->a->hasFP || c->b->hasFP) return -1;
  if (c->k == K_SLT || c->k == K_SLE) { u64 h = maskw(c->a->w) >> 1; Rng a = rangeOf(s, c->a), b = rangeOf(s, c->b);
    if (a.hi > h || b.hi > h) { if (a.lo > h && b.hi <= h) return 1; if (b.lo > h && a.hi <= h) return 0; return -1; } }
  __int128 lo, hi; diffRange(s, c->a, c->b, lo, hi);
  if (c->k == K_EQ) { if (lo > 0 || hi < 0) return 0; return lo == 0 && hi == 0 ? 1 : -1; }
  bool strict = c->k == K_ULT || c->k == K_SLT;
  if (strict ? hi < 0 : hi <= 0) return 1; if (strict ? lo >= 0 : lo > 0) return 0; return -1; }
// read with the updates that cannot alias (under the path condition) left out
static Expr* subst(State* s, Expr* e);
static Expr* readS(State* s, Upd* ul, Expr* idx) {
  if (s->bnd.empty() || !ul->idx) return mkRead(ul, idx);
  if (ul->hasRange) {
    std::vector<std::pair<Expr*, Expr*>> alts; Expr* base = nullptr;
    while (true) {
      if (!ul->hasRange) { base = readS(s, ul, idx); break; }
      if (ul->rn) {
        Expr* dl = mkBin(K_SUB, idx, ul->idx); Expr* c = mkBin(K_ULT, dl, ul->rn); __int128 lo, hi; diffRange(s, idx, ul->idx, lo, hi);
        bool out = isFalse(c) || hi < 0, in = isTrue(c);
        if (!out && !in) { Rng rn = rangeOf(s, ul->rn); if (lo >= (__int128)rn.hi && lo >= 0) out = true; else if (lo >= 0 && hi < (__int128)rn.lo) in = true; else { c = subst(s, c); if (isTrue(c)) in = true; else if (isFalse(c)) out = true; } }
        if (!out) { Expr* v = ul->rs ? readS(s, ul->rs, mkBin(K_ADD, dl, ul->ro)) : ul->val; if (in) { base = v; break; } alts.push_back({ c, v }); }
      } else { int r = aliasCmpS(s, ul->idx, idx); if (r == 1) { base = ul->val; break; } if (r < 0) alts.push_back({ mkBin(K_EQ, idx, ul->idx), ul->val }); }
      ul = ul->next; }
    for (size_t i = alts.size(); i-- > 0;) base = mkIte(alts[i].first, alts[i].second, base);
    return base; }
  std::vector<Upd*> keep; Upd* u = ul; bool dropped = false; int n = 0;
  while (u->idx && n++ < 600) { int r = aliasCmpS(s, u->idx, idx); if (r == 1) { if (keep.empty()) return u->val; break; } if (r < 0) keep.push_back(u); else dropped = true; u = u->next; }
  if (!dropped) return mkRead(ul, idx);
  if (u->idx && n <= 600) { Upd* b = mkUpd(mkRoot(u->root), idx, u->val); u = b; }   // certain hit: what lies below does not matter
  for (size_t i = keep.size(); i-- > 0;) u = mkUpd(u, keep[i]->idx, keep[i]->val);
  return mkRead(u, idx); }
// ------------------------------------------------------------------ constraints
static void eqAdd(State* s, Expr* k, Expr* v) { if (isC(k)) return; s->eq[k] = v; std::vector<u64> r; std::set_union(s->eqSup.begin(), s->eqSup.end(), k->sup->begin(), k->sup->end(), std::back_inserter(r)); s->eqSup.swap(r); s->memo.clear(); }
static void addCons(State* s, Expr* c) {
  if (isTrue(c)) return;
  if (c->k == K_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  if (c->k == K_XOR && isTrue(c->b) && c->a->k == K_OR) { addCons(s, mkNot1(c->a->a)); addCons(s, mkNot1(c->a->b)); return; }
  for (Expr* x : s->cons) if (x == c) return;
  s->cons.push_back(c); bndLearn(s, c);
  if (c->k == K_EQ && isC(c->b)) eqAdd(s, c->a, c->b);
  else if (c->k == K_XOR && isTrue(c->b)) eqAdd(s, c->a, mkConst(0, 1));
  else eqAdd(s, c, mkConst(1, 1));
}
// c is implied by the path condition: remember it for simplification, it needs no solver constraint
static void addFact(State* s, Expr* c) {
  if (isC(c)) return;
  bndLearn(s, c);
  if (c->k == K_EQ && isC(c->b)) eqAdd(s, c->a, c->b);
  else if (c->k == K_XOR && isTrue(c->b)) eqAdd(s, c->a, mkConst(0, 1));
  else eqAdd(s, c, mkConst(1, 1)); }
static Expr* subst(State* s, Expr* e);
static Expr* substRec(State* s, Expr* e) {
  if (isC(e)) return e;
  { // quick support test
    const auto& a = *e->sup; const auto& b = s->eqSup; bool hit = false; size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) { hit = true; break; } if (a[i] < b[j]) i++; else j++; } if (!hit) return e; }
  auto it = s->eq.find(e); if (it != s->eq.end()) return it->second;
  auto im = s->memo.find(e); if (im != s->memo.end()) return im->second;
  Expr* r = e;
  if (e->k == K_READ) {
    Expr* idx = substRec(s, e->a); Upd* ul = e->ul; bool done = false;
    while (ul->idx) { Expr* ui = substRec(s, ul->idx); int a = aliasCmpS(s, ui, idx); if (a == 1) { r = substRec(s, ul->val); done = true; break; } if (a == 0) { ul = ul->next; continue; } break; }
    if (!done) { r = readS(s, ul, idx); auto i2 = s->eq.find(r); if (i2 != s->eq.end()) r = i2->second; }
  } else if (e->k != K_VAR) {
    Expr *a = e->a ? substRec(s, e->a) : nullptr, *b = nullptr, *d = nullptr;
    if (e->k == K_ITE && isC(a)) r = substRec(s, a->c ? e->b : e->d);
    else { b = e->b ? substRec(s, e->b) : nullptr; d = e->d ? substRec(s, e->d) : nullptr;
      if (a != e->a || b != e->b || d != e->d) { r = rebuild(e, a, b, d); auto i2 = s->eq.find(r); if (i2 != s->eq.end()) r = i2->second; } }
  }
  s->memo[e] = r; return r; }
static Expr* subst(State* s, Expr* e) { if (s->eq.empty() || isC(e)) return e; return substRec(s, e); }
static Res query(State* s, Expr* c, ModelP* m) { Res r = solve(s->cons, c, s->model, m); if (r == R_UNKNOWN) { g_unknownForks++; g_incomplete = true; } return r; }
// may c be true? fills model
static bool mayBeTrue(State* s, Expr* c, ModelP* m);
// verdicts on assertions are Z3's; on memory accesses and traps a share of those decided on value tables is Z3's too
static bool z3May(State* s, Expr* c, ModelP* m) { g_domain = false; bool r = mayBeTrue(s, c, m); g_domain = true; return r; }
static bool accMay(State* s, Expr* c, ModelP* m) { u64 h = g_domainHits; bool r = mayBeTrue(s, c, m); if (g_domainHits == h || !auditDue()) return r; double b = g_ss.time;
  u64 u = g_unknownForks; bool inc = g_incomplete, z; g_auditing = true; z = z3May(s, c, nullptr); g_auditing = false; auditTook(g_ss.time - b); if (g_unknownForks != u) { g_unknownForks = u; g_incomplete = inc; g_ss.unknown--; return r; } if (z != r) { fprintf(stderr, "INTERNAL: value table and Z3 disagree\n"); abort(); } return r; }
static bool mayBeTrue(State* s, Expr* c, ModelP* m) {
  c = subst(s, c); if (isTrue(c)) { if (m) *m = s->model; return true; } if (isFalse(c)) return false;
  { int d = rangeDecide(s, c); if (d == 0) return false; if (d == 1) { if (m) *m = s->model; return true; } }
  if (evalExpr(c, *s->model)) { if (m) *m = s->model; return true; }
  ModelP t; Res r = query(s, c, &t); if (r == R_SAT && m) *m = t; return r == R_SAT; }
static void assume(State* s, Expr* c, ModelP m) { addCons(s, c); s->model = m; }
// an assertion that Z3 does not settle at once is put to it again for each value of one of the input bytes
static bool checkMay(State* s, Expr* c, ModelP* m) {
  std::vector<u64> vals; Expr* key = nullptr;
  for (u64 k : *c->sup) if ((k >> 63) && g_varW[(u32)k] <= 8) { std::vector<u64> v; Expr* e = mkVar((u32)k, g_varW[(u32)k]); if (tableValues(s->cons, e, s->model, 64, v) && v.size() > 1 && (!key || v.size() < vals.size())) { key = e; vals = v; } }
  if (!key) return z3May(s, c, m);
  unsigned t0 = g_timeoutMs; u64 u = g_unknownForks; bool inc = g_incomplete; g_timeoutMs = std::min(t0, 2000u); bool r = z3May(s, c, m); g_timeoutMs = t0; if (g_unknownForks == u) return r;
  g_unknownForks = u; g_incomplete = inc; g_ss.unknown--; bool may = false;
  for (u64 v : vals) { Expr* is = mkBin(K_EQ, key, mkConst(v, key->w)); ModelP mm; if (!mayBeTrue(s, is, &mm)) continue;
    State* t = cloneState(s); assume(t, is, mm); Expr* cc = subst(t, c); may = !isFalse(cc) && checkMay(t, cc, m); freeState(t); if (may) break; }
  return may; }

// ------------------------------------------------------------------ object access
static Obj* wobj(State* s, u32 id) { Obj* o = s->mem[id]; if (o->rc > 1) { o->rc--; o = objClone(o); o->rc = 1; s->mem[id] = o; } return o; }
static Page* wpage(Obj* o, u64 pi) { if (pi >= o->pages.size()) o->pages.resize(pi + 1, nullptr); Page*& p = o->pages[pi]; if (!p) p = pageNew(); else if (p->rc > 1) { p->rc--; p = pageClone(p); } return p; }
static Expr* defByte(Obj* o, u32 off) { return mkRead(o->ul ? o->ul : mkRoot(o->root), mkConst(off, 32)); }
static inline Val rdByte(Obj* o, u64 off) {
  u64 pi = off >> 8; if (pi < o->pages.size() && o->pages[pi]) { Page* p = o->pages[pi]; u8 st = p->st[off & 255] & 3; if (st == 1) return VC(p->conc[off & 255]); if (st == 2) return Val{ p->sym[off & 255], 0 }; }
  if (!o->ul && o->root == g_zeroArr) return VC(0);
  return VE(defByte(o, off)); }
static inline void wrByte(Obj* o, u64 off, Val v) {
  Page* p = wpage(o, off >> 8); unsigned i = off & 255; o->dirtyAny = true;
  if (!v.e) { p->st[i] = 1 | 4; p->conc[i] = (u8)v.c; } else { if (!p->sym) p->sym = (Expr**)calloc(256, sizeof(Expr*)); p->sym[i] = v.e; p->st[i] = 2 | 4; } }
static std::map<std::pair<std::vector<u8>, u8>, Array*> g_snap;
// an object that is mostly a copy of a symbolic array: make that array its root
static void rebase(Obj* o) {
  if (o->ul || o->symSize || o->size > 1000000) return;
  std::unordered_map<Array*, u32> n; Array* best = nullptr;
  for (size_t pi = 0; pi < o->pages.size(); pi++) if (Page* p = o->pages[pi]) if (p->sym) for (unsigned i = 0; i < 256; i++) if ((p->st[i] & 3) == 2) { Expr* e = p->sym[i]; if (e->k == K_READ && !e->ul->idx && !e->ul->root->isConst && isC(e->a) && e->a->c == pi * 256 + i) { Array* A = e->ul->root; if (++n[A] >= 48 && (!best || n[A] > n[best])) best = A; } }
  if (!best || best == o->root || o->size - n[best] > 8192) return;
  Array* old = o->root; Upd* oldr = mkRoot(old); Upd* ul = mkRoot(best);
  for (u64 off = 0; off < o->size; off++) {
    Page* p = (off >> 8) < o->pages.size() ? o->pages[off >> 8] : nullptr; unsigned i = off & 255, st = p ? p->st[i] & 3 : 0;
    Expr* v = st == 1 ? mkConst(p->conc[i], 8) : st == 2 ? p->sym[i] : mkRead(oldr, mkConst(off, 32));
    if (v->k == K_READ && !v->ul->idx && v->ul->root == best && isC(v->a) && v->a->c == off) continue;
    ul = mkUpd(ul, mkConst(off, 32), v); }
  o->root = best; o->ul = ul; for (size_t pi = 0; pi < o->pages.size(); pi++) if (o->pages[pi]) { Page* p = wpage(o, pi); for (unsigned i = 0; i < 256; i++) p->st[i] &= 3; }
  o->dirtyAny = false; }
static void flushObj(Obj* o, bool keep) {
  rebase(o);
  if (o->dirtyAny || !o->ul) {
    if (!o->ul && o->root->isConst) {
      std::vector<u8> bytes(o->root->bytes); std::vector<std::pair<u32, Expr*>> syms;
      for (size_t pi = 0; pi < o->pages.size(); pi++) if (Page* p = o->pages[pi]) for (unsigned i = 0; i < 256; i++) { u32 off = pi * 256 + i; if ((p->st[i] & 3) == 1) { if (bytes.size() <= off) bytes.resize(off + 1, o->root->fill); bytes[off] = p->conc[i]; } else if ((p->st[i] & 3) == 2) syms.push_back({ off, p->sym[i] }); }
      while (!bytes.empty() && bytes.back() == o->root->fill) bytes.pop_back();
      auto key = std::make_pair(bytes, o->root->fill); auto it = g_snap.find(key); Array* A;
      if (it != g_snap.end()) A = it->second; else { A = newArray("snap", true); A->fill = o->root->fill; A->bytes = bytes; g_snap[key] = A; }
      o->root = A; o->ul = mkRoot(A); for (auto& x : syms) o->ul = mkUpd(o->ul, mkConst(x.first, 32), x.second);
    } else {
      if (!o->ul) o->ul = mkRoot(o->root);
      for (size_t pi = 0; pi < o->pages.size(); pi++) if (Page* p = o->pages[pi]) for (unsigned i = 0; i < 256; i++) if (p->st[i] & 4) { u32 off = pi * 256 + i; o->ul = mkUpd(o->ul, mkConst(off, 32), (p->st[i] & 3) == 1 ? mkConst(p->conc[i], 8) : p->sym[i]); }
    }
    for (size_t pi = 0; pi < o->pages.size(); pi++) if (o->pages[pi]) { bool any = false; for (unsigned i = 0; i < 256; i++) any |= (o->pages[pi]->st[i] & 4) != 0; if (any) { Page* p = wpage(o, pi); for (unsigned i = 0; i < 256; i++) p->st[i] &= 3; } }
    o->dirtyAny = false;
  }
  if (!keep) { for (Page* p : o->pages) pageRel(p); o->pages.clear(); }
}
static void dropRange(Obj* o, u64 lo, u64 hi) { // invalidate cached bytes in [lo,hi]
  for (size_t pi = lo >> 8; pi < o->pages.size() && pi <= (hi >> 8); pi++) if (o->pages[pi]) { if (pi * 256 >= lo && pi * 256 + 255 <= hi) { pageRel(o->pages[pi]); o->pages[pi] = nullptr; } else { Page* p = wpage(o, pi); for (unsigned i = 0; i < 256; i++) { u64 off = pi * 256 + i; if (off >= lo && off <= hi) p->st[i] = 0; } } } }

struct Term { };   // thrown to end the current path
struct Retry { };  // thrown to re-execute the current instruction

struct Acc { u32 id; bool conc; u64 off; Expr* offE; };   // resolved access
static void pushState(State* s) { g_work.push_back(s); g_forks++; }
static Expr* slotOf(Expr* addr) { return mkExtract(addr, SLOT, 64 - SLOT); }

// With --split-index: the table index a value was looked up with (innermost), or null.
static bool g_splitIdx, g_splitStore;
static Expr* coreOf(Expr* e) {
  std::vector<Expr*> st{ e }; std::unordered_set<Expr*> seen;
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!x || isC(x) || !seen.insert(x).second) continue;
    if (x->k == K_READ) { Upd* r = x->ul; while (r->idx) r = r->next;
      if (r->root->isConst && !isC(x->a)) { Expr* i = x->a;
        while (true) {
          if ((i->k == K_ADD || i->k == K_SUB || i->k == K_SHL || i->k == K_MUL || i->k == K_AND || i->k == K_OR) && isC(i->b)) i = i->a;
          else if (i->k == K_ZEXT || i->k == K_SEXT) i = i->a;
          else if (i->k == K_EXTRACT && i->c == 0 && i->a->umax <= i->umax) i = i->a;
          else if (i->k == K_CONCAT && isC(i->b)) i = i->a;
          else if (i->k == K_CONCAT && isC(i->a)) i = i->b;
          else break; }
        Expr* c = coreOf(i); return c ? c : i; }
      continue; }
    st.push_back(x->a); st.push_back(x->b); st.push_back(x->d); }
  return nullptr; }
// Enumerate feasible values of e (forks other values, to re-execute this instruction); the current state takes one value.
static u64 concretize(State* s, Expr* e, const char* why) {
  e = subst(s, e); if (isC(e)) return e->c;
  if (g_splitIdx) while (Expr* core = coreOf(e)) { if (core == e) break; concretize(s, core, "table index"); e = subst(s, e); if (isC(e)) return e->c; if (coreOf(e) == core) break; }
  u64 first = evalExpr(e, *s->model); int n = 1;
  std::vector<std::pair<u64, ModelP>> vals; Res er = R_UNKNOWN;
  if (!e->hasFP || e->sup->size() <= 4) er = enumValues(s->cons, e, s->model, g_concMax, std::max(1.0, g_maxTime - elapsed()), vals);
  Expr* excl = mkNot1(mkBin(K_EQ, e, mkConst(first, e->w)));
  for (auto& v : vals) { Expr* c = mkBin(K_EQ, e, mkConst(v.first, e->w)); State* t = cloneState(s); assume(t, c, v.second); pushState(t); n++; excl = mkBin(K_AND, excl, mkNot1(c)); }
  while (er != R_UNSAT) {
    if (n > g_concMax || elapsed() > g_maxTime) { g_notes[std::string("concretization limit: ") + why + " at " + locOf(s)]++; g_incomplete = true; break; }
    ModelP m; if (!mayBeTrue(s, excl, &m)) break;
    u64 v = evalExpr(e, *m); Expr* c = mkBin(K_EQ, e, mkConst(v, e->w));
    State* t = cloneState(s); assume(t, c, m); pushState(t); n++;
    excl = mkBin(K_AND, excl, mkNot1(c));
  }
  if (getenv("QSYM_CONC")) fprintf(stderr, "conc %s n=%d at %s: %s\n", why, n, locOf(s).c_str(), exprStr(e, 4).substr(0, 300).c_str());
  addCons(s, mkBin(K_EQ, e, mkConst(first, e->w)));
  return first;
}
static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static Acc resolve(State* s, Val a, u64 n, bool write, bool bytesMatter = true) {
  if (a.e) { Expr* e = subst(s, a.e); a = VE(e); }
  const char* rw = write ? "write" : "read";
  if (!a.e) {
    u64 slot = a.c >> SLOT; i64 off = (i64)(a.c & ((1ull << SLOT) - 1)) - (i64)(addrOf((u32)slot - 1) & ((1ull << SLOT) - 1));
    if (slot == 0 || slot - 1 >= s->mem.size() || !s->mem[slot - 1]) { report(s, a.c < 65536 ? "null" : "wild", std::string(rw) + " through " + (a.c < 65536 ? "null" : "invalid") + " pointer", s->model); throw Term(); }
    Obj* o = s->mem[slot - 1];
    if (!o->alive) { report(s, "use-after-free", std::string(rw) + " of dead object " + o->name, s->model); throw Term(); }
    if (o->kind == O_FUNC || o->kind == O_BLOCK) { report(s, "wild", std::string(rw) + " of code", s->model); throw Term(); }
    if (o->symSize) { // symbolic size
      if (off < 0) { report(s, "oob", std::string(rw) + " before object " + o->name, s->model); throw Term(); }
      Expr* in = mkBin(K_ULE, mkConst(off + n, 64), o->symSize); ModelP m;
      if (accMay(s, mkNot1(in), &m)) { report(s, "oob", std::string(rw) + " of " + std::to_string(n) + " bytes outside object " + o->name, m); ModelP m2; if (!mayBeTrue(s, in, &m2)) throw Term(); assume(s, in, m2); }
    } else if (off < 0 || (u64)off + n > o->size) { if (n) { report(s, "oob", std::string(rw) + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of object " + o->name + " (size " + std::to_string(o->size) + ")", s->model); throw Term(); } }
    if (write && o->ro) { report(s, "readonly", "write to read-only object " + std::string(o->name), s->model); throw Term(); }
    return Acc{ (u32)(slot - 1), true, (u64)off, nullptr };
  }
  Expr* e = a.e; u64 v = evalExpr(e, *s->model); u64 slot = v >> SLOT;
  Expr* inSlot = mkBin(K_EQ, slotOf(e), mkConst(slot, 64 - SLOT)); 
  // cheap: e == base + small
  { u64 lo = slot << SLOT; Expr* d = mkBin(K_SUB, e, mkConst(lo, 64)); if (d->umax < (1ull << SLOT)) inSlot = mkConst(1, 1); }
  inSlot = subst(s, inSlot);
  if (!isTrue(inSlot) && slot && slot - 1 < s->mem.size() && s->mem[slot - 1]) { Obj* o = s->mem[slot - 1]; // one query settles the usual case
    if (o->alive && !o->symSize && o->kind != O_FUNC && o->kind != O_BLOCK && o->size >= n && !(write && o->ro)) {
      Expr* off = mkBin(K_SUB, e, mkConst(addrOf(slot - 1), 64)); Expr* in = subst(s, mkBin(K_ULE, off, mkConst(o->size - n, 64)));
      if (isTrue(in) || !accMay(s, mkNot1(in), nullptr)) { addFact(s, in); off = subst(s, off); if (isC(off)) return Acc{ (u32)(slot - 1), true, off->c, nullptr }; if (g_splitStore && bytesMatter && (write || n == 8)) return Acc{ (u32)(slot - 1), true, concretize(s, off, "store index"), nullptr }; return Acc{ (u32)(slot - 1), false, 0, mkExtract(off, 0, 32) }; } } }
  if (!isTrue(inSlot)) { ModelP m; if (mayBeTrue(s, mkNot1(inSlot), &m)) { State* t = cloneState(s); assume(t, mkNot1(inSlot), m); pushState(t); addCons(s, inSlot); } else addFact(s, inSlot); }
  if (slot == 0 || slot - 1 >= s->mem.size() || !s->mem[slot - 1]) { report(s, slot == 0 && v < 65536 ? "null" : "wild", std::string(rw) + " through " + (v < 65536 ? "null" : "invalid") + " pointer", s->model); throw Term(); }
  Obj* o = s->mem[slot - 1];
  if (!o->alive) { report(s, "use-after-free", std::string(rw) + " of dead object " + o->name, s->model); throw Term(); }
  if (o->kind == O_FUNC || o->kind == O_BLOCK) { report(s, "wild", std::string(rw) + " of code", s->model); throw Term(); }
  Expr* off = mkBin(K_SUB, e, mkConst(addrOf(slot - 1), 64));
  Expr* in;
  if (o->symSize) in = mkBin(K_AND, mkBin(K_ULE, off, mkBin(K_SUB, o->symSize, mkConst(n, 64))), mkBin(K_ULE, mkConst(n, 64), o->symSize));
  else in = o->size < n ? mkConst(0, 1) : mkBin(K_ULE, off, mkConst(o->size - n, 64));
  in = subst(s, in);
  if (!isTrue(in)) { ModelP m; if (accMay(s, mkNot1(in), &m)) { i64 bo = (i64)evalExpr(off, *m); (void)bo; report(s, "oob", std::string(rw) + " of " + std::to_string(n) + " bytes outside object " + o->name, m); ModelP m2; if (!mayBeTrue(s, in, &m2)) throw Term(); assume(s, in, m2); } 
    else addFact(s, in); }
  if (write && o->ro) { report(s, "readonly", "write to read-only object " + std::string(o->name), s->model); throw Term(); }
  off = subst(s, off);
  if (!isC(off) && g_splitStore && bytesMatter && (write || n == 8)) return Acc{ (u32)(slot - 1), true, concretize(s, off, "store index"), nullptr };
  if (isC(off)) return Acc{ (u32)(slot - 1), true, off->c, nullptr };
  return Acc{ (u32)(slot - 1), false, 0, mkExtract(off, 0, 32) };
}
static Val readAt(State* s, const Acc& a, u64 d, unsigned w) { // read value of width w bits at a+d
  unsigned n = (w + 7) / 8; Obj* o = s->mem[a.id];
  if (a.conc) {
    u64 off = a.off + d; 
    u64 pi = off >> 8;
    if ((off & 255) + n <= 256 && pi < o->pages.size() && o->pages[pi]) { Page* p = o->pages[pi]; unsigned i = off & 255; bool all = true; for (unsigned k = 0; k < n; k++) all &= (p->st[i + k] & 3) == 1; if (all) { u64 v = 0; memcpy(&v, p->conc + i, n); return VC(v & maskw(w)); } }
    Val b[8]; bool sym = false; for (unsigned k = 0; k < n; k++) { b[k] = rdByte(o, off + k); if (b[k].e && b[k].e->k == K_READ) { Expr* x = readS(s, b[k].e->ul, b[k].e->a); b[k] = isC(x) ? VC(x->c) : VE(x); } sym |= b[k].e != nullptr; }
    if (!sym) { u64 v = 0; for (unsigned k = 0; k < n; k++) v |= b[k].c << (8 * k); return VC(v & maskw(w)); }
    Expr* r = X(b[0], 8); for (unsigned k = 1; k < n; k++) r = mkConcat(X(b[k], 8), r);
    return VE(mkExtract(r, 0, w));
  }
  if (!g_splitIdx) { // a table lookup with few possible indices: no array term, and none of the index where it does not matter
    std::vector<u64> offs; bool ok = tableValues(s->cons, a.offE, s->model, 64, offs);
    if (ok) { std::vector<std::pair<u64, Expr*>> alt; // value, condition
      for (u64 off : offs) { u64 v = 0; off += d; for (unsigned k = 0; k < n && ok; k++) { if (off + k >= o->size) { ok = false; break; } Val b = rdByte(o, off + k); if (b.e && b.e->k == K_READ) { Expr* x = readS(s, b.e->ul, b.e->a); b = isC(x) ? VC(x->c) : VE(x); } if (b.e) ok = false; else v |= b.c << (8 * k); } if (!ok) break; v &= maskw(w);
        Expr* c = mkBin(K_EQ, a.offE, mkConst(off - d, 32)); auto it = std::find_if(alt.begin(), alt.end(), [&](auto& p) { return p.first == v; }); if (it == alt.end()) alt.push_back({ v, c }); else it->second = mkBin(K_OR, it->second, c); }
      if (ok && alt.size() == 1) return VC(alt[0].first);
      if (ok && alt.size() <= 16) { Expr* r = mkConst(alt.back().first, w); for (size_t i = alt.size() - 1; i-- > 0;) r = mkIte(alt[i].second, mkConst(alt[i].first, w), r); return VE(r); } } }
  if (o->dirtyAny || !o->ul) { o = wobj(s, a.id); flushObj(o, true); }
  Expr* r = nullptr; for (unsigned k = 0; k < n; k++) { Expr* bt = readS(s, o->ul, mkBin(K_ADD, a.offE, mkConst(d + k, 32))); r = r ? mkConcat(bt, r) : bt; }
  return VE(mkExtract(r, 0, w)); }
static void writeAt(State* s, const Acc& a, u64 d, Val v, unsigned w) {
  unsigned n = (w + 7) / 8; Obj* o = wobj(s, a.id);
  if (w % 8) { if (v.e) v.e = mkZext(v.e, n * 8); w = n * 8; }
  if (a.conc) { for (unsigned k = 0; k < n; k++) wrByte(o, a.off + d + k, v.e ? VE(mkExtract(v.e, 8 * k, 8)) : VC((v.c >> (8 * k)) & 255)); return; }
  flushObj(o, true);
  for (unsigned k = 0; k < n; k++) o->ul = mkUpd(o->ul, mkBin(K_ADD, a.offE, mkConst(d + k, 32)), v.e ? mkExtract(v.e, 8 * k, 8) : mkConst(v.c >> (8 * k), 8));
  Rng orr = rangeOf(s, a.offE); u64 lo = orr.lo + d, hi = orr.hi + d + n - 1; if (hi < lo || hi > 0xffffffffull) { lo = 0; hi = 0xffffffff; }
  dropRange(o, lo, hi); }
static u32 newObj(State* s, u64 size, OKind k, const char* name, Array* root) {
  u32 id; if (s->freeIds.size() > 2048) { id = s->freeIds.front(); s->freeIds.pop_front(); objRel(s->mem[id]); } else { id = s->mem.size(); s->mem.push_back(nullptr); }
  s->mem[id] = objNew(id, size, k, name, root); return id; }
static void killObj(State* s, u32 id) { Obj* o = s->mem[id]; Obj* d = objNew(id, o->size, o->kind, o->name, g_zeroArr); d->alive = false; objRel(o); s->mem[id] = d; s->freeIds.push_back(id); }
static Array* uninitArr() { static u64 n = 0; Array* a = newArray("uninit" + std::to_string(n++), false); a->uninit = true; return a; }

// ------------------------------------------------------------------ values
static inline Val get(State* s, Frame& f, const Opnd& o, unsigned w) {
  if (o.slot >= 0) return f.regs[o.slot];
  if (o.undef) { if (!w) w = 64; return VE(mkVar(newVarId("undef"), w)); }
  return VC(o.c); }
static std::string cstr(State* s, Val a) { std::string r; if (a.e) return "?"; for (int i = 0; i < 400; i++) { Acc c = resolve(s, VC(a.c + i), 1, false); Val v = readAt(s, c, 0, 8); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }

static void endPath(State* s, const char* how) { (void)how;
  for (auto& l : s->reached) g_reach[l]++;
  if (!s->syms.empty() && !s->overapprox) { g_sampleSeen++; if ((int)g_samples.size() < g_maxSamples) g_samples.push_back(inputsOf(s, *s->model)); else { u64 k = rnd() % g_sampleSeen; if (k < (u64)g_maxSamples) g_samples[k] = inputsOf(s, *s->model); } } }

static void takeEdge(State* s, Frame& f, int ei) {
  Edge& e = f.f->edges[ei];
  if (e.moves.size() == 1) f.regs[e.moves[0].first] = get(s, f, e.moves[0].second, e.mw[0]);
  else if (!e.moves.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); } for (size_t i = 0; i < e.moves.size(); i++) t[i] = get(s, f, e.moves[i].second, e.mw[i]); for (size_t i = 0; i < e.moves.size(); i++) f.regs[e.moves[i].first] = t[i]; }
  f.pc = e.target; }
// fork on a boolean; returns the value the current state continues with
static bool forkOn(State* s, Expr* c, State** other) {
  *other = nullptr; c = subst(s, c); if (isC(c)) return c->c;
  bool v = evalExpr(c, *s->model); Expr* neg = mkNot1(c); ModelP m; Res r = query(s, v ? neg : c, &m);
  if (r == R_SAT) { State* t = cloneState(s); assume(t, v ? neg : c, m); *other = t; }
  if (r != R_UNSAT || 1) { if (r == R_SAT || r == R_UNKNOWN) addCons(s, v ? c : neg); else { /* implied */ eqAdd(s, c, mkConst(v, 1)); } }
  return v; }

static void doRet(State* s, std::vector<Val>& vals) {
  Frame& f = s->st.back(); for (u32 id : f.allocas) killObj(s, id); if (f.vaObj) killObj(s, f.vaObj);
  int dst = f.retDst; unsigned rw = vals.size() == 1 ? tyW(f.f->F->getReturnType()) : 0; s->st.pop_back();
  if (s->st.empty()) { throw Term(); }
  Frame& c = s->st.back();
  if (dst >= 0) { // adjust width if the call site expects another type
    Inst& ci = c.f->code[c.pc - 1]; if (vals.empty()) { for (int i = 0; i < ci.ndst; i++) c.regs[dst + i] = VE(mkVar(newVarId("noret"), ci.w ? ci.w : 64)); return; }
    if (vals.size() == 1 && ci.ndst == 1 && rw && ci.w && rw != ci.w) { Val v = vals[0]; if (v.e) v = VE(mkZext(v.e, ci.w)); else v.c &= maskw(ci.w); c.regs[dst] = v; return; }
    for (size_t i = 0; i < vals.size() && (int)i < ci.ndst; i++) c.regs[dst + i] = vals[i]; } }

// bulk memory helpers --------------------------------------------------------
static Val addV(Val a, u64 k) { return a.e ? VE(mkBin(K_ADD, a.e, mkConst(k, 64))) : VC(a.c + k); }
static u64 availAt(State* s, const Acc& a) { Obj* o = s->mem[a.id]; if (o->symSize) return rangeOf(s, o->symSize).hi; if (a.conc) return o->size - a.off; return o->size; }
// checks [p,p+n) for symbolic n; returns access for the start
static Acc resolveRange(State* s, Val p, Expr* n64, bool write) {
  // n may be 0: then no access. Caller handles n==0 by forking first.
  Acc a = resolve(s, p, 1, write); Obj* o = s->mem[a.id];
  Expr* off = a.conc ? mkConst(a.off, 64) : mkZext(a.offE, 64); Expr* sz = o->symSize ? o->symSize : mkConst(o->size, 64);
  Expr* in = subst(s, mkBin(K_ULE, n64, mkBin(K_SUB, sz, off))); ModelP m;
  if (accMay(s, mkNot1(in), &m)) { report(s, "oob", std::string(write ? "write" : "read") + " of a range outside object " + o->name, m); ModelP m2; if (!mayBeTrue(s, in, &m2)) throw Term(); assume(s, in, m2); } else addFact(s, in);
  return a; }
static void fillWhole(State* s, Obj* o, u8 v) { for (Page* p : o->pages) pageRel(p); o->pages.clear(); o->ul = nullptr; o->dirtyAny = false;
  if (!v) o->root = g_zeroArr; else { static std::map<u8, Array*> M; Array*& A = M[v]; if (!A) { A = newArray("fill", true); A->fill = v; } o->root = A; } }
static Expr* off32(const Acc& a) { return a.conc ? mkConst(a.off, 32) : a.offE; }
static void rangeWrite(State* s, const Acc& a, Expr* n64, const Acc* src, Expr* val8) {
  Upd* su = nullptr; Expr* so = nullptr;
  if (src) { Obj* q = wobj(s, src->id); flushObj(q, true); su = q->ul; so = off32(*src); }
  Obj* o = wobj(s, a.id); flushObj(o, true);
  Expr* d = off32(a); Rng r = rangeOf(s, d), rn = rangeOf(s, n64);
  o->ul = mkRangeUpd(o->ul, d, mkExtract(n64, 0, 32), su, so, val8);
  u64 hi = rn.hi > 0xffffffffull || r.hi + rn.hi > 0xffffffffull ? 0xffffffffull : r.hi + rn.hi; dropRange(o, r.lo, hi); }
static void doMemset(State* s, Val p, Val v, Val n) {
  if (v.e) v = VE(mkExtract(v.e, 0, 8)); else v.c &= 255;
  if (n.e) n = VE(subst(s, n.e));
  if (n.e) {
    ModelP m; Expr* z = mkBin(K_EQ, n.e, mkConst(0, 64)); State* t; bool v0 = forkOn(s, z, &t); if (t) { pushState(t); } if (v0) return;
    n = VE(subst(s, n.e)); if (!n.e) { doMemset(s, p, v, n); return; }
    Acc a = resolveRange(s, p, n.e, true); u64 cap = std::min(availAt(s, a), rangeOf(s, n.e).hi);
    if (a.conc && a.off == 0 && !v.e && s->mem[a.id]->symSize) { Expr* same = subst(s, mkBin(K_EQ, n.e, s->mem[a.id]->symSize)); if (isTrue(same) || rangeDecide(s, same) == 1) { fillWhole(s, wobj(s, a.id), v.c); return; } }
    if (cap <= 16) { for (u64 i = 0; i < cap; i++) { Expr* c = subst(s, mkBin(K_ULT, mkConst(i, 64), n.e)); if (isFalse(c)) break; Val old = readAt(s, a, i, 8); writeAt(s, a, i, VE(mkIte(c, X(v, 8), X(old, 8))), 8); } return; }
    rangeWrite(s, a, n.e, nullptr, X(v, 8)); return; }
  if (n.c == 0) return;
  Acc a = resolve(s, p, n.c, true); Obj* o = wobj(s, a.id);
  if (a.conc && a.off == 0 && !o->symSize && n.c == o->size && !v.e) { fillWhole(s, o, v.c); return; }
  for (u64 i = 0; i < n.c; i++) writeAt(s, a, i, v, 8); }
// memcpy on overlapping ranges is undefined behaviour
static void noOverlap(State* s, const Acc& a, const Acc& b, Expr* n64) {
  if (a.id != b.id) return; Expr *x = mkZext(off32(a), 64), *y = mkZext(off32(b), 64); if (x == y) return;
  Expr* c = mkBin(K_AND, mkNot1(mkBin(K_EQ, x, y)), mkBin(K_OR, mkBin(K_ULT, mkBin(K_SUB, x, y), n64), mkBin(K_ULT, mkBin(K_SUB, y, x), n64))); c = subst(s, c); ModelP m;
  if (!mayBeTrue(s, c, &m)) return;
  report(s, "overlap", "memcpy between overlapping ranges of object " + std::string(s->mem[a.id]->name), m); ModelP m2; if (!mayBeTrue(s, mkNot1(c), &m2)) throw Term(); assume(s, subst(s, mkNot1(c)), m2); }
static void doMemcpy(State* s, Val d, Val sp, Val n, bool move) {
  if (n.e) n = VE(subst(s, n.e));
  if (n.e) {
    Expr* z = mkBin(K_EQ, n.e, mkConst(0, 64)); State* t; bool v0 = forkOn(s, z, &t); if (t) pushState(t); if (v0) return;
    n = VE(subst(s, n.e)); if (!n.e) { doMemcpy(s, d, sp, n, move); return; }
    Acc b = resolveRange(s, sp, n.e, false); Acc a = resolveRange(s, d, n.e, true); if (!move) noOverlap(s, a, b, n.e);
    u64 cap = std::min(std::min(availAt(s, a), availAt(s, b)), rangeOf(s, n.e).hi);
    if (cap <= 16) { std::vector<Val> tmp; std::vector<Expr*> cs; for (u64 i = 0; i < cap; i++) { Expr* c = subst(s, mkBin(K_ULT, mkConst(i, 64), n.e)); if (isFalse(c)) break; cs.push_back(c); tmp.push_back(readAt(s, b, i, 8)); }
      for (u64 i = 0; i < tmp.size(); i++) { Val old = readAt(s, a, i, 8); writeAt(s, a, i, VE(mkIte(cs[i], X(tmp[i], 8), X(old, 8))), 8); } return; }
    rangeWrite(s, a, n.e, &b, nullptr); return; }
  if (n.c == 0) return;
  Acc b = resolve(s, sp, n.c, false); Acc a = resolve(s, d, n.c, true); if (!move) noOverlap(s, a, b, mkConst(n.c, 64));
  if (n.c > 16 && (!a.conc || !b.conc)) { rangeWrite(s, a, mkConst(n.c, 64), &b, nullptr); return; }
  // overlapping memcpy with identical/overlapping ranges behaves like memmove here (glibc memcpy on small n); harnesses state overlap explicitly
  Obj *so = s->mem[b.id];
  if (b.conc && a.conc && b.off == 0 && a.off == 0 && so->size == n.c && s->mem[a.id]->size == n.c && !so->symSize && a.id != b.id) { Obj* o = wobj(s, a.id); for (Page* p : o->pages) pageRel(p); o->pages = so->pages; for (Page* p : o->pages) if (p) p->rc++; o->ul = so->ul; o->root = so->root; o->dirtyAny = so->dirtyAny; return; }
  std::vector<Val> tmp(n.c); for (u64 i = 0; i < n.c; i++) tmp[i] = readAt(s, b, i, 8); for (u64 i = 0; i < n.c; i++) writeAt(s, a, i, tmp[i], 8); }

static FuncInfo* funcByAddr(State* s, u64 a) { u64 slot = a >> SLOT; if (slot == 0 || slot - 1 >= s->mem.size()) return nullptr; Obj* o = s->mem[slot - 1]; if (!o || o->kind != O_FUNC || a != addrOf((u32)slot - 1)) return nullptr; return (FuncInfo*)o->fn; }

static void callFunc(State* s, FuncInfo* fi, Inst& n, std::vector<Val>& args) {
  if (fi->F->isDeclaration()) { report(s, "unsupported", "call of external function " + fi->name, s->model); g_incomplete = true; throw Term(); }
  if (!fi->decoded) decode(fi); fi->execCount++;
  if (s->st.size() > 3000) { report(s, "stack-overflow", "host recursion deeper than 3000 frames", s->model); throw Term(); }
  s->st.back().pc++;
  s->st.emplace_back(); Frame& f = s->st.back(); f.f = fi; f.pc = 0; f.retDst = n.dst; f.regs.resize(fi->nslots); f.vaObj = 0;
  size_t na = fi->argSlot.size();
  for (size_t i = 0; i < na; i++) {
    unsigned w = fi->argW[i];
    if (i >= args.size()) { f.regs[fi->argSlot[i]] = VE(mkVar(newVarId("noarg"), w ? w : 64)); continue; }
    Val v = args[i]; unsigned aw = n.ow[i]; if (aw != w) { if (v.e) v = VE(mkZext(v.e, w)); else v.c &= maskw(w); }
    if (fi->argByval[i]) { u64 sz = fi->argByval[i]; u32 id = newObj(s, sz, O_STACK, "byval", uninitArr()); Acc a{ id, true, 0, nullptr }; Acc b = resolve(s, v, sz, false); for (u64 k = 0; k < sz; k++) { Val x = readAt(s, b, k, 8); writeAt(s, a, k, x, 8); } f.allocas.push_back(id); v = VC(addrOf(id)); }
    f.regs[fi->argSlot[i]] = v; }
  if (fi->isVarArg) {
    u64 extra = args.size() > na ? args.size() - na : 0; u64 sz = 0; for (size_t i = na; i < args.size(); i++) sz += n.aux[i] ? (n.aux[i] + 7) / 8 * 8 : 8;
    u32 id = newObj(s, sz + 128, O_STACK, "varargs", uninitArr()); u64 off = 0; (void)extra;
    for (size_t i = na; i < args.size(); i++) { Acc a{ id, true, off, nullptr }; if (n.aux[i]) { Acc b = resolve(s, args[i], n.aux[i], false); for (u64 k = 0; k < n.aux[i]; k++) { Val x = readAt(s, b, k, 8); writeAt(s, a, k, x, 8); } off += (n.aux[i] + 7) / 8 * 8; } else { writeAt(s, a, 0, args[i], n.ow[i]); if (n.ow[i] < 64) { Acc h{ id, true, off + n.ow[i] / 8, nullptr }; writeAt(s, h, 0, VC(0), 64 - n.ow[i]); } off += 8; } }
    s->st.back().vaObj = id; }
}

static void setDst(State* s, Inst& n, Val v) { if (n.dst >= 0) s->st.back().regs[n.dst] = v; }
static void doBuiltin(State* s, Inst& n, std::vector<Val>& a) {
  Frame& f = s->st.back();
  auto next = [&]() { s->st.back().pc++; };
  switch (n.builtin) {
  case B_MAKE_SYM: { // (ptr, n, name)
    u64 sz = concretize(s, X(a[1], n.ow[1]), "symbolic size"); std::string nm = cstr(s, a[2]); int cnt = s->symCount[nm]++; if (cnt) nm += "#" + std::to_string(cnt);
    if (!sz) { next(); return; }
    static std::map<std::string, u32> varByName; static std::map<std::string, Array*> arrByName; // same creation order/name => same variable
    Acc c = resolve(s, a[0], sz, true); if (!c.conc) { report(s, "unsupported", "qs_make_symbolic at symbolic address", s->model); throw Term(); }
    std::string key = nm + "/" + std::to_string(sz);
    if (sz == 1 || sz == 2 || sz == 4 || sz == 8) { auto it = varByName.find(key); u32 v; if (it == varByName.end()) { v = newVarId(nm); varByName[key] = v; } else v = it->second; writeAt(s, c, 0, VE(mkVar(v, sz * 8)), sz * 8); s->syms.push_back({ nm, (u32)sz, 0, v }); }
    else { Array*& A = arrByName[key]; if (!A) A = newArray(nm, false); Obj* o = wobj(s, c.id);
      if (c.off == 0 && sz == o->size && !o->symSize) { for (Page* p : o->pages) pageRel(p); o->pages.clear(); o->ul = nullptr; o->root = A; o->dirtyAny = false; }
      else { Upd* r = mkRoot(A); for (u64 i = 0; i < sz; i++) wrByte(o, c.off + i, Val{ mkRead(r, mkConst(i, 32)), 0 }); }
      s->syms.push_back({ nm, (u32)sz, 1, A->id }); }
    next(); return; }
  case B_ASSUME: { Expr* c = X(a[0], n.ow[0]); c = mkNot1(mkBin(K_EQ, c, mkConst(0, c->w))); ModelP m; if (!mayBeTrue(s, c, &m)) { g_pathsAssume++; throw Term(); } c = subst(s, c); assume(s, c, m); next(); return; }
  case B_CHECK: case B_FAIL: { Expr* c = n.builtin == B_FAIL ? mkConst(0, 1) : X(a[0], n.ow[0]); if (n.builtin == B_CHECK) c = mkNot1(mkBin(K_EQ, c, mkConst(0, c->w))); std::string msg = cstr(s, n.builtin == B_FAIL ? a[0] : a[1]); g_reach["check: " + msg]++; ModelP m;
    c = subst(s, c); if (isTrue(c)) { next(); return; }
    // on 'unknown' the check stays undecided
    if (checkMay(s, mkNot1(c), &m)) { report(s, "check", msg, m); ModelP m2; if (!mayBeTrue(s, c, &m2)) throw Term(); assume(s, c, m2); } else addFact(s, c);
    next(); return; }
  case B_REACH: s->reached.push_back(cstr(s, a[0])); next(); return;
  case B_SELECT: { u64 k = concretize(s, X(a[0], n.ow[0]), "select"); std::string nm = cstr(s, a[1]);
    if (!s->hasDup) { for (u64 i = 1; i < k; i++) { State* t = cloneState(s); t->hasDup = true; t->dup = i; pushState(t); } s->hasDup = true; s->dup = 0; }
    int v = s->dup; s->hasDup = false; int cnt = s->symCount[nm]++; if (cnt) nm += "#" + std::to_string(cnt); s->syms.push_back({ nm, 4, 2, (u64)(u32)v }); setDst(s, n, VC((u64)(u32)v)); next(); return; }
  case B_FUEL: s->fuel = (i64)concretize(s, X(a[0], n.ow[0]), "fuel"); if (n.ow[0] == 32) s->fuel = (int)s->fuel; next(); return;
  case B_STOP: endPath(s, "stop"); g_pathsDone++; throw Term();
  case B_CUT: for (auto& l : s->reached) g_reach[l]++; g_pathsCut++; throw Term();
  case B_RO: { Val p = a[0]; if (p.e) p = VE(subst(s, p.e)); u64 slot = p.c >> SLOT; if (p.e || slot == 0 || slot - 1 >= s->mem.size()) { next(); return; } Obj* o = wobj(s, slot - 1); o->ro = a.size() > 1 ? (a[1].c != 0) : true; next(); return; }
  case B_PARAM: { std::string nm = cstr(s, a[0]); auto it = g_params.find(nm); setDst(s, n, VC((it == g_params.end() ? (a.size() > 1 ? a[1].c : 0) : (u64)it->second) & maskw(n.w))); next(); return; }
  case B_CONC: { u64 v = concretize(s, X(a[0], n.ow[0]), "qs_concretize"); setDst(s, n, VC(v & maskw(n.w))); next(); return; }
  case B_PRINT: { std::string nm = cstr(s, a[0]); fprintf(stderr, "[%s] %s\n", nm.c_str(), a.size() > 1 ? exprStr(subst(s, X(a[1], n.ow[1])), 8).c_str() : ""); next(); return; }
  case B_ISSYM: { Expr* e = subst(s, X(a[0], n.ow[0])); setDst(s, n, VC(!isC(e))); next(); return; }
  case B_SIZEOF: { Val p = a[0]; if (p.e) p = VE(subst(s, p.e)); u64 slot = p.c >> SLOT; u64 r = 0; if (!p.e && slot && slot - 1 < s->mem.size() && s->mem[slot - 1] && s->mem[slot - 1]->alive) r = s->mem[slot - 1]->size; setDst(s, n, VC(r)); next(); return; }
  case B_TRACE: { g_traceOut += cstr(s, a[0]); if (a.size() > 1) { Expr* e = subst(s, X(a[1], n.ow[1])); g_traceOut += "=" + (isC(e) ? std::to_string((i64)sx(e->c, e->w)) : exprStr(e)); } g_traceOut += "\n"; next(); return; }
  case B_MALLOC: case B_CALLOC: { Expr* sz = X(a[0], n.ow[0]); if (n.builtin == B_CALLOC) sz = mkBin(K_MUL, sz, X(a[1], n.ow[1])); sz = subst(s, sz);
    u32 id = newObj(s, isC(sz) ? sz->c : 0, O_HEAP, "heap", n.builtin == B_CALLOC ? g_zeroArr : uninitArr()); if (!isC(sz)) { s->mem[id]->symSize = sz; s->mem[id]->size = sz->umax; }
    else if (sz->c >= HALF) { killObj(s, id); setDst(s, n, VC(0)); next(); return; }
    setDst(s, n, VC(addrOf(id))); next(); return; }
  case B_REALLOC: { Val p = a[0]; if (p.e) p = VE(subst(s, p.e)); Expr* sz = subst(s, X(a[1], n.ow[1])); u64 ns = concretize(s, sz, "realloc"); u32 id = newObj(s, ns, O_HEAP, "heap", uninitArr());
    if (p.c) { Acc b = resolve(s, p, 0, false); u64 os = s->mem[b.id]->size; Acc d{ id, true, 0, nullptr }; for (u64 i = 0; i < os && i < ns; i++) { Val x = readAt(s, b, i, 8); writeAt(s, d, i, x, 8); } killObj(s, b.id); }
    setDst(s, n, VC(addrOf(id))); next(); return; }
  case B_FREE: { Val p = a[0]; if (p.e) p = VC(concretize(s, p.e, "free")); if (!p.c) { next(); return; } u64 slot = p.c >> SLOT; if (slot == 0 || slot - 1 >= s->mem.size() || !s->mem[slot - 1]) { report(s, "bad-free", "free of invalid pointer", s->model); throw Term(); }
    Obj* o = s->mem[slot - 1]; if (!o->alive) { report(s, "double-free", "free of dead object", s->model); throw Term(); } if (o->kind != O_HEAP || p.c != addrOf((u32)slot - 1)) { report(s, "bad-free", "free of non-heap pointer", s->model); throw Term(); }
    killObj(s, slot - 1); next(); return; }
  case B_MEMCPY: case B_MEMMOVE: { Val nn = a[2]; if (n.ow[2] < 64 && nn.e) nn = VE(mkZext(nn.e, 64)); doMemcpy(s, a[0], a[1], nn, n.builtin == B_MEMMOVE || (n.I && isa<IntrinsicInst>(n.I))); setDst(s, n, a[0]); next(); return; }
  case B_MEMSET: { Val nn = a[2]; if (n.ow[2] < 64 && nn.e) nn = VE(mkZext(nn.e, 64)); doMemset(s, a[0], a[1], nn); setDst(s, n, a[0]); next(); return; }
  case B_NOOP: if (n.dst >= 0) setDst(s, n, VC(0)); next(); return;
  case B_ABORT: report(s, "abort", "abort/trap reached", s->model); throw Term();
  case B_ASSERT: report(s, "assert", "assertion failed: " + cstr(s, a[0]), s->model); throw Term();
  case B_VASTART: { Acc c = resolve(s, a[0], 24, true); writeAt(s, c, 0, VC(48), 32); writeAt(s, c, 4, VC(304), 32); writeAt(s, c, 8, VC(addrOf(f.vaObj)), 64); writeAt(s, c, 16, VC(addrOf(f.vaObj)), 64); next(); return; }
  case B_VAEND: case B_IGNORE: next(); return;
  case B_VACOPY: { Acc b = resolve(s, a[1], 24, false); Acc c = resolve(s, a[0], 24, true); for (int i = 0; i < 24; i++) { Val x = readAt(s, b, i, 8); writeAt(s, c, i, x, 8); } next(); return; }
  case B_FABS: { Expr* e = X(a[0], n.w); setDst(s, n, VE(mkBin(K_AND, e, mkConst(maskw(n.w - 1), n.w)))); next(); return; }
  case B_EXPECT: setDst(s, n, a[0]); next(); return;
  case B_OVF: { unsigned w = n.ow[0]; Expr *x = X(a[0], w), *y = X(a[1], w); Expr *r, *ov; int k = n.pred; Kind op = k < 2 ? K_ADD : k < 4 ? K_SUB : K_MUL; r = mkBin(op, x, y); 
    if (w > 32 && k >= 4) { // 64-bit multiply overflow through division-free test on constants only
      if (isC(x) && isC(y)) { bool o; if (k == 4) { i64 t; o = __builtin_mul_overflow((i64)sx(x->c, w), (i64)sx(y->c, w), &t); } else { u64 t; o = __builtin_mul_overflow(x->c, y->c, &t); } ov = mkConst(o, 1); }
      else { report(s, "unsupported", "symbolic 64-bit mul overflow", s->model); throw Term(); } }
    else { unsigned W = std::min(64u, k >= 4 ? 2 * w : w + 1); bool sg = k % 2 == 0; if (W <= w) { // w==64 add/sub
        if (k == 1) ov = mkBin(K_ULT, r, x); else if (k == 3) ov = mkBin(K_ULT, x, y); else { Expr* z = mkConst(0, w); Expr *sxx = mkBin(K_SLT, x, z), *sy = mkBin(K_SLT, y, z), *sr = mkBin(K_SLT, r, z); ov = k == 0 ? mkBin(K_AND, mkBin(K_EQ, sxx, sy), mkNot1(mkBin(K_EQ, sr, sxx))) : mkBin(K_AND, mkNot1(mkBin(K_EQ, sxx, sy)), mkNot1(mkBin(K_EQ, sr, sxx))); } }
      else { Expr *xx = sg ? mkSext(x, W) : mkZext(x, W), *yy = sg ? mkSext(y, W) : mkZext(y, W); Expr* rr = mkBin(op, xx, yy); Expr* back = sg ? mkSext(r, W) : mkZext(r, W); ov = mkNot1(mkBin(K_EQ, rr, back)); } }
    f.regs[n.dst] = VE(r); f.regs[n.dst + 1] = VE(ov); next(); return; }
  case B_MINMAX: { Expr *x = X(a[0], n.w), *y = X(a[1], n.w); Expr* c = n.pred == 0 ? mkBin(K_SLT, x, y) : n.pred == 1 ? mkBin(K_SLT, y, x) : n.pred == 2 ? mkBin(K_ULT, x, y) : mkBin(K_ULT, y, x); setDst(s, n, VE(mkIte(c, x, y))); next(); return; }
  case B_STACKSAVE: setDst(s, n, VC(0)); next(); return;
  case B_ISCONST: setDst(s, n, VC(0)); next(); return;
  case B_OBJSIZE: setDst(s, n, VC(maskw(n.w))); next(); return;
  case B_ERRNO: { static u32 eid = 0; if (!eid || eid >= s->mem.size()) {} auto it = g_params.find("__errno_obj"); u32 id = it->second; setDst(s, n, VC(addrOf(id))); next(); return; }
  case B_BSWAP: { Expr* e = X(a[0], n.w); Expr* r = mkExtract(e, 0, 8); for (unsigned i = 1; i < n.w / 8; i++) r = mkConcat(r, mkExtract(e, 8 * i, 8)); setDst(s, n, VE(r)); next(); return; }
  default: report(s, "unsupported", "call of unsupported external/intrinsic " + (cast<CallInst>(n.I)->getCalledFunction() ? cast<CallInst>(n.I)->getCalledFunction()->getName().str() : "?"), s->model); g_incomplete = true; throw Term();
  }
}

static void trapCheck(State* s, Expr* bad, const char* kind, const char* msg) {
  bad = subst(s, bad); if (isFalse(bad)) return; ModelP m;
  if (accMay(s, bad, &m)) { report(s, kind, msg, m); Expr* ok = mkNot1(bad); ModelP m2; if (!mayBeTrue(s, ok, &m2)) throw Term(); assume(s, ok, m2); } else addFact(s, mkNot1(bad)); }

static void step(State* s) {
  Frame& f = s->st.back(); FuncInfo* fi = f.f; Inst& n = fi->code[f.pc]; fi->cov[f.pc] = true; g_instrs++; s->steps++;
  if (s->fuel >= 0 && s->fuel-- == 0) { for (auto& l : s->reached) g_reach[l]++; g_pathsCut++; throw Term(); }
  static u64 beat = getenv("QSYM_BEAT") ? strtoull(getenv("QSYM_BEAT"), 0, 10) : 0; if (beat && g_instrs % beat == 0) fprintf(stderr, "beat %s steps=%llu fuel=%lld depth=%zu work=%zu t=%.1f\n", locOf(s).c_str(), (unsigned long long)s->steps, (long long)s->fuel, s->st.size(), g_work.size(), elapsed());
  if (g_trace) { fprintf(stderr, "%s:%d ", fi->name.c_str(), n.line); errs() << *n.I << "\n"; }
  switch (n.op) {
  case X_BIN: {
    Val a = get(s, f, n.o[0], n.w), b = get(s, f, n.o[1], n.w); unsigned w = n.w; Kind k = (Kind)n.pred;
    if (k == K_SHL || k == K_LSHR || k == K_ASHR) { u64 msk = w == 64 ? 63 : 31; if (!b.e) b.c &= msk; else b = VE(mkBin(K_AND, b.e, mkConst(msk, w))); }
    if (k == K_SDIV || k == K_UDIV || k == K_SREM || k == K_UREM) {
      if (!b.e) { if (!b.c) { report(s, "div0", "division by zero", s->model); throw Term(); } } else trapCheck(s, mkBin(K_EQ, b.e, mkConst(0, w)), "div0", "division by zero");
      if ((k == K_SDIV || k == K_SREM) && w >= 32) { Expr* ov = mkBin(K_AND, mkBin(K_EQ, X(a, w), mkConst(1ull << (w - 1), w)), mkBin(K_EQ, X(b, w), mkConst(maskw(w), w))); trapCheck(s, ov, "divovf", "INT_MIN / -1 traps"); } }
    Val r; if (!a.e && !b.e) r = VC(foldBin(k, a.c, b.c, w)); else r = VE(mkBin(k, X(a, w), X(b, w)));
    f.regs[n.dst] = r; f.pc++; return; }
  case X_ICMP: {
    Val a = get(s, f, n.o[0], n.w2), b = get(s, f, n.o[1], n.w2); unsigned w = n.w2; Kind k; bool sw = false, neg = false;
    switch ((CmpInst::Predicate)n.pred) { case CmpInst::ICMP_EQ: k = K_EQ; break; case CmpInst::ICMP_NE: k = K_EQ; neg = true; break; case CmpInst::ICMP_ULT: k = K_ULT; break; case CmpInst::ICMP_ULE: k = K_ULE; break; case CmpInst::ICMP_UGT: k = K_ULT; sw = true; break; case CmpInst::ICMP_UGE: k = K_ULE; sw = true; break; case CmpInst::ICMP_SLT: k = K_SLT; break; case CmpInst::ICMP_SLE: k = K_SLE; break; case CmpInst::ICMP_SGT: k = K_SLT; sw = true; break; default: k = K_SLE; sw = true; break; }
    if (sw) std::swap(a, b);
    if (!a.e && !b.e) f.regs[n.dst] = VC(foldBin(k, a.c, b.c, w) ^ (neg ? 1 : 0)); else { Expr* r = mkBin(k, X(a, w), X(b, w)); if (neg) r = mkNot1(r); f.regs[n.dst] = VE(r); }
    f.pc++; return; }
  case X_FBIN: { Val a = get(s, f, n.o[0], n.w), b = get(s, f, n.o[1], n.w); f.regs[n.dst] = VE(mkFBin((Kind)n.pred, X(a, n.w), X(b, n.w))); f.pc++; return; }
  case X_FNEG: { Val a = get(s, f, n.o[0], n.w); f.regs[n.dst] = VE(mkBin(K_XOR, X(a, n.w), mkConst(1ull << (n.w - 1), n.w))); f.pc++; return; }
  case X_FCMP: {
    Expr *a = X(get(s, f, n.o[0], n.w2), n.w2), *b = X(get(s, f, n.o[1], n.w2), n.w2); Expr* un = nullptr; auto UN = [&]() { return mkBin(K_OR, mkFUn(K_FNAN, a, 1), mkFUn(K_FNAN, b, 1)); }; (void)un; Expr* r;
    switch ((CmpInst::Predicate)n.pred) { case CmpInst::FCMP_OEQ: r = mkFBin(K_FEQ, a, b); break; case CmpInst::FCMP_UNE: r = mkNot1(mkFBin(K_FEQ, a, b)); break; case CmpInst::FCMP_OLT: r = mkFBin(K_FLT, a, b); break; case CmpInst::FCMP_OLE: r = mkFBin(K_FLE, a, b); break; case CmpInst::FCMP_OGT: r = mkFBin(K_FLT, b, a); break; case CmpInst::FCMP_OGE: r = mkFBin(K_FLE, b, a); break;
    case CmpInst::FCMP_ULT: r = mkNot1(mkFBin(K_FLE, b, a)); break; case CmpInst::FCMP_ULE: r = mkNot1(mkFBin(K_FLT, b, a)); break; case CmpInst::FCMP_UGT: r = mkNot1(mkFBin(K_FLE, a, b)); break; case CmpInst::FCMP_UGE: r = mkNot1(mkFBin(K_FLT, a, b)); break;
    case CmpInst::FCMP_UNO: r = UN(); break; case CmpInst::FCMP_ORD: r = mkNot1(UN()); break; case CmpInst::FCMP_UEQ: r = mkBin(K_OR, UN(), mkFBin(K_FEQ, a, b)); break; case CmpInst::FCMP_ONE: r = mkBin(K_OR, mkFBin(K_FLT, a, b), mkFBin(K_FLT, b, a)); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break; default: r = mkConst(0, 1); break; }
    f.regs[n.dst] = VE(r); f.pc++; return; }
  case X_CAST: { Val a = get(s, f, n.o[0], n.w2); Val r; if (!a.e) r = VC(n.pred ? ((u64)sx(a.c, n.w2) & maskw(n.w)) : (a.c & maskw(n.w))); else r = VE(n.w < n.w2 ? mkExtract(a.e, 0, n.w) : n.pred ? mkSext(a.e, n.w) : mkZext(a.e, n.w)); f.regs[n.dst] = r; f.pc++; return; }
  case X_FCAST: { Val a = get(s, f, n.o[0], n.w2); f.regs[n.dst] = VE(mkFUn((Kind)n.pred, X(a, n.w2), n.w)); f.pc++; return; }
  case X_SELECT: { Val c = get(s, f, n.o[0], 1), a = get(s, f, n.o[1], n.w), b = get(s, f, n.o[2], n.w); f.regs[n.dst] = !c.e ? (c.c ? a : b) : VE(mkIte(c.e, X(a, n.w), X(b, n.w))); f.pc++; return; }
  case X_MOV: f.regs[n.dst] = get(s, f, n.o[0], n.w); f.pc++; return;
  case X_INSERTV: { std::vector<Val> v; for (auto& o : n.o) v.push_back(get(s, f, o, 64)); for (size_t i = 0; i < v.size(); i++) f.regs[n.dst + i] = v[i]; f.pc++; return; }
  case X_GEP: {
    Val b = get(s, f, n.o[0], 64); u64 off = n.aux.back(); Expr* eo = nullptr;
    for (size_t i = 1; i < n.o.size(); i++) { Val v = get(s, f, n.o[i], n.ow[i - 1]); u64 sc = n.aux[i - 1]; if (!v.e) off += sc * (u64)sx(v.c, n.ow[i - 1]); else { Expr* x = mkSext(v.e, 64); x = mkBin(K_MUL, x, mkConst(sc, 64)); eo = eo ? mkBin(K_ADD, eo, x) : x; } }
    if (!eo) f.regs[n.dst] = addV(b, off); else { Expr* r = mkBin(K_ADD, eo, mkConst(off, 64)); r = mkBin(K_ADD, X(b, 64), r); f.regs[n.dst] = VE(r); }
    f.pc++; return; }
  case X_ALLOCA: { Val c = get(s, f, n.o[0], n.ow[0]); u64 cnt = c.e ? concretize(s, c.e, "alloca") : c.c; const char* nm = n.I->hasName() ? n.I->getName().data() : "stack"; u32 id = newObj(s, n.aux[0] * cnt, O_STACK, nm, uninitArr()); s->st.back().allocas.push_back(id); s->st.back().regs[n.dst] = VC(addrOf(id)); s->st.back().pc++; return; }
  case X_LOAD: { Val p = get(s, f, n.o[0], 64); u64 tot = n.aux.back() + (n.ow.back() + 7) / 8; Acc a = resolve(s, p, tot, false); Frame& f2 = s->st.back(); for (size_t i = 0; i < n.aux.size(); i++) f2.regs[n.dst + i] = readAt(s, a, n.aux[i], n.ow[i]); f2.pc++; return; }
  case X_STORE: { Val p = get(s, f, n.o[0], 64); u64 tot = n.aux.back() + (n.ow.back() + 7) / 8; Acc a = resolve(s, p, tot, true); for (size_t i = 0; i < n.aux.size(); i++) writeAt(s, a, n.aux[i], get(s, s->st.back(), n.o[1 + i], n.ow[i]), n.ow[i]); s->st.back().pc++; return; }
  case X_BR: takeEdge(s, f, n.aux[0]); return;
  case X_CBR: { Val c = get(s, f, n.o[0], 1); if (!c.e) { takeEdge(s, f, c.c ? n.aux[0] : n.aux[1]); return; }
    State* t; bool v = forkOn(s, c.e, &t); if (t) { takeEdge(t, t->st.back(), v ? n.aux[1] : n.aux[0]); pushState(t); } takeEdge(s, s->st.back(), v ? n.aux[0] : n.aux[1]); return; }
  case X_SWITCH: { Val c = get(s, f, n.o[0], n.w2); if (c.e) c = VE(subst(s, c.e));
    if (c.e && g_splitIdx) if (Expr* core = coreOf(c.e)) { concretize(s, core, "table index"); c = VE(subst(s, c.e)); if (c.e && isC(c.e)) c = VC(c.e->c); }
    if (!c.e) { for (size_t i = 1; i + 1 < n.aux.size(); i += 2) if (n.aux[i] == c.c) { takeEdge(s, f, n.aux[i + 1]); return; } takeEdge(s, f, n.aux[0]); return; }
    // group by target edge
    std::map<u64, Expr*> conds; Expr* def = mkConst(1, 1);
    for (size_t i = 1; i + 1 < n.aux.size(); i += 2) { Expr* q = mkBin(K_EQ, c.e, mkConst(n.aux[i], n.w2)); if (isFalse(q)) continue; auto it = conds.find(n.aux[i + 1]); if (it == conds.end()) conds[n.aux[i + 1]] = q; else it->second = mkBin(K_OR, it->second, q); def = mkBin(K_AND, def, mkNot1(q)); }
    std::vector<std::pair<u64, Expr*>> alts; alts.push_back({ n.aux[0], def }); for (auto& kv : conds) { if (kv.first == n.aux[0]) alts[0].second = mkBin(K_OR, alts[0].second, kv.second); else alts.push_back(kv); }
    int taken = -1; ModelP orig = s->model; for (size_t i = 0; i < alts.size(); i++) if (evalExpr(alts[i].second, *orig)) { taken = i; break; }
    for (size_t i = 0; i < alts.size(); i++) if ((int)i != taken) { ModelP m; if (mayBeTrue(s, alts[i].second, &m)) { State* t = cloneState(s); assume(t, subst(t, alts[i].second), m); takeEdge(t, t->st.back(), alts[i].first); pushState(t); } }
    addCons(s, subst(s, alts[taken].second)); takeEdge(s, s->st.back(), alts[taken].first); return; }
  case X_IBR: { Val c = get(s, f, n.o[0], 64); u64 v = c.e ? concretize(s, c.e, "indirect branch") : c.c; Frame& f2 = s->st.back(); u64 slot = v >> SLOT; auto it = slot ? g_blockOf.find(slot - 1) : g_blockOf.end(); if (it == g_blockOf.end()) { report(s, "wild", "indirect branch to invalid target", s->model); throw Term(); }
    const BasicBlock* from = n.I->getParent(); auto ie = f2.f->edgeIdx.find({ from, it->second.second }); if (ie == f2.f->edgeIdx.end()) { report(s, "wild", "indirect branch to unexpected block", s->model); throw Term(); } takeEdge(s, f2, ie->second); return; }
  case X_RET: { std::vector<Val> v; for (size_t i = 0; i < n.o.size(); i++) v.push_back(get(s, f, n.o[i], n.ow[i])); if (s->st.size() == 1) { endPath(s, "return"); g_pathsDone++; throw Term(); } doRet(s, v); return; }
  case X_UNREACH: report(s, "unreachable", "unreachable reached", s->model); throw Term();
  case X_CALL: {
    std::vector<Val> args; for (size_t i = 1; i < n.o.size(); i++) args.push_back(get(s, f, n.o[i], n.ow[i - 1]));
    if (n.builtin) { doBuiltin(s, n, args); return; }
    FuncInfo* cf = n.callee; if (!cf) { Val p = get(s, f, n.o[0], 64); u64 a = p.e ? concretize(s, p.e, "call target") : p.c; cf = funcByAddr(s, a); if (!cf) { report(s, a < 65536 ? "null" : "wild", "call through invalid function pointer", s->model); throw Term(); }
      if (cf->F->isDeclaration()) { int b = builtinId(cf->name); Inst tmp = n; tmp.builtin = b; tmp.I = n.I; doBuiltin(s, tmp, args); return; } }
    callFunc(s, cf, n, args); return; }
  default: { std::string t; raw_string_ostream os(t); os << *n.I; report(s, "unsupported", "unsupported instruction " + os.str(), s->model); g_incomplete = true; throw Term(); }
  }
}

static void initConst(Obj* o, u64 off, const Constant* C) {
  Type* t = C->getType(); if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initConst(o, off + i * es, cd->getElementAsConstant(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, ca->getOperand(i)); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + L->getElementOffset(i), cs->getOperand(i)); return; }
  u64 v = constInt(C); u64 n = DL->getTypeStoreSize(t); for (u64 i = 0; i < n; i++) wrByte(o, off + i, VC(i < 8 ? (v >> (8 * i)) & 255 : 0)); }

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emitInputs(FILE* o, const std::vector<std::pair<std::string, std::string>>& in) { fprintf(o, "["); for (size_t i = 0; i < in.size(); i++) fprintf(o, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(in[i].first).c_str(), in[i].second.c_str()); fprintf(o, "]"); }

static int realMain(int argc, char** argv) {
  std::string bc, entry = "qs_main", out;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--max-time") g_maxTime = atof(argv[++i]); else if (a == "--query-timeout") g_timeoutMs = atoi(argv[++i]); else if (a == "--trace") g_trace = true; else if (a == "--samples") g_maxSamples = atoi(argv[++i]); else if (a == "--seed") { g_seed = atoll(argv[++i]); g_rng ^= g_seed * 0x9E3779B97F4A7C15ull; } else if (a == "--conc-max") g_concMax = atoi(argv[++i]); 
    else if (a == "--split-index") g_splitIdx = true; else if (a == "--split-store") g_splitIdx = g_splitStore = true; else if (a == "--max-viol") g_maxViol = atoi(argv[++i]);
    else if (a == "-p") { std::string kv = argv[++i]; auto p = kv.find('='); g_params[kv.substr(0, p)] = atol(kv.c_str() + p + 1); } else bc = a; }
  g_t0 = std::chrono::steady_clock::now();
  SMDiagnostic err; g_mod = parseIRFile(bc, err, g_ctx); if (!g_mod) { err.print("qsym", errs()); return 3; } DL = &g_mod->getDataLayout();
  solverInit(); g_zeroArr = newArray("zero", true);
  for (auto& F : *g_mod) { if (F.isIntrinsic()) continue; u32 id = addInit(0, O_FUNC, strdup(F.getName().str().c_str())); g_gid[&F] = id; g_initMem[id]->fn = fiOf(&F); }
  for (auto& G : g_mod->globals()) { Type* t = G.getValueType(); u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 0; if (G.isDeclaration() && sz < 512) sz = 512; u32 id = addInit(sz, O_GLOBAL, strdup(G.getName().str().c_str())); g_gid[&G] = id; }
  u32 eid = addInit(8, O_GLOBAL, "errno"); g_params["__errno_obj"] = eid;
  for (auto& G : g_mod->globals()) { Obj* o = g_initMem[g_gid[&G]]; if (G.hasInitializer()) initConst(g_initMem[g_gid[&G]], 0, G.getInitializer()); else { // external: self-pointing dummy
      u64 v = addrOf(g_gid[&G], 256); for (int i = 0; i < 8; i++) wrByte(o, i, VC((v >> (8 * i)) & 255)); } }
  for (auto& G : g_mod->globals()) if (G.isConstant() && G.hasInitializer()) g_initMem[g_gid[&G]]->ro = true;
  // function-level decode needs block addresses: they extend g_initMem on demand, so decode everything reachable up front
  for (auto& F : *g_mod) if (!F.isDeclaration()) { FuncInfo* fi = fiOf(&F); if (!fi->decoded) decode(fi); }
  Function* E = g_mod->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  State* s0 = new State(); s0->mem = g_initMem; s0->model = emptyModel(); FuncInfo* ef = fiOf(E); s0->st.emplace_back(); Frame& f0 = s0->st.back(); f0.f = ef; f0.pc = 0; f0.retDst = -1; f0.regs.resize(ef->nslots); f0.vaObj = 0; ef->execCount++;
  g_work.push_back(s0);
  g_budgetEnd = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + g_maxTime - elapsed();
  bool timeout = false; u64 lastq = 0;
  while (!g_work.empty()) {
    State* s = g_work.back(); g_work.pop_back(); u64 k = 0;
    try { while (true) { if (((++k & 255) == 0 || g_ss.queries != lastq) && (lastq = g_ss.queries, elapsed() > g_maxTime)) { timeout = true; break; } step(s); if (g_viol.size() >= g_maxViol) { timeout = true; break; } } } catch (Term&) { }
    if (g_viol.size() >= g_maxViol) timeout = true;
    freeState(s);
    if (timeout || elapsed() > g_maxTime) { if (!g_work.empty() || timeout) { g_incomplete = true; timeout = true; } break; }
  }
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!o) return 3;
  fprintf(o, "{\"paths\":%llu,\"paths_cut\":%llu,\"assume_ended\":%llu,\"instructions\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"table_decisions\":%llu,\"solver_time\":%.3f,\"max_query\":%.3f,\"wall\":%.3f,\"incomplete\":%s,\"timeout\":%s,\"pending\":%zu,\"exprs\":%zu", (unsigned long long)g_pathsDone, (unsigned long long)g_pathsCut, (unsigned long long)g_pathsAssume, (unsigned long long)g_instrs, (unsigned long long)g_forks, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_domainHits, g_ss.time, g_ss.maxTime, elapsed(), g_incomplete ? "true" : "false", timeout ? "true" : "false", g_work.size(), g_numExprs);
  fprintf(o, ",\"functions\":["); bool first = true; for (FuncInfo* f : g_funcs) if (f->execCount) { u64 c = 0; for (bool b : f->cov) c += b; fprintf(o, "%s[\"%s\",\"%s\",%llu,%llu,%zu]", first ? "" : ",", jesc(f->name).c_str(), jesc(f->file).c_str(), (unsigned long long)f->execCount, (unsigned long long)c, f->code.size()); first = false; } fprintf(o, "]");
  fprintf(o, ",\"reach\":{"); first = true; for (auto& kv : g_reach) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; } fprintf(o, "}");
  fprintf(o, ",\"notes\":{"); first = true; for (auto& kv : g_notes) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; } fprintf(o, "}");
  fprintf(o, ",\"trace\":\"%s\"", jesc(g_traceOut).c_str());
  fprintf(o, ",\"violations\":["); for (size_t i = 0; i < g_viol.size(); i++) { auto& v = g_viol[i]; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"overapprox\":%s,\"count\":%llu,\"inputs\":", i ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(), jesc(v.stack).c_str(), v.oa ? "true" : "false", (unsigned long long)v.count); emitInputs(o, v.inputs); fprintf(o, "}"); } fprintf(o, "]");
  fprintf(o, ",\"samples\":["); for (size_t i = 0; i < g_samples.size(); i++) { if (i) fprintf(o, ","); emitInputs(o, g_samples[i]); } fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
  fflush(stdout); _exit(0);
}
int main(int argc, char** argv) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); struct A { int c; char** v; int r; } a{ argc, argv, 0 }; pthread_t th;
  pthread_create(&th, &at, [](void* p) -> void* { A* x = (A*)p; x->r = realMain(x->c, x->v); return nullptr; }, &a); pthread_join(th, nullptr); return a.r; }
