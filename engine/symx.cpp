#include <malloc.h>
// symx: a path-exploring symbolic executor over LLVM bitcode.
// Every branch, memory access and assertion over symbolic data is decided by Z3.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <atomic>
using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- options & shared statistics
static int optMaxProc = 8;
static double optTime = 600;
static u64 optPathInstr = 120000000;
static int optMaxViol = 1;
static unsigned optQueryMs = 60000;
static std::string optOut;
static bool optFpSym = false;      // keep int->fp conversions symbolic
static bool optEcho = false;       // echo notes
static u64 optMaxRssMB = 3500;

struct Shared {
  std::atomic<int> active, stop, incomplete, errors, viol, labelLock, nlabels;
  std::atomic<u64> paths, instr, queries, qsat, qunsat, qunknown, cacheHits, solverUs, forks, assertions, assumeKills, checksProved, completed, procs, concretize, domainHits, z3calls;
  char incompleteWhy[256];
  char labels[512][96];
  std::atomic<u64> labelCount[512];
  unsigned char fnSeen[16384];
};
static Shared *S;
static std::chrono::steady_clock::time_point gStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count(); }

static void markIncomplete(const std::string &why) {
  if (!S->incomplete.exchange(1)) snprintf(S->incompleteWhy, sizeof S->incompleteWhy, "%s", why.c_str());
}
static void reachLabel(const std::string &l) {
  std::string s = l.substr(0, 95);
  int n = S->nlabels;
  for (int i = 0; i < n; i++) if (s == S->labels[i]) { S->labelCount[i]++; return; }
  int exp = 0;
  while (!S->labelLock.compare_exchange_weak(exp, 1)) exp = 0;
  n = S->nlabels;
  int i;
  for (i = 0; i < n; i++) if (s == S->labels[i]) break;
  if (i == n && n < 512) { strcpy(S->labels[n], s.c_str()); S->labelCount[n] = 0; S->nlabels = n + 1; }
  if (i < 512) S->labelCount[i]++;
  S->labelLock = 0;
}

// ---------------------------------------------------------------- values
struct Val { u64 c; Expr *e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline Val VE(Expr *e) { return e->isConst() ? Val{e->c, nullptr} : Val{0, e}; }
static inline Expr *EX(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory objects
struct Obj {
  int rc; bool ro; uint8_t kind; // kind: 0 global 1 heap 2 stack
  uint32_t size; u64 addr;
  uint8_t *data; Expr **sym;
};
static Obj *newObj(u64 addr, u64 size, int kind, int fill) {
  Obj *o = new Obj; o->rc = 1; o->ro = false; o->kind = kind; o->size = size; o->addr = addr;
  o->data = (uint8_t *)malloc(size ? size : 1); memset(o->data, fill, size); o->sym = nullptr; return o;
}
static inline void decObj(Obj *o) { if (--o->rc == 0) { free(o->data); free(o->sym); delete o; } }
static Obj *cloneObj(Obj *o) {
  Obj *n = new Obj(*o); n->rc = 1; n->data = (uint8_t *)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
  if (o->sym) { n->sym = (Expr **)malloc(sizeof(Expr *) * o->size); memcpy(n->sym, o->sym, sizeof(Expr *) * o->size); }
  return n;
}
struct ObjTab { // sorted by address
  struct Ent { u64 addr; Obj *o; };
  std::vector<Ent> v;
  ObjTab() {}
  ObjTab(const ObjTab &b) : v(b.v) { for (auto &e : v) e.o->rc++; }
  ObjTab &operator=(const ObjTab &b) = delete;
  ~ObjTab() { for (auto &e : v) decObj(e.o); }
  int find(u64 a) const { // index of object with addr <= a, or -1
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].addr <= a) lo = m + 1; else hi = m; }
    return (int)lo - 1;
  }
};
static const u64 GLOBAL_BASE = 0x10000000ULL, HEAP_BASE = 0x600000000000ULL, STACK_BASE = 0x7f0000000000ULL, FUNC_BASE = 0x400000ULL;

// ---------------------------------------------------------------- decoded code
enum IOp : uint8_t { O_BIN, O_ICMP, O_FCMP, O_CAST, O_SELECT, O_GEP, O_LOAD, O_STORE, O_ALLOCA, O_BR, O_CONDBR, O_SWITCH, O_CALL, O_RET, O_UNREACH, O_MOVE, O_XELT, O_IELT, O_BITCAST, O_FNEG, O_VAARG, O_RMW, O_CMPXCHG, O_BAD };
struct Edge { uint32_t target; std::vector<std::pair<int, int>> moves; };
struct Elt { uint32_t off; uint8_t bytes; uint8_t w; };
struct GepIdx { int slot; uint8_t w; int64_t scale; };
struct CallArg { int slot; uint16_t n; uint8_t w; bool byval; uint32_t byvalSize; };
struct FnInfo;
struct CallInfo { Function *callee; FnInfo *fi; int calleeSlot; std::vector<CallArg> args; int intr; std::string name; bool voidRet; unsigned retSlots; unsigned retW; int normalEdge; };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct In {
  IOp op; uint8_t eop; uint8_t w; uint8_t kw; uint16_t n; int d, a, b, c; u64 imm; uint32_t ext; uint32_t line;
};
struct FnInfo {
  Function *f; unsigned idx; std::string name; bool decoded = false; unsigned nregs = 0;
  std::vector<Val> consts; // initial registers [0,consts.size())
  std::vector<int> argSlot; std::vector<unsigned> argN; std::vector<u64> argByval;
  std::vector<In> code; std::vector<Edge> edges; std::vector<std::vector<Elt>> elts; std::vector<std::vector<GepIdx>> geps;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<std::vector<std::pair<int, int>>> moves;
};
static Module *M; static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fnMap;
static std::vector<FnInfo *> fnList;
static std::unordered_map<const GlobalValue *, u64> gAddr;
static Obj *gTmpObj;

static unsigned slotsOf(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : st->elements()) n += slotsOf(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slotsOf(at->getElementType());
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  return 1;
}
struct Unsupported { std::string why; };
static unsigned widthOf(Type *t) {
  if (t->isVectorTy()) t = t->getScalarType();
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) throw Unsupported{"integer wider than 64"}; return w; }
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  throw Unsupported{"type"};
}
static void eltsOf(Type *t, u64 off, std::vector<Elt> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) eltsOf(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) eltsOf(at->getElementType(), off + i * sz, out); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned w = widthOf(vt); if (w % 8) throw Unsupported{"sub-byte vector"}; for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({(uint32_t)(off + i * w / 8), (uint8_t)(w / 8), (uint8_t)w}); return; }
  unsigned w = widthOf(t);
  out.push_back({(uint32_t)off, (uint8_t)((w + 7) / 8), (uint8_t)w});
}

// constant evaluation to slots
static void constSlots(const Constant *c, std::vector<Val> &out);
static u64 constScalar(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{"wide int const"}; return ci->getZExtValue(); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { if (!cf->getType()->isFloatTy() && !cf->getType()->isDoubleTy()) throw Unsupported{"fp const"}; return cf->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gAddr.find(gv);
    if (it == gAddr.end()) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constScalar(ga->getAliasee()); throw Unsupported{"unknown global"}; }
    return it->second;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce); u64 base = constScalar(cast<Constant>(g->getPointerOperand()));
      APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"gep ce"};
      return base + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return constScalar(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
    case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
    case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(widthOf(ce->getType()));
    case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(widthOf(ce->getType()));
    case Instruction::ICmp: { u64 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); 
      switch (cast<ConstantExpr>(ce)->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: throw Unsupported{"ce icmp"}; } }
    default: throw Unsupported{std::string("constexpr ") + ce->getOpcodeName()};
    }
  }
  throw Unsupported{"constant"};
}
static void constSlots(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (unsigned i = 0, n = slotsOf(t); i < n; i++) out.push_back(VC(0)); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constSlots(cast<Constant>(c->getOperand(i)), out); return; }
    throw Unsupported{"agg const"};
  }
  out.push_back(VC(constScalar(c)));
}
static void initMem(const Constant *c, uint8_t *p) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  Type *t = c->getType();
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return;
  }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(cast<Constant>(c->getOperand(i)), p + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initMem(cast<Constant>(c->getOperand(i)), p + i * sz); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 sz = widthOf(vt) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) initMem(cast<Constant>(c->getOperand(i)), p + i * sz); return; }
  u64 v = constScalar(c); unsigned n = (widthOf(t) + 7) / 8; memcpy(p, &v, n);
}

// ---------------------------------------------------------------- decoder
struct Decoder {
  FnInfo *F; std::unordered_map<const Value *, int> slot; unsigned next = 0;
  std::vector<std::pair<const Constant *, int>> pend;
  unsigned constBase = 0;
  int get(const Value *v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) {
      std::vector<Val> vs; constSlots(c, vs);
      int s = F->consts.size(); for (auto &x : vs) F->consts.push_back(x);
      if (vs.empty()) F->consts.push_back(VC(0));
      slot[v] = s; return s;
    }
    throw Unsupported{"value without slot"};
  }
};
#include "intrin.h"
static void decodeFn(FnInfo *F);

// ---------------------------------------------------------------- execution state
struct Frame { FnInfo *fn; uint32_t pc; uint32_t base; u64 sp; uint32_t stackObjs; int retDst; bool isTry; u64 tryCodePtr; std::shared_ptr<std::vector<std::pair<Val, uint8_t>>> va; };
struct State {
  std::vector<Val> regs; std::vector<Frame> fr; ObjTab mem, stk;
  u64 heapTop = HEAP_BASE, sp = STACK_BASE;
  std::vector<Expr *> cons; Model model; u64 modelId = 0;
  std::vector<std::pair<Expr *, u64>> known;
  u64 icount = 0, ibase = 0; std::vector<std::string> notes;
};
static u64 gModelIdNext = 1, gEvalId = 0;
static u64 evalIn(State &s, Expr *e) { if (gEvalId != s.modelId) { newEvalEpoch(); gEvalId = s.modelId; } return evalExpr(e, s.model); }

// ---------------------------------------------------------------- solver
struct QRes { int r; std::vector<std::pair<uint32_t, u64>> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { u64 h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ULL + (h >> 31); return h; } };
static std::unordered_map<std::vector<uint32_t>, QRes, VH> qcache;
static Z3_solver zs, zsfp;
static std::unordered_map<Expr *, Z3_ast> litMap; static std::unordered_map<Z3_ast, uint32_t> litBack;
static std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> coreIndex;
static Z3_ast boolOf(Expr *e) {
  static Z3_ast one1 = 0; if (!one1) { one1 = Z3_mk_unsigned_int64(gZ, 1, Z3_mk_bv_sort(gZ, 1)); Z3_inc_ref(gZ, one1); }
  return Z3_mk_eq(gZ, toZ3(e), one1);
}
static bool hasFP(Expr *e) {
  static std::unordered_map<Expr *, bool> memo;
  if (e->op >= E_FADD) return true; if (e->op <= E_VAR) return false;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = false; for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hasFP(e->k[i]);
  memo[e] = r; return r;
}
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); S->errors++; }
static std::vector<Model> recentModels;
static bool sliceFor(State &s, Expr *c, std::vector<Expr *> &out) {
  std::vector<u64> bits((gVars.size() + 63) / 64);
  auto add = [&](Expr *e) { for (auto v : *e->vars) bits[v >> 6] |= 1ULL << (v & 63); };
  add(c);
  std::vector<Expr *> rest = s.cons; bool ch = true;
  while (ch) {
    ch = false; size_t j = 0;
    for (size_t i = 0; i < rest.size(); i++) {
      bool hit = false; for (auto v : *rest[i]->vars) if (bits[v >> 6] >> (v & 63) & 1) { hit = true; break; }
      if (hit) { out.push_back(rest[i]); add(rest[i]); ch = true; } else rest[j++] = rest[i];
    }
    rest.resize(j);
  }
  return true;
}
// Byte-domain simplifier: a query over one variable of at most 8 bits is decided on the exact
// truth table of its unary constraints when no relational constraint mentions the variable;
// with relational constraints only an empty domain (unsat) is conclusive and Z3 decides the rest.
struct BM { u64 b[4]; };
static const BM &truthMask(Expr *e, uint32_t v, unsigned w) {
  static std::unordered_map<Expr *, BM> memo;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  static Model m; if (m.size() <= v) m.resize(v + 1, 0);
  BM r = {{0, 0, 0, 0}};
  for (unsigned x = 0; x < (1u << w); x++) { m[v] = x; newEvalEpoch(); if (evalExpr(e, m)) r.b[x >> 6] |= 1ULL << (x & 63); }
  m[v] = 0; newEvalEpoch(); gEvalId = 0;
  return memo[e] = r;
}
static int domainSolve(State &s, Expr *c, std::vector<std::pair<uint32_t, u64>> &patch) {
  if (c->vars->size() != 1) return -1;
  uint32_t v = (*c->vars)[0]; unsigned w = gVars[v].w; if (w > 8) return -1;
  BM d = truthMask(c, v, w); bool rel = false;
  for (Expr *k : s.cons) {
    if (k->vars->size() == 1) { if ((*k->vars)[0] == v) { const BM &m = truthMask(k, v, w); for (int i = 0; i < 4; i++) d.b[i] &= m.b[i]; } }
    else if (!rel && std::binary_search(k->vars->begin(), k->vars->end(), v)) rel = true;
  }
  for (int i = 0; i < 4; i++) if (d.b[i]) { if (rel) return -1; patch.clear(); patch.push_back({v, (u64)i * 64 + __builtin_ctzll(d.b[i])}); return 1; }
  return 0;
}
// 1 sat, 0 unsat, -1 unknown ; on sat fills patch
static int solve(State &s, Expr *c, std::vector<std::pair<uint32_t, u64>> &patch) {
  if (c->isConst()) { patch.clear(); return c->c ? 1 : 0; }
  S->queries++;
  { int dr = domainSolve(s, c, patch); if (dr >= 0) { S->domainHits++; return dr; } }
  std::vector<Expr *> sl; sliceFor(s, c, sl); sl.push_back(c);
  std::vector<uint32_t> key; for (auto *e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) { S->cacheHits++; patch = it->second.m; return it->second.r; }
  // unsat-core cache: a core seen for the same condition that is contained in the slice
  auto &cores = coreIndex[c->id];
  for (auto &k : cores) { bool all = true; for (auto id : k) if (!std::binary_search(key.begin(), key.end(), id)) { all = false; break; } if (all) { S->cacheHits++; QRes q; q.r = 0; qcache[key] = q; patch.clear(); return 0; } }
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; for (auto *e : sl) if (hasFP(e)) fp = true;
  Z3_solver z = fp ? zsfp : zs;
  S->z3calls++;
  Z3_lbool r;
  if (fp) {
    Z3_solver_push(gZ, z);
    for (auto *e : sl) Z3_solver_assert(gZ, z, boolOf(e));
    r = Z3_solver_check(gZ, z);
  } else {
    if (litMap.size() > 20000) { Z3_solver_reset(gZ, z); litMap.clear(); litBack.clear(); }
    std::vector<Z3_ast> as;
    for (auto *e : sl) {
      auto f = litMap.find(e);
      if (f == litMap.end()) { char nm[32]; snprintf(nm, sizeof nm, "p%u", e->id); Z3_ast p = Z3_mk_const(gZ, Z3_mk_string_symbol(gZ, nm), Z3_mk_bool_sort(gZ)); Z3_inc_ref(gZ, p); Z3_solver_assert(gZ, z, Z3_mk_implies(gZ, p, boolOf(e))); litBack[p] = e->id; f = litMap.emplace(e, p).first; }
      as.push_back(f->second);
    }
    r = Z3_solver_check_assumptions(gZ, z, as.size(), as.data());
  }
  QRes q; q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (q.r == 1) {
    Z3_model m = Z3_solver_get_model(gZ, z); Z3_model_inc_ref(gZ, m);
    std::set<uint32_t> vs; for (auto *e : sl) vs.insert(e->vars->begin(), e->vars->end());
    for (auto v : vs) {
      Z3_ast out; u64 val = 0;
      if (Z3_model_eval(gZ, m, toZ3(gVars[v].e), true, &out)) Z3_get_numeral_uint64(gZ, out, (uint64_t *)&val);
      q.m.push_back({v, val});
    }
    Z3_model_dec_ref(gZ, m);
    S->qsat++;
  } else if (q.r == 0) {
    S->qunsat++;
    if (!fp) {
      Z3_ast_vector cv = Z3_solver_get_unsat_core(gZ, z); Z3_ast_vector_inc_ref(gZ, cv); std::vector<uint32_t> k;
      for (unsigned i = 0; i < Z3_ast_vector_size(gZ, cv); i++) { auto f = litBack.find(Z3_ast_vector_get(gZ, cv, i)); if (f != litBack.end()) k.push_back(f->second); }
      Z3_ast_vector_dec_ref(gZ, cv); if (!k.empty() && cores.size() < 400) cores.push_back(k);
    }
  } else { S->qunknown++; }
  S->solverUs += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  if (fp) Z3_solver_pop(gZ, z, 1);
  if (q.r >= 0) qcache[key] = q;
  patch = q.m; return q.r;
}
static void patchModel(State &s, const std::vector<std::pair<uint32_t, u64>> &p) {
  for (auto &x : p) { if (s.model.size() <= x.first) s.model.resize(gVars.size(), 0); s.model[x.first] = x.second; }
  s.modelId = gModelIdNext++;
}
static void addCons(State &s, Expr *c) {
  if (c->isConst()) return;
  if (c->op == E_AND) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
  if (c->op == E_NOT && c->k[0]->op == E_OR) { addCons(s, mkNot(c->k[0]->k[0])); addCons(s, mkNot(c->k[0]->k[1])); return; }
  s.cons.push_back(c);
  if (c->op == E_EQ && c->k[1]->isConst()) s.known.push_back({c->k[0], c->k[1]->c});
}

// ---------------------------------------------------------------- engine
static std::vector<State *> work;
struct PathEnd {};                    // thrown to terminate the current path
struct Restart {};                    // re-execute the current instruction
static State *cur;
static std::vector<pid_t> kids; static bool gReap = false, gRoot = true;
static void reap(bool block);

static std::string jesc(const std::string &s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
static std::string stackTrace(State &s) {
  std::string r;
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
    auto &f = s.fr[i]; uint32_t pc = f.pc; if (i != (int)s.fr.size() - 1 && pc) pc--;
    uint32_t line = 0; for (int64_t k = pc; k >= 0 && !line; k--) line = f.fn->code[k].line;
    r += f.fn->name + ":" + std::to_string(line) + (i ? " < " : "");
  }
  return r;
}
static void emit(const std::string &line) {
  int fd = open((optOut + ".events").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  std::string l = line + "\n"; if (write(fd, l.data(), l.size()) < 0) {} close(fd);
}
static void violation(State &s, const std::string &kind, const std::string &msg) {
  std::string j = "{\"event\":\"violation\",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"stack\":\"" + jesc(stackTrace(s)) + "\",\"model\":{";
  bool first = true;
  for (size_t i = 0; i < gVars.size(); i++) { j += (first ? "\"" : ",\"") + jesc(gVars[i].name) + "\":" + std::to_string(i < s.model.size() ? s.model[i] : 0); first = false; }
  j += "},\"notes\":[";
  first = true; for (auto &n : s.notes) { j += (first ? "\"" : ",\"") + jesc(n) + "\""; first = false; }
  j += "]}";
  emit(j);
  if (++S->viol >= optMaxViol) S->stop = 1;
}
static void sampleEvent(State &s) {
  std::string j = "{\"event\":\"sample\",\"model\":{"; bool first = true;
  for (size_t i = 0; i < gVars.size(); i++) { j += (first ? "\"" : ",\"") + jesc(gVars[i].name) + "\":" + std::to_string(i < s.model.size() ? s.model[i] : 0); first = false; }
  emit(j + "}}");
}
static void engineError(State &s, const std::string &msg) {
  emit("{\"event\":\"error\",\"msg\":\"" + jesc(msg) + "\",\"stack\":\"" + jesc(stackTrace(s)) + "\"}");
  S->errors++; throw PathEnd();
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg); throw PathEnd(); }

static State *forkState(State &s) { S->forks++; State *n = new State(s); n->ibase = n->icount; return n; }
static void unknownAt(State &s) { markIncomplete("solver returned unknown at " + stackTrace(s)); }

// decide a width-1 condition; forks when both sides feasible. Returns the side the current state takes.
// The sibling is queued at the same instruction pointer (pc must still denote the current instruction).
static bool decide(State &s, Expr *c) {
  if (c->isConst()) return c->c;
  for (int i = (int)s.cons.size() - 1, k = 0; i >= 0 && k < 6; i--, k++) { if (s.cons[i] == c) return true; if (s.cons[i]->op == E_NOT ? s.cons[i]->k[0] == c : (c->op == E_NOT && c->k[0] == s.cons[i])) return false; }
  bool mv = evalIn(s, c);
  Expr *other = mv ? mkNot(c) : c;
  std::vector<std::pair<uint32_t, u64>> p;
  int r = solve(s, other, p);
  if (r == 0) return mv;
  if (r < 0) { unknownAt(s); addCons(s, mv ? c : mkNot(c)); return mv; }
  State *o = forkState(s); patchModel(*o, p); addCons(*o, other);
  work.push_back(o);
  addCons(s, mv ? c : mkNot(c));
  return mv;
}
static u64 concretize(State &s, Expr *e) {
  if (e->isConst()) return e->c;
  for (auto &k : s.known) if (k.first == e) return k.second;
  u64 v = evalIn(s, e);
  Expr *eq = mkEq(e, mkConst(v, e->w));
  if (eq->isConst()) return v;
  std::vector<std::pair<uint32_t, u64>> p;
  int r = solve(s, mkNot(eq), p);
  if (r < 0) unknownAt(s);
  if (r > 0) { S->concretize++; State *o = forkState(s); patchModel(*o, p); addCons(*o, mkNot(eq)); work.push_back(o); addCons(s, eq); }
  s.known.push_back({e, v});
  return v;
}
static u64 cval(State &s, Val &v) { if (v.e) { u64 c = concretize(s, v.e); v = VC(c); } return v.c; }

// memory -----------------------------------------------------------
static inline ObjTab &tabFor(State &s, u64 a) { return a >= STACK_BASE ? s.stk : s.mem; }
static char oobBuf[256];
static const char *oobMsg(State &s, u64 a, u64 n) {
  ObjTab &t = tabFor(s, a); int i = t.find(a);
  if (a < 4096) snprintf(oobBuf, 256, "null pointer access 0x%llx (%llu bytes)", (unsigned long long)a, (unsigned long long)n);
  else if (i >= 0 && a < t.v[i].addr + t.v[i].o->size + 4096) snprintf(oobBuf, 256, "out of bounds access: %llu bytes at offset %llu of object of size %u", (unsigned long long)n, (unsigned long long)(a - t.v[i].addr), t.v[i].o->size);
  else snprintf(oobBuf, 256, "access to unmapped or freed memory 0x%llx (%llu bytes)", (unsigned long long)a, (unsigned long long)n);
  return oobBuf;
}
static Obj *lookup(State &s, u64 a, u64 n, bool wr) {
  ObjTab &t = tabFor(s, a); int i = t.find(a);
  if (i < 0 || a + n > t.v[i].addr + t.v[i].o->size || a + n < a) fail(s, "memory", oobMsg(s, a, n));
  Obj *o = t.v[i].o;
  if (wr) {
    if (o->ro) fail(s, "memory", "write to read-only memory");
    if (o->rc > 1) { Obj *c = cloneObj(o); o->rc--; t.v[i].o = o = c; }
  }
  return o;
}
static Val loadAt(State &s, u64 a, unsigned bytes, unsigned w) {
  Obj *o = lookup(s, a, bytes, false); u64 off = a - o->addr;
  if (o->sym) {
    bool any = false; for (unsigned i = 0; i < bytes; i++) if (o->sym[off + i]) { any = true; break; }
    if (any) {
      Expr *e = nullptr;
      for (unsigned i = 0; i < bytes; i++) { Expr *b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8); e = e ? mkConcat(b, e) : b; }
      if (w < bytes * 8) e = mkExtract(e, 0, w);
      return VE(e);
    }
  }
  u64 v = 0; memcpy(&v, o->data + off, bytes); return VC(v & maskw(w));
}
static void storeAt(State &s, u64 a, unsigned bytes, Val v, unsigned w) {
  Obj *o = lookup(s, a, bytes, true); u64 off = a - o->addr;
  if (v.e) {
    if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *));
    Expr *e = v.e; if (w < bytes * 8) e = mkZExt(e, bytes * 8);
    for (unsigned i = 0; i < bytes; i++) { Expr *b = mkExtract(e, i * 8, 8); if (b->isConst()) { o->sym[off + i] = nullptr; o->data[off + i] = b->c; } else o->sym[off + i] = b; }
  } else {
    memcpy(o->data + off, &v.c, bytes);
    if (o->sym) for (unsigned i = 0; i < bytes; i++) o->sym[off + i] = nullptr;
  }
}
static unsigned lowZeros(Expr *e) {
  switch (e->op) {
  case E_CONST: return e->c ? __builtin_ctzll(e->c) : e->w;
  case E_CONCAT: { unsigned l = lowZeros(e->k[1]); return l == e->k[1]->w ? l + lowZeros(e->k[0]) : l; }
  case E_ADD: case E_SUB: case E_OR: return std::min(lowZeros(e->k[0]), lowZeros(e->k[1]));
  case E_MUL: return std::min(63u, lowZeros(e->k[0]) + lowZeros(e->k[1]));
  case E_ZEXT: case E_SEXT: return lowZeros(e->k[0]);
  case E_ITE: return std::min(lowZeros(e->k[1]), lowZeros(e->k[2]));
  default: return 0;
  }
}
static Val loadSymAddr(State &s, Expr *ae, unsigned bytes, unsigned w) {
  u64 a = evalIn(s, ae);
  ObjTab &t = tabFor(s, a); int i = t.find(a);
  if (i < 0 || a + bytes > t.v[i].addr + t.v[i].o->size) { // model says out of bounds: real violation
    fail(s, "memory", oobMsg(s, a, bytes));
  }
  Obj *o = t.v[i].o;
  Expr *off = mk(E_SUB, 64, ae, mkConst(o->addr, 64));
  Expr *in = mk(E_ULE, 1, off, mkConst(o->size - bytes, 64));
  if (!decide(s, in)) throw Restart();
  unsigned z = std::min(lowZeros(off), 3u); u64 step = 1ULL << z;
  u64 cnt = o->size / step;
  if (cnt > 2048) { u64 c = concretize(s, ae); return loadAt(s, c, bytes, w); }
  // build ite chain over runs of equal values, from the end
  Expr *r = nullptr; Expr *lastv = nullptr;
  std::vector<std::pair<u64, Expr *>> runs;
  for (u64 k = 0; k + bytes <= o->size; k += step) {
    Expr *v = EX(loadAt(s, o->addr + k, bytes, w), w);
    if (v != lastv) { runs.push_back({k, v}); lastv = v; }
  }
  r = runs.back().second;
  for (int k = (int)runs.size() - 2; k >= 0; k--) {
    u64 lo = runs[k].first, hi = runs[k + 1].first;
    Expr *cond = (hi - lo == step && k > 0) ? mkEq(off, mkConst(lo, 64)) : mk(E_ULT, 1, off, mkConst(hi, 64));
    r = mkIte(cond, runs[k].second, r);
  }
  return VE(r);
}
static u64 allocHeap(State &s, u64 n, int fill) {
  u64 a = s.heapTop; s.heapTop += (n + 15) / 16 * 16 + 64;
  Obj *o = newObj(a, n, 1, fill); s.mem.v.push_back({a, o}); return a;
}
static u64 allocStack(State &s, u64 n, u64 align) {
  u64 a = (s.sp + 32 + 15) / 16 * 16; if (align > 16) a = (a + align - 1) / align * align;
  s.sp = a + n; Obj *o = newObj(a, n, 2, 0xA5); s.stk.v.push_back({a, o}); return a;
}
static void popStack(State &s, Frame &f) {
  while (s.stk.v.size() > f.stackObjs) { decObj(s.stk.v.back().o); s.stk.v.pop_back(); }
  s.sp = f.sp;
}
static std::string cstr(State &s, u64 a, bool &ok) {
  std::string r; ok = true;
  for (;; a++) { Val v = loadAt(s, a, 1, 8); if (v.e) { ok = false; return r; } if (!v.c) return r; r += (char)v.c; if (r.size() > 1000000) { ok = false; return r; } }
}
static std::string cstrModel(State &s, u64 a) {
  std::string r; for (;; a++) { Val v = loadAt(s, a, 1, 8); u64 c = v.e ? evalIn(s, v.e) : v.c; if (!c) return r; r += (char)c; if (r.size() > 4000) return r; }
}
static void memcpySt(State &s, u64 d, u64 a, u64 n) {
  if (!n) return;
  Obj *so = lookup(s, a, n, false); u64 so_ = a - so->addr;
  std::vector<uint8_t> tmp(so->data + so_, so->data + so_ + n); std::vector<Expr *> ts;
  if (so->sym) { bool any = false; for (u64 i = 0; i < n; i++) if (so->sym[so_ + i]) { any = true; break; } if (any) ts.assign(so->sym + so_, so->sym + so_ + n); }
  Obj *o = lookup(s, d, n, true); u64 off = d - o->addr;
  memcpy(o->data + off, tmp.data(), n);
  if (!ts.empty()) { if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *)); memcpy(o->sym + off, ts.data(), n * sizeof(Expr *)); }
  else if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr *));
}

// calls -----------------------------------------------------------
static void pushFrame(State &s, FnInfo *fi, int retDst) {
  if (!fi->decoded) { try { decodeFn(fi); } catch (Unsupported &u) { engineError(s, "decode " + fi->name + ": " + u.why); } }
  if (s.fr.size() > 4000) fail(s, "memory", "stack overflow (unbounded recursion)");
  S->fnSeen[fi->idx] = 1;
  Frame f; f.fn = fi; f.pc = 0; f.base = s.regs.size(); f.sp = s.sp; f.stackObjs = s.stk.v.size(); f.retDst = retDst; f.isTry = false; f.tryCodePtr = 0;
  s.regs.insert(s.regs.end(), fi->consts.begin(), fi->consts.end());
  s.regs.resize(f.base + fi->nregs, VC(0));
  s.fr.push_back(std::move(f));
}
static FnInfo *fnAt(u64 a) { if (a < FUNC_BASE || (a - FUNC_BASE) % 16) return nullptr; u64 i = (a - FUNC_BASE) / 16; return i < fnList.size() ? fnList[i] : nullptr; }
#include "exec.h"

// ---------------------------------------------------------------- decode
static void decodeFn(FnInfo *F) {
  Function *f = F->f; Decoder D; D.F = F;
  // constants first: collect by scanning all operands
  for (auto &bb : *f) for (auto &I : bb) {
    if (isa<DbgInfoIntrinsic>(I)) continue;
    for (auto &op : I.operands()) if (auto *c = dyn_cast<Constant>(op.get())) {
      if (isa<Function>(c) && isa<CallBase>(I) && cast<CallBase>(I).getCalledOperand() == c) continue;
      if (isa<BasicBlock>(op.get()) || c->getType()->isTokenTy() || c->getType()->isMetadataTy()) continue;
      D.get(c);
    }
  }
  unsigned next = F->consts.size();
  auto alloc = [&](unsigned n) { unsigned r = next; next += n ? n : 1; return (int)r; };
  for (auto &a : f->args()) { int s = alloc(slotsOf(a.getType())); D.slot[&a] = s; F->argSlot.push_back(s); F->argN.push_back(slotsOf(a.getType())); F->argByval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0); }
  for (auto &bb : *f) for (auto &I : bb) if (!I.getType()->isVoidTy()) D.slot[&I] = alloc(slotsOf(I.getType()));
  std::unordered_map<const BasicBlock *, uint32_t> bbPc;
  struct Fix { uint32_t edge; const BasicBlock *to; }; std::vector<Fix> fixes;
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = 0;
    for (auto &phi : to->phis()) { int d = D.get(&phi), sv = D.get(phi.getIncomingValueForBlock(from)); for (unsigned i = 0, n = slotsOf(phi.getType()); i < n; i++) e.moves.push_back({d + (int)i, sv + (int)i}); }
    F->edges.push_back(e); fixes.push_back({(uint32_t)F->edges.size() - 1, to}); return (int)F->edges.size() - 1;
  };
  for (auto &bb : *f) {
    bbPc[&bb] = F->code.size();
    for (auto &I : bb) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      In in; memset(&in, 0, sizeof in); in.n = 1;
      if (auto &dl = I.getDebugLoc()) in.line = dl.getLine();
      in.d = I.getType()->isVoidTy() ? -1 : D.get(&I);
      auto lanes = [&](Type *t) { return (uint16_t)(t->isVectorTy() ? slotsOf(t) : 1); };
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
        in.op = O_BIN; in.a = D.get(bo->getOperand(0)); in.b = D.get(bo->getOperand(1)); in.w = widthOf(I.getType()); in.n = lanes(I.getType());
        switch (bo->getOpcode()) {
        case Instruction::Add: in.eop = E_ADD; break; case Instruction::Sub: in.eop = E_SUB; break; case Instruction::Mul: in.eop = E_MUL; break;
        case Instruction::UDiv: in.eop = E_UDIV; break; case Instruction::SDiv: in.eop = E_SDIV; break; case Instruction::URem: in.eop = E_UREM; break; case Instruction::SRem: in.eop = E_SREM; break;
        case Instruction::And: in.eop = E_AND; break; case Instruction::Or: in.eop = E_OR; break; case Instruction::Xor: in.eop = E_XOR; break;
        case Instruction::Shl: in.eop = E_SHL; break; case Instruction::LShr: in.eop = E_LSHR; break; case Instruction::AShr: in.eop = E_ASHR; break;
        case Instruction::FAdd: in.eop = E_FADD; break; case Instruction::FSub: in.eop = E_FSUB; break; case Instruction::FMul: in.eop = E_FMUL; break; case Instruction::FDiv: in.eop = E_FDIV; break;
        default: throw Unsupported{std::string("binop ") + bo->getOpcodeName()};
        }
      } else if (auto *uo = dyn_cast<UnaryOperator>(&I)) { in.op = O_FNEG; in.a = D.get(uo->getOperand(0)); in.w = widthOf(I.getType()); in.n = lanes(I.getType());
      } else if (auto *c = dyn_cast<ICmpInst>(&I)) { in.op = O_ICMP; in.eop = c->getPredicate(); in.a = D.get(c->getOperand(0)); in.b = D.get(c->getOperand(1)); in.w = widthOf(c->getOperand(0)->getType()); in.n = lanes(I.getType());
      } else if (auto *c = dyn_cast<FCmpInst>(&I)) { in.op = O_FCMP; in.eop = c->getPredicate(); in.a = D.get(c->getOperand(0)); in.b = D.get(c->getOperand(1)); in.w = widthOf(c->getOperand(0)->getType()); in.n = lanes(I.getType());
      } else if (auto *c = dyn_cast<CastInst>(&I)) {
        Type *st = c->getSrcTy(), *dt = c->getDestTy(); in.a = D.get(c->getOperand(0));
        if (c->getOpcode() == Instruction::BitCast && (st->isVectorTy() || dt->isVectorTy())) { in.op = O_BITCAST; in.n = slotsOf(dt); in.c = slotsOf(st); in.w = widthOf(dt); in.kw = widthOf(st); }
        else {
          in.op = O_CAST; in.w = widthOf(dt); in.kw = widthOf(st); in.n = lanes(dt);
          switch (c->getOpcode()) {
          case Instruction::Trunc: in.eop = E_EXTRACT; break; case Instruction::ZExt: in.eop = E_ZEXT; break; case Instruction::SExt: in.eop = E_SEXT; break;
          case Instruction::FPToSI: in.eop = E_FTOSI; break; case Instruction::FPToUI: in.eop = E_FTOUI; break; case Instruction::SIToFP: in.eop = E_SITOF; break; case Instruction::UIToFP: in.eop = E_UITOF; break;
          case Instruction::FPExt: in.eop = E_FPEXT; break; case Instruction::FPTrunc: in.eop = E_FPTRUNC; break;
          case Instruction::PtrToInt: in.eop = E_EXTRACT; break; case Instruction::IntToPtr: in.eop = in.kw < 64 ? E_ZEXT : E_EXTRACT; break; case Instruction::BitCast: in.eop = E_EXTRACT; break;
          default: throw Unsupported{"cast"};
          }
        }
      } else if (auto *sl = dyn_cast<SelectInst>(&I)) {
        in.op = O_SELECT; in.a = D.get(sl->getCondition()); in.b = D.get(sl->getTrueValue()); in.c = D.get(sl->getFalseValue()); in.n = slotsOf(I.getType());
        in.kw = sl->getCondition()->getType()->isVectorTy(); in.eop = I.getType()->isFPOrFPVectorTy();
        in.w = I.getType()->isAggregateType() ? 0 : widthOf(I.getType());
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        if (I.getType()->isVectorTy()) throw Unsupported{"vector gep"};
        in.op = O_GEP; in.a = D.get(g->getPointerOperand()); std::vector<GepIdx> ix; int64_t off = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value *v = it.getOperand();
          if (auto *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
          else { int64_t sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(v)) off += ci->getSExtValue() * sc; else ix.push_back({D.get(v), (uint8_t)widthOf(v->getType()), sc}); }
        }
        in.imm = off; in.ext = F->geps.size(); in.n = ix.size(); F->geps.push_back(ix);
      } else if (auto *l = dyn_cast<LoadInst>(&I)) { in.op = O_LOAD; in.a = D.get(l->getPointerOperand()); std::vector<Elt> es; eltsOf(I.getType(), 0, es); in.n = es.size(); in.w = es.size() == 1 ? es[0].w : 0; in.kw = es.size() == 1 ? es[0].bytes : 0; in.ext = F->elts.size(); in.imm = es.size() == 1 ? es[0].off : 0; F->elts.push_back(es);
      } else if (auto *st = dyn_cast<StoreInst>(&I)) { in.op = O_STORE; in.a = D.get(st->getPointerOperand()); in.b = D.get(st->getValueOperand()); std::vector<Elt> es; eltsOf(st->getValueOperand()->getType(), 0, es); in.n = es.size(); in.w = es.size() == 1 ? es[0].w : 0; in.kw = es.size() == 1 ? es[0].bytes : 0; in.ext = F->elts.size(); F->elts.push_back(es);
      } else if (auto *al = dyn_cast<AllocaInst>(&I)) { in.op = O_ALLOCA; in.imm = DL->getTypeAllocSize(al->getAllocatedType()); in.a = D.get(al->getArraySize()); in.b = al->getAlign().value();
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { in.op = O_BR; in.a = mkEdge(&bb, br->getSuccessor(0)); }
        else { in.op = O_CONDBR; in.a = D.get(br->getCondition()); in.b = mkEdge(&bb, br->getSuccessor(0)); in.c = mkEdge(&bb, br->getSuccessor(1)); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        in.op = O_SWITCH; in.a = D.get(sw->getCondition()); in.w = widthOf(sw->getCondition()->getType()); SwitchInfo si; si.def = mkEdge(&bb, sw->getDefaultDest());
        for (auto &cs : sw->cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), mkEdge(&bb, cs.getCaseSuccessor())});
        in.ext = F->switches.size(); F->switches.push_back(si);
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (cb->isInlineAsm()) { if (I.getType()->isVoidTy()) continue; throw Unsupported{"inline asm"}; }
        CallInfo ci; ci.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); ci.fi = ci.callee ? fnMap[ci.callee] : nullptr; ci.calleeSlot = -1; ci.intr = -1; ci.normalEdge = -1;
        ci.voidRet = I.getType()->isVoidTy(); ci.retSlots = slotsOf(I.getType()); ci.retW = 0; if (!ci.voidRet && !I.getType()->isAggregateType()) { ci.retW = I.getType()->getScalarType()->isX86_FP80Ty() ? 0 : widthOf(I.getType()); }
        if (ci.callee) { ci.name = ci.callee->getName().str(); ci.intr = intrinsicId(ci.name, ci.callee->isDeclaration()); if (ci.intr == IN_IGNORE) { if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.op = O_BR; in.a = mkEdge(&bb, iv->getNormalDest()); F->code.push_back(in); } continue; } }
        else ci.calleeSlot = D.get(cb->getCalledOperand());
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          Value *a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) continue;
          CallArg ca; ca.slot = D.get(a); ca.n = slotsOf(a->getType()); ca.w = (a->getType()->isAggregateType() || a->getType()->getScalarType()->isX86_FP80Ty()) ? 0 : widthOf(a->getType()); ca.byval = cb->isByValArgument(i); ca.byvalSize = ca.byval ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0; ci.args.push_back(ca);
        }
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.op = O_CALL; in.ext = F->calls.size(); F->calls.push_back(ci); F->code.push_back(in); In b2; memset(&b2, 0, sizeof b2); b2.op = O_BR; b2.line = in.line; b2.a = mkEdge(&bb, iv->getNormalDest()); F->code.push_back(b2); continue; }
        in.op = O_CALL; in.ext = F->calls.size(); F->calls.push_back(ci);
      } else if (auto *r = dyn_cast<ReturnInst>(&I)) { in.op = O_RET; in.a = r->getReturnValue() ? D.get(r->getReturnValue()) : -1; in.n = r->getReturnValue() ? slotsOf(r->getReturnValue()->getType()) : 0;
      } else if (isa<UnreachableInst>(I)) in.op = O_UNREACH;
      else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I)) { in.op = O_BAD; }
      else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        in.op = O_MOVE; Type *t = ev->getAggregateOperand()->getType(); int off = 0;
        for (unsigned i : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += slotsOf(st->getElementType(k)); t = st->getElementType(i); } else { auto *at = cast<ArrayType>(t); off += i * slotsOf(at->getElementType()); t = at->getElementType(); } }
        std::vector<std::pair<int, int>> mv; int sv = D.get(ev->getAggregateOperand()); for (unsigned i = 0; i < slotsOf(I.getType()); i++) mv.push_back({in.d + (int)i, sv + off + (int)i});
        in.ext = F->moves.size(); F->moves.push_back(mv);
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        in.op = O_MOVE; Type *t = I.getType(); int off = 0;
        for (unsigned i : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += slotsOf(st->getElementType(k)); t = st->getElementType(i); } else { auto *at = cast<ArrayType>(t); off += i * slotsOf(at->getElementType()); t = at->getElementType(); } }
        std::vector<std::pair<int, int>> mv; int sv = D.get(iv->getAggregateOperand()), vv = D.get(iv->getInsertedValueOperand()); unsigned n = slotsOf(I.getType()), m = slotsOf(t);
        for (unsigned i = 0; i < n; i++) mv.push_back({in.d + (int)i, ((int)i >= off && (int)i < off + (int)m) ? vv + (int)i - off : sv + (int)i});
        in.ext = F->moves.size(); F->moves.push_back(mv);
      } else if (auto *fz = dyn_cast<FreezeInst>(&I)) {
        in.op = O_MOVE; std::vector<std::pair<int, int>> mv; int sv = D.get(fz->getOperand(0)); for (unsigned i = 0; i < slotsOf(I.getType()); i++) mv.push_back({in.d + (int)i, sv + (int)i}); in.ext = F->moves.size(); F->moves.push_back(mv);
      } else if (auto *sh = dyn_cast<ShuffleVectorInst>(&I)) {
        in.op = O_MOVE; std::vector<std::pair<int, int>> mv; int n1 = slotsOf(sh->getOperand(0)->getType()); int a = D.get(sh->getOperand(0)), b = D.get(sh->getOperand(1)); auto mask = sh->getShuffleMask();
        for (unsigned i = 0; i < mask.size(); i++) { int m = mask[i] < 0 ? 0 : mask[i]; mv.push_back({in.d + (int)i, m < n1 ? a + m : b + m - n1}); } in.ext = F->moves.size(); F->moves.push_back(mv);
      } else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { in.op = O_XELT; in.a = D.get(ee->getVectorOperand()); in.b = D.get(ee->getIndexOperand()); in.n = slotsOf(ee->getVectorOperandType());
      } else if (auto *ie = dyn_cast<InsertElementInst>(&I)) { in.op = O_IELT; in.a = D.get(ie->getOperand(0)); in.b = D.get(ie->getOperand(2)); in.c = D.get(ie->getOperand(1)); in.n = slotsOf(I.getType());
      } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { in.op = O_RMW; in.a = D.get(rm->getPointerOperand()); in.b = D.get(rm->getValOperand()); in.w = widthOf(I.getType()); in.eop = rm->getOperation();
      } else if (isa<FenceInst>(I)) continue;
      else throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
      F->code.push_back(in);
    }
  }
  for (auto &x : fixes) F->edges[x.edge].target = bbPc[x.to];
  F->nregs = next; F->decoded = true;
}

// ---------------------------------------------------------------- main loop
static void maybeSplit() {
  if (work.empty() || S->active >= optMaxProc) return;
  static double last = -1; double now = elapsed(); if (last < 0) last = now; static double gap = 0.03; if (now - last < gap) return; last = now;
  if (gReap) reap(false);
  int a = S->active; if (a >= optMaxProc) return;
  if (!S->active.compare_exchange_strong(a, a + 1)) return;
  size_t n = (work.size() + 1) / 2;
  fflush(stdout); fflush(stderr);
  double ft = elapsed(); pid_t p = fork(); if (p > 0) { ft = elapsed() - ft; gap = std::max(0.03, ft * 20); }
  if (p < 0) { S->active--; return; }
  if (p == 0) { gRoot = false; kids.clear(); last = elapsed(); for (size_t i = n; i < work.size(); i++) delete work[i]; work.resize(n); delete cur; cur = nullptr; S->procs++; throw 1; }
  if (!gReap) kids.push_back(p);
  for (size_t i = 0; i < n; i++) delete work[i];
  work.erase(work.begin(), work.begin() + n);
}
// finished workers leave at once (orphans are adopted by the first process, which sees every exit status)
static void died(int st) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { S->errors++; emit("{\"event\":\"error\",\"msg\":\"worker died\",\"stack\":\"\"}"); S->stop = 1; } }
static void reap(bool block) { for (;;) { int st; pid_t k = waitpid(-1, &st, block ? 0 : WNOHANG); if (k < 0 && errno == EINTR) continue; if (k <= 0) return; died(st); } }
static void runAll() {
  u64 tick = 0;
  for (;;) {
    try {
      for (;;) {
        if (!cur) { if (work.empty()) return; cur = work.back(); work.pop_back(); }
        try {
          for (;;) {
            if ((++tick & 1023) == 0) {
              if (S->stop) { return; }
              if (elapsed() > optTime) { markIncomplete("time limit"); S->stop = 1; return; }
              if ((tick & 0xffff) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((u64)ru.ru_maxrss / 1024 > optMaxRssMB) { markIncomplete("memory limit"); S->stop = 1; return; } }
            }
            if ((tick & 15) == 0 && !work.empty()) maybeSplit();
            try { stepMany(*cur, 2000); } catch (Restart &) {}
          }
        } catch (PathEnd &) { S->paths++; S->instr += cur->icount - cur->ibase; delete cur; cur = nullptr; if (S->stop) return; }
      }
    } catch (int) {}
  }
}
int main(int argc, char **argv) { mallopt(M_TRIM_THRESHOLD, 2000000000); mallopt(M_MMAP_THRESHOLD, 32 << 20); mallopt(M_TOP_PAD, 16 << 20);
  std::string bc, entry = "harness";
  std::vector<std::string> hargs;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") optOut = nx(); else if (a == "-j") optMaxProc = atoi(nx().c_str()); else if (a == "-t") optTime = atof(nx().c_str());
    else if (a == "-pi") optPathInstr = strtoull(nx().c_str(), 0, 10); else if (a == "-mv") optMaxViol = atoi(nx().c_str()); else if (a == "-e") entry = nx();
    else if (a == "-fpsym") optFpSym = true; else if (a == "-echo") optEcho = true; else if (a == "-qt") optQueryMs = atoi(nx().c_str()); else if (a == "-rss") optMaxRssMB = strtoull(nx().c_str(), 0, 10);
    else bc = a;
  }
  if (bc.empty() || optOut.empty()) { fprintf(stderr, "usage: symx -o OUT [-j N] [-t SEC] [-e ENTRY] prog.bc\n"); return 2; }
  gStart = std::chrono::steady_clock::now();
  unlink((optOut + ".events").c_str());
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)S, 0, sizeof *S); S->active = 1; S->procs = 1;
  initExpr(); Z3_set_error_handler(gZ, z3err);
  zs = Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, "QF_BV")); Z3_solver_inc_ref(gZ, zs);
  zsfp = Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, "QF_FPBV")); Z3_solver_inc_ref(gZ, zsfp);
  for (Z3_solver z : {zs, zsfp}) { Z3_params p = Z3_mk_params(gZ); Z3_params_inc_ref(gZ, p); Z3_params_set_uint(gZ, p, Z3_mk_string_symbol(gZ, "rlimit"), optQueryMs * 1000u); Z3_solver_set_params(gZ, z, p); Z3_params_dec_ref(gZ, p); }
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("symx", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  for (auto &f : *M) { auto *fi = new FnInfo; fi->f = &f; fi->idx = fnList.size(); fi->name = f.getName().str(); fnMap[&f] = fi; gAddr[&f] = FUNC_BASE + 16 * fnList.size(); fnList.push_back(fi); }
  if (fnList.size() > 16384) { fprintf(stderr, "too many functions\n"); return 2; }
  cur = new State; u64 ga = GLOBAL_BASE;
  for (auto &g : M->globals()) { u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 64; if (g.isDeclaration() && sz < 64) sz = 64; u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16); ga = (ga + al - 1) / al * al; gAddr[&g] = ga; Obj *o = newObj(ga, sz, 0, 0); cur->mem.v.push_back({ga, o}); ga += sz + 64; }
  for (auto &al : M->aliases()) gAddr[&al] = 0;
  for (auto &al : M->aliases()) { try { gAddr[&al] = constScalar(al.getAliasee()); } catch (Unsupported &u) {} }
  try {
    for (auto &g : M->globals()) if (g.hasInitializer()) { int i = cur->mem.find(gAddr[&g]); initMem(g.getInitializer(), cur->mem.v[i].o->data); cur->mem.v[i].o->ro = g.isConstant(); }
  } catch (Unsupported &u) { fprintf(stderr, "global init: %s\n", u.why.c_str()); return 2; }
  Function *ef = M->getFunction(entry);
  if (!ef) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  // entry frame executes constructors then harness: push in reverse
  try {
    pushFrame(*cur, fnMap[ef], -1);
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, Function *>> cs;
      for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *st = cast<ConstantStruct>(ca->getOperand(i)); if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (int i = (int)cs.size() - 1; i >= 0; i--) pushFrame(*cur, fnMap[cs[i].second], -1);
    }
  } catch (PathEnd &) { fprintf(stderr, "setup failed\n"); return 2; }
  pid_t top = getpid(); gReap = prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0) == 0;
  runAll();
  S->active--;
  if (gReap) { if (!gRoot) _exit(0); reap(true); }
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); died(st); }
  if (getpid() != top) _exit(0);
  // summary
  FILE *o = fopen(optOut.c_str(), "w");
  const char *status = S->errors ? "error" : S->viol ? "violation" : S->incomplete ? "incomplete" : "complete";
  fprintf(o, "{\"status\":\"%s\",\"incomplete_why\":\"%s\",\"paths\":%llu,\"completed\":%llu,\"proved\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"z3_calls\":%llu,\"byte_domain\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"forks\":%llu,\"concretizations\":%llu,\"assertions\":%llu,\"assumption_pruned\":%llu,\"processes\":%llu,\"symbolic_vars\":%zu,\"wall_s\":%.3f,\n\"reach\":{",
    status, S->incomplete ? jesc(S->incompleteWhy).c_str() : "", (unsigned long long)S->paths, (unsigned long long)S->completed, (unsigned long long)S->checksProved, (unsigned long long)S->instr, (unsigned long long)S->queries, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, (unsigned long long)S->qunknown, (unsigned long long)S->z3calls, (unsigned long long)S->domainHits, (unsigned long long)S->cacheHits, S->solverUs / 1e6, (unsigned long long)S->forks, (unsigned long long)S->concretize, (unsigned long long)S->assertions, (unsigned long long)S->assumeKills, (unsigned long long)S->procs, gVars.size(), elapsed());
  for (int i = 0; i < S->nlabels; i++) fprintf(o, "%s\"%s\":%llu", i ? "," : "", jesc(S->labels[i]).c_str(), (unsigned long long)S->labelCount[i]);
  fprintf(o, "},\n\"functions\":[");
  bool first = true; for (auto *fi : fnList) if (S->fnSeen[fi->idx]) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(fi->name).c_str()); first = false; }
  fprintf(o, "],\n\"events\":[");
  if (FILE *e = fopen((optOut + ".events").c_str(), "r")) { char *l = 0; size_t n = 0; ssize_t k; first = true; while ((k = getline(&l, &n, e)) > 0) { if (l[k - 1] == '\n') l[k - 1] = 0; fprintf(o, "%s%s", first ? "" : ",\n", l); first = false; } fclose(e); }
  fprintf(o, "]}\n"); fclose(o); unlink((optOut + ".events").c_str());
  return 0;
}
