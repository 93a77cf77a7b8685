// Hash-consed bit-vector / IEEE-754 expression DAG with constant folding,
// concrete evaluation under an assignment, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

enum EOp : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_NOT, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  // floating point over IEEE bit patterns (width 32 or 64)
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FNEG, E_FABS, E_FSQRT, E_FFLOOR, E_FCEIL, E_FTRUNC, E_FRINT,
  E_FEQ, E_FLT, E_FLE, E_FUNO,           // ordered ==,<,<= and unordered test -> width 1
  E_FTOSI, E_FTOUI, E_SITOF, E_UITOF, E_FPEXT, E_FPTRUNC
};

struct Expr {
  EOp op; uint8_t w; uint16_t aux; uint32_t id;
  uint64_t c;                // constant value, var index, or extract offset
  Expr *k[3];
  Z3_ast z;                  // translation memo
  uint64_t hash;
  const std::vector<uint32_t> *vars; // sorted set of variable indices
  uint64_t evEpoch, evVal;   // evaluation memo
  bool isConst() const { return op == E_CONST; }
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static inline double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline float b2f(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static inline uint64_t f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }

struct VarInfo { std::string name; unsigned w; Expr *e; };
extern std::vector<VarInfo> gVars;
typedef std::vector<uint64_t> Model; // indexed by var

Expr *mkConst(uint64_t v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *mk(EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint64_t aux = 0);
Expr *mkNot(Expr *a);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
uint64_t evalExpr(Expr *e, const Model &m);
void newEvalEpoch();
uint64_t foldOp(EOp op, unsigned w, unsigned kw, uint64_t a, uint64_t b, uint64_t c, bool &ok);
Z3_ast toZ3(Expr *e);
std::string exprStr(Expr *e, int depth = 4);
extern Z3_context gZ;
void initExpr();
