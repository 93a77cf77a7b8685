#include "expr.h"
#include <set>
#include <unordered_set>

std::vector<VarInfo> gVars;
Z3_context gZ;

struct EHash { size_t operator()(Expr *e) const { return e->hash; } };
struct EEq { bool operator()(Expr *a, Expr *b) const {
  return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
static std::unordered_set<Expr *, EHash, EEq> gTab;
static uint32_t gNextId = 1;
static uint64_t gEpoch = 1;
static std::set<std::vector<uint32_t>> gVarSets;
static const std::vector<uint32_t> *emptySet;

static const std::vector<uint32_t> *internSet(std::vector<uint32_t> v) {
  return &*gVarSets.insert(std::move(v)).first;
}
void initExpr() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  gZ = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  emptySet = internSet({});
}
void newEvalEpoch() { gEpoch++; }

static Expr *intern(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t cv) {
  Expr t; t.op = op; t.w = w; t.aux = 0; t.c = cv; t.k[0] = a; t.k[1] = b; t.k[2] = c;
  uint64_t h = op * 1000003ULL + w * 7919ULL + cv * 0x9E3779B97F4A7C15ULL;
  for (int i = 0; i < 3; i++) h = (h ^ (t.k[i] ? t.k[i]->id * 0xBF58476D1CE4E5B9ULL : 0)) * 0x94D049BB133111EBULL + (h >> 29);
  t.hash = h;
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  Expr *e = new Expr(t);
  e->id = gNextId++; e->z = nullptr; e->evEpoch = 0; e->evVal = 0;
  if (op == E_CONST) e->vars = emptySet;
  else if (op == E_VAR) e->vars = internSet({(uint32_t)cv});
  else {
    const std::vector<uint32_t> *s = a->vars;
    for (int i = 1; i < 3; i++) if (t.k[i]) {
      const std::vector<uint32_t> *o = t.k[i]->vars;
      if (o == s || o->empty()) continue;
      if (s->empty()) { s = o; continue; }
      std::vector<uint32_t> u;
      std::set_union(s->begin(), s->end(), o->begin(), o->end(), std::back_inserter(u));
      s = internSet(u);
    }
    e->vars = s;
  }
  gTab.insert(e);
  return e;
}
Expr *mkConst(uint64_t v, unsigned w) { return intern(E_CONST, w, 0, 0, 0, v & maskw(w)); }
Expr *mkVar(const std::string &name, unsigned w) {
  for (auto &v : gVars) if (v.name == name && v.w == w) return v.e;
  Expr *e = intern(E_VAR, w, 0, 0, 0, gVars.size());
  gVars.push_back({name, w, e});
  return e;
}

template <class F, class D> static uint64_t fp2(unsigned w, uint64_t a, uint64_t b, F ff, D dd) {
  return w == 32 ? f2b(ff(b2f(a), b2f(b))) : d2b(dd(b2d(a), b2d(b)));
}
uint64_t foldOp(EOp op, unsigned w, unsigned kw, uint64_t a, uint64_t b, uint64_t c, bool &ok) {
  ok = true;
  uint64_t M = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & M;
  case E_SUB: return (a - b) & M;
  case E_MUL: return (a * b) & M;
  case E_UDIV: if (!b) { return M; } return (a / b) & M;
  case E_UREM: if (!b) { return a; } return (a % b) & M;
  case E_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - (uint64_t)x) & M; return (uint64_t)(x / y) & M; }
  case E_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_NOT: return ~a & M;
  case E_SHL: return b >= w ? 0 : (a << b) & M;
  case E_LSHR: return b >= w ? 0 : (a >> b);
  case E_ASHR: { int64_t x = sextw(a, w); if (b >= w) b = w - 1; return (uint64_t)(x >> b) & M; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sextw(a, kw) < sextw(b, kw);
  case E_SLE: return sextw(a, kw) <= sextw(b, kw);
  case E_ITE: return a ? b : c;
  case E_FADD: return fp2(w, a, b, [](float x, float y) { return x + y; }, [](double x, double y) { return x + y; });
  case E_FSUB: return fp2(w, a, b, [](float x, float y) { return x - y; }, [](double x, double y) { return x - y; });
  case E_FMUL: return fp2(w, a, b, [](float x, float y) { return x * y; }, [](double x, double y) { return x * y; });
  case E_FDIV: return fp2(w, a, b, [](float x, float y) { return x / y; }, [](double x, double y) { return x / y; });
  case E_FNEG: return (a ^ (1ULL << (w - 1))) & M;
  case E_FABS: return a & (M >> 1);
  case E_FSQRT: return w == 32 ? f2b(sqrtf(b2f(a))) : d2b(sqrt(b2d(a)));
  case E_FFLOOR: return w == 32 ? f2b(floorf(b2f(a))) : d2b(floor(b2d(a)));
  case E_FCEIL: return w == 32 ? f2b(ceilf(b2f(a))) : d2b(ceil(b2d(a)));
  case E_FTRUNC: return w == 32 ? f2b(truncf(b2f(a))) : d2b(trunc(b2d(a)));
  case E_FRINT: return w == 32 ? f2b(rintf(b2f(a))) : d2b(rint(b2d(a)));
  case E_FEQ: return kw == 32 ? b2f(a) == b2f(b) : b2d(a) == b2d(b);
  case E_FLT: return kw == 32 ? b2f(a) < b2f(b) : b2d(a) < b2d(b);
  case E_FLE: return kw == 32 ? b2f(a) <= b2f(b) : b2d(a) <= b2d(b);
  case E_FUNO: return kw == 32 ? (std::isnan(b2f(a)) || std::isnan(b2f(b))) : (std::isnan(b2d(a)) || std::isnan(b2d(b)));
  case E_FTOSI: { double d = kw == 32 ? b2f(a) : b2d(a);
    // x86: out-of-range conversions give the integer-indefinite value
    if (!(d > -9223372036854775809.0 && d < 9223372036854775808.0)) return w == 64 ? (1ULL << 63) : w == 32 ? (1ULL << 31) : 0;
    int64_t v = (int64_t)d;
    if (w == 32 && (v > 2147483647LL || v < -2147483648LL)) return 1ULL << 31;
    return (uint64_t)v & M; }
  case E_FTOUI: { double d = kw == 32 ? b2f(a) : b2d(a);
    if (!(d > -9223372036854775809.0 && d < 18446744073709551616.0)) return (1ULL << 63) & M;
    if (d < 9223372036854775808.0) return (uint64_t)(int64_t)d & M;
    return (uint64_t)d & M; }
  case E_SITOF: return w == 32 ? f2b((float)sextw(a, kw)) : d2b((double)sextw(a, kw));
  case E_UITOF: return w == 32 ? f2b((float)a) : d2b((double)a);
  case E_FPEXT: return d2b((double)b2f(a));
  case E_FPTRUNC: return f2b((float)b2d(a));
  default: ok = false; return 0;
  }
}

static bool isComm(EOp op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ; }

Expr *mkNot(Expr *a) {
  if (a->isConst()) return mkConst(~a->c, a->w);
  if (a->op == E_NOT) return a->k[0];
  if (a->w == 1) {
    if (a->op == E_ULT) return mk(E_ULE, 1, a->k[1], a->k[0]);
    if (a->op == E_ULE) return mk(E_ULT, 1, a->k[1], a->k[0]);
    if (a->op == E_SLT) return mk(E_SLE, 1, a->k[1], a->k[0]);
    if (a->op == E_SLE) return mk(E_SLT, 1, a->k[1], a->k[0]);
  }
  return intern(E_NOT, a->w, a, 0, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->c >> off, w);
  switch (a->op) {
  case E_EXTRACT: return mkExtract(a->k[0], off + a->c, w);
  case E_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (off + w <= lw) return mkExtract(a->k[1], off, w);
    if (off >= lw) return mkExtract(a->k[0], off - lw, w);
    return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
  }
  case E_ZEXT: {
    unsigned kw = a->k[0]->w;
    if (off >= kw) return mkConst(0, w);
    if (off + w <= kw) return mkExtract(a->k[0], off, w);
    return mkZExt(mkExtract(a->k[0], off, kw - off), w);
  }
  case E_SEXT: if (off + w <= a->k[0]->w) return mkExtract(a->k[0], off, w); break;
  case E_ITE:
    if (a->k[1]->isConst() || a->k[2]->isConst())
      return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
    break;
  case E_AND: case E_OR: case E_XOR:
    return mk(a->op, w, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
  case E_ADD: case E_SUB: case E_MUL:
    if (off == 0) return mk(a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  default: break;
  }
  return intern(E_EXTRACT, w, a, 0, 0, off);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
  // merge adjacent extracts
  auto base = [](Expr *e, Expr *&b, unsigned &off) { if (e->op == E_EXTRACT) { b = e->k[0]; off = e->c; } else { b = e; off = 0; } };
  Expr *hb, *lb; unsigned ho, lo_;
  base(hi, hb, ho); base(lo, lb, lo_);
  if (hb == lb && ho == lo_ + lo->w) return mkExtract(hb, lo_, w);
  if (lo->op == E_CONCAT) { // hi:(a:b) -> (hi:a):b when hi,a merge
    Expr *a = lo->k[0]; Expr *ab; unsigned ao; base(a, ab, ao);
    if (hb == ab && ho == ao + a->w) return mkConcat(mkExtract(hb, ao, hi->w + a->w), lo->k[1]);
  }
  return intern(E_CONCAT, w, hi, lo, 0, 0);
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c, w);
  if (a->op == E_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == E_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return intern(E_ZEXT, w, a, 0, 0, 0);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->op == E_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == E_SEXT) return mkSExt(a->k[0], w);
  if (a->op == E_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(E_SEXT, w, a, 0, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
    if (a->isConst()) return a->c ? mk(E_OR, 1, c, b) : mk(E_AND, 1, mkNot(c), b);
    if (b->isConst()) return b->c ? mk(E_OR, 1, mkNot(c), a) : mk(E_AND, 1, c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(E_ITE, a->w, c, a, b, 0);
}
Expr *mkEq(Expr *a, Expr *b) { return mk(E_EQ, 1, a, b); }

Expr *mk(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t aux) {
  switch (op) {
  case E_NOT: return mkNot(a);
  case E_ITE: return mkIte(a, b, c);
  case E_ZEXT: return mkZExt(a, w);
  case E_SEXT: return mkSExt(a, w);
  case E_EXTRACT: return mkExtract(a, aux, w);
  case E_CONCAT: return mkConcat(a, b);
  default: break;
  }
  if (a->isConst() && (!b || b->isConst()) && (!c || c->isConst())) {
    bool ok; uint64_t v = foldOp(op, w, a->w, a->c, b ? b->c : 0, c ? c->c : 0, ok);
    if (ok) return mkConst(v, w);
  }
  if (b && isComm(op)) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  }
  uint64_t M = maskw(w);
  switch (op) {
  case E_ADD:
    if (b->isConst()) {
      if (!b->c) return a;
      if (a->op == E_ADD && a->k[1]->isConst()) return mk(E_ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (a->op == E_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
    }
    break;
  case E_SUB:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) return mk(E_ADD, w, a, mkConst(0 - b->c, w));
    break;
  case E_MUL:
    if (b->isConst()) { if (!b->c) return b; if (b->c == 1) return a;
      if (a->op == E_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkConst(a->k[1]->c * b->c, w), mkConst(a->k[2]->c * b->c, w)); }
    break;
  case E_UDIV: case E_SDIV: if (b->isConst() && b->c == 1) return a; break;
  case E_AND:
    if (a == b) return a;
    if (b->isConst()) {
      if (!b->c) return b; if (b->c == M) return a;
      if (a->op == E_ZEXT) { unsigned kw = a->k[0]->w; return mkZExt(mk(E_AND, kw, a->k[0], mkConst(b->c, kw)), w); }
      // low-bit mask -> zext(extract)
      if ((b->c & (b->c + 1)) == 0) { unsigned n = 64 - __builtin_clzll(b->c); if (n < w) return mkZExt(mkExtract(a, 0, n), w); }
      if (a->op == E_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkConst(a->k[1]->c & b->c, w), mkConst(a->k[2]->c & b->c, w));
    }
    if (w == 1 && ((a->op == E_NOT && a->k[0] == b) || (b->op == E_NOT && b->k[0] == a))) return mkConst(0, 1);
    break;
  case E_OR:
    if (a == b) return a;
    if (b->isConst()) { if (!b->c) return a; if (b->c == M) return b; }
    if (w == 1 && ((a->op == E_NOT && a->k[0] == b) || (b->op == E_NOT && b->k[0] == a))) return mkConst(1, 1);
    break;
  case E_XOR:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) { if (!b->c) return a; if (b->c == M) return mkNot(a);
      if (a->op == E_ZEXT && a->k[0]->w == 1 && b->c == 1) return mkZExt(mkNot(a->k[0]), w); }
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if (b->isConst()) {
      if (!b->c) return a;
      if (op == E_LSHR && b->c < w) return mkZExt(mkExtract(a, b->c, w - b->c), w);
      if (op == E_SHL && b->c < w) return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
      if (op != E_ASHR && b->c >= w) return mkConst(0, w);
    }
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (b->isConst()) {
      if (a->w == 1) return b->c ? a : mkNot(a);
      if (a->op == E_ZEXT) { unsigned kw = a->k[0]->w; if (b->c & ~maskw(kw)) return mkConst(0, 1); return mkEq(a->k[0], mkConst(b->c, kw)); }
      if (a->op == E_SEXT) { unsigned kw = a->k[0]->w; if ((uint64_t)sextw(b->c & maskw(kw), kw) != (uint64_t)sextw(b->c, b->w)) return mkConst(0, 1); return mkEq(a->k[0], mkConst(b->c, kw)); }
      if (a->op == E_ITE) {
        if (a->k[1]->isConst() && a->k[2]->isConst()) {
          bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
          if (t && f) return mkConst(1, 1); if (!t && !f) return mkConst(0, 1);
          return t ? a->k[0] : mkNot(a->k[0]);
        }
        if (a->k[1]->isConst() || a->k[2]->isConst()) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
      }
      if (a->op == E_ADD && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->w));
      if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; return mk(E_AND, 1, mkEq(a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkEq(a->k[1], mkConst(b->c, lw))); }
      if (a->op == E_XOR && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    break;
  case E_ULT:
    if (a == b) return mkConst(0, 1);
    if (b->isConst()) { if (!b->c) return mkConst(0, 1); if (b->c == 1) return mkEq(a, mkConst(0, a->w));
      if (a->op == E_ZEXT) { unsigned kw = a->k[0]->w; if (b->c > maskw(kw)) return mkConst(1, 1); return mk(E_ULT, 1, a->k[0], mkConst(b->c, kw)); } }
    if (a->isConst()) { if (a->c == maskw(a->w)) return mkConst(0, 1);
      if (b->op == E_ZEXT) { unsigned kw = b->k[0]->w; if (a->c >= maskw(kw)) return mkConst(0, 1); return mk(E_ULT, 1, mkConst(a->c, kw), b->k[0]); } }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULT, 1, a->k[0], b->k[0]);
    break;
  case E_ULE:
    if (a == b) return mkConst(1, 1);
    if (b->isConst()) { if (b->c == maskw(b->w)) return mkConst(1, 1); return mk(E_ULT, 1, a, mkConst(b->c + 1, b->w)); }
    if (a->isConst()) { if (!a->c) return mkConst(1, 1); return mk(E_ULT, 1, mkConst(a->c - 1, a->w), b); }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULE, 1, a->k[0], b->k[0]);
    break;
  case E_SLT: case E_SLE: {
    if (a == b) return mkConst(op == E_SLE, 1);
    auto nonneg = [](Expr *e) { return (e->op == E_ZEXT) || (e->isConst() && sextw(e->c, e->w) >= 0); };
    if (nonneg(a) && nonneg(b)) return mk(op == E_SLT ? E_ULT : E_ULE, 1, a, b);
    if (a->op == E_ZEXT && b->isConst()) return mkConst(0, 1); // b negative
    if (b->op == E_ZEXT && a->isConst()) return mkConst(1, 1); // a negative
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mk(op, 1, a->k[0], b->k[0]);
    if (a->op == E_SEXT && b->isConst()) { unsigned kw = a->k[0]->w; if ((uint64_t)sextw(b->c & maskw(kw), kw) == (uint64_t)sextw(b->c, b->w)) return mk(op, 1, a->k[0], mkConst(b->c, kw)); }
    if (b->op == E_SEXT && a->isConst()) { unsigned kw = b->k[0]->w; if ((uint64_t)sextw(a->c & maskw(kw), kw) == (uint64_t)sextw(a->c, a->w)) return mk(op, 1, mkConst(a->c, kw), b->k[0]); }
    break; }
  default: break;
  }
  return intern(op, w, a, b, c, 0);
}

uint64_t evalExpr(Expr *e, const Model &m) {
  if (e->op == E_CONST) return e->c;
  if (e->op == E_VAR) return e->c < m.size() ? m[e->c] : 0;
  if (e->evEpoch == gEpoch) return e->evVal;
  uint64_t r;
  switch (e->op) {
  case E_ITE: r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m); break;
  case E_EXTRACT: r = (evalExpr(e->k[0], m) >> e->c) & maskw(e->w); break;
  case E_CONCAT: r = (evalExpr(e->k[0], m) << e->k[1]->w) | evalExpr(e->k[1], m); break;
  case E_ZEXT: r = evalExpr(e->k[0], m); break;
  case E_SEXT: r = (uint64_t)sextw(evalExpr(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
  default: {
    bool ok;
    uint64_t a = evalExpr(e->k[0], m), b = e->k[1] ? evalExpr(e->k[1], m) : 0;
    r = foldOp(e->op, e->w, e->k[0]->w, a, b, 0, ok);
  } }
  e->evEpoch = gEpoch; e->evVal = r;
  return r;
}

static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(gZ) : Z3_mk_fpa_sort_64(gZ); }
static Z3_ast asFP(Z3_ast bv, unsigned w) { return Z3_mk_fpa_to_fp_bv(gZ, bv, fpSort(w)); }
static Z3_ast asBV(Z3_ast fp) { return Z3_mk_fpa_to_ieee_bv(gZ, fp); }
static Z3_ast boolToBV(Z3_ast b) {
  return Z3_mk_ite(gZ, b, Z3_mk_unsigned_int64(gZ, 1, Z3_mk_bv_sort(gZ, 1)), Z3_mk_unsigned_int64(gZ, 0, Z3_mk_bv_sort(gZ, 1)));
}
static Z3_ast bvToBool(Z3_ast a) { return Z3_mk_eq(gZ, a, Z3_mk_unsigned_int64(gZ, 1, Z3_mk_bv_sort(gZ, 1))); }
// FP translation returns the FP-sorted term when the expression is an FP operation, avoiding bv round trips
static std::unordered_map<Expr *, Z3_ast> fpMemo;
static Z3_ast toZ3FP(Expr *e) {
  auto it = fpMemo.find(e);
  if (it != fpMemo.end()) return it->second;
  Z3_ast rne = Z3_mk_fpa_rne(gZ), r;
  switch (e->op) {
  case E_FADD: r = Z3_mk_fpa_add(gZ, rne, toZ3FP(e->k[0]), toZ3FP(e->k[1])); break;
  case E_FSUB: r = Z3_mk_fpa_sub(gZ, rne, toZ3FP(e->k[0]), toZ3FP(e->k[1])); break;
  case E_FMUL: r = Z3_mk_fpa_mul(gZ, rne, toZ3FP(e->k[0]), toZ3FP(e->k[1])); break;
  case E_FDIV: r = Z3_mk_fpa_div(gZ, rne, toZ3FP(e->k[0]), toZ3FP(e->k[1])); break;
  case E_FNEG: r = Z3_mk_fpa_neg(gZ, toZ3FP(e->k[0])); break;
  case E_FABS: r = Z3_mk_fpa_abs(gZ, toZ3FP(e->k[0])); break;
  case E_FSQRT: r = Z3_mk_fpa_sqrt(gZ, rne, toZ3FP(e->k[0])); break;
  case E_FFLOOR: r = Z3_mk_fpa_round_to_integral(gZ, Z3_mk_fpa_rtn(gZ), toZ3FP(e->k[0])); break;
  case E_FCEIL: r = Z3_mk_fpa_round_to_integral(gZ, Z3_mk_fpa_rtp(gZ), toZ3FP(e->k[0])); break;
  case E_FTRUNC: r = Z3_mk_fpa_round_to_integral(gZ, Z3_mk_fpa_rtz(gZ), toZ3FP(e->k[0])); break;
  case E_FRINT: r = Z3_mk_fpa_round_to_integral(gZ, rne, toZ3FP(e->k[0])); break;
  case E_SITOF: r = Z3_mk_fpa_to_fp_signed(gZ, rne, toZ3(e->k[0]), fpSort(e->w)); break;
  case E_UITOF: r = Z3_mk_fpa_to_fp_unsigned(gZ, rne, toZ3(e->k[0]), fpSort(e->w)); break;
  case E_FPEXT: case E_FPTRUNC: r = Z3_mk_fpa_to_fp_float(gZ, rne, toZ3FP(e->k[0]), fpSort(e->w)); break;
  case E_ITE: r = Z3_mk_ite(gZ, bvToBool(toZ3(e->k[0])), toZ3FP(e->k[1]), toZ3FP(e->k[2])); break;
  default: r = asFP(toZ3(e), e->w);
  }
  Z3_inc_ref(gZ, r);
  fpMemo[e] = r;
  return r;
}
Z3_ast toZ3(Expr *e) {
  if (e->z) return e->z;
  Z3_ast a = 0, b = 0, r = 0;
  bool fp = e->op >= E_FADD;
  if (!fp) { if (e->k[0]) a = toZ3(e->k[0]); if (e->k[1]) b = toZ3(e->k[1]); }
  switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(gZ, e->c, Z3_mk_bv_sort(gZ, e->w)); break;
  case E_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)e->c); r = Z3_mk_const(gZ, Z3_mk_string_symbol(gZ, nm), Z3_mk_bv_sort(gZ, e->w)); break; }
  case E_ADD: r = Z3_mk_bvadd(gZ, a, b); break;
  case E_SUB: r = Z3_mk_bvsub(gZ, a, b); break;
  case E_MUL: r = Z3_mk_bvmul(gZ, a, b); break;
  case E_UDIV: r = Z3_mk_bvudiv(gZ, a, b); break;
  case E_SDIV: r = Z3_mk_bvsdiv(gZ, a, b); break;
  case E_UREM: r = Z3_mk_bvurem(gZ, a, b); break;
  case E_SREM: r = Z3_mk_bvsrem(gZ, a, b); break;
  case E_AND: r = Z3_mk_bvand(gZ, a, b); break;
  case E_OR: r = Z3_mk_bvor(gZ, a, b); break;
  case E_XOR: r = Z3_mk_bvxor(gZ, a, b); break;
  case E_NOT: r = Z3_mk_bvnot(gZ, a); break;
  case E_SHL: r = Z3_mk_bvshl(gZ, a, b); break;
  case E_LSHR: r = Z3_mk_bvlshr(gZ, a, b); break;
  case E_ASHR: r = Z3_mk_bvashr(gZ, a, b); break;
  case E_EQ: r = boolToBV(Z3_mk_eq(gZ, a, b)); break;
  case E_ULT: r = boolToBV(Z3_mk_bvult(gZ, a, b)); break;
  case E_ULE: r = boolToBV(Z3_mk_bvule(gZ, a, b)); break;
  case E_SLT: r = boolToBV(Z3_mk_bvslt(gZ, a, b)); break;
  case E_SLE: r = boolToBV(Z3_mk_bvsle(gZ, a, b)); break;
  case E_ITE: r = Z3_mk_ite(gZ, bvToBool(a), b, toZ3(e->k[2])); break;
  case E_CONCAT: r = Z3_mk_concat(gZ, a, b); break;
  case E_EXTRACT: r = Z3_mk_extract(gZ, e->c + e->w - 1, e->c, a); break;
  case E_ZEXT: r = Z3_mk_zero_ext(gZ, e->w - e->k[0]->w, a); break;
  case E_SEXT: r = Z3_mk_sign_ext(gZ, e->w - e->k[0]->w, a); break;
  case E_FEQ: r = boolToBV(Z3_mk_fpa_eq(gZ, toZ3FP(e->k[0]), toZ3FP(e->k[1]))); break;
  case E_FLT: r = boolToBV(Z3_mk_fpa_lt(gZ, toZ3FP(e->k[0]), toZ3FP(e->k[1]))); break;
  case E_FLE: r = boolToBV(Z3_mk_fpa_leq(gZ, toZ3FP(e->k[0]), toZ3FP(e->k[1]))); break;
  case E_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(gZ, toZ3FP(e->k[0])), Z3_mk_fpa_is_nan(gZ, toZ3FP(e->k[1]))}; r = boolToBV(Z3_mk_or(gZ, 2, x)); break; }
  case E_FTOSI: r = Z3_mk_fpa_to_sbv(gZ, Z3_mk_fpa_rtz(gZ), toZ3FP(e->k[0]), e->w); break;
  case E_FTOUI: r = Z3_mk_fpa_to_ubv(gZ, Z3_mk_fpa_rtz(gZ), toZ3FP(e->k[0]), e->w); break;
  default: r = asBV(toZ3FP(e)); break;
  }
  Z3_inc_ref(gZ, r);
  e->z = r;
  return r;
}
static const char *opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","ffloor","fceil","ftrunc","frint","feq","flt","fle","funo","ftosi","ftoui","sitof","uitof","fpext","fptrunc"};
std::string exprStr(Expr *e, int depth) {
  if (e->op == E_CONST) return std::to_string(e->c);
  if (e->op == E_VAR) return gVars[e->c].name;
  if (!depth) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == E_EXTRACT) s += "@" + std::to_string(e->c) + ":" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
