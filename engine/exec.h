#pragma once
// operation helpers -------------------------------------------------
static inline Val binop(State &s, EOp op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) { bool ok; return VC(foldOp(op, w, w, a.c, b.c, 0, ok)); }
  return VE(mk(op, w, EX(a, w), EX(b, w)));
}
static inline Val icmp(unsigned pred, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; int64_t sx = sextw(x, w), sy = sextw(y, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y);
    case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y);
    case CmpInst::ICMP_SGT: return VC(sx > sy); case CmpInst::ICMP_SGE: return VC(sx >= sy); case CmpInst::ICMP_SLT: return VC(sx < sy); default: return VC(sx <= sy);
    }
  }
  Expr *x = EX(a, w), *y = EX(b, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_UGT: return VE(mk(E_ULT, 1, y, x)); case CmpInst::ICMP_UGE: return VE(mk(E_ULE, 1, y, x)); case CmpInst::ICMP_ULT: return VE(mk(E_ULT, 1, x, y)); case CmpInst::ICMP_ULE: return VE(mk(E_ULE, 1, x, y));
  case CmpInst::ICMP_SGT: return VE(mk(E_SLT, 1, y, x)); case CmpInst::ICMP_SGE: return VE(mk(E_SLE, 1, y, x)); case CmpInst::ICMP_SLT: return VE(mk(E_SLT, 1, x, y)); default: return VE(mk(E_SLE, 1, x, y));
  }
}
static Val fcmp(unsigned pred, unsigned w, Val a, Val b) {
  if (pred == CmpInst::FCMP_FALSE) return VC(0);
  if (pred == CmpInst::FCMP_TRUE) return VC(1);
  Expr *x = EX(a, w), *y = EX(b, w); Expr *r;
  switch (pred) {
  case CmpInst::FCMP_OEQ: r = mk(E_FEQ, 1, x, y); break; case CmpInst::FCMP_UNE: r = mkNot(mk(E_FEQ, 1, x, y)); break;
  case CmpInst::FCMP_OGT: r = mk(E_FLT, 1, y, x); break; case CmpInst::FCMP_OGE: r = mk(E_FLE, 1, y, x); break;
  case CmpInst::FCMP_OLT: r = mk(E_FLT, 1, x, y); break; case CmpInst::FCMP_OLE: r = mk(E_FLE, 1, x, y); break;
  case CmpInst::FCMP_ONE: r = mk(E_OR, 1, mk(E_FLT, 1, x, y), mk(E_FLT, 1, y, x)); break;
  case CmpInst::FCMP_ORD: r = mkNot(mk(E_FUNO, 1, x, y)); break; case CmpInst::FCMP_UNO: r = mk(E_FUNO, 1, x, y); break;
  case CmpInst::FCMP_UEQ: r = mk(E_OR, 1, mk(E_FUNO, 1, x, y), mk(E_FEQ, 1, x, y)); break;
  case CmpInst::FCMP_UGT: r = mkNot(mk(E_FLE, 1, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mk(E_FLT, 1, x, y)); break;
  case CmpInst::FCMP_ULT: r = mkNot(mk(E_FLE, 1, y, x)); break; default: r = mkNot(mk(E_FLT, 1, y, x)); break; // ULE
  }
  return VE(r);
}
static inline void takeEdge(State &s, Frame &f, Val *R, int ei) {
  Edge &e = f.fn->edges[ei]; size_t n = e.moves.size();
  if (n == 1) R[e.moves[0].first] = R[e.moves[0].second];
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = R[e.moves[i].second]; for (size_t i = 0; i < n; i++) R[e.moves[i].first] = t[i]; }
  f.pc = e.target;
}
static double math1(const std::string &n, double x) {
  if (n.find("exp2") != std::string::npos) return exp2(x);
  if (n.find("expf") != std::string::npos || n.find("exp.f32") != std::string::npos) return expf(x);
  if (n.find("exp") != std::string::npos) return exp(x);
  if (n.find("log10") != std::string::npos) return log10(x);
  if (n.find("log1p") != std::string::npos) return log1p(x);
  if (n.find("log2") != std::string::npos) return log2(x);
  if (n == "logf" || n.find("log.f32") != std::string::npos) return logf(x);
  if (n.find("log") != std::string::npos) return log(x);
  if (n.find("atan") != std::string::npos) return atan(x);
  if (n.find("sin") != std::string::npos) return sin(x);
  if (n.find("cos") != std::string::npos) return cos(x);
  if (n.find("tan") != std::string::npos) return tan(x);
  if (n.find("erfc") != std::string::npos) return erfc(x);
  if (n.find("erf") != std::string::npos) return erf(x);
  if (n.find("rint") != std::string::npos) return rint(x);
  if (n.find("round") != std::string::npos) return round(x);
  abort();
}
// unwinds to the innermost __sym_try, or ends the path
static void doExit(State &s, u64 code) {
  int k = (int)s.fr.size() - 1; while (k >= 0 && !s.fr[k].isTry) k--;
  if (k < 0) { reachLabel("uncaught-exit"); throw PathEnd(); }
  Frame f = s.fr[k]; popStack(s, f); s.regs.resize(f.base); s.fr.resize(k);
  storeAt(s, f.tryCodePtr, 4, VC(code & 0xffffffff), 32);
  Frame &c = s.fr.back(); if (f.retDst >= 0) s.regs[c.base + f.retDst] = VC(1);
}
// returns true when the call is fully handled (pc must be advanced by the caller); false when a frame was pushed
static bool doIntrinsic(State &s, Frame &f, Val *R, In &in, CallInfo &ci) {
  auto A = [&](unsigned i) -> Val & { return R[ci.args[i].slot]; };
  auto C = [&](unsigned i) { return cval(s, R[ci.args[i].slot]); };
  unsigned n = ci.retSlots; unsigned w = ci.retW;
  auto lane1 = [&](EOp op) { for (unsigned i = 0; i < n; i++) { Val a = R[ci.args[0].slot + i]; if (!a.e) { bool ok; R[in.d + i] = VC(foldOp(op, w, w, a.c, 0, 0, ok)); } else R[in.d + i] = VE(mk(op, w, a.e)); } };
  switch (ci.intr) {
  case IN_MEMCPY: { u64 nb = C(2); u64 d = C(0), a = C(1); memcpySt(s, d, a, nb); return true; }
  case IN_MEMSET: { u64 nb = C(2); u64 d = C(0); if (!nb) return true; Val v = A(1); Obj *o = lookup(s, d, nb, true); u64 off = d - o->addr;
    if (v.e) { for (u64 i = 0; i < nb; i++) storeAt(s, d + i, 1, v, 8); } else { memset(o->data + off, (int)v.c, nb); if (o->sym) memset(o->sym + off, 0, nb * sizeof(Expr *)); } return true; }
  case IN_ABS: for (unsigned i = 0; i < n; i++) { Val a = R[ci.args[0].slot + i]; if (!a.e) { int64_t x = sextw(a.c, w); R[in.d + i] = VC((u64)(x < 0 ? -x : x) & maskw(w)); } else R[in.d + i] = VE(mkIte(mk(E_SLT, 1, a.e, mkConst(0, w)), mk(E_SUB, w, mkConst(0, w), a.e), a.e)); } return true;
  case IN_SMIN: case IN_SMAX: case IN_UMIN: case IN_UMAX: for (unsigned i = 0; i < n; i++) { Val a = R[ci.args[0].slot + i], b = R[ci.args[1].slot + i]; unsigned p = ci.intr == IN_SMIN ? CmpInst::ICMP_SLT : ci.intr == IN_SMAX ? CmpInst::ICMP_SGT : ci.intr == IN_UMIN ? CmpInst::ICMP_ULT : CmpInst::ICMP_UGT; Val c = icmp(p, w, a, b); R[in.d + i] = c.e ? VE(mkIte(c.e, EX(a, w), EX(b, w))) : c.c ? a : b; } return true;
  case IN_CTLZ: case IN_CTTZ: case IN_CTPOP: { u64 x = C(0); unsigned r; if (ci.intr == IN_CTPOP) r = __builtin_popcountll(x); else if (!x) r = w; else r = ci.intr == IN_CTTZ ? __builtin_ctzll(x) : __builtin_clzll(x) - (64 - w); R[in.d] = VC(r); return true; }
  case IN_BSWAP: { Val a = A(0); if (!a.e) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r = r << 8 | (a.c >> (8 * i) & 255); R[in.d] = VC(r); } else { Expr *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(a.e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } R[in.d] = VE(r); } return true; }
  case IN_FSHL: case IN_FSHR: { u64 sh = C(2) % w; Expr *a = EX(A(0), w), *b = EX(A(1), w); if (!sh) { R[in.d] = ci.intr == IN_FSHL ? A(0) : A(1); return true; } unsigned l = ci.intr == IN_FSHL ? sh : w - sh; R[in.d] = VE(mkConcat(mkExtract(a, 0, w - l), mkExtract(b, w - l, l))); return true; }
  case IN_SADDO: case IN_UADDO: case IN_SSUBO: case IN_USUBO: case IN_SMULO: case IN_UMULO: {
    unsigned ow = ci.args[0].w; u64 a = C(0), b = C(1); __int128 r; bool sg = ci.intr == IN_SADDO || ci.intr == IN_SSUBO || ci.intr == IN_SMULO;
    __int128 x = sg ? (__int128)sextw(a, ow) : (__int128)a, y = sg ? (__int128)sextw(b, ow) : (__int128)b; bool ov;
    if (ci.intr == IN_SADDO || ci.intr == IN_UADDO) r = x + y; else if (ci.intr == IN_SSUBO || ci.intr == IN_USUBO) r = x - y; else r = sg ? x * y : (__int128)((unsigned __int128)a * b);
    if (ci.intr == IN_UMULO) ov = ((unsigned __int128)r >> ow) != 0; else if (sg) ov = r != (__int128)sextw((u64)r & maskw(ow), ow); else ov = r < 0 || (r >> ow) != 0;
    R[in.d] = VC((u64)r & maskw(ow)); R[in.d + 1] = VC(ov); return true; }
  case IN_UADDS: case IN_USUBS: for (unsigned i = 0; i < n; i++) { Val a = R[ci.args[0].slot + i], b = R[ci.args[1].slot + i]; Expr *x = EX(a, w), *y = EX(b, w); R[in.d + i] = ci.intr == IN_USUBS ? VE(mkIte(mk(E_ULT, 1, x, y), mkConst(0, w), mk(E_SUB, w, x, y))) : VE(mkIte(mk(E_ULT, 1, mk(E_ADD, w, x, y), x), mkConst(~0ULL, w), mk(E_ADD, w, x, y))); } return true;
  case IN_FABS: lane1(E_FABS); return true; case IN_FFLOOR: lane1(E_FFLOOR); return true; case IN_FCEIL: lane1(E_FCEIL); return true; case IN_FTRUNC: lane1(E_FTRUNC); return true; case IN_FRINT: lane1(E_FRINT); return true; case IN_FSQRT: lane1(E_FSQRT); return true;
  case IN_FROUND: { u64 x = C(0); R[in.d] = VC(w == 32 ? f2b(roundf(b2f(x))) : d2b(round(b2d(x)))); return true; }
  case IN_FMULADD: for (unsigned i = 0; i < n; i++) R[in.d + i] = binop(s, E_FADD, w, binop(s, E_FMUL, w, R[ci.args[0].slot + i], R[ci.args[1].slot + i]), R[ci.args[2].slot + i]); return true;
  case IN_FMIN: case IN_FMAX: { Val a = A(0), b = A(1); Expr *c = ci.intr == IN_FMIN ? mk(E_FLT, 1, EX(a, w), EX(b, w)) : mk(E_FLT, 1, EX(b, w), EX(a, w)); bool t = decide(s, c); R[in.d] = t ? a : b; return true; }
  case IN_FCOPYSIGN: { u64 a = C(0), b = C(1), sg = 1ULL << (w - 1); R[in.d] = VC((a & ~sg) | (b & sg)); return true; }
  case IN_MATH1: { u64 x = C(0); R[in.d] = w == 32 ? VC(f2b((float)math1(ci.name, b2f(x)))) : VC(d2b(math1(ci.name, b2d(x)))); return true; }
  case IN_MATH2: { u64 x = C(0), y = C(1); if (ci.name == "ldexp") { R[in.d] = VC(d2b(ldexp(b2d(x), (int)y))); return true; } double a = w == 32 ? b2f(x) : b2d(x), b = w == 32 ? b2f(y) : b2d(y), r; if (ci.name.find("pow") != std::string::npos) r = w == 32 ? powf(a, b) : pow(a, b); else if (ci.name == "atan2") r = atan2(a, b); else r = fmod(a, b); R[in.d] = VC(w == 32 ? f2b((float)r) : d2b(r)); return true; }
  case IN_VASTART: { u64 p = C(0); u64 cnt = f.va ? f.va->size() : 0; u64 area = allocStack(s, cnt * 8 + 8, 16); storeAt(s, p, 4, VC(48), 32); storeAt(s, p + 4, 4, VC(304), 32); storeAt(s, p + 8, 8, VC(area), 64); storeAt(s, p + 16, 8, VC(0), 64);
    for (u64 i = 0; i < cnt; i++) { auto &x = (*f.va)[i]; Val v = x.first; if (v.e && v.e->w < 64) v = VE(mkZExt(v.e, 64)); storeAt(s, area + 8 * i, 8, v, 64); } return true; }
  case IN_VACOPY: { u64 d = C(0), a = C(1); memcpySt(s, d, a, 24); return true; }
  case IN_STACKSAVE: R[in.d] = VC(s.sp); return true;
  case IN_TRAP: fail(s, "trap", "trap instruction");
  case IN_OBJSIZE: R[in.d] = VC(maskw(w)); return true;
  case IN_EXPECT: R[in.d] = A(0); return true;
  case IN_ISCONST: R[in.d] = VC(0); return true;
  case IN_ISFPCLASS: { u64 x = C(0), m = C(1); unsigned aw = ci.args[0].w; double d = aw == 32 ? (double)b2f(x) : b2d(x); bool ng = x >> (aw - 1) & 1; unsigned cls; if (std::isnan(d)) cls = 3; else if (std::isinf(d)) cls = ng ? 4 : 512; else if (d == 0) cls = ng ? 32 : 64; else cls = ng ? 8 | 16 : 256 | 128; R[in.d] = VC((cls & m) != 0); return true; }
  // --- harness interface
  case IN_SYMVAR: { bool ok; u64 p = C(0), bits = C(1); std::string nm = cstr(s, p, ok); if (!ok) engineError(s, "symbolic variable name"); Expr *v = mkVar(nm, bits); R[in.d] = VE(mkZExt(v, 64)); return true; }
  case IN_ASSUME: { Val v = A(0); unsigned aw = ci.args[0].w; if (!v.e) { if (!v.c) { S->assumeKills++; throw PathEnd(); } return true; }
    Expr *c = mkNot(mkEq(v.e, mkConst(0, aw)));
    if (c->isConst()) { if (!c->c) { S->assumeKills++; throw PathEnd(); } return true; }
    if (!evalIn(s, c)) { std::vector<std::pair<uint32_t, u64>> p; int r = solve(s, c, p); if (r < 0) unknownAt(s); if (r <= 0) { S->assumeKills++; throw PathEnd(); } patchModel(s, p); }
    addCons(s, c); return true; }
  case IN_CHECK: { S->assertions++; Val v = A(0); unsigned aw = ci.args[0].w; if (!v.e) { if (!v.c) fail(s, "assertion", cstrModel(s, C(1))); return true; }
    Expr *c = mkNot(mkEq(v.e, mkConst(0, aw))); if (c->isConst()) { if (!c->c) fail(s, "assertion", cstrModel(s, C(1))); return true; }
    u64 mp = C(1);
    std::vector<std::pair<uint32_t, u64>> p; int r = solve(s, mkNot(c), p);
    if (r < 0) { unknownAt(s); return true; }
    if (r == 0) { S->checksProved++; return true; }
    { State *o = forkState(s); patchModel(*o, p); addCons(*o, mkNot(c)); violation(*o, "assertion", cstrModel(*o, mp)); delete o; }
    if (!evalIn(s, c)) { std::vector<std::pair<uint32_t, u64>> q; int r2 = solve(s, c, q); if (r2 <= 0) throw PathEnd(); patchModel(s, q); }
    addCons(s, c); return true; }
  case IN_FAIL: { u64 k = C(0), m = C(1); fail(s, cstrModel(s, k), cstrModel(s, m)); }
  case IN_CONCRETIZE: { u64 x = C(0); R[in.d] = VC(x); return true; }
  case IN_CANBE: { Val v = A(0); unsigned aw = ci.args[0].w; if (!v.e) { R[in.d] = VC(v.c != 0); return true; } Expr *c = mkNot(mkEq(v.e, mkConst(0, aw))); std::vector<std::pair<uint32_t, u64>> p; int r = solve(s, c, p); R[in.d] = VC(r != 0); return true; }
  case IN_REACH: reachLabel(cstrModel(s, C(0))); return true;
  case IN_NOTE: { std::string t = cstrModel(s, C(0)); if (optEcho) fprintf(stderr, "NOTE %s\n", t.c_str()); s.notes.push_back(t); return true; }
  case IN_TRY: { u64 fp = C(0); u64 cp = C(2); FnInfo *fi = fnAt(fp); if (!fi || fi->f->isDeclaration()) engineError(s, "bad __sym_try target"); Val arg = A(1); int rd = in.d; f.pc++; pushFrame(s, fi, rd); Frame &nf = s.fr.back(); nf.isTry = true; nf.tryCodePtr = cp; s.regs[nf.base + fi->argSlot[0]] = arg; return false; }
  case IN_EXIT: { u64 c = C(0); doExit(s, c); return false; }
  case IN_DONE: throw PathEnd();
  case IN_MALLOC: { u64 sz = C(0); u64 fill = C(1); if (sz > (1ULL << 28)) { R[in.d] = VC(0); return true; } R[in.d] = VC(allocHeap(s, sz, (int)fill)); return true; }
  case IN_FREE: { u64 a = C(0); if (!a) return true; ObjTab &t = s.mem; int i = t.find(a); if (i < 0 || t.v[i].addr != a || t.v[i].o->kind != 1) fail(s, "memory", "invalid or double free"); decObj(t.v[i].o); t.v.erase(t.v.begin() + i); return true; }
  case IN_SYMOBJSIZE: { u64 a = C(0); Obj *o = lookup(s, a, 0, false); R[in.d] = VC(o->size - (a - o->addr)); return true; }
  case IN_FMTD: { u64 b = C(0), cap = C(1), fm = C(2), x = C(3); bool ok; std::string fs = cstr(s, fm, ok); char tmp[1024]; int k = snprintf(tmp, sizeof tmp, fs.c_str(), b2d(x)); if (k > (int)cap - 1) k = cap - 1; for (int i = 0; i <= k; i++) storeAt(s, b + i, 1, VC(i < k ? (uint8_t)tmp[i] : 0), 8); R[in.d] = VC(k); return true; }
  case IN_ISSYM: R[in.d] = VC(A(0).e != nullptr); return true;
  case IN_RANGESYM: { u64 a = C(0), nb = C(1); Obj *o = lookup(s, a, nb, false); bool any = false; if (o->sym) for (u64 i = 0; i < nb; i++) if (o->sym[a - o->addr + i]) any = true; R[in.d] = VC(any); return true; }
  case IN_STRLEN: { u64 a = C(0); Obj *o = lookup(s, a, 1, false); u64 off = a - o->addr, k = off; for (; k < o->size; k++) { if (o->sym && o->sym[k]) { R[in.d] = VC(~0ULL); return true; } if (!o->data[k]) { R[in.d] = VC(k - off); return true; } } fail(s, "memory", "unterminated string read past object end"); }
  case IN_STRCMP: { u64 a = C(0), b = C(1); Obj *x = lookup(s, a, 1, false), *y = lookup(s, b, 1, false); u64 i = a - x->addr, j = b - y->addr;
    for (;; i++, j++) { if (i >= x->size || j >= y->size) fail(s, "memory", "unterminated string read past object end"); if ((x->sym && x->sym[i]) || (y->sym && y->sym[j])) { R[in.d] = VC(2); return true; } if (x->data[i] != y->data[j]) { R[in.d] = VC(x->data[i] < y->data[j] ? 0xffffffffu : 1); return true; } if (!x->data[i]) { R[in.d] = VC(0); return true; } } }
  case IN_STRTOD: { u64 a = C(0); u64 ep = C(1); std::string t; for (u64 p = a;; p++) { Val v = loadAt(s, p, 1, 8); u64 c = v.e ? concretize(s, v.e) : v.c; if (!c) break; if (!(isalnum((int)c) || strchr("+-. \t\n", (int)c))) break; t += (char)c; if (t.size() > 200) break; }
    char *e; double d = strtod(t.c_str(), &e); if (ep) storeAt(s, ep, 8, VC(a + (e - t.c_str())), 64); R[in.d] = VC(d2b(d)); return true; }
  case IN_PUTS: { u64 a = C(0), nb = C(1); if (optEcho) { std::string t; for (u64 i = 0; i < nb; i++) { Val v = loadAt(s, a + i, 1, 8); t += v.e ? '?' : (char)v.c; } fwrite(t.data(), 1, t.size(), stdout); fflush(stdout); } return true; }
  }
  engineError(s, "intrinsic not implemented: " + ci.name); return true;
}

static void stepMany(State &s, int budget) {
  while (budget-- > 0) {
    Frame *fp = &s.fr.back(); Frame &f = *fp; Val *R = s.regs.data() + f.base; In &in = f.fn->code[f.pc];
    if (++s.icount > optPathInstr) fail(s, "nontermination", "path exceeded the instruction budget");
    switch (in.op) {
    case O_BIN: {
      EOp op = (EOp)in.eop;
      for (unsigned i = 0; i < in.n; i++) {
        Val a = R[in.a + i], b = R[in.b + i];
        if (op >= E_UDIV && op <= E_SREM) {
          if (!b.e) { if (!b.c) fail(s, "arithmetic", "division by zero"); }
          else if (!decide(s, mkNot(mkEq(b.e, mkConst(0, in.w))))) fail(s, "arithmetic", "division by zero");
        }
        R[in.d + i] = binop(s, op, in.w, a, b);
      }
      f.pc++; break; }
    case O_FNEG: for (unsigned i = 0; i < in.n; i++) { Val a = R[in.a + i]; R[in.d + i] = a.e ? VE(mk(E_FNEG, in.w, a.e)) : VC((a.c ^ (1ULL << (in.w - 1))) & maskw(in.w)); } f.pc++; break;
    case O_ICMP: for (unsigned i = 0; i < in.n; i++) R[in.d + i] = icmp(in.eop, in.w, R[in.a + i], R[in.b + i]); f.pc++; break;
    case O_FCMP: for (unsigned i = 0; i < in.n; i++) R[in.d + i] = fcmp(in.eop, in.w, R[in.a + i], R[in.b + i]); f.pc++; break;
    case O_CAST: for (unsigned i = 0; i < in.n; i++) {
        Val a = R[in.a + i];
        if (a.e && (in.eop == E_SITOF || in.eop == E_UITOF) && !optFpSym) { u64 c = concretize(s, a.e); a = VC(c); }
        if (!a.e) { switch (in.eop) { case E_EXTRACT: case E_ZEXT: R[in.d + i] = VC(a.c & maskw(in.w)); break; case E_SEXT: R[in.d + i] = VC((u64)sextw(a.c, in.kw) & maskw(in.w)); break; default: { bool ok; R[in.d + i] = VC(foldOp((EOp)in.eop, in.w, in.kw, a.c, 0, 0, ok)); } } }
        else R[in.d + i] = VE(in.eop == E_EXTRACT ? mkExtract(a.e, 0, in.w) : mk((EOp)in.eop, in.w, a.e));
      } f.pc++; break;
    case O_BITCAST: { // via bytes/bits, little endian lanes
      unsigned tot = in.n * in.w; std::vector<Expr *> src; bool anySym = false; for (int i = 0; i < in.c; i++) if (R[in.a + i].e) anySym = true;
      if (!anySym) { std::vector<uint8_t> bits((tot + 7) / 8 + 8); unsigned kb = in.kw / 8, wb = in.w / 8; if (in.kw % 8 || in.w % 8) engineError(s, "sub-byte vector bitcast"); for (int i = 0; i < in.c; i++) memcpy(&bits[i * kb], &R[in.a + i].c, kb); std::vector<Val> o; for (unsigned i = 0; i < in.n; i++) { u64 v = 0; memcpy(&v, &bits[i * wb], wb); o.push_back(VC(v)); } for (unsigned i = 0; i < in.n; i++) R[in.d + i] = o[i]; }
      else { std::vector<Val> o; for (unsigned i = 0; i < in.n; i++) { Expr *e = nullptr; unsigned bit = i * in.w; while (bit < (i + 1) * in.w) { unsigned l = bit / in.kw, off = bit % in.kw, nb = std::min<unsigned>(in.kw - off, (i + 1) * in.w - bit); Expr *p = mkExtract(EX(R[in.a + l], in.kw), off, nb); e = e ? mkConcat(p, e) : p; bit += nb; } o.push_back(VE(e)); } for (unsigned i = 0; i < in.n; i++) R[in.d + i] = o[i]; }
      f.pc++; break; }
    case O_SELECT: {
      for (unsigned i = 0; i < in.n; i++) {
        Val c = R[in.a + (in.kw ? i : 0)]; Val t = R[in.b + i], e = R[in.c + i];
        if (!c.e) R[in.d + i] = c.c ? t : e;
        else if (in.eop || in.w == 0) { bool v = decide(s, c.e); R[in.d + i] = v ? t : e; }
        else R[in.d + i] = VE(mkIte(c.e, EX(t, in.w), EX(e, in.w)));
      }
      f.pc++; break; }
    case O_GEP: {
      Val b = R[in.a]; u64 off = in.imm; Expr *se = b.e;
      if (in.n) for (auto &g : f.fn->geps[in.ext]) { Val v = R[g.slot]; if (!v.e) off += (u64)(sextw(v.c, g.w) * g.scale); else { Expr *x = mk(E_MUL, 64, mkSExt(v.e, 64), mkConst(g.scale, 64)); if (g.scale > 0 && !(g.scale & (g.scale - 1))) x = mk(E_SHL, 64, mkSExt(v.e, 64), mkConst(__builtin_ctzll(g.scale), 64)); se = se ? mk(E_ADD, 64, se, x) : x; } }
      if (!se) R[in.d] = VC(b.c + off);
      else { u64 cst = off + (b.e ? 0 : b.c); R[in.d] = VE(cst ? mk(E_ADD, 64, se, mkConst(cst, 64)) : se); }
      f.pc++; break; }
    case O_LOAD: {
      if (in.n == 1) { Val a = R[in.a]; Val v = a.e ? loadSymAddr(s, a.e, in.kw, in.w) : loadAt(s, a.c, in.kw, in.w); R[in.d] = v; }
      else { u64 a = cval(s, R[in.a]); auto &es = f.fn->elts[in.ext]; for (unsigned i = 0; i < in.n; i++) R[in.d + i] = loadAt(s, a + es[i].off, es[i].bytes, es[i].w); }
      f.pc++; break; }
    case O_STORE: {
      u64 a = R[in.a].e ? concretize(s, R[in.a].e) : R[in.a].c;
      if (in.n == 1) storeAt(s, a, in.kw, R[in.b], in.w);
      else { auto &es = f.fn->elts[in.ext]; for (unsigned i = 0; i < in.n; i++) storeAt(s, a + es[i].off, es[i].bytes, R[in.b + i], es[i].w); }
      f.pc++; break; }
    case O_ALLOCA: { u64 cnt = cval(s, R[in.a]); u64 p = allocStack(s, in.imm * cnt, in.b); R[in.d] = VC(p); f.pc++; break; }
    case O_BR: takeEdge(s, f, R, in.a); break;
    case O_CONDBR: { Val c = R[in.a]; bool t = c.e ? decide(s, c.e) : c.c; takeEdge(s, f, R, t ? in.b : in.c); break; }
    case O_SWITCH: {
      SwitchInfo &si = f.fn->switches[in.ext]; Val v = R[in.a]; int e = si.def;
      if (!v.e) { for (auto &c : si.cases) if (c.first == v.c) { e = c.second; break; } }
      else {
        u64 mv = evalIn(s, v.e); int hit = -1; for (size_t i = 0; i < si.cases.size(); i++) if (si.cases[i].first == mv) { hit = i; break; }
        Expr *c;
        if (hit >= 0) { c = mkEq(v.e, mkConst(mv, in.w)); e = si.cases[hit].second; }
        else { c = mkConst(1, 1); for (auto &k : si.cases) c = mk(E_AND, 1, c, mkNot(mkEq(v.e, mkConst(k.first, in.w)))); }
        decide(s, c);
      }
      takeEdge(s, f, R, e); break; }
    case O_MOVE: { auto &mv = f.fn->moves[in.ext]; if (mv.size() == 1) R[mv[0].first] = R[mv[0].second]; else { std::vector<Val> t; for (auto &m : mv) t.push_back(R[m.second]); for (size_t i = 0; i < mv.size(); i++) R[mv[i].first] = t[i]; } f.pc++; break; }
    case O_XELT: { u64 i = cval(s, R[in.b]); if (i >= in.n) i = 0; R[in.d] = R[in.a + i]; f.pc++; break; }
    case O_IELT: { u64 i = cval(s, R[in.b]); Val v = R[in.c]; for (unsigned k = 0; k < in.n; k++) R[in.d + k] = k == i ? v : R[in.a + k]; f.pc++; break; }
    case O_RMW: { u64 a = cval(s, R[in.a]); Val o = loadAt(s, a, in.w / 8, in.w); Val n = R[in.b]; if (in.eop == AtomicRMWInst::Add) n = binop(s, E_ADD, in.w, o, n); else if (in.eop == AtomicRMWInst::Sub) n = binop(s, E_SUB, in.w, o, n); else if (in.eop != AtomicRMWInst::Xchg) engineError(s, "rmw"); storeAt(s, a, in.w / 8, n, in.w); R[in.d] = o; f.pc++; break; }
    case O_UNREACH: fail(s, "unreachable", "undefined behaviour: unreachable instruction executed");
    case O_BAD: engineError(s, "exception handling reached");
    case O_RET: {
      Val tmp[16]; unsigned n = in.n; std::vector<Val> big; Val *t = tmp; if (n > 16) { big.resize(n); t = big.data(); } for (unsigned i = 0; i < n; i++) t[i] = R[in.a + i];
      int rd = f.retDst; bool isTry = f.isTry; popStack(s, f); s.regs.resize(f.base); s.fr.pop_back();
      if (s.fr.empty()) { u64 k = ++S->completed; if (!(k & (k - 1))) { s.fr.clear(); sampleEvent(s); } throw PathEnd(); }
      if (rd >= 0) { Val *Q = s.regs.data() + s.fr.back().base; if (isTry) Q[rd] = VC(0); else for (unsigned i = 0; i < n; i++) Q[rd + i] = t[i]; }
      break; }
    case O_CALL: {
      CallInfo &ci = f.fn->calls[in.ext];
      if (ci.intr >= 0) { if (doIntrinsic(s, f, R, in, ci)) f.pc++; break; }
      FnInfo *fi = ci.fi;
      if (!fi) { u64 a = cval(s, R[ci.calleeSlot]); fi = fnAt(a); if (!fi) fail(s, "memory", "call through invalid function pointer"); }
      if (fi->f->isDeclaration()) {
        if (!ci.callee) { int id = intrinsicId(fi->name, true); if (id > 0) { CallInfo c2 = ci; c2.intr = id; c2.name = fi->name; if (doIntrinsic(s, f, R, in, c2)) f.pc++; break; } }
        if (fi->f->isIntrinsic()) engineError(s, "llvm intrinsic " + fi->name);
        engineError(s, "call to undefined external " + fi->name); }
      unsigned np = fi->f->arg_size(); bool va = fi->f->isVarArg();
      f.pc++;
      uint32_t cbase = f.base; int rd = ci.voidRet ? -1 : in.d;
      uint32_t cpc = f.pc; (void)cpc;
      if (!fi->decoded) { try { decodeFn(fi); } catch (Unsupported &u) { engineError(s, "decode " + fi->name + ": " + u.why); } }
      pushFrame(s, fi, rd);
      Frame &nf = s.fr.back();
      for (unsigned i = 0; i < np && i < ci.args.size(); i++) {
        CallArg &ca = ci.args[i];
        if (fi->argByval[i]) { u64 src = s.regs[cbase + ca.slot].c; u64 p = allocStack(s, fi->argByval[i], 16); memcpySt(s, p, src, fi->argByval[i]); s.regs[nf.base + fi->argSlot[i]] = VC(p); continue; }
        for (unsigned k = 0; k < ca.n && k < fi->argN[i]; k++) s.regs[nf.base + fi->argSlot[i] + k] = s.regs[cbase + ca.slot + k];
      }
      if (va && ci.args.size() > np) { auto v = std::make_shared<std::vector<std::pair<Val, uint8_t>>>(); for (unsigned i = np; i < ci.args.size(); i++) { if (ci.args[i].byval) { // struct passed by value through ...: lay out its words
            u64 src = s.regs[cbase + ci.args[i].slot].c; for (u64 k = 0; k < ci.args[i].byvalSize; k += 8) v->push_back({loadAt(s, src + k, std::min<u64>(8, ci.args[i].byvalSize - k), std::min<u64>(8, ci.args[i].byvalSize - k) * 8), 64}); continue; }
          for (unsigned k = 0; k < ci.args[i].n; k++) v->push_back({s.regs[cbase + ci.args[i].slot + k], ci.args[i].w}); } nf.va = v; }
      break; }
    default: engineError(s, "bad opcode");
    }
  }
}
