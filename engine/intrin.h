#pragma once
enum { IN_IGNORE = 0, IN_MEMCPY, IN_MEMSET, IN_ABS, IN_SMIN, IN_SMAX, IN_UMIN, IN_UMAX, IN_CTLZ, IN_CTTZ, IN_CTPOP, IN_BSWAP, IN_FSHL, IN_FSHR,
  IN_SADDO, IN_UADDO, IN_SSUBO, IN_USUBO, IN_SMULO, IN_UMULO, IN_UADDS, IN_USUBS, IN_SADDS, IN_SSUBS, IN_FABS, IN_FFLOOR, IN_FCEIL, IN_FTRUNC, IN_FRINT, IN_FROUND, IN_FSQRT, IN_FMULADD, IN_FMIN, IN_FMAX, IN_FCOPYSIGN, IN_MATH1, IN_MATH2,
  IN_VASTART, IN_VACOPY, IN_STACKSAVE, IN_TRAP, IN_OBJSIZE, IN_EXPECT, IN_ISCONST, IN_ISFPCLASS, IN_THREADLOCAL,
  IN_SYMVAR, IN_ASSUME, IN_CHECK, IN_FAIL, IN_CONCRETIZE, IN_REACH, IN_NOTE, IN_TRY, IN_EXIT, IN_DONE, IN_MALLOC, IN_FREE, IN_SYMOBJSIZE, IN_FMTD, IN_ISSYM, IN_RANGESYM, IN_STRLEN, IN_STRCMP, IN_STRTOD, IN_PUTS, IN_MEMCHRNL, IN_CANBE };
static int intrinsicId(const std::string &n, bool decl) {
  if (!decl) return -1;
  static std::map<std::string, int> m = {
    {"__sym_var", IN_SYMVAR}, {"__sym_assume", IN_ASSUME}, {"__sym_check", IN_CHECK}, {"__sym_fail", IN_FAIL}, {"__sym_concretize", IN_CONCRETIZE}, {"__sym_reach", IN_REACH}, {"__sym_note", IN_NOTE}, {"__sym_try", IN_TRY}, {"__sym_exit", IN_EXIT}, {"__sym_done", IN_DONE}, {"__sym_malloc", IN_MALLOC}, {"__sym_free", IN_FREE}, {"__sym_objsize", IN_SYMOBJSIZE}, {"__sym_fmtd", IN_FMTD}, {"__sym_is_sym", IN_ISSYM}, {"__sym_range_sym", IN_RANGESYM}, {"__sym_strlen", IN_STRLEN}, {"__sym_strcmp", IN_STRCMP}, {"__sym_strtod", IN_STRTOD}, {"__sym_puts", IN_PUTS}, {"__sym_canbe", IN_CANBE},
    {"exp", IN_MATH1}, {"log", IN_MATH1}, {"log10", IN_MATH1}, {"log2", IN_MATH1}, {"sin", IN_MATH1}, {"cos", IN_MATH1}, {"tan", IN_MATH1}, {"atan", IN_MATH1}, {"expf", IN_MATH1}, {"logf", IN_MATH1}, {"erf", IN_MATH1}, {"erfc", IN_MATH1}, {"round", IN_MATH1}, {"roundf", IN_MATH1}, {"rint", IN_MATH1}, {"exp2", IN_MATH1},{"log1p", IN_MATH1},
    {"sqrt", IN_FSQRT}, {"sqrtf", IN_FSQRT}, {"floor", IN_FFLOOR}, {"floorf", IN_FFLOOR}, {"ceil", IN_FCEIL}, {"ceilf", IN_FCEIL}, {"fabs", IN_FABS}, {"fabsf", IN_FABS}, {"trunc", IN_FTRUNC},
    {"pow", IN_MATH2}, {"powf", IN_MATH2}, {"fmod", IN_MATH2}, {"fmodf", IN_MATH2}, {"atan2", IN_MATH2}, {"ldexp", IN_MATH2}, {"fmin", IN_FMIN}, {"fmax", IN_FMAX}};
  auto it = m.find(n); if (it != m.end()) return it->second;
  if (n.compare(0, 5, "llvm.")) return -1;
  static const std::pair<const char *, int> pf[] = {
    {"llvm.dbg.", IN_IGNORE}, {"llvm.lifetime.", IN_IGNORE}, {"llvm.assume", IN_IGNORE}, {"llvm.invariant.", IN_IGNORE}, {"llvm.donothing", IN_IGNORE}, {"llvm.va_end", IN_IGNORE}, {"llvm.stackrestore", IN_IGNORE}, {"llvm.prefetch", IN_IGNORE}, {"llvm.experimental.noalias", IN_IGNORE}, {"llvm.sideeffect", IN_IGNORE}, {"llvm.var.annotation", IN_IGNORE},
    {"llvm.memcpy", IN_MEMCPY}, {"llvm.memmove", IN_MEMCPY}, {"llvm.memset", IN_MEMSET}, {"llvm.abs.", IN_ABS}, {"llvm.smin.", IN_SMIN}, {"llvm.smax.", IN_SMAX}, {"llvm.umin.", IN_UMIN}, {"llvm.umax.", IN_UMAX}, {"llvm.ctlz", IN_CTLZ}, {"llvm.cttz", IN_CTTZ}, {"llvm.ctpop", IN_CTPOP}, {"llvm.bswap", IN_BSWAP}, {"llvm.fshl", IN_FSHL}, {"llvm.fshr", IN_FSHR},
    {"llvm.sadd.with", IN_SADDO}, {"llvm.uadd.with", IN_UADDO}, {"llvm.ssub.with", IN_SSUBO}, {"llvm.usub.with", IN_USUBO}, {"llvm.smul.with", IN_SMULO}, {"llvm.umul.with", IN_UMULO}, {"llvm.uadd.sat", IN_UADDS}, {"llvm.usub.sat", IN_USUBS}, {"llvm.sadd.sat", IN_SADDS}, {"llvm.ssub.sat", IN_SSUBS},
    {"llvm.fabs", IN_FABS}, {"llvm.floor", IN_FFLOOR}, {"llvm.ceil", IN_FCEIL}, {"llvm.trunc", IN_FTRUNC}, {"llvm.rint", IN_FRINT}, {"llvm.nearbyint", IN_FRINT}, {"llvm.round.", IN_FROUND}, {"llvm.sqrt", IN_FSQRT}, {"llvm.fmuladd", IN_FMULADD}, {"llvm.minnum", IN_FMIN}, {"llvm.maxnum", IN_FMAX}, {"llvm.copysign", IN_FCOPYSIGN},
    {"llvm.exp.", IN_MATH1}, {"llvm.log.", IN_MATH1}, {"llvm.log10.", IN_MATH1}, {"llvm.log2.", IN_MATH1}, {"llvm.sin.", IN_MATH1}, {"llvm.cos.", IN_MATH1}, {"llvm.exp2.", IN_MATH1}, {"llvm.pow.", IN_MATH2},
    {"llvm.va_start", IN_VASTART}, {"llvm.va_copy", IN_VACOPY}, {"llvm.stacksave", IN_STACKSAVE}, {"llvm.trap", IN_TRAP}, {"llvm.debugtrap", IN_TRAP}, {"llvm.ubsantrap", IN_TRAP}, {"llvm.objectsize", IN_OBJSIZE}, {"llvm.expect", IN_EXPECT}, {"llvm.launder", IN_EXPECT}, {"llvm.strip.inv", IN_EXPECT}, {"llvm.ptr.annotation", IN_EXPECT}, {"llvm.is.constant", IN_ISCONST}, {"llvm.is.fpclass", IN_ISFPCLASS}, {"llvm.threadlocal.address", IN_EXPECT}};
  for (auto &p : pf) if (!n.compare(0, strlen(p.first), p.first)) return p.second;
  return -1;
}
