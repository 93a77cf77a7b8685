/* Harness interface. The same harness source is executed symbolically by symx and
   compiled natively (rt/replay.c) to replay a counterexample against the real code. */
#ifndef SYMX_H
#define SYMX_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t __sym_var(const char *name, int bits);     /* fresh (or same-named) symbolic value */
void __sym_assume(int c);
void __sym_check(int c, const char *msg);            /* assertion */
void __sym_fail(const char *kind, const char *msg);
uint64_t __sym_concretize(uint64_t v);               /* case split on every feasible value */
void __sym_reach(const char *label);                 /* vacuity witness */
void __sym_note(const char *text);
int __sym_try(void (*fn)(void *), void *arg, int *code); /* 1 when fn called exit(code) */
void __sym_exit(int code);
void __sym_done(void);
int __sym_is_sym(uint64_t v);
/* virtual files */
void vfs_put(const char *name, const char *data, size_t len);
char *vfs_get(const char *name, size_t *len);        /* 0 when absent; NUL terminated */
void rt_capture_stdout(int on);
char *rt_stdout(size_t *len);
void rt_stdin(const char *data, size_t len);
/* helpers (rt/hlp.h) */
#ifdef __cplusplus
}
#endif
static inline int sym_range(const char *nm, int lo, int hi) { /* lo..hi, symbolic */
  int v = (int)__sym_var(nm, 8); __sym_assume(v >= 0 && v <= hi - lo); return lo + v; }
static inline int sym_choose(const char *nm, int lo, int hi) { return (int)__sym_concretize((uint64_t)sym_range(nm, lo, hi)); }
#endif
