/* Native implementation of the harness interface: concrete values come from the file named by
   SYMX_MODEL (lines "name value"), files live in the current (scratch) directory. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <setjmp.h>
#include <fcntl.h>
#include "symx.h"
static struct { char n[128]; unsigned long long v; } mv[65536]; static int nmv = -1;
static void die(int c) { fflush(0); _exit(c); }
static void load(void) { nmv = 0; const char *f = getenv("SYMX_MODEL"); FILE *p = f ? fopen(f, "r") : 0; if (!p) return; while (nmv < 65536 && fscanf(p, "%127s %llu", mv[nmv].n, &mv[nmv].v) == 2) nmv++; fclose(p); }
uint64_t __sym_var(const char *n, int bits) { if (nmv < 0) load(); uint64_t m = bits >= 64 ? ~0ULL : (1ULL << bits) - 1; for (int i = 0; i < nmv; i++) if (!strcmp(mv[i].n, n)) return mv[i].v & m; return 0; }
void __sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); die(4); } }
void __sym_check(int c, const char *m) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); die(3); } }
void __sym_fail(const char *k, const char *m) { fprintf(stderr, "REPLAY-VIOLATION %s: %s\n", k, m); die(3); }
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_reach(const char *l) { fprintf(stderr, "REACH %s\n", l); }
void __sym_note(const char *l) { fprintf(stderr, "NOTE %s\n", l); }
void __sym_done(void) { die(0); }
int __sym_is_sym(uint64_t v) { return 0; }
static jmp_buf *jb; static int jcode;
int __sym_try(void (*fn)(void *), void *a, int *code) { jmp_buf b, *old = jb; int r = 0; jb = &b; if (!setjmp(b)) fn(a); else { *code = jcode; r = 1; } jb = old; return r; }
void __sym_exit(int c) { if (jb) { jcode = c; longjmp(*jb, 1); } die(0); }
void __wrap_exit(int c) { __sym_exit(c); }
void vfs_put(const char *n, const char *d, size_t l) { FILE *f = fopen(n, "wb"); if (!f) { perror(n); die(5); } fwrite(d, 1, l, f); fclose(f); }
static char *slurp(const char *n, size_t *len) { FILE *f = fopen(n, "rb"); if (!f) return 0; size_t cap = 1 << 16, k = 0, r; char *b = malloc(cap); while ((r = fread(b + k, 1, cap - k - 1, f)) > 0) { k += r; if (cap - k < 2) b = realloc(b, cap *= 2); } b[k] = 0; fclose(f); if (len) *len = k; return b; }
char *vfs_get(const char *n, size_t *len) { return slurp(n, len); }
void rt_capture_stdout(int on) { if (on) { fflush(stdout); if (!freopen("stdout.cap", "a", stdout)) die(5); } }
char *rt_stdout(size_t *len) { fflush(stdout); char *p = slurp("stdout.cap", len); if (!p) { if (len) *len = 0; return strdup(""); } return p; }
void rt_stdin(const char *d, size_t n) { vfs_put("stdin.dat", d, n); if (!freopen("stdin.dat", "r", stdin)) die(5); }
void harness(void);
int main(void) { setvbuf(stderr, 0, _IONBF, 0); harness(); die(0); }
