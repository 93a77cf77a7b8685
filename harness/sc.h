/* helpers shared by the sclite harnesses */
#ifndef SC_H
#define SC_H
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#ifdef ASC
int tool_main_cxx(int, char **) __asm__("_Z9tool_mainiPPc");
#define tool_main tool_main_cxx
#else
int tool_main(int, char **);
#endif
/* the report tables are allocated once, before paths split: every report starts by erasing them */
extern void Desc_erase(void) __attribute__((weak));
static void warm(void) { if (Desc_erase) Desc_erase(); }
#ifndef MAXW
#define MAXW 12
#endif
#ifndef MAXL
#define MAXL 24
#endif
typedef struct { char s[MAXL]; int n; } wrd;
typedef struct { char type; wrd r, h; } atok;
struct av { int n; char *v[48]; };
static void sc_run_(void *a) { struct av *x = a; tool_main(x->n, x->v); }
/* run the tool; returns its exit code (0 when main returns) */
static int run_tool(char **v) { struct av a; a.n = 0; while (v[a.n]) { a.v[a.n] = v[a.n]; a.n++; } a.v[a.n] = 0; int code = 0; if (__sym_try(sc_run_, &a, &code)) return code; return 0; }
static char *nm2(const char *p, int i, int j) { static char b[8][24]; static int k; char *o = b[k++ & 7]; int n = 0; while (*p) o[n++] = *p++; o[n++] = '0' + i; if (j >= 0) { o[n++] = '_'; o[n++] = '0' + j; } o[n] = 0; return o; }
/* a word of exactly len symbolic letters in lo..hi */
static void mkword(wrd *w, const char *pre, int idx, int len, int lo, int hi) { for (int i = 0; i < len; i++) w->s[i] = (char)sym_range(nm2(pre, idx, i), lo, hi); w->s[len] = 0; w->n = len; }
static int weq(const wrd *a, const wrd *b) { if (a->n != b->n) return 0; for (int i = 0; i < a->n; i++) if (a->s[i] != b->s[i]) return 0; return 1; }
static int put(char *b, int n, const char *s) { while (*s) b[n++] = *s++; b[n] = 0; return n; }
static int putwd(char *b, int n, const wrd *w) { for (int i = 0; i < w->n; i++) b[n++] = w->s[i]; b[n] = 0; return n; }
/* parse one quoted (or empty) word at p, up to delimiter , : or newline */
static const char *pword(const char *p, wrd *w) { w->n = 0; w->s[0] = 0; if (*p == '"') { p++; while (*p != '"') { __sym_check(*p && *p != '\n' && w->n < MAXL - 1, "alignment record is well formed (quoted word)"); w->s[w->n++] = *p++; } w->s[w->n] = 0; p++; } return p; }
/* parse the alignment line of a PATH element into tokens; returns the count. p is advanced past the line */
static int parse_path(const char **pp, atok *t, int max) {
  const char *p = *pp; int n = 0;
  while (*p && *p != '\n') {
    __sym_check(n < max, "alignment no longer than ref plus hyp");
    t[n].type = *p++; __sym_check(*p == ',', "alignment record is well formed"); p++;
    p = pword(p, &t[n].r); __sym_check(*p == ',', "alignment record is well formed"); p++;
    p = pword(p, &t[n].h);
    while (*p && *p != ':' && *p != '\n') p++; /* optional weight/time/confidence fields */
    if (*p == ':') p++;
    n++;
  }
  if (*p == '\n') p++;
  *pp = p; return n;
}
/* minimum weighted edit cost, by the textbook recurrence */
static int edit_cost(const wrd *r, int nr, const wrd *h, int nh, int S, int I, int D) {
  int c[MAXW + 1][MAXW + 1];
  for (int i = 0; i <= nr; i++) for (int j = 0; j <= nh; j++) {
    if (!i && !j) { c[0][0] = 0; continue; }
    int b = 1000000;
    if (i && j) { int v = c[i - 1][j - 1] + (weq(&r[i - 1], &h[j - 1]) ? 0 : S); if (v < b) b = v; }
    if (i) { int v = c[i - 1][j] + D; if (v < b) b = v; }
    if (j) { int v = c[i][j - 1] + I; if (v < b) b = v; }
    c[i][j] = b;
  }
  return c[nr][nh];
}
static int attr_int(const char *p, const char *name) { /* integer attribute of the element starting at p */
  size_t l = strlen(name); for (; *p && *p != '>'; p++) if (!strncmp(p, name, l) && p[l] == '=' && p[l + 1] == '"') return atoi(p + l + 2); return -1; }
#endif
