/* rfilter1: rewriting by a rule file, against the algorithm of doc/GLMRules.txt */
#include "symx.h"
#include <string.h>
#include <ctype.h>
int tool_main(int, char **);
#ifndef NR
#define NR 2
#endif
#ifndef MINR
#define MINR 1
#endif
#ifndef LA
#define LA 2
#endif
#ifndef LB
#define LB 2
#endif
#ifndef LC
#define LC 1
#endif
#ifndef LI
#define LI 4
#endif
#ifndef ALPHA
#define ALPHA "ab "
#endif
#ifndef BALPHA
#define BALPHA "xy "
#endif
#ifndef STYLE /* 0 bare, 1 [..], 2 "..", 3: chosen per field */
#define STYLE 1
#endif
#ifndef CTX /* 0 none, 1 always, 2 chosen */
#define CTX 2
#endif
#ifndef NLINES
#define NLINES 1
#endif
#ifndef PADR
#define PADR 0
#endif
#ifndef PADT
#define PADT 0
#endif
#ifndef STEM
#define STEM 0
#endif
#ifndef FLAG
#define FLAG ";;"
#endif
typedef struct { int n; char s[8 + STEM]; } str;
static str A[8], B[8], C[8], D[8]; static int nr, cs = 1, copy = 1; static char text[1500 + PADR * 40 + STEM * 30]; static int tn;
static char *nm3(const char *p, int i, int j) { static char b[64][16]; static int k; char *q = b[k++ & 63]; int n = 0; while (*p) q[n++] = *p++; q[n++] = '0' + i; q[n++] = 'a' + j; q[n] = 0; return q; }
static void mk(str *f, const char *p, int i, int lo, int hi, const char *al, int edge) {
  f->n = lo == hi ? lo : sym_choose(nm3(p, i, 25), lo, hi);
  for (int k = 0; k < f->n; k++) { unsigned char c = (unsigned char)__sym_var(nm3(p, i, k), 8); int ok = 0; for (const char *q = al; *q; q++) ok |= (c == (unsigned char)*q) & !(edge && *q == ' ' && (k == 0 || k == f->n - 1)); __sym_assume(ok); f->s[k] = (char)c; }
  if (STEM && (p[0] == 'a' || p[0] == 'c' || p[0] == 'd') && f->n) { char t[8]; int k; for (k = 0; k < f->n; k++) t[k] = f->s[k]; for (k = 0; k < STEM; k++) f->s[k] = (char)('p' + k % 7); for (k = 0; k < f->n; k++) f->s[STEM + k] = t[k]; f->n += STEM; }
  f->s[f->n] = 0; }
static void put(const char *s) { while (*s) text[tn++] = *s++; }
static void field(const char *p, int i, str *f, int lo, int hi, const char *al) {
  int st = STYLE == 3 ? sym_choose(nm3(p, i, 24), 0, 2) : STYLE; if (st == 0 && lo == 0) lo = 1;
  mk(f, p, i, lo, hi, al, st == 0); if (st == 1) put("["); if (st == 2) put("\""); for (int k = 0; k < f->n; k++) text[tn++] = f->s[k]; if (st == 1) put("]"); if (st == 2) put("\""); }
static int eq(char a, char b) { if (cs) return a == b; unsigned char x = (unsigned char)a, y = (unsigned char)b; x = x >= 'a' && x <= 'z' ? x - 32 : x; y = y >= 'a' && y <= 'z' ? y - 32 : y; return x == y; }
static int match(const char *in, int n, int at, const str *f) { if (at < 0 || at + f->n > n) return 0; for (int k = 0; k < f->n; k++) if (!eq(in[at + k], f->s[k])) return 0; return 1; }
static void run(void *a) { char *av[] = {"rfilter1", "rules", 0}; *(int *)a = tool_main(2, av); }
void harness(void) {
  static char in[NLINES * (LI * (3 + STEM) + 2) + 2 + PADT], want[600 + 2 * PADT + NLINES * LI * (1 + STEM)]; int wn = 0, n = 0, rc = 0, code = 0;
  put(FLAG " rules\n* name = \"t\"\n* desc = 'max'\n");
#ifdef NOCASE
  put("* CASE_SENSITIVE = 'F'\n"); cs = 0;
#endif
#ifdef NOCOPY
  put("* copy_no_hit : \"no\"\n"); copy = 0;
#endif
  nr = sym_choose("nr", MINR, NR);
#ifdef MAXR
  put("* MAX_NRULES = '"); { int v = nr + PADR; if (v > 99) text[tn++] = '0' + v / 100; if (v > 9) text[tn++] = '0' + v / 10 % 10; text[tn++] = '0' + v % 10; } put("'\n");
#endif
  for (int i = 0; i < PADR / 2; i++) { put("[Q"); text[tn++] = 'a' + i / 26; text[tn++] = 'a' + i % 26; put("] => [U"); text[tn++] = 'a' + i % 26; put("]\n"); }
  for (int i = 0; i < nr; i++) {
    field("a", i, &A[i], 1, LA, ALPHA); put(" => "); field("b", i, &B[i], 0, LB, BALPHA); C[i].n = D[i].n = 0;
    if (CTX == 1 || (CTX == 2 && sym_choose(nm3("x", i, 0), 0, 1))) { put(" / "); int k = sym_choose(nm3("k", i, 0), 0, 2);
      if (k != 1) { field("c", i, &C[i], k ? 1 : 0, LC, ALPHA); put(" "); } put("__"); if (k != 2) { put(" "); field("d", i, &D[i], 0, LC, ALPHA); } }
#ifdef COMMENT
    int m = sym_choose(nm3("m", i, 0), 0, 2); if (m) put(" " FLAG " q => r / s __ t"); if (m == 2) { for (int k = 0; k < 150; k++) put("-"); put(" a => b"); }
#endif
    put("\n");
#ifdef COMMENT
    put(FLAG " a => zz\n\n  " FLAG " a => yy\n");
#endif
  }
  for (int i = PADR / 2; i < PADR; i++) { put("[Q"); text[tn++] = 'a' + i / 26; text[tn++] = 'a' + i % 26; put("] => [U"); text[tn++] = 'a' + i % 26; put("]\n"); }
  vfs_put("rules", text, tn);
  for (int l = 0; l < NLINES; l++) { str f[1]; (void)f; int at = n, k = sym_choose(nm3("n", l, 0), 0, LI); for (int j = 0; j < PADT; j++) in[n++] = (char)("xyz w"[j % 5]); for (int j = 0; j < k; j++) { if (STEM) { if (sym_choose(nm3("s", l, j), 0, 1)) for (int q = 0; q < STEM; q++) in[n++] = (char)('p' + q % 7); }
#if PADR
    int qr = sym_choose(nm3("q", l, j), 0, 4); if (qr) { static const int QI[] = {0, PADR / 2 - 1, PADR / 2, PADR - 1}; int v = QI[qr - 1]; in[n++] = 'Q'; in[n++] = (char)('a' + v / 26); in[n++] = (char)('a' + v % 26); continue; }
#endif
    unsigned char c = (unsigned char)__sym_var(nm3("i", l, j), 8); int ok = 0; for (const char *q = ALPHA; *q; q++) ok |= c == (unsigned char)*q; __sym_assume(ok); in[n++] = (char)c; } in[n++] = '\n';
    for (int p = at; p < n;) { int r; for (r = 0; r < nr; r++) if (match(in, n, p, &A[r]) && (C[r].n == 0 || (p - C[r].n >= at && match(in, n, p - C[r].n, &C[r]))) && match(in, n, p + A[r].n, &D[r])) break;
#if PADR
      if (in[p] == 'Q' && in[p + 1] >= 'a' && in[p + 2] >= 'a') { want[wn++] = 'U'; want[wn++] = in[p + 2]; p += 3; __sym_reach("one of many"); continue; }
#endif
      if (r < nr) { for (int q = 0; q < B[r].n; q++) want[wn++] = B[r].s[q]; p += A[r].n; __sym_reach("a rule applies"); if (C[r].n && D[r].n) __sym_reach("in context"); if (r) __sym_reach("a later rule applies"); }
      else { if (copy) want[wn++] = in[p]; p++; } } }
  in[n] = 0; rt_stdin(in, n); rt_capture_stdout(1);
  int ex = __sym_try(run, &rc, &code); __sym_check(!ex && rc == 0, "a well formed rule file is accepted");
  size_t on; char *o = rt_stdout(&on); __sym_check(on == (size_t)wn, "the output has the length the rules give"); for (int i = 0; i < wn; i++) __sym_check(o[i] == want[i], "each position is rewritten by the first matching rule, other text is kept");
}
