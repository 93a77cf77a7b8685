/* Reading back the tools' reports. Everything here works on the text the tools write. */
#ifndef SGM_H
#define SGM_H
#include "sc.h"
#include <math.h>
#ifndef MAXT
#define MAXT 40
#endif
#ifndef MAXP
#define MAXP 24
#endif
typedef struct { char type; wrd r, h; const char *aux; int auxn; } stok;
typedef struct { char id[40], labels[40], file[40], chan[40], spk[40]; int spkno, seq, wc, n, hasrt, hasht; const char *attrs; stok t[MAXT]; } spath;
typedef struct { int nspk; char spk[MAXP][40]; int np; spath p[MAXP]; } ssys;
static int strat(const char *p, const char *name, char *out, int max) { /* string attribute of the element at p; -1 when absent */
  size_t l = strlen(name);
  int qt = 0;
  for (; *p && (qt || *p != '>') && *p != '\n'; p++) {
    if (*p == '"') qt = !qt;
    if (!qt && p[0] == ' ' && !strncmp(p + 1, name, l) && p[l + 1] == '=' && p[l + 2] == '"') {
      p += l + 3; int n = 0; while (*p != '"') { __sym_check(*p && *p != '\n' && n < max - 1, "alignment record is well formed (attribute)"); out[n++] = *p++; } out[n] = 0; return n; } }
  out[0] = 0; return -1; }
static int starts(const char *p, const char *s) { while (*s) if (*p++ != *s++) return 0; return 1; }
/* parse one <SYSTEM>..</SYSTEM>; advances *pp. sep/asep are the token and attribute separators */
static int parse_system(const char **pp, ssys *S) {
  const char *p = *pp; S->nspk = 0; S->np = 0;
  while (*p && !starts(p, "<SYSTEM ")) { while (*p && *p != '\n') p++; if (*p) p++; }
  if (!*p) { *pp = p; return 0; }
  while (*p && *p != '\n') p++; if (*p) p++;
  for (;;) {
    if (starts(p, "</SYSTEM>")) { while (*p && *p != '\n') p++; if (*p) p++; *pp = p; return 1; }
    if (starts(p, "<SPEAKER ")) { __sym_check(S->nspk < MAXP, "alignment record size"); strat(p + 8, "id", S->spk[S->nspk], 40); S->nspk++; }
    else if (starts(p, "<PATH ")) {
      __sym_check(S->nspk > 0 && S->np < MAXP, "every alignment belongs to a speaker");
      spath *q = &S->p[S->np++]; char b[16];
      q->spkno = S->nspk - 1; strcpy(q->spk, S->spk[S->nspk - 1]); q->attrs = p + 5;
      strat(p + 5, "id", q->id, 40); strat(p + 5, "labels", q->labels, 40); strat(p + 5, "file", q->file, 40); strat(p + 5, "channel", q->chan, 40);
      q->seq = strat(p + 5, "sequence", b, 16) > 0 ? atoi(b) : -1; q->wc = strat(p + 5, "word_cnt", b, 16) > 0 ? atoi(b) : -1;
      while (*p && *p != '\n') p++; if (*p) p++;
      q->n = 0;
      while (!starts(p, "</PATH>")) {
        __sym_check(*p, "alignment record is well formed (unterminated)");
        if (*p == '\n') { p++; continue; }
        __sym_check(q->n < MAXT, "alignment length");
        stok *t = &q->t[q->n++]; t->type = *p++; __sym_check(*p == ',', "alignment record is well formed"); p++;
        p = pword(p, &t->r); __sym_check(*p == ',', "alignment record is well formed"); p++;
        p = pword(p, &t->h); t->aux = p; while (*p && *p != ':' && *p != '\n') p++; t->auxn = (int)(p - t->aux);
        if (*p == ':') p++;
      }
      __sym_check(q->n == q->wc, "declared word count equals the alignment length");
    } else if (starts(p, "</SPEAKER>") || starts(p, "<LABEL") || starts(p, "</LABEL") || starts(p, "<CATEGORY") || starts(p, "</CATEGORY")) ;
    else __sym_check(0, "alignment record is well formed (unexpected line)");
    while (*p && *p != '\n') p++; if (*p) p++; else { __sym_check(0, "alignment record is well formed (truncated)"); return 0; }
  }
}
static const char *outfile(const char *name) { size_t l; char *p = vfs_get(name, &l); __sym_check(p != 0, "the requested report is written"); return p; }
typedef struct { int c, s, d, i; } cnt;
static void tally(const spath *p, cnt *k) { for (int x = 0; x < p->n; x++) { char t = p->t[x].type; if (t == 'C') k->c++; else if (t == 'S') k->s++; else if (t == 'D') k->d++; else if (t == 'I') k->i++; else __sym_check(0, "known evaluation label"); } }
/* ordering, conservation and label checks of one alignment against the words given; returns the weighted cost */
static int check_align(const spath *p, const wrd *r, int nr, const wrd *h, int nh, int S, int I, int D) {
  int i = 0, j = 0, cost = 0;
  for (int x = 0; x < p->n; x++) { const stok *t = &p->t[x]; char ty = t->type;
    if (ty == 'C' || ty == 'S' || ty == 'D') { __sym_check(i < nr && weq(&t->r, &r[i]), "reference words appear in order and unchanged"); i++; } else __sym_check(t->r.n == 0, "an insertion has no reference word");
    if (ty == 'C' || ty == 'S' || ty == 'I') { __sym_check(j < nh && weq(&t->h, &h[j]), "hypothesis words appear in order and unchanged"); j++; } else __sym_check(t->h.n == 0, "a deletion has no hypothesis word");
    if (ty == 'C') __sym_check(weq(&t->r, &t->h), "a correct word matches");
    else if (ty == 'S') { __sym_check(!weq(&t->r, &t->h), "a substitution pairs different words"); cost += S; }
    else if (ty == 'I') cost += I; else if (ty == 'D') cost += D; else __sym_check(0, "known evaluation label"); }
  __sym_check(i == nr && j == nh, "every reference and hypothesis word is aligned exactly once");
  return cost; }
/* find the table row whose first cell is `name`; read its numbers into v; returns the count, -1 when absent */
static int table_row(const char *txt, const char *name, double *v, int max) {
  size_t l = strlen(name);
  for (const char *p = txt; *p;) {
    const char *q = p; while (*q == ' ') q++;
    if (*q == '|') { q++; while (*q == ' ') q++;
      if (!strncmp(q, name, l) && (q[l] == ' ' || q[l] == '|')) { q += l; int n = 0;
        while (*q && *q != '\n') { if ((*q >= '0' && *q <= '9') || *q == '-' ) { char *e; double d = strtod(q, &e); __sym_check(n < max, "report row has the expected columns"); v[n++] = d; q = e; } else if (q[0] == 'n' && q[1] == 'a' && q[2] == 'n') { v[n++] = 0.0 / 0.0; q += 3; } else q++; }
        return n; } }
    while (*p && *p != '\n') p++; if (*p) p++; }
  return -1; }
static int near_(double a, double b, double eps) { double d = a - b; return d <= eps && d >= -eps; }
#endif
