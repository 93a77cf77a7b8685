/* Reading the detailed, sentence and alignment reports. */
#ifndef DTL_H
#define DTL_H
#include "sgm.h"
#ifndef MAXE
#define MAXE (MAXT * 4)
#endif
static const char *nextline(const char *p) { while (*p && *p != '\n') p++; return *p ? p + 1 : p; }
static const char *skipsp(const char *p) { while (*p == ' ') p++; return p; }
/* next line (from p) whose text starts with `lab` after blanks; 0 when none */
static const char *findline(const char *p, const char *lab) { for (; *p; p = nextline(p)) if (starts(skipsp(p), lab)) return skipsp(p); return 0; }
/* "label ... pct% (count)": -1 pct when there is none */
static const char *pctline(const char *p, const char *lab, double *pct, int *cnt_) {
  p = findline(p, lab); __sym_check(p != 0, "the report has every line");
  p += strlen(lab); *pct = -1; *cnt_ = -1;
  for (; *p && *p != '\n'; p++) {
    if (*p == '(') { *cnt_ = atoi(skipsp(p + 1)); return nextline(p); }
    if ((*p >= '0' && *p <= '9') || (*p == '-' && p[1] >= '0' && p[1] <= '9')) { char *e; double d = strtod(p, &e); if (*e == '%') *pct = d; else *cnt_ = (int)d; p = e - 1; } }
  return p; }
typedef struct { int c; wrd a, b; } ent;
static void get_wd(const char **pp, wrd *w) { const char *p = *pp; w->n = 0; while (*p && *p != ' ' && *p != '\n') { __sym_check(w->n < MAXL - 1, "list entry"); w->s[w->n++] = *p++; } w->s[w->n] = 0; *pp = p; }
/* a list section against the expected multiset: x[0..nx) are the occurrences (pairs when two) */
static const char *checklist(const char *p, const char *title, const ent *x, int nx, int two) {
  p = findline(p, title); __sym_check(p != 0, "the report has every list");
  const char *q = p; while (*q != '(') q++; int tot = atoi(q + 1);
  p = nextline(nextline(p));
  int n = 0, seen = 0, last = 1 << 20, used[MAXE]; for (int i = 0; i < nx; i++) used[i] = 0;
  for (;; p = nextline(p)) {
    const char *s = skipsp(p);
    if (starts(s, "---")) break;
    __sym_check(*s, "the list ends with its total");
    if (*s == '\n') continue;
    n++; __sym_check(atoi(s) == n, "list entries are numbered");
    while (*s >= '0' && *s <= '9') s++; __sym_check(*s == ':', "list entry form"); s = skipsp(s + 1);
    int c = atoi(s); while (*s >= '0' && *s <= '9') s++; s = skipsp(s); __sym_check(starts(s, "->"), "list entry form"); s = skipsp(s + 2);
    ent e; get_wd(&s, &e.a); if (two) { s = skipsp(s); __sym_check(starts(s, "==>"), "list entry form"); s = skipsp(s + 3); get_wd(&s, &e.b); }
    int k = 0, again = 0; for (int i = 0; i < nx; i++) if (weq(&x[i].a, &e.a) && (!two || weq(&x[i].b, &e.b))) { k++; if (used[i]) again = 1; used[i] = 1; }
    __sym_check(!again, "each word or pair is listed once");
    __sym_check(k > 0 && k == c, "a listed word or pair has the number of times it occurs in the alignments");
    __sym_check(c <= last, "lists are ordered by frequency"); last = c; seen += k;
  }
  __sym_check(seen == nx, "every error occurrence is in its list");
  __sym_check(tot == n, "the list header gives the number of entries");
  p = nextline(p); __sym_check(atoi(skipsp(p)) == nx, "the list total is the number of occurrences");
  return nextline(p); }
/* detailed block (overall or one speaker) for the alignments with spk (or all when spk < 0) */
static void check_dtl(const char *p, const ssys *S, int spk) {
  cnt T = {0}; int ns = 0, e = 0, es = 0, ed = 0, ei = 0; static ent cp[MAXE], in[MAXE], de[MAXE]; int ncp = 0, nin = 0, nde = 0;
  for (int x = 0; x < S->np; x++) { const spath *q = &S->p[x]; if (spk >= 0 && q->spkno != spk) continue; cnt c = {0}; tally(q, &c); ns++;
    T.c += c.c; T.s += c.s; T.d += c.d; T.i += c.i; e += (c.s + c.d + c.i) > 0; es += c.s > 0; ed += c.d > 0; ei += c.i > 0;
    for (int t = 0; t < q->n; t++) { char y = q->t[t].type; if (y == 'S') { cp[ncp].a = q->t[t].r; cp[ncp++].b = q->t[t].h; } else if (y == 'I') in[nin++].a = q->t[t].h; else if (y == 'D') de[nde++].a = q->t[t].r; } }
  int w = T.c + T.s + T.d; double pc; int k;
  p = pctline(p, "sentences", &pc, &k); __sym_check(k == ns, "number of sentences");
#define LN(lab, num, den, m) p = pctline(p, lab, &pc, &k); __sym_check(k == (num), m); if (den) __sym_check(near_(pc, 100.0 * (num) / (den), 0.0501), m);
  LN("with errors", e, ns, "sentences with errors") LN("with substitutions", es, ns, "sentences with substitutions") LN("with deletions", ed, ns, "sentences with deletions") LN("with insertions", ei, ns, "sentences with insertions")
  LN("Percent Total Error", T.s + T.d + T.i, w, "total word errors") LN("Percent Correct", T.c, w, "correct words") LN("Percent Substitution", T.s, w, "substituted words") LN("Percent Deletions", T.d, w, "deleted words") LN("Percent Insertions", T.i, w, "inserted words")
  p = pctline(p, "Percent Word Accuracy", &pc, &k); if (w) __sym_check(near_(pc, 100.0 - 100.0 * (T.s + T.d + T.i) / w, 0.0501), "word accuracy is 100 minus the error rate");
  p = pctline(p, "Ref. words", &pc, &k); __sym_check(k == w, "reference words counted"); p = pctline(p, "Hyp. words", &pc, &k); __sym_check(k == T.c + T.s + T.i, "hypothesis words counted"); p = pctline(p, "Aligned words", &pc, &k); __sym_check(k == w + T.i, "aligned words counted");
  p = checklist(p, "CONFUSION PAIRS", cp, ncp, 1); p = checklist(p, "INSERTIONS", in, nin, 0); p = checklist(p, "DELETIONS", de, nde, 0);
  p = checklist(p, "SUBSTITUTIONS", cp, ncp, 0); for (int i = 0; i < ncp; i++) { wrd t = cp[i].a; cp[i].a = cp[i].b; cp[i].b = t; } checklist(p, "FALSELY RECOGNIZED", cp, ncp, 0);
}
static int upc(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* further lines of a printed alignment: called for each line but REF, HYP and Eval with the text of the column of token t */
static void (*pra_aux)(const char *label, const char *cell, const spath *q, int t); static int pra_min;
/* one printed alignment starting at its "id:" line; width limit 0 = none; cs = case sensitive */
static const char *check_pra(const char *p, const spath *q, int cs, int width) {
  __sym_check(starts(p, "id: "), "a printed alignment starts with its id"); p += 4; for (const char *s = q->id; *s; s++) { __sym_check(*p == *s, "the printed alignment has the id"); p++; } p = nextline(p);
  while (starts(p, "Labels:") || starts(p, "File:") || starts(p, "Channel:")) p = nextline(p);
  cnt c = {0}; tally(q, &c); __sym_check(starts(p, "Scores: (#C #S #D #I) "), "the printed alignment has its scores"); p += 22;
  int v[4]; for (int i = 0; i < 4; i++) { p = skipsp(p); v[i] = atoi(p); while (*p >= '0' && *p <= '9') p++; } p = nextline(p);
  __sym_check(v[0] == c.c && v[1] == c.s && v[2] == c.d && v[3] == c.i, "printed scores equal the tally of the alignment");
  while (starts(p, "Attributes:") || starts(p, "Ref times:") || starts(p, "Hyp times:")) p = nextline(p);
  int t = 0, pass = 0;
  while (t < q->n) {
    if (pass) { __sym_check(*p == '\n', "printed passes are separated"); p++; __sym_check(starts(p, ">> REF:"), "a continued alignment"); } else __sym_check(starts(p, "REF:"), "the reference line");
    const char *rl = p, *hl = 0, *el = 0, *al[8]; int na = 0; p = nextline(p);
    while (!starts(p, pass ? ">> Eval:" : "Eval:")) { __sym_check(*p && *p != '\n', "the evaluation line follows"); if (starts(p, pass ? ">> HYP:" : "HYP:")) hl = p; else { __sym_check(na < 8, "known lines"); al[na++] = p; } p = nextline(p); }
    el = p; p = nextline(p); __sym_check(hl != 0, "the hypothesis line");
    int col = pass ? 9 : 6; int first = t;
    while (t < q->n && rl[col] != '\n') { const stok *k = &q->t[t];
      int w = k->type == 'I' ? k->h.n : k->type == 'D' ? k->r.n : k->r.n > k->h.n ? k->r.n : k->h.n, bad = 0;
      for (int i = 0; i < w; i++) {
        char er = k->type == 'I' ? (i < w ? '*' : ' ') : i < k->r.n ? k->r.s[i] : ' ', eh = k->type == 'D' ? '*' : i < k->h.n ? k->h.s[i] : ' ';
        if (k->type != 'C' && !cs) { er = upc(er); eh = upc(eh); }
        if (i >= 40) { if (er == '*' && rl[col + i] == ' ') er = ' '; if (eh == '*' && hl[col + i] == ' ') eh = ' '; } /* the marker of an absent word may be shorter than a long word */
        if (rl[col + i] != er || hl[col + i] != eh) bad = 1;
        if (i == 0 && el[col] != (k->type == 'C' ? ' ' : k->type)) bad = 1; }
      __sym_check(!bad, "each column shows the aligned pair and its evaluation");
      if (pra_aux) for (int i = 0; i < na; i++) pra_aux(al[i] + (pass ? 3 : 0), al[i] + col, q, t);
      col += w < pra_min ? pra_min + 1 : w; while (rl[col] == ' ' && hl[col] == ' ') col++;
      t++; }
    __sym_check(t > first, "a pass prints at least one column");
    pass = 1; }
  if (q->n == 0) ; 
  return p; }
#endif
