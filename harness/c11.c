/* Time-marked words on both sides: each channel is aligned as a whole, by words or by times (-T). */
#ifdef PAD
#define MAXT 160
#define MAXW 80
#endif
#include "dtl.h"
static ssys S;
static int put2(char *b, int n, int q) { if (q >= 4000) b[n++] = '0' + q / 4000; if (q >= 400) b[n++] = '0' + q / 400 % 10; if (q >= 40) b[n++] = '0' + q / 40 % 10; b[n++] = '0' + q / 4 % 10; b[n++] = '.'; int f = q % 4 * 25; b[n++] = '0' + f / 10; b[n++] = '0' + f % 10; b[n] = 0; return n; }
typedef struct { int t1, dur, conf; wrd w; } tw;
typedef struct { int nr, nh; tw r[MAXW], h[MAXW]; int side, at, kind; tw alt; } chan;
static chan C[4];
#ifndef T0
#define T0 0
#endif
static int words(char *b, int n, const char *side, int c, int lo, int max, tw *w, int *cntp, int conf) { chan *K = &C[c]; (void)K;
  int k = sym_choose(nm2(side[0] == 'r' ? "nr" : "nh", c, -1), lo, max), lt = T0, le = T0; *cntp = 0; int lt0;
#ifdef PAD
  for (int i = 0; i < PAD; i++) { tw *x = &w[(*cntp)++]; x->t1 = T0 + 2 * i; x->dur = 1; x->conf = 1; x->w.n = 0; x->w.s[x->w.n++] = 'p' + i % 7; if (i % 3 == 0) x->w.s[x->w.n++] = side[0]; x->w.s[x->w.n] = 0; }
  lt = le = T0 + 2 * PAD;
#endif
  lt0 = lt;
  for (int i = 0; i < k; i++) { tw *x = &w[(*cntp)++];
#ifdef TMAX
    x->t1 = sym_choose(nm2(side[0] == 'r' ? "rt" : "ht", c * 4 + i, -1), 0, TMAX) + lt0; __sym_assume(x->t1 >= lt); x->dur = sym_choose(nm2(side[0] == 'r' ? "rd" : "hd", c * 4 + i, -1), DMIN, DMAX);
#else
    x->t1 = 2 * i + (side[0] == 'h' && i); x->dur = 1 + (i & 1);
    x->t1 += lt0;
#endif
    lt = x->t1; mkword(&x->w, side, c * 4 + i, 1, 'a', LAST); x->conf = sym_choose(nm2(side[0] == 'r' ? "rc" : "hc", c * 4 + i, -1), 0, conf); }
#ifdef ALT
  if (K->side == (side[0] == 'h') && k) { K->at = *cntp - k + sym_choose("at", 0, k - 1); K->alt = w[K->at]; mkword(&K->alt.w, "a", 0, 1, 'a', LAST); }
#endif
  for (int i = 0; i < *cntp; i++) { tw *x = &w[i];
#ifdef ALT
    int al = K->side == (side[0] == 'h') && i == K->at; if (al) n = put(b, n, "f1 A * * <ALT_BEGIN>\n");
#endif
    n = put(b, n, c < 2 ? "f1 " : "F2 "); b[n++] = c == 1 ? 'B' : 'A'; b[n++] = ' '; n = put2(b, n, x->t1); b[n++] = ' '; n = put2(b, n, x->dur); b[n++] = ' '; n = putwd(b, n, &x->w);
    if (conf) { n = put(b, n, " 0."); b[n++] = '1' + x->conf; }
    n = put(b, n, "\n");
#ifdef ALT
    if (al) { n = put(b, n, "f1 A * * <ALT>\nf1 A "); n = put2(b, n, x->t1); b[n++] = ' '; n = put2(b, n, x->dur); b[n++] = ' '; if (K->kind) n = putwd(b, n, &K->alt.w); else n = put(b, n, "@"); if (conf) { n = put(b, n, " 0."); b[n++] = '1' + x->conf; } n = put(b, n, "\nf1 A * * <ALT_END>\n"); }
#endif
  }
  return n; }
static double ab(double x) { return x < 0 ? -x : x; }
static double pc(const tw *a, const tw *b) {
#ifdef TALI
  if (!a) return b->dur / 4.0; if (!b) return a->dur / 4.0;
  return ab(a->t1 - b->t1) / 4.0 + ab(a->t1 + a->dur - b->t1 - b->dur) / 4.0 + (weq(&a->w, &b->w) ? 0 : 0.001);
#else
  return a && b ? (weq(&a->w, &b->w) ? 0 : 4) : 3;
#endif
}
static double best(const tw *r, int nr, const tw *h, int nh) {
  double c[MAXW + 1][MAXW + 1];
  for (int i = 0; i <= nr; i++) for (int j = 0; j <= nh; j++) { if (!i && !j) { c[0][0] = 0; continue; } double b = 1e9, v;
    if (i && j) { v = c[i - 1][j - 1] + pc(&r[i - 1], &h[j - 1]); if (v < b) b = v; }
    if (i) { v = c[i - 1][j] + pc(&r[i - 1], 0); if (v < b) b = v; } if (j) { v = c[i][j - 1] + pc(0, &h[j - 1]); if (v < b) b = v; }
    c[i][j] = b; }
  return c[nr][nh]; }
static const char *times(const char *a, const tw *w) { char *e; __sym_check(*a == ',', "word times are reported"); a++; if (!w) { __sym_check(*a == ',' || *a == ':' || *a == '\n', "a missing word has no times"); return a; }
  double x = strtod(a, &e); __sym_check(*e == '+' && near_(x, w->t1 / 4.0, 0.0006), "the word's begin time is reported"); x = strtod(e + 1, &e); __sym_check(near_(x, (w->t1 + w->dur) / 4.0, 0.0006), "the word's end time is reported"); return e; }
#ifdef PRF
static tw *TA[MAXP][MAXT], *TB[MAXP][MAXT]; static int nlab;
static void aux(const char *l, const char *c, const spath *q, int t) { int x = (int)(q - S.p), hyp; double v;
  const tw *a = TA[x][t], *b = TB[x][t], *w; nlab++;
  if (starts(l, "R_T1:")) { w = a; if (w) v = w->t1 / 4.0; } else if (starts(l, "R_T2:")) { w = a; if (w) v = (w->t1 + w->dur) / 4.0; } else if (starts(l, "H_T1:")) { w = b; if (w) v = w->t1 / 4.0; }
  else if (starts(l, "H_T2:")) { w = b; if (w) v = (w->t1 + w->dur) / 4.0; } else if (starts(l, "RCNF:")) { w = a; if (w) v = (1 + w->conf) / 10.0; } else if (starts(l, "CONF:")) { w = b; if (w) v = (1 + w->conf) / 10.0; } else { __sym_check(0, "known lines of a printed alignment"); return; }
  if (!w) { int k = 0; while (k < 7 && c[k] == ' ') k++; __sym_check(k == 7, "a missing word has no times and no confidence in the printed alignment"); return; }
  char *e; double p = strtod(c, &e); __sym_check(e > c && *c != ' ' && near_(p, v, 0.00501), "the printed alignment shows each word's times and confidence in its column"); }
#endif
void harness(void) {
  static char rb[8000], hb[8000]; int n = 0, m = 0;
  for (int c = 0; c < NCH; c++) {
#ifdef ALT
    C[c].side = sym_choose("side", 0, 1); C[c].kind = sym_choose("kind", 0, 1); C[c].at = -1;
#endif
    n = words(rb, n, "r", c, MINR, NR, C[c].r, &C[c].nr, RCONF); m = words(hb, m, "h", c, MINH, NH, C[c].h, &C[c].nh, CONF); }
#ifdef EXTRA
  int ex = sym_choose("ex", 0, 4);
  if (ex == 1) m = put(hb, m, "f9 A 0.10 0.20 z\n"); if (ex == 2) n = put(rb, n, "f9 A 0.10 0.20 z\n");
  if (ex == 3) m = put(hb, m, NCH == 2 ? "f8 B 0.10 0.20 z\n" : "f2 B 0.10 0.20 z\n"); if (ex == 4) { n = put(rb, n, NCH == 2 ? "f8 B 0.10 0.20 z\n" : "f2 B 0.10 0.20 z\n"); }
#else
  int ex = 0;
#endif
  vfs_put("r.ctm", rb, n); vfs_put("h.ctm", hb, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "r.ctm", "ctm", "-h", "h.ctm", "ctm", "-o",
#ifdef PRF
    "sgml", "prf", "-l", PRF,
#else
    "sgml", "stdout",
#endif
#ifdef TALI
    "-T",
#endif
    0};
  int code = run_tool(av);
  if (ex) { __sym_check(code != 0, "files or channels present on one side only are refused"); __sym_reach("refused"); return; }
  __sym_check(code == 0, "scoring well-formed inputs succeeds");
  #ifdef PRF
  const char *o = outfile("h.ctm.sgml"); pra_aux = aux; pra_min = 7;
#else
  size_t len; const char *o = rt_stdout(&len);
#endif
  __sym_check(parse_system(&o, &S), "an alignment report is written");
  int x = 0;
  for (int c = 0; c < NCH; c++) { chan *k = &C[c]; int i = 0, j = 0, part = 0;
    while (i < k->nr || j < k->nh) {
      __sym_check(x < S.np, "every channel is aligned in full"); spath *p = &S.p[x++];
      char id[24] = "(f1-a-0000)"; if (c == 1) id[4] = 'b'; if (c > 1) id[2] = '2'; id[9] = '0' + part;
      __sym_check(!strcmp(p->id, id), "parts of a channel are named after it and numbered in order"); part++;
      __sym_check(p->seq == x - 1 && !strncmp(p->spk, id + 1, 4) && !p->spk[4] && p->file[0] == 'f' && p->file[1] == id[2] && p->chan[0] == id[4] && !p->chan[1], "the alignment belongs to its channel");
      double other = 1e9;
#ifdef ALT /* the better one of the two choices */
      if (k->at >= 0) { static tw v[MAXW]; tw *w = k->side ? k->h : k->r; int *nw = k->side ? &k->nh : &k->nr, nv = 0, same = 1, z = 0;
        for (int y = 0; y < *nw; y++) if (y != k->at) v[nv++] = w[y]; else if (k->kind) v[nv++] = k->alt;
        for (int t = 0; t < p->n; t++) { wrd *g = k->side ? &p->t[t].h : &p->t[t].r; if (g->n) { if (z < *nw && !weq(g, &w[z].w)) same = 0; z++; } }
        double a = best(k->r, k->nr, k->h, k->nh), b = k->side ? best(k->r, k->nr, v, nv) : best(v, nv, k->h, k->nh);
        if (z != *nw || !same) { for (int y = 0; y < nv; y++) w[y] = v[y]; *nw = nv; other = a; __sym_reach("second choice"); } else other = b; }
#endif
      int i0 = i, j0 = j; double cost = 0; 
      for (int t = 0; t < p->n; t++) { stok *q = &p->t[t]; tw *a = 0, *b = 0;
        if (q->r.n) { __sym_check(i < k->nr && weq(&q->r, &k->r[i].w), "reference words appear in order and unchanged"); a = &k->r[i++]; }
        if (q->h.n) { __sym_check(j < k->nh && weq(&q->h, &k->h[j].w), "hypothesis words appear in order and unchanged"); b = &k->h[j++]; }
        __sym_check(a || b, "every column aligns a word");
#ifdef PRF
        TA[x - 1][t] = a; TB[x - 1][t] = b;
#endif
        __sym_check(q->type == (!a ? 'I' : !b ? 'D' : weq(&a->w, &b->w) ? 'C' : 'S'), "the evaluation label fits the pair"); cost += pc(a, b);
        const char *z = times(q->aux, a); z = times(z, b);
        if (RCONF) { if (a) { char *e; __sym_check(*z == ',', "confidences are reported"); double v = strtod(z + 1, &e); __sym_check(near_(v, (1 + a->conf) / 10.0, 1e-6), "the reference word's confidence is reported"); z = e; } else { __sym_check(*z == ',', "confidences are reported"); z++; } }
        if (CONF && b) { __sym_check(*z == ',', "confidences are reported"); double v = strtod(z + 1, 0); __sym_check(near_(v, (1 + b->conf) / 10.0, 1e-6), "the word's confidence is reported"); }
        __sym_reach(q->type == 'C' ? "c" : q->type == 'S' ? "s" : q->type == 'I' ? "i" : "d"); }
      __sym_check(i > i0 || j > j0, "a part has words");
      __sym_check(near_(cost, best(k->r + i0, i - i0, k->h + j0, j - j0), 0.0002), "the alignment has minimum cost");
      __sym_check(cost <= other + 0.0002, "the better choice of an alternation is used");
      if (part == 2) __sym_reach("split"); }
    __sym_check(part > 0, "every channel is reported"); }
  __sym_check(x == S.np, "nothing else is reported");
#ifdef PRF
  const char *f = outfile("h.ctm.prf"); int tot = 0;
  for (int y = 0; y < S.np; y++) { f = findline(f, "id: "); __sym_check(f != 0, "every alignment is printed"); f = check_pra(f, &S.p[y], 0, 0); tot += S.p[y].n; }
  __sym_check(nlab == tot * (4 + (RCONF > 0) + (CONF > 0)), "times and confidences are printed for every word");
#endif
  __sym_reach("end");
}
