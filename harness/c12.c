/* Word-weight mediated alignment (-w): weights from the list, minimum weighted cost, weighted report. */
#ifndef PADK
#define PADK 0
#endif
#if PADK
#define MAXP (PADK + 8)
#endif
#include "sgm.h"
static ssys S;
static int opt_(const wrd *w) {
#ifdef OPT
  return w->n == 3 && w->s[0] == '(';
#else
  return 0;
#endif
}
static int same(const wrd *a, const wrd *b) { return weq(a, b) || (a->n + b->n == 4 && (opt_(a) || opt_(b)) && (opt_(a) ? a->s[1] == b->s[0] : a->s[0] == b->s[1])); }
static const double WV[] = {0, 1, 0.5, 2.25, 3}; static const char *WS[] = {"0", "1", "0.5", "2.25", "3.0"};
static double wt[3]; /* weights of 'a', 'b' and of other words */
#ifdef PADL
static const int AT[] = {0, 1, 49, 98, 99, 100, 101, PADL - 1, PADL};
#endif
static double W(const wrd *w) {
#ifdef PADL
  int i = __sym_concretize((w->s[1] - 'a') * 26 + w->s[2] - 'a'); return i < PADL ? WV[i % 5] : 0;
#endif
  if (opt_(w)) return 0;
  int k = w->n == 1 && w->s[0] == 'a' ? 0 : w->n == 1 && w->s[0] == 'b' ? 1 : 2; return wt[__sym_concretize(k)]; }
static double best(const wrd *r, int nr, const wrd *h, int nh) {
  double c[MAXW + 1][MAXW + 1];
  for (int i = 0; i <= nr; i++) for (int j = 0; j <= nh; j++) { if (!i && !j) { c[0][0] = 0; continue; } double b = 1e9, v;
    if (i && j) { v = c[i - 1][j - 1] + (__sym_concretize(same(&r[i - 1], &h[j - 1])) ? 0 : W(&r[i - 1]) + W(&h[j - 1])); if (v < b) b = v; }
    if (i) { v = c[i - 1][j] + W(&r[i - 1]); if (v < b) b = v; } if (j) { v = c[i][j - 1] + W(&h[j - 1]); if (v < b) b = v; }
    c[i][j] = b; }
  return c[nr][nh]; }
static const char *wtat(const char *a, const wrd *w) { char *e; __sym_check(*a == ',', "weights are reported"); a++; if (!w->n) { while (*a && *a != ',' && *a != ':' && *a != '\n') a++; return a; } double x = strtod(a, &e); __sym_check(e != a && near_(x, W(w), 1e-6), "each word has the weight the list gives it"); return e; }
void harness(void) { warm();
  static char wb[3000], rb[1300], hb[1300]; int k = 0, n = 0, m = 0; wrd r[NS * NU][4], h[NS * NU][4]; int nr[NS * NU], nh[NS * NU]; char *wf = "w.wwl";
  int kind = sym_choose("kind", 0, KIND);
  for (int i = 0; i < 3; i++) wt[i] = 0;
  if (kind == 3) { wf = "unity"; wt[0] = wt[1] = wt[2] = 1; }
  else {
    int w0 = sym_choose("w0", WLO, WHI), w1 = sym_choose("w1", WLO, WHI); wt[0] = WV[w0]; wt[1] = WV[w1];
    if (kind) { k = put(wb, k, ";; Headings\n"); }
    if (kind == 1) { int d = sym_choose("wd", WLO, WHI); wt[2] = WV[d]; k = put(wb, k, ";; Default missing weight '"); k = put(wb, k, WS[d]); k = put(wb, k, "'\n"); }
    if (kind == 2) { k = put(wb, k, "ab 3\n\nb "); k = put(wb, k, WS[w1]); k = put(wb, k, "\na "); k = put(wb, k, WS[w0]); k = put(wb, k, "\nbb 3\n"); }
    else { k = put(wb, k, "a "); k = put(wb, k, WS[w0]); k = put(wb, k, "\nb "); k = put(wb, k, WS[w1]); k = put(wb, k, "\n"); } }
#ifdef PADL
  k = 0; for (int j = 0; j < PADL; j++) { int i = j * 37 % PADL; wb[k++] = 'p'; wb[k++] = 'a' + i / 26; wb[k++] = 'a' + i % 26; wb[k++] = ' '; k = put(wb, k, WS[i % 5]); k = put(wb, k, "\n"); }
#define MKW(w, nm, idx) do { int i_ = AT[sym_choose(nm2(nm, idx, -1), 0, 8)]; (w)->n = 3; (w)->s[0] = 'p'; (w)->s[1] = 'a' + i_ / 26; (w)->s[2] = 'a' + i_ % 26; (w)->s[3] = 0; } while (0)
#elif defined(OPT)
#define MKW(w, nm, idx) do { wrd c_; mkword(&c_, nm, idx, 1, 'a', LAST); if (sym_choose(nm2(nm, idx, 9), 0, 1)) { (w)->n = 3; (w)->s[0] = '('; (w)->s[1] = c_.s[0]; (w)->s[2] = ')'; (w)->s[3] = 0; } else *(w) = c_; } while (0)
#else
#define MKW(w, nm, idx) mkword(w, nm, idx, 1, 'a', LAST)
#endif
  for (int u = 0; u < NS * NU; u++) { nr[u] = sym_choose(nm2("nr", u, -1), MINR, NR); nh[u] = sym_choose(nm2("nh", u, -1), 0, NH);
    for (int i = 0; i < nr[u]; i++) { MKW(&r[u][i], "r", u * 4 + i); n = putwd(rb, n, &r[u][i]); rb[n++] = ' '; }
    for (int i = 0; i < nh[u]; i++) { MKW(&h[u][i], "h", u * 4 + i); m = putwd(hb, m, &h[u][i]); hb[m++] = ' '; }
    char id[12] = "(s1_1)\n"; id[2] = '1' + u / NU; id[4] = '1' + u % NU; n = put(rb, n, id); m = put(hb, m, id); }
  for (int i = 0; i < PADK; i++) { char id[12] = "(tx_1)\n"; id[2] = 'a' + i; n = put(rb, n, i % 3 ? "a b " : "b a a "); n = put(rb, n, id); m = put(hb, m, i % 2 ? "a " : "a a b "); m = put(hb, m, id); }
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m); vfs_put("w.wwl", wb, k); 
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm", "-w", wf, "-o", "sgml", "wws",
#ifdef OPT
    "-D",
#endif
    0};
  __sym_check(run_tool(av) == 0, "scoring well-formed transcripts succeeds");
  const char *o = outfile("hyp.trn.sgml");
  __sym_check(parse_system(&o, &S) && S.np == NS * NU + PADK && S.nspk == NS + PADK, "every utterance has an alignment");
  int omix = 0; const char *rep = outfile("hyp.trn.wws"); double T[6] = {0}; int ts = 0, te = 0, tw = 0, intw = 1;
  for (int s = 0; s < NS; s++) { double g[6] = {0}; int w = 0, er = 0;
    for (int q = 0; q < NU; q++) { int u = s * NU + q; spath *p = &S.p[u]; 
#ifdef OPT
      int i = 0, j = 0;
      for (int t = 0; t < p->n; t++) { stok *x = &p->t[t]; if (x->r.n) { __sym_check(i < nr[u] && weq(&x->r, &r[u][i]), "reference words appear in order and unchanged"); i++; } if (x->h.n) { __sym_check(j < nh[u] && weq(&x->h, &h[u][j]), "hypothesis words appear in order and unchanged"); j++; }
        __sym_check(x->type == (x->r.n && x->h.n ? (same(&x->r, &x->h) ? 'C' : 'S') : x->r.n ? (opt_(&x->r) ? 'C' : 'D') : opt_(&x->h) ? 'C' : 'I'), "the evaluation label fits the pair"); if (opt_(&x->r) || opt_(&x->h)) __sym_reach("optional"); }
      __sym_check(i == nr[u] && j == nh[u], "every reference and hypothesis word is aligned exactly once");
#else
      check_align(p, r[u], nr[u], h[u], nh[u], 0, 0, 0);
#endif
      double cost = 0; int e = 0;
      for (int t = 0; t < p->n; t++) { stok *x = &p->t[t]; const char *z = wtat(x->aux, &x->r); wtat(z, &x->h); double a = x->r.n ? W(&x->r) : 0, b = x->h.n ? W(&x->h) : 0;
        if (a != (int)a || b != (int)b) intw = 0; if (x->r.n && x->h.n && x->type == 'C' && opt_(&x->r) != opt_(&x->h) && a != b) omix = 1;
        if (x->r.n) { g[0] += a; w++; } if (x->type == 'C') g[1] += a; else { e = 1; cost += a + b; g[x->type == 'S' ? 2 : x->type == 'D' ? 3 : 4] += a + b; g[5] += a + b; } }
      er += e; __sym_check(near_(cost, best(r[u], nr[u], h[u], nh[u]), 1e-4), "the alignment has minimum weighted cost"); }
    double v[16]; char nmv[4] = "s1"; nmv[1] += s; int c = table_row(rep, nmv, v, 16);
    if (w && g[0] > 0) { 
#ifdef OPT
      w = (int)v[1];
#endif
      __sym_check(c == 8 && v[0] == NU && v[1] == w, "a speaker's row has its sentences and words"); for (int i = 1; i < 6; i++) { int ok = near_(v[i + 1], 100 * g[i] / g[0], 0.0501);
#if defined(OPT) && defined(KF)
        __sym_check(ok, "[KF-wws-optional] an optional word matched by a plain word counts with the weight of the reference word");
#else
        if (i == 1 && omix) continue; __sym_check(ok, "weighted percentages are over the weight of the reference words");
#endif
      }
      __sym_check(near_(v[7], 100.0 * er / NU, 0.0501), "sentence error"); __sym_reach("row"); }
    if (g[0] == 0) intw = 0;
    for (int i = 0; i < 6; i++) T[i] += g[i]; ts += NU; te += er; tw += w; }
#if PADK
  for (int q = NS * NU; q < S.np; q++) { spath *p = &S.p[q]; double g0 = T[0]; int e = 0; ts++; for (int t = 0; t < p->n; t++) { stok *x = &p->t[t]; double a = x->r.n ? W(&x->r) : 0, b = x->h.n ? W(&x->h) : 0; if (a != (int)a || b != (int)b) intw = 0;
      if (x->r.n) { T[0] += a; tw++; } if (x->type == 'C') T[1] += a; else { e = 1; T[x->type == 'S' ? 2 : x->type == 'D' ? 3 : 4] += a + b; T[5] += a + b; } } te += e; if (T[0] == g0) intw = 0; }
#endif
  double v[16]; __sym_check(table_row(rep, "Sum/Avg", v, 16) == 8, "the total row is present");
#ifdef OPT
  tw = (int)v[1];
#endif
  __sym_check(v[0] == ts && v[1] == tw, "the total row has all sentences and words");
  if (T[0] > 0) for (int i = 1; i < 6; i++) { int ok = near_(v[i + 1], 100 * T[i] / T[0], 0.0501);
#ifdef KF
    __sym_check(ok, "[KF-wws-sum] the total row's weighted percentages are over the weight of all reference words");
#else
    if (intw && !(i == 1 && omix)) { __sym_check(ok, "the total row's weighted percentages are over the weight of all reference words"); __sym_reach("total"); }
#endif
  }
  __sym_reach("end");
}
