/* Significance tests of sc_stats: the counts, probabilities and decisions follow from the alignments read. */
#include "sgm.h"
#ifndef NSYS
#define NSYS 2
#endif
#ifndef PADSEG_N
#define PADSEG_N 0
#endif
#define MU (40 + PADSEG_N)
#define MT 8
#ifndef TESTS
#define TESTS "mcn"
#endif
static const char *SN[] = {"alpha", "beta", "gamma"};
typedef struct { int spk, n[NSYS]; char l[NSYS][MT]; } utt; /* labels of every word, per system */
static utt U[MU]; static int nu, nspk; static char in[30000 + 400 * PADSEG_N];
static int num(char *b, int n, int v) { if (v >= 100) b[n++] = '0' + v / 100; if (v >= 10) b[n++] = '0' + v / 10 % 10; b[n++] = '0' + v % 10; b[n] = 0; return n; }
static int build(int flip) {
  int n = 0;
  for (int s = 0; s < NSYS; s++) {
    n = put(in, n, "<SYSTEM title=\""); n = put(in, n, SN[s]); n = put(in, n, "\" ref_fname=\"r\" hyp_fname=\"h\" creation_date=\"d\" format=\"2.4\" frag_corr=\"FALSE\" opt_del=\"FALSE\" weight_ali=\"FALSE\" weight_filename=\"\">\n");
    for (int k0 = 0; k0 < nspk; k0++) { int k = flip && s == 1 ? nspk - 1 - k0 : k0;
      n = put(in, n, "<SPEAKER id=\"p"); n = num(in, n, k); n = put(in, n, "\">\n");
      for (int u0 = 0; u0 < nu; u0++) { int u = flip && s == 1 ? nu - 1 - u0 : u0; if (U[u].spk != k) continue;
        n = put(in, n, "<PATH id=\"(p"); n = num(in, n, k); in[n++] = '_'; n = num(in, n, u); n = put(in, n, ")\" word_cnt=\""); n = num(in, n, U[u].n[s]); n = put(in, n, "\" sequence=\""); n = num(in, n, u); n = put(in, n, "\">\n"); int w = 0;
        for (int x = 0; x < U[u].n[s]; x++) { char c = U[u].l[s][x]; if (x) in[n++] = ':'; in[n++] = c; in[n++] = ','; if (c != 'I') { n = put(in, n, "\"w"); n = num(in, n, w++); in[n++] = '"'; } in[n++] = ',';
          if (c == 'C') { n = put(in, n, "\"w"); n = num(in, n, w - 1); in[n++] = '"'; } else if (c != 'D') n = put(in, n, "\"x\""); }
        n = put(in, n, "\n</PATH>\n"); }
      n = put(in, n, "</SPEAKER>\n"); }
    n = put(in, n, "</SYSTEM>\n"); }
  return n; }
static int errs(int u, int s) { int e = 0; for (int x = 0; x < U[u].n[s]; x++) e += U[u].l[s][x] != 'C'; return e; }
static int refs(int u, int s) { int e = 0; for (int x = 0; x < U[u].n[s]; x++) e += U[u].l[s][x] != 'I'; return e; }
static void same(int u, const char *a, const char *b) { const char *v[2] = {a, b}; for (int s = 0; s < 2; s++) { U[u].n[s] = 0; for (const char *p = v[s]; *p; p++) U[u].l[s][U[u].n[s]++] = *p; } }
static const char *find(const char *p, const char *s) { for (; *p; p++) if (starts(p, s)) return p; return 0; }
static const char *nextl(const char *p) { while (*p && *p != '\n') p++; return *p ? p + 1 : p; }
/* cell `col` (0 = row name) of a table line */
static int cell(const char *p, int col, char *out) { while (*p == ' ') p++; if (*p != '|') return 0; p++; while (col--) { while (*p && *p != '|' && *p != '\n') p++; if (*p != '|') return 0; p++; } int n = 0; while (*p == ' ') p++; while (*p && *p != '|' && *p != '\n' && n < 30) out[n++] = *p++; while (n && out[n - 1] == ' ') n--; out[n] = 0; return 1; }
/* the line of the comparison matrix for system r */
static const char *mrow(const char *txt, const char *title, int r) { const char *p = find(txt, title); __sym_check(p != 0, "the comparison matrix is written"); char c[40]; int hd = 0;
  for (; *p; p = nextl(p)) { if (!cell(p, 0, c)) continue; if (!hd) { char d[40]; if (cell(p, 1, d) && !strcmp(d, SN[0])) { for (int s = 0; s < NSYS; s++) { cell(p, s + 1, d); __sym_check(!strcmp(d, SN[s]), "the matrix has a column for every system"); } hd = 1; } continue; } if (!strcmp(c, SN[r])) return p; }
  __sym_check(0, "the matrix has a row for every system"); return p; }
/* the decision for a pair in a matrix whose systems come in any order */
static void mpair(const char *txt, const char *title, int a, int b, char *out) { const char *p = find(txt, title), *hd = 0; char c[40]; int ca = -1, cb = -1, ra = -1, rb = -1, r = 0; const char *rp[NSYS];
  for (; *p && r < NSYS; p = nextl(p)) { if (!cell(p, 0, c)) continue; if (!hd) { char d[40]; int any = 0; for (int s = 0; s < NSYS; s++) { if (!cell(p, s + 1, d)) continue; if (!strcmp(d, SN[a])) ca = s, any++; if (!strcmp(d, SN[b])) cb = s, any++; } if (any) hd = p; continue; } if (c[0] == '-') continue; if (!strcmp(c, SN[a])) ra = r; if (!strcmp(c, SN[b])) rb = r; rp[r++] = p; }
  __sym_check(ca >= 0 && cb >= 0 && ra == ca && rb == cb, "the matrix has a row and a column for every system"); __sym_check(cell(rp[ra < rb ? ra : rb], 1 + (ca < cb ? cb : ca), out), "decision in the matrix"); }
static double binp(int n, int k) { /* two-tailed probability of at most k of n fair tosses */ double s = 0, c = 1; for (int i = 0; i <= k; i++) { s += c; c = c * (n - i) / (i + 1); } for (int i = 0; i < n; i++) s /= 2; return 2 * s > 1 ? 1 : 2 * s; }
static double fnum(const char *p) { return strtod(p, 0); }
static void labels(utt *u, int tag, int nw, const char *alpha) { int na = strlen(alpha); for (int s = 0; s < NSYS; s++) { u->n[s] = 0; for (int i = 0; i < nw; i++) { int k = sym_range(nm2("L", tag * 16 + s * 8, i), 0, na - 1); u->l[s][u->n[s]++] = alpha[k]; } } }
static void mcn(void) {
  const char *t = outfile("Ensemble.stats.mcn"); const char *q = t;
  for (int a = 0; a < NSYS; a++) for (int b = a + 1; b < NSYS; b++) {
    int T[2][2] = {{0, 0}, {0, 0}}; for (int u = 0; u < nu; u++) T[errs(u, a) > 0][errs(u, b) > 0]++;
    q = find(q, "McNemar test results"); __sym_check(q != 0, "a table for every pair of systems"); q = find(q, " corr "); q = nextl(q); const char *r = find(q, "corr"), *r2; __sym_check(r != 0, "contingency table"); char *e; r += 4; int c00 = (int)strtol(r, &e, 10), c01 = (int)strtol(e, &e, 10); r2 = find(e, "incorr"); __sym_check(r2 != 0, "contingency table"); int c10 = (int)strtol(r2 + 6, &e, 10), c11 = (int)strtol(e, &e, 10); q = e;
    __sym_check(c00 == T[0][0] && c01 == T[0][1] && c10 == T[1][0] && c11 == T[1][1], "McNemar table counts the utterances both, one or neither system got right");
    int m = T[0][1] < T[1][0] ? T[0][1] : T[1][0], n = T[0][1] + T[1][0]; double p = T[0][1] == T[1][0] ? 1 : binp(n, m); const char *row = mrow(t, "COMPARISON MATRIX", a); char c[40];
    __sym_check(cell(row, b + 1, c) && starts(c, "Conf=("), "probability in the matrix"); double pr = fnum(c + 6); if (n <= 20) __sym_check(near_(pr, p < 0.001 ? 0.001 : p, 0.000501), "McNemar probability is the two-tailed binomial one"); else __sym_check(near_(pr, p, 0.005), "McNemar probability is near the two-tailed binomial one");
    __sym_check(cell(nextl(row), b + 1, c), "decision in the matrix"); int win = p < 0.05 ? (T[1][0] < T[0][1] ? a : b) : -1;
    if (n > 20 && near_(p, 0.05, 0.005)) continue;
    __sym_check(!strcmp(c, win < 0 ? "same" : SN[win]), "the system with significantly fewer unique utterance errors wins"); __sym_reach(win < 0 ? "same" : "differ"); if (n > 20) __sym_reach("large"); }
}
static void mapsswe(void) {
  const char *t = outfile("Ensemble.stats.mapsswe"); int D[200], E1[200], E2[200], ns = 0, t1 = 0, t2 = 0;
  for (int u = 0; u < nu; u++) { /* runs of errors with fewer than two jointly correct words between them */
    int i = 0, j = 0, good = 99; utt *v = &U[u];
    while (i < v->n[0] || j < v->n[1]) { int a = 0, b = 0;
      while (i < v->n[0] && v->l[0][i] == 'I') i++, a++;
      while (j < v->n[1] && v->l[1][j] == 'I') j++, b++;
      if (a || b) { if (good >= 2) { E1[ns] = E2[ns] = 0; ns++; } E1[ns - 1] += a; E2[ns - 1] += b; good = 0; }
      a = b = 0; int w = 0;
      if (i < v->n[0]) a = v->l[0][i++] != 'C', w = 1;
      if (j < v->n[1]) b = v->l[1][j++] != 'C', w = 1;
      if (!w) break;
      if (a || b) { if (good >= 2) { E1[ns] = E2[ns] = 0; ns++; } E1[ns - 1] += a; E2[ns - 1] += b; good = 0; } else good++; } }
  double mean = 0, var = 0; for (int k = 0; k < ns; k++) { D[k] = E1[k] - E2[k]; t1 += E1[k]; t2 += E2[k]; mean += D[k]; } if (ns) mean /= ns; for (int k = 0; k < ns; k++) var += (D[k] - mean) * (D[k] - mean); if (ns > 1) var /= ns - 1; else var = 0;
  const char *q = find(t, "Number of Segments "); __sym_check(q && (int)fnum(q + 19) == ns, "segments are the error regions separated by two jointly correct words");
  q = find(t, "Number of Sentences "); __sym_check(q && (int)fnum(q + 20) == nu, "every utterance both systems have is compared");
  q = find(t, "Totals "); char *e; __sym_check(q != 0, "totals"); long r = strtol(q + 7, &e, 10), a = strtol(e, &e, 10), b = strtol(e, &e, 10); __sym_check(a == t1 && b == t2, "the segments hold every error of both systems");
  q = find(t, "MTCH_PR_RESULTS "); __sym_check(q != 0, "results line"); const char *z = find(q, "(# segs: "); __sym_check(z && (int)fnum(z + 9) == ns, "segment count in the results");
  z = find(q, "(% Error: "); __sym_check(z != 0, "error rates"); double p1 = strtod(z + 10, &e), p2 = strtod(e, &e); if (r) __sym_check(near_(p1, 100.0 * a / r, 0.00501) && near_(p2, 100.0 * b / r, 0.00501), "error rates are over the segments' reference words");
  z = find(q, "(mean: "); __sym_check(z && near_(fnum(z + 7), mean, 0.000501), "mean difference of the segments"); z = find(q, "(std dev: "); __sym_check(z && near_(fnum(z + 10), sqrt(var), 0.000501), "deviation of the segment differences");
  if (ns && var > 0) { double Z = mean / sqrt(var / ns); z = find(q, "(Z Stat: "); __sym_check(z && near_(fnum(z + 9), Z, 0.000501), "Z statistic of the segment differences"); int sig = Z > 1.96 || Z < -1.96; if (near_(Z, 1.96, 0.001) || near_(Z, -1.96, 0.001)) return;
    z = find(q, "(Stat Diff: "); __sym_check(z && starts(z + 12, sig ? "Yes" : "No"), "decision at the 95% level"); char c[40]; __sym_check(cell(mrow(t, "COMPARISON MATRIX", 0), 2, c) && !strcmp(c, !sig ? "same" : SN[Z > 0]), "the system with significantly fewer errors wins"); __sym_reach(sig ? "differ" : "same"); }
  else { if (!ns) __sym_reach("none"); char c[40]; z = find(q, "(Stat Diff: "); __sym_check(cell(mrow(t, "COMPARISON MATRIX", 0), 2, c), "decision"); if (!mean) __sym_check(starts(z + 12, "No") && !strcmp(c, "same"), "no difference"); }
}
static double W[40][NSYS];
static void wer(void) { for (int k = 0; k < nspk; k++) for (int s = 0; s < NSYS; s++) { int e = 0, r = 0; for (int u = 0; u < nu; u++) if (U[u].spk == k) { e += errs(u, s); r += refs(u, s); } W[k][s] = r ? 100.0 * e / r : 0; } }
/* which system the report lists first, from the title line */
static int first_sys(const char *t) { const char *q = find(t, "for Systems "); __sym_check(q != 0, "title of the calculations"); q += 12; return starts(q, SN[0]) ? 0 : 1; }
static const char *spkrow(const char *t, int k) { char nmb[8]; int n = num(nmb, put(nmb, 0, "p"), k); (void)n; for (const char *p = t; *p; p = nextl(p)) { const char *q = p; while (*q == ' ') q++; int l = strlen(nmb); if (!strncmp(q, nmb, l) && q[l] == ' ') return q + l; } return 0; }
static void sign(void) {
  const char *t = outfile("Ensemble.stats.sign"); wer(); int f = first_sys(t), o = !f, P = 0, M = 0, Z = 0; char *e;
  for (int k = 0; k < nspk; k++) { const char *q = spkrow(t, k); __sym_check(q != 0, "a row for every speaker"); double x = strtod(q, &e), y = strtod(e, &e); while (*e == ' ') e++; __sym_check(near_(x, W[k][f], 0.00501) && near_(y, W[k][o], 0.00501), "word error rate of the speaker for both systems"); double d = W[k][f] - W[k][o]; char sg = d > 0.005 ? '+' : d < -0.005 ? '-' : '0'; __sym_check(*e == sg, "sign of the speaker's difference"); if (sg == '+') P++; else if (sg == '-') M++; else Z++; }
  const char *q = find(t, "N(+) ="); __sym_check(q && (int)fnum(q + 6) == P, "count of positive differences"); q = find(t, "N(-) ="); __sym_check(q && (int)fnum(q + 6) == M, "count of negative differences"); q = find(t, "N(0) ="); __sym_check(q && (int)fnum(q + 6) == Z, "count of zero differences");
  int p = P + Z / 2, m = M + Z / 2 + Z % 2, mn = p < m ? p : m; double pr = p == m ? 1 : binp(p + m, mn); q = find(t, "it occurring is "); __sym_check(q && (nspk > 20 ? near_(fnum(q + 16), pr, 0.005) : near_(fnum(q + 16), pr < 0.001 ? 0 : pr, 0.001501) && (pr < 0.001 || near_(fnum(q + 16), pr, 0.000501))), "sign test probability is the two-tailed binomial one");
  if (nspk > 20 && near_(pr, 0.05, 0.005)) return;
  int win = pr < 0.05 ? (p < m ? f : o) : -1; char c[40]; __sym_check(cell(mrow(t, "Comparison Matrix", 0), 2, c) && !strcmp(c, win < 0 ? "same" : SN[win]), "the system better for significantly more speakers wins"); __sym_reach(win < 0 ? "sign-same" : "sign-differ"); if (nspk > 20) __sym_reach("large"); }
static void wilc(void) {
  const char *t = outfile("Ensemble.stats.wilc"); wer(); int f = first_sys(t), o = !f, P = 0, M = 0, Z = 0; char *e; double d[40], ps = 0, ms = 0, rk[40], zs = 0;
  for (int k = 0; k < nspk; k++) d[k] = W[k][f] - W[k][o];
  for (int k = 0; k < nspk; k++) { int less = 0, eq = 0; double x = d[k] < 0 ? -d[k] : d[k]; for (int j = 0; j < nspk; j++) { double y = d[j] < 0 ? -d[j] : d[j]; if (near_(x, y, 1e-9)) eq++; else if (y < x) less++; } rk[k] = less + (eq + 1) / 2.0; if (near_(d[k], 0, 0.005)) { Z++; zs += rk[k]; if (Z % 2) { P++; ps += rk[k]; } else { M++; ms += rk[k]; } } else if (d[k] > 0) P++, ps += rk[k]; else M++, ms += rk[k]; }
  for (int k = 0; k < nspk; k++) { const char *q = spkrow(t, k); __sym_check(q != 0, "a row for every speaker"); double x = strtod(q, &e), y = strtod(e, &e), df = strtod(e, &e), r = strtod(e, &e); __sym_check(near_(x, W[k][f], 0.00501) && near_(y, W[k][o], 0.00501) && near_(df, d[k], 0.00501), "word error rates and their difference"); __sym_check(near_(r, rk[k], 0.0501), "rank of the speaker's difference, ties averaged"); }
  const char *q = find(t, "positive ranks = "); __sym_check(q && near_(fnum(q + 17), ps, 0.0501), "sum of the positive ranks"); q = find(t, "negative ranks = "); __sym_check(q && near_(fnum(q + 17), ms, 0.0501), "sum of the negative ranks");
  double w = ps < ms ? ps : ms, E = nspk * (nspk + 1) / 4.0, v = nspk * (nspk + 1) * (2.0 * nspk + 1) / 24.0, z = (w - E) / sqrt(v); q = find(t, "The Z statistic = "); __sym_check(q && near_(fnum(q + 18), z, 0.00501), "Z statistic of the rank sums"); if (near_(z, -1.96, 0.005)) return;
  int win = z < -1.96 ? (ps < ms ? f : o) : -1; char c[40]; __sym_check(cell(mrow(t, "Comparison Matrix", 0), 2, c) && !strcmp(c, win < 0 ? "same" : SN[win]), "the system with significantly better ranks wins"); __sym_reach(win < 0 ? "wilc-same" : "wilc-differ"); }
static void anovar(void) { /* Friedman's test over the systems, with the correction for ties */
  const char *t = outfile("Ensemble.stats.anovar"); wer(); double R[NSYS], tie = 0; for (int s = 0; s < NSYS; s++) R[s] = 0;
  for (int k = 0; k < nspk; k++) for (int s = 0; s < NSYS; s++) { int less = 0, eq = 0, firstq = 1; for (int j = 0; j < NSYS; j++) { if (near_(W[k][j], W[k][s], 1e-9)) { eq++; if (j < s) firstq = 0; } else if (W[k][j] < W[k][s]) less++; } R[s] += less + (eq + 1) / 2.0; if (firstq) tie += (double)eq * eq * eq - eq; }
  double adj = 1 - tie / (nspk * (NSYS * NSYS * NSYS - NSYS)), S = 0; for (int s = 0; s < NSYS; s++) S += R[s] * R[s]; double X = 12.0 / (nspk * NSYS * (NSYS + 1)) * S - 3.0 * nspk * (NSYS + 1); if (adj > 1e-9) X /= adj; else X = 0;
  const char *q = find(t, "X2_r = "), *q2 = find(t, "adjustment = "); __sym_check(q && q2 && near_(fnum(q2 + 13), adj, 0.000501), "correction for ties"); if (adj > 1e-9) __sym_check(near_(fnum(q + 7), X, 0.000501), "Friedman's statistic of the systems' ranks"); static const double crit[] = {0, 3.84, 5.99}; if (near_(X, crit[NSYS - 1], 0.01)) return;
  int dif = X > crit[NSYS - 1]; const char *an = find(t, "ANALYSIS:"); __sym_check(an && (find(an, "least one recognition system is significantly different") != 0) == dif, "decision at the 95% level"); 
  const char *end = find(an, "Ho: Testing the hypothesis that all speakers"), *cm = find(t, "COMPARISON MATRIX"); __sym_check((cm && (!end || cm < end)) == dif, "systems are compared pairwise exactly when they differ");
  if (dif) for (int a = 0; a < NSYS; a++) for (int b = a + 1; b < NSYS; b++) { char c[40]; mpair(t, "COMPARISON MATRIX", a, b, c); double df = R[a] < R[b] ? R[b] - R[a] : R[a] - R[b], sq = sqrt(nspk * NSYS * (NSYS + 1) / 6.0); int win = R[a] < R[b] ? a : b;
      if (df >= (NSYS == 2 ? 2.0 : 2.42) * sq) __sym_check(!strcmp(c, SN[win]), "a system beyond the critical difference of rank sums wins"); else if (df < (NSYS == 2 ? 1.85 : 2.3) * sq) { __sym_check(!strcmp(c, "same"), "systems within the critical difference are the same"); __sym_reach("within"); } else __sym_check(!strcmp(c, "same") || !strcmp(c, SN[win]), "only the system with the lower rank sum can win"); }
  __sym_reach(dif ? "anovar-differ" : "anovar-same"); }
#ifdef DUNI
/* the unified report: for every pair and test, the decision of the test's own report, with a significance that agrees */
static void unified(void) { const char *t = outfile("Ensemble.stats.unified"); static const char *AB[] = {"MP", "SI", "WI", "MN", "AN"}, *FN[] = {"Ensemble.stats.mapsswe", "Ensemble.stats.sign", "Ensemble.stats.wilc", "Ensemble.stats.mcn", "Ensemble.stats.anovar"}; char c[40];
  for (int a = 0; a < NSYS; a++) for (int b = a + 1; b < NSYS; b++) for (int x = 0; x < 5; x++) {
    const char *p = t, *row = 0; int in_ = 0; for (; *p && !row; p = nextl(p)) { char n[40]; if (!cell(p, 0, c) || !cell(p, 2, n)) continue; if (n[0]) in_ = !strcmp(n, SN[a]) && strcmp(c, "Test"); if (in_ && !strcmp(c, AB[x])) row = p; } __sym_check(row != 0, "every test for every system");
    __sym_check(cell(row, 3 + b, c), "every pair of systems"); char w[20]; int n = 0; const char *q = c; while (*q && *q != ' ') w[n++] = *q++; w[n] = 0; while (*q == ' ') q++; int lt = *q == '<'; if (lt) q++; char *e; double pr = strtod(q, &e); int none = e == q; while (*e == ' ') e++; int st = strlen(e); for (int i = 0; i < st; i++) __sym_check(e[i] == '*', "significance stars");
    char own[40]; int same = 1; const char *rep = outfile(FN[x]);
    if (x == 4) { const char *an = find(rep, "ANALYSIS:"), *end = find(an, "Ho: Testing the hypothesis that all speakers"), *cm = find(rep, "COMPARISON MATRIX"); if (cm && (!end || cm < end)) { mpair(rep, "COMPARISON MATRIX", a, b, own); same = !strcmp(own, "same"); } }
    else { const char *r = mrow(rep, x == 1 || x == 2 ? "Comparison Matrix" : "COMPARISON MATRIX", a); __sym_check(cell(x == 3 ? nextl(r) : r, b + 1, own), "decision of the test"); same = !strcmp(own, "same"); }
    __sym_check(same ? !strcmp(w, "~") : !strcmp(w, own), "the unified report names the system the test names"); if (!same) __sym_reach("named");
    if (x < 4) __sym_check(!none, "significance level of the test"); if (none) { __sym_check(!st, "stars only for a significance level"); continue; }
    __sym_check(!lt || pr == 0.001, "significance level"); __sym_check(st == 3 ? lt || pr <= 0.001 : st == 2 ? !lt && pr >= 0.001 && pr <= 0.010 : st == 1 ? !lt && pr >= 0.010 && pr <= 0.050 : !lt && pr >= 0.050, "the stars follow from the significance level");
    if (x == 0 && (same ? 0 : st == 0)) continue; if (!near_(pr, 0.05, 0.0011)) __sym_check(same ? st == 0 : st > 0, "a difference is marked significant exactly when the test finds it"); } }
#endif
void harness(void) { warm();
  nu = 0; nspk = 0; int flip = 0;
#ifdef FLIP
  flip = sym_choose("flip", 0, 1);
#endif
#ifdef COUNTS /* how many utterances only the first, only the second system gets wrong */
  { int lo = CLO, a = sym_choose("a", lo, CHI), b = sym_choose("b", 0, CB), c = sym_choose("c", 0, 1); int sw = sym_choose("sw", 0, 1); nspk = 1;
    for (int i = 0; i < a; i++) same(nu++, sw ? "C" : "S", sw ? "S" : "C"); for (int i = 0; i < b; i++) same(nu++, sw ? "D" : "CC", sw ? "C" : "CI"); if (c) same(nu++, "S", "S"), same(nu++, "CC", "CC"); if (!nu) return; for (int u = 0; u < nu; u++) U[u].spk = 0; }
#endif
#ifdef FREE /* every label free */
  { nspk = NSPK; for (int k = 0; k < NSPK; k++) for (int x = 0; x < UPS; x++) { U[nu].spk = k; int nw = 0; for (int s = 0; s < NSYS; s++) { U[nu].n[s] = 0; } (void)nw; labels(&U[nu], k * UPS + x, FREE, "CS"); nu++; } }
#endif
#ifdef SEGS /* one utterance with symbolic labels and insertions, between fixed ones */
  { nspk = 2; same(nu, "CCSC", "CCCC"); U[nu++].spk = 1;
#ifdef PADSEG
    for (int i = 0; i < PADSEG; i++) { same(nu, i % 3 == 2 ? "CCCSCCC" : "CSCCCCC", i % 3 == 2 ? "CCCSCCC" : "CCCCSCC"); U[nu++].spk = i & 1; }
#endif
    U[nu].spk = 0; for (int s = 0; s < 2; s++) { int ip = sym_choose(nm2("ip", s, -1), 0, INS ? SEGS + 1 : 0), n = 0; for (int i = 0; i <= SEGS; i++) { if (INS && ip == i) U[nu].l[s][n++] = 'I'; if (i < SEGS) { int k = sym_range(nm2("L", s, i), 0, 1); U[nu].l[s][n++] = k ? "CS"[1] : 'C'; } } U[nu].n[s] = n; } nu++; }
#endif
#ifdef SPK /* SPK speakers of four words whose error counts are free, the rest follow a pattern */
  { nspk = SPK + PADK; int pat = sym_choose("pat", 0, PATS - 1); static const char *E[] = {"CCCC", "SCCC", "SSCC", "SSSC"};
    for (int k = 0; k < nspk; k++) { int e1, e2; if (k < SPK) { e1 = sym_choose(nm2("e", k * 2, -1), 0, EMAX); e2 = sym_choose(nm2("e", k * 2 + 1, -1), 0, EMAX); } else { e1 = pat == 0 ? 1 : pat == 1 ? 2 : pat == 2 ? 1 : k % 2; e2 = pat == 0 ? 2 : pat == 1 ? 1 : pat == 2 ? 1 : 1 - k % 2; if (pat < 2 && k % 3 == 2) e1++, e2++; }
      for (int s = 0; s < NSYS; s++) { const char *p = E[s == 0 ? e1 : s == 1 ? e2 : (e1 + e2) / 2]; U[nu].n[s] = 0; for (; *p; p++) U[nu].l[s][U[nu].n[s]++] = *p; } U[nu++].spk = k; } }
#endif
  int n = build(flip); rt_stdin(in, n);
  char *av[] = {"sc_stats", "-p", "-v", "-t", TESTS, 0};
  rt_capture_stdout(1); int rc = run_tool(av); rt_capture_stdout(0); __sym_check(rc == 0, "comparing well-formed alignments succeeds");
#ifdef DMCN
  mcn();
#endif
#ifdef DMAP
  mapsswe();
#endif
#ifdef DSIGN
  sign(); wilc();
#endif
#ifdef DANO
  anovar();
#endif
#ifdef DUNI
  rt_stdin(in, n); char *av2[] = {"sc_stats", "-p", "-u", "-t", TESTS, 0};
  rt_capture_stdout(1); rc = run_tool(av2); rt_capture_stdout(0); __sym_check(rc == 0, "comparing well-formed alignments succeeds"); unified();
#endif
  __sym_reach("end");
}
