/* The multi-system reports of sc_stats (-r sum rsum es res prn lur) follow from the alignments read. */
#include "sgm.h"
#ifndef NSYS
#define NSYS 2
#endif
#define MU 12
#define MT 10
#ifndef SYMS
#define SYMS NSYS
#endif
#ifndef PADU
#define PADU 0
#endif
#ifndef SYSNAMES
#define SYSNAMES {"alpha", "bo", "gamma"}
#endif
static const char *SN[] = SYSNAMES;
/* an utterance: for each system its labels and the words; ref words and hyp words are written out */
typedef struct { int spk, n[NSYS], there[NSYS]; char l[NSYS][MT]; const char *r[NSYS][MT], *h[NSYS][MT]; const char *lab; } utt;
static utt U[MU]; static int nu, nspk; static char in[60000];
static const char *KN[] = {"p0", "p1", "p2", "p3", "p4", "p5"};
static int dec(char *b, int n, int v) { if (v >= 10) b[n++] = '0' + v / 10; b[n++] = '0' + v % 10; b[n] = 0; return n; }
static int haspk(int s, int k) { for (int u = 0; u < nu; u++) if (U[u].spk == k && U[u].there[s]) return 1; return 0; }
static int build(int flip) { int n = 0;
  for (int s = 0; s < NSYS; s++) { int fl = flip && s == 1;
    n = put(in, n, "<SYSTEM title=\""); n = put(in, n, SN[s]); n = put(in, n, "\" ref_fname=\"r\" hyp_fname=\"h\" creation_date=\"d\" format=\"2.4\" frag_corr=\"FALSE\" opt_del=\"FALSE\" weight_ali=\"FALSE\" weight_filename=\"\">\n");
#ifdef LUR
    n = put(in, n, "<LABEL id=\"O\" title=\"Overall\" desc=\"all\">\n</LABEL>\n<LABEL id=\"M\" title=\"Male\" desc=\"ms\">\n</LABEL>\n");
#endif
    for (int k0 = 0; k0 < nspk; k0++) { int k = fl ? nspk - 1 - k0 : k0; if (!haspk(s, k)) continue;
      n = put(in, n, "<SPEAKER id=\""); n = put(in, n, KN[k]); n = put(in, n, "\">\n");
      for (int u0 = 0; u0 < nu; u0++) { int u = fl ? nu - 1 - u0 : u0; if (U[u].spk != k || !U[u].there[s]) continue;
        n = put(in, n, "<PATH id=\"("); n = put(in, n, KN[k]); in[n++] = '_'; n = dec(in, n, u); n = put(in, n, ")\" word_cnt=\""); n = dec(in, n, U[u].n[s]); in[n++] = '"';
        if (U[u].lab) { n = put(in, n, " labels=\""); n = put(in, n, U[u].lab); in[n++] = '"'; }
        n = put(in, n, " sequence=\""); n = dec(in, n, u); n = put(in, n, "\">\n");
        for (int x = 0; x < U[u].n[s]; x++) { char c = U[u].l[s][x]; if (x) in[n++] = ':'; in[n++] = c; in[n++] = ','; if (c != 'I') { in[n++] = '"'; n = put(in, n, U[u].r[s][x]); in[n++] = '"'; } in[n++] = ','; if (c != 'D') { in[n++] = '"'; n = put(in, n, U[u].h[s][x]); in[n++] = '"'; } }
        n = put(in, n, "\n</PATH>\n"); }
      n = put(in, n, "</SPEAKER>\n"); }
    n = put(in, n, "</SYSTEM>\n"); }
  return n; }
static int cnt1(int u, int s, char c) { int e = 0; for (int x = 0; x < U[u].n[s]; x++) e += U[u].l[s][x] == c; return e; }
/* C, S, D, I, utterances, utterances with errors of a system for a speaker (-1: all) */
static void sums(int s, int k, const char *lab, int o[6]) { for (int i = 0; i < 6; i++) o[i] = 0; for (int u = 0; u < nu; u++) if ((k < 0 || U[u].spk == k) && U[u].there[s] && (!lab || (U[u].lab && strstr(U[u].lab, lab)))) { int e = 0; for (int i = 0; i < 4; i++) { int c = cnt1(u, s, "CSDI"[i]); o[i] += c; if (i) e += c; } o[4]++; o[5] += e > 0; } }
static const char *nextl(const char *p) { while (*p && *p != '\n') p++; return *p ? p + 1 : p; }
/* cell `col` (0 = row name) of a table line, blanks around it removed */
static int cell(const char *p, int col, char *out) { while (*p == ' ') p++; if (*p != '|') return 0; p++; while (col--) { while (*p && *p != '|' && *p != '\n') p++; if (*p != '|') return 0; p++; if (*p == '|') p++; if (*p == '\n' || !*p) return 0; } int n = 0; while (*p == ' ') p++; while (*p && *p != '|' && *p != '\n' && n < 70) out[n++] = *p++; while (n && out[n - 1] == ' ') n--; out[n] = 0; return 1; }
static const char *trow(const char *p, const char *name) { char c[80]; for (; *p; p = nextl(p)) if (cell(p, 0, c) && !strcmp(c, name)) return p; return 0; }
static int isnum(const char *c, double *v) { char *e; *v = strtod(c, &e); return e != c && *e == 0; }
static void stat_(double *x, int n, double *mean, double *sd, double *med) { *mean = *sd = *med = 0; if (!n) return; for (int i = 0; i < n; i++) *mean += x[i]; *mean /= n; double v = 0; for (int i = 0; i < n; i++) v += (x[i] - *mean) * (x[i] - *mean); if (n > 1) *sd = sqrt(v / (n - 1));
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (x[j] < x[i]) { double t = x[i]; x[i] = x[j]; x[j] = t; } *med = n % 2 ? x[n / 2] : (x[n / 2] + x[n / 2 - 1]) / 2; }
static void sum(int raw) {
  const char *t = outfile(raw ? "Ensemble.raw" : "Ensemble.sys"), *h = trow(t, "Spkr"); char c[80]; double v; __sym_check(h != 0, "the speaker table is written"); for (int s = 0; s < NSYS; s++) __sym_check(cell(h, s + 1, c) && !strcmp(c, SN[s]), "a column for every system in order"); __sym_check(!cell(h, NSYS + 1, c), "no other column");
  int rows = 0; for (const char *p = nextl(h); *p; p = nextl(p)) if (cell(p, 0, c) && c[0] == 'p') rows++; int want = 0;
  for (int k = 0; k < nspk; k++) { int any = 0; for (int s = 0; s < NSYS; s++) any |= haspk(s, k); if (!any) continue; want++; const char *p = trow(t, KN[k]); __sym_check(p != 0, "a row for every speaker");
    for (int s = 0; s < NSYS; s++) { __sym_check(cell(p, s + 1, c), "a cell for every system"); if (!haspk(s, k)) { __sym_check(!isnum(c, &v), "no figure for a speaker the system does not have"); continue; } int o[6]; sums(s, k, 0, o); int r = o[0] + o[1] + o[2], e = o[1] + o[2] + o[3]; __sym_check(isnum(c, &v), "a figure for every speaker"); if (raw) __sym_check(v == e, "word errors of the speaker for the system of the column"); else __sym_check(near_(v, r ? 100.0 * e / r : 0, 0.0501), "word error rate of the speaker for the system of the column"); } }
  __sym_check(rows == want, "every speaker once");
  for (int s = 0; s < NSYS; s++) { int o[6], n = 0; double x[8], m[3]; sums(s, -1, 0, o); int r = o[0] + o[1] + o[2], e = o[1] + o[2] + o[3]; const char *p = trow(t, raw ? "Sum" : "Average"); __sym_check(p && cell(p, s + 1, c) && isnum(c, &v), "a total for every system"); __sym_check(raw ? v == e : near_(v, r ? 100.0 * e / r : 0, 0.0501), "total of the system over its speakers");
    for (int k = 0; k < nspk; k++) if (haspk(s, k)) { sums(s, k, 0, o); r = o[0] + o[1] + o[2]; e = o[1] + o[2] + o[3]; x[n++] = raw ? e : r ? 100.0 * e / r : 0; } stat_(x, n, &m[0], &m[1], &m[2]); static const char *RN[] = {"Mean", "StdDev", "Median"};
    for (int i = 0; i < 3; i++) { p = trow(t, RN[i]); __sym_check(p && cell(p, s + 1, c) && isnum(c, &v), "mean, deviation and median of every system"); __sym_check(near_(v, m[i], 0.0501), "mean, deviation and median over the system's speakers"); } } }
static void es(int raw) { const char *t = outfile(raw ? "Ensemble.res" : "Ensemble.es"); char c[80];
  for (int s = 0; s < NSYS; s++) { const char *p = trow(t, SN[s]); __sym_check(p != 0, "a row for every system"); int o[6]; sums(s, -1, 0, o); int r = o[0] + o[1] + o[2], e = o[1] + o[2] + o[3]; char *q; __sym_check(cell(p, 1, c), "utterances and words"); long a = strtol(c, &q, 10), b = strtol(q, &q, 10); __sym_check(a == o[4] && b == r, "utterances and reference words of the system"); __sym_check(cell(p, 2, c), "figures"); q = c; int w[6] = {o[0], o[1], o[2], o[3], e, o[5]};
    for (int i = 0; i < 6; i++) { char *q2; double v = strtod(q, &q2); __sym_check(q2 != q, "six figures for every system"); q = q2; int d = i == 5 ? o[4] : r; if (raw) __sym_check(v == w[i], "counts of the system over all its utterances"); else __sym_check(near_(v, d ? 100.0 * w[i] / d : 0, 0.0501), "rates of the system over all its utterances"); } } }
#ifdef LUR
static void lur(void) { const char *t = outfile("Ensemble.lur"), *p; char c[80]; static const char *SEC[] = {"Set/Subset #Words", "Set/Subset Mean", "Associated", "Set/Subset Median"}, *LB[] = {"O", "M"};
  for (int i = 0; i < 4; i++) { for (p = t; *p; p = nextl(p)) { if (!cell(p, 1, c) || strncmp(c, SEC[i], strlen(SEC[i]))) continue; if (cell(p, 0, c) && !c[0]) break; } __sym_check(*p != 0, "every section of the label report");
    for (int s = 0; s < NSYS; s++) { p = trow(p, SN[s]); __sym_check(p != 0, "a row for every system");
      for (int j = 0; j < 2; j++) { int o[6], n = 0, tr = 0, te = 0; double x[8], y[8], mx[3], my[3]; for (int k = 0; k < nspk; k++) { sums(s, k, LB[j], o); int r = o[0] + o[1] + o[2], e = o[1] + o[2] + o[3]; tr += r; te += e; if (r) x[n] = r, y[n++] = 100.0 * e / r; } stat_(x, n, &mx[0], &mx[1], &mx[2]); stat_(y, n, &my[0], &my[1], &my[2]);
        __sym_check(cell(p, j + 1, c) && c[0] == '[', "words and error rate of every label"); char *q; double a = strtod(c + 1, &q); __sym_check(*q == ']', "words and error rate of every label"); double w = strtod(q + 1, &q);
        if (i == 0) { __sym_check(a == tr, "reference words of the label for the system"); __sym_check(near_(w, tr ? 100.0 * te / tr : 0, 0.0501), "error rate of the label for the system"); }
        else { __sym_check(a <= mx[i - 1] + 1e-6 && a > mx[i - 1] - 1.0001, "mean, deviation and median of the label's words over the system's speakers"); __sym_check(near_(w, my[i - 1], 0.0501), "mean, deviation and median of the label's error rate over the system's speakers"); } } } } }
#endif
#ifdef PRN
#define ML 24
typedef struct { char w[ML]; int row, col; } tk;
/* tokens of one row of the alignment, chunk `row`, text starting at column `c0` */
static int toks(const char *p, int c0, int row, tk *o, int n) { int c = 0; for (; c < c0; c++) { __sym_check(*p && *p != '\n', "alignment rows are long enough"); p++; } while (*p && *p != '\n') { if (*p == ' ') { p++; c++; continue; } __sym_check(n < MT * 2, "alignment rows hold the words"); tk *k = &o[n++]; k->row = row; k->col = c; int m = 0; while (*p && *p != '\n' && *p != ' ') { if (m < ML - 1) k->w[m++] = *p; p++; c++; } k->w[m] = 0; } return n; }
static int upc(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int weqs(const char *a, const char *b, int up) { int i = 0; for (; b[i] && i < ML - 1; i++) if (a[i] != (up ? upc(b[i]) : b[i])) return 0; return a[i] == 0; }
static int refat(int u, int s, int k) { int j = 0; for (int x = 0; x < U[u].n[s]; x++) if (U[u].l[s][x] != 'I' && j++ == k) return x; return -1; }
static int nref(int u, int s) { return U[u].n[s] - cnt1(u, s, 'I'); }
static int samerefs(int u) { for (int s = 1; s < NSYS; s++) { if (nref(u, s) != nref(u, 0)) return 0; for (int k = 0; k < nref(u, 0); k++) if (strcmp(U[u].r[s][refat(u, s, k)], U[u].r[0][refat(u, 0, k)])) return 0; } return 1; }
static void prn(void) { const char *t = outfile("Ensemble.prn"), *p = t; int tr = 0, te = 0, blocks = 0, want = 0; static const char *bad[MU * MT]; int nb = 0; int wid = 3; for (int s = 0; s < NSYS; s++) if ((int)strlen(SN[s]) > wid) wid = strlen(SN[s]); wid += 2;
  for (const char *q = t; *q; q = nextl(q)) if (starts(q, "Speaker: ")) blocks++;
  for (int k = 0; k < nspk; k++) for (int u = 0; u < nu; u++) { if (U[u].spk != k) continue; int all = 1; for (int s = 0; s < NSYS; s++) all &= U[u].there[s]; if (!all) continue; want++; char id[24]; int n = put(id, 0, "("); n = put(id, n, KN[k]); id[n++] = '_'; n = dec(id, n, u); n = put(id, n, ")");
    /* the block of this utterance */
    for (p = t; *p; p = nextl(p)) { if (!starts(p, "Speaker: ")) continue; const char *q = nextl(p); if (starts(q, ";; Reference strings not")) q = nextl(q); if (!strncasecmp(q, "id: ", 4)) { q += 3; while (*q == ' ') q++; if (starts(q, id) && q[n] == '\n') break; } } __sym_check(*p != 0, "every utterance all systems have is shown");
    { const char *q = p + 9; __sym_check(starts(q, KN[k]) && q[strlen(KN[k])] == '\n', "an utterance is shown under its speaker"); }
    if (!samerefs(u)) { __sym_check(starts(nextl(p), ";; Reference strings not identical"), "different references are not merged"); __sym_reach("different-refs"); continue; }
    const char *q = nextl(p); __sym_check(starts(q, "Id:"), "equal references are merged"); while (*q && !starts(q, "Lattice Analysis: ")) q = nextl(q); __sym_check(*q != 0, "lattice analysis of every utterance"); const char *z = strstr(q, "#refWords "); char *e; long a = strtol(z + 10, &e, 10); z = strstr(e, "#refErrWords "); long b = strtol(z + 13, &e, 10);
    int nr = nref(u, 0), ne = 0; for (int i = 0; i < nr; i++) { int ok = 0; for (int s = 0; s < NSYS; s++) ok |= U[u].l[s][refat(u, s, i)] == 'C'; if (!ok) { ne++; bad[nb++] = U[u].r[0][refat(u, 0, i)]; } } __sym_check(a == nr && b == ne, "lattice analysis counts the reference words and those no system got right"); tr += nr; te += ne; if (ne) __sym_reach("lattice-error");
    static tk R[MT * 2], H[NSYS][MT * 2]; int rn = 0, hn[NSYS], row = 0; for (int s = 0; s < NSYS; s++) hn[s] = 0; q = nextl(q);
    for (;;) { while (*q == '\n') q++; int ct = starts(q, ">>> "); const char *r = ct ? q + 4 : q; if (!starts(r, "REF:")) break; __sym_check(ct == (row > 0), "continuation lines are marked"); rn = toks(q, wid + 4 * ct, row, R, rn); q = nextl(q);
      for (int s = 0; s < NSYS; s++) { r = ct ? q + 4 : q; __sym_check(starts(r, SN[s]) && r[strlen(SN[s])] == ':', "a line for every system"); hn[s] = toks(q, wid + 4 * ct, row, H[s], hn[s]); q = nextl(q); } row++; if (row > 1) __sym_reach("wrapped"); }
    __sym_check(rn == nr, "the reference line shows every reference word"); for (int i = 0; i < nr; i++) __sym_check(weqs(R[i].w, U[u].r[0][refat(u, 0, i)], 0), "the reference line shows the reference words in order");
    for (int s = 0; s < NSYS; s++) { __sym_check(hn[s] == U[u].n[s], "a system's line shows every word of its alignment"); int ri = 0; for (int x = 0; x < hn[s]; x++) { tk *h = &H[s][x]; char c = U[u].l[s][x]; if (c == 'D') __sym_check(h->w[0] == '*', "deletions are shown by stars"); else __sym_check(weqs(h->w, U[u].h[s][x], c != 'C'), "a system's words are shown in order, errors in capitals");
        if (c == 'I') { for (int i = 0; i < nr; i++) __sym_check(R[i].row != h->row || R[i].col != h->col, "an insertion is shown beside no reference word"); } else { __sym_check(R[ri].row == h->row && R[ri].col == h->col, "a word is shown below the reference word it is aligned with"); ri++; } } } }
  __sym_check(blocks == want, "only utterances all systems have are shown");
  for (p = t; *p && !starts(p, "Lattice Summary: "); p = nextl(p)) ; __sym_check(*p != 0, "lattice summary"); char *e; const char *z = strstr(p, "#TotRefWords "); long a = strtol(z + 13, &e, 10); z = strstr(e, "#TotRefErrWords "); long b = strtol(z + 16, &e, 10); z = strstr(e, "Accuracy "); __sym_check(a == tr && b == te, "the summary counts the words of the utterances shown"); if (tr) __sym_check(near_(strtod(z + 9, 0), 100.0 * (tr - te) / tr, 0.00501), "accuracy of the best system word by word");
  for (p = nextl(p); *p && !starts(p, "List of not correct"); p = nextl(p)) ; __sym_check(*p != 0, "list of words no system got right"); int seen = 0;
  for (p = nextl(nextl(p)); *p; p = nextl(p)) { const char *q = p; while (*q == ' ') q++; if (starts(q, "---")) break; if (*q < '0' || *q > '9') continue; strtol(q, &e, 10); __sym_check(*e == ':', "list entry"); long c = strtol(e + 1, &e, 10); while (*e == ' ') e++; __sym_check(starts(e, "->"), "list entry"); e += 2; while (*e == ' ') e++; char w[ML]; int m = 0; while (*e && *e != '\n' && *e != ' ') { if (m < ML - 1) w[m++] = *e; e++; } w[m] = 0; int got = 0; for (int i = 0; i < nb; i++) got += weqs(w, bad[i], 0); __sym_check(c == got && got, "how often no system got the word right"); seen += c; }
  __sym_check(seen == nb, "the list holds every word no system got right"); }
#endif
static const char *W1[] = {"a", "bee", "sea", "d", "eff"}, *HX[] = {"x", "why", "zz"}; static char sx[3];
/* utterance u: `nw` reference words; each system's labels free over `alpha`; at most one insertion, before word `ins` */
static void gen(utt *q, int u, int nw, const char *alpha, int insmax) { int na = strlen(alpha);
  for (int s = 0; s < NSYS; s++) { int n = 0, ip = insmax && s < SYMS ? sym_choose(nm2("ip", u * 4 + s, -1), 0, insmax == 1 ? 1 : nw + 1) : 0; if (insmax == 1 && ip) ip = 1 + (u + s) % (nw + 1);
    for (int i = 0; i <= nw; i++) { if (ip == i + 1) q->l[s][n] = 'I', q->r[s][n] = "", q->h[s][n++] = HX[(i + s) % 3]; if (i == nw) break; int k = na > 1 && s < SYMS ? sym_choose(nm2("L", u * 4 + s, i), 0, na - 1) : 0; char c = alpha[k]; q->l[s][n] = c; q->r[s][n] = W1[(u + i) % 5]; q->h[s][n] = c == 'D' ? "" : c == 'C' ? W1[(u + i) % 5] : HX[(u + i + s) % 3]; n++; }
    q->n[s] = n; q->there[s] = 1; } }
static void fix(utt *q, int u, const char **pat) { for (int s = 0; s < NSYS; s++) { int n = 0, i = 0; for (const char *p = pat[s % 3]; *p; p++, n++) { q->l[s][n] = *p; if (*p == 'I') q->r[s][n] = "", q->h[s][n] = HX[(n + s) % 3]; else { q->r[s][n] = W1[(u + i) % 5]; q->h[s][n] = *p == 'D' ? "" : *p == 'C' ? W1[(u + i) % 5] : HX[(u + i + s) % 3]; i++; } } q->n[s] = n; q->there[s] = 1; } }
void harness(void) { warm(); nu = 0; nspk = NSPK; int flip = 0;
#ifdef FLIP
  flip = sym_choose("flip", 0, 1);
#endif
  static const char *P3[][3] = {{"CC", "CS", "DC"}, {"SCI", "CC", "CC"}, {"C", "D", "S"}, {"DS", "SSI", "CD"}};
  for (int i = 0; i < PADU; i++) { U[nu].spk = i % NSPK; fix(&U[nu], nu, P3[i % 4]); nu++; }
  for (int i = 0; i < NU; i++) { U[nu].spk = (i + 1) % NSPK; gen(&U[nu], nu, NW, ALPHA, INS); nu++; }
#ifdef LUR
  { static const char *LM[] = {"<O>", "<O,M>", "<,M>", 0}; for (int u = 0; u < nu; u++) U[u].lab = u < PADU ? LM[u % 2] : LM[sym_choose(nm2("lab", u, -1), 0, 3)]; }
#endif
#ifdef MISS /* one system lacks one utterance, or (with MISS 2) one speaker */
  { int m = sym_choose("miss", 0, NSYS * (MISS == 2 ? NSPK : nu)); if (m) { int s = (m - 1) % NSYS, x = (m - 1) / NSYS; for (int u = 0; u < nu; u++) if (MISS == 2 ? U[u].spk == x : u == x) U[u].there[s] = 0; __sym_reach("missing"); } }
#endif
#ifdef REFD /* the references of the systems may differ in the last utterance */
  { utt *q = &U[nu - 1]; int d = sym_choose("refd", 0, 4), n; if (d == 1) q->r[1][0] = q->l[1][0] == 'I' ? "" : "other"; if (d == 2) n = q->n[1]++, q->l[1][n] = 'D', q->r[1][n] = "more", q->h[1][n] = ""; if (d == 3) n = q->n[0]++, q->l[0][n] = 'C', q->r[0][n] = "more", q->h[0][n] = "more"; if (d == 4) q->n[1] = 0; if (d == 1 && q->l[1][0] == 'C') q->h[1][0] = "other"; }
#endif
#ifdef LONG /* words of many lengths: lines wrap at every position */
  { static char lw[2][200]; for (int i = 0; i < 2; i++) { int l = sym_choose(nm2("len", i, -1), i ? 1 : LLO, i ? LHI2 : LHI), j; for (j = 0; j < l; j++) lw[i][j] = 'k' + j % 3; lw[i][j] = 0; } utt *q = &U[nu - 1]; for (int s = 0; s < NSYS; s++) for (int x = 0, k = 0; x < q->n[s]; x++) if (q->l[s][x] != 'I') { if (k < 2) { q->r[s][x] = lw[k]; if (q->l[s][x] == 'C') q->h[s][x] = lw[k]; } k++; } }
#endif
#ifdef SYMW /* an inserted or substituted word of free letters */
  sx[0] = (char)sym_range("x0", 'a', 'z'); sx[1] = (char)sym_range("x1", 'a', 'z'); for (int u = 0; u < nu; u++) for (int s = 0; s < NSYS; s++) for (int x = 0; x < U[u].n[s]; x++) if (U[u].h[s][x] == HX[0]) U[u].h[s][x] = sx;
#endif
  int n = build(flip); rt_stdin(in, n);
  char *av[] = {"sc_stats", "-p", "-r", REPORTS, 0};
  rt_capture_stdout(1); int rc = run_tool(av); rt_capture_stdout(0); __sym_check(rc == 0, "reporting on well-formed alignments succeeds");
#ifdef SUM
  sum(0); sum(1); es(0); es(1);
#endif
#ifdef LUR
  lur();
#endif
#ifdef PRN
  prn();
#endif
  __sym_reach("end");
}
