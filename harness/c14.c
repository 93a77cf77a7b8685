/* The label report (-o lur): per label, the word errors of the segments that carry it. */
#ifndef PADK
#define PADK 0
#endif
#ifndef MOREL
#define MOREL 0
#endif
#ifndef SET
#define SET 0
#endif
#define MAXP (PADK + 12)
#include "sgm.h"
static ssys S;
static void stat_(const double *v, int n, double *mean, double *sd, double *med) {
  double a[MAXP], s = 0, q = 0; for (int i = 0; i < n; i++) a[i] = v[i];
  for (int i = 1; i < n; i++) { double x = a[i]; int j = i - 1; while (j >= 0 && a[j] > x) { a[j + 1] = a[j]; j--; } a[j + 1] = x; }
  for (int i = 0; i < n; i++) s += a[i];
  *mean = n ? s / n : 0; for (int i = 0; i < n; i++) q += (a[i] - *mean) * (a[i] - *mean);
  *sd = n > 1 ? sqrt(q / (n - 1)) : 0; *med = n == 0 ? 0 : n % 2 ? a[n / 2] : (a[n / 2] + a[n / 2 - 1]) / 2; }
/* cells of the row named `name`: c[j] points at the cell text */
static int cells(const char *p, const char *name, const char **c, int max) { size_t l = strlen(name);
  for (; *p; ) { const char *q = p; while (*q == ' ') q++; if (*q == '|') { q++; while (*q == ' ') q++; if (!strncmp(q, name, l) && q[l] == ' ') { int n = 0; q += l;
        while (*q && *q != '\n') { if (*q == '|' && q[1] != '|' && q[1] != '\n' && q[1]) { __sym_check(n < max, "one cell per label"); c[n++] = q + 1; } q++; } return n; } }
    while (*p && *p != '\n') p++; if (*p) p++; }
  return -1; }
static int cell(const char *c, double *n, double *w, int *star) { while (*c == ' ') c++; *star = 0; if (*c == '|' || !*c || *c == '\n') return 0; char *e; if (*c == '[') { *n = strtod(c + 1, &e); __sym_check(*e == ']', "cell form"); *w = strtod(e + 1, &e); return 1; } *n = strtod(c, &e); while (*e == ' ') e++; __sym_check(*e == '*', "cell form"); *w = strtod(e + 1, &e); *star = 1; return 1; }
/* label sets: ids that are beginnings of each other, long ids, two fields */
static const char *IDS[3][4] = {{"o", "f", "g", 0}, {"o", "fe", "f", "fem"}, {"all", "male-or-female-speaker-0001", "m", "male"}};
static const char *LST[3][8] = {{"<o>", "<o,f>", "<o,g>", "", "<,f>"}, {"<o,fe,>", "<o,,fem>", "<o,f>", "<o,fe,fem>", "<,f,fem>", "<,,fem>", "", "<o>"}, {"<all,male-or-female-speaker-0001>", "<all,m>", "<all,male>", "<,male>", "<,male-or-female-speaker-0001>", "<all>", "<all,>", ""}};
static const char *TIT[] = {"Overall", "Set F", "Set G", "Set H"};
#define NID (SET ? 4 : 3)
static int has(const char *lab, const char *id) { size_t l = strlen(id); for (; *lab; lab++) if ((*lab == '<' || *lab == ',') && !strncmp(lab + 1, id, l) && (lab[1 + l] == ',' || lab[1 + l] == '>')) return 1; return 0; }
static char rb[9000], hb[9000]; static const char *slab[NSEG + PADK]; static char sspk[NSEG + PADK][4]; static char pid[MOREL + 1][8];
static int two(char *b, int k, int v) { if (v >= 10) b[k++] = '0' + v / 10; b[k++] = '0' + v % 10; return k; }
void harness(void) { warm();
  int n = 0, m = 0, nl = NID + MOREL;
#ifdef CATS
  n = put(rb, n, ";; CATEGORY \"0\" \"First\" \"one\"\n;; CATEGORY \"1\" \"Second\" \"two\"\n");
#endif
  for (int i = 0; i < NID; i++) { n = put(rb, n, ";; LABEL \""); n = put(rb, n, IDS[SET][i]); n = put(rb, n, "\" \""); n = put(rb, n, TIT[i]); n = put(rb, n, "\" \"some\"\n"); }
  for (int i = 0; i < MOREL; i++) { pid[i][0] = 'q'; pid[i][1] = 'a' + i; pid[i][2] = 0; n = put(rb, n, ";; LABEL \""); n = put(rb, n, pid[i]); n = put(rb, n, "\" \"T"); n = put(rb, n, pid[i]); n = put(rb, n, "\" \"one more\"\n"); }
#ifdef AGAIN
  n = put(rb, n, ";; LABEL \""); n = put(rb, n, IDS[SET][0]); n = put(rb, n, "\" \"Overall\" \"some\"\n");
#endif
  for (int s = 0; s < NSEG + PADK; s++) { int pad = s - NSEG, nr, nh; wrd w; char *k = sspk[s];
#ifdef PADFIRST
    pad = s < PADK ? s : -1; int t = pad >= 0 ? 0 : s - PADK;
#else
    int t = pad >= 0 ? 0 : s;
#endif
    if (pad >= 0) { static const char *PW[] = {"a ", "a b ", "b a a ", ""}; k[0] = 'T'; k[1] = 'a' + pad % 26; k[2] = 0; slab[s] = LST[SET][pad % (SET ? 8 : 5)];
#if MOREL
      static char ql[40][12]; ql[pad][0] = '<'; ql[pad][1] = 'q'; ql[pad][2] = 'a' + pad % MOREL; ql[pad][3] = '>'; ql[pad][4] = 0; slab[s] = ql[pad];
#endif
      n = put(rb, n, "f1 A "); n = put(rb, n, k); rb[n++] = ' '; n = two(rb, n, s); n = put(rb, n, ".00 "); n = two(rb, n, s + 1); n = put(rb, n, ".00 "); n = put(rb, n, slab[s]); rb[n++] = ' '; n = put(rb, n, PW[pad % 4]); n = put(rb, n, "\n");
      for (int i = 0; i < 1 + pad % 2; i++) { m = put(hb, m, "f1 A "); m = two(hb, m, s); hb[m++] = '.'; hb[m++] = '1' + i; m = put(hb, m, "0 0.10 "); m = put(hb, m, pad % 3 ? "a\n" : "b\n"); }
      continue; }
    int lb = sym_choose(nm2("lb", t, -1), 0, NLAB); slab[s] = LST[SET][lb]; nr = sym_choose(nm2("nr", t, -1), MINR, NR); nh = sym_choose(nm2("nh", t, -1), MINH, NH); k[0] = 'S'; k[1] = SPKS > 1 ? sym_choose(nm2("sp", t, -1), 'a', 'a' + SPKS - 1) : 'a'; k[2] = 0;
    n = put(rb, n, "f1 A "); n = put(rb, n, k); rb[n++] = ' '; n = two(rb, n, s); n = put(rb, n, ".00 "); n = two(rb, n, s + 1); n = put(rb, n, ".00 "); n = put(rb, n, slab[s]); rb[n++] = ' ';
    for (int i = 0; i < nr; i++) { mkword(&w, "r", t * 4 + i, 1, 'a', LAST); n = putwd(rb, n, &w); rb[n++] = ' '; } n = put(rb, n, "\n");
    for (int i = 0; i < nh; i++) { m = put(hb, m, "f1 A "); m = two(hb, m, s); hb[m++] = '.'; hb[m++] = '1' + i; m = put(hb, m, "0 0.10 "); mkword(&w, "h", t * 4 + i, 1, 'a', LAST); m = putwd(hb, m, &w); m = put(hb, m, "\n"); } }
  if (!m) return;
  vfs_put("r.stm", rb, n); vfs_put("h.ctm", hb, m);
  char *av[] = {"sclite", "-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-o", "sgml", "lur", 0};
  __sym_check(run_tool(av) == 0, "scoring well-formed inputs succeeds");
  const char *o = outfile("h.ctm.sgml"); __sym_check(parse_system(&o, &S) && S.np == NSEG + PADK, "every segment has an alignment");
  const char *rep = outfile("h.ctm.lur"); int nsp = S.nspk, anystar = 0; static double R[4 + MOREL][MAXP], E[4 + MOREL][MAXP]; int np[4 + MOREL] = {0}, tr[4 + MOREL] = {0}, te[4 + MOREL] = {0};
  { const char *c[24]; __sym_check(cells(rep, "SPKR", c, 24) == nl, "one column per label"); for (int j = 0; j < nl; j++) { const char *t = j < NID ? TIT[j] : pid[j - NID], *q = c[j]; while (*q == ' ') q++; if (j >= NID) { __sym_check(*q == 'T', "columns are in the order of the labels"); q++; } __sym_check(!strncmp(q, t, strlen(t)) && (q[strlen(t)] == ' ' || q[strlen(t)] == '|'), "columns are in the order of the labels"); } }
  for (int k = 0; k < nsp; k++) { const char *c[24]; int nc = cells(rep, S.spk[k], c, 24), sg = 0; __sym_check(nc == nl,
      "every speaker has a row with every label"); const char *lp[NSEG + PADK]; int nlp = 0, at = 0;
    for (int s = 0; s < NSEG + PADK; s++) if (!strcasecmp(sspk[s], S.spk[k])) lp[nlp++] = slab[s]; (void)sg;
    for (int p = 0; p < S.np; p++) if (S.p[p].spkno == k) { __sym_check(at < nlp, "segments belong to their speaker"); S.p[p].attrs = lp[at++]; }
    __sym_check(at == nlp, "segments belong to their speaker");
    for (int j = 0; j < nl; j++) { int nr = 0, ne = 0; for (int p = 0; p < S.np; p++) if (S.p[p].spkno == k && has(S.p[p].attrs, j < NID ? IDS[SET][j] : pid[j - NID])) { cnt b = {0}; tally(&S.p[p], &b); nr += b.c + b.s + b.d; ne += b.s + b.d + b.i; }
      double a, w; int st, got = cell(c[j], &a, &w, &st);
      if (nr) { __sym_check(got && !st && a == nr, "a label's reference words for a speaker"); __sym_check(near_(w, 100.0 * ne / nr, 0.0501), "a label's word error for a speaker"); R[j][np[j]] = nr; E[j][np[j]++] = 100.0 * ne / nr; }
      else if (ne) { __sym_check(got && st && w == ne, "errors without reference words are shown as a count"); anystar = 1; __sym_reach("star"); }
      else __sym_check(!got, "a label the speaker does not have is blank");
      tr[j] += nr; te[j] += ne; } }
  const char *rows[] = {"Set Sum/Avg", anystar ? "Mean +" : "Mean", anystar ? "StdDev +" : "StdDev", "Median"};
  for (int r = 0; r < 4; r++) { const char *c[24]; int nc = cells(rep, rows[r], c, 24); __sym_check(nc == nl, "summary rows cover every label");
    for (int j = 0; j < nl; j++) { double a, w, x[3], y[3]; int st, got = cell(c[j], &a, &w, &st); __sym_check(got && !st, "summary cells are filled");
      if (r == 0) { __sym_check(a == tr[j], "total reference words of a label"); if (tr[j]) __sym_check(near_(w, 100.0 * te[j] / tr[j], 0.0501), "total word error of a label"); continue; }
      stat_(R[j], np[j], &x[0], &x[1], &x[2]); stat_(E[j], np[j], &y[0], &y[1], &y[2]);
      __sym_check(a <= x[r - 1] + 1e-6 && a > x[r - 1] - 1.0001, "mean, deviation and median of a label's words over its speakers"); __sym_check(near_(w, y[r - 1], 0.0501), "mean, deviation and median of a label's word error over its speakers"); } }
  if (nsp > 1) __sym_reach("speakers"); __sym_reach("end");
}
