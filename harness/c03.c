/* Summary reports (raw counts, percentages) against a tally of the alignments. */
#ifndef PADK
#define PADK 0
#endif
#ifndef BIG
#define BIG 0
#endif
#ifndef PADU
#define PADU 0
#endif
#define MAXP (PADU + NS * NU + PADK + BIG + 4)
#define MAXT (BIG ? 1700 : 60)
#define NA (NS + PADK + BIG + !!PADU)
#include "sgm.h"
static ssys S; static char rb[2000 + 40 * (PADK + PADU) + 20000 * BIG], hb[2000 + 40 * (PADK + PADU) + 2000 * BIG];
static void stat_(const double *v, int n, double *mean, double *sd, double *med) {
  double a[MAXP], s = 0, q = 0; for (int i = 0; i < n; i++) a[i] = v[i];
  for (int i = 1; i < n; i++) { double x = a[i]; int j = i - 1; while (j >= 0 && a[j] > x) { a[j + 1] = a[j]; j--; } a[j + 1] = x; }
  for (int i = 0; i < n; i++) s += a[i];
  *mean = n ? s / n : 0; for (int i = 0; i < n; i++) q += (a[i] - *mean) * (a[i] - *mean);
  *sd = n > 1 ? sqrt(q / (n - 1)) : 0; *med = n == 0 ? 0 : n % 2 ? a[n / 2] : (a[n / 2] + a[n / 2 - 1]) / 2; }
static void col(double got, double want, const char *m) { __sym_check(near_(got, want, 0.0501), m); }
void harness(void) {
  warm();
  int n = 0, m = 0; rb[0] = hb[0] = 0; int un = 0;
  for (int s = 0; s < PADK; s++, un++) { /* fixed speakers */
    char id[16] = "(pad0_0)\n"; id[1] = 'p' + s / 26; id[4] = 'a' + s % 26; int a = (s * 7 + 3) % 5, b = (s * 5 + 1) % 6;
    if (s % 3) for (int i = 0; i < a; i++) { rb[n++] = 'a' + i; rb[n++] = ' '; } for (int i = 0; i < b; i++) { hb[m++] = 'a' + i * (1 + s % 2); hb[m++] = ' '; }
    n = put(rb, n, id); m = put(hb, m, id); }
  for (int u = 0; u < PADU; u++, un++) { /* one fixed speaker with many utterances */
    char id[16] = "(ut_00)\n"; id[4] = 'a' + u / 26; id[5] = 'a' + u % 26; int a = (u * 7 + 3) % 4, b = (u * 5 + 1) % 4; for (int i = 0; i < a; i++) { rb[n++] = 'a' + i; rb[n++] = ' '; } for (int i = 0; i < b; i++) { hb[m++] = 'a' + i * (1 + u % 2); hb[m++] = ' '; }
    n = put(rb, n, id); m = put(hb, m, id); }
  if (BIG) { un++; for (int i = 0; i < 1650; i++) { rb[n++] = 'a' + i % 3; rb[n++] = ' '; } for (int i = 0; i < 2; i++) m = put(hb, m, "c x "); n = put(rb, n, "(big_1)\n"); m = put(hb, m, "(big_1)\n"); }
  for (int s = 0; s < NS; s++) { int nu = NU > 1 ? sym_choose(nm2("nu", s, -1), 1, NU) : 1;
    for (int u = 0; u < nu; u++, un++) {
      int nr = sym_choose(nm2("nr", s, u), MINR, NR), nh = sym_choose(nm2("nh", s, u), 0, NH);
      char id[16] = "(spk0_0)\n"; id[4] = '0' + s; id[6] = '0' + u;
#ifdef PADW
      n = put(rb, n, PADW); m = put(hb, m, PADW);
#endif
      for (int i = 0; i < nr; i++) { rb[n++] = (char)sym_range(nm2("r", un, i), 'a', LAST); rb[n++] = ' '; }
      for (int i = 0; i < nh; i++) { hb[m++] = (char)sym_range(nm2("h", un, i), 'a', LAST); hb[m++] = ' '; }
      n = put(rb, n, id); m = put(hb, m, id); } }
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm", "-o", "sgml", "rsum", "sum", 0};
  __sym_check(run_tool(av) == 0, "scoring well-formed transcripts succeeds");
  const char *o = outfile("hyp.trn.sgml");
  __sym_check(parse_system(&o, &S), "an alignment report is written");
  __sym_check(S.np == un && S.nspk == NA, "every utterance and speaker is scored");
  cnt k[NA], T = {0}; int ns[NA], se[NA], tn = 0, tse = 0; memset(k, 0, sizeof k); memset(ns, 0, sizeof ns); memset(se, 0, sizeof se);
  for (int x = 0; x < S.np; x++) { cnt c = {0}; tally(&S.p[x], &c); int s = S.p[x].spkno; k[s].c += c.c; k[s].s += c.s; k[s].d += c.d; k[s].i += c.i; ns[s]++; if (c.s + c.d + c.i) se[s]++; }
  double a[8][NA], p[8][NA], v[16]; int nz = 0;
  const char *raw = outfile("hyp.trn.raw"), *sys = outfile("hyp.trn.sys");
  for (int s = 0; s < NA; s++) {
    int w = k[s].c + k[s].s + k[s].d, e = k[s].s + k[s].d + k[s].i;
    double q[8] = {ns[s], w, k[s].c, k[s].s, k[s].d, k[s].i, e, se[s]};
    for (int c = 0; c < 8; c++) a[c][s] = q[c];
    __sym_check(table_row(raw, S.spk[s], v, 16) == 8, "the raw report has a row per speaker");
    for (int c = 0; c < 8; c++) __sym_check(v[c] == q[c], "raw counts equal the tally of the speaker's alignments");
    __sym_check(table_row(sys, S.spk[s], v, 16) == 8, "the percentage report has a row per speaker");
    __sym_check(v[0] == ns[s] && v[1] == w, "sentence and word counts are reported");
    for (int c = 2; c < 7; c++) { if (w) col(v[c], 100.0 * q[c] / w, "a speaker's percentages are counts over its reference words"); else __sym_check(v[c] == q[c], "a speaker without reference words is reported by counts"); }
    p[0][s] = ns[s]; p[1][s] = w; p[7][s] = 100.0 * se[s] / ns[s]; col(v[7], p[7][s], "sentence error rate is sentences with errors over sentences");
    if (w) { for (int c = 2; c < 7; c++) p[c][nz] = 100.0 * q[c] / w; nz++; }
    T.c += k[s].c; T.s += k[s].s; T.d += k[s].d; T.i += k[s].i; tn += ns[s]; tse += se[s];
  }
  if (nz < NA) __sym_reach("zero");
  int TW = T.c + T.s + T.d, TE = T.s + T.d + T.i; double q[8] = {tn, TW, T.c, T.s, T.d, T.i, TE, tse};
  __sym_check(table_row(raw, "Sum", v, 16) == 8, "the raw report has a total row");
  for (int c = 0; c < 8; c++) __sym_check(v[c] == q[c], "total counts equal the tally of all alignments");
  __sym_check(table_row(sys, "Sum/Avg", v, 16) == 8, "the percentage report has a total row");
  __sym_check(v[0] == tn && v[1] == TW, "total sentence and word counts are reported");
  for (int c = 2; c < 7; c++) col(v[c], TW ? 100.0 * q[c] / TW : 0, "total percentages are total counts over all reference words");
  col(v[7], 100.0 * tse / tn, "total sentence error rate");
  static const char *rows[3] = {"Mean", "S.D.", "Median"};
  for (int r = 0; r < 3; r++) {
    double u[16]; __sym_check(table_row(raw, rows[r], u, 16) == 8 && table_row(sys, rows[r], v, 16) == 8, "per-speaker statistics are reported");
    for (int c = 0; c < 8; c++) { double x[3];
      stat_(a[c], NA, &x[0], &x[1], &x[2]); col(u[c], x[r], "mean, deviation and median of the speakers' counts");
      stat_(p[c], c >= 2 && c < 7 ? nz : NA, &x[0], &x[1], &x[2]); col(v[c], x[r], "mean, deviation and median of the speakers' percentages"); } }
  __sym_reach("end");
}
