#ifndef PADI
#define PADI(i) (i)
#endif
#ifndef PADK
#define PADK 10
#endif
#ifdef PADS
#define MAXP 128
#define MAXE 260
#endif
#include "dtl.h"
static ssys S;
#ifndef STEM
#define STEM ""
#endif
#ifdef PADS /* fixed utterances before the free ones: PADS lists with more different entries than the tables start with */
static int pw(char *b, int n, char c, int i) { i = PADI(i); b[n++] = c; b[n++] = 'a' + i / 26; b[n++] = 'a' + i % 26; b[n++] = ' '; b[n] = 0; return n; }
static int pid(char *b, int n, int k) { n = put(b, n, "(spk"); b[n++] = '0' + k % NS; b[n++] = '_'; b[n++] = 'a' + k / 26; b[n++] = 'a' + k % 26; return put(b, n, ")\n"); }
#endif
void harness(void) {
  warm();
  static char rb[6000], hb[6000]; int n = 0, m = 0, np = 0; rb[0] = hb[0] = 0;
#ifdef PADS
  for (int i = 0; i < PADS;) { for (int k = 0; k < PADK && i < PADS; k++, i++) { n = pw(rb, n, 'x', i); m = pw(hb, m, 'y', i); } n = pid(rb, n, np); m = pid(hb, m, np++); }
  for (int i = 0; i < PADS;) { for (int k = 0; k < 35 && i < PADS; k++, i++) n = pw(rb, n, 'x', i); n = pid(rb, n, np); m = pid(hb, m, np++); }
  for (int i = 0; i < PADS;) { for (int k = 0; k < 35 && i < PADS; k++, i++) m = pw(hb, m, 'y', i); n = pid(rb, n, np); m = pid(hb, m, np++); }
#endif
  for (int u = 0; u < NU; u++) {
    int nr = sym_choose(nm2("nr", u, -1), MINR, NR), nh = sym_choose(nm2("nh", u, -1), 0, NH);
    char id[16] = "(spk0_0)\n"; id[4] = '0' + (NS > 1 ? u % NS : 0); id[6] = '0' + u;
#ifdef PADW
    n = put(rb, n, PADW); m = put(hb, m, PADW);
#endif
#ifdef PADS
    static const int at[] = {0, 1, 99, PADS - 1, PADS};
    for (int i = 0; i < nr; i++) n = pw(rb, n, 'x', at[sym_choose(nm2("ri", u, i), 0, 4)]);
    for (int i = 0; i < nh; i++) m = pw(hb, m, 'y', at[sym_choose(nm2("hi", u, i), 0, 4)]);
#else
    for (int i = 0; i < nr; i++) { wrd w; n = put(rb, n, STEM); mkword(&w, nm2("r", u, -1), i, LEN > 1 ? 1 + (i + u) % LEN : 1, 'a', LAST); n = putwd(rb, n, &w); rb[n++] = ' '; }
    for (int i = 0; i < nh; i++) { wrd w; m = put(hb, m, i & 1 ? STEM : ""); mkword(&w, nm2("h", u, -1), i, LEN > 1 ? 1 + i % LEN : 1, 'a', LAST); m = putwd(hb, m, &w); hb[m++] = ' '; }
#endif
    n = put(rb, n, id); m = put(hb, m, id); }
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m); rt_capture_stdout(1);
#ifdef SENS
  int cs = 1;
#else
  int cs = 0;
#endif
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm", "-l", LW, "-o", "sgml",
#ifdef DTL
    "dtl", "spk", "snt",
#endif
#ifdef PRA
    "pra", "prf",
#endif
    cs ? "-s" : 0, 0};
  __sym_check(run_tool(av) == 0, "scoring well-formed transcripts succeeds");
  const char *o = outfile("hyp.trn.sgml");
  __sym_check(parse_system(&o, &S) && S.np == NU + np, "every utterance is scored");
#ifdef DTL
  check_dtl(outfile("hyp.trn.dtl"), &S, -1);
  for (int s = 0; s < S.nspk; s++) { char f[32] = "hyp.trn.spk.", g[32] = "hyp.trn.snt."; strcat(f, S.spk[s]); strcat(g, S.spk[s]); check_dtl(outfile(f), &S, s);
    const char *p = outfile(g); cnt R = {0}; int rr = 0;
    for (int x = 0; x < S.np; x++) if (S.p[x].spkno == s) {
      p = findline(p, "id: "); __sym_check(p != 0, "the sentence report lists the utterance"); p = check_pra(p, &S.p[x], cs, 0);
      cnt c = {0}; tally(&S.p[x], &c); R.c += c.c; R.s += c.s; R.d += c.d; R.i += c.i; int w = c.c + c.s + c.d;
      static const char *lab[8] = {"Correct", "Substitutions", "Deletions", "Insertions", "Errors", "Ref. words", "Hyp. words", "Aligned words"};
      int here[8] = {c.c, c.s, c.d, c.i, c.s + c.d + c.i, w, c.c + c.s + c.i, w + c.i}, run[8] = {R.c, R.s, R.d, R.i, R.s + R.d + R.i, R.c + R.s + R.d, R.c + R.s + R.i, R.c + R.s + R.d + R.i};
      for (int l = 0; l < 8; l++) { p = findline(p, lab[l]); __sym_check(p != 0, "the sentence report has every line");
        const char *q = p + strlen(lab[l]); while (*q != '=') q++; q = skipsp(q + 1);
        if (l < 5) { char *e; if (starts(q, "UNDEF%")) { __sym_check(w == 0, "percentages are undefined only without reference words"); q += 6; } else { double d = strtod(q, &e); __sym_check(*e == '%' && w > 0 && near_(d, 100.0 * here[l] / w, 0.0501), "sentence percentages"); q = e + 1; } q = skipsp(q); }
        __sym_check(atoi(q) == here[l], "sentence counts equal the tally of the alignment");
        while (*q != '(') q++; __sym_check(atoi(skipsp(q + 1)) == run[l], "running counts equal the tally of the alignments so far"); p = nextline(p); } } }
#endif
#ifdef PRA
  const char *f[2] = {"hyp.trn.pra", "hyp.trn.prf"};
  for (int k = 0; k < 2; k++) { const char *p = outfile(f[k]); int done = 0, seen[MAXP] = {0};
    for (;;) { p = findline(p, "id: "); if (!p) break;
      int x = 0; for (; x < S.np; x++) { const char *a = p + 4, *b = S.p[x].id; while (*b && *a == *b) a++, b++; if (!*b && *a == '\n') break; }
      __sym_check(x < S.np && !seen[x], "a printed alignment is one of the scored ones"); seen[x] = 1; done++;
      p = check_pra(p, &S.p[x], cs, atoi(LW)); }
    __sym_check(done == S.np, "every alignment is printed once"); }
#endif
  __sym_reach("end");
}
