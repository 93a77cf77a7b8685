/* Pairing of hypothesis and reference utterances by id, grouping by speaker. */
#ifndef PADN
#define PADN 0
#else
#define MAXP (PADN + 8)
#endif
#include "sgm.h"
/* fixed utterances around the free ones: ids of PADS speakers; the reference file lists them backwards */
#ifndef PADS
#define PADS 1
#endif
static int padid(char *b, int i) { int n = 0; b[n++] = '('; b[n++] = 'q'; b[n++] = 'a' + i % PADS / 26; b[n++] = 'a' + i % PADS % 26; b[n++] = SEP; if (i >= 10) b[n++] = '0' + i / 10; b[n++] = '0' + i % 10; b[n++] = ')'; b[n] = 0; return n; }
static char *padline(const char *w, int i) { static char l[40]; int n = put(l, 0, w); l[n++] = 'a' + i / 26; l[n++] = 'a' + i % 26; l[n++] = ' '; n = put(l, n, "w "); n += padid(l + n, i); l[n++] = '\n'; l[n] = 0; return l; }
#ifndef IDL
#define IDL 0
#endif
static ssys S; static char seen[PADN + 1];
static int lowc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void harness(void) {
  /* utterance ids: "(" s x k ")" with symbolic speaker letter, separator and number */
  char id[N][12], rid[N + 1][12]; int perm[N];
#ifdef CASE
  int sens = sym_choose("sens", 0, 1);
#else
  int sens = 0;
#endif
  for (int k = 0; k < N; k++) {
    int a = PADN ? sym_choose(nm2("s", k, -1), 0, NSPK - 1) : sym_range(nm2("s", k, -1), 0, NSPK - 1), b = PADN ? sym_choose(nm2("k", k, -1), 0, 1) : sym_range(nm2("k", k, -1), 0, 3);
#ifdef CASE
    int up = sym_choose(nm2("u", k, -1), 0, 1), rup = sym_choose(nm2("v", k, -1), 0, 1);
#else
    int up = 0, rup = 0;
#endif
    id[k][0] = '('; id[k][1] = 'p'; id[k][2] = (up ? 'A' : 'a') + a; id[k][3] = SEP; id[k][4] = '0' + b; int e = 5; if (IDL) { int dd = sym_choose(nm2("t", k, -1), 0, 2); if (dd) id[k][e++] = '0' + dd - 1; } id[k][e++] = ')'; id[k][e] = 0;
    memcpy(rid[k], id[k], 12); rid[k][2] = (rup ? 'A' : 'a') + a;
    for (int m = 0; m < k; m++) __sym_assume(lowc(id[k][2]) != lowc(id[m][2]) || id[k][4] != id[m][4] || (IDL && id[k][5] != id[m][5]));
  }
  /* the reference file lists the utterances in any order */
  for (int k = 0; k < N; k++) { perm[k] = sym_choose(nm2("p", k, -1), 0, N - 1); for (int m = 0; m < k; m++) __sym_assume(perm[k] != perm[m]); }
  int drop = -1, dup = 0, extra = 0, dupsame = 0, hdup = 0;
  int err = 0;
#ifdef FAULT
  int f = sym_choose("fault", 0, 4);
  if (f == 1) drop = sym_choose("drop", 0, N - 1);      /* one reference is missing */
  if (f == 2) dup = 1 + sym_choose("dup", 0, 2);         /* two texts for one id: different, shorter, longer */
  if (f == 3) dupsame = 1;                               /* same text twice */
  if (f == 4) extra = 1;                                 /* an unused reference */
  if (f == 1 || f == 2) err = 1;
#endif
#ifdef FORM
  int cm = sym_choose("cm", 0, 6), nlr = sym_choose("nlr", 0, 1), nlh = sym_choose("nlh", 0, 1);
#else
  int cm = 0, nlr = 1, nlh = 1;
#endif
  static char rb[600 + 24 * PADN], hb[600 + 24 * PADN]; int n = 0, m = 0; rb[0] = hb[0] = 0;
  for (int i = PADN - 1; i >= 0; i -= 2) n = put(rb, n, padline("r", i)); for (int i = 0; i < PADN; i += 2) m = put(hb, m, padline("h", i));
  for (int x = 0; x < N; x++) { int k = perm[x]; char w[8] = {'r', (char)('0' + k), ' ', 0};
    if (cm == 1) n = put(rb, n, ";; a comment\n"); if (cm == 2) n = put(rb, n, "\n"); if (cm == 3) n = put(rb, n, "** info (px_9)\n"); if (cm == 4) n = put(rb, n, "  \t \n"); if (cm == 5) n = put(rb, n, " \t");
    if (k == drop) continue;
    n = put(rb, n, w); n = put(rb, n, cm == 6 ? "w\t" : "w "); n = put(rb, n, rid[k]); if (cm == 5) n = put(rb, n, " \t");
    if (x < N - 1 || nlr || dup || dupsame || extra) n = put(rb, n, "\n"); }
  if (dup) { char w[8] = {'r', (char)('0' + perm[0]), ' ', 0}; n = put(rb, n, dup == 3 ? "" : w); if (dup == 3) { n = put(rb, n, w); n = put(rb, n, "w z "); } else if (dup == 1) n = put(rb, n, "z "); n = put(rb, n, rid[perm[0]]); n = put(rb, n, "\n"); }
  if (dupsame) { char w[8] = {'r', (char)('0' + perm[0]), ' ', 0}; n = put(rb, n, w); n = put(rb, n, "w "); n = put(rb, n, rid[perm[0]]); n = put(rb, n, "\n"); }
  if (extra) n = put(rb, n, "zz zz (px_7)\n");
  for (int k = 0; k < N; k++) { char w[8] = {'h', (char)('0' + k), ' ', 0};
    if (cm == 1) m = put(hb, m, ";; a comment (pz_1)\n"); if (cm == 2) m = put(hb, m, "\n\n"); if (cm == 3) m = put(hb, m, "** info\n"); if (cm == 4) m = put(hb, m, " \n"); if (cm == 6) m = put(hb, m, "  ");
    m = put(hb, m, w); m = put(hb, m, cm == 5 ? " w\t " : "w "); m = put(hb, m, id[k]); if (cm == 6) m = put(hb, m, "  "); if (k < N - 1 || nlh) m = put(hb, m, "\n"); }
  if (PADN) { if (rb[n - 1] != '\n') n = put(rb, n, "\n"); if (hb[m - 1] != '\n') m = put(hb, m, "\n"); }
  for (int i = PADN - 2; i >= 0; i -= 2) n = put(rb, n, padline("r", i)); for (int i = 1; i < PADN; i += 2) m = put(hb, m, padline("h", i));
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m);
  rt_capture_stdout(1);
  if (sens) for (int k = 0; k < N; k++) if (rid[k][2] != id[k][2]) err = 1;
  char *idt = IDT;
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", idt, "-o", "sgml", "stdout", sens ? "-s" : 0, 0};
  int code = run_tool(av);
  if (err) { __sym_check(code != 0, "a hypothesis without a unique reference is refused"); __sym_reach("refused"); return; }
  __sym_check(code == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *o = rt_stdout(&len);
  __sym_check(parse_system(&o, &S), "an alignment report is written");
  __sym_check(S.np == N + PADN, "every hypothesis utterance is scored exactly once");
  int last[MAXP]; for (int i = 0; i < MAXP; i++) last[i] = -1;
  for (int a = 0; a < S.nspk; a++) for (int b = 0; b < a; b++) __sym_check(strcmp(S.spk[a], S.spk[b]) != 0, "one group per speaker");
  for (int x = 0; x < S.np; x++) { spath *p = &S.p[x];
    int k = -1;
    if (p->id[1] == 'q') { char e[16]; int i = 0; for (; i < PADN; i++) { padid(e, i); if (!strcmp(e, p->id)) break; } __sym_check(i < PADN && !seen[i], "a scored utterance carries a hypothesis id, once"); seen[i] = 1;
      __sym_check(p->n == 2 && p->t[0].type == 'S' && p->t[0].r.s[1] == 'a' + i / 26 && p->t[0].r.s[2] == 'a' + i % 26 && p->t[0].h.s[1] == 'a' + i / 26 && p->t[0].h.s[2] == 'a' + i % 26, "the hypothesis is aligned with the reference of the same id");
      __sym_check(p->spk[0] == 'q' && p->spk[1] == e[2] && p->spk[2] == e[3] && !p->spk[3], "the utterance is counted for the speaker its id names"); continue; }
    for (int y = 0; y < N; y++) { int same = 1; for (int c = 0; c < 9; c++) { char e = sens ? id[y][c] : lowc(id[y][c]); if (p->id[c] != e) { same = 0; break; } if (!e) break; } if (same) { k = y; break; } }
    __sym_check(k >= 0, "a scored utterance carries a hypothesis id");
    __sym_check(p->n == 2 && p->t[0].type == 'S' && p->t[0].r.n == 2 && p->t[0].r.s[0] == 'r' && p->t[0].r.s[1] == '0' + k, "the hypothesis is aligned with the reference of the same id");
    __sym_check(p->t[0].h.n == 2 && p->t[0].h.s[0] == 'h' && p->t[0].h.s[1] == '0' + k, "the alignment holds this hypothesis");
    __sym_check(p->t[1].type == 'C', "the alignment holds the whole utterance");
    /* speaker */
    char e = sens ? id[k][2] : lowc(id[k][2]);
    __sym_check(p->spk[0] == 'p' && p->spk[1] == e && p->spk[2] == 0, "the utterance is counted for the speaker its id names");
    __sym_check(k > last[p->spkno], "a speaker's utterances keep their order");
    last[p->spkno] = k;
  }
  __sym_reach("end");
}
