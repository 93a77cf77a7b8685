/* Transcript lines of any length around the sizes of the line buffers are read whole. */
#define MAXT 440
#define MAXP 4
#include "sgm.h"
static ssys S; static wrd w[MAXT]; static char rb[6000], hb[6000];
void harness(void) {
  int base = sym_choose("base", 0, NB - 1), d = sym_choose("d", 0, 4), hd = sym_choose("hd", 0, 1), nl = sym_choose("nl", 0, 1), second = sym_choose("second", 0, 1), spc = sym_choose("spc", 0, 1);
  int want = (base == 0 ? 1000 : base == 1 ? 2000 : 500) - 3 + d, n = 0, k = 0, m = 0; /* characters before the newline */
  while (n + 5 + 12 <= want - 8) { w[k].s[0] = 'w'; w[k].s[1] = '0' + k / 100; w[k].s[2] = '0' + k / 10 % 10; w[k].s[3] = '0' + k % 10; w[k].n = 4; w[k].s[4] = 0; n = putwd(rb, n, &w[k]); n = put(rb, n, " "); k++; }
  int rest = want - n - 8; /* " (s_1)" and the free word */
  w[k].n = 0; for (int i = 0; i < rest; i++) w[k].s[w[k].n++] = 'x'; w[k].s[0] = (char)sym_range("c", 'a', 'c'); w[k].s[w[k].n] = 0;
  n = putwd(rb, n, &w[k]); n = put(rb, n, spc ? "\t " : "  "); n = put(rb, n, "(s_1)"); k++;
  __sym_check(n == want - 1, "harness length");
  memcpy(hb, rb, n); m = n; if (hd) hb[0] = 'v';
  if (nl || second) { n = put(rb, n, "\n"); m = put(hb, m, "\n"); }
  if (second) { n = put(rb, n, "aa bb (s_2)\n"); m = put(hb, m, "aa cc (s_2)\n"); }
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm", "-o", "sgml", "stdout", 0};
  __sym_check(run_tool(av) == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *o = rt_stdout(&len);
  __sym_check(parse_system(&o, &S) && S.np == 1 + second && S.nspk == 1, "every utterance is scored once");
  __sym_check(S.p[0].n == k, "every word of a line is scored");
  for (int i = 0; i < k; i++) { stok *t = &S.p[0].t[i]; __sym_check(weq(&t->r, &w[i]), "reference words are in order and unchanged");
    __sym_check(t->type == (i == 0 && hd ? 'S' : 'C'), "the words are aligned in order"); }
  if (second) __sym_check(S.p[1].n == 2 && S.p[1].t[0].type == 'C' && S.p[1].t[1].type == 'S', "the utterance after a long line is scored");
  __sym_reach("end");
}
