/* sclite end to end: transcripts in, alignment record out. */
#ifndef NU
#define NU 1
#endif
#ifndef STEM
#define STEM ""
#endif
#ifndef TAIL
#define TAIL ""
#endif
#ifndef FIRST
#define FIRST 'a'
#endif
#ifdef PADS
#define MAXW 160
#endif
#ifdef LONG
#define MAXL LONG
#endif
#include "sc.h"
#ifdef PADS /* {reference words, hypothesis words} put before the free words of each utterance */
static const int pads[NU][2] = {PADS};
#else
static const int pads[NU][2] = {{0, 0}};
#endif
static int legal(char c) { return c != '{' && c != '}' && c != '/' && c != '@' && c != '(' && c != ')' && c != ';' && c != '"' && c != '\\' && c != '*'; }
static int word(wrd *w, const char *pre, int u, int i) {
  char nm[16]; nm[0] = pre[0]; nm[1] = 'a' + u; nm[2] = 0;
  int l = LEN > 1 ? sym_choose(nm2(nm, i, 9), 1, LEN) : 1, n = 0;
  for (const char *s = STEM; *s; s++) w->s[n++] = *s;
  for (int k = 0; k < l; k++) { char c = (char)sym_range(nm2(nm, i, k), FIRST, LAST);
#ifdef CHARS
    __sym_assume(legal(c));
#endif
    w->s[n++] = c; }
  for (const char *s = TAIL; *s; s++) w->s[n++] = *s;
  w->s[n] = 0; w->n = n; return n; }
static void padword(wrd *w, int i) { w->s[0] = 'p'; w->s[1] = 'a' + i / 26; w->s[2] = 'a' + i % 26; w->s[3] = 0; w->n = 3; }
static wrd r[NU][MAXW], h[NU][MAXW]; static atok t[2 * MAXW]; static int nr[NU], nh[NU];
static char rb[NU * MAXW * (MAXL + 1)], hb[NU * MAXW * (MAXL + 1)];
void harness(void) {
  int n = 0, m = 0;
  for (int u = 0; u < NU; u++) {
    for (; nr[u] < pads[u][0]; nr[u]++) padword(&r[u][nr[u]], nr[u]);
    for (; nh[u] < pads[u][1]; nh[u]++) padword(&h[u][nh[u]], nh[u]);
    int a = sym_choose(nm2("nr", u, -1), MINR, NR), b = sym_choose(nm2("nh", u, -1), MINH, NH);
    for (int i = 0; i < a; i++) word(&r[u][nr[u]++], "r", u, i);
    for (int i = 0; i < b; i++) word(&h[u][nh[u]++], "h", u, i);
    for (int i = 0; i < nr[u]; i++) { n = putwd(rb, n, &r[u][i]); n = put(rb, n, " "); }
    n = put(rb, n, "(spk1_"); rb[n++] = '1' + u; n = put(rb, n, ")\n");
    for (int i = 0; i < nh[u]; i++) { m = putwd(hb, m, &h[u][i]); m = put(hb, m, " "); }
    m = put(hb, m, "(spk1_"); hb[m++] = '1' + u; m = put(hb, m, ")\n");
  }
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m);
  rt_capture_stdout(1);
#ifdef ASC
  char *av[] = {"asclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "spu_id", "-f", "0", "-o", "sgml", "stdout", 
#else
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm", "-o", "sgml", "stdout",
#endif
#ifdef SENS
  "-s",
#endif
  0};
  int code = run_tool(av);
  __sym_check(code == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *o = rt_stdout(&len), *p = o;
  for (int u = 0; u < NU; u++) {
    p = strstr(p, "<PATH ");
    __sym_check(p != 0, "every scored utterance has an alignment");
    char id[] = "(spk1_1)\""; id[6] = '1' + u; const char *q = strstr(p, "id=\"");
    __sym_check(q && !strncmp(q + 4, id, strlen(id)), "alignments come in the order of the hypotheses");
    int wc = attr_int(p, "word_cnt");
    while (*p && *p != '\n') p++; if (*p) p++;
    int k = parse_path(&p, t, nr[u] + nh[u]);
    __sym_check(k == wc, "declared word count equals the alignment length");
    int i = 0, j = 0, cost = 0;
    for (int x = 0; x < k; x++) {
      char ty = t[x].type;
      if (ty == 'C' || ty == 'S' || ty == 'D') { __sym_check(i < nr[u] && weq(&t[x].r, &r[u][i]), "reference words appear in order and unchanged"); i++; }
      else __sym_check(t[x].r.n == 0, "an insertion has no reference word");
      if (ty == 'C' || ty == 'S' || ty == 'I') { __sym_check(j < nh[u] && weq(&t[x].h, &h[u][j]), "hypothesis words appear in order and unchanged"); j++; }
      else __sym_check(t[x].h.n == 0, "a deletion has no hypothesis word");
      if (ty == 'C') __sym_check(weq(&t[x].r, &t[x].h), "a correct word matches");
      else if (ty == 'S') { __sym_check(!weq(&t[x].r, &t[x].h), "a substitution pairs different words"); cost += 4; __sym_reach("sub"); }
      else if (ty == 'I') { cost += 3; __sym_reach("ins"); }
      else if (ty == 'D') { cost += 3; __sym_reach("del"); }
      else __sym_check(0, "known evaluation label");
    }
    __sym_check(i == nr[u] && j == nh[u], "every reference and hypothesis word is aligned exactly once");
    __sym_check(cost == edit_cost(r[u], nr[u], h[u], nh[u], 4, 3, 3), "the alignment has minimum weighted cost");
  }
  __sym_check(strstr(p, "<PATH ") == 0, "one alignment per utterance");
  __sym_reach("end");
}
