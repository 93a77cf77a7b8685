/* sclite: case folding and character encodings, word alignment. */
#include "enc.h"
#include "sgm.h"
static ssys Y;
#ifndef NUT
#define NUT 1
#endif
#ifndef STEM
#define STEM ""
#endif
static int stem(wrd *w) { w->n = 0; return w->n = put(w->s, 0, STEM); }
static void side(const char *pre, int u, int n, wrd *raw, wrd *fl, char *buf, int *len) {
#ifdef STM
  if (pre[0] == 'r') { *len = put(buf, *len, "f 1 spk1 0.00 5.00 "); buf[*len - 10] += 5 * u; if (u) buf[*len - 5] = '9'; }
#endif
  for (int i = 0; i < n; i++) { int nc = NC > MINC ? sym_choose(nm2(pre[0] == 'r' ? "rc" : "hc", i + 4 * u, -1), MINC, NC) : NC; stem(&raw[i]); stem(&fl[i]);
    for (int j = 0; j < nc; j++) { chr c, f; mkchr(&c, pre, i + 4 * u, j, KMASK); fold(&c, &f); wchr(&raw[i], &c); wchr(&fl[i], &f); }
#ifdef STM
    if (pre[0] == 'h') { *len = put(buf, *len, "f 1 0.10 0.10 "); buf[*len - 10] += 5 * u; buf[*len - 8] += i; }
#endif
    *len = putwd(buf, *len, &raw[i]);
#ifdef STM
    *len = put(buf, *len, pre[0] == 'h' ? "\n" : " "); }
  if (pre[0] == 'r') *len = put(buf, *len, "\n");
#else
    *len = put(buf, *len, " "); }
  *len = put(buf, *len, "(spk1_1)\n"); buf[*len - 3] += u;
#endif
}
void harness(void) {
  static wrd r[NUT][MAXW], h[NUT][MAXW], rf[NUT][MAXW], hf[NUT][MAXW]; static char rb[1024], hb[1024]; int n = 0, m = 0, code, nr[NUT], nh[NUT];
  for (int u = 0; u < NUT; u++) { nr[u] = sym_choose(nm2("nr", u, -1), MINR, NR), nh[u] = sym_choose(nm2("nh", u, -1), MINH, NH);
    side("r", u, nr[u], r[u], rf[u], rb, &n); side("h", u, nh[u], h[u], hf[u], hb, &m); }
#ifdef STM
  vfs_put("ref.stm", rb, n); vfs_put("hyp.ctm", hb, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "ref.stm", "stm", "-h", "hyp.ctm", "ctm",
#else
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm",
#endif
#ifdef ENC
    "-e", ENC,
#if LP
    (char *)LPNAME,
#endif
#endif
#ifdef SENS
    "-s",
#endif
    "-o", "sgml", "stdout", 0};
  code = run_tool(av); __sym_check(code == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *p = rt_stdout(&len); __sym_check(parse_system(&p, &Y) && Y.np == NUT, "every utterance is aligned");
  for (int u = 0; u < NUT; u++) {
#ifdef SENS
    wrd *R = r[u], *H = h[u];
#else
    wrd *R = rf[u], *H = hf[u];
#endif
    int cost = check_align(&Y.p[u], R, nr[u], H, nh[u], 4, 3, 3);
    __sym_check(cost == edit_cost(R, nr[u], H, nh[u], 4, 3, 3), "the alignment has minimum weighted cost");
    for (int x = 0; x < Y.p[u].n; x++) __sym_reach(Y.p[u].t[x].type == 'C' ? "match" : "differ"); }
  __sym_reach("end");
}
