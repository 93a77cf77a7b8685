/* sclite -c: alignment of characters instead of words. */
#ifndef MAXW
#define MAXW 10
#endif
#include "enc.h"
#include "sgm.h"
static ssys Y;
#define NOASC (FLAGS & 1)
#define DELH (FLAGS & 2)
/* the units aligned: characters; with NOASCII runs of ASCII characters of a word stay together, with DH hyphens are dropped */
#ifndef NUT
#define NUT 1
#endif
#ifndef PADC
#define PADC 0
#endif
#ifndef TIMED
#define TIMED 0
#endif
static int side(const char *pre, int u, int n, wrd *o, char *buf, int *len) { int k = 0, ref = pre[0] == 'r';
  if (TIMED && ref) { *len = put(buf, *len, "f 1 spk1 0.00 5.00 "); buf[*len - 10] += 5 * u; if (u) buf[*len - 5] = '9'; }
  for (int i = 0; i < n; i++) { int nc = sym_choose(nm2(ref ? "rc" : "hc", i + 4 * u, -1), 1, NC), run = 0;
    if (TIMED && !ref) { *len = put(buf, *len, "f 1 0.10 0.10 "); buf[*len - 10] += 5 * u; buf[*len - 8] += i; }
    for (int j = -PADC; j < nc; j++) { chr c, f; if (j >= 0) mkchr(&c, pre, i + 4 * u, j, KMASK); else { c.kind = K_ASCII; c.n = 1; c.b[0] = (unsigned char)('a' - j % 7); } fold(&c, &f); *len = putchr(buf, *len, &c);
      int asc = c.kind == K_ASCII || c.kind == K_HYPHEN;
      if (DELH && c.kind == K_HYPHEN) { __sym_reach("dropped"); continue; }
      if (NOASC && asc && run) { wchr(&o[k - 1], &f); __sym_reach("joined"); } else { o[k].n = 0; wchr(&o[k++], &f); }
      run = asc; }
    *len = put(buf, *len, TIMED && !ref ? "\n" : " "); }
  if (TIMED) { if (ref) *len = put(buf, *len, "\n"); return k; }
  *len = put(buf, *len, "(spk1_1)\n"); buf[*len - 3] += u; return k; }
void harness(void) {
  static wrd r[NUT][MAXW], h[NUT][MAXW]; static char rb[1024], hb[1024]; int n = 0, m = 0, code, nr[NUT], nh[NUT];
  for (int u = 0; u < NUT; u++) { nr[u] = sym_choose(nm2("nr", u, -1), MINR, NR); nh[u] = sym_choose(nm2("nh", u, -1), MINH, NH);
    nr[u] = side("r", u, nr[u], r[u], rb, &n); nh[u] = side("h", u, nh[u], h[u], hb, &m); }
  vfs_put("ref", rb, n); vfs_put("hyp", hb, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "ref", TIMED ? "stm" : "trn", "-h", "hyp", TIMED ? "ctm" : "trn", "-i", "rm",
#ifdef ENC
    "-e", ENC,
#if LP
    (char *)LPNAME,
#endif
#endif
    "-c",
#if FLAGS & 1
    "NOASCII",
#endif
#if FLAGS & 2
    "DH",
#endif
    "-o", "sgml", "stdout", 0};
  code = run_tool(av); __sym_check(code == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *p = rt_stdout(&len); __sym_check(parse_system(&p, &Y) && Y.np == NUT, "every utterance is aligned");
  for (int u = 0; u < NUT; u++) { int cost = check_align(&Y.p[u], r[u], nr[u], h[u], nh[u], 4, 3, 3);
    __sym_check(cost == edit_cost(r[u], nr[u], h[u], nh[u], 4, 3, 3), "the alignment has minimum weighted cost"); }
  __sym_reach("end");
}
