/* Segment-time-marked references: each hypothesis word is scored in the segment its midpoint falls in. */
#ifdef PADH
#define MAXW (12 + PADH)
#endif
#ifndef PADH
#define PADH 3
#endif
#ifndef PADG
#define PADG 0
#endif
#if PADG
#define MAXP (PADG + 12)
#define MAXT (12 + PADH)
#endif
#ifndef T0
#define T0 0
#endif
#include "sgm.h"
#ifndef DMIN
#define DMIN 0
#endif
#ifndef NCH
#define NCH 1
#endif
static ssys S;
static int put2(char *b, int n, int q) { /* q quarters as a decimal */ int z = q / 4; if (z >= 1000) b[n++] = '0' + z / 1000; if (z >= 100) b[n++] = '0' + z / 100 % 10; if (z >= 10) b[n++] = '0' + z / 10 % 10; b[n++] = '0' + z % 10; b[n++] = '.'; int f = q % 4 * 25; b[n++] = '0' + f / 10; b[n++] = '0' + f % 10; b[n] = 0; return n; }
typedef struct { int ch, t1, t2, ign, lab, nr; char spk; wrd r[3]; int nh; wrd *h[8 + PADH]; int hw[8 + PADH]; } seg;
typedef struct { int ch, t1, dur; wrd w; int conf, alt, sh; wrd w2; } hw; /* sh: how much later the second choice begins */
void harness(void) {
  static seg g[8 + PADG]; static hw h[8 + PADH * PADG]; int ng = 0, nh = 0, used[NCH + 1], altw = -1; static char rb[800 + 40 * PADG], hb[800 + 30 * PADH * PADG]; int n = 0, m = 0; rb[0] = hb[0] = 0;
#ifdef LAB
  n = put(rb, n, ";; LABEL \"o\" \"Overall\" \"all\"\n;; LABEL \"f\" \"Set F\" \"some\"\n");
#endif
#ifdef CMT
  int cm = sym_choose("cm", 0, 2);
#else
  int cm = 0;
#endif
  for (int c = 0; c < NCH; c++) {
    int ns = sym_choose(nm2("ns", c, -1), 1, NSEG), t = T0;
#if PADG
    if (c == 0) for (int s = 0; s < PADG; s++, t += PADH + 1) { seg *q = &g[ng++]; q->ch = 0; q->t1 = t; q->t2 = t + PADH + 1; q->spk = 'c' + s % 23; q->nr = 2;
      for (int i = 0; i < PADH; i++) { hw *w = &h[nh]; w->ch = 0; w->t1 = t + i; w->dur = 1; w->conf = 0; w->w.s[0] = 'p' + i % 3; w->w.s[1] = 'a' + s % 26; w->w.s[2] = 'a' + s / 26; w->w.s[3] = 0; w->w.n = 3; if (i < 2) q->r[i] = w->w; if (s % 7 == i) w->w.s[2] = 'z'; q->h[q->nh] = &w->w; q->hw[q->nh++] = nh++; } 
      n = put(rb, n, "f1 A S"); rb[n++] = q->spk; rb[n++] = ' '; n = put2(rb, n, q->t1); rb[n++] = ' '; n = put2(rb, n, q->t2); rb[n++] = ' '; for (int i = 0; i < 2; i++) { n = putwd(rb, n, &q->r[i]); rb[n++] = ' '; } n = put(rb, n, "\n");
      for (int i = nh - PADH; i < nh; i++) { m = put(hb, m, "f1 A "); m = put2(hb, m, h[i].t1); hb[m++] = ' '; m = put2(hb, m, 1); hb[m++] = ' '; m = putwd(hb, m, &h[i].w); if (CONF) m = put(hb, m, " 0.5"); m = put(hb, m, "\n"); } }
#endif
    int tb = t;
    for (int s = 0; s < ns; s++) { seg *q = &g[ng]; q->ch = c; q->t1 = t;
#ifdef GAP
      q->t1 += sym_choose(nm2("gap", c, s), 0, GAP);
#endif
      q->t2 = q->t1 + SEGQ; t = q->t2;
#ifdef IGN
      q->ign = sym_choose(nm2("ign", c, s), 0, 1);
#else
      q->ign = 0;
#endif
#ifdef LAB
      q->lab = sym_choose(nm2("lab", c, s), 0, 2);
#else
      q->lab = 0;
#endif
      q->spk = (char)sym_range(nm2("sp", c, s), 'a', 'b'); q->nr = q->ign ? 0 : sym_choose(nm2("nr", c, s), MINR, NR);
      if (cm == 1) n = put(rb, n, ";; comment\n"); if (cm == 2) n = put(rb, n, "\n");
      n = put(rb, n, c < 2 ? "f1 " : "f2 "); rb[n++] = c == 1 ? 'B' : 'A'; n = put(rb, n, " S"); rb[n++] = q->spk; rb[n++] = ' ';
      n = put2(rb, n, q->t1); rb[n++] = ' '; n = put2(rb, n, q->t2); rb[n++] = ' ';
      if (q->lab) n = put(rb, n, q->lab == 1 ? "<o> " : "<o,f> ");
      if (q->ign) n = put(rb, n, "IGNORE_TIME_SEGMENT_IN_SCORING");
      for (int i = 0; i < q->nr; i++) { mkword(&q->r[i], "r", (ng - PADG) * 3 + i, 1, 'a', LAST); n = putwd(rb, n, &q->r[i]); rb[n++] = ' '; }
      n = put(rb, n, "\n"); q->nh = 0; ng++; }
    int mh = sym_choose(nm2("mh", c, -1), 0, NH), lt = 0, lm = -1; used[c] = mh;
    for (int i = 0; i < mh; i++) { hw *w = &h[nh]; w->ch = c;
      w->t1 = tb + sym_choose(nm2("t", c, i), 0, TMAX); __sym_assume(w->t1 >= lt); lt = w->t1;
      w->dur = sym_choose(nm2("d", c, i), DMIN, DMAX); __sym_assume(2 * w->t1 + w->dur >= lm); lm = 2 * w->t1 + w->dur;
      mkword(&w->w, "h", nh - PADH * PADG, 1, 'a', LAST); w->conf = sym_choose(nm2("cf", c, i), 0, CONF);
      if (cm == 1) m = put(hb, m, ";; comment\n");
      w->alt = w->sh = 0;
#ifdef ALT
      if (altw < 0) { w->alt = sym_choose(nm2("alt", c, i), 0, 3); if (w->alt) altw = nh; if (w->alt == 3) { w->sh = 2; if (2 * w->sh + 2 * w->t1 + w->dur > lm) lm = 2 * (w->t1 + w->sh) + w->dur; lt = w->t1 + w->sh; } if (w->alt == 1 || w->alt == 3) { w->w2.n = 1; w->w2.s[0] = (char)sym_range(nm2("alw", c, i), 'a', LAST); w->w2.s[1] = 0; if (w->sh) __sym_assume(w->w2.s[0] != w->w.s[0]); } }
      if (w->alt) m = put(hb, m, "f1 A * * <ALT_BEGIN>\n");
#endif
      m = put(hb, m, c < 2 ? "f1 " : "f2 "); hb[m++] = c == 1 ? 'B' : 'A'; hb[m++] = ' '; m = put2(hb, m, w->t1); hb[m++] = ' '; m = put2(hb, m, w->dur); hb[m++] = ' '; m = putwd(hb, m, &w->w);
      if (CONF) { m = put(hb, m, " 0."); hb[m++] = '5' + w->conf; }
      m = put(hb, m, "\n");
#ifdef ALT
      if (w->alt) { m = put(hb, m, "f1 A * * <ALT>\nf1 A "); m = put2(hb, m, w->t1 + w->sh); hb[m++] = ' '; m = put2(hb, m, w->dur); hb[m++] = ' '; if (w->alt == 2) m = put(hb, m, "@"); else m = putwd(hb, m, &w->w2); if (CONF) { m = put(hb, m, " 0."); hb[m++] = '5' + w->conf; } m = put(hb, m, "\nf1 A * * <ALT_END>\n"); }
#endif
      /* first segment of the channel that ends after the word's midpoint, else its last one */
      seg *q = 0; for (int s = 0; s < ng; s++) if (g[s].ch == c) { q = &g[s]; if (2 * (w->t1 + w->sh) + w->dur < 2 * q->t2) break; } /* (an alternation goes by its latest word) */
      q->h[q->nh] = &w->w; q->hw[q->nh++] = nh; nh++; } }
#ifdef RED
  int red = sym_choose("red", 0, 3); static char rarg[2][4] = {"ref", "hyp"};
  for (int c = 0; c < NCH; c++) { int a = -1, b = 0, lo = 1 << 20, hi = 0; for (int i = 0; i < nh; i++) if (h[i].ch == c) { if (a < 0) a = h[i].t1; b = h[i].t1 + h[i].sh + h[i].dur; }
    if (a >= 0 && (red & 1)) for (int s = 0; s < ng; s++) if (g[s].ch == c && (g[s].t2 <= a || g[s].t1 >= b)) { g[s].ign = 2; __sym_reach("segment left out"); }
    for (int s = 0; s < ng; s++) if (g[s].ch == c && g[s].ign != 2) { if (g[s].t1 < lo) lo = g[s].t1; if (g[s].t2 > hi) hi = g[s].t2; }
    if (red & 2) for (int s = 0; s < ng; s++) if (g[s].ch == c) { seg *q = &g[s]; int k = 0; for (int i = 0; i < q->nh; i++) { hw *w = &h[q->hw[i]]; int e = w->t1 + w->sh + w->dur;
        if (w->t1 == hi || e == lo) { __sym_assume(0); return; } /* touching the span: not determined */
        if (w->t1 > hi || e < lo) { __sym_reach("word left out"); continue; } q->h[k] = q->h[i]; q->hw[k++] = q->hw[i]; } q->nh = k; } }
#endif
#ifdef EXTRA
  int ex = sym_choose("ex", 0, 3); if (ex == 1) m = put(hb, m, "f9 A 0.10 0.20 z\n"); if (ex == 2) m = put(hb, m, "f1 C 0.10 0.20 z\n"); 
#else
  int ex = 0;
#endif
  vfs_put("r.stm", rb, n); vfs_put("h.ctm", hb, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-o", "sgml", "stdout",
#ifdef RED
    red ? "-m" : 0, red == 2 ? rarg[1] : rarg[0], red == 3 ? rarg[1] : 0,
#endif
    0};
  int code = run_tool(av);
  if (ex == 1 || ex == 2) { __sym_check(code != 0, "hypothesis data for a file or channel without reference is refused"); __sym_reach("refused"); return; }
  if (!nh) { return; }
  __sym_check(code == 0, "scoring well-formed inputs succeeds");
  size_t len; const char *o = rt_stdout(&len);
  __sym_check(parse_system(&o, &S), "an alignment report is written");
  int scored = 0; for (int s = 0; s < ng; s++) if (!g[s].ign) scored++;
  __sym_check(S.np == scored, "every reference segment is scored exactly once");
  for (int a = 0; a < S.nspk; a++) for (int b = 0; b < a; b++) __sym_check(strcmp(S.spk[a], S.spk[b]) != 0, "one group per speaker");
  int seq = 0;
  for (int s = 0; s < ng; s++) { seg *q = &g[s]; if (q->ign) { __sym_reach("ignored"); continue; }
    spath *p = 0; for (int x = 0; x < S.np; x++) if (S.p[x].seq == seq) { __sym_check(!p, "sequence numbers are unique"); p = &S.p[x]; }
    __sym_check(p != 0, "segments keep their order"); seq++;
    __sym_check(p->spk[0] == 's' && p->spk[1] == q->spk && !p->spk[2], "the segment is counted for its speaker");
    __sym_check(!strcmp(p->file, q->ch < 2 ? "f1" : "f2") && !strcmp(p->chan, q->ch == 1 ? "b" : "a"), "the alignment names its file and channel");
    __sym_check(!strcmp(p->labels, q->lab == 0 ? "" : q->lab == 1 ? "<o>" : "<o,f>"), "the alignment carries the segment's labels");
    char b[24]; __sym_check(strat(p->attrs, "R_T1", b, 24) > 0 && near_(atof(b), q->t1 / 4.0, 0.0006), "segment begin time"); __sym_check(strat(p->attrs, "R_T2", b, 24) > 0 && near_(atof(b), q->t2 / 4.0, 0.0006), "segment end time");
    wrd hv[8 + PADH]; for (int i = 0; i < q->nh; i++) hv[i] = *q->h[i];
    int omit = -1, sec = -1, best = edit_cost(q->r, q->nr, hv, q->nh, 4, 3, 3);
#ifdef ALT /* the hypothesis side is the better one of the two choices */
    wrd h2[8]; int n2 = 0, ai = -1; for (int i = 0; i < q->nh; i++) { if (q->hw[i] == altw) { ai = i; if (h[altw].alt == 2) continue; h2[n2++] = h[altw].w2; } else h2[n2++] = hv[i]; }
    if (ai >= 0) { int c2 = edit_cost(q->r, q->nr, h2, n2, 4, 3, 3); if (c2 < best) { best = c2; __sym_reach("second choice"); }
      int cnt_ = 0, same = 1; for (int t = 0; t < p->n; t++) if (p->t[t].h.n) { if (cnt_ < q->nh && !weq(&p->t[t].h, &hv[cnt_])) same = 0; cnt_++; }
      if (cnt_ != q->nh || !same) { if (n2 < q->nh) omit = ai; else sec = ai; for (int i = 0; i < n2; i++) hv[i] = h2[i]; q->nh = n2; } }
#endif
    int cost = check_align(p, q->r, q->nr, hv, q->nh, 4, 3, 3);
    __sym_check(cost == best, "the segment's alignment has minimum cost");
    int j = 0; for (int t = 0; t < p->n; t++) { stok *k = &p->t[t]; if (k->type == 'D') continue; if (j == omit) j++; int tw = j == sec ? h[q->hw[j]].t1 + h[q->hw[j]].sh : h[q->hw[j]].t1; hw *w = &h[q->hw[j++]];
      const char *a = k->aux; __sym_check(*a == ',', "word times are reported"); char *e; double x = strtod(a + 1, &e); __sym_check(*e == '+' && near_(x, tw / 4.0, 0.0006), "the word's begin time is reported"); x = strtod(e + 1, &e); __sym_check(near_(x, (tw + w->dur) / 4.0, 0.0006), "the word's end time is reported");
      if (CONF) { __sym_check(*e == ',', "confidences are reported"); x = strtod(e + 1, &e); __sym_check(near_(x, (5 + w->conf) / 10.0, 0.000001), "the word's confidence is reported"); } }
    if (q->nh) __sym_reach("words"); if (q->nh && 2 * h[q->hw[0]].t1 + h[q->hw[0]].dur >= 2 * q->t2) __sym_reach("tail"); }
  __sym_reach("end");
}
