/* asclite summaries (-o rsum, -o sum) against the alignments of the same run (-o sgml). */
#include "sc.h"
#include <math.h>
#ifdef SPK
#define NC 7 /* with speaker attribution there is one more column: the right word of a wrong speaker */
#else
#define NC 6
#endif
enum { COR, SUB, SPS, DEL = NC - 4, INS, ERR, SER };
typedef struct { int snt, wrd, v[NC]; int seen; } tal; /* v: correct, substituted, (speaker substituted,) deleted, inserted, errors, segments with errors */
#ifndef NSYS
#define NSYS 1
#endif
#ifndef PADK
#define PADK 0
#endif
#ifndef PADW
#define PADW 0
#endif
#ifndef PADI
#define PADI 0
#endif
#ifndef STEM
#define STEM "s"
#endif
#define ALL (PADK + NS)
/* the speakers: PADK fixed ones, then those with any words */
static tal TT[NSYS][ALL], *T;
static int name(char *b, int s) { int n = 0; b[0] = 0; if (s < PADK) { n = put(b, n, "p00"); b[1] += s / 10; b[2] += s % 10; return n; } n = put(b, n, STEM); b[n++] = (char)('1' + s - PADK); b[n] = 0; return n; }
static const char *skip(const char *p) { while (*p == ' ') p++; return p; }
/* a number, possibly negative or with one decimal, in tenths; mark receives the flag printed after it */
static const char *num(const char *p, long *v, char *mark) { p = skip(p); int neg = 0; if (*p == '-') { neg = 1; p++; } __sym_check(*p >= '0' && *p <= '9', "a number is printed"); long x = 0; while (*p >= '0' && *p <= '9') x = x * 10 + (*p++ - '0'); x *= 10; if (*p == '.') { x += p[1] - '0'; p += 2; } *v = neg ? -x : x; *mark = ' '; if (*p == '*' || *p == '+') *mark = *p++; __sym_check(*p == ' ', "numbers are separated"); return p; }
static int near1(long tenths, double x) { double d = tenths - x * 10.0; return d < 0.5000001 && d > -0.5000001; }
static double stat(double *x, int n, int what) { if (!n) return 0; double s = 0, q = 0; for (int i = 0; i < n; i++) s += x[i];
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (x[j] < x[i]) { double t = x[i]; x[i] = x[j]; x[j] = t; }
  if (what == 0) return s / n; if (what == 2) return n % 2 ? x[n / 2] : (x[n / 2] + x[n / 2 - 1]) / 2;
  for (int i = 0; i < n; i++) q += (x[i] - s / n) * (x[i] - s / n); return n > 1 ? sqrt(q / (n - 1)) : 0; }
static const char *row(const char *p, const char *name, long *v, char *m) { /* the cells of a row */
  __sym_check(p[0] == '|', "a row of the table"); p = skip(p + 1); __sym_check(!strncmp(p, name, strlen(name)), "the rows are the speakers in order and the totals"); p = skip(p + strlen(name)); __sym_check(*p == '|', "a row starts with its name"); p++;
  p = num(p, &v[0], &m[0]); p = num(p, &v[1], &m[1]); p = skip(p); __sym_check(*p == '|', "two columns of sizes"); p++;
  for (int i = 2; i < 2 + NC; i++) p = num(p, &v[i], &m[i]); p = skip(p); __sym_check(*p == '|', "six columns of counts, or seven");
  while (*p && *p != '\n') p++; return *p ? p + 1 : p; }
static const char *rule(const char *p, char c) { __sym_check(p[0] == '|' && p[1] == c && p[2] == c, "rows are separated by rules"); while (*p && *p != '\n') p++; return *p ? p + 1 : p; }
static const char *table(const char *p, int raw) {
  char nm[40]; long v[2 + NC]; char m[2 + NC]; int none = 0;
  p = strstr(p, "| Speaker "); __sym_check(p != 0, "the summary is reported"); while (*p != '\n') p++; p++;
  tal A; memset(&A, 0, sizeof A); for (int s = 0; s < ALL; s++) if (T[s].snt && !T[s].wrd) none = 1;
  for (int s = 0; s < ALL; s++) { tal *t = &T[s]; if (!t->snt) continue; p = rule(p, '-'); name(nm, s); p = row(p, nm, v, m);
    __sym_check(v[0] == 10 * t->snt && v[1] == 10 * t->wrd, "a speaker's segments and reference words are counted"); A.snt += t->snt; A.wrd += t->wrd;
    for (int i = 0; i < NC; i++) { A.v[i] += t->v[i];
      if (raw) { __sym_check(v[2 + i] == 10 * t->v[i] && m[2 + i] == ' ', "a speaker's raw counts are those of the alignments"); }
      else if (i == SER) __sym_check(near1(v[1 + NC], 100.0 * t->v[SER] / t->snt), "percentage of segments with errors");
      else if (t->wrd) __sym_check(near1(v[2 + i], 100.0 * t->v[i] / t->wrd) && m[2 + i] == ' ', "a speaker's percentages are of its reference words");
      else { __sym_check(v[2 + i] == 10 * t->v[i] && m[2 + i] == '*', "a speaker without reference words has flagged counts"); __sym_reach("flagged"); } } }
  p = rule(p, '='); p = row(p, raw ? "Sum" : "Sum/Avg", v, m);
  __sym_check(v[0] == 10 * A.snt && v[1] == 10 * A.wrd, "the total's segments and reference words are the sums");
  for (int i = 0; i < NC; i++) if (raw) __sym_check(v[2 + i] == 10 * A.v[i], "the total counts are the sums");
    else if (i == SER) __sym_check(near1(v[1 + NC], 100.0 * A.v[SER] / A.snt), "the total percentage of segments with errors");
    else if (A.wrd) __sym_check(near1(v[2 + i], 100.0 * A.v[i] / A.wrd), "the total percentages are of all reference words");
  p = rule(p, '=');
  for (int w = 0; w < 3; w++) { static const char *nm[] = {"Mean", "S.D.", "Median"}; p = row(p, nm[w], v, m);
    for (int c = 0; c < 2 + NC; c++) { double x[ALL]; int n = 0;
      for (int s = 0; s < ALL; s++) { tal *t = &T[s]; if (!t->snt) continue; if (c >= 2 && c < 1 + NC && !t->wrd) continue; x[n++] = c == 0 ? t->snt : c == 1 ? t->wrd : raw ? t->v[c - 2] : c == 1 + NC ? 100.0 * t->v[SER] / t->snt : 100.0 * t->v[c - 2] / t->wrd; }
      __sym_check(near1(v[c], stat(x, n, w)), "mean, deviation and median are over the speakers");
      __sym_check((m[c] == '+') == (none && c >= 2 && c < 1 + NC), "rows that leave speakers out are flagged"); } }
  return p;
}
static int pads(char *b, int n, const char *w, int k) { for (int i = 0; i < k; i++) { n = put(b, n, w); n = put(b, n, " "); } return n; }
#ifndef SPK
void harness(void) {
  wrd w; static char rb[2048 + 40 * PADK + 4 * (PADW + PADI)], hb[NSYS][2048 + 40 * PADK + 4 * (PADW + PADI)]; int n = 0, m[NSYS] = {0};
  for (int s = 0; s < ALL; s++) for (int u = 0; u < NU; u++) { char id[60]; int q = s - PADK, k = 0; id[k++] = '('; k += name(id + 1, s); k = put(id, k, "_1)\n"); id[k - 3] += u;
    if (q < 0) { if (u) continue; n = pads(rb, n, "x", 1 + s % 4); for (int y = 0; y < NSYS; y++) { m[y] = pads(hb[y], m[y], s % 3 ? "x" : "y", (s + y) % 5); m[y] = put(hb[y], m[y], id); } n = put(rb, n, id); continue; }
    int nr = sym_choose(nm2("nr", q, u), 0, NR); n = pads(rb, n, "w", PADW);
    for (int i = 0; i < nr; i++) { mkword(&w, nm2("r", q, u), i, 1, 'a', LAST); n = putwd(rb, n, &w); n = put(rb, n, " "); }
    n = put(rb, n, id);
    for (int y = 0; y < NSYS; y++) { int nh = sym_choose(nm2(y ? "mh" : "nh", q, u), 0, NH); m[y] = pads(hb[y], m[y], "w", PADW);
      for (int i = 0; i < nh; i++) { mkword(&w, nm2(y ? "g" : "h", q, u), i, 1, 'a', LAST); m[y] = putwd(hb[y], m[y], &w); m[y] = put(hb[y], m[y], " "); }
      if (!q && !u) m[y] = pads(hb[y], m[y], "z", PADI);
      m[y] = put(hb[y], m[y], id); } }
  vfs_put("ref.trn", rb, n); for (int y = 0; y < NSYS; y++) vfs_put(y ? "hyq.trn" : "hyp.trn", hb[y], m[y]); rt_capture_stdout(1);
  char *av[] = {"asclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "sysA",
#if NSYS > 1
    "-h", "hyq.trn", "trn", "sysB",
#endif
    "-i", "spu_id", "-f", "0", "-o", "sgml", "rsum", "sum", "stdout", 0};
  __sym_check(run_tool(av) == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *p = rt_stdout(&len);
  for (int y = 0; y < NSYS; y++) { int s = -1; T = TT[y];
    while (*p && strncmp(p, "</SYSTEM>", 9)) {
      if (!strncmp(p, "<SPEAKER id=\"", 13)) { s = -1; for (int k = 0; k < ALL; k++) { char nm[40]; int l = name(nm, k); if (!strncmp(p + 13, nm, l) && p[13 + l] == '"') s = k; } __sym_check(s >= 0, "speakers of the input"); }
      if (!strncmp(p, "<PATH ", 6)) { while (*p != '\n') p++; p++; static atok t[2 * MAXW + 2 * PADW + PADI + 16]; int k = parse_path(&p, t, NR + NH + 16 + 2 * PADW + PADI), bad = 0; T[s].snt++;
        for (int i = 0; i < k; i++) { char c = t[i].type; int e = c == 'C' ? COR : c == 'S' ? SUB : c == 'D' ? DEL : INS; T[s].v[e]++; if (e) { T[s].v[ERR]++; bad = 1; } if (e != INS) T[s].wrd++; }
        T[s].v[SER] += bad; continue; }
      while (*p && *p != '\n') p++; if (*p) p++; }
    if (*p) p++;
    for (s = 0; s < ALL; s++) __sym_check(T[s].snt == (s < PADK ? 1 : NU), "every utterance is aligned"); }
  for (int y = 0; y < NSYS; y++) { T = TT[y]; if (NSYS > 1) { p = strstr(p, y ? " sysB " : " sysA "); __sym_check(p != 0, "every system has its table"); } p = table(p, 1); }
  for (int y = 0; y < NSYS; y++) { T = TT[y]; if (NSYS > 1) { p = strstr(p, y ? " sysB " : " sysA "); __sym_check(p != 0, "every system has its table"); } p = table(p, 0); }
  __sym_reach("end");
}
#else
/* stm reference of two speakers, rttm hypothesis, a speaker mapping: -spkr-align */
void harness(void) {
  static char rb[1024], hb[1024]; wrd w; int n = 0, m = 0, k = 0, map[2]; T = TT[0];
  for (int u = 0; u < NU; u++) for (int s = 0; s < NS; s++) { int nr = sym_choose(nm2("nr", s, u), 0, NR); n = put(rb, n, "f 1 s1 0.0 1.0"); rb[n - 9] += s; rb[n - 7] += u; rb[n - 3] += u;
    for (int i = 0; i < nr; i++) { n = put(rb, n, " "); mkword(&w, nm2("r", s, u), i, 1, 'a', LAST); n = putwd(rb, n, &w); } n = put(rb, n, "\n"); }
  vfs_put("ref.stm", rb, n);
  for (int u = 0; u < NU; u++) { int nh = sym_choose(nm2("nh", u, -1), u ? 0 : 1, NH);
    for (int i = 0; i < nh; i++) { int p = sym_choose(nm2("hk", u, i), 0, 1); m = put(hb, m, "LEXEME f 1 0.1 0.1 "); hb[m - 8] += u; hb[m - 6] += 2 * i; mkword(&w, nm2("h", u, -1), i, 1, 'a', LAST); m = putwd(hb, m, &w); m = put(hb, m, p ? " lex q <NA>\n" : " lex p <NA>\n"); k++; } }
  vfs_put("hyp.rttm", hb, m);
  n = put(rb, 0, "File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap\n"); map[0] = sym_choose("mp", 0, 1); map[1] = 1 - map[0];
  for (int h = 0; h < 2; h++) for (int r = 0; r < 2; r++) { n = put(rb, n, "f,1,s1,p,"); rb[n - 4] += r; rb[n - 2] += h; n = put(rb, n, map[h] == r ? "mapped,1.5\n" : "notmapped,0.5\n"); }
  vfs_put("map.csv", rb, n); rt_capture_stdout(1);
  char *av[] = {"asclite", "-r", "ref.stm", "stm", "-h", "hyp.rttm", "rttm", "-f", "0", "-spkr-align", "map.csv", "-o", "sgml", "rsum", "sum", "stdout", 0};
  __sym_check(run_tool(av) == 0, "scoring well-formed files succeeds");
  size_t len; const char *p = rt_stdout(&len); int s = -1, seen = 0;
  while (*p && strncmp(p, "</SYSTEM>", 9)) {
    if (!strncmp(p, "<SPEAKER id=\"", 13)) { s = p[13] == 's' ? p[14] - '1' : -1; __sym_check(s >= 0 && s < NS && p[15] == '"', "speakers of the input"); }
    if (!strncmp(p, "<PATH ", 6)) { while (*p != '\n') p++; p++; T[s].snt++; int bad = 0;
      while (*p && *p != '\n') { char c = *p; wrd r, h; p++; __sym_check(*p == ',', "alignment record is well formed"); p = pword(p + 1, &r); __sym_check(*p == ',', "alignment record is well formed"); p = pword(p + 1, &h);
        const char *q = p; while (*p && *p != ':' && *p != '\n') p++; int wrong = p - q > 5 && !strncmp(p - 5, ",true", 5); if (*p == ':') p++;
        if (wrong) __sym_reach("wrong-speaker"); if (h.n) seen++;
        int e = c == 'C' ? COR : c == 'S' ? (wrong ? SPS : SUB) : c == 'D' ? DEL : INS; T[s].v[e]++; if (e) { T[s].v[ERR]++; bad = 1; } if (e != INS) T[s].wrd++; }
      T[s].v[SER] += bad; continue; }
    while (*p && *p != '\n') p++; if (*p) p++; }
  __sym_check(seen == k, "every hypothesis word is aligned");
  p = table(p, 1); p = table(p, 0);
  __sym_reach("end");
}
#endif
