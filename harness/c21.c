/* asclite with speaker-attributed words: rttm hypotheses (and references), overlapping speakers on both sides. */
#include "sc.h"
#ifndef NCH
#define NCH 1
#endif
#ifndef T0
#define T0 0
#endif
#ifndef NTY
#define NTY 1
#endif
#ifdef MAP
#define SAME 1 /* words of different speakers may start together: the report tells them apart */
#else
#define SAME 0
#endif
#ifndef OPTD
#define OPTD 0
#endif
#ifndef CHNS
#define CHNS {"f12", "1"}, {"f12", "2"}
#endif
typedef struct { int st, en, spk, nw, ch, grp, seen, ty[MAXW]; wrd w[MAXW]; } seg;
typedef struct { int st, du, ch, spk, ty, grp, used; wrd w; } hw;
static const char *CHN[][2] = { CHNS }, *RSP[] = {"s1", "s2"}, *HSP[] = {"p", "s2"};
/* the lexeme types: words, words that may be left out, and what is no word; either case */
static const char *TY[] = TYPES; static const int TK[] = TKIND;
static int putch(char *b, int n, int c) { n = put(b, n, CHN[c][0]); n = put(b, n, " "); n = put(b, n, CHN[c][1]); return put(b, n, " "); }
#define UNIT 250
static int putt0(char *b, int n, int t) { char x[24]; int k = 0, q = 1, v = t * UNIT, f = v % 1000; v /= 1000; while (q <= v / 10) q *= 10; for (; q; q /= 10) x[k++] = (char)('0' + v / q % 10); x[k++] = '.'; x[k++] = (char)('0' + f / 100); x[k++] = (char)('0' + f / 10 % 10); x[k] = 0; return put(b, n, x); }
static int putt(char *b, int n, int t) { return putt0(b, n, t + 4 * T0); }
static int gett(const char *p) { int v = 0; for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + *p - '0'; if (*p != '.') return 1000000; v = v * 1000 + (p[1] - '0') * 100 + (p[2] - '0') * 10 + (p[3] - '0'); return v % UNIT || (p[4] >= '0' && p[4] <= '9') ? 1000000 : v / UNIT - 4 * T0; }
static seg S[4]; static hw H[MAXW]; static int ns, nh, map[2][2]; /* map[hyp speaker][channel] = ref speaker, -1 none */
static int pair(const wrd *r, int rs, const hw *h) { if (!weq(r, &h->w)) return 4;
#ifdef MAP
  if (map[h->spk][h->ch] != rs) return 1;
#endif
  return 0; }
/* OPTD: 1 words of the reference, 2 of the hypothesis, 3 of both may be left out */
static int one(int ty, int side) { return (OPTD & side) && TK[ty] == 1 ? 2 : 3; }
static int group_cost(int g) {
  wrd *a[2][MAXW]; int at[2][MAXW], n[2] = {0, 0}, m[2] = {0, 0}; hw *h[2][MAXW];
  for (int i = 0; i < ns; i++) if (S[i].grp == g) for (int k = 0; k < S[i].nw; k++) if (TK[S[i].ty[k]] != 2) { at[S[i].spk][n[S[i].spk]] = S[i].ty[k]; a[S[i].spk][n[S[i].spk]++] = &S[i].w[k]; }
  for (int j = 0; j < nh; j++) if (H[j].grp == g) h[H[j].spk][m[H[j].spk]++] = &H[j];
  static int c[5][5][5][5];
  for (int x = 0; x <= n[0]; x++) for (int y = 0; y <= n[1]; y++) for (int u = 0; u <= m[0]; u++) for (int z = 0; z <= m[1]; z++) {
    int b = 1000000, v;
    if (!x && !y && !z && !u) { c[0][0][0][0] = 0; continue; }
    if (x && (v = c[x - 1][y][u][z] + one(at[0][x - 1], 1)) < b) b = v;
    if (y && (v = c[x][y - 1][u][z] + one(at[1][y - 1], 1)) < b) b = v;
    if (u && (v = c[x][y][u - 1][z] + one(h[0][u - 1]->ty, 2)) < b) b = v;
    if (z && (v = c[x][y][u][z - 1] + one(h[1][z - 1]->ty, 2)) < b) b = v;
    if (x && u && (v = c[x - 1][y][u - 1][z] + pair(a[0][x - 1], 0, h[0][u - 1])) < b) b = v;
    if (x && z && (v = c[x - 1][y][u][z - 1] + pair(a[0][x - 1], 0, h[1][z - 1])) < b) b = v;
    if (y && u && (v = c[x][y - 1][u - 1][z] + pair(a[1][y - 1], 1, h[0][u - 1])) < b) b = v;
    if (y && z && (v = c[x][y - 1][u][z - 1] + pair(a[1][y - 1], 1, h[1][z - 1])) < b) b = v;
    c[x][y][u][z] = b;
  }
  return c[n[0]][n[1]][m[0]][m[1]];
}
static int attr_is(const char *p, const char *name, const char *v) { size_t l = strlen(name), k = strlen(v); int q = 0; for (; *p && (q || *p != '>'); p++) if (*p == '"') q = !q; else if (!q && !strncmp(p, name, l) && p[l] == '=' && p[l + 1] == '"') return !strncmp(p + l + 2, v, k) && p[l + 2 + k] == '"'; return 0; }
/* the number of the named column in word_aux, -1 when there is none */
static int column(const char *p, const char *name) { size_t l = strlen(name); int k = 0; for (; *p && *p != '>' && strncmp(p, "word_aux=\"", 10); p++); if (!*p || *p == '>') return -1; p += 10; for (;;) { if (!strncmp(p, name, l) && (p[l] == ',' || p[l] == '"')) return k; while (*p && *p != ',' && *p != '"') p++; if (*p != ',') return -1; p++; k++; } }
static const char *field(const char *p, int k) { /* p after the hypothesis word */ for (int i = 0; i <= k; i++) { while (*p && *p != ',' && *p != ':' && *p != '\n') p++; __sym_check(*p == ',', "alignment record is well formed"); p++; } return p; }
/* a word printed in brackets is one that may be left out */
static int unopt(wrd *w) { if (w->n > 2 && w->s[0] == '(' && w->s[w->n - 1] == ')') { for (int i = 0; i + 2 < w->n; i++) w->s[i] = w->s[i + 1]; w->n -= 2; w->s[w->n] = 0; return 1; } return 0; }
static int refw(const seg *s, int k) { int i; for (i = 0; i < s->nw; i++) if (TK[s->ty[i]] != 2 && !k--) return i; return -1; }
static void check_system(const char *p) {
  atok t; int cost = 0, spk = -1;
  while (*p && strncmp(p, "</SYSTEM>", 9)) {
    if (!strncmp(p, "<SPEAKER id=\"", 13)) { p += 13; spk = !strncmp(p, "inter_segment_gap\"", 18) ? -2 : (p[0] == 's' && p[1] >= '1' && p[1] <= '2' && p[2] == '"') ? p[1] - '1' : -1; __sym_check(spk != -1, "only the speakers of the reference and the inter segment gaps are reported"); }
    if (strncmp(p, "<PATH ", 6)) { while (*p && *p != '\n') p++; if (*p) p++; continue; }
    const char *q = strstr(p, "R_T1=\""), *f = strstr(p, "R_T2=\""); int ch = -1; for (int c = 0; c < NCH; c++) if (attr_is(p, "file", CHN[c][0]) && attr_is(p, "channel", CHN[c][1])) ch = c;
    __sym_check(q && f && ch >= 0, "an alignment names its file, channel and times");
    int st = gett(q + 6), en = gett(f + 6), wc = attr_int(p, "word_cnt"), si = -1, i = 0, last[2] = {-1, -1};
    int ct = column(p, "h_t1+t2"), cr = column(p, "r_t1+t2"), cs = column(p, "h_spkr"), cf = column(p, "h_isSpkrSub"), cc = column(p, "h_conf");
    for (int k = 0; k < ns && spk >= 0; k++) if (S[k].spk == spk && S[k].st == st && S[k].en == en && S[k].ch == ch) si = k;
    __sym_check(spk == -2 || (si >= 0 && !S[si].seen), "every segment is reported once"); if (si >= 0) S[si].seen = 1;
    while (*p && *p != '\n') p++; if (*p) p++;
    int k = 0;
    while (*p && *p != '\n') {
      t.type = *p++; __sym_check(*p == ',', "alignment record is well formed"); p++; p = pword(p, &t.r); __sym_check(*p == ',', "alignment record is well formed"); p++; p = pword(p, &t.h);
      int j = -1, ro = unopt(&t.r), ho = unopt(&t.h), ty = -1, wrong = 0;
      if (t.h.n) { __sym_check(ct >= 0, "a hypothesis word is reported with its times"); const char *e = field(p, ct); int ht = gett(e); for (int z = 0; z < nh; z++) if (H[z].ch == ch && H[z].st == ht && (cs < 0 || (!strncmp(field(p, cs), HSP[H[z].spk], strlen(HSP[H[z].spk])) && field(p, cs)[strlen(HSP[H[z].spk])] == ','))) j = z;
        while (*e && *e != '+' && *e != ':' && *e != '\n') e++; __sym_check(j >= 0 && *e == '+' && gett(e + 1) == H[j].st + H[j].du, "a hypothesis word is reported with its times");
        __sym_check(weq(&H[j].w, &t.h), "a hypothesis word is reported with its text and time"); ty = H[j].ty; __sym_check(TK[ty] == ho, "exactly the words of the types that may be left out are marked so");
        __sym_check(!H[j].used, "a hypothesis word is aligned once"); H[j].used = 1;
        __sym_check(j > last[H[j].spk], "the words of a hypothesis speaker appear in order of time"); last[H[j].spk] = j;
        __sym_check(spk == -2 ? H[j].grp == -1 : H[j].grp == S[si].grp, "a hypothesis word is aligned with the segments it was spoken in");
#ifdef CONF
        __sym_check(cc >= 0 && !strncmp(field(p, cc), "0.75", 4), "a hypothesis word keeps its confidence");
#endif
#ifdef MAP
        __sym_check(cs >= 0 && cf >= 0, "the speaker of a hypothesis word is reported");
        e = field(p, cs); __sym_check(!strncmp(e, HSP[H[j].spk], strlen(HSP[H[j].spk])) && e[strlen(HSP[H[j].spk])] == ',', "the speaker of a hypothesis word is reported");
        e = field(p, cf); wrong = !strncmp(e, "true", 4); __sym_check(wrong || !strncmp(e, "false", 5), "alignment record is well formed");
#endif
      }
      if (t.r.n) { int x = si >= 0 ? refw(&S[si], i) : -1; __sym_check(x >= 0 && weq(&S[si].w[x], &t.r), "reference words appear in their segment, in order and unchanged"); i++; ty = t.h.n ? ty : S[si].ty[x]; __sym_check(TK[S[si].ty[x]] == ro, "exactly the words of the types that may be left out are marked so");
#ifdef RREF
        __sym_check(cr >= 0 && gett(field(p, cr)) == S[si].st + x, "a reference word is reported with its time");
#endif
      }
      if (t.r.n && t.h.n) { int same = weq(&t.r, &t.h), c = pair(&t.r, spk, &H[j]); cost += c; __sym_check(t.type == (c ? 'S' : 'C'), "a pair is correct exactly when the words are the same and the speaker is the one mapped to the reference speaker"); __sym_check(wrong == (same && c), "exactly the matching words of a wrong speaker are marked so"); if (c == 0) __sym_reach("cor"); if (wrong) __sym_reach("wrong-speaker"); }
      else { __sym_check((t.r.n || t.h.n) && !wrong, "a record has a word"); int o = (OPTD & (t.r.n ? 1 : 2)) && TK[ty] == 1; __sym_check(t.type == (o ? 'C' : t.r.n ? 'D' : 'I'), "a word with no partner is an error unless it may be left out"); cost += one(ty, t.r.n ? 1 : 2); if (o) __sym_reach("left-out"); if (spk == -2) __sym_reach("gap"); }
      while (*p && *p != ':' && *p != '\n') p++; if (*p == ':') p++;
      k++;
    }
    __sym_check(k == wc, "declared word count equals the alignment length");
    __sym_check(si < 0 || refw(&S[si], i) < 0, "every reference word is aligned");
  }
  int want = 0;
  for (int g = 0; g < ns; g++) { int any = 0; for (int i = 0; i < ns; i++) if (S[i].grp == g) any = 1; if (!any) continue; want += group_cost(g);
    for (int i = 0; i < ns; i++) if (S[i].grp == g) __sym_check(S[i].seen || refw(&S[i], 0) < 0, "every segment with words is reported"); }
  for (int j = 0; j < nh; j++) { int cn = 0; if (TK[H[j].ty] == 2) { __sym_check(!H[j].used, "what is no word is not scored"); __sym_reach("no-word"); continue; }
    for (int z = 0; z < nh; z++) if (H[z].ch == H[j].ch && TK[H[z].ty] != 2) cn++;
    if (H[j].grp < 0 && cn % 2 == 0) { if (H[j].used) want += one(H[j].ty, 2); continue; } /* known finding of C22 */
    if (H[j].grp < 0) want += one(H[j].ty, 2);
    __sym_check(H[j].used, "every hypothesis word is scored"); }
  __sym_check(cost == want, "the alignment has minimum total cost");
}
void harness(void) {
  static char rb[1024], hb[1024]; int n = 0, m = 0;
  ns = sym_choose("ns", MINS, NS);
  for (int i = 0; i < ns; i++) { seg *s = &S[i];
    s->ch = NCH > 1 ? sym_choose(nm2("sc", i, -1), 0, NCH - 1) : 0;
    s->st = 4 * sym_choose(nm2("ss", i, -1), 0, TMAX - 1); s->en = s->st + 4 * sym_choose(nm2("sl", i, -1), 1, SLEN); if (s->en > 4 * TMAX) { __sym_assume(0); return; }
    s->spk = sym_choose(nm2("sk", i, -1), 0, i < 2 ? i : 1);
    if (i && (S[i - 1].ch > s->ch || (S[i - 1].ch == s->ch && S[i - 1].st > s->st))) { __sym_assume(0); return; }
    for (int k = 0; k < i; k++) if (S[k].ch == s->ch && S[k].spk == s->spk && S[k].en > s->st) { __sym_assume(0); return; }
    s->nw = sym_choose(nm2("sn", i, -1), MINW, NW);
    for (int k = 0; k < s->nw; k++) { s->ty[k] = RTY && OPTD != 2 ? sym_choose(nm2("rt", i, k), 0, NTY - 1) : 0; mkword(&s->w[k], nm2("r", i, -1), k, 1, 'a', LAST); }
  }
  nh = sym_choose("nh", MINH, NH); int words = 0;
  for (int j = 0; j < nh; j++) { hw *w = &H[j];
    w->ch = NCH > 1 ? sym_choose(nm2("hc", j, -1), 0, NCH - 1) : 0; w->spk = sym_choose(nm2("hk", j, -1), 0, NHSPK - 1); w->ty = OPTD == 1 ? 0 : sym_choose(nm2("ht", j, -1), 0, NTY - 1); /* such words only where the option is about them */
    w->st = HSTEP * sym_choose(nm2("hs", j, -1), 0, 4 * TMAX / HSTEP); w->du = 2; words += TK[w->ty] != 2;
    if (j && (H[j - 1].ch > w->ch || (H[j - 1].ch == w->ch && (H[j - 1].st > w->st || (!SAME && H[j - 1].st == w->st))))) { __sym_assume(0); return; }
    for (int k = 0; k < j; k++) if (H[k].ch == w->ch && H[k].spk == w->spk && H[k].st + 2 > w->st) { __sym_assume(0); return; } /* nor does a hypothesis speaker */
    int known = 0; for (int i = 0; i < ns; i++) if (S[i].ch == w->ch) known = 1;
    if (!known) { __sym_assume(0); return; }
    mkword(&w->w, "h", j, 1, 'a', LAST);
  }
  if (!words) { __sym_assume(0); return; }
#ifdef RREF
  int order = sym_choose("order", 0, 1), done[4] = {0}; /* words directly after their segment's line, or as late as possible */
  for (int i = 0; i <= ns; i++) {
    for (int q = 0; q < i; q++) if (!done[q] && (!order || i == ns || S[q].spk == S[i].spk)) { done[q] = 1;
      for (int k = 0; k < S[q].nw; k++) { n = put(rb, n, "LEXEME "); n = putch(rb, n, S[q].ch); n = putt(rb, n, S[q].st + k); n = put(rb, n, " 0.25 "); n = putwd(rb, n, &S[q].w[k]); n = put(rb, n, " "); n = put(rb, n, TY[S[q].ty[k]]); n = put(rb, n, " "); n = put(rb, n, RSP[S[q].spk]); n = put(rb, n, " <NA>\n"); } }
    if (i < ns) { n = put(rb, n, "SPEAKER "); n = putch(rb, n, S[i].ch); n = putt(rb, n, S[i].st); n = put(rb, n, " "); n = putt0(rb, n, S[i].en - S[i].st); n = put(rb, n, " <NA> <NA> "); n = put(rb, n, RSP[S[i].spk]); n = put(rb, n, " <NA>\n"); }
  }
#else
  for (int i = 0; i < ns; i++) { n = putch(rb, n, S[i].ch); n = put(rb, n, RSP[S[i].spk]); n = put(rb, n, " "); n = putt(rb, n, S[i].st); n = put(rb, n, " "); n = putt(rb, n, S[i].en); for (int k = 0; k < S[i].nw; k++) { n = put(rb, n, TK[S[i].ty[k]] ? " (" : " "); n = putwd(rb, n, &S[i].w[k]); if (TK[S[i].ty[k]]) n = put(rb, n, ")"); } n = put(rb, n, "\n"); }
#endif
  vfs_put("ref.x", rb, n);
  m = put(hb, m, ";; by hand\nSPKR-INFO f12 1 <NA> <NA> <NA> unknown p <NA>\nSPEAKER f12 1 0.00 9.00 <NA> <NA> p <NA>\n");
  for (int j = 0; j < nh; j++) { m = put(hb, m, "LEXEME "); m = putch(hb, m, H[j].ch); m = putt(hb, m, H[j].st); m = put(hb, m, " "); m = putt0(hb, m, H[j].du); m = put(hb, m, " "); m = putwd(hb, m, &H[j].w); m = put(hb, m, " "); m = put(hb, m, TY[H[j].ty]); m = put(hb, m, " "); m = put(hb, m, HSP[H[j].spk]);
#ifdef CONF
    m = put(hb, m, " 0.75\n");
#else
    m = put(hb, m, " <NA>\n");
#endif
  }
  vfs_put("hyp.rttm", hb, m);
#ifdef MAP
  n = put(rb, 0, "File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap\n");
  for (int c = 0; c < NCH; c++) for (int h = 0; h < NHSPK; h++) { map[h][c] = sym_choose(nm2("mp", h, c), -1, 1);
    for (int r = 0; r < 2; r++) { n = put(rb, n, CHN[c][0]); n = put(rb, n, ","); n = put(rb, n, CHN[c][1]); n = put(rb, n, ","); n = put(rb, n, RSP[r]); n = put(rb, n, ","); n = put(rb, n, HSP[h]); n = put(rb, n, map[h][c] == r ? ",mapped,1.5\n" : ",notmapped,0.5\n"); } }
  vfs_put("map.csv", rb, n);
#endif
  for (int i = 0; i < ns; i++) { S[i].grp = i; for (int k = 0; k < i; k++) if (S[k].ch == S[i].ch && S[k].en > S[i].st) { S[i].grp = S[k].grp; break; } }
  for (int i = 0; i < ns; i++) for (int k = 0; k < ns; k++) if (S[i].ch == S[k].ch && S[i].st < S[k].en && S[k].st < S[i].en && S[i].grp != S[k].grp) { int o = S[i].grp > S[k].grp ? S[i].grp : S[k].grp, q = S[i].grp + S[k].grp - o; for (int z = 0; z < ns; z++) if (S[z].grp == o) S[z].grp = q; }
  for (int j = 0; j < nh; j++) { H[j].grp = -1; int mid = H[j].st + 1; if (TK[H[j].ty] == 2) { H[j].grp = -9; continue; } for (int i = 0; i < ns; i++) if (S[i].ch == H[j].ch && S[i].st <= mid && mid < S[i].en) H[j].grp = S[i].grp; }
  rt_capture_stdout(1);
  char *av[] = {"asclite", "-r", "ref.x",
#ifdef RREF
    "rttm",
#else
    "stm",
#endif
    "-h", "hyp.rttm", "rttm", "-f", "0", "-o", "sgml", "stdout",
#if OPTD == 1
    "-D", "ref",
#elif OPTD == 2
    "-D", "hyp",
#elif OPTD
    "-D",
#endif
#ifdef MAP
    "-spkr-align", "map.csv",
#endif
    EXTRA 0};
  int code = run_tool(av); __sym_check(code == 0, "scoring well-formed files succeeds");
  size_t len; const char *p = strstr(rt_stdout(&len), "<SYSTEM "); __sym_check(p != 0, "the system is reported"); check_system(p);
  __sym_reach("end");
}
