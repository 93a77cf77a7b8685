/* asclite end to end with time marks: overlapping speakers (stm), hypothesis words (ctm). */
#include "sc.h"
#ifndef NCH
#define NCH 1
#endif
#ifndef NSYS
#define NSYS 1
#endif
typedef struct { int st, en, spk, nw, ign, ch, grp, seen, out; wrd w[MAXW]; } seg;
typedef struct { int st, du, ch, grp, used; wrd w; } hw;
#ifndef T0
#define T0 0
#endif
#ifndef PADG
#define PADG 0
#endif
#ifndef CHNS
#define CHNS {"f12", "1"}, {"f12", "2"}
#endif
static const char *CHN[][2] = { CHNS };
static int putch(char *b, int n, int c) { n = put(b, n, CHN[c][0]); n = put(b, n, " "); n = put(b, n, CHN[c][1]); return put(b, n, " "); }
#ifdef AUTO
#define SELF 1
#else
#define SELF 0
#endif
#ifndef LIMN /* the fewest and most reference speakers of a group that is scored */
#define LIMN 0
#endif
#ifndef LIMX
#define LIMX 4
#endif
#ifndef NOISG
#define NOISG 0
#endif
#ifndef UNIT
#define UNIT 250
#endif
/* times are in units of UNIT ms; printed with two decimals when these suffice */
static int putt0(char *b, int n, int t) { char x[24]; int k = 0, q = 1, v = t * UNIT, f = v % 1000; v /= 1000; while (q <= v / 10) q *= 10; for (; q; q /= 10) x[k++] = (char)('0' + v / q % 10); x[k++] = '.'; x[k++] = (char)('0' + f / 100); x[k++] = (char)('0' + f / 10 % 10); if (f % 10) x[k++] = (char)('0' + f % 10); x[k] = 0; return put(b, n, x); }
static int putt(char *b, int n, int t) { return putt0(b, n, t + 4 * T0); }
static int gett(const char *p) { /* d.ddd to units after T0, far off when it is none */ int v = 0; for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + *p - '0'; if (*p != '.') return 1000000; v = v * 1000 + (p[1] - '0') * 100 + (p[2] - '0') * 10 + (p[3] - '0'); return v % UNIT || (p[4] >= '0' && p[4] <= '9') ? 1000000 : v / UNIT - 4 * T0; }
static const char *SP[] = {"s1", "s2", "s3"};
#ifdef UEM
#define GAPKF 0
#ifndef UOPT
#define UOPT
#endif
static struct { int ch, st, en; } U[UEM]; static int nu;
#else
#define GAPKF 1
#endif
static seg S[4]; static hw HH[NSYS][MAXW], *H; static int ns, nh, NHs[NSYS];
/* least cost of aligning the words of a group of segments of up to two speakers with the group's hypothesis words */
static int group_cost(int g) {
  wrd *a[3][MAXW]; int n[3] = {0, 0, 0}, m = 0; wrd *h[MAXW];
  for (int i = 0; i < ns; i++) if (S[i].grp == g) for (int k = 0; k < S[i].nw; k++) a[S[i].spk][n[S[i].spk]++] = &S[i].w[k];
  for (int j = 0; j < nh; j++) if (H[j].grp == g) h[m++] = &H[j].w;
  static int c[MAXW][MAXW][MAXW][MAXW];
  for (int x = 0; x <= n[0]; x++) for (int y = 0; y <= n[1]; y++) for (int u = 0; u <= n[2]; u++) for (int z = 0; z <= m; z++) {
    int b = 1000000, v;
    if (!x && !y && !z && !u) { c[0][0][0][0] = 0; continue; }
    if (x && (v = c[x - 1][y][u][z] + 3) < b) b = v;
    if (y && (v = c[x][y - 1][u][z] + 3) < b) b = v;
    if (u && (v = c[x][y][u - 1][z] + 3) < b) b = v;
    if (z && (v = c[x][y][u][z - 1] + 3) < b) b = v;
    if (x && z && (v = c[x - 1][y][u][z - 1] + (weq(a[0][x - 1], h[z - 1]) ? 0 : 4)) < b) b = v;
    if (y && z && (v = c[x][y - 1][u][z - 1] + (weq(a[1][y - 1], h[z - 1]) ? 0 : 4)) < b) b = v;
    if (u && z && (v = c[x][y][u - 1][z - 1] + (weq(a[2][u - 1], h[z - 1]) ? 0 : 4)) < b) b = v;
    c[x][y][u][z] = b;
  }
  return c[n[0]][n[1]][n[2]][m];
}
static int attr_is(const char *p, const char *name, const char *v) { size_t l = strlen(name), k = strlen(v); int q = 0; for (; *p && (q || *p != '>'); p++) if (*p == '"') q = !q; else if (!q && !strncmp(p, name, l) && p[l] == '=' && p[l + 1] == '"') return !strncmp(p + l + 2, v, k) && p[l + 2 + k] == '"'; return 0; }
static const char *check_system(const char *p, int y) {
  atok t; int cost = 0, spk = -1, pads = 0; H = HH[y]; nh = NHs[y];
  for (int i = 0; i < ns; i++) S[i].seen = 0;
  while (*p && strncmp(p, "</SYSTEM>", 9)) {
    if (!strncmp(p, "<SPEAKER id=\"", 13)) { p += 13; spk = !strncmp(p, "inter_segment_gap\"", 18) ? -2 : (p[0] == 's' && p[1] >= '1' && p[1] <= '3' && p[2] == '"') ? p[1] - '1' : -1; __sym_check(spk != -1, "only the speakers of the reference and the inter segment gaps are reported"); }
    if (strncmp(p, "<PATH ", 6)) { while (*p && *p != '\n') p++; if (*p) p++; continue; }
    const char *q = strstr(p, "R_T1=\""), *f = strstr(p, "R_T2=\""); int ch = -1; for (int c = 0; c < NCH; c++) if (attr_is(p, "file", CHN[c][0]) && attr_is(p, "channel", CHN[c][1])) ch = c;
    __sym_check(q && f && ch >= 0, "an alignment names its file, channel and times");
    int st = gett(q + 6), en = gett(f + 6), wc = attr_int(p, "word_cnt"), si = -1, i = 0, last = -1;
    if (PADG && spk == 0 && st < 0 && ch == 0) { __sym_check(st == 4 * pads - 4 * T0 && en == st + 3 && wc == 1, "every segment is reported once"); pads++; while (*p && *p != '\n') p++; if (*p) p++; __sym_check(!strncmp(p, "C,\"pad\",\"pad\",", 14) && gett(p + 14) == st + 1, "a word is aligned with the segment it was spoken in"); while (*p && *p != '\n') p++; continue; }
    for (int k = 0; k < ns && spk >= 0; k++) if (S[k].spk == spk && S[k].st == st && S[k].en == en && S[k].ch == ch) si = k;
    __sym_check(spk == -2 || (si >= 0 && !S[si].seen), "every segment is reported once"); if (si >= 0) S[si].seen = 1;
    while (*p && *p != '\n') p++; if (*p) p++;
    int k = 0;
    while (*p && *p != '\n') {
      t.type = *p++; __sym_check(*p == ',', "alignment record is well formed"); p++; p = pword(p, &t.r); __sym_check(*p == ',', "alignment record is well formed"); p++; p = pword(p, &t.h);
      int j = -1;
      if (t.type != 'D') { __sym_check(*p == ',', "alignment record is well formed"); p++; int ht = gett(p); for (int z = 0; z < nh; z++) if (H[z].ch == ch && H[z].st == ht) j = z;
        const char *e2 = p; while (*e2 && *e2 != '+' && *e2 != ':' && *e2 != '\n') e2++; __sym_check(j >= 0 && *e2 == '+' && gett(e2 + 1) == H[j].st + H[j].du, "a hypothesis word is reported with its times");
        __sym_check(j >= 0 && weq(&H[j].w, &t.h), "a hypothesis word is reported with its text and time"); 
        __sym_check(!H[j].used, "a hypothesis word is aligned once"); H[j].used = 1;
        __sym_check(j > last, "hypothesis words appear in order of time"); last = j;
        __sym_check(spk == -2 ? H[j].grp == -1 || H[j].grp == -3 : H[j].grp == S[si].grp, "a hypothesis word is aligned with the segments it was spoken in");
      } else __sym_check(t.h.n == 0, "a deletion has no hypothesis word");
      if (t.type != 'I') { __sym_check(si >= 0 && i < S[si].nw && weq(&S[si].w[i], &t.r), "reference words appear in their segment, in order and unchanged"); i++; }
      else __sym_check(t.r.n == 0, "an insertion has no reference word");
      if (t.type == 'C') { __sym_check(weq(&t.r, &t.h), "a correct word matches"); __sym_reach("cor"); }
      else if (t.type == 'S') { __sym_check(!weq(&t.r, &t.h), "a substitution pairs different words"); cost += 4; }
      else { __sym_check(t.type == 'I' || t.type == 'D', "known evaluation label"); cost += 3; if (spk == -2) __sym_reach("gap"); }
      while (*p && *p != ':' && *p != '\n') p++; if (*p == ':') p++;
      k++;
    }
    __sym_check(k == wc, "declared word count equals the alignment length");
    __sym_check(si < 0 || i == S[si].nw, "every reference word is aligned");
  }
  int want = 0; __sym_check(pads == PADG, "every segment is reported once");
  for (int g = 0; g < ns; g++) { int any = 0, ig = 0; for (int i = 0; i < ns; i++) if (S[i].grp == g) { any = 1; if (S[i].ign) ig = 1; }
    if (!any) continue;
    int sp[3] = {0, 0, 0}, np; for (int i = 0; i < ns; i++) if (S[i].grp == g) sp[S[i].spk] = 1; np = sp[0] + sp[1] + sp[2];
    if (np < LIMN || np > LIMX) { ig = 1; __sym_reach("not selected"); for (int i = 0; i < ns; i++) if (S[i].grp == g) __sym_check(!S[i].seen, "a group that is not selected is not reported"); }
    if (ig) { __sym_reach("ignored"); for (int j = 0; j < nh; j++) if (H[j].grp == g) { __sym_check(!H[j].used, "words in ignored time are not scored"); H[j].used = 1; } }
    else want += group_cost(g);
    for (int i = 0; i < ns; i++) if (S[i].grp == g && !ig) __sym_check(S[i].seen || !S[i].nw, "every segment with words is reported"); }
  for (int j = 0; j < nh; j++) { int cn = H[j].ch ? 0 : PADG * NSYS;
#ifdef UEM
    if (H[j].grp == -2) { __sym_check(!H[j].used, "words outside the evaluated time are not scored"); __sym_reach("outside"); continue; }
#endif
    for (int x = 0; x < NSYS; x++) for (int z = 0; z < NHs[x]; z++) if (HH[x][z].ch == H[j].ch) cn++;
    if (H[j].grp < 0 && (NOISG || LIMN > 1 || LIMX < 1)) { __sym_check(!H[j].used, "words between the segments are not scored when not asked for"); __sym_reach("no gap"); continue; }
    if (GAPKF && H[j].grp < 0 && cn % 2 == 0) { /* known finding */
#ifdef KF
      __sym_check(H[j].used, "[KF-isg-even] a word between the segments is scored");
#endif
      if (H[j].used) want += 3; continue; }
    if (H[j].grp == -3) { if (H[j].used) want += 3; continue; }
    if (H[j].grp < 0) want += 3;
    __sym_check(H[j].used, "every hypothesis word is scored"); }
  __sym_check(cost == want, "the alignment has minimum total cost");
  return p;
}
#ifdef CODEC
/* stands in for LZMA: lossless, with any of the first CODEC blocks incompressible */
static unsigned char *kept[4096]; static size_t klen[4096]; static int nk;
int LzmaCompress(unsigned char *d, size_t *dl, const unsigned char *s, size_t sl, unsigned char *pr, size_t *ps, int level, unsigned dict, int lc, int lp, int pb, int fb, int th) {
  __sym_check(*ps >= 5 && nk < 4096, "the codec is given room for its properties"); *ps = 5; int id = nk++;
  int bad = id < CODEC ? sym_choose(nm2("cx", id, -1), 0, 1) : 0;
  kept[id] = malloc(sl + 1); memcpy(kept[id], s, sl); klen[id] = sl;
  for (int i = 0; i < 5; i++) pr[i] = (unsigned char)(0x5d + i);
  size_t n = bad ? sl : 3; if (n > *dl) return 7; for (size_t i = 0; i < n; i++) d[i] = 0xEE;
  d[0] = (unsigned char)id; d[1] = (unsigned char)(id >> 8); d[2] = 0x77; *dl = n; return 0; }
int LzmaUncompress(unsigned char *d, size_t *dl, const unsigned char *s, size_t *sl, const unsigned char *pr, size_t ps) {
  if (ps != 5 || *sl < 3 || s[2] != 0x77) return 1; for (int i = 0; i < 5; i++) if (pr[i] != 0x5d + i) return 1;
  int id = s[0] + 256 * s[1]; if (id >= nk || *dl < klen[id] || *sl != 3) return 1;
  memcpy(d, kept[id], klen[id]); *dl = klen[id]; __sym_reach("uncompressed"); return 0; }
#endif
void harness(void) {
  static char rb[512 + 40 * PADG], hb[512 + 40 * PADG]; int n = 0, m = 0;
  ns = sym_choose("ns", MINS, NS);
  for (int i = 0; i < ns; i++) { seg *s = &S[i];
    s->ch = NCH > 1 ? sym_choose(nm2("sc", i, -1), 0, NCH - 1) : 0;
    s->st = 4 * sym_choose(nm2("ss", i, -1), 0, TMAX - 1); s->en = s->st + 4 * sym_choose(nm2("sl", i, -1), 1, SLEN); if (s->en > 4 * TMAX) { __sym_assume(0); return; }
    s->spk = sym_choose(nm2("sk", i, -1), 0, i < NSPK ? i : NSPK - 1);
    if (i && (S[i - 1].ch > s->ch || (S[i - 1].ch == s->ch && S[i - 1].st > s->st))) { __sym_assume(0); return; }
    for (int k = 0; k < i && !SELF; k++) if (S[k].ch == s->ch && S[k].spk == s->spk && S[k].en > s->st) { __sym_assume(0); return; } /* a speaker does not overlap itself */
    s->ign =
#ifdef IGN
      sym_choose(nm2("sg", i, -1), 0, 1);
#else
      0;
#endif
    s->nw = s->ign ? 0 : sym_choose(nm2("sn", i, -1), MINW, NW);
    for (int k = 0; k < s->nw; k++) mkword(&s->w[k], nm2("r", i, -1), k, 1, 'a', LAST);
  }
  for (int y = 0; y < NSYS; y++) { H = HH[y]; nh = sym_choose(nm2("nh", y, -1), MINH, NH); NHs[y] = nh;
  for (int j = 0; j < nh; j++) { hw *w = &H[j];
    w->ch = NCH > 1 ? sym_choose(nm2("hc", y, j), 0, NCH - 1) : 0;
    w->st = HSTEP * sym_choose(nm2("hs", y, j), 0, 4 * TMAX / HSTEP); w->du = 2;
    if (j && (H[j - 1].ch > w->ch || (H[j - 1].ch == w->ch && H[j - 1].st >= w->st))) { __sym_assume(0); return; }
    int known = 0; for (int i = 0; i < ns; i++) if (S[i].ch == w->ch) known = 1;
    if (!known) { __sym_assume(0); return; }
    mkword(&w->w, nm2("h", y, -1), j, 1, 'a', LAST);
  } }
#ifdef NOTE
  n = put(rb, n, ";; made by hand\n");
#endif
  for (int i = 0; i < PADG; i++) { n = putch(rb, n, 0); n = put(rb, n, "s1 "); n = putt0(rb, n, 4 * i); n = put(rb, n, " "); n = putt0(rb, n, 4 * i + 3); n = put(rb, n, " pad\n"); }
  for (int i = 0; i < ns; i++) { n = putch(rb, n, S[i].ch); n = put(rb, n, SP[S[i].spk]); n = put(rb, n, " "); n = putt(rb, n, S[i].st); n = put(rb, n, " "); n = putt(rb, n, S[i].en);
#ifdef NOTE
    if (sym_choose(nm2("lb", i, -1), 0, 1)) n = put(rb, n, " <o,f0>");
#endif
    if (S[i].ign) n = put(rb, n, " IGNORE_TIME_SEGMENT_IN_SCORING");
    for (int k = 0; k < S[i].nw; k++) { n = put(rb, n, " "); n = putwd(rb, n, &S[i].w[k]); } n = put(rb, n, "\n");
#ifdef NOTE
    if (sym_choose(nm2("bl", i, -1), 0, 1)) n = put(rb, n, sym_choose(nm2("bs", i, -1), 0, 1) ? " \n" : "\n");
#endif
  }
  vfs_put("ref.stm", rb, n);
#ifdef UEM
  int part = 0, left = 0; nu = sym_choose("nu", 1, UEM);
  for (int i = 0; i < nu; i++) { U[i].ch = NCH > 1 ? sym_choose(nm2("uc", i, -1), 0, NCH - 1) : 0; U[i].st = USTEP * sym_choose(nm2("us", i, -1), 0, 4 * TMAX / USTEP); U[i].en = U[i].st + USTEP * sym_choose(nm2("ue", i, -1), 1, 4 * TMAX / USTEP);
    if (U[i].en > 4 * TMAX + USTEP) { __sym_assume(0); return; }
    for (int k = 0; k < i; k++) if (U[k].ch == U[i].ch && U[k].st < U[i].en && U[i].st < U[k].en) { __sym_assume(0); return; } }
  for (int i = 0; i < ns; i++) { S[i].out = 1; int ov = 0;
    for (int k = 0; k < nu; k++) if (U[k].ch == S[i].ch) { if (U[k].st <= S[i].st && S[i].en <= U[k].en) S[i].out = 0; else if (U[k].st < S[i].en && S[i].st < U[k].en) ov = 1; }
#ifdef UHYP /* the references are left as they are */
    S[i].out = ov = 0;
#endif
    if (S[i].out) part |= ov; else left++; }
  if (!left) { __sym_assume(0); return; }
#endif
  /* groups: segments of a channel chained by overlap */
  { int k = 0; for (int i = 0; i < ns; i++) if (!S[i].out) S[k++] = S[i]; ns = k; }
  for (int i = 0; i < ns; i++) { S[i].grp = i; for (int k = 0; k < i; k++) if (S[k].ch == S[i].ch && S[k].en > S[i].st) { S[i].grp = S[k].grp; break; } }
  for (int i = 0; i < ns; i++) for (int k = 0; k < ns; k++) if (S[i].ch == S[k].ch && S[i].st < S[k].en && S[k].st < S[i].en && S[i].grp != S[k].grp) { int o = S[i].grp > S[k].grp ? S[i].grp : S[k].grp, q = S[i].grp + S[k].grp - o; for (int z = 0; z < ns; z++) if (S[z].grp == o) S[z].grp = q; }
  for (int y = 0; y < NSYS; y++) for (int j = 0; j < NHs[y]; j++) { H = HH[y]; H[j].grp = -1; int mid = H[j].st + H[j].du / 2;
#ifdef UEM
    int in = 0; for (int k = 0; k < nu; k++) if (U[k].ch == H[j].ch) { if (U[k].st <= mid && mid < U[k].en) in = 1; else if (mid == U[k].en) in |= 2; } if (!in) { H[j].grp = -2; continue; } int here = 0; for (int i = 0; i < ns; i++) here |= S[i].ch == H[j].ch; if (in == 2 || !here) H[j].grp = -3; /* at a border, or no reference in the evaluated time of the channel */
#endif

    for (int i = 0; i < ns; i++) if (S[i].ch == H[j].ch && S[i].st <= mid && mid < S[i].en) H[j].grp = S[i].grp; }
  for (int y = 0; y < NSYS; y++) { H = HH[y]; nh = NHs[y]; m = 0;
  for (int i = 0; i < PADG; i++) { m = putch(hb, m, 0); m = putt0(hb, m, 4 * i + 1); m = put(hb, m, " 0.25 pad\n"); }
  for (int j = 0; j < nh; j++) { m = putch(hb, m, H[j].ch); m = putt(hb, m, H[j].st); m = put(hb, m, " "); m = putt0(hb, m, H[j].du); m = put(hb, m, " "); m = putwd(hb, m, &H[j].w);
#ifdef NOTE
    if (sym_choose(nm2("cf", y, j), 0, 1)) m = put(hb, m, " 0.5");
#endif
    m = put(hb, m, "\n");
#ifdef NOTE
    if (sym_choose(nm2("hb", y, j), 0, 1)) m = put(hb, m, sym_choose(nm2("hm", y, j), 0, 1) ? ";; x\n" : "\n");
#endif
  }
  vfs_put(y ? "hyq.ctm" : "hyp.ctm", hb, m); }
  rt_capture_stdout(1);
  char *av[] = {"asclite", "-r", "ref.stm", "stm", "-h", "hyp.ctm", "ctm",
#if NSYS > 1
    "-h", "hyq.ctm", "ctm",
#endif
    "-f", "0", "-o", "sgml", "stdout", EXTRA
#ifdef UEM
    "-uem", "x.uem", UOPT
#endif
    0};
#ifdef UEM
  n = 0; for (int i = 0; i < PADG; i++) { n = putch(rb, n, 0); n = putt0(rb, n, 4 * i); n = put(rb, n, " "); n = putt0(rb, n, 4 * i + 3); n = put(rb, n, "\n"); }
  for (int i = 0; i < nu; i++) { n = putch(rb, n, U[i].ch); n = putt(rb, n, U[i].st); n = put(rb, n, " "); n = putt(rb, n, U[i].en); n = put(rb, n, "\n"); } vfs_put("x.uem", rb, n);
#endif
#ifdef AUTO
  int self = 0;
  for (int i = 0; i < ns && AUTO != 2; i++) for (int k = 0; k < i; k++) if (S[k].ch == S[i].ch && S[k].spk == S[i].spk && S[k].en > S[i].st) self = 1;
  for (int y = 0; y < NSYS && AUTO != 1; y++) for (int j = 0; j < NHs[y]; j++) for (int k = 0; k < j; k++) if (HH[y][k].ch == HH[y][j].ch && HH[y][k].st + HH[y][k].du > HH[y][j].st) self = 1;
#endif
  int code = run_tool(av);
#ifdef AUTO
  if (self) { __sym_check(code != 0, "speech of one speaker that overlaps itself is refused"); __sym_reach("refused"); return; }
#if AUTO == 2
  for (int i = 0; i < ns; i++) for (int k = 0; k < i; k++) if (S[k].ch == S[i].ch && S[k].spk == S[i].spk && S[k].en > S[i].st) return;
#endif
#endif
#ifdef UEM
  if (part) { __sym_check(code != 0, "a segment that crosses the border of the evaluated time is refused"); __sym_reach("refused"); return; }
#endif
  __sym_check(code == 0, "scoring well-formed files succeeds");
  size_t len; const char *p = rt_stdout(&len);
  for (int y = 0; y < NSYS; y++) { p = strstr(p, "<SYSTEM "); __sym_check(p && attr_is(p, "title", y ? "hyq.ctm" : "hyp.ctm"), "every system is reported, in order"); p = check_system(p, y); }
  __sym_check(!strstr(p, "<SYSTEM "), "only the given systems are reported");
  __sym_reach("end");
}
