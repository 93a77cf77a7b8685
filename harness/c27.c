/* asclite -generic-cost: several outputs are aligned with one another, none of them being the reference. */
#include "sc.h"
#ifndef NCH
#define NCH 1
#endif
#ifndef NC3
#define NC3 NW /* words of the last output */
#endif
#ifndef OPTI
#define OPTI
#endif
static const char *CHN[][2] = {{"f", "1"}, {"f", "2"}, {"g", "1"}};
typedef struct { int st, du, ch, grp, used, conf; wrd w; } hw;
static hw H[NSYS][MAXW]; static int N[NSYS];
static int putt(char *b, int n, int t) { char x[8]; t *= 250; x[0] = (char)('0' + t / 1000); x[1] = '.'; x[2] = (char)('0' + t / 100 % 10); x[3] = (char)('0' + t / 10 % 10); x[4] = (char)('0' + t % 10); x[5] = 0; return put(b, n, x); }
static int gett(const char *p) { if (!(p[0] >= '0' && p[0] <= '9' && p[1] == '.')) return -1; int v = (p[0] - '0') * 1000 + (p[2] - '0') * 100 + (p[3] - '0') * 10 + p[4] - '0'; return v % 250 || p[5] != '"' ? -1 : v / 250; }
/* a set of words: every output without a word costs 3, every word that is not the most frequent one 4 */
static int set_cost(int dims, hw **w, int n) { int best = 0; for (int i = 0; i < n; i++) { int k = 0; for (int j = 0; j < n; j++) k += weq(&w[i]->w, &w[j]->w); if (k > best) best = k; } return 3 * (dims - n) + 4 * (n - best); }
static int group_cost(int g) {
  hw *w[3][MAXW]; int n[3] = {0, 0, 0}, dims = 0; static int c[5][5][5];
  for (int s = 0; s < NSYS; s++) { for (int i = 0; i < N[s]; i++) if (H[s][i].grp == g) w[s][n[s]++] = &H[s][i]; if (n[s]) dims++; }
  for (int x = 0; x <= n[0]; x++) for (int y = 0; y <= n[1]; y++) for (int z = 0; z <= n[2]; z++) { int b = 1000000; if (!x && !y && !z) { c[0][0][0] = 0; continue; }
    for (int m = 1; m < 8; m++) { int a = m & 1, e = m >> 1 & 1, d = m >> 2, k = 0; hw *q[3]; if (a > x || e > y || d > z) continue; if (a) q[k++] = w[0][x - 1]; if (e) q[k++] = w[1][y - 1]; if (d) q[k++] = w[2][z - 1]; int v = c[x - a][y - e][z - d] + set_cost(dims, q, k); if (v < b) b = v; }
    c[x][y][z] = b; }
  return c[n[0]][n[1]][n[2]];
}
static const char *attr(const char *p, const char *name) { size_t l = strlen(name); for (; *p && *p != '>'; p++) if (p[-1] == ' ' && !strncmp(p, name, l) && p[l] == '=' && p[l + 1] == '"') return p + l + 2; return 0; }
static int is(const char *p, const char *v) { size_t l = strlen(v); return p && !strncmp(p, v, l) && p[l] == '"'; }
void harness(void) {
  static char hb[512]; static char fn[] = "sys1.ctm"; int ng = 0;
  for (int s = 0; s < NSYS; s++) { int n = 0; N[s] = sym_choose(nm2("n", s, -1), 1, s == 2 ? NC3 : NW);
    for (int i = 0; i < N[s]; i++) { hw *h = &H[s][i]; h->ch = NCH > 1 ? sym_choose(nm2("c", s, i), i ? H[s][i - 1].ch : 0, NCH - 1) : 0;
#ifdef FIXT /* one stretch */
      h->st = 2 * i + s % 2; h->du = 2;
#else
      h->st = sym_choose(nm2("t", s, i), 0, TMAX); h->du = sym_choose(nm2("d", s, i), 1, DMAX);
#endif
      if (i && H[s][i - 1].ch == h->ch && H[s][i - 1].st + H[s][i - 1].du > h->st) { __sym_assume(0); return; }
      mkword(&h->w, nm2("w", s, -1), i, 1, 'a', LAST); h->used = 0;
      n = put(hb, n, CHN[h->ch][0]); n = put(hb, n, " "); n = put(hb, n, CHN[h->ch][1]); n = put(hb, n, " "); n = putt(hb, n, h->st); n = put(hb, n, " "); n = putt(hb, n, h->du); n = put(hb, n, " "); n = putwd(hb, n, &h->w);
#ifdef CONF
      h->conf = sym_choose(nm2("q", s, i), 0, 1); n = put(hb, n, h->conf ? " 0.75" : " 0.5");
#endif
      n = put(hb, n, "\n"); }
    fn[3] = (char)('1' + s); vfs_put(strdup(fn), hb, n); }
  /* words belong together when they overlap in time, directly or by way of other words */
  for (int s = 0; s < NSYS; s++) for (int i = 0; i < N[s]; i++) { hw *a = &H[s][i]; a->grp = ++ng;
    for (int t = 0; t <= s; t++) for (int j = 0; j < N[t]; j++) { hw *b = &H[t][j]; if ((t == s && j >= i) || a->ch != b->ch || a->st >= b->st + b->du || b->st >= a->st + a->du || a->grp == b->grp) continue; int o = a->grp; for (int u = 0; u <= s; u++) for (int k = 0; k < N[u]; k++) if ((u < s || k <= i) && H[u][k].grp == o) H[u][k].grp = b->grp; } }
  rt_capture_stdout(1);
  char *av[] = {"asclite", "-generic-cost", "-noisg", "-h", "sys1.ctm", "ctm", "A", "-h", "sys2.ctm", "ctm", "B",
#if NSYS > 2
    "-h", "sys3.ctm", "ctm", "C",
#endif
    OPTI "-f", "0", "-o", "stdout", 0};
  __sym_check(run_tool(av) == 0, "aligning well-formed outputs succeeds");
  size_t len; const char *p = rt_stdout(&len); p = strstr(p, "<rover>"); __sym_check(p != 0, "the alignment is reported");
  int cost[NSYS * MAXW + 1], last[NSYS]; memset(cost, 0, sizeof cost); for (int s = 0; s < NSYS; s++) last[s] = -1;
  while ((p = strstr(p, "<putative"))) { hw *q[NSYS]; int k = 0, e = 0, g = 0, from[NSYS] = {0}, dims = 0; const char *f = attr(p, "file"), *c = attr(p, "channel"); p = strchr(p, '>'); __sym_check(p != 0, "a set of words is well formed"); p++;
    for (;;) { while (*p == ' ' || *p == '\n' || *p == '\t') p++; if (!strncmp(p, "</putative>", 11)) break; __sym_check(!strncmp(p, "<word", 5), "a set consists of words"); e++; p++;
      const char *b = attr(p, "bt"), *t = attr(p, "et"), *in = attr(p, "input"), *cf = attr(p, "conf"); p = strchr(p, '>') + 1;
      if (!in) { __sym_check(!strncmp(p, "</word>", 7), "a missing word has no text"); p += 7; __sym_reach("missing"); continue; }
      int s = in[0] - 'A', x = -1; __sym_check(in[1] == '"' && s >= 0 && s < NSYS && !from[s]++, "a set has at most one word of each output"); __sym_check(b && t, "a word has its times");
      for (int i = 0; i < N[s]; i++) if (H[s][i].st == gett(b) && H[s][i].st + H[s][i].du == gett(t) && is(f, CHN[H[s][i].ch][0]) && is(c, CHN[H[s][i].ch][1])) x = i;
      __sym_check(x >= 0, "a word is reported with its file, channel and times"); __sym_check(*p == H[s][x].w.s[0] && !strncmp(p + 1, "</word>", 7), "a word is reported with its text"); p += 8;
#ifdef CONF
      __sym_check(cf && !strncmp(cf, H[s][x].conf ? "0.75" : "0.50", 4), "a word is reported with its confidence");
#endif
      (void)cf; __sym_check(!H[s][x].used++ && x == last[s] + 1, "every word is reported once, in order"); last[s] = x;
      __sym_check(!k || g == H[s][x].grp, "words are only aligned with words of the same part of the recording"); g = H[s][x].grp; q[k++] = &H[s][x]; }
    __sym_check(e == NSYS && k > 0, "a set has a place for every output");
    for (int s = 0; s < NSYS; s++) { int any = 0; for (int i = 0; i < N[s]; i++) if (H[s][i].grp == g) any = 1; dims += any; }
    cost[g] += set_cost(dims, q, k); if (k == NSYS && set_cost(dims, q, k) == 0) __sym_reach("agree"); if (k > 1 && set_cost(dims, q, k)) __sym_reach("differ"); }
  for (int s = 0; s < NSYS; s++) for (int i = 0; i < N[s]; i++) { __sym_check(H[s][i].used == 1, "every word of every output is reported"); int g = H[s][i].grp; if (cost[g] >= 0) { __sym_check(cost[g] == group_cost(g), "the sets have minimum total cost"); cost[g] = -1; } }
  __sym_reach("end");
}
