/* rover: correspondence sets (-m putat) hold every word once, at minimum cost; voting follows the stated score. */
#ifndef PADW
#define PADW 0
#endif
#ifndef LONGW
#define LONGW 0
#endif
#ifndef T0
#define T0 0
#endif
#define MAXW (8 + PADW)
#include "sgm.h"
#ifndef NSEC
#define NSEC 1
#endif
#ifndef MINN
#define MINN 1
#endif
#ifdef COST /* no silence inside a section: nothing splits the alignment */
#define ABUT 1
#else
#define ABUT 0
#endif
#ifndef CLO
#define CLO 0
#define CHI 0
#endif
#ifdef NEAR /* confidences that differ very little */
static const char *CS[] = {"0.5", "0.5002", "0.25", "1.0"}; static const double CV[] = {0.5, 0.5002, 0.25, 1};
#else
static const char *CS[] = {"0.0", "0.25", "0.5", "1.0"}; static const double CV[] = {0, 0.25, 0.5, 1};
#endif
#ifdef SECSET
static const char *SECF[] = {"fa", "fab", "fb"}, *SECC[] = {"Ab", "A", "A"};
#else
static const char *SECF[] = {"f", "f", "g"}, *SECC[] = {"A", "B", "A"};
#endif
static const char *FN[] = {"h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7"};
typedef struct { wrd w; double t1, dur, conf; int sec; } ent;
static ent E[NSYS][MAXW]; static int ne[NSYS];
typedef struct { int n, sec; ent a[NSYS]; int sys[NSYS]; } cset; /* sys -1: no word */
#define MS (24 + PADW)
static cset Z[MS]; static int nz;
static int put2(char *b, int n, int v) { /* v hundredths */ if (v >= 1000000) b[n++] = '0' + v / 1000000 % 10; if (v >= 100000) b[n++] = '0' + v / 100000 % 10; if (v >= 10000) b[n++] = '0' + v / 10000 % 10; b[n++] = '0' + v / 1000 % 10; b[n++] = '0' + v / 100 % 10; b[n++] = '.'; b[n++] = '0' + v / 10 % 10; b[n++] = '0' + v % 10; b[n] = 0; return n; }
static const char *nextl(const char *p) { while (*p && *p != '\n') p++; return *p ? p + 1 : p; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int is_null(const ent *e) { return e->w.n == 1 && e->w.s[0] == '@'; }
static int same_(const char *a, const char *b) { while (*b && low(*a) == low(*b)) a++, b++; return !*b && *a == ' '; }
static const char *field(const char *p) { while (*p && *p != ' ') p++; while (*p == ' ') p++; return p; }
static int secmatch(const char *f, const char *c, int s) { return same_(f, SECF[s]) && same_(c, SECC[s]); }
static void read_putat(const char *p) {
  __sym_check(starts(p, "<input names="), "putative output names the inputs"); p = nextl(p); nz = 0;
  while (*p) { __sym_check(starts(p, "<putative_tag file=") && nz < MS, "putative record"); cset *z = &Z[nz++]; z->n = 0; z->sec = -1; const char *f = p + 19, *c = f; while (*c != ' ') c++; c += 6; for (int s = 0; s < NSEC; s++) if (secmatch(f, c, s)) z->sec = s; __sym_check(z->sec >= 0, "a correspondence set belongs to a file and channel of the input"); p = nextl(p);
    while (starts(p, "   <attrib tag=\"")) { __sym_check(z->n < NSYS, "one entry per system in every correspondence set"); ent *e = &z->a[z->n]; char nb[64]; const char *q = p + 16; p += 10; e->w.n = 0; while (*q != '"') e->w.s[e->w.n++] = *q++; e->w.s[e->w.n] = 0; strat(p, "t1", nb, 64); e->t1 = strtod(nb, 0); strat(p, "t2", nb, 64); e->dur = strtod(nb, 0) - e->t1; strat(p, "conf", nb, 64); e->conf = strtod(nb, 0); strat(p, "tag1", nb, 64); z->sys[z->n] = -1; for (int s = 0; s < NSYS; s++) if (!strcmp(nb, FN[s])) z->sys[z->n] = s; if (is_null(e)) z->sys[z->n] = -1; z->n++; p = nextl(p); }
    __sym_check(starts(p, "</putative_tag"), "putative record ends"); p = nextl(p); __sym_check(z->n == NSYS, "one entry per system in every correspondence set"); } }
static int refused;
static int rover(const char *meth, const char *alpha, const char *nullc, char *out) { char *av[40]; int n = 0; av[n++] = "rover"; for (int s = 0; s < NSYS; s++) { av[n++] = "-h"; av[n++] = (char *)FN[s]; av[n++] = "ctm"; } av[n++] = "-o"; av[n++] = out; av[n++] = "-m"; av[n++] = (char *)meth; av[n++] = "-f"; av[n++] = "0"; av[n++] = "-a"; av[n++] = (char *)alpha; av[n++] = "-c"; av[n++] = (char *)nullc;
#ifdef TIME
  av[n++] = "-T";
#endif
#ifdef SENS
  av[n++] = "-s";
#endif
  av[n] = 0; return run_tool(av); }
/* cost, in thousandths, of aligning word w with a set of alternatives; w 0: leaving the set out */
static int cost(const wrd *w, const wrd *const *alt, int na) { int nul = 0, eq = 0; for (int i = 0; i < na; i++) { if (alt[i]->n == 1 && alt[i]->s[0] == '@') nul = 1; else if (w && weq(alt[i], w)) eq = 1; } if (!w) return nul ? 1 : 3000; return eq ? 0 : nul ? 1000 : 4000; }
void harness(void) {
  static char buf[NSYS][900 + PADW * 32 + LONGW * 20]; int sens = 0; double nulls = 0; static const char *NC[] = {"0.0", "0.5"}; static const double NCV[] = {0, 0.5}; int nc = 0; int complete = 1, inorder = 1;
#ifdef SENS
  sens = 1;
#endif
#ifdef NULLC
  nc = sym_choose("nullc", 0, 1);
#endif
  nulls = NCV[nc];
  for (int s = 0; s < NSYS; s++) { int n = 0; ne[s] = 0;
    for (int x = 0; x < NSEC; x++) { int k = sym_choose(nm2("n", s * 4 + x, -1), MINN, NW), t = T0; if (!k) complete = 0;
      for (int i = 0; i < (x ? 0 : PADW); i++) { ent *e = &E[s][ne[s]++]; e->w.n = 2; e->w.s[0] = 'p'; e->w.s[1] = 'a' + i % 26; e->w.s[2] = 0; e->t1 = t / 100.0; e->dur = 0.2; e->conf = 0.5; e->sec = 0; n = put(buf[s], n, SECF[x]); buf[s][n++] = ' '; n = put(buf[s], n, SECC[x]); buf[s][n++] = ' '; n = put2(buf[s], n, t); n = put(buf[s], n, " 0.20 "); n = putwd(buf[s], n, &e->w); n = put(buf[s], n, " 0.5\n"); t += 20; }
      if (PADW && !x) t = T0 + 20 * PADW;
      for (int i = 0; i < k; i++) { ent *e = &E[s][ne[s]]; mkword(&e->w, "w", s * 16 + x * 4 + i, 1, FIRST, LAST); if (!sens) { } int d = 25 + 25 * s; e->dur = d / 100.0;
#ifdef GAP
        if (i) t += sym_choose(nm2("g", s * 16 + x * 4 + i, -1), 0, 1) ? 250 : 10;
#else
        if (i) t += ABUT ? 0 : 10;
#endif
        e->t1 = t / 100.0; e->sec = x; int c = sym_choose(nm2("c", s * 16 + x * 4 + i, -1), CLO, CHI); e->conf = CV[c];
        n = put(buf[s], n, SECF[x]); buf[s][n++] = ' '; n = put(buf[s], n, SECC[x]); buf[s][n++] = ' '; n = put2(buf[s], n, t); buf[s][n++] = ' '; n = put2(buf[s], n, d); buf[s][n++] = ' '; n = putwd(buf[s], n, &e->w);
        if (!sens) for (int q = 0; q < e->w.n; q++) e->w.s[q] = (char)low(e->w.s[q]);
#ifndef NOCONF
        buf[s][n++] = ' '; n = put(buf[s], n, CS[c]);
#else
        e->conf = -1;
#endif
        n = put(buf[s], n, "\n"); t += d; ne[s]++; } }
    vfs_put(FN[s], buf[s], n); }
  int rc = rover("putat", "1.0", NC[nc], "o.put");
  if (rc != 0) { __sym_check(!complete, "combining well-formed hypotheses with the same files and channels succeeds"); __sym_reach("refused"); return; }
  read_putat(outfile("o.put"));
  int at[NSYS]; for (int s = 0; s < NSYS; s++) at[s] = 0;
  for (int z = 0; z < nz; z++) { int real = 0;
    for (int i = 0; i < NSYS; i++) { ent *e = &Z[z].a[i]; int s = Z[z].sys[i]; if (s < 0) { __sym_check(is_null(e), "an entry is a system's word or the null word"); __sym_check(near_(e->conf, nulls, 1e-6), "the null word has the null confidence"); continue; } real++;
      __sym_check(at[s] < ne[s], "no word is duplicated"); ent *o = &E[s][at[s]++]; __sym_check(weq(&e->w, &o->w), "every word of every system is in the sets, in order"); __sym_check(near_(e->t1, o->t1, 1e-5) && near_(e->dur, o->dur, 2e-5) && near_(e->conf, o->conf, 1e-6), "words keep their times and confidences"); __sym_check(Z[z].sec == o->sec, "words stay in their file and channel"); }
    __sym_check(real > 0, "no empty correspondence set");
    for (int i = 0; i < NSYS; i++) for (int j = 0; j < i; j++) __sym_check(Z[z].sys[i] < 0 || Z[z].sys[i] != Z[z].sys[j], "at most one word per system in a set"); (void)inorder; }
  for (int s = 0; s < NSYS; s++) __sym_check(at[s] == ne[s], "every word of every system is in the sets");
#ifdef COST /* within a section, each system is merged at minimum cost into the sets of the systems before it */
  for (int s = 1; s < NSYS; s++) { const wrd *set[MS][NSYS]; int m = 0, tot = 0; const wrd *w[MAXW]; static const wrd nul = {"@", 1}; for (int i = 0; i < ne[s]; i++) w[i] = &E[s][i].w;
    for (int z = 0; z < nz; z++) { int before = 0; const wrd *mine = 0; for (int q = 0; q < s; q++) set[m][q] = &nul; for (int i = 0; i < NSYS; i++) { int y = Z[z].sys[i]; if (y >= 0 && y < s) set[m][y] = &Z[z].a[i].w, before++; if (y == s) mine = &Z[z].a[i].w; }
      if (before) { tot += cost(mine, set[m], s); m++; } else if (mine) tot += 3000; }
    int c[MS + 1][MAXW + 1]; for (int i = 0; i <= m; i++) for (int j = 0; j <= ne[s]; j++) { int b = i || j ? 1000000 : 0, v; if (i && j && (v = c[i - 1][j - 1] + cost(w[j - 1], set[i - 1], s)) < b) b = v; if (i && (v = c[i - 1][j] + cost(0, set[i - 1], s)) < b) b = v; if (j && (v = c[i][j - 1] + 3000) < b) b = v; c[i][j] = b; }
    __sym_check(tot == c[m][ne[s]], "each system is aligned at minimum cost to the network of those before it"); }
#endif
#ifdef METH
  static const char *AL[] = {"1.0", "0.0", "0.6"}; static const double AV[] = {1, 0, 0.6}; int a = sym_choose("alpha", 0, NALPHA - 1); double al = AV[a];
  rc = rover(METH, AL[a], NC[nc], "o.ctm"); __sym_check(rc == 0, "voting succeeds"); const char *p = outfile("o.ctm"); int meth = METH[0] == 'a' ? 0 : METH[1] == 'a' ? 1 : METH[0] == 'o' ? 3 : 2;
  for (int z = 0; z < nz; z++) { cset *S = &Z[z]; const ent *u[NSYS]; int occ[NSYS], n = 0; double cs[NSYS], cm[NSYS], t1[NSYS], du[NSYS], sc[NSYS], tot = 0, best = -1e9;
    for (int i = 0; i < NSYS; i++) { ent *e = &S->a[i]; int k = 0; while (k < n && !weq(&u[k]->w, &e->w)) k++; if (k == n) { u[n] = e; occ[n] = 0; cs[n] = t1[n] = du[n] = 0; cm[n] = 0; n++; } occ[k]++; cs[k] += e->conf; tot += e->conf; if (e->conf > cm[k]) cm[k] = e->conf; t1[k] += e->t1; du[k] += e->dur; }
    if (meth == 3) { if (n > 1) { __sym_check(secmatch(p, field(p), S->sec) && starts(field(field(p)), "* * <ALT_BEGIN>"), "alternatives are listed when systems differ"); p = nextl(p); __sym_reach("alt"); } }
    for (int k = 0; k < n; k++) { sc[k] = al * occ[k] / NSYS + (1 - al) * (meth == 0 ? (near_(tot, 0, 1e-12) ? 0 : cs[k] / tot) : meth == 1 ? cm[k] : cs[k] / occ[k]); if (sc[k] > best) best = sc[k]; }
    /* the next line of the output, when it is the winner of this set */
    int okw = 0, nullok = 0, listed = 0;
    for (int k = 0; k < n; k++) { if (meth != 3 && !near_(sc[k], best, 1e-9)) continue; if (meth != 3 && is_null(u[k])) { nullok = 1; continue; } char *e; if (meth != 3 && okw) continue;
      const char *q = p; if (!*q || !secmatch(q, field(q), S->sec)) { if (meth == 3) __sym_check(0, "every alternative is listed"); continue; } double x = strtod(field(field(q)), &e), y = strtod(e, &e); while (*e == ' ') e++; int m = 1; for (int i = 0; i < u[k]->w.n; i++) if (e[i] != u[k]->w.s[i]) m = 0; if (m && e[u[k]->w.n] != ' ') m = 0; if (m) { double v = strtod(e + u[k]->w.n, &e); m = near_(x, t1[k] / occ[k], 0.00051) && near_(y, du[k] / occ[k], 0.00051) && near_(v, cs[k] / occ[k], 1.1e-6); }
      if (meth == 3) { __sym_check(m, "every alternative is listed with its average time and confidence"); p = nextl(p); if (n > 1) { __sym_check(starts(field(field(p)), k == n - 1 ? "* * <ALT_END>" : "* * <ALT>"), "alternatives are separated"); p = nextl(p); } listed++; okw = 1; }
      else if (m) { okw = 1; if (occ[k] > 1) __sym_reach("majority"); if (occ[k] < NSYS) __sym_reach("split"); } }
    if (meth == 3) { __sym_check(listed == n, "every alternative is listed once"); continue; }
    if (okw) p = nextl(p); else { __sym_check(nullok, "the output has the best scoring word of each set, with its average time and confidence"); __sym_reach("null"); } }
  __sym_check(!*p, "the output has nothing but the winners");
#endif
  __sym_reach("end");
}
