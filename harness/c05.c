/* Alternations in the reference, optionally deletable words and word fragments. */
#ifndef NU
#define NU 1
#endif
#ifndef PADN
#define PADN 0
#endif
#if PADN
#define MAXW (12 + 2 * PADN)
#define MAXT (40 + 4 * PADN)
#endif
#define MAXSL (8 + PADN)
#include "sgm.h"
static ssys S;
/* reference slot kinds: the text, and the word sequences it stands for (digits index the slot's words) */
static const struct { const char *txt; int nw; const char *alt[8]; } K[] = {
  {"0", 1, {"0"}},
  {"{ 0 / @ }", 1, {"0", ""}},
  {"{ 0 / 1 2 }", 3, {"0", "12"}},
  {"{ @ / 0 1 }", 2, {"", "01"}},
  {"{ 0 / 1 / @ }", 2, {"0", "1", ""}},
  {"{ 0 / { 1 / 2 } 3 }", 4, {"0", "13", "23"}},
  {"{ { 0 / @ } 1 / 2 }", 3, {"01", "1", "2"}},
  {"{ 0 1 / 1 0 }", 2, {"01", "10"}},
  {"{ 0 / { 1 / @ } }", 2, {"0", "1", ""}},
  {"{ 0 { 1 / 2 } / @ }", 3, {"01", "02", ""}},
  {"{ 0 / 1 / 2 / 3 / 4 / 0 1 }", 5, {"0", "1", "2", "3", "4", "01"}}, /* 10 */
  {"{ 0 { 1 { 2 / 3 } / @ } / 4 }", 5, {"012", "013", "0", "4"}},
  {"{ 0 / @ } { 1 / @ }", 2, {"01", "0", "1", ""}},
  {"{ @ / { @ / 0 } }", 1, {"", "0"}},
  {"{ 0 / 1 / 2 3 4 }", 5, {"0", "1", "234"}},
  {"{ { 0 / 1 } { 2 / 3 } / @ }", 4, {"02", "03", "12", "13", ""}},
  {"{ 0 1 2 / 3 4 }", 5, {"012", "34"}},
  {"0 { 1 / @ } 2", 3, {"012", "02"}},
  {"{ 0 { 1 { 2 { 3 / @ } / @ } / @ } / @ }", 4, {"0123", "012", "01", "0", ""}}, /* 18 */
  {"{ 0 / @ / 1 / @ }", 2, {"0", "", "1"}},
};
#ifndef KLO
#define KLO 0
#endif
#ifndef KINDS
#define KINDS 0
#endif
/* word forms: 0 plain, 1 "x-", 2 "-x", 3 "(x)", 4 "(x-)" */
typedef struct { wrd w; int form; wrd core; } fw;
static void mkfw(fw *f, const char *pre, int idx, int len, int form) {
  wrd c; mkword(&c, pre, idx, len, 'a', LAST); f->form = form; int n = 0; char *o = f->w.s;
  if (form >= 3) o[n++] = '('; if (form == 2) o[n++] = '-'; for (int i = 0; i < c.n; i++) o[n++] = c.s[i]; if (form == 1 || form == 4) o[n++] = '-'; if (form >= 3) o[n++] = ')'; o[n] = 0; f->w.n = n; f->core = c; }
static int opt_(const fw *f) {
#ifdef OPTD
  return f->form >= 3;
#else
  return 0;
#endif
}
/* the text a word is compared by: without the optional-deletion marks when those count */
static wrd eff(const fw *f) { wrd x = opt_(f) ? f->core : f->w; if (opt_(f) && f->form == 4) x.s[x.n++] = '-'; return x; }
static int starts_(const fw *f, const wrd *p) { wrd e = eff(f); if (e.n < p->n) return 0; for (int i = 0; i < p->n; i++) if (e.s[i] != p->s[i]) return 0; return 1; }
static int ends_(const fw *f, const wrd *p) { wrd e = eff(f); if (e.n < p->n) return 0; for (int i = 0; i < p->n; i++) if (e.s[e.n - p->n + i] != p->s[i]) return 0; return 1; }
/* do the two words count as the same? (at most one of them is a fragment) */
static int match(const fw *a, const fw *b) {
#if defined(FRAG)
  int pa = a->form == 1 || (a->form == 4 && opt_(a)), pb = b->form == 1 || (b->form == 4 && opt_(b));
  if (pa) return starts_(b, &a->core); if (a->form == 2) return ends_(b, &a->core);
  if (pb) return starts_(a, &b->core); if (b->form == 2) return ends_(a, &b->core);
#endif
  wrd x = eff(a), y = eff(b); return weq(&x, &y); }
static int indel(const fw *f) { return opt_(f) ? 2 : 3; }
/* what is aligned: the words, or with -c their characters */
#ifdef CHARS
static int units(const fw *f) { return opt_(f) ? f->core.n : f->w.n; }
static fw *unit(fw *f, int i) { static fw pool[400]; static int np; fw *o = &pool[np++ % 400]; char c = opt_(f) ? f->core.s[i] : f->w.s[i];
  o->form = opt_(f) ? 3 : 0; o->core.s[0] = c; o->core.s[1] = 0; o->core.n = 1; if (opt_(f)) { o->w.s[0] = '('; o->w.s[1] = c; o->w.s[2] = ')'; o->w.s[3] = 0; o->w.n = 3; } else o->w = o->core; return o; }
#else
static int units(const fw *f) { return 1; }
static fw *unit(fw *f, int i) { return f; }
#endif
static fw h[NU][MAXW], r[NU][MAXW * 2 + 40]; static int nr[NU], nh[NU], ns[NU], kind[NU][MAXSL], base[NU][MAXSL];
static char rb[NU * (4000 + 60 * PADN)], hb[NU * (2000 + 30 * PADN)];
#ifndef HPRE
#define HPRE ""
#endif
static void padw(fw *f, char c, int i) { f->form = 0; f->w.s[0] = c; f->w.s[1] = 'a' + i / 26; f->w.s[2] = 'a' + i % 26; f->w.s[3] = 0; f->w.n = 3; f->core = f->w; }
void harness(void) {
  int n = 0, m = 0;
#if defined(FORMS)
  int side = sym_choose("side", 0, 1);
#else
  int side = 0;
#endif
  for (int u = 0; u < NU; u++) { char rn[3] = {'r', 0, 0}, hn[3] = {'h', 0, 0}; if (NU > 1) rn[1] = hn[1] = 'a' + u;
    int c = sym_choose(nm2("ns", u, -1), MINS, NSLOT), d = sym_choose(nm2("nh", u, -1), 0, NH);
    for (int s = 0; s < PADN + c; s++) { int k;
      base[u][s] = nr[u];
      if (s < PADN) { k = s % 4 == 3 ? 0 : s % 4 == 2 ? 4 : s % 4 == 1 ? 2 : 5; for (int i = 0; i < K[k].nw; i++) padw(&r[u][nr[u]++], 'p' + i, s);
        if (s % 5 == 1) padw(&h[u][nh[u]++], 'z', s); else { const char *e = K[k].alt[s % 3 == 1 && K[k].alt[1] ? 1 : 0]; for (; *e; e++) padw(&h[u][nh[u]++], 'p' + *e - '0', s); } }
      else { int z = s - PADN; k = KINDS ? sym_choose(nm2("k", u * 4 + z, -1), KLO, KINDS - 1) : 0;
        for (int i = 0; i < K[k].nw; i++) {
#if defined(FORMS)
          int f = sym_choose(nm2("f", u * 4 + z, i), 0, FORMS - 1); if (side && (f == 1 || f == 2 || f == 4)) __sym_assume(0);
#else
          int f = 0;
#endif
          mkfw(&r[u][nr[u]], rn, nr[u], LEN > 1 ? sym_choose(nm2("rl", u * 4 + z, i), 1, LEN) : 1, f); nr[u]++; } }
      kind[u][s] = k;
      for (const char *p = K[k].txt; *p; p++) if (*p >= '0' && *p <= '9') n = putwd(rb, n, &r[u][base[u][s] + *p - '0'].w); else rb[n++] = *p;
      rb[n++] = ' '; }
    for (int i = 0; i < d; i++) {
#if defined(FORMS)
      int f = sym_choose(nm2("g", u * 4 + i, -1), 0, FORMS - 1); if (!side && (f == 1 || f == 2 || f == 4)) __sym_assume(0);
#else
      int f = 0;
#endif
      mkfw(&h[u][nh[u]], hn, i, LEN > 1 ? sym_choose(nm2("hl", u * 4 + i, -1), 1, LEN) : 1, f); nh[u]++; }
    for (int i = 0; i < nh[u]; i++) { m = putwd(hb, m, &h[u][i].w); hb[m++] = ' '; }
#ifdef CHARS
    static fw hu[MAXW]; int k2 = 0; for (int i = 0; i < nh[u]; i++) for (int c2 = 0; c2 < units(&h[u][i]); c2++) hu[k2++] = *unit(&h[u][i], c2);
    for (int i = 0; i < k2; i++) h[u][i] = hu[i]; nh[u] = k2;
#endif
    ns[u] = PADN + c; n = put(rb, n, "(spk1_"); rb[n++] = '1' + u; n = put(rb, n, ")\n"); m = put(hb, m, "(spk1_"); hb[m++] = '1' + u; m = put(hb, m, ")\n"); }
  vfs_put("ref.trn", rb, n); vfs_put("hyp.trn", hb, m); rt_capture_stdout(1);
#if defined(OPTD) && defined(FRAG)
  char *x = "-D", *y = "-F";
#elif defined(OPTD)
  char *x = "-D", *y = 0;
#elif defined(FRAG)
  char *x = "-F", *y = 0;
#else
  char *x = 0, *y = 0;
#endif
#ifdef ASC
  /* known finding: a reference that may be left out as a whole */
  int none = 0; for (int u = 0; u < NU; u++) { int all = ns[u] > 0; for (int s = 0; s < ns[u]; s++) { int e = 0; for (int a = 0; a < 8 && K[kind[u][s]].alt[a]; a++) if (!*K[kind[u][s]].alt[a]) e = 1; if (!e) all = 0; } if (all) none = 1; }
#ifdef KF
#define CHECK_MIN "[KF-asclite-null] the alignment has minimum cost when the whole reference may be left out"
  __sym_assume(none);
#else
#define CHECK_MIN "the alignment has minimum cost over every choice"
  if (none) { __sym_assume(0); return; }
#endif
  char *av[] = {"asclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "spu_id", "-f", "0", "-o", "sgml", "stdout", x, y, 0};
#else
#define CHECK_MIN "the alignment has minimum cost over every choice"
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm", "-o", "sgml", "stdout",
#ifdef CHARS
  "-c",
#endif
  x, y, 0};
#endif
  __sym_check(run_tool(av) == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *o = rt_stdout(&len);
  __sym_check(parse_system(&o, &S) && S.np == NU, "every scored utterance has an alignment");
  for (int q0 = 0; q0 < NU; q0++) { spath *p = &S.p[q0]; int u = p->id[6] - '1'; __sym_check(u >= 0 && u < NU, "the alignment is of one of the utterances");
  /* the reference side of the alignment is one choice per alternation, in order */
  static fw *at[MAXT]; int j = 0;
  for (int t = 0; t < p->n; t++) { stok *q = &p->t[t];
    __sym_check(q->type == 'C' || q->type == 'S' || q->type == 'D' || q->type == 'I', "known evaluation label"); }
  /* which positions of the reference side are reachable after each slot */
  static char ok[MAXSL + 1][MAXT + 1]; memset(ok, 0, sizeof ok); ok[0][0] = 1;
  int rn = 0; static stok *rt[MAXT]; for (int t = 0; t < p->n; t++) if (p->t[t].r.n) rt[rn++] = &p->t[t];
  for (int s = 0; s < ns[u]; s++) for (int q = 0; q <= rn; q++) if (ok[s][q]) for (int a = 0; a < 8 && K[kind[u][s]].alt[a]; a++) {
    const char *e = K[kind[u][s]].alt[a]; int z = q, good = 1;
    for (; *e && good; e++) { fw *f = &r[u][base[u][s] + *e - '0']; for (int c2 = 0; c2 < units(f); c2++, z++) { fw *g = unit(f, c2); if (z >= rn || !weq(&rt[z]->r, &g->w)) { good = 0; break; } at[z] = g; } }
    if (good) ok[s + 1][z] = 1; }
  __sym_check(ok[ns[u]][rn], "the reference side is one choice of each alternation, in order and unchanged");
  int c = 0, zr = 0;
  for (int t = 0; t < p->n; t++) { stok *q = &p->t[t]; fw *a = q->r.n ? at[zr++] : 0, *b = 0;
    if (q->h.n) { __sym_check(j < nh[u] && weq(&q->h, &h[u][j].w), "hypothesis words appear in order and unchanged"); b = &h[u][j++]; }
    __sym_check(a || b, "every column aligns a word");
    if (a && b) { int mt = match(a, b); __sym_check(q->type == (mt ? 'C' : 'S'), "a pair is correct exactly when the words match"); c += mt ? 0 : 4; if (mt && !weq(&a->w, &b->w)) __sym_reach("loose"); }
    else { fw *v = a ? a : b; __sym_check(q->type == (opt_(v) ? 'C' : a ? 'D' : 'I'), "an unpaired word is an error unless it may be left out"); c += indel(v); if (opt_(v)) __sym_reach("optional"); } }
  __sym_check(j == nh[u], "every hypothesis word is aligned exactly once");
  /* optimum over all choices */
  static int v[MAXW + 1], best[MAXW + 1], w0[MAXW + 1], w[MAXW + 1];
  v[0] = 0; for (int i = 0; i < nh[u]; i++) v[i + 1] = v[i] + indel(&h[u][i]);
  for (int s = 0; s < ns[u]; s++) {
    for (int i = 0; i <= nh[u]; i++) best[i] = 1000000;
    for (int a = 0; a < 8 && K[kind[u][s]].alt[a]; a++) {
      for (int i = 0; i <= nh[u]; i++) w0[i] = v[i];
      for (const char *e = K[kind[u][s]].alt[a]; *e; e++) for (int c2 = 0; c2 < units(&r[u][base[u][s] + *e - '0']); c2++) { fw *x = unit(&r[u][base[u][s] + *e - '0'], c2);
        for (int i = 0; i <= nh[u]; i++) { int d = w0[i] + indel(x); if (i) { int y = w0[i - 1] + (match(x, &h[u][i - 1]) ? 0 : 4); if (y < d) d = y; y = w[i - 1] + indel(&h[u][i - 1]); if (y < d) d = y; } w[i] = d; }
        for (int i = 0; i <= nh[u]; i++) w0[i] = w[i]; }
      for (int i = 0; i <= nh[u]; i++) if (w0[i] < best[i]) best[i] = w0[i]; }
    for (int i = 0; i <= nh[u]; i++) v[i] = best[i]; }
  __sym_check(c == v[nh[u]], CHECK_MIN); }
  __sym_reach("end");
}
