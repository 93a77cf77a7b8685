/* sclite -S: the word segmentation of one side is inferred with a lexicon. */
#ifndef MAXW
#define MAXW 10
#endif
#ifndef NUT
#define NUT 1
#endif
#ifndef PADL
#define PADL 0
#endif
#include "enc.h"
#include "sgm.h"
static ssys Y; static wrd lex[NLEX + 1]; static int nlex, lexc[NLEX + 1], maxc = 1;
static wrd fixs[NUT][MAXW], uns[NUT][MAXW], *fixw, *un; static int nfs[NUT], nus[NUT], nf, nu;
static int known(const wrd *w) { for (int i = 0; i < nlex; i++) if (weq(&lex[i], w)) return 1; return 0; }
static void join(wrd *o, int a, int b) { o->n = 0; for (int i = a; i < b; i++) for (int k = 0; k < un[i].n; k++) o->s[o->n++] = un[i].s[k]; o->s[o->n] = 0; }
static int wlt(const wrd *a, const wrd *b) { int n = a->n < b->n ? a->n : b->n; for (int i = 0; i < n; i++) { if ((unsigned char)a->s[i] < (unsigned char)b->s[i]) return 1; if (a->s[i] != b->s[i]) return 0; } return a->n < b->n; }
static int best(void) { int c[MAXW + 1][MAXW + 1];
  for (int i = 0; i <= nf; i++) for (int j = 0; j <= nu; j++) { if (!i && !j) { c[0][0] = 0; continue; }
    int b = 1000000; if (i) b = c[i - 1][j] + 3;
    for (int k = 0; k < j; k++) { wrd w; join(&w, k, j); if (j - k > 1 && !known(&w)) continue;
      if (c[i][k] + 3 < b) b = c[i][k] + 3; if (i) { int v = c[i - 1][k] + (weq(&fixw[i - 1], &w) ? 0 : 4); if (v < b) b = v; } }
    c[i][j] = b; }
  return c[nf][nu]; }
#ifdef SENS
#define FOLD(c, f) (f) = (c)
#else
#define FOLD(c, f) fold(&(c), &(f))
#endif
void harness(void) {
  static char fb[512], ub[512], lb[256 + 8 * PADL]; int n = 0, m = 0, l = 0;
  nlex = sym_choose("nl", 1, NLEX);
  for (int i = 0; i < PADL; i++) { char w[8] = "0000x\n"; w[0] += i / 1000; w[1] += i / 100 % 10; w[2] += i / 10 % 10; w[3] += i % 10; l = put(lb, l, w); }
  for (int i = 0; i < nlex; i++) { lexc[i] = sym_choose(nm2("lc", i, -1), 1, LEXC); lex[i].n = 0; for (int j = 0; j < lexc[i]; j++) { chr c, f; mkchr(&c, "l", i, j, KMASK); FOLD(c, f); __sym_assume(f.b[0] == c.b[0]); wchr(&lex[i], &c); }
    if (i && !wlt(&lex[i - 1], &lex[i])) { __sym_assume(0); return; }
    l = putwd(lb, l, &lex[i]); l = put(lb, l, EXTRACOL "\n"); }
  for (int u = 0; u < NUT; u++) { fixw = fixs[u]; un = uns[u]; nu = 0;
    nf = sym_choose(nm2("nf", u, -1), MINF, NF); for (int i = 0; i < nf; i++) { int nc = sym_choose(nm2("fc", i + 4 * u, -1), 1, FC); fixw[i].n = 0; for (int j = 0; j < nc; j++) { chr c, f; mkchr(&c, "f", i + 4 * u, j, KMASK); FOLD(c, f); n = putchr(fb, n, &c); wchr(&fixw[i], &f); } n = put(fb, n, " "); }
    int nw = sym_choose(nm2("nu", u, -1), MINU, NU);
    for (int i = 0; i < nw; i++) { int nc = sym_choose(nm2("uc", i + 4 * u, -1), 1, UC), run = 0; for (int j = 0; j < nc; j++) { chr c, f; mkchr(&c, "u", i + 4 * u, j, KMASK); FOLD(c, f); m = putchr(ub, m, &c);
        int asc = c.kind == K_ASCII; if (!(FLAGS & 1) && asc && run) wchr(&un[nu - 1], &f); else { un[nu].n = 0; wchr(&un[nu++], &f); } run = asc; } m = put(ub, m, " "); }
    n = put(fb, n, "(spk1_1)\n"); m = put(ub, m, "(spk1_1)\n"); fb[n - 3] += u; ub[m - 3] += u; nfs[u] = nf; nus[u] = nu; }
  vfs_put("lex", lb, l); vfs_put(ALGO == 1 ? "ref.trn" : "hyp.trn", fb, n); vfs_put(ALGO == 1 ? "hyp.trn" : "ref.trn", ub, m); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", "rm",
#ifdef ENC
    "-e", ENC,
#endif
#ifdef SENS
    "-s",
#endif
    "-S", ALGO == 1 ? "algo1" : "algo2", "lex",
#if FLAGS & 1
    "ASCIITOO",
#endif
    "-o", "sgml", "stdout", 0};
  int code = run_tool(av); __sym_check(code == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *p = rt_stdout(&len); __sym_check(parse_system(&p, &Y) && Y.np == NUT, "every utterance is aligned");
  for (int u = 0; u < NUT; u++) { int i = 0, j = 0, cost = 0; fixw = fixs[u]; un = uns[u]; nf = nfs[u]; nu = nus[u];
  for (int x = 0; x < Y.p[u].n; x++) { stok *t = &Y.p[u].t[x]; char ty = t->type; wrd *fx = ALGO == 1 ? &t->r : &t->h, *sg = ALGO == 1 ? &t->h : &t->r; char ins = ALGO == 1 ? 'I' : 'D', del = ALGO == 1 ? 'D' : 'I';
    __sym_check(ty == 'C' || ty == 'S' || ty == 'I' || ty == 'D', "known evaluation label");
    if (ty != ins) { __sym_check(i < nf && weq(fx, &fixw[i]), "the words of the segmented side appear in order and unchanged"); i++; } else __sym_check(fx->n == 0, "an insertion or deletion has one word");
    if (ty != del) { int k = j, at = 0, e = 0; while (k < nu && at < sg->n) { at += un[k].n; k++; } wrd w; join(&w, j, k); e = k > j && weq(&w, sg); __sym_check(e, "the inferred words spell the text in order"); __sym_check(k - j == 1 || known(sg), "an inferred word is one character or in the lexicon"); if (k - j > 1) __sym_reach("joined"); j = k; } else __sym_check(sg->n == 0, "an insertion or deletion has one word");
    if (ty == 'C') { __sym_check(weq(&t->r, &t->h), "a correct word matches"); __sym_reach("correct"); } else if (ty == 'S') { __sym_check(!weq(&t->r, &t->h), "a substitution pairs different words"); cost += 4; } else cost += 3; }
  __sym_check(i == nf && j == nu, "everything is aligned exactly once");
  __sym_check(cost == best(), "the cost is the minimum over all segmentations with the lexicon"); }
  __sym_reach("end");
}
