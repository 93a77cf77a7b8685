/* Confidence measures: NCE in the summaries, DET curve, histograms. */
#ifndef PADS
#define PADS 0
#endif
#ifndef NSYS
#define NSYS 1
#endif
#define NT_ (NS + PADS)
#if PADS
#define MAXP (NT_ + 4)
#endif
#include "sgm.h"
static ssys S;
static const char *CS[] = {"0.0", "0.25", "0.5", "0.735", "1.0", "0.085", "0.999", "0.113", "0.605", "0.345", "0.475"}; static const double CV[] = {0, 0.25, 0.5, 0.735, 1, 0.085, 0.999, 0.113, 0.605, 0.345, 0.475};
static double lg2(double x) { return log(x) / log(2.0); }
static double clip(double x) { return x < 1e-7 ? 1e-7 : x > 0.9999999 ? 0.9999999 : x; }
typedef struct { int c, n; double s; } nc;
static double nce(const nc *k) { if (!k->c || k->c == k->n) return 0; double p = (double)k->c / k->n, H = -(k->c * lg2(p) + (k->n - k->c) * lg2(1 - p)); return (H + k->s) / H; }
static const char *line(const char *p) { while (*p && *p != '\n') p++; return *p ? p + 1 : p; }
void harness(void) { warm();
  static char rb[9000], hb[9000], h2[2000]; int n = 0, m = 0, m2 = 0; static double T[MAXW + 4 * NT_], F[MAXW + 4 * NT_]; int nt = 0, nf = 0; static double conf[NT_][8];
  for (int s = 0; s < NT_; s++) { int pad = s - NS, nr, nh; wrd w; char t0[4], t1[4]; t0[0] = '0' + s / 10; t0[1] = '0' + s % 10; t0[2] = 0; t1[0] = '0' + (s + 1) / 10; t1[1] = '0' + (s + 1) % 10; t1[2] = 0;
    n = put(rb, n, "f1 A S"); rb[n++] = 'a' + s / 26; rb[n++] = 'a' + s % 26; rb[n++] = ' '; n = put(rb, n, t0); n = put(rb, n, ".00 "); n = put(rb, n, t1); n = put(rb, n, ".00 ");
    if (pad >= 0) { nh = 1 + pad % 4; n = put(rb, n, pad % 3 ? "a b a b\n" : "b b b a\n"); } else {
    nr = sym_choose(nm2("nr", s, -1), MINR, NR), nh = sym_choose(nm2("nh", s, -1), MINH, NH);
    for (int i = 0; i < nr; i++) { mkword(&w, "r", s * 4 + i, 1, 'a', LAST); n = putwd(rb, n, &w); rb[n++] = ' '; } n = put(rb, n, "\n"); }
    for (int i = 0; i < nh; i++) { int c = pad >= 0 ? (pad * 3 + i * 5) % 11 : sym_choose(nm2("cf", s * 4 + i, -1), CLO, CHI); conf[s][i] = CV[c]; m = put(hb, m, "f1 A "); m = put(hb, m, t0); hb[m++] = '.'; hb[m++] = '1' + i; m = put(hb, m, "0 0.10 ");
      if (pad >= 0) { hb[m++] = i % 2 ? 'b' : 'a'; } else { mkword(&w, "h", s * 4 + i, 1, 'a', LAST); m = putwd(hb, m, &w); } hb[m++] = ' '; m = put(hb, m, CS[c]); m = put(hb, m, "\n"); }
    m2 = put(h2, m2, "f1 A "); m2 = put(h2, m2, t0); m2 = put(h2, m2, s % 2 ? ".10 0.10 a 0.3\n" : ".10 0.10 b 0.9\n"); }
  if (!m) return;
  vfs_put("r.stm", rb, n); vfs_put("h.ctm", hb, m); vfs_put("g.ctm", h2, m2);
  char *av[] = {"sclite", "-r", "r.stm", "stm",
#if NSYS > 1
    "-h", "g.ctm", "ctm",
#endif
    "-h", "h.ctm", "ctm", "-o", "sgml",
#ifdef DET
    "sum", "rsum", "-C", "det",
#elif defined(SBH)
    "-C", "sbhist",
#else
    "-C", "hist", "bhist",
#endif
    0};
  __sym_check(run_tool(av) == 0, "scoring well-formed inputs succeeds");
  const char *o = outfile("h.ctm.sgml"); __sym_check(parse_system(&o, &S) && S.np == NT_ && S.nspk == NT_, "every segment has an alignment");
  static nc K[NT_]; nc A = {0, 0, 0}; int hc[10] = {0}, hi[10] = {0}, refs[NT_];
  for (int s = 0; s < NT_; s++) { nc *k = &K[s]; k->c = k->n = 0; k->s = 0; int j = 0; spath *p = &S.p[s]; refs[s] = 0;
    for (int t = 0; t < p->n; t++) { stok *x = &p->t[t]; if (x->r.n) refs[s]++; if (!x->h.n) continue; double v = conf[s][j++]; k->n++;
      if (x->type == 'C') { k->c++; k->s += lg2(clip(v)); T[nt++] = v; } else { k->s += lg2(1 - clip(v)); F[nf++] = v; }
      int b = v >= 1 ? 9 : (int)(v * 10 + 1e-9); if (x->type == 'C') hc[b]++; else hi[b]++; }
    A.c += k->c; A.n += k->n; A.s += k->s; }
#ifdef DET
  double v[16]; const char *rep = outfile("h.ctm.sys"), *raw = outfile("h.ctm.raw"); for (int s = 0; s < NT_; s++) { char id[4] = "saa"; id[1] += s / 26; id[2] += s % 26; 
    if (!refs[s]) { __sym_check(table_row(rep, id, v, 16) == 8 && table_row(raw, id, v, 16) == 8, "no NCE for a speaker without reference words"); __sym_reach("noref"); continue; }
    int c = table_row(rep, id, v, 16); __sym_check(c == 9, "a speaker's row ends with its NCE"); __sym_check(near_(v[8], nce(&K[s]), 0.00055), "a speaker's NCE follows the definition");
    c = table_row(raw, id, v, 16); __sym_check(c == 9 && near_(v[8], nce(&K[s]), 0.00055), "a speaker's NCE is in the raw report too");
    if (K[s].n && K[s].c && K[s].c < K[s].n) __sym_reach("nce"); }
  __sym_check(table_row(rep, "Sum/Avg", v, 16) == 9 && near_(v[8], nce(&A), 0.00055), "the total NCE is over all words");
  __sym_check(table_row(raw, "Sum", v, 16) == 9 && near_(v[8], nce(&A), 0.00055), "the total NCE is in the raw report too");
  double mean = 0, sd = 0, md[NT_ + 1]; int zero = 0, q = 0; for (int s = 0; s < NT_; s++) { zero += !refs[s]; md[s] = nce(&K[s]); mean += md[s] / NT_; } for (int s = 0; s < NT_; s++) sd += (md[s] - mean) * (md[s] - mean); sd = NT_ > 1 ? sqrt(sd / (NT_ - 1)) : 0;
  for (int i = 1; i < NT_; i++) { double x = md[i]; int j = i - 1; while (j >= 0 && md[j] > x) { md[j + 1] = md[j]; j--; } md[j + 1] = x; } double med = NT_ % 2 ? md[NT_ / 2] : (md[NT_ / 2] + md[NT_ / 2 - 1]) / 2; (void)q;
    if (!zero) { __sym_check(table_row(rep, "Mean", v, 16) == 9 && near_(v[8], mean, 0.00055), "mean NCE of the speakers"); __sym_check(table_row(rep, "S.D.", v, 16) == 9 && near_(v[8], sd, 0.00055), "deviation of the speakers' NCE"); __sym_check(table_row(rep, "Median", v, 16) == 9 && near_(v[8], med, 0.00055), "median NCE of the speakers"); __sym_reach("mean"); }
  const char *d = outfile("h.ctm.det.dat.00");
  for (int i = 1; i < nt; i++) { double x = T[i]; int j = i - 1; while (j >= 0 && T[j] > x) { T[j + 1] = T[j]; j--; } T[j + 1] = x; }
  for (int i = 1; i < nf; i++) { double x = F[i]; int j = i - 1; while (j >= 0 && F[j] > x) { F[j + 1] = F[j]; j--; } F[j + 1] = x; }
  if (nt && nf) { int a = 0, b = 0; double last = -1e9; d = line(d);
    while (a + b < nt + nf - 2) { char *e; __sym_check(*d, "one DET point for every word dropped"); double x = strtod(d, &e), y = strtod(e, &e); d = line(d); double pm = 0.5 * erfc(-x / sqrt(2.0)), pf = 0.5 * erfc(-y / sqrt(2.0));
      int ma = a + 1 < nt && near_(pm, (double)(a + 1) / nt, 1e-5) && near_(pf, (double)(nf - b) / nf, 1e-5), mb = b + 1 < nf && near_(pm, (double)a / nt, 1e-5) && near_(pf, (double)(nf - b - 1) / nf, 1e-5);
      __sym_check(ma || mb, "each DET point drops one more word");
      if (ma) { __sym_check(T[a + 1] >= last, "words are dropped in order of confidence"); last = T[++a]; } else { __sym_check(F[b + 1] >= last, "words are dropped in order of confidence"); last = F[++b]; }
      __sym_reach("det"); }
    __sym_check(!*d, "no further DET points"); }
  else { __sym_check(!*d, "no DET curve without both kinds of words"); __sym_reach("nodet"); }
#elif defined(SBH)
  /* equal numbers of words per bin, in order of confidence; the last bin has the rest */
  const char *d = outfile("h.ctm.sbhist.dat"); int nw = nt + nf, sz = nw / 20, k = 0; char *e; if (sz) __sym_reach("bins");
  for (int i = 1; i < nt; i++) { double x = T[i]; int j = i - 1; while (j >= 0 && T[j] > x) { T[j + 1] = T[j]; j--; } T[j + 1] = x; }
  for (int i = 1; i < nf; i++) { double x = F[i]; int j = i - 1; while (j >= 0 && F[j] > x) { F[j + 1] = F[j]; j--; } F[j + 1] = x; }
  static double all[MAXW + 4 * NT_]; int ia = 0, ib = 0; for (int i = 0; i < nw; i++) all[i] = ib >= nf || (ia < nt && T[ia] <= F[ib]) ? T[ia++] : F[ib++];
  double tc = 0; int bins = 0;
  if (sz) for (int l = 0, b = sz; l < nw; bins++) { __sym_check(*d, "every word is in one bin"); double mid = strtod(d, &e), pc = strtod(e, &e); strtod(e, &e); strtod(e, &e); double wd = strtod(e, &e); d = line(d);
    __sym_check(near_(mid, (all[l] + all[b - 1]) / 2, 1e-5) && near_(wd, all[b - 1] - all[l], 1e-5), "the range of a bin with an equal share of the words");
    double c = pc * (b - l) / 100; __sym_check(near_(c, (int)(c + 0.5), 1e-3), "percent correct of a bin"); c = (int)(c + 0.5); tc += c; int lo = 0, hi = 0; for (int i = 0; i < nt; i++) { if (T[i] > all[l] && T[i] < all[b - 1]) lo++; if (T[i] >= all[l] && T[i] <= all[b - 1]) hi++; } __sym_check(c >= lo && c <= hi, "percent correct of a bin"); (void)k;
    l = b; b += sz; if (b + sz > nw) b = nw; }
  __sym_check(!*d && (!sz || tc == nt), "every word is in one bin");
#else
  const char *d = outfile("h.ctm.bhist.dat1"), *h = outfile("h.ctm.hist.dat"); char *e; double acc[10][2]; int tot = 0;
  for (int b = 0; b < 10; b++) { double x = strtod(d, &e), y = strtod(e, &e); d = line(d); __sym_check(near_(x, b * 0.1 + 0.05, 1e-4), "ten bins"); __sym_check(near_(y, hc[b] + hi[b] ? 100.0 * hc[b] / (hc[b] + hi[b]) : 0, 1e-4), "percent correct of a bin"); acc[b][0] = acc[b][1] = 0; }
  __sym_check(!*d, "ten bins");
  for (int b = 0; b < 100; b++) for (int z = 0; z < 2; z++) { double x = strtod(h, &e), y = strtod(e, &e), c = strtod(e, &e), i = strtod(e, &e); h = line(h); __sym_check(near_(x, (b + z) * 0.01, 1e-4) && y == c + i, "histogram bins"); if (!z) { acc[b / 10][0] += c; acc[b / 10][1] += i;
      int wc = 0, wi = 0; for (int k = 0; k < nt; k++) { int g = T[k] >= 1 ? 99 : (int)(T[k] * 100 + 1e-9); wc += g == b; } for (int k = 0; k < nf; k++) { int g = F[k] >= 1 ? 99 : (int)(F[k] * 100 + 1e-9); wi += g == b; }
      __sym_check(c == wc && i == wi, "histogram counts of a bin"); } }
  __sym_check(!*h, "a hundred bins"); for (int b = 0; b < 10; b++) tot += (int)(acc[b][0] + acc[b][1]); __sym_check(tot == nt + nf, "every word is counted once"); if (nt && nf) __sym_reach("both");
#endif
  __sym_reach("end");
}
