/* An alignment record that is read in again (-P) is written out unchanged, and its reports are the tally of it. */
#ifndef PADW
#define PADW 0
#endif
#ifndef LONGW
#define LONGW 0
#endif
#ifndef STRS
#define STRS 0
#endif
#ifndef MORELAB
#define MORELAB 0
#endif
#ifndef ALLON
#define ALLON 0
#endif
#include "sgm.h"
static ssys S;
static char in[40000]; static int n;
static void P_(const char *s) { n = put(in, n, s); }
static int where = -1; static wrd sx;
static void X_(int k) { if (k == where) n = putwd(in, n, &sx); }
static void dec(int v) { if (v >= 100) in[n++] = '0' + v / 100; if (v >= 10) in[n++] = '0' + v / 10 % 10; in[n++] = '0' + v % 10; }
static void num(const char *nm, int kind) { /* a number in the form the record uses; kind 0: time d.ddd, 1: d.dddddd */
  int v = sym_choose(nm, 0, NUMV); static const char *T[] = {"0.250", "12.125", "0.000", "100.001", "20000.500", "-0.500"}, *C[] = {"0.500000", "1.000000", "0.000000", "0.123457", "123.500000", "-1.250000"}; P_(kind ? C[v] : T[v]); }
static void tok_(int sys, int spk, int p, int t, int aux) {
  int id = ((sys * NSPK + spk) * NP + p) * NT + t; int ty = sym_choose(nm2("y", id / 10, id % 10), 0, 3); wrd a, b; char *c = "CSDI";
  mkword(&a, "a", id, LENW ? sym_choose(nm2("la", id / 10, id % 10), 1, LENW) : 1, FIRST, LAST); mkword(&b, "b", id, 1, FIRST, LAST);
  for (int i = 0; i < a.n; i++) __sym_assume(a.s[i] != '"' && a.s[i] != ';'); for (int i = 0; i < b.n; i++) __sym_assume(b.s[i] != '"' && b.s[i] != ';');
  in[n++] = c[ty]; P_(","); if (ty != 3) { P_("\""); for (int i = 0; i < LONGW; i++) in[n++] = 'a' + i % 26; n = putwd(in, n, &a); P_("\""); } P_(",");
  if (ty != 2) { P_("\""); if (!ty) for (int i = 0; i < LONGW; i++) in[n++] = 'a' + i % 26; n = putwd(in, n, ty == 0 ? &a : &b); P_("\""); }
  char z[8] = "t0_0"; z[1] = '0' + id / 10; z[3] = '0' + id % 10;
  if (aux & 1) { P_(","); if (ty != 3) { z[0] = 'd'; num(z, 0); P_("+"); z[0] = 'D'; num(z, 0); } }
  if (aux & 2) { P_(","); if (ty != 2) { z[0] = 'e'; num(z, 0); P_("+"); z[0] = 'E'; num(z, 0); } }
  if (aux & 4) { P_(","); if (ty != 3) { z[0] = 'f'; num(z, 1); } }
  if (aux & 8) { P_(","); if (ty != 2) { z[0] = 'g'; num(z, 1); } }
  if (aux & 16) { P_(","); if (ty != 3) { z[0] = 'k'; num(z, 1); } }
  if (aux & 32) { P_(","); if (ty != 2) { z[0] = 'l'; num(z, 1); } }
}
void harness(void) { warm(); int start[NSYS + 1];
#if STRS
  where = sym_choose("where", 0, STRS); mkword(&sx, "x", 0, 2, '!', '~'); for (int i = 0; i < 2; i++) __sym_assume(sx.s[i] != '"');
#ifdef LOWER
  for (int i = 0; i < 2; i++) __sym_assume(sx.s[i] < 'A' || sx.s[i] > 'Z');
#endif
#endif
  for (int y = 0; y < NSYS; y++) { start[y] = n;
    int hd = sym_choose(nm2("hd", y, -1), 0, HEAD), fc = HEAD ? hd & 1 : 0, od = HEAD ? hd >> 1 & 1 : 0, wa = HEAD ? hd >> 2 & 1 : 0;
    P_("<SYSTEM title=\"sys"); in[n++] = '1' + y; X_(0); P_("\" ref_fname=\"r"); X_(1); P_("\" hyp_fname=\"h"); in[n++] = '1' + y; X_(2); P_("\" creation_date=\"Tue Jan 01\" format=\"2.4\" frag_corr=\""); P_(fc ? "TRUE" : "FALSE"); P_("\" opt_del=\""); P_(od ? "TRUE" : "FALSE"); P_("\" weight_ali=\""); P_(wa ? "TRUE\" weight_filename=\"w.wwl Column 'x'\">\n" : "FALSE\" weight_filename=\"\">\n");
    int lb = sym_choose(nm2("lb", y, -1), 0, LABS);
    if (lb) P_("<LABEL id=\"o\" title=\"Overall\" desc=\"all of it\">\n</LABEL>\n"); if (lb > 1) P_("<LABEL id=\"f1\" title=\"Set F\" desc=\"\">\n</LABEL>\n<CATEGORY id=\"0\" title=\"cat\" desc=\"d\">\n</CATEGORY>\n");
    if (where == 8 || where == 9) { P_("<LABEL id=\"L1\" title=\"T"); X_(8); P_("\" desc=\"d"); X_(9); P_("\">\n</LABEL>\n"); }
    for (int i = 0; i < MORELAB; i++) { P_("<LABEL id=\"q"); in[n++] = 'a' + i; P_("\" title=\"Q"); in[n++] = 'a' + i; P_("\" desc=\"more\">\n</LABEL>\n"); }
    for (int i = 0; i < MORELAB; i++) { P_("<CATEGORY id=\"c"); in[n++] = 'a' + i; P_("\" title=\"C"); in[n++] = 'a' + i; P_("\" desc=\"more\">\n</CATEGORY>\n"); }
    int ns = sym_choose(nm2("ns", y, -1), 1, NSPK), seq = 0;
#ifdef MANY
    for (int s = 0; s < MANY; s++) { P_("<SPEAKER id=\"m"); in[n++] = 'a' + s; P_("\">\n"); for (int p = 0; p < (s == 3 ? MANYP : 1); p++) { P_("<PATH id=\"(m"); in[n++] = 'a' + s; P_("_"); in[n++] = 'a' + p % 26; P_(")\" word_cnt=\"1\" sequence=\"9\">\nS,\"x\",\"y\"\n</PATH>\n"); } P_("</SPEAKER>\n"); }
#endif
    for (int s = 0; s < ns; s++) {
      P_("<SPEAKER id=\"sp"); in[n++] = '1' + s; X_(3); P_("\">\n");
      int np = sym_choose(nm2("np", y * NSPK + s, -1), 1, NP);
      for (int p = 0; p < np; p++) { int nt = sym_choose(nm2("nt", (y * NSPK + s) * NP + p, -1), 0, NT), at = ATTR ? sym_choose(nm2("at", (y * NSPK + s) * NP + p, -1), 0, ATTR) : 0, aux = 0;
        if (ALLON) { at = 127; aux = AUXM; } else for (int b = 0; b < 6; b++) if (AUXM >> b & 1) aux |= sym_choose(nm2("ax", b, (y * NSPK + s) * NP + p), 0, 1) << b;
        char id[16] = "(sp1_1)"; id[3] += s; id[5] += p; P_("<PATH id=\""); P_(id); X_(4); P_("\" word_cnt=\""); dec(nt + PADW); P_("\""); if (where >= 5 && where <= 7) at |= 7;
        if (at & 1) { P_(lb > 1 ? " labels=\"<o,f1" : " labels=\"<o"); X_(5); P_(">\""); } if (at & 2) { P_(" file=\"f1"); X_(6); P_("\""); } if (at & 4) { P_(" channel=\"a"); X_(7); P_("\""); }
        P_(" sequence=\""); dec(ALLON ? 100 + seq++ : seq++); P_("\"");
        if (at & 8) P_(" R_T1=\"0.500\" R_T2=\"1.750\""); if (at & 64) { P_(" H_T1=\""); num(nm2("ha", p, -1), 0); P_("\" H_T2=\""); num(nm2("hb", p, -1), 0); P_("\""); } if (at & 32) P_(" char_align=\"1\""); if (at & 16) P_(" case_sense=\"1\"");
        if (aux & 32) P_(" hyp_weight=\"1\""); if (aux & 16) P_(" ref_weight=\"1\"");
        if (aux) { static const char *A[] = {"r_t1+t2", "h_t1+t2", "r_conf", "h_conf", "r_weight", "h_weight"}; int f = 0; P_(" word_aux=\""); for (int b = 0; b < 6; b++) if (aux >> b & 1) { if (f++) P_(","); P_(A[b]); } P_("\""); }
        P_(">\n"); for (int t = 0; t < PADW; t++) { static const char *PT[] = {"C,\"a\",\"a\"", "S,\"ab\",\"b:c\"", "D,\"d,e\",", "I,,\"i\""}; if (t) P_(":"); P_(PT[t % 4]); }
        for (int t = 0; t < nt; t++) { if (t || PADW) P_(":"); tok_(y, s, p, t, aux); } P_("\n</PATH>\n"); }
      P_("</SPEAKER>\n"); }
    P_("</SYSTEM>\n"); }
  start[NSYS] = n; rt_stdin(in, n); rt_capture_stdout(1);
#ifdef REP
  char *av[] = {"sclite", "-P", "-o", "rsum", "stdout", 0};
#elif defined(PIPE)
  char *av[] = {"sclite", "-P", "-p", 0};
#else
  char *av[] = {"sclite", "-P", "-o", "sgml", "stdout", 0};
#endif
  __sym_check(run_tool(av) == 0, "a well-formed record is read");
  size_t len; const char *o = rt_stdout(&len);
#ifdef REP
  const char *q = in;
  for (int y = 0; y < NSYS; y++) { __sym_check(parse_system(&q, &S), "record");
    while (*o && !starts(o, "|----") && !(starts(o, "  ") && strstr(o, "SPKR") == 0)) o++;
    const char *tb = strstr(o, "SPKR"); __sym_check(tb != 0, "each system has a report"); cnt T = {0};
    for (int s = 0; s < S.nspk; s++) { cnt k = {0}; int ns = 0, er = 0; double v[16]; for (int p = 0; p < S.np; p++) if (S.p[p].spkno == s) { cnt b = {0}; tally(&S.p[p], &b); ns++; er += b.s + b.d + b.i > 0; k.c += b.c; k.s += b.s; k.d += b.d; k.i += b.i; }
      __sym_check(table_row(tb, S.spk[s], v, 16) == 8, "every speaker has a row");
      __sym_check(v[0] == ns && v[1] == k.c + k.s + k.d && v[2] == k.c && v[3] == k.s && v[4] == k.d && v[5] == k.i && v[6] == k.s + k.d + k.i && v[7] == er, "reports of a record read in are the tally of its alignments"); }
    o = strstr(tb, "Median"); __sym_check(o != 0, "the report is complete"); }
#else
  int bad = 0; __sym_check(len == n, "the record written has the size of the one read");
  for (int i = 0; i < n; i++) bad |= o[i] ^ in[i];
  __sym_check(!bad, "a record that is read and written again is unchanged");
#endif
  __sym_reach("end");
}
