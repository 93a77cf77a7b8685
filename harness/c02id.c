/* speaker names from ids of each supported kind */
#include "sgm.h"
static ssys S;
static const char *kinds[] = {"rm", "swb", "spu_id", "wsj", "sp"};
void harness(void) {
  int kd = sym_choose("kind", 0, 4), L = sym_choose("len", 4, LMAX);
  char id[16]; int p1 = -1, p2 = -1; id[0] = '(';
  static const char al[] = "ab-_";
  for (int i = 0; i < L; i++) { int v = sym_range(nm2("c", i, -1), 0, 3); id[1 + i] = v == 0 ? 'a' : v == 1 ? 'B' : v == 2 ? '-' : '_'; }
  id[1 + L] = ')'; id[2 + L] = 0;
  char ex[16]; int n = 0;
  if (kd <= 2) {
    int cut = -1; for (int i = 1; i <= L && cut < 0; i++) if (id[i] == '-') cut = i;
    for (int i = 1; i <= L && cut < 0; i++) if (id[i] == '_') cut = i;
    __sym_assume(cut > 0);
    for (int i = 1; i < cut; i++) ex[n++] = id[i];
  } else if (kd == 3) for (int i = 1; i <= 3; i++) ex[n++] = id[i];
  else for (int i = 0; i < L + 2; i++) ex[n++] = id[i];
  ex[n] = 0;
  char rb[64], hb[64]; int a = 0, b = 0; a = put(rb, a, "x y "); a = put(rb, a, id); a = put(rb, a, "\n"); b = put(hb, b, "x "); b = put(hb, b, id); b = put(hb, b, "\n");
  vfs_put("ref.trn", rb, a); vfs_put("hyp.trn", hb, b); rt_capture_stdout(1);
  char *av[] = {"sclite", "-r", "ref.trn", "trn", "-h", "hyp.trn", "trn", "-i", (char *)kinds[kd], "-o", "sgml", "stdout", 0};
  __sym_check(run_tool(av) == 0, "scoring well-formed transcripts succeeds");
  size_t len; const char *o = rt_stdout(&len);
  __sym_check(parse_system(&o, &S) && S.np == 1 && S.nspk == 1, "one utterance of one speaker is scored");
  for (int i = 0; i < L + 3; i++) { char c = id[i]; if (c == 'B') c = 'b'; __sym_check(S.p[0].id[i] == c, "the id is kept"); if (!c) break; }
  for (int i = 0; i <= n; i++) { char c = ex[i]; if (c == 'B') c = 'b'; __sym_check(S.spk[0][i] == c, "the speaker name is the id part its kind defines"); }
  __sym_check(S.p[0].n == 2 && S.p[0].t[0].type == 'C' && S.p[0].t[1].type == 'D', "the utterance is aligned");
  __sym_reach("end");
}
