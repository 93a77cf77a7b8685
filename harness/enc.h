/* characters of the supported encodings, symbolic, and the case folding each encoding and localization calls for */
#ifndef ENC_H
#define ENC_H
#include "sc.h"
#ifndef LP
#define LP 0
#endif
#if LP
#include "alphabets.h"
#endif
#ifndef L2LO
#define L2LO 0xC2
#define L2HI 0xDF
#endif
#ifndef L3LO
#define L3LO 0xE1
#define L3HI 0xEC
#endif
enum { K_ASCII = 1, K_TWO = 2, K_THREE = 4, K_GB = 8, K_EXT = 16, K_FOUR = 32, K_HYPHEN = 64, K_GTILDE = 128 };
typedef struct { int kind, n; unsigned char b[4]; } chr;
static void mkchr(chr *c, const char *pre, int i, int j, int mask) {
  int kinds[8], nk = 0; for (int k = 1; k <= 128; k <<= 1) if (mask & k) kinds[nk++] = k;
  char base[24]; int n = put(base, 0, pre); base[n++] = '0' + i; base[n] = 0;
  c->kind = kinds[nk > 1 ? sym_choose(nm2(base, j, 9), 0, nk - 1) : 0];
  if (c->kind == K_ASCII) { c->n = 1; int v = sym_range(nm2(base, j, 0), 0, 2 * NLET - 1); c->b[0] = (unsigned char)(v + 'A' + (v >= NLET ? 32 - NLET : 0)); }
  else if (c->kind == K_HYPHEN) { c->n = 1; c->b[0] = '-'; }
  else if (c->kind == K_GTILDE) { c->n = 3; c->b[0] = (unsigned char)('G' + 32 * sym_range(nm2(base, j, 0), 0, 1)); c->b[1] = 0xCC; c->b[2] = 0x83; }
  else if (c->kind == K_TWO) { c->n = 2; c->b[0] = (unsigned char)sym_range(nm2(base, j, 0), L2LO, L2HI); c->b[1] = (unsigned char)sym_range(nm2(base, j, 1), 0x80, 0xBF); }
  else if (c->kind == K_THREE) { c->n = 3; c->b[0] = (unsigned char)sym_range(nm2(base, j, 0), L3LO, L3HI); c->b[1] = (unsigned char)sym_range(nm2(base, j, 1), 0x80, 0xBF); c->b[2] = (unsigned char)sym_range(nm2(base, j, 2), 0x80, 0xBF); }
  else if (c->kind == K_FOUR) { c->n = 4; c->b[0] = (unsigned char)sym_range(nm2(base, j, 0), 0xF0, 0xF1); c->b[1] = (unsigned char)sym_range(nm2(base, j, 1), 0x90, 0xBF); c->b[2] = (unsigned char)sym_range(nm2(base, j, 2), 0x80, 0xBF); c->b[3] = (unsigned char)sym_range(nm2(base, j, 3), 0x80, 0xBF); }
  else if (c->kind == K_GB) { c->n = 2; c->b[0] = (unsigned char)sym_range(nm2(base, j, 0), 0xA1, 0xFE); c->b[1] = (unsigned char)sym_range(nm2(base, j, 1), 0xA1, 0xFE); }
  else { c->n = 1; int v = sym_range(nm2(base, j, 0), 0xC0, 0xFE); __sym_assume((v != 0xD7) & (v != 0xF7) & (v != 0xDF)); c->b[0] = (unsigned char)v; }
}
static void fold(const chr *c, chr *o) { *o = *c;
  if (c->kind == K_ASCII) {
#if LP == 1
    if (c->b[0] == 'I') { o->n = 2; o->b[0] = 0xC4; o->b[1] = 0xB1; return; }
#endif
    o->b[0] = (unsigned char)(c->b[0] + 32 * ((c->b[0] >= 'A') & (c->b[0] <= 'Z'))); }
  else if (c->kind == K_GTILDE) o->b[0] = 'g';
  else if (c->kind == K_EXT) o->b[0] = (unsigned char)(c->b[0] + 32 * (c->b[0] < 0xE0));
#if LP
  else if (c->kind == K_TWO || c->kind == K_THREE) {
    unsigned cp = c->kind == K_TWO ? (c->b[0] & 0x1fu) << 6 | (c->b[1] & 0x3fu) : (c->b[0] & 15u) << 12 | (c->b[1] & 0x3fu) << 6 | (c->b[2] & 0x3fu), d = 0;
#if LP == 1
    if (c->kind == K_TWO && cp == 0x130) { o->kind = K_ASCII; o->n = 1; o->b[0] = 'i'; return; }
#endif
    for (int i = 0; ALPHA[i].up; i++) if ((c->kind == K_TWO) == (ALPHA[i].up < 0x800) && cp == ALPHA[i].up) { d = ALPHA[i].lo - ALPHA[i].up; cp = ALPHA[i].up; break; }
    cp += d;
    if (c->kind == K_TWO) { o->b[0] = (unsigned char)(0xC0 | cp >> 6); o->b[1] = (unsigned char)(0x80 | (cp & 0x3f)); }
    else { o->b[0] = (unsigned char)(0xE0 | cp >> 12); o->b[1] = (unsigned char)(0x80 | (cp >> 6 & 0x3f)); o->b[2] = (unsigned char)(0x80 | (cp & 0x3f)); } }
#endif
}
static int putchr(char *b, int n, const chr *c) { for (int i = 0; i < c->n; i++) b[n++] = (char)c->b[i]; b[n] = 0; return n; }
static void wchr(wrd *w, const chr *c) { for (int i = 0; i < c->n; i++) w->s[w->n++] = (char)c->b[i]; w->s[w->n] = 0; }
#endif
