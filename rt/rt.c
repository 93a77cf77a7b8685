/* Deterministic C runtime for symbolic execution: memory, strings, ctype, stdio over a
   virtual file system. Written in plain C so that the executor interprets it like any other code. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include "symx.h"
void *__sym_malloc(size_t n, int fill); void __sym_free(void *p); size_t __sym_objsize(const void *p);
int __sym_fmtd(char *b, size_t cap, const char *f, double d); size_t __sym_strlen(const char *s); int __sym_strcmp(const char *a, const char *b);
double __sym_strtod(const char *s, char **e); void __sym_puts(const char *p, size_t n);
#undef errno
static int rt_errno; int *__errno_location(void) { return &rt_errno; }
/* ---- memory */
void *malloc(size_t n) { return __sym_malloc(n, 0xA5); }
void *calloc(size_t a, size_t b) { return __sym_malloc(a * b, 0); }
void free(void *p) { __sym_free(p); }
void cfree(void *p) { __sym_free(p); }
void *memcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return d; }
void *memmove(void *d, const void *s, size_t n) { __builtin_memmove(d, s, n); return d; }
void *mempcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return (char *)d + n; }
void *memset(void *d, int c, size_t n) { __builtin_memset(d, c, n); return d; }
void bzero(void *d, size_t n) { __builtin_memset(d, 0, n); }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); void *q = malloc(n); size_t o = __sym_objsize(p); __builtin_memcpy(q, p, o < n ? o : n); free(p); return q; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
/* ---- strings */
size_t strlen(const char *s) { size_t n = __sym_strlen(s); if (n != (size_t)-1) return n; n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t n = strlen(s); __builtin_memmove(d, s, n + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); __builtin_memmove(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
int strcmp(const char *a, const char *b) { int r = __sym_strcmp(a, b); if (r != 2) return r; for (size_t i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; } }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; } return 0; }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (((c | 32) >= 'a') & ((c | 32) <= 'f')); }
int tolower(int c) { return c + (((c >= 'A') & (c <= 'Z')) << 5); }
int toupper(int c) { return c - (((c >= 'a') & (c <= 'z')) << 5); }
int strcasecmp(const char *a, const char *b) { int r = __sym_strcmp(a, b); if (r == 0) return 0; for (size_t i = 0;; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!a[i]) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!a[i]) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strdup(const char *s) { size_t n = strlen(s); char *p = malloc(n + 1); __builtin_memcpy(p, s, n + 1); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p; }
static char *tokp;
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
char *strerror(int e) { return "error"; }
/* ---- numbers */
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static unsigned long parse_ul(const char *s, char **e, int base, int *neg) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  *neg = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; const char *st = p; int any = 0;
  for (;; p++) { int d, c = (unsigned char)*p; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; v = v * base + d; any = 1; }
  if (e) *e = (char *)(any ? p : s); return v; }
long strtol(const char *s, char **e, int b) { int n; unsigned long v = parse_ul(s, e, b, &n); return n ? -(long)v : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int n; unsigned long v = parse_ul(s, e, b, &n); return n ? -v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
double strtod(const char *s, char **e) { return __sym_strtod(s, e); }
float strtof(const char *s, char **e) { return (float)__sym_strtod(s, e); }
double atof(const char *s) { return __sym_strtod(s, 0); }
static void msort(char *a, size_t n, size_t w, int (*c)(const void *, const void *), char *t) {
  if (n < 2) return; size_t m = n / 2; msort(a, m, w, c, t); msort(a + m * w, n - m, w, c, t);
  size_t i = 0, j = m, k = 0; while (i < m && j < n) { if (c(a + i * w, a + j * w) <= 0) __builtin_memcpy(t + k++ * w, a + i++ * w, w); else __builtin_memcpy(t + k++ * w, a + j++ * w, w); }
  while (i < m) __builtin_memcpy(t + k++ * w, a + i++ * w, w); while (j < n) __builtin_memcpy(t + k++ * w, a + j++ * w, w); __builtin_memcpy(a, t, n * w); }
void qsort(void *a, size_t n, size_t w, int (*c)(const void *, const void *)) { if (n < 2) return; char *t = malloc(n * w); msort(a, n, w, c, t); free(t); }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)b + m * w; int r = c(k, p); if (r == 0) return (void *)p; if (r < 0) hi = m; else lo = m + 1; } return 0; }
static unsigned long rnd = 12345; int rand(void) { rnd = rnd * 6364136223846793005UL + 1442695040888963407UL; return (int)(rnd >> 33) & 0x7fffffff; } void srand(unsigned s) { rnd = s; }
long random(void) { return rand(); } double drand48(void) { return rand() / 2147483648.0; }
/* ---- process */
void exit(int c) { __sym_exit(c); }
void _exit(int c) { __sym_exit(c); }
void abort(void) { __sym_fail("abort", "abort() called"); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { __sym_fail("assert", e); }
void __assert(const char *e, const char *f, int l) { __sym_fail("assert", e); }
int atexit(void (*f)(void)) { return 0; }
char *getenv(const char *n) { return 0; }
int getpid(void) { return 4242; }
time_t time(time_t *t) { if (t) *t = 1000000000; return 1000000000; }
char *ctime(const time_t *t) { static char b[] = "Sun Sep  9 01:46:40 2001\n"; return b; }
char *asctime(const struct tm *t) { return ctime(0); }
struct tm *localtime(const time_t *t) { static struct tm x; return &x; }
struct tm *gmtime(const time_t *t) { static struct tm x; return &x; }
size_t strftime(char *s, size_t m, const char *f, const struct tm *t) { s[0] = 0; return 0; }
unsigned sleep(unsigned n) { return 0; }
int system(const char *c) { return -1; }
char *setlocale(int c, const char *l) { return "C"; }
clock_t clock(void) { return 0; }
/* ---- virtual files */
struct vf { char *name; char *data; size_t len, cap; };
struct rtf { struct vf *v; size_t pos; int rd, wr, eof, discard, unget; };
#define NVF 64
static struct vf vfs[NVF]; static int nvf;
static struct vf v_in = {"<stdin>"}, v_out = {"<stdout>"}, v_err = {"<stderr>"};
static struct rtf f_in = {&v_in, 0, 1, 0, 0, 0, -1}, f_out = {&v_out, 0, 0, 1, 0, 1, -1}, f_err = {&v_err, 0, 0, 1, 0, 1, -1};
#undef stdin
#undef stdout
#undef stderr
FILE *stdin = (FILE *)&f_in, *stdout = (FILE *)&f_out, *stderr = (FILE *)&f_err;
#define F(f) ((struct rtf *)(f))
static struct vf *vfind(const char *n) { for (int i = 0; i < nvf; i++) if (vfs[i].name && !strcmp(vfs[i].name, n)) return &vfs[i]; return 0; }
static struct vf *vmake(const char *n) { struct vf *v = vfind(n); if (!v) { if (nvf >= NVF) __sym_fail("limit", "virtual file table full"); v = &vfs[nvf++]; v->name = strdup(n); v->data = 0; v->cap = 0; } v->len = 0; return v; }
static void vreserve(struct vf *v, size_t need) { if (need <= v->cap) return; size_t c = v->cap ? v->cap * 2 : 256; while (c < need) c *= 2; char *d = malloc(c); if (v->data) { __builtin_memcpy(d, v->data, v->len); free(v->data); } v->data = d; v->cap = c; }
void vfs_put(const char *n, const char *d, size_t len) { struct vf *v = vmake(n); vreserve(v, len + 1); __builtin_memcpy(v->data, d, len); v->data[len] = 0; v->len = len; }
char *vfs_get(const char *n, size_t *len) { struct vf *v = vfind(n); if (!v) return 0; vreserve(v, v->len + 1); v->data[v->len] = 0; if (len) *len = v->len; return v->data; }
void rt_capture_stdout(int on) { f_out.discard = !on; }
char *rt_stdout(size_t *len) { vreserve(&v_out, v_out.len + 1); v_out.data[v_out.len] = 0; if (len) *len = v_out.len; return v_out.data; }
void rt_stdin(const char *d, size_t n) { vreserve(&v_in, n + 1); __builtin_memcpy(v_in.data, d, n); v_in.len = n; f_in.pos = 0; f_in.eof = 0; }
FILE *fopen(const char *n, const char *m) {
  struct vf *v; struct rtf *f;
  if (!n) return 0;
  if (m[0] == 'r') { v = vfind(n); if (!v) { rt_errno = 2; return 0; } } else if (m[0] == 'a') { v = vfind(n); if (!v) v = vmake(n); } else v = vmake(n);
  f = malloc(sizeof *f); f->v = v; f->pos = m[0] == 'a' ? v->len : 0; f->rd = m[0] == 'r'; f->wr = m[0] != 'r'; f->eof = 0; f->discard = 0; f->unget = -1; return (FILE *)f; }
FILE *popen(const char *c, const char *m) { return 0; }
int pclose(FILE *f) { return -1; }
int fclose(FILE *f) { if (f != stdin && f != stdout && f != stderr) free(f); return 0; }
int fflush(FILE *f) { return 0; }
int feof(FILE *f) { return F(f)->eof; }
int ferror(FILE *f) { return 0; }
void clearerr(FILE *f) { F(f)->eof = 0; }
void rewind(FILE *f) { F(f)->pos = 0; F(f)->eof = 0; F(f)->unget = -1; }
long ftell(FILE *f) { return F(f)->pos; }
int fseek(FILE *f, long o, int w) { struct rtf *r = F(f); r->pos = w == 0 ? o : w == 1 ? r->pos + o : r->v->len + o; r->eof = 0; r->unget = -1; return 0; }
int fileno(FILE *f) { return 3; }
int isatty(int f) { return 0; }
void setbuf(FILE *f, char *b) {}
int setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
int fgetc(FILE *f) { struct rtf *r = F(f); if (r->unget >= 0) { int c = r->unget; r->unget = -1; return c; } if (r->pos >= r->v->len) { r->eof = 1; return -1; } return (unsigned char)r->v->data[r->pos++]; }
#undef getc
#undef getchar
#undef putc
#undef putchar
int getc(FILE *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE *f) { F(f)->unget = c; F(f)->eof = 0; return c; }
char *fgets(char *b, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
size_t fread(void *p, size_t s, size_t n, FILE *f) { size_t t = s * n, i = 0; for (; i < t; i++) { int c = fgetc(f); if (c < 0) break; ((char *)p)[i] = c; } return s ? i / s : 0; }
static void fput(struct rtf *r, const char *p, size_t n) { if (r->discard) { return; } struct vf *v = r->v; vreserve(v, v->len + n + 1); __builtin_memcpy(v->data + v->len, p, n); v->len += n; r->pos = v->len; __sym_puts(p, n); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { fput(F(f), p, s * n); return n; }
int fputc(int c, FILE *f) { char b = c; fput(F(f), &b, 1); return c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { fput(F(f), s, strlen(s)); return 1; }
int puts(const char *s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
void perror(const char *s) {}
int unlink(const char *n) { struct vf *v = vfind(n); if (!v) return -1; v->name = ""; return 0; }
int remove(const char *n) { return unlink(n); }
int access(const char *n, int m) { return vfind(n) ? 0 : -1; }
int stat(const char *n, struct stat *st) { struct vf *v = vfind(n); if (!v) return -1; __builtin_memset(st, 0, sizeof *st); st->st_mode = 0100644; st->st_size = v->len; return 0; }
/* ---- printf */
struct sink { char *b; size_t cap, n; struct rtf *f; };
static void sput(struct sink *k, const char *p, size_t n) {
  if (k->f) { fput(k->f, p, n); k->n += n; return; }
  if (k->n < k->cap) { size_t m = k->cap - k->n; if (n < m) m = n; __builtin_memcpy(k->b + k->n, p, m); }
  k->n += n; }
static void spad(struct sink *k, char c, int n) { for (; n > 0; n--) sput(k, &c, 1); }
static void vfmt(struct sink *k, const char *f, va_list ap) {
  for (; *f;) {
    const char *st = f; while (*f && *f != '%') f++; if (f != st) sput(k, st, f - st); if (!*f) break;
    const char *spec = f; f++;
    int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h' || *f == 'L') ; else break; }
    char c = *f++;
    switch (c) {
    case '%': sput(k, "%", 1); break;
    case 'c': { char ch = (char)va_arg(ap, int); if (!left) spad(k, ' ', width - 1); sput(k, &ch, 1); if (left) spad(k, ' ', width - 1); break; }
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t n; if (prec >= 0) n = strnlen(s, prec); else n = strlen(s); if (!left) spad(k, ' ', width - (int)n); sput(k, s, n); if (left) spad(k, ' ', width - (int)n); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long v; int neg = 0; char b[32]; int n = 0; int base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10;
      if (c == 'p') { v = va_arg(ap, unsigned long); alt = 1; } else if (c == 'd' || c == 'i') { long t = lng ? va_arg(ap, long) : va_arg(ap, int); t = (long)__sym_concretize(t); if (t < 0) { neg = 1; v = -(unsigned long)t; } else v = t; } else { v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); v = __sym_concretize(v); }
      do { int d = v % base; b[n++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
      while (n < prec && n < 30) b[n++] = '0';
      char pre[4]; int pn = 0; if (neg) pre[pn++] = '-'; else if (plus && (c == 'd' || c == 'i')) pre[pn++] = '+'; else if (sp && (c == 'd' || c == 'i')) pre[pn++] = ' '; if (alt && base == 16) { pre[pn++] = '0'; pre[pn++] = 'x'; }
      int tot = n + pn; if (!left && !(zero && prec < 0)) spad(k, ' ', width - tot); sput(k, pre, pn); if (!left && zero && prec < 0) spad(k, '0', width - tot);
      char o[32]; for (int i = 0; i < n; i++) o[i] = b[n - 1 - i]; sput(k, o, n); if (left) spad(k, ' ', width - tot); break; }
    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
      char fm[64], b[512]; int i = 0; fm[i++] = '%'; if (left) fm[i++] = '-'; if (zero) fm[i++] = '0'; if (plus) fm[i++] = '+'; if (sp) fm[i++] = ' '; if (alt) fm[i++] = '#';
      { char t[12]; int m = 0, w = width; do { t[m++] = '0' + w % 10; w /= 10; } while (w); if (width) while (m) fm[i++] = t[--m]; }
      if (prec >= 0) { fm[i++] = '.'; char t[12]; int m = 0, w = prec; do { t[m++] = '0' + w % 10; w /= 10; } while (w); while (m) fm[i++] = t[--m]; }
      fm[i++] = c; fm[i] = 0; int n = __sym_fmtd(b, sizeof b, fm, va_arg(ap, double)); sput(k, b, n); break; }
    case 'n': *va_arg(ap, int *) = (int)k->n; break;
    default: sput(k, spec, f - spec); break;
    } } }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { struct sink k = {b, n, 0, 0}; vfmt(&k, f, ap); if (n) b[k.n < n ? k.n : n - 1] = 0; return (int)k.n; }
int vsprintf(char *b, const char *f, va_list ap) { struct sink k = {b, (size_t)1 << 40, 0, 0}; vfmt(&k, f, ap); b[k.n] = 0; return (int)k.n; }
int vfprintf(FILE *s, const char *f, va_list ap) { if (F(s)->discard) return 0; struct sink k = {0, 0, 0, F(s)}; vfmt(&k, f, ap); return (int)k.n; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int fprintf(FILE *s, const char *f, ...) { if (F(s)->discard) return 0; va_list ap; va_start(ap, f); int r = vfprintf(s, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { if (f_out.discard) return 0; va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
/* ---- scanf (string and file sources) */
struct src { const char *s; FILE *f; int un; };
static int sg(struct src *q) { if (q->un != -2) { int c = q->un; q->un = -2; return c; } if (q->f) return fgetc(q->f); return *q->s ? (unsigned char)*q->s++ : -1; }
static void su(struct src *q, int c) { q->un = c; }
static int vscan(struct src *q, const char *f, va_list ap) {
  int cnt = 0, c, nread = 0;
#define G() (nread++, sg(q))
#define U(c) (nread--, su(q, c))
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { do c = G(); while (c >= 0 && isspace(c)); U(c); continue; }
    if (*f != '%') { c = G(); if (c != (unsigned char)*f) { U(c); if (c < 0 && !cnt) return -1; return cnt; } continue; }
    f++; int sup = 0, width = 0, lng = 0, sh = 0; if (*f == '*') { sup = 1; f++; } while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    for (;; f++) { if (*f == 'l' || *f == 'z') lng++; else if (*f == 'h') sh++; else if (*f == 'L') lng++; else break; }
    switch (*f) {
    case '%': do c = G(); while (c >= 0 && isspace(c)); if (c != '%') { U(c); return cnt ? cnt : (c < 0 ? -1 : 0); } break;
    case 'n': *va_arg(ap, int *) = nread; break;
    case 'c': { char *d = sup ? 0 : va_arg(ap, char *); int w = width ? width : 1; for (int i = 0; i < w; i++) { c = G(); if (c < 0) { U(c); return cnt ? cnt : -1; } if (d) d[i] = c; } if (!sup) cnt++; break; }
    case 's': { do c = G(); while (c >= 0 && isspace(c)); if (c < 0) { U(c); return cnt ? cnt : -1; } char *d = sup ? 0 : va_arg(ap, char *); int i = 0; while (c >= 0 && !isspace(c) && (!width || i < width)) { if (d) d[i] = c; i++; c = G(); } U(c); if (d) { d[i] = 0; cnt++; } break; }
    case '[': { f++; int inv = 0; if (*f == '^') { inv = 1; f++; } char set[256]; int n = 0; do { if (f[1] == '-' && f[2] && f[2] != ']') { for (int x = (unsigned char)f[0]; x <= (unsigned char)f[2]; x++) set[n++] = x; f += 3; } else set[n++] = *f++; } while (*f && *f != ']');
      char *d = sup ? 0 : va_arg(ap, char *); int i = 0; for (;;) { if (width && i >= width) break; c = G(); if (c < 0) { U(c); break; } int hit = 0; for (int k = 0; k < n; k++) if ((unsigned char)set[k] == c) { hit = 1; break; } if (hit == inv) { U(c); break; } if (d) d[i] = c; i++; } if (!i) { if (c < 0 && !cnt) return -1; return cnt; } if (d) { d[i] = 0; cnt++; } break; }
    case 'd': case 'i': case 'u': case 'x': { do c = G(); while (c >= 0 && isspace(c)); if (c < 0) { U(c); return cnt ? cnt : -1; } char b[64]; int i = 0; if (c == '-' || c == '+') { b[i++] = c; c = G(); } int dg = 0; while (c >= 0 && (*f == 'x' ? isxdigit(c) : isdigit(c)) && i < 60 && (!width || i < width)) { b[i++] = c; dg++; c = G(); } U(c); if (!dg) return cnt; b[i] = 0; long v = strtol(b, 0, *f == 'x' ? 16 : 10); if (!sup) { if (lng) *va_arg(ap, long *) = v; else if (sh) *va_arg(ap, short *) = (short)v; else *va_arg(ap, int *) = (int)v; cnt++; } break; }
    case 'f': case 'e': case 'g': { do c = G(); while (c >= 0 && isspace(c)); if (c < 0) { U(c); return cnt ? cnt : -1; } char b[64]; int i = 0, dg = 0; if (c == '-' || c == '+') { b[i++] = c; c = G(); } while (c >= 0 && isdigit(c) && i < 50) { b[i++] = c; dg++; c = G(); } if (c == '.') { b[i++] = c; c = G(); while (c >= 0 && isdigit(c) && i < 50) { b[i++] = c; dg++; c = G(); } } if (dg && (c == 'e' || c == 'E')) { b[i++] = c; c = G(); if (c == '-' || c == '+') { b[i++] = c; c = G(); } while (c >= 0 && isdigit(c) && i < 60) { b[i++] = c; c = G(); } } U(c); if (!dg) return cnt; b[i] = 0; double v = __sym_strtod(b, 0); if (!sup) { if (lng) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float)v; cnt++; } break; }
    default: return cnt;
    } }
  if (q->f && q->un >= 0) ungetc(q->un, q->f);
  return cnt; }
#undef sscanf
#undef fscanf
#define SC(nm, sym) int nm(const char *s, const char *f, ...) __asm__(sym); int nm(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); struct src q = {s, 0, -2}; int r = vscan(&q, f, ap); va_end(ap); return r; }
SC(rt_ss1, "sscanf") SC(rt_ss2, "__isoc99_sscanf") SC(rt_ss3, "__isoc23_sscanf")
#define FC(nm, sym) int nm(FILE *s, const char *f, ...) __asm__(sym); int nm(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); struct src q = {0, s, -2}; int r = vscan(&q, f, ap); va_end(ap); return r; }
FC(rt_fs1, "fscanf") FC(rt_fs2, "__isoc99_fscanf") FC(rt_fs3, "__isoc23_fscanf")
/* ---- further functions a program may use */
void *memrchr(const void *a, int c, size_t n) { const unsigned char *x = a; while (n--) if (x[n] == (unsigned char)c) return (void *)(x + n); return 0; }
void *rawmemchr(const void *a, int c) { const unsigned char *x = a; while (*x != (unsigned char)c) x++; return (void *)x; }
void *memmem(const void *h, size_t hn, const void *d, size_t dn) { const char *p = h; for (; dn <= hn; p++, hn--) if (!memcmp(p, d, dn)) return (void *)p; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void bcopy(const void *s, void *d, size_t n) { __builtin_memmove(d, s, n); }
char *stpncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; char *e = d + i; for (; i < n; i++) d[i] = 0; return e; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n ? l : n - 1; __builtin_memcpy(d, s, k); d[k] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t k = strnlen(d, n); if (k == n) return k + strlen(s); return k + strlcpy(d + k, s, n - k); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncasecmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
size_t strxfrm(char *d, const char *s, size_t n) { return strlcpy(d, s, n); }
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
void *aligned_alloc(size_t a, size_t n) { return malloc(n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = malloc(n); return 0; }
long long llabs(long long x) { return x < 0 ? -x : x; }
long long atoll(const char *s) { return strtol(s, 0, 10); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
double floor(double), sqrt(double), fabs(double), rint(double), round(double), trunc(double);
long lround(double x) { return (long)round(x); }
long long llround(double x) { return (long long)round(x); }
long lrint(double x) { return (long)rint(x); }
long long llrint(double x) { return (long long)rint(x); }
double nearbyint(double x) { return rint(x); }
double hypot(double x, double y) { return sqrt(x * x + y * y); }
double fdim(double x, double y) { return x > y ? x - y : 0.0; }
double modf(double x, double *i) { *i = trunc(x); return x - *i; }
float truncf(float x) { return (float)trunc(x); }
int vsscanf(const char *s, const char *f, va_list ap) { struct src q = {s, 0, -2}; return vscan(&q, f, ap); }
int __isoc23_vsscanf(const char *s, const char *f, va_list ap) { return vsscanf(s, f, ap); }
int vasprintf(char **p, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(0, 0, f, c); va_end(c); *p = malloc((size_t)n + 1); return vsnprintf(*p, (size_t)n + 1, f, ap); }
int asprintf(char **p, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(p, f, ap); va_end(ap); return r; }
ssize_t getdelim(char **l, size_t *cap, int d, FILE *f) { size_t n = 0; if (!*l) { *cap = 128; *l = malloc(*cap); } for (;;) { int c = fgetc(f); if (c < 0) break; if (n + 2 > *cap) { *cap *= 2; *l = realloc(*l, *cap); } (*l)[n++] = (char)c; if (c == d) break; } if (!n) return -1; (*l)[n] = 0; return (ssize_t)n; }
ssize_t getline(char **l, size_t *cap, FILE *f) { return getdelim(l, cap, '\n', f); }
ssize_t __getdelim(char **l, size_t *cap, int d, FILE *f) { return getdelim(l, cap, d, f); }
int fseeko(FILE *f, off_t o, int w) { return fseek(f, o, w); }
off_t ftello(FILE *f) { return ftell(f); }
#undef getc_unlocked
#undef putc_unlocked
#undef fgetc_unlocked
#undef feof_unlocked
#undef putchar_unlocked
int getc_unlocked(FILE *f) { return fgetc(f); }
int fgetc_unlocked(FILE *f) { return fgetc(f); }
int putc_unlocked(int c, FILE *f) { return fputc(c, f); }
int putchar_unlocked(int c) { return fputc(c, stdout); }
int feof_unlocked(FILE *f) { return feof(f); }
int _IO_getc(FILE *f) { return fgetc(f); }
int _IO_putc(int c, FILE *f) { return fputc(c, f); }
int rename(const char *a, const char *b) { struct vf *v = vfind(a); if (!v) return -1; struct vf *o = vfind(b); if (o && o != v) o->name = ""; v->name = strdup(b); return 0; }
FILE *tmpfile(void) { static int n; char b[24]; int k = 0; const char *s = "<tmp0>"; while ((b[k] = s[k])) k++; b[4] = (char)('0' + n++ % 10); return fopen(b, "w"); }
void quick_exit(int c) { __sym_exit(c); }
int raise(int s) { __sym_fail("abort", "raise() called"); return 0; }
