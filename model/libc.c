/* libc.c - string functions for the symbolic run (replays use the C library's own). */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sx.h"
char *m_strcpy(char *d, const char *s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char *m_strcat(char *d, const char *s) { m_strcpy(d + strlen(d), s); return d; }
char *m_strncpy(char *d, const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *m_strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i; for (i = 0; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *m_strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *m_memchr(const void *s, int c, size_t n) { const unsigned char *p = s; size_t i; for (i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return NULL; }
size_t m_strnlen(const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) {} return i; }
char *m_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *m_strstr(const char *s, const char *t) { size_t n = strlen(t); for (; *s; s++) if (strncmp(s, t, n) == 0) return (char *)s; return n ? NULL : (char *)s; }
int m_isdigit(int c) { return c >= '0' && c <= '9'; }
int m_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int m_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int m_abs(int x) { return x < 0 ? -x : x; }
FILE *stdin = (FILE *)8, *stdout = (FILE *)16, *stderr = (FILE *)24;
void *m_memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return NULL; }
char *m_strndup(const char *s, size_t n) { size_t k = m_strnlen(s, n); char *p = malloc(k + 1); memcpy(p, s, k); p[k] = 0; return p; }
char *m_stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
void *m_mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void m_bzero(void *d, size_t n) { memset(d, 0, n); }
void m_explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
void *m_reallocarray(void *p, size_t n, size_t k) { return k && n > (size_t)-1 / k ? NULL : realloc(p, n * k); }
int m_strcasecmp(const char *a, const char *b) { int x, y; do { x = m_tolower((unsigned char)*a++); y = m_tolower((unsigned char)*b++); } while (x == y && x); return x - y; }
size_t m_strspn(const char *s, const char *t) { size_t n = 0; const char *p; for (; s[n]; n++) { for (p = t; *p && *p != s[n]; p++) {} if (!*p) break; } return n; }
size_t m_strcspn(const char *s, const char *t) { size_t n = 0; const char *p; for (; s[n]; n++) { for (p = t; *p && *p != s[n]; p++) {} if (*p) break; } return n; }
char *m_strpbrk(const char *s, const char *t) { s += m_strcspn(s, t); return *s ? (char *)s : NULL; }
int m_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int m_islower(int c) { return c >= 'a' && c <= 'z'; }
int m_isalpha(int c) { return m_isupper(c) || m_islower(c); }
int m_isalnum(int c) { return m_isalpha(c) || m_isdigit(c); }
int m_isxdigit(int c) { return m_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int m_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int m_isprint(int c) { return c >= 32 && c < 127; }
/* the <ctype.h> macros read these tables directly; bits as in glibc on a little-endian machine */
static unsigned short ctab[384]; static int ltab[384], utab[384]; static const unsigned short *ctp; static const int *ltp, *utp;
static void ctinit(void) {
  int c; if (ctp) return;
  for (c = 0; c < 256; c++) { ltab[c + 128] = m_tolower(c); utab[c + 128] = m_toupper(c); }
  for (c = 0; c < 128; c++) ctab[c + 128] = (unsigned short)((m_isupper(c) ? 0x100 : 0) | (m_islower(c) ? 0x200 : 0) | (m_isalpha(c) ? 0x400 : 0) | (m_isdigit(c) ? 0x800 : 0) | (m_isxdigit(c) ? 0x1000 : 0) | (m_isspace(c) ? 0x2000 : 0) | (m_isprint(c) ? 0x4000 : 0) | (m_isprint(c) && c != ' ' ? 0x8000 : 0) | (c == ' ' || c == 9 ? 1 : 0) | (c < 32 || c == 127 ? 2 : 0) | (m_isprint(c) && c != ' ' && !m_isalnum(c) ? 4 : 0) | (m_isalnum(c) ? 8 : 0));
  ctp = ctab + 128; ltp = ltab + 128; utp = utab + 128;
}
const unsigned short **m___ctype_b_loc(void) { ctinit(); return &ctp; }
const int **m___ctype_tolower_loc(void) { ctinit(); return &ltp; }
const int **m___ctype_toupper_loc(void) { ctinit(); return &utp; }
unsigned long m_strtoul(const char *s, char **e, int base) {
  unsigned long v = 0; int neg = 0, any = 0; const char *s0 = s; while (m_isspace(*s)) s++;
  if (*s == '-' || *s == '+') neg = *s++ == '-';
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && m_isxdigit(s[2])) { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10;
  for (;; s++, any = 1) { int d = m_isdigit(*s) ? *s - '0' : m_isalpha(*s) ? m_tolower(*s) - 'a' + 10 : 99; if (d >= base) break; if (__builtin_mul_overflow(v, (unsigned long)base, &v) | __builtin_add_overflow(v, (unsigned long)d, &v)) { sx_fail("model: strtoul out of range"); } }
  if (e) *e = (char *)(any ? s : s0); return neg ? -v : v;
}
long m_strtol(const char *s, char **e, int base) { return (long)m_strtoul(s, e, base); }
unsigned long long m_strtoull(const char *s, char **e, int base) { return m_strtoul(s, e, base); }
long long m_strtoll(const char *s, char **e, int base) { return (long long)m_strtoul(s, e, base); }
int m_atoi(const char *s) { return (int)m_strtol(s, NULL, 10); }
void *m_bsearch(const void *k, const void *b, size_t n, size_t w, int (*f)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = lo + (hi - lo) / 2; const char *p = (const char *)b + m * w; int r = f(k, p); if (r == 0) return (void *)p; if (r < 0) hi = m; else lo = m + 1; } return NULL; }
/* formatting; output streams exist only with stdio.c */
__attribute__((weak)) void m_emit(int w, const char *s, size_t n) { (void)w; (void)s; (void)n; sx_fail("model: no output streams"); }
#include "fmt.h"
int m_sprintf(char *b, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = m_format(-1, b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int m_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = m_format(-1, b, n, f, ap); va_end(ap); return r; }
int m_vsnprintf(char *b, size_t n, const char *f, va_list ap) { return m_format(-1, b, n, f, ap); }
int m_vsprintf(char *b, const char *f, va_list ap) { return m_format(-1, b, (size_t)1 << 30, f, ap); }
