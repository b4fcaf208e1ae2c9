/* stdio.c - the process environment of the command-line tool: output is recorded, exit unwinds. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sx.h"
#define OUTMAX (1 << 16)
char m_out[2][OUTMAX]; size_t m_outn[2]; const char *m_env_path; int m_status, m_aborted;
void m_emit(int w, const char *s, size_t n) { if (n > OUTMAX - m_outn[w]) { sx_fail("model: too much output"); return; } memcpy(m_out[w] + m_outn[w], s, n); m_outn[w] += n; }
#include "fmt.h"
static int which(FILE *f) { return f == stderr; }
int m_printf(const char *f, ...) { va_list ap; int r; va_start(ap, f); r = m_format(0, NULL, 0, f, ap); va_end(ap); return r; }
int m_fprintf(FILE *o, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = m_format(which(o), NULL, 0, f, ap); va_end(ap); return r; }
int m_vprintf(const char *f, va_list ap) { return m_format(0, NULL, 0, f, ap); }
int m_vfprintf(FILE *o, const char *f, va_list ap) { return m_format(which(o), NULL, 0, f, ap); }
int m_puts(const char *s) { m_emit(0, s, strlen(s)); m_emit(0, "\n", 1); return 1; }
int m_putchar(int c) { char x = (char)c; m_emit(0, &x, 1); return (unsigned char)c; }
int m_fputc(int c, FILE *o) { char x = (char)c; m_emit(which(o), &x, 1); return (unsigned char)c; }
int m_putc(int c, FILE *o) { return m_fputc(c, o); }
int m_fputs(const char *s, FILE *o) { m_emit(which(o), s, strlen(s)); return 1; }
size_t m_fwrite(const void *p, size_t n, size_t k, FILE *o) { m_emit(which(o), p, n * k); return k; }
int m_ferror(FILE *o) { (void)o; return 0; }
char *m_getenv(const char *n) { return strcmp(n, "URKEL_PATH") == 0 ? (char *)m_env_path : NULL; }
void m_exit(int c) { m_status = c; sx_throw(); }
void m_perror(const char *s) { m_emit(1, s, strlen(s)); m_emit(1, ": error\n", 8); }
