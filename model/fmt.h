/* fmt.h - printf formatting to stream w through m_emit, or to buf when w < 0. */
void m_emit(int w, const char *s, size_t n);
static int m_format(int w, char *buf, size_t cap, const char *f, va_list ap) { /* to stream w, or to buf when w < 0 */
  size_t tot = 0; char tmp[32]; const char *s; size_t n, i; char pad; int width, lng, prec;
#define PUT(p, k) do { size_t k_ = (k); const char *p_ = (p); if (w >= 0) m_emit(w, p_, k_); else for (i = 0; i < k_; i++) if (tot + i + 1 < cap) buf[tot + i] = p_[i]; tot += k_; } while (0)
  while (*f) {
    for (n = 0; f[n] && f[n] != '%'; n++) {}
    if (n) { PUT(f, n); f += n; continue; }
    f++; pad = ' '; width = 0; lng = 0; prec = -1; while (*f == '0') { pad = '0'; f++; }
    if (*f == '*') { width = va_arg(ap, int); f++; } while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); } }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') lng = 1; f++; }
    switch (*f++) {
      case '%': PUT("%", 1); break;
      case 'c': tmp[0] = (char)va_arg(ap, int); PUT(tmp, 1); break;
      case 's': s = va_arg(ap, const char *); for (n = 0; (prec < 0 || n < (size_t)prec) && s[n]; n++) {} PUT(s, n); break;
      case 'd': case 'i': case 'u': case 'x': case 'X': {
        char c = f[-1]; int hex = c == 'x' || c == 'X', neg = 0; unsigned long v; int k = 31;
        if (c == 'd' || c == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long)x : (unsigned long)x; } else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        do { unsigned d = hex ? v & 15 : (unsigned)(v % 10); tmp[k--] = (char)(d + (d < 10 ? '0' : (c == 'X' ? 'A' : 'a') - 10)); v = hex ? v >> 4 : v / 10; } while (sx_concretize(v) != 0);
        while (31 - k < width && k > 0 && pad == '0') tmp[k--] = '0';
        if (neg) tmp[k--] = '-';
        while (31 - k < width && k > 0) tmp[k--] = ' ';
        PUT(tmp + k + 1, 31 - k); break; }
      default: sx_fail("model: unknown format"); return -1;
    }
  }
  if (w < 0 && cap) buf[tot < cap ? tot : cap - 1] = 0;
  return (int)tot;
}
