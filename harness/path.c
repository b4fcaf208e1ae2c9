/* path.c - which directory a path names, path length limits, and what destroying a database removes (C18) */
#include "h.h"
#define MAXN 64
static char before_[MAXN][1200]; static int nb_; static urkel_t *db; static unsigned char k[2][32], v[8] = {9, 8, 7}, root_[32];
static char t_[1400], nm_[1400];
/* the documented meaning of a path: segments relative to the working directory, "." and empty ones dropped, ".." up */
static void ref_path(char *out, const char *cwd, const char *s, size_t n) {
  size_t w = 0, i, st;
  if (n == 0 || s[0] != '/') { w = strlen(cwd); memcpy(out, cwd, w); if (w == 1) w = 0; }
  for (i = 0; i < n;) {
    if (s[i] == '/') { i++; continue; }
    st = i; while (i < n && s[i] != '/') i++;
    if (i - st == 1 && s[st] == '.') continue;
    if (i - st == 2 && s[st] == '.' && s[st + 1] == '.') { while (w > 0) { w--; if (out[w] == '/') break; } continue; }
    out[w++] = '/'; memcpy(out + w, s + st, i - st); w += i - st;
  }
  if (w == 0) out[w++] = '/';
  out[w] = 0;
}
static void snap(void) { int i, r; nb_ = 0; for (i = 0; (r = m_path(i, nm_)) >= 0; i++) if (r && nb_ < MAXN) strcpy(before_[nb_++], nm_); }
static int own_number(const char *q) { uint64_t x = 0; int i; for (i = 0; i < 10; i++) { if (q[i] < '0' || q[i] > '9') return 0; x = x * 10 + (q[i] - '0'); } return q[10] == 0 && x <= 0xffffffffu; }
/* is this one of the files the library creates in directory t? */
static int own(const char *q, const char *t) {
  size_t n = strlen(t); if (n == 1) n = 0;
  if (strcmp(q, t) == 0) return 1;
  if (strncmp(q, t, n) != 0 || q[n] != '/') return 0;
  q += n + 1; return strcmp(q, "meta") == 0 || strcmp(q, "lock") == 0 || own_number(q);
}
static int was(const char *q) { int i; for (i = 0; i < nb_; i++) if (strcmp(before_[i], q) == 0) return 1; return 0; }
/* nothing but t and the library's files in it came or went; strict: nothing at all did */
static void unchanged(const char *t, int strict, const char *msg) {
  int i, r; for (i = 0; (r = m_path(i, nm_)) >= 0; i++) if (r && !was(nm_)) sx_assert(!strict && own(nm_, t), msg);
  for (i = 0; i < nb_; i++) if (!m_exists(before_[i])) sx_assert(!strict && own(before_[i], t), msg);
}
static int isdir(const char *t) { size_t n = strlen(t); strcpy(nm_, t); if (!m_exists(t)) return 0; return m_isdir(t); (void)n; }
static int parent_is_dir(const char *t) { char *p = sx_malloc(strlen(t) + 1); size_t n = strlen(t); memcpy(p, t, n + 1); while (n > 1 && p[n - 1] != '/') n--; if (n > 1) n--; p[n] = 0; return isdir(p); }
static int try_destroy(const char *s, const char *t) {
  int r, empty_after = 1, i, had = isdir(t), q; size_t n = strlen(t);
  snap(); urkel_errno = 0; r = urkel_destroy(s);
  unchanged(t, !had, "destroying removes only the files the library created");
  for (i = 0; (q = m_path(i, nm_)) >= 0; i++) if (q && strlen(nm_) > n && strncmp(nm_, t, n) == 0 && (n == 1 || nm_[n] == '/')) { empty_after = 0; sx_assert(was(nm_), "destroying leaves no new files"); }
  sx_assert(r == (had && empty_after && strcmp(t, "/") != 0), "destroying succeeds when nothing is left in the directory");
  if (r) { sx_assert(!m_exists(t), "a destroyed database is gone"); sx_reach("destroyed"); } else { sx_assert(urkel_errno == URKEL_EBADOPEN, "a refused destroy sets EBADOPEN"); sx_assert(m_exists(t) == (had || was(t)), "the directory stays when it is not empty"); sx_reach("not destroyed"); }
  sx_assert(m_open_fds() == 0, "no file is left open");
  return r;
}
static void spelling(void) {
  static char s[64]; static const char *cw[] = {"/w", "/", "/w/q"}, *pf[] = {"", "/w/", "../", "/w/d", "//", "/w/q/../", "./"}; const char *cwd = cw[sx_param("CWD", 0)]; int r, ok, isdb, i; size_t n, p; unsigned char root[32], out[1100]; size_t sz;
  m_mkdirp("/w/q"); m_fput("/w/q/f", "foreign", 7); m_fput("/w/0000000001x", "foreign", 7);
  db = urkel_open("/w/d"); sx_assert(db != NULL, "a database opens at an absolute path"); if (!db) sx_end();
  sx_assert(urkel_insert(db, k[0], v, 3) == 1, "insert succeeds"); urkel_root(db, root_); urkel_close(db);
  m_chdir(cwd);
  p = strlen(pf[sx_param("PFX", 0)]); memcpy(s, pf[sx_param("PFX", 0)], p); n = sx_range(sx_param("LO", 0), sx_param("HI", 4), "length"); sx_sym(s + p, n, "path"); n += p; for (i = p; i < (int)n; i++) sx_assume(s[i] != 0); s[n] = 0;
  ref_path(t_, cwd, s, n);
  isdb = strcmp(t_, "/w/d") == 0; ok = isdir(t_) || (!m_exists(t_) && parent_is_dir(t_));
  if (sx_param("DESTROY", 0)) {
    r = try_destroy(s, t_); if (isdb) { sx_assert(r == 1, "any spelling of its path destroys the database"); sx_reach("same database"); }
    if (!isdb) { db = urkel_open("/w/d"); sx_assert(db != NULL, "the database opens"); if (!db) sx_end(); urkel_root(db, root); sx_assert(sx_eq(root, root_, 32), "destroying another path leaves the database alone"); urkel_close(db); }
    return;
  }
  snap(); urkel_errno = 0; db = urkel_open(s);
  sx_assert((db != NULL) == ok, "a path opens exactly when it names a directory or a new name in one");
  if (!db) { sx_assert(urkel_errno == URKEL_EBADOPEN, "a refused open sets EBADOPEN"); unchanged(t_, 1, "a refused open changes nothing"); sx_reach("refused"); sx_assert(m_open_fds() == 0, "no file is left open"); return; }
  unchanged(t_, 0, "opening creates files only in the directory the path names");
  urkel_root(db, root); sx_assert(sx_eq(root, isdb ? root_ : zero32_, 32), "every spelling of a path names the same database");
  sx_reach(isdb ? "same database" : "new database");
  m_chdir("/w/q"); sx_assert(urkel_insert(db, k[1], v, 2) == 1, "insert succeeds"); urkel_root(db, root); urkel_close(db); /* the working directory at the time of opening counts */
  unchanged(t_, 0, "the library writes only in the directory the path names");
  m_chdir("/dev"); db = urkel_open(t_); sx_assert(db != NULL, "the absolute path opens the database"); if (!db) sx_end();
  { unsigned char r2[32]; urkel_root(db, r2); sx_assert(sx_eq(root, r2, 32), "every spelling of a path names the same database"); sz = 0; sx_assert(urkel_get(db, out, &sz, k[1], NULL) == 1 && sz == 2, "every spelling of a path names the same database"); }
  urkel_close(db); m_chdir(cwd);
  try_destroy(s, t_);
}
static void lengths(void) { /* a path of every length around the limit */
  static char s[10000], base[1200]; size_t n = 2, i, want, rel = (size_t)sx_param("REL", 0), pad; unsigned char root[32]; int r, x;
  strcpy(base, "/w"); while (n < 960) { base[n] = '/'; for (i = 1; i < 160; i++) base[n + i] = 'a'; n += 160; base[n] = 0; m_mkdirp(base); }
  want = sx_range(sx_param("LO", 1000), sx_param("HI", 1030), "length"); 
  memcpy(t_, base, n); t_[n] = '/'; for (i = n + 1; i < want; i++) t_[i] = 'b'; t_[want] = 0;
  if (rel) { m_chdir(base); strcpy(s, t_ + n + 1); } else strcpy(s, t_);
  if (sx_param("PAD", 0)) { /* redundant parts do not count */ pad = sx_param("PADHI", 0) ? 2 * sx_range(sx_param("PAD", 0) / 2, sx_param("PADHI", 0) / 2, "padding") + (rel ? 0 : sx_range(0, 1, "odd")) : (uint64_t)sx_param("PAD", 0); memmove(s + pad, s, strlen(s) + 1); for (i = 0; i < pad; i++) s[i] = rel ? (i % 2 ? '/' : '.') : '/'; }
  snap(); urkel_errno = 0; db = urkel_open(s); m_chdir("/w");
  if (!db) { sx_assert(want > 1000 || sx_param("PAD", 0) > 4000, "paths up to 1000 bytes are accepted"); sx_assert(urkel_errno == URKEL_EBADOPEN, "a refused open sets EBADOPEN"); unchanged(t_, 1, "an over-long path is refused without side effects"); sx_assert(m_open_fds() == 0, "no file is left open"); sx_reach("refused");
    m_mkdirp(t_); strcat(t_, "/0000000001"); m_fput(t_, "x", 1); t_[want] = 0; snap(); if (rel) m_chdir(base); r = urkel_destroy(s); m_chdir("/w"); if (!r) unchanged(t_, 1, "an over-long path is refused without side effects"); else sx_assert(!m_exists(t_), "a destroyed database is gone"); return; }
  sx_assert(want <= 1024, "paths beyond the limit are refused"); sx_reach("accepted");
  unchanged(t_, 0, "opening creates files only in the directory the path names");
  sx_assert(urkel_insert(db, k[1], v, 2) == 1, "insert succeeds"); urkel_root(db, root); urkel_close(db);
  strcpy(s, t_); strcat(s, "/4294967295"); x = (int)sx_range(0, 1, "extra"); if (x) m_fput(s, "x", 1); s[want] = 0;
  if (!x) { unsigned char r2[32]; db = urkel_open(s); sx_assert(db != NULL, "the database opens again"); if (!db) sx_end(); urkel_root(db, r2); sx_assert(sx_eq(root, r2, 32), "the same path names the same database"); urkel_close(db); }
  r = urkel_destroy(s); if (!x) sx_assert(r == 1 && !m_exists(t_), "the database can be destroyed"); sx_assert(m_open_fds() == 0, "no file is left open");
}
static void foreign(void) { /* a directory that also holds files which are not ours */
  static char p[2][64]; int i, j, nf = (int)sx_param("NF", 1), dir = (int)sx_param("DIR", 0), r, num = 0; unsigned char root[32]; size_t L[2];
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); sx_assert(urkel_insert(db, k[0], v, 3) == 1, "insert succeeds"); urkel_root(db, root_); urkel_close(db);
  for (i = 0; i < nf; i++) {
    strcpy(p[i], DB "/"); L[i] = sx_range(sx_param("LO", 1), sx_param("HI", 12), "name_length"); sx_sym(p[i] + 6, L[i], "name"); p[i][6 + L[i]] = 0;
    if (sx_param("DIGITS", 0)) for (j = 0; j < (int)sx_param("DIGITS", 0) && j < (int)L[i]; j++) p[i][6 + j] = j == 9 ? '1' : '0';
    for (j = 0; j < (int)L[i]; j++) { sx_assume(p[i][6 + j] != 0); sx_assume(p[i][6 + j] != '/'); }
    sx_assume(!(L[i] == 1 && p[i][6] == '.')); sx_assume(!(L[i] == 2 && p[i][6] == '.' && p[i][7] == '.')); sx_assume(!(L[i] == 2 && p[i][6] == '.' && p[i][7] == '.'));
    sx_assume(!m_exists(p[i])); if (own_number(p[i] + 6) || strcmp(p[i] + 6, "meta") == 0 || strcmp(p[i] + 6, "lock") == 0) num = 1;
    if (dir && !(i & 1)) m_mkdirp(p[i]); else m_fput(p[i], "foreign", 7);
  }
  snap();
  if (!num) {
    sx_reach("foreign"); db = urkel_open(DB); sx_assert(db != NULL, "foreign files do not keep the database from opening"); if (!db) sx_end();
    urkel_root(db, root); sx_assert(sx_eq(root, root_, 32), "foreign files do not change the database"); sx_assert(urkel_insert(db, k[1], v, 2) == 1, "insert succeeds"); urkel_close(db);
    unchanged(DB, 0, "opening and committing leaves foreign files alone");
  } else sx_reach("number");
  r = urkel_destroy(DB);
  unchanged(DB, 0, "destroying removes only the files the library created");
  for (i = 0; i < nf; i++) {
    int own_ = own_number(p[i] + 6) || strcmp(p[i] + 6, "meta") == 0 || strcmp(p[i] + 6, "lock") == 0, isd = dir && !(i & 1);
    if (!own_ || isd) { sx_assert(m_exists(p[i]), "destroying removes only the files the library created"); sx_assert(m_exists(DB), "a directory that is not empty stays"); sx_assert(r == 0, "destroying a directory that is not empty fails"); sx_reach("kept"); if (!isd) sx_assert(m_fsize(p[i]) == 7 && memcmp(m_fdata(p[i]), "foreign", 7) == 0, "foreign files keep their contents"); }
  }
  if (!m_exists(DB "/lock") || !m_isdir(DB "/lock")) sx_assert(!m_exists(DB "/meta") && !m_exists(DB "/lock") && !m_exists(DB "/0000000001"), "destroying removes the database");
  sx_assert(m_open_fds() == 0, "no file is left open");
}
void harness(void) {
  int mode = (int)sx_param("MODE", 0); m_init(); mkkeys(k, 2, 9);
  if (mode == 0) spelling(); else if (mode == 1) lengths(); else foreign();
  sx_assert(sx_heap_live() == 0, "all memory is released");
}
