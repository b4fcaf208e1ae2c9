/* corrupt.c - the data files hold anything: opening and using the database answers or fails, but never crashes (C13) */
#include "h.h"
extern const unsigned char *m_forger; extern int m_forger_n;
static char FILE1[] = DB "/0000000001";
static unsigned char k[6][32]; static struct rmap H[10]; static unsigned char R[10][32]; static int nh, nk; static uint64_t end_[10];
static unsigned char v[3][64]; static size_t len[3];
static int known(const unsigned char *r) { int i; for (i = 0; i < nh; i++) if (sx_eq(R[i], r, 32)) return i; return -1; }
static int code_ok(void) { return urkel_errno == URKEL_ENOTFOUND || urkel_errno == URKEL_ECORRUPTION || urkel_errno == URKEL_EBADWRITE; }
/* everything a user might do; no answer is asked for, only a tidy one */
static void use(urkel_t *db, const unsigned char *root) {
  static unsigned char out[1100]; unsigned char key[32], q[32], rt[32]; size_t n; int i, r; unsigned char *pr; urkel_tx_t *tx; urkel_iter_t *it;
  memcpy(q, k[0], 32); q[0] ^= 0x80;
  for (i = 0; i < nk; i++) { n = 4000; urkel_errno = 0; r = urkel_get(db, out, &n, k[i], root); sx_assert(r ? n <= 1023 : n == 0 && code_ok(), "a read of damaged data answers or fails with a documented code"); }
  r = urkel_has(db, q, root); sx_assert(r == 0 || r == 1, "has answers");
  for (i = 0; i < 2; i++) { pr = (void *)1; n = 4000; r = urkel_prove(db, &pr, &n, i ? q : k[0], root); if (r) { int ex; size_t l; sx_assert(pr != NULL && n > 0, "a proof has bytes"); if (root) urkel_verify(&ex, out, &l, pr, n, i ? q : k[0], root); urkel_free(pr); } else sx_assert(pr == NULL && n == 0 && code_ok(), "a failed prove has clean outputs"); }
  it = urkel_iterate(db, root);
  if (it) { for (i = 0; i < 12; i++) { urkel_errno = 0; if (!urkel_iter_next(it, key, out, &n)) { sx_assert(urkel_errno == URKEL_EITEREND || urkel_errno == URKEL_ECORRUPTION, "an iterator over damaged data ends or fails with a documented code"); if (urkel_errno == URKEL_ECORRUPTION) sx_reach("corruption"); if (urkel_errno == URKEL_EITEREND) break; } } urkel_iter_destroy(it); }
  tx = urkel_tx_create(db, root);
  if (tx) {
    for (i = 0; i < nk; i++) urkel_tx_remove(tx, k[i]);
    urkel_tx_insert(tx, q, v[0], 3); urkel_tx_insert(tx, k[0], v[1], 2); urkel_tx_root(tx, rt); urkel_tx_get(tx, out, &n, q);
    urkel_tx_destroy(tx);
  }
}
static void build(void) {
  urkel_t *db = urkel_open(DB); urkel_tx_t *tx; int i, r; struct rmap m; sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end();
  rm_init(&m); nh = 0; H[nh] = m; ref_root(R[nh], &m); end_[nh++] = 0; tx = urkel_tx_create(db, NULL);
  for (i = 0; i < (int)sx_param("PRE", 3); i++) { r = urkel_tx_insert(tx, k[i % nk], v[i % 3], len[i % 3]); rm_put(&m, k[i % nk], v[i % 3], len[i % 3]); if (i < (int)sx_param("SKIP", 0)) continue; r &= urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); H[nh] = m; ref_root(R[nh], &m); end_[nh++] = m_fsize(FILE1); }
  urkel_tx_destroy(tx); urkel_close(db);
}
void harness(void) {
  urkel_t *db; int i, mode = (int)sx_param("MODE", 0), w = (int)sx_param("W", 1), r, top, tail = 0, exact = -1; uint64_t size, off, lo, hi; unsigned char *d, root[32], b[32]; struct rmap cur; int64_t live;
  m_init(); nk = (int)sx_param("NK", 3); mkkeys(k, nk, 9); len[0] = 3; len[1] = sx_param("L1", 12); len[2] = 0; for (i = 0; i < 3; i++) fillv(v[i], 64, i + 1);
  if (sx_param("FILLER", 0)) { r = (int)sx_param("FILLER", 0); memset(v[0], r, 64); }
  build(); if (sx_param("F", 1) > 1) FILE1[sizeof FILE1 - 2] += sx_param("F", 1) - 1; if (sx_param("F", 1) == 0) strcpy(FILE1, DB "/meta"); if (!m_exists(FILE1)) sx_end(); if (m_exists(DB "/0000000002")) sx_reach("several files"); size = m_fsize(FILE1); d = m_fdata(FILE1); top = nh - 1; live = sx_heap_live();
  switch (mode) {
    case 0: /* any w neighbouring bytes hold anything */
      lo = sx_param("LO", 0); hi = sx_param("HI", 4095); if (hi > size - w) hi = size - w; if (lo > hi) sx_end(); off = sx_range(lo, hi, "offset"); if (hi < size - w && off == hi && 0) sx_end();
      sx_sym(d + off, w, "damage"); if (off >= size - 38 && off + w <= size) tail = 1; sx_reach("damaged"); break;
    case 1: off = sx_range(0, size - 1, "length"); m_fsetsize(FILE1, off); for (exact = nh - 1; exact > 0 && end_[exact] > off; exact--) ; sx_reach("damaged"); break;
    case 2: /* anything after the end */
      w = (int)sx_range(sx_param("LO", 1), sx_param("HI", 90), "extra"); sx_sym(d + size, w, "damage"); m_fsetsize(FILE1, size + w); m_forger = sx_malloc(w); memcpy((void *)m_forger, d + size, w); m_forger_n = w; for (i = 0; i + 38 <= w; i += 38) for (r = 1; r < nh; r++) sx_assume(!sx_eq(m_forger + i, d + end_[r] - 38, 38)); /* not a copy of a genuine record */ exact = top; sx_reach("damaged"); break;
    case 3: { /* a whole record-sized block is a copy of another */
      uint64_t n = size / 38, a = sx_range(0, n - 1, "from"), c = sx_range(0, n, "to"); if (a == c) sx_end(); memcpy(d + c * 38, d + a * 38, 38); if (c == n) m_fsetsize(FILE1, c * 38 + 38); sx_reach("damaged"); break; }
    case 4: /* any w neighbouring bytes hold anything, and the file is cut anywhere after them */
      off = sx_range(0, size - w, "offset"); sx_sym(d + off, w, "damage"); m_fsetsize(FILE1, sx_range(off + w, size, "length")); sx_reach("damaged"); break;
    case 6: { /* some files are missing, another one has turned up */
      static const char *const more[] = {NULL, DB "/0000000000", DB "/0000000004", DB "/0000000006", DB "/4294967295", DB "/9999999999", DB "/00000000010", DB "/0000000002x"};
      int f, x, nf; static char P[] = DB "/0000000001"; for (nf = 0; nf < 9; nf++) { P[sizeof P - 2] = '1' + nf; if (!m_exists(P)) break; }
      f = (int)sx_range(0, (1 << nf) - 1, "missing"); for (i = 0; i < nf; i++) if (f >> i & 1) { P[sizeof P - 2] = '1' + i; m_fdel(P); }
      x = (int)sx_range(0, 7, "extra"); if (x && !m_exists(more[x])) { m_fput(more[x], v[1], (uint64_t)sx_range(0, 1, "extra_size") * 40); }
      if (sx_range(0, 1, "no_key")) m_fdel(DB "/meta"); else if (sx_range(0, 1, "empty_key")) m_fsetsize(DB "/meta", 0); sx_reach("damaged"); break; }
    default: { /* a chain of pointers: one internal node refers to itself or any other record */
      uint64_t p = sx_range(0, size - 7, "offset"), x = sx_range(0, nh - 1, "target"); (void)x; memcpy(d + p, d + end_[nh - 1] - 38 + 11, 7); sx_reach("damaged"); break; }
  }
  if (sx_param("F", -1) >= 0) { exact = -1; tail = 0; }
  urkel_errno = 0; db = urkel_open(DB);
  if (!db) { sx_assert(urkel_errno == URKEL_EBADOPEN, "a refused open sets EBADOPEN"); sx_assert(sx_heap_live() == live, "a refused open leaks nothing"); sx_assert(exact < 0, "a damaged tail does not keep the database from opening"); sx_reach("refused"); }
  else {
    urkel_root(db, root); r = known(root);
    if (exact >= 0) { sx_assert(r == exact, "recovery goes back to the last complete commit"); sx_reach("rolled back"); }
    if (tail) { int same = 1; (void)same; sx_assert(r == top || r == top - 1, "a damaged commit record is not accepted"); if (r == top - 1) sx_reach("rolled back"); }
    if (mode == 6) sx_assert(r >= 0, "a database with missing files opens at one of its commits or not at all"); if (r >= 0) sx_reach("opened"); else sx_reach("opened on damaged data");
    if (exact >= 0 || tail) {
      if (r < 0) sx_end();
      for (i = r; i >= 0; i--) same_db(db, R[i], &H[i], k, nk);
      cur = H[r]; r = urkel_insert(db, k[0], v[2], 9); rm_put(&cur, k[0], v[2], 9); sx_assert(r == 1, "a repaired database takes commits"); urkel_root(db, root); ref_root(b, &cur); sx_assert(sx_eq(root, b, 32), "commits after a repair are right");
      urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); urkel_root(db, root); sx_assert(sx_eq(root, b, 32), "commits after a repair are durable"); same_db(db, NULL, &cur, k, nk);
    } else {
      use(db, NULL); for (i = nh - 1; i >= 0; i--) use(db, R[i]);
      memcpy(b, R[0], 32); b[3] ^= 1; r = urkel_has(db, k[0], b); sx_assert(r == 0, "an unknown root is not found"); 
      if (sx_param("WRITE", 1)) { r = urkel_insert(db, k[1], v[2], 4); sx_assert(r == 1 || code_ok(), "a commit on damaged data succeeds or fails with a documented code"); use(db, NULL); if (r) sx_reach("committed"); r = urkel_remove(db, k[0]); sx_assert(r == 1 || code_ok(), "a removal on damaged data succeeds or fails with a documented code"); }
    }
    urkel_close(db); db = urkel_open(DB); if (db) urkel_close(db);
  }
  clean_end();
}
