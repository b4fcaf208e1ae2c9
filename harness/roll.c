/* roll.c - data that does not fit one file spans files transparently (C16); built with small limits (URKEL_VERIF) */
#include "h.h"
#include <stdio.h>
static unsigned char k[6][32]; static int nk, nh, batch; static struct rmap H[24], m; static urkel_t *db; static urkel_tx_t *tx;
static unsigned char v[4][1024]; static size_t len[4]; static int pos_;
static void name_(char *p, unsigned i) { int j; strcpy(p, DB "/0000000000"); for (j = (int)strlen(p) - 1; i; j--, i /= 10) p[j] = '0' + i % 10; }
static int files(void) {
  int n = 0, i; char p[64];
  for (i = 1; i < 64; i++) { name_(p, i); if (!m_exists(p)) break; n++; sx_assert(m_fsize(p) <= URKEL_VERIF_FILE_SIZE, "no data file grows beyond the limit"); }
  sx_assert(m_count(DB) <= n + 2, "data files are numbered without gaps");
  return n;
}
static void op(int i) {
  int sel = (int)sx_param("OPSYM", 0) ? (int)sx_range(0, 2, "op") : i % 7 == 6 ? 2 : i % 3, a = i % nk, r;
  if (sel == 2 && i % 7 == 6) { int had = rm_del(&m, k[a]); r = urkel_tx_remove(tx, k[a]); sx_assert(r == had, "remove succeeds exactly when the key was present"); }
  else { if (i == 0) sel = 3; r = urkel_tx_insert(tx, k[a], v[sel], len[sel]); sx_assert(r == 1, "insert succeeds"); rm_put(&m, k[a], v[sel], len[sel]); }
}
static void all(void) { int i; unsigned char w[32]; same_db(db, NULL, &m, k, nk); for (i = nh - 1; i >= 0; i--) { ref_root(w, &H[i]); same_db(db, w, &H[i], k, nk); } }
static void walk(const unsigned char *root, const struct rmap *x) {
  urkel_iter_t *it = urkel_iterate(db, root); unsigned char key[32], out[1100], w[32]; size_t n; int i, j, r, ex; unsigned char *pr; 
  sx_assert(it != NULL, "an iterator can be created"); if (!it) return; ref_root(w, x);
  for (i = 0; i < x->n; i++) { r = urkel_iter_next(it, key, out, &n); sx_assert(r == 1, "the iterator yields every pair"); if (!r) break; j = rm_find(x, key); sx_assert(j >= 0 && x->e[j].len == n && sx_eq(x->e[j].val, out, n), "the iterator yields the pairs of the map"); }
  r = urkel_iter_next(it, key, out, &n); sx_assert(r == 0 && urkel_errno == URKEL_EITEREND, "the iterator ends"); urkel_iter_destroy(it);
  for (i = 0; i < nk; i++) { j = rm_find(x, k[i]); r = urkel_prove(db, &pr, &n, k[i], root); sx_assert(r == 1, "prove succeeds"); if (!r) break; { size_t l = 0; r = urkel_verify(&ex, out, &l, pr, n, k[i], w); sx_assert(r == 1 && ex == (j >= 0) && (j < 0 || (l == x->e[j].len && sx_eq(out, x->e[j].val, l))), "the proof verifies to the value"); } urkel_free(pr); }
}
void harness(void) {
  int i, j, r, steps = (int)sx_param("STEPS", 4), every = (int)sx_param("EACH", 1), reopen = (int)sx_param("REOPEN", -1), f0; unsigned char a[32], w[32];
  m_init(); nk = (int)sx_param("NK", 2); batch = (int)sx_param("BATCH", 1); mkkeys(k, nk, (int)sx_param("KEYS", 9));
  len[0] = sx_param("L0", 3); len[1] = sx_param("L1", 20); len[2] = sx_param("L2", 1); len[3] = sx_range(sx_param("LO", 0), sx_param("HI", 120), "first_value"); for (i = 0; i < 4; i++) fillv(v[i], len[i], i + 1);
  rm_init(&m); nh = 0; H[nh++] = m; pos_ = 0;
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); f0 = files();
  for (i = 0; i < steps; i++) {
    for (j = 0; j < batch; j++) op(pos_++);
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); H[nh++] = m;
    sx_assert(m_open_maps() <= URKEL_VERIF_OPEN_FILES, "after a commit no more than the limit of data files is open");
    sx_assert(m_open_fds() <= URKEL_VERIF_OPEN_FILES + 1, "after a commit no more than the limit of descriptors is open");
    if (files() > f0) sx_reach("rolled over"); if (files() > f0 + 1) sx_reach("several files"); if (files() > URKEL_VERIF_OPEN_FILES) sx_reach("more files than open");
    if (every) { if (every > 1) all(); else same_db(db, NULL, &m, k, nk); }
    if (reopen == i || reopen == 99) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); urkel_root(db, a); ref_root(w, &m); sx_assert(sx_eq(a, w, 32), "the root after a reopen is the last one committed"); tx = urkel_tx_create(db, NULL); }
  }
  urkel_root(db, a); ref_root(w, &m); sx_assert(sx_eq(a, w, 32), "the root is the last one committed");
  all(); urkel_tx_destroy(tx); urkel_close(db); clean_end();
  db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end();
  urkel_root(db, a); sx_assert(sx_eq(a, w, 32), "the root after a reopen is the last one committed");
  all(); walk(NULL, &m); ref_root(w, &H[nh / 2]); walk(w, &H[nh / 2]);
  tx = urkel_tx_create(db, NULL); op(pos_++); r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds after a reopen"); H[nh++] = m; all(); urkel_tx_destroy(tx); urkel_close(db);
  db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); all(); urkel_close(db);
  r = urkel_destroy(DB); sx_assert(r == 1 && !m_exists(DB), "destroying removes every file"); clean_end();
}
