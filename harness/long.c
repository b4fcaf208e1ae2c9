/* long.c - long histories: hundreds of commits, every root of them still readable, injectable and provable (C02, C09, C16, C20) */
#include "h.h"
static unsigned char k[8][32]; static int nk, N; static urkel_t *db; static urkel_tx_t *tx;
static struct rmap m_; static unsigned char vb[16];
/* operation j = 1..N changes key j*3 % nk: usually a new value, every seventh a removal */
static int op_key(int j) { return j * 3 % nk; }
static int op_del(int j) { return j % 7 == 0; }
static size_t op_val(int j, unsigned char *v) { int i; size_t n = 2 + (size_t)(j % 3); v[0] = j & 255; v[1] = j >> 8; for (i = 2; i < (int)n; i++) v[i] = (unsigned char)(j * i); return n; }
static void apply(struct rmap *m, int j) { if (op_del(j)) rm_del(m, k[op_key(j)]); else { size_t n = op_val(j, vb); rm_put(m, k[op_key(j)], vb, n); } }
static struct rmap *state(int j) { int i, a; rm_init(&m_); for (a = 0; a < nk; a++) { int last = 0; for (i = 1; i <= j; i++) if (op_key(i) == a) last = i; if (last && !op_del(last)) apply(&m_, last); } return &m_; }
static void root_of(int j, unsigned char *r) { ref_root(r, state(j)); }
static void call(int j) { int r; if (op_del(j)) { state(j - 1); r = urkel_tx_remove(tx, k[op_key(j)]); sx_assert(r == (rm_find(&m_, k[op_key(j)]) >= 0), "remove succeeds exactly when the key was present"); } else { size_t n = op_val(j, vb); r = urkel_tx_insert(tx, k[op_key(j)], vb, n); sx_assert(r == 1, "insert succeeds"); } }
static void check_root(int j) {
  unsigned char r[32], q[32]; urkel_tx_t *t; if (j < 0 || j > N) return; root_of(j, r);
  same_db(db, r, &m_, k, nk);
  t = urkel_tx_create(db, r); sx_assert(t != NULL, "a transaction on a committed root can be created"); if (!t) return;
  urkel_tx_root(t, q); sx_assert(sx_eq(q, r, 32), "a snapshot keeps its root"); same_tx(t, &m_, k, nk); urkel_tx_destroy(t);
}
static void check_proof(int j) { unsigned char r[32], *p, out[1100]; size_t n, l; int ex, i, e; root_of(j, r);
  for (i = 0; i < nk; i++) { e = rm_find(&m_, k[i]); int g = urkel_prove(db, &p, &n, k[i], r); sx_assert(g == 1, "prove succeeds"); if (!g) continue; ex = 7; l = 9; g = urkel_verify(&ex, out, &l, p, n, k[i], r); sx_assert(g == 1 && ex == (e >= 0), "the proof tells whether the key is in the map"); if (e >= 0) sx_assert(l == m_.e[e].len && sx_eq(out, m_.e[e].val, l), "the proof carries the value"); urkel_free(p); } }
static void check_iter(int j) { unsigned char r[32], key[32], out[1100]; size_t l; int c = 0, e; urkel_iter_t *it; root_of(j, r); it = urkel_iterate(db, r); sx_assert(it != NULL, "an iterator can be created"); if (!it) return;
  while (c <= nk && urkel_iter_next(it, key, out, &l)) { e = rm_find(&m_, key); sx_assert(e >= 0 && m_.e[e].len == l && sx_eq(m_.e[e].val, out, l), "the iterator yields the pairs of the map"); c++; }
  sx_assert(c == m_.n, "the iterator yields every pair"); urkel_iter_destroy(it); }
static void reopen(void) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created"); if (!tx) sx_end(); }
void harness(void) {
  int i, j, r, every = (int)sx_param("REOPEN", 0), fresh = (int)sx_param("FRESH", 0), cold = (int)sx_param("COLD", 1), mode; unsigned char a[32], w[32]; struct rmap m;
  m_init(); N = (int)sx_param("N", 100); nk = (int)sx_param("NK", 3); mkkeys(k, nk, 9);
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL);
  for (j = 1; j <= N; j++) {
    call(j); r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds");
#ifdef URKEL_VERIF_OPEN_FILES
    sx_assert(m_open_maps() <= URKEL_VERIF_OPEN_FILES, "after a commit no more than the limit of data files is open");
#endif
    if (fresh && j % fresh == 0) { urkel_tx_destroy(tx); tx = urkel_tx_create(db, NULL); }
    if (every && j % every == 0) reopen();
  }
  urkel_root(db, a); root_of(N, w); sx_assert(sx_eq(a, w, 32), "the root is the last one committed"); same_db(db, NULL, &m_, k, nk);
  if (cold) { reopen(); urkel_root(db, a); sx_assert(sx_eq(a, w, 32), "the root after a reopen is the one last committed"); same_db(db, NULL, state(N), k, nk); }
  j = (int)sx_range(sx_param("JLO", 0), sx_param("JHI", N), "root"); mode = (int)sx_range(0, 2, "mode"); root_of(j, a);
  if (mode == 0) { check_root(j); check_proof(j); check_iter(j); sx_reach("read"); if (sx_param("ALL", 0)) for (i = N; i >= 0; i--) { root_of(i, w); same_db(db, w, &m_, k, nk); } else { check_root(j - 1); check_root(N); check_root(1); } urkel_root(db, w); root_of(N, a); sx_assert(sx_eq(a, w, 32), "reading changes no root"); m = m_; }
  else { if (mode == 1) { r = urkel_inject(db, a); sx_assert(r == 1, "a committed root can be injected"); urkel_root(db, w); sx_assert(sx_eq(a, w, 32), "the database root is the root last injected"); urkel_tx_destroy(tx); tx = urkel_tx_create(db, NULL); sx_reach("inject"); }
    else { r = urkel_tx_inject(tx, a); sx_assert(r == 1, "a committed root can be injected into a transaction"); sx_reach("tx inject"); }
    same_tx(tx, state(j), k, nk); m = m_; vb[0] = vb[1] = vb[2] = 0xee; r = urkel_tx_insert(tx, k[0], vb, 3); sx_assert(r == 1, "insert succeeds"); rm_put(&m, k[0], vb, 3); same_tx(tx, &m, k, nk);
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); ref_root(a, &m); urkel_root(db, w); sx_assert(sx_eq(a, w, 32), "a commit on an injected root builds on it"); check_root(j); check_root(N); }
  reopen(); urkel_root(db, w); ref_root(a, &m); sx_assert(sx_eq(a, w, 32), "the root after a reopen is the one last committed"); same_db(db, NULL, &m, k, nk); check_root(j); check_root(N); check_root(N / 2);
  urkel_tx_destroy(tx); urkel_close(db); r = urkel_destroy(DB); sx_assert(r == 1 && !m_exists(DB), "destroying removes every file"); clean_end();
}
