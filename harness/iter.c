/* iter.c - iteration yields every key once, in ascending order, then EITEREND (C08) */
#include "h.h"
static unsigned char k[8][32];
static int less(const unsigned char *a, const unsigned char *b) { return memcmp(a, b, 32) < 0; }
void harness(void) {
  int nk = (int)sx_param("NK", 3), mode = (int)sx_param("KEYS", 4), stage, i, j, r, stop; struct rmap m, old; urkel_t *db; urkel_tx_t *tx; urkel_iter_t *it; static unsigned char v[8][1024], out[1100]; unsigned char key[32], oroot[32]; size_t n; int64_t live;
  m_init(); rm_init(&m);
  stage = sx_param("STAGE", -1) >= 0 ? (int)sx_param("STAGE", 0) : (int)sx_range(0, 4, "stage");
  mkkeys(k, nk, mode);
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); tx = urkel_tx_create(db, NULL);
  for (i = 0; i < nk; i++) {
    size_t len = i == 0 ? sx_param("L0", 0) : sx_param("L1", 4); fillv(v[i], len, i + 1);
    r = urkel_tx_insert(tx, k[i], v[i], len); sx_assert(r == 1, "insert succeeds"); rm_put(&m, k[i], v[i], len);
    if (stage == 4 && i == nk - 2) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); }
  }
  if (stage >= 1 && stage <= 3) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); }
  if (stage == 3) { old = m; ref_root(oroot, &m); if (nk) { r = urkel_tx_remove(tx, k[0]); sx_assert(r, "remove succeeds"); } { unsigned char x[32]; memset(x, 0x3c, 32); r = urkel_tx_insert(tx, x, v[0], 1); sx_assert(r == 1, "insert succeeds"); } r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); }
  if (stage == 2 || stage == 3) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, stage == 3 ? oroot : NULL); sx_assert(tx != NULL, "a transaction can be created"); if (!tx) sx_end(); }
  live = sx_heap_live();
  it = (stage == 2) ? urkel_iterate(db, NULL) : stage == 3 ? urkel_iterate(db, oroot) : urkel_iter_create(tx); sx_assert(it != NULL, "an iterator can be created"); if (!it) sx_end();
  stop = sx_param("STOP", 0) ? (int)sx_range(0, m.n, "stop") : m.n + 2;
  for (i = 0; i < stop && i <= m.n; i++) {
    int best = -1, novalue = sx_param("NOVAL", 0);
    /* the smallest key not yet seen */
    for (j = 0; j < m.n; j++) if (best < 0 || less(m.e[j].key, m.e[best].key)) best = j;
    if (m.n == 0) break;
    n = 7777; memset(key, 0, 32); r = urkel_iter_next(it, key, novalue ? NULL : out, novalue ? NULL : &n);
    sx_assert(r == 1, "the iterator yields every key"); if (!r) sx_end();
    sx_assert(sx_eq(key, m.e[best].key, 32), "the iterator yields the keys in ascending order");
    if (!novalue) { sx_assert(n == m.e[best].len, "the iterator yields the value size"); if (n == m.e[best].len) sx_assert(sx_eq(out, m.e[best].val, n), "the iterator yields the value bytes"); }
    m.e[best] = m.e[--m.n]; i--; stop--; sx_reach("yield");
  }
  if (m.n == 0 && !sx_param("STOP", 0)) {
    for (j = 0; j < 2; j++) { urkel_errno = 0; r = urkel_iter_next(it, key, out, &n); sx_assert(r == 0, "the iterator ends after the last key"); sx_assert(urkel_errno == URKEL_EITEREND, "the end of iteration sets EITEREND"); }
    sx_reach("end");
  } else sx_reach("abandoned");
  urkel_iter_destroy(it);
  sx_assert(sx_heap_live() == live, "the iterator releases everything it allocates");
  { unsigned char x[32]; memset(x, 0x3d, 32); if (nk > 0 && mode == 0) memcpy(x, k[0], 32); urkel_errno = 0; r = urkel_tx_insert(tx, x, "z", 1); sx_assert(r == 1, "the transaction is usable after iteration"); r = urkel_tx_commit(tx); sx_assert(r == 1, "the database is usable after iteration"); }
  urkel_tx_destroy(tx); urkel_close(db); clean_end(); (void)old;
}
