/* over.c - a value overwritten with another one: sizes and every byte of both symbolic (C01, C11) */
#include "h.h"
static unsigned char k[1][32], A[1024], B[1024], out[1100]; static urkel_t *db; static urkel_tx_t *tx;
static void holds(const unsigned char *v, size_t n, const char *why) { size_t m = 7777; int r = urkel_tx_get(tx, out, &m, k[0]); sx_assert(r == 1, why); sx_assert(m == n, "get returns the size last written"); if (m == n) sx_assert(sx_eq(out, v, n), "get returns the bytes last written"); }
static void root_is(const unsigned char *v, size_t n) { struct rmap m; unsigned char a[32], b[32]; rm_init(&m); rm_put(&m, k[0], v, n); ref_root(a, &m); urkel_tx_root(tx, b); sx_assert(sx_eq(a, b, 32), "the root is the hash of the map"); }
void harness(void) {
  static const short S[] = {0, 1, 2, 31, 32, 33, 64, 127, 128, 255, 256, 257, 511, 512, 513, 700, 1022, 1023};
  int i = (int)sx_range(sx_param("LO", 0), sx_param("HI", 17), "size"), d = (int)sx_range(0, 2, "other_size"), st = (int)sx_range(0, 2, "state"); size_t n = S[i], m = d == 0 ? n : d == 1 ? n + 1 : n - 1;
  sx_assume(m <= 1023); n = sx_concretize(n); m = sx_concretize(m);
  m_init(); mkkeys(k, 1, 9); sx_sym(A, n + 1, "a"); sx_sym(B, m + 1, "b");
  db = urkel_open(DB); tx = urkel_tx_create(db, NULL);
  sx_assert(urkel_tx_insert(tx, k[0], A, n) == 1, "insert succeeds");
  if (st >= 1) sx_assert(urkel_tx_commit(tx) == 1, "commit succeeds");
  if (st == 2) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); tx = urkel_tx_create(db, NULL); }
  holds(A, n, "the key is present");
  sx_assert(urkel_tx_insert(tx, k[0], B, m) == 1, "insert of another value succeeds");
  holds(B, m, "an overwritten key is present"); if (sx_param("ROOT", 1)) root_is(B, m);
  sx_assert(urkel_tx_insert(tx, k[0], B, m) == 1, "insert of an equal pair succeeds"); holds(B, m, "a rewritten key is present");
  sx_assert(urkel_tx_commit(tx) == 1, "commit succeeds"); holds(B, m, "an overwritten key is present after the commit");
  sx_reach(st == 0 ? "in memory" : st == 1 ? "committed" : "reopened");
  urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); tx = urkel_tx_create(db, NULL); holds(B, m, "an overwritten key is present after a reopen");
  sx_assert(urkel_tx_remove(tx, k[0]) == 1, "remove succeeds"); sx_assert(urkel_tx_has(tx, k[0]) == 0, "a removed key is absent");
  urkel_tx_destroy(tx); urkel_close(db); clean_end();
}
