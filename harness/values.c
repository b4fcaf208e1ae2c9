/* values.c - every value size from 0 to 1023 survives everywhere; anything larger is refused (C11) */
#include "h.h"
static void check_get(int r, unsigned char *out, size_t n, const unsigned char *v, size_t s, const char *m) { (void)m; sx_assert(r == 1, "a stored value is found"); sx_assert(n == s, "a stored value keeps its size"); if (r && n == s && s) sx_assert(sx_eq(out, v, s), "a stored value keeps its bytes"); }
void harness(void) {
  static const size_t odd[] = {1024, 1025, 1100, 1279, 1280, 2047, 2048, 4096, 65535, 65536, 65536 + 5, (size_t)1 << 32, ((size_t)1 << 32) + 3, (size_t)1 << 63, (size_t)-1, (size_t)-1023};
  int lo = (int)sx_param("LO", 0), hi = (int)sx_param("HI", 1023), big = (int)sx_param("BIG", 0), r, j, ex; size_t s, n, pl, nb = (size_t)sx_param("NB", 3); unsigned char k0[32], k1[32], *v, *out, *w, *pr, root[32], root2[32], kk[32]; urkel_t *db; urkel_tx_t *tx; urkel_iter_t *it;
  m_init(); mkkey(k0, 7, "k0"); memcpy(k1, k0, 32); k1[sx_param("KB", 31)] ^= 1;
  db = urkel_open(DB); tx = urkel_tx_create(db, NULL);
  w = malloc(nb + 1); fillv(w, nb, 9);
  r = urkel_tx_insert(tx, k1, w, nb); sx_assert(r == 1, "insert succeeds");
  if (big) {
    s = odd[sx_range(0, sizeof odd / sizeof odd[0] - 1, "big")]; v = malloc(1); v[0] = 1;
    if (sx_range(0, 1, "committed")) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); }
    urkel_tx_root(tx, root); urkel_errno = 0; r = urkel_tx_insert(tx, sx_range(0, 1, "which") ? k1 : k0, v, s); sx_assert(r == 0, "a value above 1023 bytes is refused"); sx_assert(urkel_errno == URKEL_EINVAL, "a value above 1023 bytes sets EINVAL");
    urkel_tx_root(tx, root2); sx_assert(sx_eq(root, root2, 32), "a refused insert leaves the transaction alone"); sx_assert(urkel_tx_has(tx, k0) == 0, "a refused insert leaves the transaction alone");
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); 
    urkel_root(db, root); urkel_errno = 0; r = urkel_insert(db, k0, v, s); sx_assert(r == 0, "a value above 1023 bytes is refused"); sx_assert(urkel_errno == URKEL_EINVAL, "a value above 1023 bytes sets EINVAL"); urkel_root(db, root2); sx_assert(sx_eq(root, root2, 32), "a refused insert leaves the database alone");
    sx_reach("refused"); free(v); free(w); urkel_tx_destroy(tx); urkel_close(db); clean_end(); return;
  }
  s = (size_t)sx_range(lo, hi, "size"); v = malloc(s ? s : 1); sx_sym(v, s, "value"); out = malloc(s ? s : 1);
  urkel_errno = 0; r = urkel_tx_insert(tx, k0, v, s); sx_assert(r == 1, "a value of up to 1023 bytes is accepted"); 
  n = 7777; r = urkel_tx_get(tx, out, &n, k0); check_get(r, out, n, v, s, "");
  for (j = 0; j < 3; j++) {
    if (j == 1) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); }
    if (j == 2) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); }
    n = 7777; r = urkel_tx_get(tx, out, &n, k0); check_get(r, out, n, v, s, "");
    { unsigned char o2[1023]; n = 7777; r = urkel_tx_get(tx, o2, &n, k1); sx_assert(r == 1 && n == nb && memcmp(o2, w, nb) == 0, "the other value is unharmed"); }
    urkel_tx_root(tx, root);
    if (j != 1) {
      unsigned char *o3 = malloc(s ? s : 1);
      r = urkel_tx_prove(tx, &pr, &pl, k0); sx_assert(r == 1, "prove succeeds"); if (!r) sx_end(); ex = 7; n = 7777; r = urkel_verify(&ex, o3, &n, pr, pl, k0, root); sx_assert(r == 1 && ex == 1, "the proof of a value verifies"); check_get(r, o3, n, v, s, ""); urkel_free(pr); free(o3);
      it = urkel_iter_create(tx); for (ex = 0; ex < 2; ex++) { unsigned char o2[1023]; n = 7777; r = urkel_iter_next(it, kk, o2, &n); sx_assert(r == 1, "the iterator yields every key"); if (r && sx_eq(kk, k0, 32)) check_get(r, o2, n, v, s, ""); } urkel_iter_destroy(it);
    }
  }
  sx_reach("stored");
  free(v); free(w); free(out); urkel_tx_destroy(tx); urkel_close(db); clean_end();
}
