/* split.c - three keys that part at symbolic positions: the tree is built, cut back, stored, read and proved (C01, C03, C04, C08, C09) */
#include "h.h"
#include "refproof.h"
static unsigned char k[5][32]; static struct rmap m; static urkel_t *db; static urkel_tx_t *tx; static unsigned char want[2600], val[1100];
static void flip(unsigned char *q, int i) { q[i >> 3] ^= 0x80 >> (i & 7); }
static void root_ok(void) { unsigned char r[32], w[32]; urkel_tx_root(tx, r); ref_root(w, &m); sx_assert(sx_eq(r, w, 32), "the root is the documented hash of the map"); }
static void prove_(const unsigned char *q) {
  unsigned char *pr = (void *)1, w[32]; size_t n = 9, l, vl = 9; int j = rm_find(&m, q), ex = 9, r = urkel_tx_prove(tx, &pr, &n, q); sx_assert(r == 1, "prove succeeds"); if (!r) return;
  l = ref_proof(want, &m, q); sx_assert(n == l, "the proof has the documented size"); if (n == l) sx_assert(sx_eq(pr, want, n), "the proof has the documented bytes");
  ref_root(w, &m); r = urkel_verify(&ex, val, &vl, pr, n, q, w); sx_assert(r == 1, "an honest proof verifies against the root it was made for"); sx_assert(ex == (j >= 0), "the proof says whether the key exists");
  if (j >= 0) { sx_assert(vl == m.e[j].len, "the proof carries the value size"); if (vl == m.e[j].len) sx_assert(sx_eq(val, m.e[j].val, vl), "the proof carries the value bytes"); sx_reach("presence"); } else { sx_assert(vl == 0, "an absence proof carries no value"); sx_reach("absence"); }
  urkel_free(pr);
}
static void reopen(void) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created"); if (!tx) sx_end(); }
static void walk(void) {
  urkel_iter_t *it = urkel_iter_create(tx); unsigned char q[32], last[32]; size_t n; int i, j; sx_assert(it != NULL, "an iterator can be created"); if (!it) return;
  for (i = 0; i < m.n; i++) { if (!urkel_iter_next(it, q, val, &n)) { sx_fail("iteration yields every key"); break; }
    j = rm_find(&m, q); sx_assert(j >= 0 && n == m.e[j].len && sx_eq(val, m.e[j].val, n), "iteration yields keys with their values"); if (i) sx_assert(memcmp(last, q, 32) < 0, "iteration is in ascending order"); memcpy(last, q, 32); }
  urkel_errno = 0; sx_assert(!urkel_iter_next(it, q, val, &n) && urkel_errno == URKEL_EITEREND, "iteration ends with EITEREND"); urkel_iter_destroy(it);
}
void harness(void) {
  static const unsigned char ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}};
  int a = (int)sx_range(sx_param("ALO", 0), sx_param("AHI", 15), "first_split"), b, i, rm, nk = 3, o; static unsigned char v[4][64]; int64_t st = sx_param("STAGE", -1); int inv = (int)sx_range(0, sx_param("INV", 0), "complement");
  int64_t dlo = sx_param("DLO", 1), dhi = sx_param("DHI", 17); if (sx_param("BLO", -1) >= 0) { dlo = sx_param("BLO", 0) - a; dhi = sx_param("BHI", 255) - a; if (dlo < 1) dlo = 1; } if (dhi > 255 - a) dhi = 255 - a; if (dlo > dhi) sx_end();
  b = a + (int)sx_range(dlo, dhi, "second_split");
  m_init(); rm_init(&m);
  for (i = 0; i < 32; i++) { k[0][i] = 0x96 ^ (unsigned char)(i * 37); if (inv) k[0][i] ^= 0xff; }
  if (sx_param("SYM", 1)) sx_sym(k[0], 32, "key"); /* every key with keys parting from it at these places */
  for (i = 1; i < 5; i++) memcpy(k[i], k[0], 32);
  flip(k[1], a); flip(k[2], b); flip(k[3], a); flip(k[3], b); /* k[3] is never inserted unless FOUR */
  if (sx_param("FOUR", 0)) nk = 4;
  for (i = 0; i < 4; i++) fillv(v[i], 64, i + 1);
  o = sx_param("ORDER", -1) >= 0 ? (int)sx_param("ORDER", 0) : (int)sx_range(0, sx_param("ORDERS", 5), "order");
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL);
  for (i = 0; i < nk; i++) { int x = i < 3 ? ord[o][i] : i; sx_assert(urkel_tx_insert(tx, k[x], v[x], 3 + x) == 1, "insert succeeds"); rm_put(&m, k[x], v[x], 3 + x); }
  root_ok();
  if (st < 0) st = sx_range(0, 2, "stage");
  if (st >= 1) { sx_assert(urkel_tx_commit(tx) == 1, "commit succeeds"); sx_reach("committed"); } if (st == 2) { reopen(); root_ok(); sx_reach("reopened"); }
  rm = sx_param("RM", -1) >= 0 ? (int)sx_param("RM", 0) : (int)sx_range(0, nk, "removed");
  if (rm < nk) { sx_assert(urkel_tx_remove(tx, k[rm]) == 1, "remove succeeds when the key is present"); rm_del(&m, k[rm]); root_ok(); same_tx(tx, &m, k, 4); sx_reach("removed"); }
  if (sx_param("PROVE", 0)) { int c = (int)sx_range(sx_param("CLO", 0), sx_param("CHI", 255), "query"); for (i = 0; i < 4; i++) prove_(k[i]); flip(k[4], c); if (sx_range(0, 1, "query_side")) flip(k[4], c > a ? a : b); prove_(k[4]); }
  if (sx_param("ITER", 0)) walk();
  if (sx_param("STORE", 1)) {
    sx_assert(urkel_tx_commit(tx) == 1, "commit succeeds"); reopen(); root_ok(); same_tx(tx, &m, k, 4); same_db(db, NULL, &m, k, 4); if (sx_param("ITER", 0)) walk();
    for (i = 3; i >= 0; i--) if (rm_find(&m, k[i]) >= 0) { sx_assert(urkel_tx_remove(tx, k[i]) == 1, "remove succeeds when the key is present"); rm_del(&m, k[i]); root_ok(); }
  }
  urkel_tx_destroy(tx); urkel_close(db); clean_end();
}
