/* map.c - a transaction behaves as a map under every sequence of operations (C01, C09, C23) */
#include "h.h"
#define NK 3
static unsigned char k[NK][32];
void harness(void) {
  int nk = (int)sx_param("NK", 2), nops = (int)sx_param("OPS", 3), mode = (int)sx_param("KEYS", 4), commits = (int)sx_param("COMMITS", 1), vals = (int)sx_param("VALS", 0), i, r;
  size_t len[4]; static unsigned char v[4][1024]; struct rmap m; urkel_t *db; urkel_tx_t *tx; unsigned char root[32], want[32];
  m_init(); rm_init(&m);
  mkkeys(k, nk, mode);
  len[0] = sx_param("L0", 3); len[1] = sx_param("L1", 5); len[2] = len[0]; for (i = 0; i < 3; i++) fillv(v[i], len[i], i + 1);
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); 
  tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created");
  for (i = 0; i < nops; i++) {
    int nop = nk * 3 + (commits ? 2 : 0), op = i == 0 && sx_param("OP0", -1) >= 0 ? (int)sx_param("OP0", 0) : (int)sx_range(0, nop - 1, "op");
    if (op < nk * 2) {
      int a = op / 2, b = op % 2 + (i & 1) * 0; size_t ln; sx_reach("insert"); if (b == 1 && (i & 1)) b = 2;
      if (vals) { b = b ? 3 : i & 1; sx_sym(v[b], sx_param("VHI", 3), "value"); len[b] = sx_range(sx_param("VLO", 0), sx_param("VHI", 3), "size"); }
      ln = len[b]; r = urkel_tx_insert(tx, k[a], v[b], ln); sx_assert(r == 1, "insert succeeds"); rm_put(&m, k[a], v[b], ln);
    } else if (op < nk * 3) {
      int a = op - nk * 2, had; urkel_errno = 0; r = urkel_tx_remove(tx, k[a]); had = rm_del(&m, k[a]);
      sx_assert(r == had, "remove succeeds exactly when the key was present"); if (!had) { sx_assert(urkel_errno == URKEL_ENOTFOUND, "remove of an absent key sets ENOTFOUND"); sx_reach("remove absent"); } else sx_reach("remove present");
    } else if (op == nk * 3) {
      r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); sx_reach("commit");
    } else {
      r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds");
      urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end();
      tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created"); sx_reach("reopen");
    }
    if (sx_param("EACH", 0)) same_tx(tx, &m, k, nk);
  }
  same_tx(tx, &m, k, nk);
  urkel_tx_root(tx, root); ref_root(want, &m); sx_assert(sx_eq(root, want, 32), "the root is the documented hash of the map");
  r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds");
  urkel_root(db, root); sx_assert(sx_eq(root, want, 32), "the committed root is the documented hash of the map");
  same_tx(tx, &m, k, nk);
  urkel_tx_destroy(tx);
  same_db(db, NULL, &m, k, nk);
  urkel_close(db);
  db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end();
  urkel_root(db, root); sx_assert(sx_eq(root, want, 32), "the root survives a reopen");
  same_db(db, NULL, &m, k, nk);
  same_db(db, want, &m, k, nk);
  urkel_close(db); clean_end();
}
