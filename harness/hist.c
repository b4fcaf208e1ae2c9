/* hist.c - committed roots are immutable snapshots; inject, clear and unknown roots behave as documented (C02, C20) */
#include "h.h"
static unsigned char k[4][32];
static struct rmap H[16]; static unsigned char R[16][32]; static int nh;
static unsigned char v[3][1024]; static size_t len[3];
static int find_root(const unsigned char *r) { int i; for (i = 0; i < nh; i++) if (sx_eq(R[i], r, 32)) return i; return -1; }
static void add_hist(const struct rmap *m) { unsigned char r[32]; int i; ref_root(r, m); i = find_root(r); if (i < 0) { i = nh++; H[i] = *m; memcpy(R[i], r, 32); } }
static void unknown_root(urkel_t *db, urkel_tx_t *tx, const struct rmap *txm, int nk) {
  unsigned char u[32], before[32], after[32], out[1024]; int i, r; size_t n; unsigned char *pr; int64_t live = sx_heap_live();
  { /* a root that differs in one bit from a known one */
    int j = (int)sx_range(0, nh - 1, "near"), b = (int)sx_range(0, sx_param("UNK", 1) == 2 ? 255 : 23, "bit"); if (sx_param("UNK", 1) != 2) b = b < 8 ? b : b < 16 ? b + 112 : b + 232;
    memcpy(u, R[j], 32); u[b >> 3] ^= 0x80 >> (b & 7); }
  for (i = 0; i < nh; i++) sx_assume(!sx_eq(u, R[i], 32));
  sx_reach("unknown root");
  urkel_root(db, before);
  urkel_errno = 0; n = 9; r = urkel_get(db, out, &n, k[0], u); sx_assert(r == 0 && urkel_errno == URKEL_ENOTFOUND && n == 0, "get on an unknown root fails with ENOTFOUND");
  urkel_errno = 0; r = urkel_has(db, k[0], u); sx_assert(r == 0 && urkel_errno == URKEL_ENOTFOUND, "has on an unknown root fails with ENOTFOUND");
  urkel_errno = 0; pr = (void *)1; n = 9; r = urkel_prove(db, &pr, &n, k[0], u); sx_assert(r == 0 && urkel_errno == URKEL_ENOTFOUND && pr == NULL && n == 0, "prove on an unknown root fails with ENOTFOUND");
  urkel_errno = 0; sx_assert(urkel_tx_create(db, u) == NULL && urkel_errno == URKEL_ENOTFOUND, "a transaction on an unknown root fails with ENOTFOUND");
  urkel_errno = 0; sx_assert(urkel_iterate(db, u) == NULL && urkel_errno == URKEL_ENOTFOUND, "iterating an unknown root fails with ENOTFOUND");
  urkel_errno = 0; r = urkel_inject(db, u); sx_assert(r == 0 && urkel_errno == URKEL_ENOTFOUND, "injecting an unknown root fails with ENOTFOUND");
  urkel_errno = 0; r = urkel_tx_inject(tx, u); sx_assert(r == 0 && urkel_errno == URKEL_ENOTFOUND, "injecting an unknown root into a transaction fails with ENOTFOUND");
  urkel_root(db, after); sx_assert(sx_eq(before, after, 32), "a failed injection leaves the root alone");
  sx_assert(sx_heap_live() - live <= 12, "unknown roots leak nothing but cached roots");
  same_tx(tx, txm, k, nk);
}
void harness(void) {
  int nk = (int)sx_param("NK", 2), nops = (int)sx_param("OPS", 3), mode = (int)sx_param("KEYS", 7), i, r, op, snap = -1, pre = (int)sx_param("PRE", 2); urkel_t *db; urkel_tx_t *tx, *tx2 = NULL; struct rmap dbm, txm, lastm; unsigned char root[32], want[32];
  m_init(); nh = 0; rm_init(&dbm); add_hist(&dbm); 
  mkkeys(k, nk, mode); for (i = 0; i < 3; i++) { len[i] = i == 1 ? sx_param("L1", 5) : 3; fillv(v[i], len[i], i + 1); }
  db = urkel_open(DB); tx = urkel_tx_create(db, NULL); txm = dbm; lastm = dbm;
  for (i = 0; i < pre; i++) { /* a first history */
    r = urkel_tx_insert(tx, k[i % nk], v[i % 3], len[i % 3]); sx_assert(r == 1, "insert succeeds"); rm_put(&txm, k[i % nk], v[i % 3], len[i % 3]); 
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); dbm = lastm = txm; add_hist(&dbm);
  }
  for (i = 0; i < nops; i++) {
    int nop = nk * 3 + 4 + 3 * nh; op = i == 0 && sx_param("OP0", -1) >= 0 ? (int)sx_param("OP0", 0) : i == 1 && sx_param("OP1", -1) >= 0 ? (int)sx_param("OP1", 0) : (int)sx_range(0, nop - 1, "op"); if (op >= nop) sx_end();
    if (op < nk * 2) { int a = op / 2, b = op % 2 ? 2 : 1; if (i & 1) b = 0; r = urkel_tx_insert(tx, k[a], v[b], len[b]); sx_assert(r == 1, "insert succeeds"); rm_put(&txm, k[a], v[b], len[b]); sx_reach("insert"); }
    else if ((op -= nk * 2) < nk) { r = urkel_tx_remove(tx, k[op]); sx_assert(r == rm_del(&txm, k[op]), "remove succeeds exactly when the key was present"); sx_reach("remove"); }
    else if ((op -= nk) == 0) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); dbm = lastm = txm; add_hist(&dbm); sx_reach("commit"); }
    else if (op == 1) { if (tx2) { same_tx(tx2, &H[snap], k, nk); urkel_tx_destroy(tx2); tx2 = NULL; } urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); dbm = txm = lastm; sx_reach("reopen"); }
    else if (op == 2) { urkel_tx_clear(tx); txm = dbm; sx_reach("clear"); }
    else if (op == 3) { urkel_tx_destroy(tx); tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created"); if (!tx) sx_end(); txm = dbm; sx_reach("new tx"); }
    else if ((op -= 4) < nh) { r = urkel_tx_inject(tx, R[op]); sx_assert(r == 1, "a committed root can be injected into a transaction"); txm = H[op]; sx_reach("tx inject"); }
    else if ((op -= nh) < nh) { r = urkel_inject(db, R[op]); sx_assert(r == 1, "a committed root can be injected"); dbm = H[op]; sx_reach("inject"); }
    else { op -= nh; if (tx2) urkel_tx_destroy(tx2); tx2 = urkel_tx_create(db, R[op]); sx_assert(tx2 != NULL, "a transaction on a committed root can be created"); if (!tx2) sx_end(); snap = op; sx_reach("snapshot"); }
  }
  urkel_root(db, root); ref_root(want, &dbm); sx_assert(sx_eq(root, want, 32), "the database root is the root last committed or injected");
  same_tx(tx, &txm, k, nk);
  same_db(db, NULL, &dbm, k, nk);
  if (tx2) { same_tx(tx2, &H[snap], k, nk); urkel_tx_root(tx2, root); sx_assert(sx_eq(root, R[snap], 32), "a snapshot keeps its root"); }
  for (i = 0; i < nh; i++) same_db(db, R[i], &H[i], k, nk);
  if (sx_param("UNK", 1)) unknown_root(db, tx, &txm, nk);
  if (tx2) urkel_tx_destroy(tx2); urkel_tx_destroy(tx); urkel_close(db);
  db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end();
  urkel_root(db, root); ref_root(want, &lastm); sx_assert(sx_eq(root, want, 32), "the root after a reopen is the one last committed");
  for (i = nh - 1; i >= 0; i--) same_db(db, R[i], &H[i], k, nk);
  urkel_close(db); clean_end();
}
