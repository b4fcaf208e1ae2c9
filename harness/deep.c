/* deep.c - trees of every depth up to the maximum: iteration, lookup, proofs, removal (C01, C04, C08) */
#include "h.h"
static unsigned char base_[32], ks[260][32], pos_[260];
static int n_;
static void flip(unsigned char *k, int i) { k[i >> 3] ^= 0x80 >> (i & 7); }
static int cmp(const void *a, const void *b) { return memcmp(a, b, 32); }
static unsigned char val[1100], kk[32], prev[32];
void harness(void) {
  int i, r, start = (int)sx_param("START", 0), step = (int)sx_param("STEP", 1), op, stage; urkel_t *db; urkel_tx_t *tx; size_t len, pl; unsigned char root[32], root2[32], *pr; int ex;
  m_init(); 
  n_ = (int)sx_param("N", 256);
  for (i = 0; i < 32; i++) base_[i] = 0x5a ^ (unsigned char)(i * 29);
  memcpy(ks[0], base_, 32); for (i = 0; i < n_; i++) { memcpy(ks[i + 1], base_, 32); flip(ks[i + 1], start + i * step); }
  n_++; 
  db = urkel_open(DB); tx = urkel_tx_create(db, NULL);
  for (i = 0; i < n_; i++) { int j = sx_param("REV", 0) ? n_ - 1 - i : i; unsigned char v[2]; v[0] = j & 255; v[1] = j >> 8; r = urkel_tx_insert(tx, ks[j], v, 2); sx_assert(r == 1, "insert succeeds at any depth"); }
  stage = (int)sx_param("STAGE", 2);
  if (stage >= 1) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); }
  if (stage >= 2) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); }
  urkel_tx_root(tx, root);
  op = sx_param("OP", -1) >= 0 ? (int)sx_param("OP", 0) : (int)sx_range(0, 3, "op");
  if (op == 0) {
    urkel_iter_t *it = urkel_iter_create(tx); int c = 0;
    for (;;) {
      urkel_errno = 0; r = urkel_iter_next(it, kk, val, &len); if (!r) break;
      if (c) sx_assert(memcmp(prev, kk, 32) < 0, "iteration ascends at any depth"); memcpy(prev, kk, 32);
      sx_assert(len == 2, "iteration yields the value size at any depth"); i = val[0] | val[1] << 8; sx_assert(i < n_ && memcmp(ks[i], kk, 32) == 0, "iteration yields the right value at any depth"); c++;
      if (c > n_) break;
    }
    sx_assert(c == n_, "iteration yields every key at any depth"); sx_assert(urkel_errno == URKEL_EITEREND, "iteration ends with EITEREND at any depth"); urkel_iter_destroy(it); sx_reach("iterated");
  } else if (op == 1) {
    unsigned char q[32]; int sel = (int)sx_range(0, n_, "which"), member;
    if (sel < n_) memcpy(q, ks[sel], 32); else { memcpy(q, base_, 32); i = (int)sx_range(0, 255, "flip1"); flip(q, i); if (sx_range(0, 1, "two")) { i = (int)sx_range(0, 1, "flip2") ? (i + 1) & 255 : (i + 128) & 255; flip(q, i); } }
    member = -1; for (i = 0; i < n_; i++) if (memcmp(q, ks[i], 32) == 0) member = i;
    len = 9; r = urkel_tx_get(tx, val, &len, q); sx_assert(r == (member >= 0), "get answers whether the key is present at any depth"); if (r && member >= 0) sx_assert(len == 2 && val[0] == (member & 255) && val[1] == member >> 8, "get returns the value at any depth");
    sx_assert(urkel_tx_has(tx, q) == (member >= 0), "has answers whether the key is present at any depth");
    r = urkel_tx_prove(tx, &pr, &pl, q); sx_assert(r == 1, "prove succeeds at any depth"); if (r) {
      ex = 5; len = 9; r = urkel_verify(&ex, val, &len, pr, pl, q, root); sx_assert(r == 1, "a proof verifies at any depth"); sx_assert(ex == (member >= 0), "a proof tells the truth at any depth"); if (member >= 0) sx_assert(len == 2 && val[0] == (member & 255), "a proof carries the value at any depth"); urkel_free(pr); }
    sx_reach("proved");
  } else if (op == 2) {
    i = (int)sx_range(0, n_ - 1, "which"); r = urkel_tx_remove(tx, ks[i]); sx_assert(r == 1, "remove succeeds at any depth"); sx_assert(urkel_tx_has(tx, ks[i]) == 0, "a removed key is gone at any depth");
    { int j = i ? i - 1 : 1; len = 9; r = urkel_tx_get(tx, val, &len, ks[j]); sx_assert(r == 1 && len == 2 && val[0] == (j & 255), "removing a key keeps its neighbours at any depth"); }
    { unsigned char v[2]; v[0] = i & 255; v[1] = i >> 8; urkel_tx_root(tx, root2); sx_assert(memcmp(root, root2, 32) != 0, "removal changes the root at any depth"); r = urkel_tx_insert(tx, ks[i], v, 2); sx_assert(r == 1, "insert succeeds at any depth"); }
    urkel_tx_root(tx, root2); sx_assert(memcmp(root, root2, 32) == 0, "removing and re-inserting a key restores the root at any depth"); sx_reach("removed");
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); urkel_root(db, root2); sx_assert(memcmp(root, root2, 32) == 0, "the committed root equals the transaction root at any depth");
  } else {
    for (i = 0; i < n_; i++) { r = urkel_tx_remove(tx, ks[i]); sx_assert(r == 1, "remove succeeds at any depth"); }
    urkel_tx_root(tx, root2); sx_assert(memcmp(root2, zero32_, 32) == 0, "removing everything gives the empty root"); sx_reach("emptied");
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); 
  }
  urkel_tx_destroy(tx); urkel_close(db); clean_end(); (void)cmp; (void)pos_;
}
