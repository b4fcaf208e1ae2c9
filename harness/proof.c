/* proof.c - every honest proof verifies, says the right thing and has the documented bytes (C04) */
#include "h.h"
#include "refproof.h"
#define NKM 6
static unsigned char k[NKM][32];
static unsigned char want[2600], val[1100];
static void verify_it(const unsigned char *pr, size_t pl, const unsigned char *q, const unsigned char *root, const struct rmap *m) {
  int ex = 77, j = rm_find(m, q), r; size_t vl = 7777;
  urkel_errno = 0; r = urkel_verify(&ex, val, &vl, pr, pl, q, root);
  sx_assert(r == 1, "an honest proof verifies against the root it was made for");
  sx_assert(ex == (j >= 0), "the proof says whether the key exists");
  if (j >= 0) { sx_assert(vl == m->e[j].len, "the proof carries the value size"); if (vl == m->e[j].len) sx_assert(sx_eq(val, m->e[j].val, vl), "the proof carries the value bytes"); }
  else sx_assert(vl == 0, "an absence proof carries no value");
}
void harness(void) {
  int nk = (int)sx_param("NK", 2), mode = (int)sx_param("KEYS", 4), qmode = (int)sx_param("QKEY", 4), stage, i, r, sel; struct rmap m, old;
  size_t len[NKM], pl, wl; static unsigned char v[NKM][1024]; unsigned char *pr; unsigned char root[32], q[32], oroot[32], w[32]; urkel_t *db; urkel_tx_t *tx;
  m_init(); rm_init(&m);
  stage = sx_param("STAGE", -1) >= 0 ? (int)sx_param("STAGE", -1) : (int)sx_range(0, 3, "stage");
  mkkeys(k, nk, mode);
  sel = sx_param("QSEL", -1) >= 0 ? (int)sx_param("QSEL", -1) : (int)sx_range(0, nk, "which");
  if (sel < nk) memcpy(q, k[sel], 32); else mkkey(q, qmode, "q");
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end();
  tx = urkel_tx_create(db, NULL); 
  for (i = 0; i < nk; i++) { len[i] = i == 0 ? sx_param("L0", 3) : sx_param("L1", 4); fillv(v[i], len[i], i + 1); if (sx_param("COMMITEACH", 0)) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); } r = urkel_tx_insert(tx, k[i], v[i], len[i]); sx_assert(r == 1, "insert succeeds"); rm_put(&m, k[i], v[i], len[i]); }
  if (nk > 1 && sx_param("DEL", 0)) { r = urkel_tx_remove(tx, k[0]); sx_assert(r == rm_del(&m, k[0]), "remove succeeds"); }
  ref_root(w, &m); memcpy(root, w, 32);
  if (stage >= 1) { r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); }
  if (stage == 3) { /* a historical root: change the tree afterwards, keep proving the old one */
    old = m; memcpy(oroot, root, 32);
    if (nk > 0) { r = urkel_tx_remove(tx, k[nk - 1]); rm_del(&m, k[nk - 1]); }
    { unsigned char x[32]; memcpy(x, q, 32); x[31] ^= 1; r = urkel_tx_insert(tx, x, v[0], 3); sx_assert(r == 1, "insert succeeds"); }
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); m = old;
  }
  if (stage >= 2) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, stage == 3 ? oroot : NULL); sx_assert(tx != NULL, "a transaction on the root can be created"); if (!tx) sx_end(); }
  urkel_tx_root(tx, root); sx_assert(sx_eq(root, w, 32), "the root is the documented hash of the map");
  pr = (void *)1; pl = 99; r = urkel_tx_prove(tx, &pr, &pl, q); sx_assert(r == 1, "prove succeeds"); if (!r) sx_end();
  wl = ref_proof(want, &m, q);
  sx_assert(pl == wl, "the proof has the documented size"); if (pl == wl) sx_assert(sx_eq(pr, want, pl), "the proof has the documented bytes");
  verify_it(pr, pl, q, root, &m); urkel_free(pr);
  if (stage >= 1) { pr = (void *)1; pl = 99; r = urkel_prove(db, &pr, &pl, q, stage == 3 || sx_param("EXPL", 0) ? w : NULL); sx_assert(r == 1, "prove succeeds"); if (!r) sx_end(); sx_assert(pl == wl && sx_eq(pr, want, wl), "the proof has the documented bytes"); verify_it(pr, pl, q, root, &m); urkel_free(pr); }
  urkel_tx_destroy(tx); urkel_close(db); clean_end();
}
