/* api.c - the calls on the database itself, misuse of outputs, and the code of every failure (C22, C01) */
#include "h.h"
static unsigned char k[6][32], q[32]; static struct rmap m, H[8]; static int nh; static urkel_t *db; static urkel_tx_t *tx;
static unsigned char v[3][1100]; static size_t len[3]; static int nk;
static void errno_is(int want, const char *msg) { sx_assert(urkel_errno == want, msg); }
static void same(void) { unsigned char a[32], b[32]; urkel_root(db, a); ref_root(b, &m); sx_assert(sx_eq(a, b, 32), "a call without effect leaves the root alone"); }
static void read_one(const unsigned char *key, const unsigned char *root, const struct rmap *x, int how) {
  static unsigned char out[1100]; size_t n = 4242; int r, j = rm_find(x, key); urkel_tx_t *t = NULL; unsigned char *pr = (void *)1, rt[32];
  if (how >= 6) { t = urkel_tx_create(db, root); sx_assert(t != NULL, "a transaction can be created"); if (!t) return; }
  out[0] = 0xee; urkel_errno = 0;
  switch (how % 6) {
    case 0: r = t ? urkel_tx_get(t, out, &n, key) : urkel_get(db, out, &n, key, root); sx_assert(n == (j < 0 ? 0 : x->e[j].len), "get sets the size"); if (j >= 0 && n == x->e[j].len) sx_assert(sx_eq(out, x->e[j].val, n), "get returns the value"); break;
    case 1: r = t ? urkel_tx_get(t, NULL, &n, key) : urkel_get(db, NULL, &n, key, root); if (j < 0) sx_assert(n == 0, "a failed get zeroes the size"); break;
    case 2: r = t ? urkel_tx_get(t, NULL, NULL, key) : urkel_get(db, NULL, NULL, key, root); break;
    case 3: r = t ? urkel_tx_has(t, key) : urkel_has(db, key, root); break;
    case 4: r = t ? urkel_tx_get(t, out, NULL, key) : urkel_get(db, out, NULL, key, root); break;
    default: r = t ? urkel_tx_prove(t, &pr, &n, key) : urkel_prove(db, &pr, &n, key, root); sx_assert(r == 1 && pr != NULL && n > 0, "prove succeeds for any key");
      if (r) { int ex = 7; size_t l = 4242; ref_root(rt, x); sx_assert(urkel_verify(&ex, out, &l, pr, n, key, rt) == 1 && ex == (j >= 0) && l == (j < 0 ? 0 : x->e[j].len), "the proof verifies");
        rt[(int)sx_range(0, 1, "byte") * 31] ^= 1; ex = 7; l = 4242; urkel_errno = 0; r = urkel_verify(&ex, out, &l, pr, n, key, rt); sx_assert(r == 0 && ex == 0 && l == 0, "a failed verify zeroes its outputs"); errno_is(URKEL_EHASHMISMATCH, "a proof for another root sets EHASHMISMATCH");
        ex = 7; l = 4242; urkel_errno = 0; r = urkel_verify(&ex, out, &l, pr, n - 1, key, rt); sx_assert(r == 0 && ex == 0 && l == 0, "a failed verify zeroes its outputs"); errno_is(URKEL_EINVAL, "a truncated proof sets EINVAL");
        ex = 7; l = 4242; urkel_errno = 0; r = urkel_verify(&ex, out, &l, pr, n, key, NULL); sx_assert(r == 0 && ex == 0 && l == 0, "a failed verify zeroes its outputs"); errno_is(URKEL_EINVAL, "a missing root sets EINVAL");
        urkel_free(pr); sx_reach("proved"); }
      if (t) urkel_tx_destroy(t); return;
  }
  sx_assert(r == (j >= 0), "a read answers whether the key is in the map");
  if (j < 0) { errno_is(URKEL_ENOTFOUND, "a read of an absent key sets ENOTFOUND"); sx_reach("absent"); } else sx_reach("present");
  if (t) urkel_tx_destroy(t);
}
static void iterate(const unsigned char *root, const struct rmap *x) {
  urkel_iter_t *it = urkel_iterate(db, root); unsigned char key[32], out[1100]; size_t n; int i, r; struct rmap seen; sx_assert(it != NULL, "an iterator can be created"); if (!it) return; rm_init(&seen);
  for (i = 0; i < x->n; i++) { r = urkel_iter_next(it, key, out, &n); sx_assert(r == 1, "an iterator yields every pair"); if (!r) break; sx_assert(rm_find(x, key) >= 0 && rm_find(&seen, key) < 0, "an iterator yields each key once"); rm_put(&seen, key, out, n); }
  for (i = 0; i < 3; i++) { n = 5; urkel_errno = 0; r = urkel_iter_next(it, key, i == 1 ? NULL : out, i == 1 ? NULL : &n); sx_assert(r == 0, "an iterator that has ended stays ended"); errno_is(URKEL_EITEREND, "an iterator that has ended sets EITEREND"); }
  urkel_iter_destroy(it); sx_reach("iterated");
}
void harness(void) {
  int i, r, n0 = (int)sx_param("PRE", 1), ops = (int)sx_param("OPS", 2), op; unsigned char rt[32], w[32];
  m_init(); nk = (int)sx_param("NK", 2); mkkeys(k, nk, (int)sx_param("KEYS", 7)); mkkey(q, (int)sx_param("KEYS", 7), "q");
  len[0] = sx_param("L0", 3); len[1] = sx_param("L1", 300); len[2] = 0; for (i = 0; i < 3; i++) fillv(v[i], len[i], i + 1);
  rm_init(&m); nh = 0; db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end();
  H[nh++] = m;
  for (i = 0; i < n0; i++) { r = urkel_insert(db, k[i % nk], v[i % 2], len[i % 2]); sx_assert(r == 1, "insert on the database succeeds"); rm_put(&m, k[i % nk], v[i % 2], len[i % 2]); H[nh++] = m; }
  for (i = 0; i < ops; i++) {
    op = (int)sx_range(0, 6, "op"); urkel_errno = 0;
    if (op < 3) { r = urkel_insert(db, q, v[op], len[op]); sx_assert(r == 1, "insert on the database succeeds"); rm_put(&m, q, v[op], len[op]); H[nh++] = m; sx_reach("insert"); }
    else if (op == 3) { int had = rm_del(&m, q); r = urkel_remove(db, q); sx_assert(r == had, "remove on the database succeeds exactly when the key was present"); if (!had) errno_is(URKEL_ENOTFOUND, "removing an absent key sets ENOTFOUND"); else H[nh++] = m; sx_reach("remove"); }
    else if (op == 4) { size_t big = sx_between(1024, 1100, "big"); r = urkel_insert(db, q, v[0], big); sx_assert(r == 0, "a value above 1023 bytes is refused"); errno_is(URKEL_EINVAL, "a value above 1023 bytes sets EINVAL"); sx_reach("too large"); }
    else if (op == 5) { struct rmap x = m; r = 1; tx = urkel_tx_create(db, NULL); r &= urkel_tx_insert(tx, q, v[0], len[0]); r &= urkel_tx_insert(tx, q, v[0], len[0]); sx_assert(r == 1, "inserting the same value again succeeds"); rm_put(&x, q, v[0], len[0]);
      read_one(q, NULL, &m, 0); same(); urkel_tx_root(tx, rt); ref_root(w, &x); sx_assert(sx_eq(rt, w, 32), "a transaction's root is that of its map"); urkel_tx_destroy(tx); same(); sx_reach("dropped"); }
    else { r = 1; tx = urkel_tx_create(db, NULL); r = urkel_tx_commit(tx); sx_assert(r == 1, "an empty commit succeeds"); r = urkel_tx_commit(tx); sx_assert(r == 1, "an empty commit succeeds again"); urkel_tx_destroy(tx); sx_reach("empty commit"); }
    same();
  }
  op = (int)sx_range(0, nh, "view"); if (op < nh) ref_root(rt, &H[op]);
  read_one(q, op == nh ? NULL : rt, op == nh ? &m : &H[op], (int)sx_range(0, 11, "call"));
  iterate(op == nh ? NULL : rt, op == nh ? &m : &H[op]);
  same(); urkel_close(db); clean_end();
  if (sx_param("DESTROY", 1)) {
    int64_t live;
    r = urkel_destroy(DB); sx_assert(r == 1, "a closed database can be destroyed"); live = sx_heap_live();
    urkel_errno = 0; r = urkel_destroy(DB); sx_assert(r == 0, "a missing database cannot be destroyed"); errno_is(URKEL_EBADOPEN, "destroying a missing database sets EBADOPEN"); sx_assert(sx_heap_live() == live, "a failed destroy leaks nothing");
    db = urkel_open(DB); sx_assert(db != NULL, "a destroyed database can be created again"); if (!db) sx_end(); rm_init(&m); same(); urkel_close(db); clean_end(); sx_reach("recreated");
  }
}
