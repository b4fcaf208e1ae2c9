/* fault.c - a system call fails anywhere in open, operations, commit, reads or close (C12, C22, C23) */
#include "h.h"
static unsigned char k[6][32]; static int nk;
static struct rmap H[12], cur, last, disk; static int nh; /* disk: the last commit; last: what the database shows, which an injected root changes */
static unsigned char v[3][1024]; static size_t len[3]; static urkel_t *db; static urkel_tx_t *tx;
static struct rmap U[8]; static int nu; /* maps whose commit failed */
static uint64_t ops0; static int left0;
static void mark(void) { ops0 = m_k.ops; left0 = m_k.faults; }
static int faulted(void) { return m_k.nfault != left0; }
#define MARK() (left0 = m_k.nfault)
static int pause_(void) { int f = m_k.faults; m_k.faults = 0; return f; }
static int do_op(int i) {
  int sel = (int)sx_param("OPSYM", 0) ? (int)sx_range(0, 2, "op") : i % 4 == 3 ? 2 : i & 1, a = i % nk, r, t;
  for (t = 0; t < 3; t++) {
    MARK(); urkel_errno = 0;
    if (sel == 2) { int had = rm_find(&cur, k[a]) >= 0; r = urkel_tx_remove(tx, k[a]); if (r) { sx_assert(had, "remove succeeds only when the key was present"); rm_del(&cur, k[a]); return 1; } if (!had) { sx_assert(urkel_errno == URKEL_ENOTFOUND || (faulted() && urkel_errno == URKEL_ECORRUPTION), "remove of an absent key sets ENOTFOUND"); return 1; } }
    else { r = urkel_tx_insert(tx, k[a], v[sel], len[sel]); if (r) { rm_put(&cur, k[a], v[sel], len[sel]); return 1; } }
    sx_assert(faulted(), "an operation fails only when a system call failed"); sx_reach("failed operation");
    sx_assert(urkel_errno == URKEL_ECORRUPTION, "an operation that cannot read sets ECORRUPTION");
    { int f = pause_(); same_tx(tx, &cur, k, nk); m_k.faults = f; }
  }
  sx_fail("an operation keeps failing"); return 0;
}
static void open_(void) { int t; int64_t live = sx_heap_live();
  for (t = 0; t < 4; t++) {
    MARK(); urkel_errno = 0; db = urkel_open(DB); if (db) return;
    sx_assert(faulted(), "open fails only when a system call failed"); sx_assert(urkel_errno == URKEL_EBADOPEN, "a failed open sets EBADOPEN"); sx_reach("failed open");
    sx_assert(sx_heap_live() == live, "a failed open releases its memory"); sx_assert(m_open_fds() == 0, "a failed open closes its files"); sx_assert(m_open_maps() <= m_k.nunmap, "a failed open removes its mappings");
  }
  sx_fail("open keeps failing"); sx_end();
}
static void check_all(void) { int i, f = pause_(); unsigned char r[32], w[32];
  urkel_root(db, r); ref_root(w, &last); sx_assert(sx_eq(r, w, 32), "the root is the last one committed");
  same_db(db, NULL, &last, k, nk); if (tx) same_tx(tx, &cur, k, nk);
  for (i = nh - 1; i >= 0; i--) { ref_root(w, &H[i]); same_db(db, w, &H[i], k, nk); }
  for (i = 0; i < nu; i++) { int j, was_ = 0; unsigned char h[32]; urkel_tx_t *t; ref_root(w, &U[i]); for (j = 0; j < nh; j++) { ref_root(h, &H[j]); was_ |= sx_eq(h, w, 32); } if (was_) continue; urkel_errno = 0; t = urkel_tx_create(db, w); sx_assert(t == NULL && urkel_errno == URKEL_ENOTFOUND, "a root whose commit failed is not a committed root"); if (t) urkel_tx_destroy(t); sx_reach("never committed"); }
  m_k.faults = f;
}
static void commit_(void) { int t, r, what = (int)sx_param("AFTER", -1); unsigned char a[32], b[32];
  for (t = 0; t < 4; t++) {
    MARK(); urkel_errno = 0; r = urkel_tx_commit(tx);
    if (r) { last = disk = cur; H[nh++] = cur; return; }
    sx_assert(faulted(), "commit fails only when a system call failed"); sx_assert(urkel_errno == URKEL_EBADWRITE, "a failed commit sets EBADWRITE"); sx_reach("failed commit"); if (nu < 8) U[nu++] = cur;
    check_all();
    urkel_tx_root(tx, a); ref_root(b, &cur); sx_assert(sx_eq(a, b, 32), "a failed commit leaves the transaction's root alone");
    if (what < 0 || what > 3) what = (int)sx_range(0, 3, "after_failure");
    if (what == 1) { urkel_tx_destroy(tx); tx = urkel_tx_create(db, NULL); cur = last; check_all(); sx_reach("dropped"); do_op(1); what = 0; }
    else if (what == 2) { urkel_tx_destroy(tx); urkel_close(db); tx = NULL; open_(); last = disk; check_all(); tx = urkel_tx_create(db, NULL); cur = last; sx_reach("reopened"); what = 0; }
    else if (what == 3) { urkel_tx_t *t2 = urkel_tx_create(db, NULL); struct rmap c2 = last; sx_assert(t2 != NULL, "a transaction can be created");
      { int q = 0; if (!urkel_tx_insert(t2, k[0], v[2], len[2])) q = urkel_tx_insert(t2, k[0], v[2], len[2]); (void)q; rm_put(&c2, k[0], v[2], len[2]); }
      r = urkel_tx_commit(t2); if (r) { last = disk = c2; H[nh++] = c2; sx_reach("another commits"); } urkel_tx_destroy(t2); check_all(); what = 0; }
    else sx_reach("retried");
  }
  sx_fail("commit keeps failing");
}
/* the calls that change and commit in one: all or nothing */
static void direct(int i) {
  int sel = (int)sx_range(0, 2, "op"), a = i % nk, r, t; struct rmap nxt;
  for (t = 0; t < 4; t++) {
    nxt = last; MARK(); urkel_errno = 0;
    if (sel == 2) { int had = rm_find(&last, k[a]) >= 0; r = urkel_remove(db, k[a]); if (!had) { sx_assert(!r, "remove of an absent key fails"); sx_assert(urkel_errno == URKEL_ENOTFOUND || (faulted() && urkel_errno == URKEL_ECORRUPTION), "remove of an absent key sets ENOTFOUND"); return; } rm_del(&nxt, k[a]); }
    else { r = urkel_insert(db, k[a], v[sel], len[sel]); rm_put(&nxt, k[a], v[sel], len[sel]); }
    sx_assert(r == 0 || r == 1, "a change answers 0 or 1");
    if (r) { last = disk = nxt; H[nh++] = nxt; check_all(); sx_reach("direct"); return; }
    sx_assert(faulted(), "a change fails only when a system call failed"); sx_assert(urkel_errno == URKEL_EBADWRITE || urkel_errno == URKEL_ECORRUPTION, "a change that fails sets EBADWRITE or ECORRUPTION"); sx_reach("failed change"); if (nu < 8) U[nu++] = nxt;
    check_all();
  }
  sx_fail("a change keeps failing");
}
static void reads(void) { int i, j, r; size_t n; static unsigned char out[1100]; unsigned char w[32]; unsigned char key[32]; urkel_iter_t *it; unsigned char *pr; int ex; struct rmap seen;
  for (i = 0; i < nk; i++) { j = rm_find(&last, k[i]);
    MARK(); urkel_errno = 0; r = urkel_has(db, k[i], NULL);
    if (r != (j >= 0)) { sx_assert(faulted() && !r && urkel_errno == URKEL_ECORRUPTION, "a has that cannot read sets ECORRUPTION"); sx_reach("failed read"); }
    else if (!r) sx_assert(urkel_errno == URKEL_ENOTFOUND || (faulted() && urkel_errno == URKEL_ECORRUPTION), "has on an absent key sets ENOTFOUND");
    if (tx && !sx_param("DIRECT", 0)) { MARK(); urkel_errno = 0; r = urkel_tx_has(tx, k[i]);
      if (r != (j >= 0)) { sx_assert(faulted() && !r && urkel_errno == URKEL_ECORRUPTION, "a has that cannot read sets ECORRUPTION"); sx_reach("failed read"); }
      MARK(); n = 7; urkel_errno = 0; r = urkel_tx_get(tx, out, &n, k[i]);
      if (r != (j >= 0)) { sx_assert(faulted() && !r && n == 0 && urkel_errno == URKEL_ECORRUPTION, "a get that cannot read sets ECORRUPTION"); sx_reach("failed read"); } }
    MARK(); n = 7; urkel_errno = 0; r = urkel_get(db, out, &n, k[i], NULL);
    if (faulted()) { sx_reach("failed read"); if (!r) sx_assert(n == 0 && (urkel_errno == URKEL_ECORRUPTION || (j < 0 && urkel_errno == URKEL_ENOTFOUND)), "a get that cannot read sets ECORRUPTION"); }
    else sx_assert(r == (j >= 0), "get answers whether the key is in the map"); 
    if (r) sx_assert(j >= 0 && n == last.e[j].len && sx_eq(out, last.e[j].val, n), "a get that succeeds returns the value");
    MARK(); pr = (void *)1; n = 7; urkel_errno = 0; r = urkel_prove(db, &pr, &n, k[i], NULL);
    if (!r) { sx_assert(faulted(), "prove fails only when a system call failed"); sx_assert(pr == NULL && n == 0 && urkel_errno == URKEL_ECORRUPTION, "a proof that cannot be read sets ECORRUPTION and clears its outputs"); }
    else { size_t l = 0; int f = pause_(); ref_root(w, &last); sx_assert(urkel_verify(&ex, out, &l, pr, n, k[i], w) == 1 && ex == (j >= 0), "a proof that is returned verifies"); urkel_free(pr); m_k.faults = f; }
  }
  MARK(); it = urkel_iterate(db, NULL); sx_assert(it != NULL, "an iterator can be created"); rm_init(&seen); if (!it) return;
  for (i = 0; i < 8; i++) { urkel_errno = 0; if (!urkel_iter_next(it, key, out, &n)) { sx_assert(urkel_errno == URKEL_EITEREND || (faulted() && urkel_errno == URKEL_ECORRUPTION), "an iterator that cannot read sets ECORRUPTION"); if (urkel_errno == URKEL_EITEREND) sx_assert(seen.n == last.n, "an iterator that ends has yielded everything"); break; }
    j = rm_find(&last, key); sx_assert(j >= 0 && rm_find(&seen, key) < 0, "an iterator yields keys of the map once"); if (j >= 0) sx_assert(n == last.e[j].len && sx_eq(out, last.e[j].val, n), "an iterator yields the value"); rm_put(&seen, key, out, n); }
  urkel_iter_destroy(it);
  for (i = 0; i < nh; i++) { urkel_tx_t *t; ref_root(w, &H[i]); MARK(); t = urkel_tx_create(db, w); if (!t) sx_assert(faulted(), "a transaction on a committed root fails only when a system call failed"); if (t) { int f = pause_(); same_tx(t, &H[i], k, nk); m_k.faults = f; urkel_tx_destroy(t); } }
}
/* committed roots looked up while system calls fail: a failure is not remembered */
static void history(void) { int i, j, r, n = 0; unsigned char w[32];
  for (j = nh - 1; j >= 0; j--) { ref_root(w, &H[j]);
    for (i = 0; i < nk; i++) { MARK(); urkel_errno = 0; r = urkel_has(db, k[i], w);
      if (r != (rm_find(&H[j], k[i]) >= 0)) { n++; sx_assert(faulted() && !r, "a lookup in a committed root fails only when a system call failed"); sx_reach("failed lookup"); MARK(); r = urkel_has(db, k[i], w); sx_assert(faulted() || r == (rm_find(&H[j], k[i]) >= 0), "a root that could not be read once is found again"); } } }
}
/* the database at a committed root: a failed commit leaves it there */
static void inject(void) { int x = (int)sx_range(0, nh - 1, "injected"), r, t; unsigned char w[32]; ref_root(w, &H[x]);
  for (t = 0; t < 4; t++) { MARK(); urkel_errno = 0; r = urkel_inject(db, w); if (r) { last = H[x]; cur = last; sx_reach("injected"); check_all(); return; } sx_assert(faulted(), "an inject of a committed root fails only when a system call failed"); check_all(); }
  sx_fail("an inject keeps failing");
}
/* destroy while a system call fails: it says whether the database is gone, and can be repeated */
static void destroy_(void) { int t, r, whole; int64_t live = sx_heap_live(); char p[64];
  for (t = 0; t < 4; t++) {
    MARK(); urkel_errno = 0; r = urkel_destroy(DB); sx_assert(r == 0 || r == 1, "destroy answers 0 or 1");
    sx_assert(sx_heap_live() == live, "destroy releases its memory"); sx_assert(m_open_fds() == 0, "destroy closes its files");
    sx_assert(r == !m_exists(DB), "destroy succeeds exactly when the database is gone");
    if (r) { sx_reach("destroyed"); return; }
    sx_assert(faulted(), "destroy fails only when a system call failed"); sx_assert(urkel_errno == URKEL_EBADOPEN, "a failed destroy sets EBADOPEN"); sx_reach("failed destroy");
    strcpy(p, DB "/0000000001"); whole = m_exists(DB "/meta") && m_exists(p); if (sx_param("MULTI", 0) && whole) { p[strlen(p) - 1] = '2'; whole = m_exists(p); }
    if (whole) { int f = pause_(); sx_reach("still whole"); db = urkel_open(DB); sx_assert(db != NULL, "the database opens"); if (!db) sx_end(); check_all(); urkel_close(db); db = NULL; m_k.faults = f; }
  }
  sx_fail("destroy keeps failing");
}
void harness(void) {
  int i, pre = (int)sx_param("PRE", 1), steps = (int)sx_param("STEPS", 1), batch = (int)sx_param("BATCH", 1), p = 0, r;
  m_init(); nk = (int)sx_param("NK", 2); mkkeys(k, nk, (int)sx_param("KEYS", 9));
  len[0] = sx_param("L0HI", 0) ? sx_range(sx_param("L0", 3), sx_param("L0HI", 0), "first_value") : (uint64_t)sx_param("L0", 3); len[1] = sx_param("L1", 5); len[2] = 4; for (i = 0; i < 3; i++) fillv(v[i], len[i], i + 1);
  rm_init(&cur); last = disk = cur; nh = 0; H[nh++] = cur; tx = NULL;
  if (pre >= 0) { db = urkel_open(DB); tx = urkel_tx_create(db, NULL); for (i = 0; i < pre; i++) { do_op(p++); commit_(); } urkel_tx_destroy(tx); urkel_close(db); tx = NULL; }
  m_k.fault_kinds = (int)sx_param("KINDS", 511); m_k.faults = (int)sx_param("FAULTS", 1); m_k.ops = 0; m_k.fault_at = sx_between(0, sx_param("MAXF", 500), "fault_at");
  if (sx_param("DESTROY", 0)) { destroy_(); m_k.faults = 0; db = urkel_open(DB); sx_assert(db != NULL, "a new database can be created"); if (!db) sx_end(); rm_init(&last); nh = 0; check_all(); urkel_close(db); clean_end(); return; }
  open_(); if (sx_param("HIST", 0)) history(); check_all();
  if (sx_param("INJECT", 0)) inject();
  if (sx_param("DIRECT", 0)) { for (i = 0; i < steps; i++) { direct(p++); if (sx_param("READS", 1)) reads(); } cur = last; }
  tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created");
  if (!sx_param("DIRECT", 0)) for (i = 0; i < steps; i++) { int j; for (j = 0; j < batch; j++) do_op(p++); commit_(); if (sx_param("READS", 1)) reads(); }
  check_all();
  urkel_tx_destroy(tx); urkel_close(db); tx = NULL;
  m_k.faults = 0; clean_end(); cur = last = disk;
  db = urkel_open(DB); sx_assert(db != NULL, "the database opens"); if (!db) sx_end();
  check_all(); tx = urkel_tx_create(db, NULL); do_op(p++); commit_(); urkel_tx_destroy(tx); tx = NULL; check_all(); urkel_close(db);
  db = urkel_open(DB); sx_assert(db != NULL, "the database opens"); if (!db) sx_end(); check_all(); urkel_close(db);
  r = urkel_destroy(DB); sx_assert(r == 1, "the database can be destroyed"); clean_end();
}
