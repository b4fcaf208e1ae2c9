/* crash.c - the process dies at any system call of open, commit, close and recovery, in the middle of any write (C10) */
#include "h.h"
static unsigned char k[6][32]; static int nk, steps, batch;
static struct rmap H[12], cur, last, next; static int nh, inflight, pos_, opened, cycle;
static unsigned char v[3][1024]; static size_t len[3]; static urkel_t *db; static urkel_tx_t *tx;
static void one_op(int i) {
  int sel = (int)sx_param("OPSYM", 0) ? (int)sx_range(0, 2, "op") : i % 5 == 4 ? 2 : i & 1, a = i % nk, r, nf;
  if (sel == 2) { do { nf = m_k.nfault; r = urkel_tx_remove(tx, k[a]); } while (!r && m_k.nfault != nf); sx_assert(r == rm_del(&cur, k[a]), "remove succeeds exactly when the key was present"); }
  else { do { nf = m_k.nfault; r = urkel_tx_insert(tx, k[a], v[sel], len[sel]); } while (!r && m_k.nfault != nf); sx_assert(r == 1, "insert succeeds"); rm_put(&cur, k[a], v[sel], len[sel]); }
}
static void step(void) { int j, r;
  for (j = 0; j < batch; j++) one_op(pos_++);
  for (j = 0; j < 4; j++) {
    int nf = m_k.nfault;
    next = cur; inflight = 1; r = urkel_tx_commit(tx); inflight = 0;
    if (r) { last = cur; H[nh++] = last; return; }
    sx_assert(m_k.nfault != nf, "commit succeeds"); sx_reach("failed commit");
    if (sx_range(0, 1, "after_failure")) { urkel_tx_destroy(tx); tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created"); cur = last; one_op(pos_ + 2); sx_reach("dropped"); }
  }
  sx_fail("commit keeps failing");
}
static void work(void *a) { int i; (void)a;
  do { int nf = m_k.nfault; db = urkel_open(DB); sx_assert(db != NULL || m_k.nfault != nf, "the database opens"); } while (!db);
  opened = 1; cur = last; tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created");
  for (i = 0; i < steps; i++) step();
  urkel_tx_destroy(tx); urkel_close(db); tx = NULL; db = NULL;
}
static int gone_;
static void do_open(void *a) { (void)a; db = urkel_open(DB); if (!db) gone_ = 1; else urkel_close(db); }
void harness(void) {
  int i, c, re = (int)sx_param("RE", 1), pre = (int)sx_param("PRE", 1), maxc = (int)sx_param("MAXC", 300), r; unsigned char root[32], a[32], b[32]; 
  m_init(); nk = (int)sx_param("NK", 2); batch = (int)sx_param("BATCH", 1); mkkeys(k, nk, (int)sx_param("KEYS", 9));
  len[0] = sx_param("L0HI", 0) ? sx_range(sx_param("L0", 3), sx_param("L0HI", 0), "first_value") : (uint64_t)sx_param("L0", 3); len[1] = sx_param("L1", 5); for (i = 0; i < 3; i++) fillv(v[i], len[i], i + 1);
  rm_init(&cur); rm_init(&last); nh = 0; inflight = 0; pos_ = 0; opened = 0; H[nh++] = last;
  if (pre >= 0) { steps = pre; work(NULL); }
  steps = (int)sx_param("STEPS", 1); opened = pre >= 0;
  m_k.crash_on = 1; m_k.muts = 0; m_k.crashed = 0; m_k.crash_at = sx_between(0, maxc, "crash_at");
  if (sx_param("FAULTS", 0)) { m_k.faults = (int)sx_param("FAULTS", 0); m_k.fault_kinds = (int)sx_param("KINDS", F_WRITE | F_MMAP | F_TRUNC); m_k.ops = 0; m_k.fault_at = sx_between(0, sx_param("MAXF", 300), "fault_at"); }
  c = sx_try(work, NULL); m_k.faults = 0;
  if (!c) { sx_reach("no crash"); sx_assume(m_k.crash_at == (uint64_t)maxc); } else { sx_reach("crash"); m_kill_process(1); }
  if (c && sx_param("LOSE", 0)) m_lose(DB);
  for (i = 1; i < re && c; i++) { /* the recovery crashes too */
    m_k.crashed = 0; m_k.muts = 0; m_k.crash_at = sx_between(0, maxc, "crash_again"); db = NULL; gone_ = 0;
    c = sx_try(do_open, NULL); if (c) { m_kill_process(1); sx_reach("crash in recovery"); if (sx_param("LOSE", 0)) m_lose(DB); } else { sx_assert(!gone_, "the database opens after a crash"); sx_assume(m_k.crash_at == (uint64_t)maxc); }
  }
  m_k.crash_on = 0;
  db = urkel_open(DB); sx_assert(db != NULL, "the database opens after a crash"); if (!db) sx_end();
  urkel_root(db, root); ref_root(a, &last);
  if (sx_eq(root, a, 32)) { cur = last; sx_reach("last commit"); }
  else { sx_assert(inflight, "after a crash outside commit the root is the last committed one"); ref_root(b, &next); sx_assert(sx_eq(root, b, 32), "after a crash the root is the last or the current commit"); cur = last = next; H[nh++] = next; sx_reach("current commit"); }
  same_db(db, NULL, &cur, k, nk);
  for (i = nh - 1; i >= 0; i--) { ref_root(b, &H[i]); same_db(db, b, &H[i], k, nk); }
  /* and life goes on */
  tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created after a crash"); if (!tx) sx_end();
  for (cycle = 0; cycle < 2; cycle++) {
    pos_ = cycle + 7; step(); same_tx(tx, &cur, k, nk);
    if (cycle) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); }
  }
  urkel_tx_destroy(tx);
  urkel_root(db, root); ref_root(a, &cur); sx_assert(sx_eq(root, a, 32), "commits after a crash are durable");
  for (i = nh - 1; i >= 0; i--) { ref_root(b, &H[i]); same_db(db, b, &H[i], k, nk); }
  urkel_close(db); r = urkel_destroy(DB); sx_assert(r == 1, "the database can be destroyed after a crash"); sx_assert(!m_exists(DB), "destroying leaves nothing behind");
}
