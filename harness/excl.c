/* excl.c - two processes open, use, close and destroy one database in every order of their system calls (C15) */
#include "h.h"
static unsigned char k[4][32], v[3][64]; static int holder_, opened_[4], failed_[4], acted_, destroying_, gen_; static unsigned char none_[32];
static struct rmap M, Mnext; static int inflight_, maybe_; /* the state all commits so far amount to */
static void body(int me) {
  int i, n = (int)sx_param(me == 2 ? "ROUNDS2" : "ROUNDS", (int)sx_param("ROUNDS", 1)), mode = (int)sx_param(me == 1 ? "MODE1" : "MODE2", 0); urkel_t *db; urkel_tx_t *tx; unsigned char root[32], want[32];
  for (i = 0; i < n; i++) {
    if (mode == 1 || (mode > 1 && i % 2 == (mode == 3))) { /* destroy; mode 2: and open after it; mode 3: after opening */
      int h0 = holder_, g0 = gen_, r; destroying_++; r = urkel_destroy(DB); destroying_--;
      if (h0 && g0 == gen_ && holder_ == h0) { sx_assert(r == 0, "destroy fails while another process has the database open"); sx_reach("destroy refused"); }
      else { acted_ = 1; if (r) sx_reach("destroyed"); }
      continue;
    }
    urkel_errno = 0; db = urkel_open(DB);
    if (!db) { failed_[me]++; sx_assert(urkel_errno == URKEL_EBADOPEN, "a refused open sets EBADOPEN"); sx_reach("open refused"); continue; }
    sx_assert(holder_ == 0, "the database is open in one process at a time"); if (holder_) sx_end();
    holder_ = me; gen_++; opened_[me]++; sx_reach("opened"); if (me == 2) sx_reach("second opened");
    urkel_root(db, root); ref_root(want, &M); if (maybe_ && !sx_eq(root, want, 32)) { ref_root(want, &Mnext); M = Mnext; sx_reach("in flight"); } maybe_ = 0;
    if (acted_ || destroying_) { struct rmap none; rm_init(&none); ref_root(none_, &none); if (sx_eq(root, none_, 32)) { M = none; sx_reach("opened empty"); } else { sx_assert(sx_eq(root, want, 32), "the opener sees the last commit or a destroyed database"); if (!sx_eq(root, want, 32)) sx_end(); } }
    else { sx_assert(sx_eq(root, want, 32), "the opener sees the last commit"); if (!sx_eq(root, want, 32)) sx_end(); }
    if (sx_param("WORK", 1)) {
      tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created"); if (!tx) sx_end();
      sx_assert(urkel_tx_insert(tx, k[me], v[i & 1], 3 + i) == 1, "insert succeeds"); 
      Mnext = M; rm_put(&Mnext, k[me], v[i & 1], 3 + i); if (me == 1) inflight_ = 1;
      sx_assert(urkel_tx_commit(tx) == 1, "commit succeeds in the holder"); M = Mnext; if (me == 1) inflight_ = 0; same_tx(tx, &M, k, 3);
      urkel_tx_destroy(tx);
    }
    m_yield();
    holder_ = 0; gen_++; urkel_close(db);
  }
}
static void body1(void *a) { (void)a; body(1); }
static void p1(void *a) { (void)a;
  if (!sx_param("DIE", 0)) { body(1); return; }
  m_k.crash_on = 1; m_k.crash_pid = 2; m_k.crash_at = sx_between(0, sx_param("MAXC", 100), "dies_at");
  if (sx_try(body1, NULL)) { m_kill_process(2); m_k.crashed = 0; if (holder_ == 1) holder_ = 0; gen_++; if (inflight_) { maybe_ = 1; } sx_reach("died"); }
  m_k.crash_on = 0;
}
static void p2(void *a) { (void)a; body(2); }
static void p3(void *a) { (void)a; body(3); }
void harness(void) {
  urkel_t *db; unsigned char root[32], want[32]; urkel_tx_t *tx; int np = (int)sx_param("NP", 2);
  m_init(); mkkeys(k, 4, 9); fillv(v[0], 64, 1); fillv(v[1], 64, 2); rm_init(&M);
  if (sx_param("PRE", 1)) { db = urkel_open(DB); tx = urkel_tx_create(db, NULL); urkel_tx_insert(tx, k[0], v[0], 3); rm_put(&M, k[0], v[0], 3); sx_assert(urkel_tx_commit(tx) == 1, "commit succeeds"); urkel_tx_destroy(tx); urkel_close(db); }
  m_k.preempt = (int)sx_param("PREEMPT", 2);
  m_thread(p1, NULL, 2); m_thread(p2, NULL, 3); if (np > 2) m_thread(p3, NULL, 4);
  m_run_all(); m_k.preempt = 0;
  db = urkel_open(DB); sx_assert(db != NULL, "the database opens after both have closed it"); if (!db) sx_end();
  urkel_root(db, root); ref_root(want, &M); if (maybe_ && !sx_eq(root, want, 32)) { ref_root(want, &Mnext); M = Mnext; }
  if (acted_ && sx_eq(root, zero32_, 32)) sx_reach("gone");
  else { sx_assert(sx_eq(root, want, 32), "every commit of both processes is there"); same_db(db, NULL, &M, k, 3); }
  urkel_close(db);
}
