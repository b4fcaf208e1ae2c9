/* conc.c - threads use one handle and a shared transaction; every result must be that of some order of the calls (C14) */
#include "h.h"
#define NT 4
#define NS 4
enum { S_GET0, S_GET1, S_INS, S_REM, S_ROOT, S_PROVE, S_COMMIT, S_CLEAR, S_INJECT, S_ITER, D_GET, D_GETR, D_ROOT, D_INS, D_REM, D_PROVE, D_ITER, D_INJECT, D_UNK, O_NEW, O_NEWR, O_INS, O_COMMIT, O_FREE, O_GET, O_ITER, S_HAS, NOPS };
struct st { struct rmap db, s, own[NT]; int com[4]; };
struct res { int op, inv, ret, r, err; size_t n; unsigned char val[24], root[32]; unsigned char *proof; size_t plen; struct rmap seen; };
static unsigned char k[6][32], v[6][24], R0[32]; static struct rmap M0;
static urkel_t *db; static urkel_tx_t *S, *own[NT]; static struct res Q[NT][NS]; static int script[NT][NS], len_[NT], clk_;
static const size_t L[6] = {3, 20, 5, 7, 4, 6};
static void iterate(urkel_iter_t *it, struct res *q) {
  unsigned char key[32], val[32]; size_t n; rm_init(&q->seen); q->r = it != NULL; if (!it) { q->err = urkel_errno; return; }
  while (urkel_iter_next(it, key, val, &n)) { if (q->seen.n > 10) { sx_fail("an iterator yields more pairs than there are"); break; } if (rm_find(&q->seen, key) >= 0) q->r = 2; rm_put(&q->seen, key, val, n); if (sx_param("SLOWITER", 1)) m_yield(); }
  if (urkel_errno != URKEL_EITEREND) q->r = 3;
  urkel_iter_destroy(it);
}
static void run(int me, int i) {
  struct res *q = &Q[me][i]; unsigned char u[32], ky[32]; q->op = script[me][i]; q->n = 0; q->err = 0; q->r = 0; q->proof = NULL; urkel_errno = 0; q->inv = clk_++;
  switch (q->op) {
    case S_GET0: q->r = urkel_tx_get(S, q->val, &q->n, k[0]); break;
    case S_GET1: q->r = urkel_tx_get(S, q->val, &q->n, k[1]); break;
    case S_HAS: q->r = urkel_tx_has(S, k[3]); break;
    case S_INS: q->r = urkel_tx_insert(S, k[1], v[1 + me], L[1 + me]); break;
    case S_REM: q->r = urkel_tx_remove(S, k[0]); break;
    case S_ROOT: urkel_tx_root(S, q->root); q->r = 1; break;
    case S_PROVE: q->r = urkel_tx_prove(S, &q->proof, &q->plen, k[0]); break;
    case S_COMMIT: q->r = urkel_tx_commit(S); break;
    case S_CLEAR: urkel_tx_clear(S); q->r = 1; break;
    case S_INJECT: q->r = urkel_tx_inject(S, R0); break;
    case S_ITER: iterate(urkel_iter_create(S), q); break;
    case D_GET: q->r = urkel_get(db, q->val, &q->n, k[0], NULL); break;
    case D_GETR: q->r = urkel_get(db, q->val, &q->n, k[0], R0); break;
    case D_ROOT: urkel_root(db, q->root); q->r = 1; break;
    case D_INS: q->r = urkel_insert(db, k[1 + me], v[1 + me], L[1 + me]); break;
    case D_REM: q->r = urkel_remove(db, k[0]); break;
    case D_PROVE: q->r = urkel_prove(db, &q->proof, &q->plen, k[0], NULL); break;
    case D_ITER: iterate(urkel_iterate(db, NULL), q); break;
    case D_INJECT: q->r = urkel_inject(db, R0); break;
    case D_UNK: memcpy(u, R0, 32); u[5] ^= 4; q->r = urkel_has(db, k[0], u); break;
    case O_NEW: own[me] = urkel_tx_create(db, NULL); q->r = own[me] != NULL; break;
    case O_NEWR: own[me] = urkel_tx_create(db, R0); q->r = own[me] != NULL; break;
    case O_INS: q->r = urkel_tx_insert(own[me], k[2 + me], v[2 + me], L[2 + me]); break;
    case O_COMMIT: q->r = urkel_tx_commit(own[me]); break;
    case O_FREE: urkel_tx_destroy(own[me]); own[me] = NULL; q->r = 1; break;
    case O_GET: memcpy(ky, k[0], 32); q->r = urkel_tx_get(own[me], q->val, &q->n, ky); break;
    case O_ITER: iterate(urkel_iter_create(own[me]), q); break;
  }
  if (!q->r && !q->err) q->err = urkel_errno;
  q->ret = clk_++;
}
static void th(void *a) { int me = (int)(intptr_t)a, i; for (i = 0; i < len_[me]; i++) run(me, i); }
/* ---- the sequential meaning of each call */
static int val_ok(const struct res *q, const struct rmap *m, const unsigned char *key) { int j = rm_find(m, key); if (j < 0) return q->r == 0 && q->n == 0 && q->err == URKEL_ENOTFOUND; return q->r == 1 && q->n == m->e[j].len && memcmp(q->val, m->e[j].val, q->n) == 0; }
static int root_ok(const struct res *q, const struct rmap *m) { unsigned char w[32]; ref_root(w, m); return sx_eq(w, q->root, 32); }
static int proof_ok(const struct res *q, const struct rmap *m, const unsigned char *key) { unsigned char w[32], val[1100]; int ex = 5, j = rm_find(m, key); size_t n = 0; if (q->r != 1) return 0; ref_root(w, m); if (!urkel_verify(&ex, val, &n, q->proof, q->plen, key, w)) return 0; if (ex != (j >= 0)) return 0; return j < 0 || (n == m->e[j].len && memcmp(val, m->e[j].val, n) == 0); }
static int iter_ok(const struct res *q, const struct rmap *m) { int i; if (q->r != 1 || q->seen.n != m->n) return 0; for (i = 0; i < m->n; i++) { int j = rm_find(&q->seen, m->e[i].key); if (j < 0 || q->seen.e[j].len != m->e[i].len || memcmp(q->seen.e[j].val, m->e[i].val, m->e[i].len)) return 0; } return 1; }
static int step(struct st *s, int me, const struct res *q) {
  int r;
  switch (q->op) {
    case S_GET0: return val_ok(q, &s->s, k[0]);
    case S_GET1: return val_ok(q, &s->s, k[1]);
    case S_HAS: return q->r == (rm_find(&s->s, k[3]) >= 0) && (q->r || q->err == URKEL_ENOTFOUND);
    case S_INS: rm_put(&s->s, k[1], v[1 + me], L[1 + me]); return q->r == 1;
    case S_REM: r = rm_del(&s->s, k[0]); return q->r == r && (r || q->err == URKEL_ENOTFOUND);
    case S_ROOT: return root_ok(q, &s->s);
    case S_PROVE: return proof_ok(q, &s->s, k[0]);
    case S_COMMIT: s->db = s->s; return q->r == 1;
    case S_CLEAR: s->s = s->db; return 1;
    case S_INJECT: s->s = M0; return q->r == 1;
    case S_ITER: return iter_ok(q, &s->s);
    case D_GET: return val_ok(q, &s->db, k[0]);
    case D_GETR: return val_ok(q, &M0, k[0]);
    case D_ROOT: return root_ok(q, &s->db);
    case D_INS: rm_put(&s->db, k[1 + me], v[1 + me], L[1 + me]); return q->r == 1;
    case D_REM: r = rm_del(&s->db, k[0]); return q->r == r && (r || q->err == URKEL_ENOTFOUND);
    case D_PROVE: return proof_ok(q, &s->db, k[0]);
    case D_ITER: return iter_ok(q, &s->db);
    case D_INJECT: s->db = M0; return q->r == 1;
    case D_UNK: return q->r == 0 && q->err == URKEL_ENOTFOUND;
    case O_NEW: s->own[me] = s->db; return q->r == 1;
    case O_NEWR: s->own[me] = M0; return q->r == 1;
    case O_INS: rm_put(&s->own[me], k[2 + me], v[2 + me], L[2 + me]); return q->r == 1;
    case O_COMMIT: s->db = s->own[me]; return q->r == 1;
    case O_FREE: return 1;
    case O_GET: return val_ok(q, &s->own[me], k[0]);
    case O_ITER: return iter_ok(q, &s->own[me]);
  }
  return 0;
}
static unsigned char froot_[32], sroot_[32]; static int np_;
static int place(const struct st *s, const int *at) {
  int t, u, left = 0, i; unsigned char w[32];
  for (t = 1; t <= np_; t++) {
    struct st n; int at2[NT]; const struct res *q; if (at[t] >= len_[t]) continue; left++; q = &Q[t][at[t]];
    for (u = 1; u <= np_; u++) if (u != t && at[u] < len_[u] && Q[u][at[u]].ret < q->inv) break; /* u's call ended before this one began */
    if (u <= np_) continue;
    n = *s; if (!step(&n, t, q)) continue;
    for (i = 0; i < NT; i++) at2[i] = at[i]; at2[t]++;
    if (place(&n, at2)) return 1;
  }
  if (left) return 0;
  ref_root(w, &s->db); if (!sx_eq(w, froot_, 32)) return 0;
  ref_root(w, &s->s); return sx_eq(w, sroot_, 32);
}
void harness(void) {
  int i, j, r, at[NT] = {0}; struct st s; static const char *nm[NT] = {"T0", "T1", "T2", "T3"}; unsigned char last[32];
  m_init(); mkkeys(k, 6, (int)sx_param("KEYS", 9)); for (i = 0; i < 6; i++) fillv(v[i], L[i], i + 1);
  np_ = (int)sx_param("NP", 2); rm_init(&s.db); for (i = 0; i < NT; i++) { rm_init(&s.own[i]); own[i] = NULL; len_[i] = 0; } clk_ = 0;
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end();
  for (i = 0; i < (int)sx_param("PRE", 2); i++) { r = urkel_insert(db, k[i], v[i], L[i]); sx_assert(r == 1, "insert on the database succeeds"); rm_put(&s.db, k[i], v[i], L[i]); if (i == 0) { M0 = s.db; urkel_root(db, R0); } }
  if (sx_param("REOPEN", 1)) { urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); }
  S = urkel_tx_create(db, NULL); s.s = s.db; sx_assert(S != NULL, "a transaction can be created"); if (!S) sx_end();
  if (sx_param("DIRTY", 1)) { r = urkel_tx_insert(S, k[3], v[3], L[3]); rm_put(&s.s, k[3], v[3], L[3]); sx_assert(r == 1, "insert succeeds"); }
  if (sx_param("REVERT", 0)) { r = urkel_inject(db, R0); s.db = M0; sx_assert(r == 1, "a committed root can be injected"); }
  for (i = 1; i <= np_; i++) {
    int64_t p = sx_param(nm[i], -1);
    if (p >= 0) { do { script[i][len_[i]++] = (int)(p % 100); p /= 100; } while (p); }
    else { int lo = (int)sx_param(i == 1 ? "LO" : "LO2", 0), hi = (int)sx_param(i == 1 ? "HI" : "HI2", D_UNK); if (i > 1 && sx_param("T1", -1) < 0 && script[i - 1][0] > lo) lo = script[i - 1][0]; script[i][0] = (int)sx_range(lo, hi, "op"); len_[i] = 1; }
    if (len_[i] > NS) sx_fail("script too long");
  }
  m_k.preempt = (int)sx_param("PREEMPT", 2);
  for (i = 1; i <= np_; i++) m_thread(th, (void *)(intptr_t)i, 1);
  m_run_all(); m_k.preempt = 0;
  urkel_root(db, froot_); urkel_tx_root(S, sroot_);
  sx_reach("all calls return"); for (j = 0; j < len_[1]; j++) for (i = 0; i < len_[2]; i++) if (Q[1][j].inv < Q[2][i].ret && Q[2][i].inv < Q[1][j].ret) sx_reach("overlap");
  r = place(&s, at); sx_assert(r, "the results are those of some order of the calls"); 
  for (i = 1; i <= np_; i++) for (j = 0; j < len_[i]; j++) if (Q[i][j].proof) urkel_free(Q[i][j].proof);
  for (i = 1; i <= np_; i++) if (own[i]) urkel_tx_destroy(own[i]);
  urkel_tx_destroy(S);
  if (sx_param("AFTER", 1)) { int wrote = 0; for (i = 1; i <= np_; i++) for (j = 0; j < len_[i]; j++) wrote |= script[i][j] == D_INJECT; wrote |= (int)sx_param("REVERT", 0);
    urkel_close(db); clean_end(); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); urkel_root(db, last); if (!wrote) sx_assert(sx_eq(last, froot_, 32), "the last commit survives a reopen"); }
  urkel_close(db); clean_end();
}
