/* shortio.c - reads and writes that transfer less than asked or are interrupted change nothing (C19) */
#include "h.h"
static unsigned char k[5][32], v[3][1024]; static size_t len[3]; static int nk;
struct log { struct rmap m; unsigned char root[12][32]; int nroot; int code[64]; int nc; uint64_t fsz[6]; unsigned char *fd[6]; int nf; unsigned char *pr[8]; size_t pl[8]; int np; };
static struct log A, B;
static void scenario(const char *dir, struct log *g) {
  static unsigned char out[1100]; urkel_t *db; urkel_tx_t *tx; urkel_iter_t *it; int i, r, s, steps = (int)sx_param("STEPS", 2), batch = (int)sx_param("BATCH", 2), pos = 0; size_t n; unsigned char key[32]; char path[64]; struct rmap H[12]; int nh = 0;
  g->nroot = g->nc = g->np = g->nf = 0; rm_init(&g->m); H[nh++] = g->m;
  db = urkel_open(dir); sx_assert(db != NULL, "open succeeds"); if (!db) sx_end();
  for (s = 0; s < steps; s++) {
    tx = urkel_tx_create(db, NULL); sx_assert(tx != NULL, "a transaction can be created"); if (!tx) sx_end();
    for (i = 0; i < batch; i++, pos++) { int a = pos % nk; if (pos % 4 == 3) { r = urkel_tx_remove(tx, k[a]); sx_assert(r == rm_del(&g->m, k[a]), "remove succeeds exactly when the key was present"); } else { r = urkel_tx_insert(tx, k[a], v[pos % 3], len[pos % 3]); rm_put(&g->m, k[a], v[pos % 3], len[pos % 3]); sx_assert(r == 1, "insert succeeds"); } }
    r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); urkel_tx_destroy(tx); H[nh++] = g->m;
    urkel_root(db, g->root[g->nroot++]);
    if (sx_param("REOPEN", 1)) { urkel_close(db); db = urkel_open(dir); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); }
  }
  same_db(db, NULL, &g->m, k, nk);
  for (i = 0; i < nk; i++) { r = urkel_prove(db, &g->pr[g->np], &g->pl[g->np], k[i], NULL); sx_assert(r == 1, "prove succeeds"); if (!r) sx_end(); g->np++; }
  for (i = nh - 1; i >= 0; i--) { unsigned char b[32]; ref_root(b, &H[i]); same_db(db, b, &H[i], k, nk); }
  it = urkel_iterate(db, NULL); sx_assert(it != NULL, "an iterator can be created"); if (!it) sx_end(); for (i = 0; urkel_iter_next(it, key, out, &n); i++) { int j = rm_find(&g->m, key); sx_assert(j >= 0 && n == g->m.e[j].len && sx_eq(out, g->m.e[j].val, n), "an iterator yields the pairs of the map"); } sx_assert(i == g->m.n, "an iterator yields every pair"); urkel_iter_destroy(it);
  urkel_close(db);
  for (i = 1; i < 6; i++) { size_t p = strlen(dir); memcpy(path, dir, p); memcpy(path + p, "/0000000001", 12); path[p + 10] = (char)('0' + i); if (!m_exists(path)) break; g->fsz[g->nf] = m_fsize(path); g->fd[g->nf++] = m_fdata(path); }
  memcpy(path + strlen(dir), "/meta", 6); g->fsz[g->nf] = m_fsize(path); g->fd[g->nf++] = m_fdata(path);
}
void harness(void) {
  int i; m_init(); nk = (int)sx_param("NK", 3); mkkeys(k, nk, (int)sx_param("KEYS", 9)); len[0] = sx_param("L0", 40); len[1] = sx_param("L1", 3); len[2] = 0; for (i = 0; i < 3; i++) fillv(v[i], len[i], i + 1);
  scenario("/w/a", &A);
  m_k.ios = 0; m_k.shortio = (int)sx_param("SHORT", 1); m_k.short_at = sx_between(0, sx_param("MAXS", 400), "short_at");
  scenario("/w/b", &B);
  if (m_k.shortio == 0) sx_reach("every interruption happened"); else sx_reach("fewer interruptions"); m_k.shortio = 0;
  if (A.nf > 2) sx_reach("several files");
  sx_assert(A.nroot == B.nroot && A.nf == B.nf && A.np == B.np, "interrupted I/O changes nothing"); if (A.nf != B.nf || A.np != B.np) sx_end();
  for (i = 0; i < A.nroot; i++) sx_assert(sx_eq(A.root[i], B.root[i], 32), "interrupted I/O leaves the roots alone");
  for (i = 0; i < A.nf; i++) { sx_assert(A.fsz[i] == B.fsz[i], "interrupted I/O leaves the file sizes alone"); if (A.fsz[i] != B.fsz[i]) sx_end(); sx_assert(sx_eq(A.fd[i], B.fd[i], A.fsz[i]), "interrupted I/O leaves the bytes on disk alone"); }
  for (i = 0; i < A.np; i++) { sx_assert(A.pl[i] == B.pl[i] && sx_eq(A.pr[i], B.pr[i], A.pl[i]), "interrupted I/O leaves the proofs alone"); urkel_free(A.pr[i]); urkel_free(B.pr[i]); }
  i = urkel_destroy("/w/b"); sx_assert(i == 1, "the database can be destroyed"); sx_assert(!m_exists("/w/b"), "destroying leaves nothing behind");
  clean_end();
}
