/* wire.c - the bytes of the data files are those of the published format, read and written independently (C25) */
#include "h.h"
#include "refproof.h"
#include "blake2b.h"
#ifdef GOLD
#include "golden.h"
void m_hash(unsigned char *out, const void *data, size_t n) { (void)out; (void)data; (void)n; sx_fail("not used"); }
#define MAC(o, d, n, key) memset(o, 0, 20)
#else
void m_urkel_blake2b_init(urkel_blake2b_t *ctx, size_t outlen, const unsigned char *key, size_t keylen); void m_urkel_blake2b_update(urkel_blake2b_t *ctx, const void *data, size_t len); void m_urkel_blake2b_final(urkel_blake2b_t *ctx, unsigned char *out);
static void MAC(unsigned char *o, const unsigned char *d, size_t n, const unsigned char *key) { urkel_blake2b_t c; m_urkel_blake2b_init(&c, 20, key, 32); m_urkel_blake2b_update(&c, d, n); m_urkel_blake2b_final(&c, o); }
#endif
#define NF 24
#define CAP 9000
static unsigned char k[6][32], v[6][1024]; static size_t len[6]; static int nk, nh; static struct rmap H[12], m; static unsigned char R[12][32]; static urkel_t *db;
struct ptr { unsigned idx; uint64_t pos; size_t size; };
static char nm_[64];
static const char *file(unsigned i) { int j; strcpy(nm_, DB "/0000000000"); for (j = (int)strlen(nm_) - 1; i; j--, i /= 10) nm_[j] = '0' + i % 10; return nm_; }
/* seven bytes: 15 bits of file number and size bit 9, 31 bits of position and size bit 8, the low 8 bits of the size; little endian */
static struct ptr rd(const unsigned char *p) {
  struct ptr r; unsigned a = (unsigned)sx_concretize(p[0] | p[1] << 8); uint64_t b = sx_concretize(p[2] | (uint64_t)p[3] << 8 | (uint64_t)p[4] << 16 | (uint64_t)p[5] << 24);
  r.idx = a >> 1; r.pos = b >> 1; r.size = (a & 1) << 9 | (b & 1) << 8 | (size_t)sx_concretize(p[6]); return r;
}
static void wr(unsigned char *p, struct ptr r) { unsigned a = r.idx * 2 + (unsigned)(r.size / 512); uint64_t b = r.pos * 2 + r.size / 256 % 2; p[0] = a & 255; p[1] = a >> 8; p[2] = b & 255; p[3] = b >> 8 & 255; p[4] = b >> 16 & 255; p[5] = b >> 24; p[6] = r.size % 256; }
/* ---- which bytes belong to which record */
static unsigned short cov[NF][CAP]; static int covering;
static const unsigned char *at(struct ptr p) {
  const char *f = file(p.idx); int64_t sz = p.idx ? m_fsize(f) : -1; size_t i;
  sx_assert(sz >= 0 && p.pos + p.size <= (uint64_t)sz, "a pointer refers to bytes of a data file"); if (!(sz >= 0 && p.pos + p.size <= (uint64_t)sz)) sx_end();
  if (covering && p.idx < NF && p.pos + p.size <= CAP) for (i = 0; i < p.size; i++) { unsigned short id = (unsigned short)(p.pos + 1); sx_assert(cov[p.idx][p.pos + i] == 0 || cov[p.idx][p.pos + i] == id, "no two records overlap"); cov[p.idx][p.pos + i] = id; }
  return m_fdata(f) + p.pos;
}
static void node(struct ptr p, const struct rent *e, int n, int depth) {
  unsigned char x[160]; const unsigned char *b; size_t w = 0, lp, rp; int d, i, na = 0, nb = 0, plen; struct rent l[16], r[16];
  if (n == 1) {
    struct ptr vp; sx_assert(p.size == 40, "a leaf record has 40 bytes"); if (p.size != 40) sx_end();
    b = at(p); sx_assert(b[0] == 2, "a leaf record starts with its type"); sx_assert(sx_eq(b + 8, e->key, 32), "a leaf record ends with its key");
    vp = rd(b + 1); sx_assert(vp.size == e->len, "a leaf record holds the size of its value"); if (vp.size != e->len) sx_end();
    { const unsigned char *vb = at(vp); if (e->len) sx_assert(sx_eq(vb, e->val, e->len), "a leaf record points at the bytes of its value"); } return;
  }
  for (d = depth; d < 256; d++) { int same = 1; for (i = 1; i < n; i++) if (bit_(e[i].key, d) != bit_(e[0].key, d)) { same = 0; break; } if (!same) break; }
  for (i = 0; i < n; i++) if (bit_(e[i].key, d)) r[nb++] = e[i]; else l[na++] = e[i];
  plen = d - depth; x[w++] = plen ? 0x11 : 1; if (plen) { x[w++] = plen & 255; for (i = 0; i < (plen + 7) / 8; i++) x[w + i] = 0; for (i = 0; i < plen; i++) x[w + i / 8] |= bit_(e[0].key, depth + i) << (7 - i % 8); w += (plen + 7) / 8; sx_reach(plen > 127 ? "long prefix" : "prefix"); } else sx_reach("no prefix");
  sx_assert(p.size == w + 78, "an internal record has the documented size"); if (p.size != w + 78) sx_end();
  b = at(p); sx_assert(sx_eq(b, x, w), "an internal record starts with its type, flags and prefix");
  lp = w; rp = w + 39; ref_node(x, l, na, d + 1); sx_assert(sx_eq(b + lp + 7, x, 32), "an internal record holds the hash of its left child"); ref_node(x, r, nb, d + 1); sx_assert(sx_eq(b + rp + 7, x, 32), "an internal record holds the hash of its right child");
  node(rd(b + lp), l, na, d + 1); node(rd(b + rp), r, nb, d + 1);
}
static unsigned char mkey[32];
/* every commit record, from the last to the first, and the tree below each */
static void readback(int strict) {
  struct ptr p; unsigned i; int c; size_t j; unsigned char x[20]; static unsigned char q[3000];
  memset(cov, 0, sizeof cov); covering = strict; sx_assert(m_fsize(DB "/meta") == 32, "the key file has 32 bytes"); memcpy(mkey, m_fdata(DB "/meta"), 32);
  for (i = 1; m_fsize(file(i + 1)) > 0; i++) {}
  p.idx = i; p.size = 38; sx_assert(m_fsize(file(i)) >= 38 && m_fsize(file(i)) % 38 == 0, "a committed file ends with an aligned record"); if (m_fsize(file(i)) < 38) sx_end(); p.pos = m_fsize(file(i)) - 38; if (i > 1) sx_reach("several files");
  for (c = nh - 1; c >= 1; c--) {
    const unsigned char *b; struct ptr r; p.size = 38; b = at(p); 
    sx_assert(p.pos % 38 == 0, "commit records are aligned"); sx_assert(sx_eq(b, "lkrm", 4), "a commit record starts with the magic number");
    MAC(x, b, 18, mkey); sx_assert(sx_eq(b + 18, x, 20), "a commit record ends with the keyed checksum of its start");
    r = rd(b + 11); if (H[c].n == 0) sx_assert(r.idx == 0 && r.pos == 0 && r.size == 0, "the commit record of an empty tree holds a null pointer"); else node(r, H[c].e, H[c].n, 0);
    p = rd(b + 4); sx_assert(p.size == 0, "a commit record holds the position of the one before"); if (c == 1) sx_assert(p.idx == 0 && p.pos == 0, "the first commit record refers to none"); else if (p.idx == 0) { sx_fail("every commit record refers to the one before"); sx_end(); }
  }
  sx_reach("read back");
  if (strict) for (i = 1; i < NF && (int64_t)m_fsize(file(i)) >= 0; i++) { /* what is left is padding */
    int64_t sz = m_fsize(file(i)), run = 0, o; const unsigned char *d; size_t nq = 0; if (sz > CAP) continue; d = m_fdata(nm_);
    for (o = 0; o < sz; o++) { if (cov[i][o]) run = 0; else { run++; q[nq++] = d[o]; sx_assert(run < 38, "between the records there is only padding"); if (run >= 38 || nq == sizeof q) sx_end(); } }
    for (j = 0; j < nq; j++) sx_assert(q[j] == 0, "padding is zero"); if (nq) sx_reach("padding");
  }
  covering = 0;
}
static void done(urkel_tx_t *tx) { int r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); if (!r) sx_end(); H[nh] = m; ref_root(R[nh], &m); nh++; }
/* ---- 0: the library writes, we read */
static void reads(void) {
  int i, r, steps = (int)sx_param("STEPS", 2), b, batch = (int)sx_param("BATCH", 1), pos = 0; urkel_tx_t *tx; static const int vs[] = {0, 1, 255, 256, 511, 512, 1022, 1023};
  nk = (int)sx_param("NK", 2); mkkeys(k, nk, (int)sx_param("KEYS", 4)); rm_init(&m); H[nh++] = m;
  for (i = 0; i < nk; i++) { len[i] = sx_param("SIZES", 0) ? i == 0 ? sx_range(sx_param("LO", 0), sx_param("HI", 1023), "size") : (size_t)vs[sx_range(0, 7, "size_class")] : (size_t)(3 + 5 * i); fillv(v[i], len[i], i + 1); if (sx_param("VSYM", 0) && len[i] > 2) sx_sym(v[i], 3, "value"); }
  db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL);
  for (i = 0; i < steps; i++) {
    for (b = 0; b < batch; b++, pos++) { int a = pos % nk; if (sx_param("DEL", 0) && (int)sx_range(0, 1, "remove")) { urkel_tx_remove(tx, k[a]); rm_del(&m, k[a]); } else { if (pos >= nk) { len[a] = 7 + (size_t)pos; fillv(v[a], len[a], pos); } r = urkel_tx_insert(tx, k[a], v[a], len[a]); sx_assert(r == 1, "insert succeeds"); rm_put(&m, k[a], v[a], len[a]); } }
    done(tx); if (sx_param("REOPEN", 0)) { urkel_tx_destroy(tx); urkel_close(db); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); tx = urkel_tx_create(db, NULL); }
  }
  urkel_tx_destroy(tx); urkel_close(db); readback(1);
}
/* ---- 1: we write, the library reads */
static unsigned wi; static int order;
static struct ptr append(const void *p, size_t n) { const char *f = file(wi); struct ptr r; r.idx = wi; r.pos = (uint64_t)m_fsize(f); r.size = n; if (n) memcpy(m_fdata(f) + r.pos, p, n); m_fsetsize(f, r.pos + n); return r; }
static struct ptr put(const struct rent *e, int n, int depth) {
  unsigned char x[160]; size_t w = 0; int d, i, na = 0, nb = 0, plen; struct rent l[16], r[16]; struct ptr a, b;
  if (n == 1) { x[0] = 2; wr(x + 1, append(e->val, e->len)); memcpy(x + 8, e->key, 32); return append(x, 40); }
  for (d = depth; d < 256; d++) { int same = 1; for (i = 1; i < n; i++) if (bit_(e[i].key, d) != bit_(e[0].key, d)) { same = 0; break; } if (!same) break; }
  for (i = 0; i < n; i++) if (bit_(e[i].key, d)) r[nb++] = e[i]; else l[na++] = e[i];
  plen = d - depth; x[w++] = plen ? 0x11 : 1; if (plen) { x[w++] = plen & 255; for (i = 0; i < (plen + 7) / 8; i++) x[w + i] = 0; for (i = 0; i < plen; i++) x[w + i / 8] |= bit_(e[0].key, depth + i) << (7 - i % 8); w += (plen + 7) / 8; }
  if (order) { b = put(r, nb, d + 1); a = put(l, na, d + 1); } else { a = put(l, na, d + 1); b = put(r, nb, d + 1); }
  wr(x + w, a); ref_node(x + w + 7, l, na, d + 1); w += 39; wr(x + w, b); ref_node(x + w + 7, r, nb, d + 1); return append(x, w + 39);
}
static void seek_(uint64_t n) { if (n > (uint64_t)m_fsize(file(wi))) m_fsetsize(nm_, n); }
static struct ptr record(struct ptr prev, const struct rmap *x) {
  unsigned char b[38]; struct ptr r = {0, 0, 0}; int64_t sz; if (x->n) r = put(x->e, x->n, 0);
  memcpy(b, "lkrm", 4); prev.size = 0; wr(b + 4, prev); wr(b + 11, r); MAC(b + 18, b, 18, mkey); sz = m_fsize(file(wi)); m_fsetsize(nm_, (sz + 37) / 38 * 38); return append(b, 38);
}
static void uses(void) { /* everything in every snapshot */
  int c, i; unsigned char w[32], key[32]; static unsigned char out[1100], want[2600]; size_t n, wl, l; unsigned char *pr; int r, ex; urkel_iter_t *it;
  urkel_root(db, w); sx_assert(sx_eq(w, R[nh - 1], 32), "the root is that of the last commit record");
  for (c = nh - 1; c >= 0; c--) {
    same_db(db, R[c], &H[c], k, nk);
    it = urkel_iterate(db, R[c]); sx_assert(it != NULL, "every commit record is a snapshot"); if (!it) continue;
    for (i = 0; i < H[c].n; i++) { r = urkel_iter_next(it, key, out, &n); sx_assert(r == 1, "the iterator yields every pair"); if (!r) break; }
    r = urkel_iter_next(it, key, out, &n); sx_assert(r == 0 && urkel_errno == URKEL_EITEREND, "the iterator ends"); urkel_iter_destroy(it);
    for (i = 0; i < nk; i++) { r = urkel_prove(db, &pr, &n, k[i], R[c]); sx_assert(r == 1, "prove succeeds"); if (!r) break; wl = ref_proof(want, &H[c], k[i]); sx_assert(n == wl && sx_eq(pr, want, wl), "the proof has the documented bytes"); r = urkel_verify(&ex, out, &l, want, wl, k[i], R[c]); sx_assert(r == 1 && ex == (rm_find(&H[c], k[i]) >= 0), "a proof written by someone else verifies"); urkel_free(pr); }
  }
}
static void writes(void) {
  int i, r, steps = (int)sx_param("STEPS", 2); struct ptr prev = {0, 0, 0}; urkel_tx_t *tx; unsigned first = (unsigned)sx_param("IDX", 1); uint64_t start = (uint64_t)sx_param("POS", 0);
  nk = (int)sx_param("NK", 2); mkkeys(k, nk, (int)sx_param("KEYS", 4)); rm_init(&m); H[nh++] = m; order = sx_param("ORDER", -1) >= 0 ? (int)sx_param("ORDER", -1) : (int)sx_range(0, 1, "order");
  if (start > 1000000) m_k.filecap = 0x7ffff000ull;
  for (i = 0; i < 32; i++) mkey[i] = (unsigned char)(i * 5 + 3); m_mkdirp(DB); m_fput(DB "/meta", mkey, 32); for (wi = 1; wi < first; wi++) m_fput(file(wi), "", 0); m_fput(file(wi), "", 0);
  for (i = 0; i < nk; i++) { len[i] = i == 0 ? sx_range(sx_param("LO", 0), sx_param("HI", 3), "size") : (size_t)(3 + 5 * i); fillv(v[i], len[i], i + 1); if (sx_param("VSYM", 0) && len[i] > 2) sx_sym(v[i], 3, "value"); }
  for (i = 0; i < steps; i++) {
    int a = i % nk; if (i == 1 && start) seek_(start + sx_range(0, (uint64_t)sx_param("NPOS", 2), "position")); if (sx_param("GAP", 0)) seek_((uint64_t)m_fsize(file(wi)) + sx_range(0, (uint64_t)sx_param("GAP", 0), "gap"));
    if (i >= nk) { if (sx_param("DEL", 0)) rm_del(&m, k[a]); else { len[a] = 9; rm_put(&m, k[a], v[a], 9); } } else rm_put(&m, k[a], v[a], len[a]);
    if (sx_param("SPLIT", 0) && i) { wi++; m_fput(file(wi), "", 0); }
    prev = record(prev, &m); H[nh] = m; ref_root(R[nh], &m); nh++;
  }
  db = urkel_open(DB); sx_assert(db != NULL, "a database written by someone else opens"); if (!db) sx_end(); uses();
  tx = urkel_tx_create(db, NULL); fillv(v[5], 300, 9); r = urkel_tx_insert(tx, k[0], v[5], 300); sx_assert(r == 1, "insert succeeds"); rm_put(&m, k[0], v[5], 300); done(tx); urkel_tx_destroy(tx); uses(); urkel_close(db);
  if (first == 1) readback(0); db = urkel_open(DB); sx_assert(db != NULL, "the database reopens"); if (!db) sx_end(); uses(); urkel_close(db); sx_reach("written");
}
#ifdef GOLD
/* ---- 2: files and proofs of an earlier version */
static void ins(int i, size_t n, int seed) { unsigned char *x = sx_malloc(n + 1); fillv(x, n, seed); rm_put(&m, k[i], x, n); }
static void gold(void) {
  static const unsigned char *const roots[] = {gold_root0, gold_root1, gold_root2, gold_root3, gold_root4, gold_root5, gold_root6}, *const proofs[] = {gold_proof0, gold_proof1, gold_proof2, gold_proof3, gold_proof4, gold_proof5}; static const size_t pn[] = {sizeof gold_proof0, sizeof gold_proof1, sizeof gold_proof2, sizeof gold_proof3, sizeof gold_proof4, sizeof gold_proof5};
  static const unsigned char at_[] = {0, 255, 0, 8, 129, 7}; int i, j, c, ex, r, upto = (int)sx_range(0, 1, "append"); unsigned char w[32], *pr; static unsigned char out[1100]; size_t n;
  for (i = 0; i < 6; i++) { for (j = 0; j < 32; j++) k[i][j] = 0x96 ^ (unsigned char)(j * 37); if (i) k[i][at_[i] >> 3] ^= 0x80 >> (at_[i] & 7); } nk = 6; rm_init(&m);
  m_mkdirp(DB); m_fput(DB "/meta", gold_key, 32); if (!upto) m_fput(DB "/0000000001", gold_file, sizeof gold_file);
  db = urkel_open(DB); sx_assert(db != NULL, "a database of an earlier version opens"); if (!db) sx_end();
  for (c = 0; c < 7; c++) {
    urkel_tx_t *tx = upto ? urkel_tx_create(db, NULL) : NULL;
    switch (c) { case 0: ins(0, 3, 1); break; case 1: ins(1, 0, 2); break; case 2: ins(2, 254, 3); ins(3, 200, 4); break; case 3: ins(4, 255, 5); ins(0, 128, 6); break; case 4: rm_del(&m, k[3]); ins(5, 129, 7); break; case 5: rm_init(&m); break; case 6: ins(0, 1, 8); break; }
    if (upto) { /* the same commits made again give the same roots and proofs */
      for (i = 0; i < 6; i++) { j = rm_find(&m, k[i]); if (j < 0) urkel_tx_remove(tx, k[i]); else { r = urkel_tx_insert(tx, k[i], m.e[j].val, m.e[j].len); sx_assert(r == 1, "insert succeeds"); } }
      r = urkel_tx_commit(tx); sx_assert(r == 1, "commit succeeds"); urkel_tx_root(tx, w); sx_assert(memcmp(w, roots[c], 32) == 0, "the roots are those of an earlier version"); urkel_tx_destroy(tx);
    }
    same_db(db, roots[c], &m, k, nk);
    if (c == 3) for (i = 0; i < 6; i++) { r = urkel_prove(db, &pr, &n, k[i], roots[c]); sx_assert(r == 1 && n == pn[i] && memcmp(pr, proofs[i], n) == 0, "the proofs are those of an earlier version"); if (r) urkel_free(pr); r = urkel_verify(&ex, out, &n, proofs[i], pn[i], k[i], roots[c]); j = rm_find(&m, k[i]); sx_assert(r == 1 && ex == (j >= 0) && (j < 0 || (n == m.e[j].len && memcmp(out, m.e[j].val, n) == 0)), "the proofs of an earlier version verify"); }
  }
  urkel_root(db, w); sx_assert(memcmp(w, roots[6], 32) == 0, "the root is that of the last commit record"); urkel_close(db); sx_reach("gold");
}
/* ---- 3: the example of the README */
static void unhex(unsigned char *o, const char *s) { while (*s) { int i, x = 0; for (i = 0; i < 2; i++, s++) x = x * 16 + (*s <= '9' ? *s - '0' : *s - 'a' + 10); *o++ = (unsigned char)x; } }
static void readme(void) {
  unsigned char foo[32], bar[32], w[32], r1[32], r2[32], z[32], want[64], *pr; static unsigned char out[1100]; size_t n; int ex, r; memset(z, 0, 32);
  unhex(r1, "1da2776eaa254ef65aeeee1f37f61c06bac2e82e221d37da21190191218f6631"); unhex(r2, "497b751637ff244ab969a965f8d9dc7623f18d649d012276dfb317b0e38b9bec"); unhex(want, "03c00100800280a6386fa1781a92e3905f718d4e0ea0d757abe962eefdd52a23d2ad6e1409fd8a0400deadbeef");
  urkel_hash(foo, "foo", 3); urkel_hash(bar, "bar", 3); db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end();
  urkel_root(db, w); sx_assert(memcmp(w, z, 32) == 0, "the roots are those of the documentation");
  r = urkel_insert(db, foo, (const unsigned char *)"\xde\xad\xbe\xef", 4); urkel_root(db, w); sx_assert(r && memcmp(w, r1, 32) == 0, "the roots are those of the documentation");
  r = urkel_insert(db, bar, (const unsigned char *)"\1\2\3\4", 4); urkel_root(db, w); sx_assert(r && memcmp(w, r2, 32) == 0, "the roots are those of the documentation");
  r = urkel_prove(db, &pr, &n, foo, NULL); sx_assert(r && n == 45 && memcmp(pr, want, 45) == 0, "the proof is that of the documentation"); if (r) urkel_free(pr);
  r = urkel_verify(&ex, out, &n, want, 45, foo, r2); sx_assert(r && ex && n == 4 && memcmp(out, "\xde\xad\xbe\xef", 4) == 0, "the proof of the documentation verifies");
  r = urkel_remove(db, bar); urkel_root(db, w); sx_assert(r && memcmp(w, r1, 32) == 0, "the roots are those of the documentation"); r = urkel_remove(db, foo); urkel_root(db, w); sx_assert(r && memcmp(w, z, 32) == 0, "the roots are those of the documentation"); urkel_close(db); sx_reach("gold");
}
#endif
void harness(void) {
  int mode = (int)sx_param("MODE", 0); m_init();
  switch (mode) { case 0: reads(); break; case 1: writes(); break;
#ifdef GOLD
    case 2: gold(); break; case 3: readme(); break;
#endif
  }
}
