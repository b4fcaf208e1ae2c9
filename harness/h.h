/* h.h - what the harnesses share: symbolic keys, a reference map, reference root hashes. */
#ifndef H_H
#define H_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <urkel.h>
#include "sx.h"
#define DB "/w/db"
#define MAXK 8
void m_hash(unsigned char *out, const void *data, size_t n);
static const unsigned char zero32_[32];

/* ---- keys. mode 0: every bit symbolic; otherwise a shared pattern with symbolic bits at chosen positions */
static const unsigned char win1_[] = {0, 1, 7, 8, 126, 127, 128, 254, 255};
static const unsigned char win2_[] = {0, 1, 2};
static const unsigned char win3_[] = {253, 254, 255};
static const unsigned char win4_[] = {6, 7, 8, 9};
static const unsigned char win5_[] = {126, 127, 128, 129};
static const unsigned char win6_[] = {0, 254, 255};
static const unsigned char win7_[] = {0, 255};
static const unsigned char win8_[] = {0, 7, 8, 128, 255};
static void mkkey(unsigned char *k, int mode, const char *name) {
  static const struct { const unsigned char *w; int n; } W[] = {{0, 0}, {win1_, sizeof win1_}, {win2_, sizeof win2_}, {win3_, sizeof win3_}, {win4_, sizeof win4_}, {win5_, sizeof win5_}, {win6_, sizeof win6_}, {win7_, sizeof win7_}, {win8_, sizeof win8_}};
  unsigned char mask[32], s[32]; int i;
  if (mode == 0) { sx_sym(k, 32, name); return; }
  memset(mask, 0, 32); for (i = 0; i < W[mode].n; i++) mask[W[mode].w[i] >> 3] |= 0x80 >> (W[mode].w[i] & 7);
  for (i = 0; i < 32; i++) { k[i] = 0x96 ^ (unsigned char)(i * 37); if (mask[i]) { sx_sym(s + i, 1, name); k[i] = (k[i] & ~mask[i]) | (s[i] & mask[i]); } }
}
static void mkkeys(unsigned char k[][32], int n, int mode) { static const char *nm[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}; int i;
  for (i = 0; i < n; i++) if (mode == 9) { static const unsigned char at[] = {0, 255, 128, 3, 254, 7, 64, 200}; int j; for (j = 0; j < 32; j++) k[i][j] = 0x96 ^ (unsigned char)(j * 37); if (i) k[i][at[i] >> 3] ^= 0x80 >> (at[i] & 7); } /* fixed keys */
    else mkkey(k[i], mode, nm[i]); }
static int bit_(const unsigned char *k, int i) { return (k[i >> 3] >> (7 - (i & 7))) & 1; }

/* ---- reference map: an unordered list of distinct keys */
struct rent { unsigned char key[32]; unsigned char *val; size_t len; };
struct rmap { struct rent e[16]; int n; };
static void rm_init(struct rmap *m) { m->n = 0; }
static int rm_find(const struct rmap *m, const unsigned char *k) { int i; for (i = 0; i < m->n; i++) if (sx_eq(m->e[i].key, k, 32)) return i; return -1; }
static void rm_put(struct rmap *m, const unsigned char *k, const void *v, size_t n) {
  int i = rm_find(m, k); if (i < 0) i = m->n++;
  memcpy(m->e[i].key, k, 32); m->e[i].val = sx_malloc(n + 1); if (n) memcpy(m->e[i].val, v, n); m->e[i].len = n;
}
static int rm_del(struct rmap *m, const unsigned char *k) { int i = rm_find(m, k); if (i < 0) return 0; m->e[i] = m->e[--m->n]; return 1; }

/* ---- the root hash as documented (README: leaf 0x00, internal 0x01, skip 0x02) */
static void ref_node(unsigned char *out, const struct rent *e, int n, int depth) {
  unsigned char pre[1 + 2 + 32 + 64], l[32], r[32]; struct rent a[16], b[16]; int na = 0, nb = 0, d, i, p, plen;
  if (n == 0) { memset(out, 0, 32); return; }
  if (n == 1) { unsigned char vh[32]; m_hash(vh, e[0].val, e[0].len); pre[0] = 0; memcpy(pre + 1, e[0].key, 32); memcpy(pre + 33, vh, 32); m_hash(out, pre, 65); return; }
  for (d = depth; d < 256; d++) { int same = 1; for (i = 1; i < n; i++) if (bit_(e[i].key, d) != bit_(e[0].key, d)) { same = 0; break; } if (!same) break; }
  for (i = 0; i < n; i++) if (bit_(e[i].key, d)) b[nb++] = e[i]; else a[na++] = e[i];
  ref_node(l, a, na, d + 1); ref_node(r, b, nb, d + 1);
  plen = d - depth; p = 0;
  if (plen == 0) pre[p++] = 1;
  else {
    pre[p++] = 2; pre[p++] = plen & 255; pre[p++] = plen >> 8;
    for (i = 0; i < (plen + 7) / 8; i++) pre[p + i] = 0;
    for (i = 0; i < plen; i++) pre[p + i / 8] |= bit_(e[0].key, depth + i) << (7 - i % 8);
    p += (plen + 7) / 8;
  }
  memcpy(pre + p, l, 32); memcpy(pre + p + 32, r, 32); m_hash(out, pre, p + 64);
}
static void ref_root(unsigned char *out, const struct rmap *m) { ref_node(out, m->e, m->n, 0); }

/* ---- value patterns */
static void fillv(unsigned char *v, size_t n, int seed) { size_t i; for (i = 0; i < n; i++) v[i] = (unsigned char)(seed * 31 + i * 7 + (i >> 8)); }

/* ---- comparison of a transaction / snapshot with the reference */
static void same_tx(urkel_tx_t *tx, const struct rmap *m, unsigned char k[][32], int nk) {
  static unsigned char out[1100]; size_t n; int i, j, r;
  for (i = 0; i < nk; i++) {
    j = rm_find(m, k[i]);
    r = urkel_tx_has(tx, k[i]); sx_assert(r == (j >= 0), "has answers whether the key is in the map");
    if (j < 0) sx_assert(urkel_errno == URKEL_ENOTFOUND, "has on an absent key sets ENOTFOUND");
    n = 7777; urkel_errno = 0; r = urkel_tx_get(tx, out, &n, k[i]);
    sx_assert(r == (j >= 0), "get answers whether the key is in the map");
    if (j >= 0) { sx_assert(n == m->e[j].len, "get returns the size last written"); if (n == m->e[j].len) sx_assert(sx_eq(out, m->e[j].val, n), "get returns the bytes last written"); }
    else { sx_assert(n == 0, "get of an absent key returns size zero"); sx_assert(urkel_errno == URKEL_ENOTFOUND, "get of an absent key sets ENOTFOUND"); }
  }
}
static void same_db(urkel_t *db, const unsigned char *root, const struct rmap *m, unsigned char k[][32], int nk) {
  static unsigned char out[1100]; size_t n; int i, j, r;
  for (i = 0; i < nk; i++) {
    j = rm_find(m, k[i]);
    r = urkel_has(db, k[i], root); sx_assert(r == (j >= 0), "has on the database answers whether the key is in the map");
    n = 7777; urkel_errno = 0; r = urkel_get(db, out, &n, k[i], root);
    sx_assert(r == (j >= 0), "get on the database answers whether the key is in the map");
    if (j >= 0) { sx_assert(n == m->e[j].len, "get on the database returns the size last written"); if (n == m->e[j].len) sx_assert(sx_eq(out, m->e[j].val, n), "get on the database returns the bytes last written"); }
    else { sx_assert(n == 0, "get of an absent key returns size zero"); sx_assert(urkel_errno == URKEL_ENOTFOUND, "get of an absent key sets ENOTFOUND"); }
  }
}
static void clean_end(void) {
  sx_assert(sx_heap_live() == 0, "all memory is released after close");
  sx_assert(m_open_fds() == 0, "all files are closed after close");
  sx_assert(m_open_maps() <= m_k.nunmap, "all mappings are removed after close");
}
#endif
