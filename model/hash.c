/* hash.c - BLAKE2b as an ideal (injective) function: equal inputs give equal digests, different
 * inputs give different digests. Digests are all zero except for one identifying byte pair at
 * position P (run parameter), so comparing or copying too few bytes is noticed. */
#include <string.h>
#include "blake2b.h"
#include "sx.h"
#define NENT 4096
struct ent { int outlen, keylen, id, next; uint64_t len, cap; unsigned char *buf; };
static struct ent ent_[NENT];
static int nent_ = 1, nid_ = 0, head_[64];
#define BUCKET(e) (((e)->len + (uint64_t)(e)->outlen * 7 + (uint64_t)(e)->keylen) & 63)
static void put(struct ent *e, const void *data, uint64_t len) {
  if (e->len + len > e->cap) {
    uint64_t c = (e->len + len) * 2 + 96; unsigned char *b = sx_malloc(c);
    if (e->len) memcpy(b, e->buf, e->len);
    e->buf = b; e->cap = c;
  }
  if (len) memcpy(e->buf + e->len, data, len);
  e->len += len;
}
void m_urkel_blake2b_init(urkel_blake2b_t *ctx, size_t outlen, const unsigned char *key, size_t keylen) {
  struct ent *e;
  memset(ctx, 0, sizeof *ctx);
  if (nent_ == NENT) { sx_fail("model: out of hash entries"); return; }
  if (outlen == 0 || outlen > 64 || keylen > 64) { sx_fail("blake2b called with an invalid output or key length"); return; }
  e = &ent_[nent_]; memset(e, 0, sizeof *e); e->outlen = (int)outlen; e->keylen = (int)keylen;
  ctx->h[0] = nent_++; ctx->h[1] = 0x1dea1;
  if (keylen) put(e, key, keylen);
}
void m_urkel_blake2b_update(urkel_blake2b_t *ctx, const void *data, size_t len) {
  if (ctx->h[1] != 0x1dea1) { sx_fail("blake2b update of an uninitialised context"); return; }
  len = sx_concretize(len);
  put(&ent_[ctx->h[0]], data, len);
}
const unsigned char *m_forger; int m_forger_n; /* bytes chosen by someone who cannot know a keyed digest not yet made */
static int intern(int me) {
  struct ent *e = &ent_[me]; int i, b = BUCKET(e);
  for (i = head_[b]; i; i = ent_[i].next) {
    struct ent *o = &ent_[i];
    if (o->len != e->len || o->outlen != e->outlen || o->keylen != e->keylen) continue;
    if (e->len == 0 || sx_eq(o->buf, e->buf, e->len)) { if (me == nent_ - 1) nent_--; return o->id; }
  }
  e->id = ++nid_; e->next = head_[b]; head_[b] = me; 
  return e->id;
}
void m_urkel_blake2b_final(urkel_blake2b_t *ctx, unsigned char *out) {
  struct ent *e; int id, p, n, m_new, i; static int last_;
  if (ctx->h[1] != 0x1dea1) { sx_fail("blake2b final of an uninitialised context"); return; }
  e = &ent_[ctx->h[0]]; n = e->outlen; id = intern((int)ctx->h[0]); ctx->h[1] = 0;
  m_new = m_forger && e->keylen && id == nid_ && id != last_;
  last_ = nid_; p = (int)sx_param("P", 31); if (p >= n) p = n - 1;
  memset(out, 0, n); out[p] = id; if (n > 1) out[(p + 1) % n] = id >> 8;
  if ((id & 255) == 0) out[p] = 0, out[(p + 1) % n] = id >> 8;
  if (m_new) for (i = 0; i + n <= m_forger_n; i++) sx_assume(!sx_eq(m_forger + i, out, n));
}
/* reference digests for harnesses */
void m_hash(unsigned char *out, const void *data, size_t n) {
  urkel_blake2b_t c; m_urkel_blake2b_init(&c, 32, NULL, 0); m_urkel_blake2b_update(&c, data, n); m_urkel_blake2b_final(&c, out);
}
