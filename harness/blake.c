/* blake.c - the library's hash against RFC 7693, with symbolic messages, keys, lengths and splits (C17) */
#include "h.h"
#include "blake2b.h"
#define MAXM 1200
static const uint64_t IV[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
static const char SG[10][17] = {"0123456789abcdef", "ea489fd61c02b753", "b8c052fdae367194", "7931dcbe265a40f8", "905724afe1bc683d", "2c6a0b834d75fe19", "c51fed4a0763928b", "db7ec13950f4862a", "6fe9b308c2d714a5", "a2847615fb9e3cd0"};
static uint64_t rr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
/* a+b+m, associated in one of three ways: all are the same number, but one of them is the same expression as the code's */
static uint64_t sum(uint64_t a, uint64_t b, uint64_t m, int how) { return how == 0 ? (a + b) + m : how == 1 ? (a + m) + b : a + (b + m); }
static void F(uint64_t *h, const unsigned char *block, uint64_t t0, uint64_t t1, int last, int how) { /* RFC 7693 3.2 */
  static const unsigned char at[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
  uint64_t v[16], m[16]; int i, j, r;
  for (i = 0; i < 16; i++) { m[i] = 0; for (j = 7; j >= 0; j--) m[i] = m[i] << 8 | block[i * 8 + j]; }
  for (i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
  v[12] ^= t0; v[13] ^= t1; if (last) v[14] = ~v[14];
  for (r = 0; r < 12; r++) for (i = 0; i < 8; i++) {
    const char *s = SG[r % 10] + 2 * i; uint64_t x = m[s[0] <= '9' ? s[0] - '0' : s[0] - 'a' + 10], y = m[s[1] <= '9' ? s[1] - '0' : s[1] - 'a' + 10];
    uint64_t *a = v + at[i][0], *b = v + at[i][1], *c = v + at[i][2], *d = v + at[i][3];
    *a = sum(*a, *b, x, how % 3); *d = rr(*d ^ *a, 32); *c += *d; *b = rr(*b ^ *c, 24);
    *a = sum(*a, *b, y, how / 3 % 3); *d = rr(*d ^ *a, 16); *c += *d; *b = rr(*b ^ *c, 63);
  }
  for (i = 0; i < 8; i++) h[i] = how < 9 ? h[i] ^ (v[i] ^ v[i + 8]) : how < 18 ? (h[i] ^ v[i]) ^ v[i + 8] : (h[i] ^ v[i + 8]) ^ v[i];
}
/* RFC 7693 3.3; T: bytes said to have gone before */
static void ref(unsigned char *out, int nn, const unsigned char *key, int kk, const unsigned char *msg, uint64_t n, uint64_t T0, uint64_t T1, int how) {
  static unsigned char d[MAXM + 256]; uint64_t h[8], tot = n, i, t = T0, th = T1; int j;
  memset(d, 0, sizeof d); if (kk) { memcpy(d, key, kk); memcpy(d + 128, msg, n); tot = n + 128; } else if (n) memcpy(d, msg, n);
  for (j = 0; j < 8; j++) h[j] = IV[j];
  h[0] ^= 0x01010000 ^ ((uint64_t)kk << 8) ^ (uint64_t)nn;
  for (i = 0; i + 128 < tot; i += 128) { t += 128; th += t < 128; F(h, d + i, t, th, 0, how); }
  t += tot - i; th += t < tot - i; F(h, d + i, t, th, 1, how);
  for (j = 0; j < nn; j++) out[j] = (unsigned char)(h[j / 8] >> (8 * (j % 8)));
}
static unsigned char msg[MAXM], key[64], exp_[27][64], out[80]; static int how0, styled;
static void want(int nn, int kk, uint64_t n) { ref(exp_[how0], nn, key, kk, msg, n, 0, 0, how0); }
void m_hash(unsigned char *o, const void *p, size_t n) { ref(o, 32, 0, 0, p, n, 0, 0, 0); }
/* all the references are equal; when one of them is the code's own expression the comparison is a constant */
static int same(const unsigned char *got, int nn, int kk, uint64_t n, uint64_t T0, uint64_t T1) {
  int h, how, e, ok = 0;
  for (h = 0; h < (styled ? 1 : 9); h++) { how = h ? (how0 + h) % 9 : how0; if (h) ref(exp_[how], nn, key, kk, msg, n, T0, T1, how); e = sx_eq(got, exp_[how], nn); if (sx_isconst(e) && e) return 1; if (h == 0) ok = e; else ok |= e; }
  return ok;
}
static void style(void) { /* which of the nine ways to add, and of the three to fold, the code uses */
  static urkel_blake2b_t ctx; unsigned char b, o[32], e[32]; int how, q;
  sx_sym(&b, 1, "style"); urkel_blake2b_init(&ctx, 32, NULL, 0); urkel_blake2b_update(&ctx, &b, 1); urkel_blake2b_final(&ctx, o);
  for (how = 0; how < 9; how++) { ref(e, 32, 0, 0, &b, 1, 0, 0, how); q = sx_eq(o, e, 32); if (sx_isconst(q) && q) { how0 = how; styled = 1; break; } }
  if (!styled || sx_param("MODE", 0) == 2) return;
  sx_sym(msg, 1, "style2"); urkel_blake2b_init(&ctx, 32, NULL, 0); urkel_blake2b_update(&ctx, msg, 129); urkel_blake2b_final(&ctx, o);
  for (how = how0; how < 27; how += 9) { ref(e, 32, 0, 0, msg, 129, 0, 0, how); q = sx_eq(o, e, 32); if (sx_isconst(q) && q) { how0 = how; break; } }
  if (how >= 27) styled = 0;
  msg[0] = 0;
}
static void known(void) { /* the reference itself: RFC 7693 appendix A, and BLAKE2b-256 of the empty message */
  static const unsigned char a[8] = {0xba, 0x80, 0xa5, 0x3f, 0x98, 0x1c, 0x4d, 0x0d}, e[8] = {0x0e, 0x57, 0x51, 0xc0, 0x26, 0xe5, 0x43, 0xb2}; unsigned char o[64]; int how;
  for (how = 0; how < 9; how++) { ref(o, 64, 0, 0, (const unsigned char *)"abc", 3, 0, 0, how); sx_assert(memcmp(o, a, 8) == 0, "the reference gives the digest of RFC 7693"); ref(o, 32, 0, 0, msg, 0, 0, 0, how); sx_assert(memcmp(o, e, 8) == 0, "the reference gives the known digest"); }
}
static void streaming(void) {
  static urkel_blake2b_t ctx; uint64_t n, at = 0, s; int nn, kk, ns = (int)sx_param("SPLITS", 1), i, step = (int)sx_param("STEP", 1); int64_t sl = sx_param("SLO", 0), sh = sx_param("SHI", 1 << 20);
  nn = (int)sx_range(sx_param("NN", 32), sx_param("NNHI", sx_param("NN", 32)), "digest_length");
  kk = (int)sx_range(sx_param("KK", 0), sx_param("KKHI", sx_param("KK", 0)), "key_length");
  n = sx_range(sx_param("LO", 0) / step, sx_param("HI", 4) / step, "message_length") * step; 
  if (kk) sx_sym(key, kk, "key"); if (n) sx_sym(msg, n, "message");
  want(nn, kk, n);
  memset(&ctx, 0xa5, sizeof ctx); urkel_blake2b_init(&ctx, nn, kk ? key : NULL, kk);
  for (i = 0; i < ns; i++) { s = sx_range(at > (uint64_t)sl ? at : (uint64_t)sl > n ? n : (uint64_t)sl, n < (uint64_t)sh ? n : (uint64_t)sh < at ? at : (uint64_t)sh, "split"); urkel_blake2b_update(&ctx, s > at ? msg + at : NULL, s - at); at = s; if (s < n && s > 0) sx_reach("split"); }
  urkel_blake2b_update(&ctx, msg + at, n - at);
  memset(out, 0x5a, sizeof out); urkel_blake2b_final(&ctx, out);
  for (i = nn; i < 80; i++) sx_assert(out[i] == 0x5a, "only the digest is written");
  sx_assert(same(out, nn, kk, n, 0, 0), "the digest of every message, in any pieces, is the BLAKE2b of RFC 7693"); sx_reach("hashed");
}
static void oneshot(void) {
  uint64_t n = sx_range(sx_param("LO", 0), sx_param("HI", 4), "message_length"); if (n) sx_sym(msg, n, "message");
  want(32, 0, n); memset(out, 0x5a, sizeof out); urkel_hash(out, msg, n); sx_assert(out[32] == 0x5a, "only the digest is written");
  sx_assert(same(out, 32, 0, n, 0, 0), "urkel_hash is BLAKE2b-256"); sx_reach("hashed");
}
static void refh(unsigned char *o, const void *p, uint64_t n, int how) { static unsigned char t[32]; ref(t, 32, 0, 0, p, n, 0, 0, how); memcpy(o, t, 32); }
/* node hashes: one leaf, or two leaves that share SAME bits */
static void node(unsigned char *o, unsigned char k[2][32], int nk, unsigned char v[2][MAXM], uint64_t n, int share, int how) {
  unsigned char l[2][32], pre[200], vh[32]; int i, p = 0, left;
  for (i = 0; i < nk; i++) { refh(vh, v[i], n, how); pre[0] = 0; memcpy(pre + 1, k[i], 32); memcpy(pre + 33, vh, 32); refh(l[i], pre, 65, how); }
  if (nk == 1) { memcpy(o, l[0], 32); return; }
  left = (k[0][share / 8] >> (7 - share % 8)) & 1;
  if (share == 0) pre[p++] = 1; else { pre[p++] = 2; pre[p++] = share & 255; pre[p++] = share >> 8; memset(pre + p, 0, 32); for (i = 0; i < share; i++) pre[p + i / 8] |= k[0][i / 8] & (0x80 >> (i % 8)); p += (share + 7) / 8; }
  memcpy(pre + p, l[left], 32); memcpy(pre + p + 32, l[!left], 32); refh(o, pre, p + 64, how);
}
static void tree(void) {
  static unsigned char k[2][32], v[2][MAXM], root[32], r2[32], e[32]; uint64_t n = sx_range(sx_param("LO", 3), sx_param("HI", 3), "value_size"); int nk = (int)sx_param("NK", 1), share = nk > 1 ? (int)sx_range(sx_param("SLO", 0), sx_param("SHI", 0), "shared") : 0, i, how, ok = 0; urkel_t *db; urkel_tx_t *tx;
  for (i = 0; i < 32; i++) { k[0][i] = (unsigned char)(0x5b ^ i * 29); k[1][i] = (unsigned char)(0xc4 ^ i * 53); } /* contents are fixed: whether a digest is all zeros (the empty tree) is beyond a solver */
  if (nk > 1) for (i = 0; i <= share; i++) { int m = 0x80 >> (i % 8); if (i < 256 && share < 256) k[1][i / 8] = (k[1][i / 8] & ~m) | ((k[0][i / 8] ^ (i == share ? m : 0)) & m); if (i == share) { k[0][i / 8] &= ~m; k[1][i / 8] |= m; } }
  fillv(v[0], n, 1); fillv(v[1], n, 2);
  m_init(); db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end();
  tx = urkel_tx_create(db, NULL); for (i = 0; i < nk; i++) sx_assert(urkel_tx_insert(tx, k[i], v[i], n) == 1, "insert succeeds");
  urkel_tx_root(tx, root); sx_assert(urkel_tx_commit(tx) == 1, "commit succeeds"); urkel_root(db, r2); sx_assert(sx_eq(root, r2, 32), "the committed root is the root of the transaction");
  for (int h = 0; h < (styled ? 1 : 9); h++) { int q; how = h ? (how0 + h) % 9 : how0; node(e, k, nk, v, n, share, how); q = sx_eq(root, e, 32); if (sx_isconst(q) && q) { ok = 1; break; } ok |= q; }
  sx_assert(ok, "node and value hashes are BLAKE2b of the documented preimages"); sx_reach("hashed");
  urkel_tx_destroy(tx); urkel_close(db); clean_end();
}
#ifdef COUNTER
static void counter(void) { /* as if T bytes had been hashed before */
  static urkel_blake2b_t ctx; uint64_t T0, T1, n = (uint64_t)sx_param("LO", 200), a, t[2];
  sx_sym(&T0, 8, "before"); sx_sym(&T1, 8, "before_high"); sx_assume((T0 & 127) == 0); sx_sym(msg, n, "message");
  ref(exp_[how0], 32, key, 0, msg, n, T0, T1, how0);
  urkel_blake2b_init(&ctx, 32, NULL, 0); a = sx_range(0, 128, "first"); urkel_blake2b_update(&ctx, msg, a);
  t[0] = ctx.t[0] + T0; t[1] = ctx.t[1] + T1 + (t[0] < T0); ctx.t[0] = t[0]; ctx.t[1] = t[1];
  urkel_blake2b_update(&ctx, msg + a, n - a); urkel_blake2b_final(&ctx, out);
  sx_assert(same(out, 32, 0, n, T0, T1), "the byte counter has 128 bits"); sx_reach("hashed");
}
#endif
void harness(void) {
  int mode = (int)sx_param("MODE", 0);
  known(); style();
  if (mode == 0) streaming(); else if (mode == 1) oneshot(); else if (mode == 2) tree();
#ifdef COUNTER
  else counter();
#endif
}
