/* verify.c - arbitrary proof bytes against an honest root: sound, robust, tidy (C05, C06) */
#include "h.h"
#include "cause.h"
static unsigned char k[8][32];
void harness(void) {
  int nk = (int)sx_param("NK", 1), mode = (int)sx_param("KEYS", 4), i, r, ex, sel, j; struct rmap m; size_t n, vl; unsigned char root[32], q[32], junk[32];
  unsigned char *pr, *val; int64_t live; static unsigned char v[8][8];
  m_init(); rm_init(&m);
  for (i = 0; i < nk; i++) { mkkey(k[i], mode, "k"); fillv(v[i], i + 1, i + 1); rm_put(&m, k[i], v[i], i + 1); }
  ref_root(root, &m);
  if (sx_param("ROOT", 0) == 1) sx_sym(root, 32, "root"); /* any root at all: robustness only */
  n = (size_t)sx_range(sx_param("LO", 0), sx_param("HI", 40), "len");
  live = sx_heap_live();
  if (sx_param("FULL", 0)) { /* as many nodes as there can be, and a few more */
    unsigned c = (unsigned)sx_range(sx_param("FULL", 0), sx_param("FULLHI", 260), "count"), b = (c + 7) / 8; int tails[] = {0, 64, 2, 7, 66, 67, 1}, pb = (int)sx_range(0, sx_param("PB", 2), "prefixes"); size_t o, t;
    t = tails[sx_range(0, 6, "tail")]; n = 4 + b + 32 * c + t + (pb ? 3 : 0); pr = malloc(n); memset(pr, 0x5a, n); sx_sym(pr, 2, "field"); pr[2] = c & 255; pr[3] = c >> 8; memset(pr + 4, 0, b); o = 4 + b + 32 * c;
    if (pb == 1 && c) { pr[4] |= 0x80; sx_sym(pr + 4 + b, 2, "first_prefix"); } if (pb == 2 && c) { pr[4 + (c - 1) / 8] |= 0x80 >> (c - 1) % 8; sx_sym(pr + 4 + b + 32 * (c - 1), 2, "last_prefix"); }
    sx_sym(pr + n - t, t < 3 ? t : 3, "end"); { unsigned d = pr[0] | (pr[1] & 0x3f) << 8; sx_assume((d + 1 >= c && d <= c + 1) || d == 256 || d == 257); if (pb && c) { unsigned char *q_ = pr + 4 + b + (pb == 2 ? 32 * (c - 1) : 0); sx_assume(q_[0] <= 1 || q_[0] == 8 || (q_[0] == 0x81 && q_[1] < 2) || (q_[0] == 0x80 && q_[1] >= 127 && q_[1] < 129)); } } o = 0; (void)o; sx_reach("full");
  } else
  pr = malloc(n ? n : 1);
  if (!sx_param("FULL", 0)) sx_sym(pr, n, "proof");
  if (sx_param("TYPE", -1) >= 0 && n >= 2) pr[1] = (pr[1] & 0x3f) | (sx_param("TYPE", 0) << 6);
  if (n >= 4) {
    int64_t cnt = sx_param("CNT", -1), dlo = sx_param("DLO", 0), dhi = sx_param("DHI", 70000); unsigned d = pr[0] | (pr[1] & 0x3f) << 8, c = pr[2] | pr[3] << 8;
    if (cnt >= 0) sx_assume(c == cnt);
    sx_assume(d >= dlo && d <= dhi);
  }
  { int64_t pz = sx_param("PMAX", -1), o = sx_param("POFF", 5); if (pz >= 0 && o < (int64_t)n) sx_assume(pr[o] <= pz || pr[o] >= 0x80); }
  val = malloc(1023); memset(val, 0xa5, 1023);
  sel = sx_param("QSEL", -1) >= 0 ? (int)sx_param("QSEL", 0) : (int)sx_range(0, nk, "which");
  if (sel < nk) memcpy(q, k[sel], 32); else mkkey(q, (int)sx_param("QKEY", mode), "q");
  ex = 77; vl = 7777; urkel_errno = 0;
  r = urkel_verify(&ex, val, &vl, pr, n, q, root);
  sx_assert(r == 0 || r == 1, "verify returns 0 or 1");
  if (r) {
    sx_reach("accepted"); sx_assert(urkel_errno == 0, "an accepted proof leaves no error"); sx_assert(ex == 0 || ex == 1, "exists is 0 or 1"); sx_assert(vl <= 1023, "the value size is at most 1023");
    if (ex == 0) sx_assert(vl == 0, "an accepted absence proof yields size zero");
    if (sx_param("ROOT", 0) == 0) {
      j = rm_find(&m, q);
      if (ex) sx_reach("accepted presence"); else sx_reach("accepted absence");
      sx_assert(ex == (j >= 0), "an accepted proof tells the truth about existence");
      if (ex && j >= 0) { sx_assert(vl == m.e[j].len, "an accepted proof carries the true value size"); if (vl == m.e[j].len) sx_assert(sx_eq(val, m.e[j].val, vl), "an accepted proof carries the true value"); }
    }
  } else {
    sx_reach("rejected");
    sx_assert(ex == 0, "a rejected proof reports no existence"); sx_assert(vl == 0, "a rejected proof reports size zero");
    sx_assert(urkel_errno >= URKEL_EHASHMISMATCH && urkel_errno <= URKEL_EINVAL, "a rejected proof sets one of the documented verification errors");
    if (sx_param("CAUSE", 0)) check_cause(pr, n, q, root, urkel_errno);
    for (i = 0; i < 1023; i += 31) sx_assert(val[i] == 0xa5, "a rejected proof leaves the value buffer alone");
    switch (urkel_errno) { case URKEL_EHASHMISMATCH: sx_reach("EHASHMISMATCH"); break; case URKEL_ESAMEKEY: sx_reach("ESAMEKEY"); break; case URKEL_ESAMEPATH: sx_reach("ESAMEPATH"); break; case URKEL_ENEGDEPTH: sx_reach("ENEGDEPTH"); break; case URKEL_EPATHMISMATCH: sx_reach("EPATHMISMATCH"); break; case URKEL_ETOODEEP: sx_reach("ETOODEEP"); break; case URKEL_EINVAL: sx_reach("EINVAL"); break; }
  }
  free(pr); free(val);
  sx_assert(sx_heap_live() == live, "verification releases everything it allocates");
  (void)junk;
}
