/* mutate.c - an honest proof with one region replaced by arbitrary bytes, checked for any key and root (C05, C06) */
#include "h.h"
#include "cause.h"
#include "refproof.h"
static unsigned char k[8][32];
void harness(void) {
  int nk = (int)sx_param("NK", 2), mode = (int)sx_param("KEYS", 4), i, r, ex, sel, j, reg; struct rmap m; size_t n, vl, cnt, off, len, depth; unsigned char root[32], q0[32], q[32];
  unsigned char *pr, *val; int64_t live; static unsigned char v[8][32], buf[2600];
  m_init(); rm_init(&m);
  mkkeys(k, nk, mode); for (i = 0; i < nk; i++) { fillv(v[i], i + 1, i + 1); rm_put(&m, k[i], v[i], i + 1); }
  ref_root(root, &m); mkkey(q0, mode, "q0");
  n = ref_proof(buf, &m, q0); depth = buf[0] | (buf[1] & 63) << 8; cnt = buf[2] | buf[3] << 8;
  reg = sx_param("REGION", -1) >= 0 ? (int)sx_param("REGION", 0) : (int)sx_range(0, 6, "region");
  live = sx_heap_live();
  switch (reg) {
    case 0: off = 0; len = 2; break;                     /* type and depth */
    case 1: off = 2; len = 2 + (cnt + 7) / 8; break;     /* count and bitmap */
    case 2: off = 4 + (cnt + 7) / 8; len = n - off > 34 ? 34 : n - off; break; /* the first node */
    case 3: len = n > 64 ? 64 : n - 4; off = n - len; break; /* the end */
    case 4: off = 0; len = 0; n = sx_range(0, n - 1, "cut"); sx_reach("truncated"); break; /* truncated */
    case 5: off = n; len = 1; n += 1; sx_reach("extended"); break;              /* extended */
    default: off = 0; len = 0; break;                    /* unchanged: any key, any root */
  }
  pr = malloc(n ? n : 1); memcpy(pr, buf, n < sizeof buf ? n : sizeof buf);
  if (len) sx_sym(pr + off, len, "bytes");
  if (reg == 0) { unsigned d = pr[0] | (pr[1] & 63) << 8; int64_t w = sx_param("DWIN", 6); sx_assume(d + w >= depth && d <= depth + w); }
  val = malloc(1023);
  if (sx_param("QKEY", -1) == -2) memcpy(q, q0, 32); else mkkey(q, mode, "q");
  if (reg == 6 && sx_param("ANYROOT", 0)) sx_sym(root, 32, "root");
  ex = 77; vl = 7777; urkel_errno = 0;
  r = urkel_verify(&ex, val, &vl, pr, n, q, root);
  if (r) {
    sx_reach("accepted"); sx_assert(urkel_errno == 0, "an accepted proof leaves no error");
    sx_assert(reg != 4 && reg != 5, "a truncated or extended proof is rejected");
    if (!(reg == 6 && sx_param("ANYROOT", 0))) {
      j = rm_find(&m, q); sx_assert(ex == (j >= 0), "an accepted proof tells the truth about existence");
      if (ex && j >= 0) { sx_assert(vl == m.e[j].len, "an accepted proof carries the true value size"); if (vl == m.e[j].len) sx_assert(sx_eq(val, m.e[j].val, vl), "an accepted proof carries the true value"); }
    }
    if (ex == 0) sx_assert(vl == 0, "an accepted absence proof yields size zero");
  } else {
    sx_reach("rejected"); sx_assert(ex == 0, "a rejected proof reports no existence"); sx_assert(vl == 0, "a rejected proof reports size zero");
    sx_assert(urkel_errno >= URKEL_EHASHMISMATCH && urkel_errno <= URKEL_EINVAL, "a rejected proof sets one of the documented verification errors");
    if (sx_param("CAUSE", 0)) check_cause(pr, n, q, root, urkel_errno);
    if (reg == 4 || reg == 5) sx_assert(urkel_errno == URKEL_EINVAL, "a truncated or extended proof is rejected as invalid");
    if (reg == 6 && sx_eq(q, q0, 32) && !sx_param("ANYROOT", 0)) sx_fail("an honest proof verifies against the root it was made for");
  }
  free(pr); free(val);
  sx_assert(sx_heap_live() == live, "verification releases everything it allocates");
}
