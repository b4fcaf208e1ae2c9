/* roots.c - more roots than any table in memory starts with: each of a thousand stays readable, in a session and after reopening (C02) */
#include "h.h"
#define MAXN 2600
static unsigned char k[2][32], root[MAXN][32]; static urkel_t *db;
static void look(int j) { unsigned char o[16]; size_t n = 99; int r = urkel_get(db, o, &n, k[0], root[j]); sx_assert(r == 1 && n == 2 && o[0] == (j & 255) && o[1] == j >> 8, "every committed root still reads as when it was committed"); sx_assert(urkel_has(db, k[1], root[j]) == (j >= 5), "every committed root still reads as when it was committed"); }
void harness(void) {
  int n = (int)sx_param("N", 1100), i, mode, at; unsigned char v[2], r[32]; urkel_t *d;
  m_init(); mkkeys(k, 2, 9); db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); if (!db) sx_end();
  for (i = 0; i < n; i++) { v[0] = i & 255; v[1] = i >> 8; sx_assert(urkel_insert(db, k[0], v, 2) == 1, "insert succeeds"); if (i == 5) sx_assert(urkel_insert(db, k[1], v, 2) == 1, "insert succeeds"); urkel_root(db, root[i]); }
  mode = (int)sx_range(0, 3, "mode"); at = mode == 3 ? (int)sx_range(n / 2 - 3, n / 2 + 3, "first") : 0;
  if (sx_param("COLD", 0)) { urkel_close(db); d = urkel_open(DB); sx_assert(d != NULL, "the database reopens"); if (!d) sx_end(); db = d; }
  if (mode == 0) for (i = 0; i < n; i++) look(i);
  else if (mode == 1) for (i = n - 1; i >= 0; i--) look(i);
  else if (mode == 2) for (i = 0; i < n; i++) look((int)((unsigned)i * 7919u % (unsigned)n));
  else { look(at); look(n - 1); look(0); look(at + 1); sx_assert(urkel_inject(db, root[at]) == 1, "a committed root can be injected"); urkel_root(db, r); sx_assert(sx_eq(r, root[at], 32), "the injected root is the root"); look(at - 1); }
  memcpy(r, root[0], 32); r[31] ^= 1; sx_assert(!urkel_has(db, k[0], r), "a root that was never committed is refused"); sx_reach("read");
  urkel_close(db); clean_end();
}
