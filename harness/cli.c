/* cli.c - the command-line tool against an independent reading of its usage text (C21) */
#include "h.h"
int cli_main(int argc, char **argv);
extern char m_out[2][1 << 16]; extern size_t m_outn[2]; extern const char *m_env_path; extern int m_status;
#define NA 40
static char *argv_[NA + 2]; static int argc_, status; static unsigned char k[3][32], v[3][1100], root[4][32]; static size_t vn[3]; static urkel_t *db; static struct rmap map[4];
static char arg[NA][2300], before_[64][300], nm_[1400]; static int nb_, opens_; static const char *cwd_ = "/w"; static void cd(const char *d) { m_chdir(d); cwd_ = d; }
/* ---- running the tool */
static void call(void *p) { (void)p; m_status = cli_main(argc_, argv_); }
static void add(const char *s) { argv_[argc_] = strcpy(arg[argc_], s); argc_++; argv_[argc_] = NULL; }
static void start(void) { argc_ = 0; add("urkel"); }
static void snap(void) { int i, r; nb_ = 0; for (i = 0; (r = m_path(i, nm_)) >= 0; i++) if (r && nb_ < 64) strcpy(before_[nb_++], nm_); }
static void run(void) { m_outn[0] = m_outn[1] = 0; m_status = -1; snap(); opens_ = m_k.n_open; sx_try(call, NULL); status = m_status; m_kill_process(m_k.pid[0]); }
static void untouched(void) { int i, r; sx_assert(m_k.n_open == opens_, "a refused command line does not touch the database"); for (i = 0; (r = m_path(i, nm_)) >= 0; i++) if (r) { int j, f = 0; for (j = 0; j < nb_; j++) f |= strcmp(before_[j], nm_) == 0; sx_assert(f, "a refused command line does not touch the database"); } for (i = 0; i < nb_; i++) sx_assert(m_exists(before_[i]), "a refused command line does not touch the database"); }
static int usage(void) { return m_outn[0] > 200; }
static void refused(void) { sx_assert(status == 1, "a refused command line exits 1"); sx_assert(m_outn[1] > 0 || usage(), "a refused command line says why"); sx_assert(m_outn[0] == 0 || usage(), "a refused command line prints no result"); untouched(); sx_reach("refused"); }
static void failed(void) { sx_assert(status == 1, "a command that fails exits 1"); sx_assert(m_outn[1] > 0, "a command that fails says why"); sx_assert(m_outn[0] == 0, "a command that fails prints no result"); sx_reach("failed"); }
/* ---- expected output: hex lines */
static char exp_[16000]; static size_t en;
static void lit(const char *s) { size_t n = strlen(s); memcpy(exp_ + en, s, n); en += n; }
static void num(unsigned long x) { char t[24]; int i = 23; t[i] = 0; do t[--i] = (char)('0' + x % 10); while (x /= 10); lit(t + i); }
static void hex(char *o, const unsigned char *p, size_t n) { size_t i; for (i = 0; i < n; i++) { unsigned h = p[i] >> 4, l = p[i] & 15; o[2 * i] = (char)('0' + h + (unsigned)(h > 9) * 39); o[2 * i + 1] = (char)('0' + l + (unsigned)(l > 9) * 39); } o[2 * n] = 0; }
static void hexline(const unsigned char *p, size_t n) { hex(exp_ + en, p, n); en += 2 * n; exp_[en++] = '\n'; }
static void printed(const char *msg) { sx_assert(status == 0, "a command that succeeds exits 0"); sx_assert(m_outn[0] == en, msg); if (m_outn[0] == en) sx_assert(sx_eq(m_out[0], exp_, en), msg); sx_assert(m_outn[1] == 0, "a command that succeeds reports no error"); }
/* ---- hex as documented: nibble value, or bit 4 set */
static unsigned nib(unsigned char c) { unsigned d = c - '0', u = (c | 32u) - 'a', isd = d < 10u, isu = u < 6u; return (-isd & d) | (-isu & (u + 10)) | (((isd | isu) ^ 1u) << 4); }
static int unhex(unsigned char *o, const char *s, size_t n) { size_t i; unsigned bad = 0; for (i = 0; i < n / 2; i++) { unsigned h = nib(s[2 * i]), l = nib(s[2 * i + 1]); bad |= (h | l) & 16; o[i] = (unsigned char)(h << 4 | l); } return !bad; }
/* ---- the database */
static void prepare(int n) {
  int i; m_init(); m_env_path = NULL; m_chdir("/w"); db = urkel_open(DB); sx_assert(db != NULL, "a fresh database opens"); rm_init(&map[0]); memset(root[0], 0, 32);
  for (i = 0; i < n; i++) { map[i + 1] = map[i]; sx_assert(urkel_insert(db, k[i], v[i], vn[i]) == 1, "insert succeeds"); rm_put(&map[i + 1], k[i], v[i], vn[i]); urkel_root(db, root[i + 1]); }
  urkel_close(db);
}
static void holds(const struct rmap *m, const char *msg) { unsigned char e[32], r[32]; int i; size_t n; static unsigned char o[1100]; db = urkel_open(DB); sx_assert(db != NULL, "the database opens"); if (!db) sx_end(); ref_root(e, m); urkel_root(db, r); sx_assert(sx_eq(e, r, 32), msg); for (i = 0; i < m->n; i++) { sx_assert(urkel_get(db, o, &n, m->e[i].key, NULL) == 1 && n == m->e[i].len && sx_eq(o, m->e[i].val, n), msg); } urkel_close(db); }
static void keys(void) { int i; for (i = 0; i < 3; i++) { int j; for (j = 0; j < 32; j++) k[i][j] = (unsigned char)(0x9a ^ j * 41); } k[1][0] ^= 0x80; k[2][31] ^= 1; for (i = 0; i < 3; i++) { vn[i] = 3 + i; fillv(v[i], vn[i], i + 5); } }
static const char *cmds[] = {"get", "insert", "remove", "prove", "verify", "list"};
/* put symbolic characters over s at a few positions: the first, one in the middle, the last */
static void vary(char *s, size_t n, int w) { size_t at[3], i; at[0] = 0; at[1] = n - 1; at[2] = n / 2; if (w > 3) { sx_sym(s, n, "chars"); for (i = 0; i < n; i++) sx_assume(s[i] != 0); if (n) sx_assume(s[0] != '-'); return; } for (i = 0; i < (size_t)w && n; i++) { sx_sym(s + at[i], 1, "char"); sx_assume(s[at[i]] != 0); if (at[i] == 0) sx_assume(s[0] != '-'); } }
/* ---- 0: the hex of a key or root, of any length */
static void keyhex(void) {
  int cmd = (int)sx_range(sx_param("CLO", 0), sx_param("CHI", 5), "command"), ok, where, j; size_t n; char h[200]; unsigned char got[40]; unsigned char *proof = NULL; size_t pn = 0; static unsigned char saved[600]; size_t savedn = 0; static char ph[1300];
  prepare(2);
  if (cmd == 4) { db = urkel_open(DB); sx_assert(urkel_prove(db, &proof, &pn, k[0], NULL) == 1, "prove succeeds"); memcpy(saved, proof, pn); savedn = pn; urkel_free(proof); urkel_close(db); hex(ph, saved, savedn); }
  n = sx_range(sx_param("LO", 62), sx_param("HI", 67), "hex_length"); hex(h, cmd == 5 ? root[1] : k[0], 32); for (j = 64; j < 80; j++) h[j] = '0'; h[n] = 0; vary(h, n, (int)sx_param("W", 2));
  ok = n == 64; if (ok) ok = unhex(got, h, 64);
  start(); add("-p"); add(DB); if (cmd == 5) { add(sx_param("LONG", 0) ? "--root" : "-r"); add(h); add("list"); } else { add(cmds[cmd]); add(h); if (cmd == 1) add("0a0B"); if (cmd == 4) { add(ph); add("-r"); hex(h, root[2], 32); add(h); } }
  run();
  if (n != 64 || !sx_concretize(ok)) { refused(); holds(&map[2], "a refused command line does not touch the database"); return; }
  sx_reach("accepted"); en = 0; where = cmd == 5 ? (sx_concretize(sx_eq(got, root[1], 32)) ? 1 : sx_concretize(sx_eq(got, root[2], 32)) ? 2 : sx_concretize(sx_eq(got, root[0], 32)) ? 0 : -1) : rm_find(&map[2], got);
  if (cmd == 0) { if (where >= 0) { hexline(map[2].e[where].val, map[2].e[where].len); printed("get prints the value in hex"); sx_reach("found"); } else failed(); holds(&map[2], "get changes nothing"); }
  if (cmd == 1) { struct rmap m = map[2]; printed("insert prints nothing"); rm_put(&m, got, "\x0a\x0b", 2); holds(&m, "insert stores exactly the decoded value at the decoded key"); }
  if (cmd == 2) { struct rmap m = map[2]; if (rm_del(&m, got)) { printed("remove prints nothing"); } else sx_assert(status == (m_outn[1] > 0), "remove of an absent key reports as it exits"); holds(&m, "remove deletes exactly the decoded key"); }
  if (cmd == 3) { db = urkel_open(DB); sx_assert(urkel_prove(db, &proof, &pn, got, NULL) == 1, "prove succeeds"); hexline(proof, pn); urkel_free(proof); urkel_close(db); printed("prove prints the proof in hex"); }
  if (cmd == 4) { if (where == 0) { hexline(v[0], vn[0]); printed("verify prints the proven value"); sx_reach("found"); } else if (status == 0) printed("verify of an absent key prints nothing"); else failed(); }
  if (cmd == 5) { if (where >= 0) { if (where == 2) { if (memcmp(k[0], k[1], 32) < 0) { hexline(k[0], 32); hexline(k[1], 32); } else { hexline(k[1], 32); hexline(k[0], 32); } } if (where == 1) hexline(k[0], 32); printed("list prints the keys of the snapshot"); sx_reach("found"); } else failed(); }
}
/* ---- 1: the hex of a value */
static void valhex(void) {
  static char h[2300]; static unsigned char got[1200]; size_t n = sx_range(sx_param("LO", 0), sx_param("HI", 9), "hex_length"), i; int ok = 1; struct rmap m;
  prepare(1); m = map[1]; for (i = 0; i < n; i++) h[i] = "0123456789abcdefABCDEF"[(i * 7 + i / 16) % 22]; h[n] = 0; vary(h, n, (int)sx_param("W", 2));
  start(); add("insert"); { static char kh[70]; hex(kh, k[1], 32); add(kh); } add(h); add("--path"); add("db"); run();
  if (n % 2 || n > 2048) { refused(); holds(&m, "a refused command line does not touch the database"); return; }
  ok = unhex(got, h, n); if (!sx_concretize(ok)) { refused(); holds(&m, "a refused command line does not touch the database"); return; }
  if (n > 2046) { failed(); holds(&m, "a value that is too long is not stored"); return; }
  en = 0; printed("insert prints nothing"); sx_reach("accepted"); rm_put(&m, k[1], got, n / 2); holds(&m, "insert stores exactly the decoded value at the decoded key");
  start(); add("get"); add(arg[2]); { static char kh[70]; hex(kh, k[1], 32); strcpy(arg[2], kh); argv_[2] = arg[2]; } add("-p"); add(DB); run(); en = 0; hexline(got, n / 2); printed("get prints the value in hex");
}
/* ---- 2: argument lists from a vocabulary, against the usage text */
static const char *voc[] = {"-p", "--path", "/w/db", "-r", "--root", "R1", "R2", "-H", "--hash", "-h", "--help", "get", "insert", "remove", "prove", "list", "root", "info", "create", "destroy", "K0", "K1", "00ff", "-x", "verify", "", "/w/other", "PROOF", "-", "roo"};
static char kh_[2][70], rh_[3][70], prh_[1300];
static const char *tok(int i) { const char *s = voc[i]; if (strcmp(s, "R1") == 0) return rh_[1]; if (strcmp(s, "R2") == 0) return rh_[2]; if (strcmp(s, "K0") == 0) return kh_[0]; if (strcmp(s, "K1") == 0) return kh_[1]; if (strcmp(s, "PROOF") == 0) return prh_; return s; }
static int is(const char *a, const char *b, const char *c) { return strcmp(a, b) == 0 || strcmp(a, c) == 0; }
static int hexn(const char *s, unsigned char *o, size_t max, size_t *n) { size_t l = strlen(s); if (l % 2 || l / 2 > max) return 0; *n = l / 2; return unhex(o, s, l); }
static void expect(void) { /* an independent reading of the command line, then what it should have done */
  const char *path = NULL, *pos[NA], *act; int np = 0, i, hash = 0, a, at; unsigned char r[32], key[32]; static unsigned char val[1200]; int haver = 0; size_t n; const struct rmap *m = &map[2]; struct rmap w = map[2]; int known = 1, dbis; unsigned char *proof; size_t pn;
  static const char *names[] = {"create", "destroy", "info", "root", "get", "insert", "remove", "list", "prove", "verify"};
  for (i = 1; i < argc_; i++) {
    const char *s = argv_[i];
    if (is(s, "-p", "--path") || is(s, "-r", "--root")) { if (i + 1 == argc_) { refused(); return; } if (s[1] == 'p' || s[2] == 'p') path = argv_[++i]; else { haver = 1; if (!hexn(argv_[++i], r, 32, &n) || n != 32) { refused(); return; } } }
    else if (is(s, "-H", "--hash")) hash = 1;
    else if (is(s, "-h", "--help")) { sx_assert(status == 0 && usage(), "help prints the usage"); untouched(); sx_reach("help"); return; }
    else if (s[0] == '-') { refused(); return; }
    else pos[np++] = s;
  }
  if (np == 0) { refused(); return; }
  act = pos[0]; for (a = 0; a < 10 && strcmp(names[a], act) != 0; a++) {}
  if (a == 10) { refused(); return; }
  if (a == 4 || a == 5 || a == 6 || a == 8 || a == 9) {
    if (np < 2) { refused(); return; }
    if (hash) m_hash(key, pos[1], strlen(pos[1])); else if (!hexn(pos[1], key, 32, &n) || n != 32) { refused(); return; }
    if ((a == 5 || a == 9) && (np < 3 || !hexn(pos[2], val, a == 5 ? 1024 : 1200, &n))) { refused(); return; }
  }
  if (a == 9 && !haver) { refused(); return; }
  if (!path) path = m_env_path ? m_env_path : "."; sx_reach("accepted");
  { static char full[3000]; if (path[0] != '/') { strcpy(full, cwd_); if (path[0] && strcmp(path, ".") != 0) { strcat(full, "/"); strcat(full, path); } path = full; } dbis = strcmp(path, DB) == 0; }
  if (a == 9) { int ex; static unsigned char pv[1100]; size_t pvn; en = 0; if (urkel_verify(&ex, pv, &pvn, val, n, key, r)) { if (ex) hexline(pv, pvn); printed("verify prints the proven value"); } else failed(); untouched(); return; }
  if (!dbis) { /* a new database, or none */
    if (a == 1 || a == 4 || a == 6) { sx_assert(status == 1, "a command on an empty database fails"); return; }
    if (status == 0) { sx_assert(m_exists(DB "/meta") || m_fsize(DB "/0000000001") > 0, "other databases are left alone"); if (a == 0) { sx_assert(m_outn[0] == 0, "create prints nothing"); sx_reach("created"); } if (a == 3) { static const unsigned char z[32]; en = 0; hexline(z, 32); printed("root prints the root of an empty database"); } }
    holds(&map[2], "other databases are left alone"); return;
  }
  if (haver) { known = memcmp(r, root[1], 32) == 0 ? 1 : memcmp(r, root[2], 32) == 0 ? 2 : 0; m = &map[known]; }
  en = 0; at = a >= 4 && a <= 6 ? rm_find(a == 4 ? m : &w, key) : -1;
  switch (a) {
    case 0: printed("create prints nothing"); break;
    case 1: printed("destroy prints nothing"); sx_assert(!m_exists(DB), "destroy removes the database"); sx_reach("destroyed"); return;
    case 2: if (!known) { failed(); break; } lit("Items: "); num(m->n); lit("\nSize:  "); { unsigned long s = 0; for (i = 0; i < m->n; i++) s += 32 + m->e[i].len; num(s); } lit("\nRoot:  "); hexline(root[2], 32); sx_assert(status == 0, "a command that succeeds exits 0"); if (!haver || known == 2) printed("info prints the number of items, their size and the root"); else sx_assert(m_outn[0] >= en - 65 && sx_eq(m_out[0], exp_, en - 65), "info prints the number and size of the items of the snapshot"); break;
    case 3: hexline(root[2], 32); printed("root prints the root"); break;
    case 4: if (known && at >= 0) { hexline(m->e[at].val, m->e[at].len); printed("get prints the value in hex"); sx_reach("found"); } else failed(); break;
    case 5: if (n > 1023) failed(); else { rm_put(&w, key, val, n); printed("insert prints nothing"); sx_reach("inserted"); } break;
    case 6: if (rm_del(&w, key)) { printed("remove prints nothing"); sx_reach("removed"); } else sx_assert(status == (m_outn[1] > 0), "remove of an absent key reports as it exits"); break;
    case 7: if (!known) { failed(); break; } { int done[4] = {0}, j, b; for (i = 0; i < m->n; i++) { b = -1; for (j = 0; j < m->n; j++) if (!done[j] && (b < 0 || memcmp(m->e[j].key, m->e[b].key, 32) < 0)) b = j; done[b] = 1; hexline(m->e[b].key, 32); } } printed("list prints the keys in order"); break;
    case 8: db = urkel_open(DB); i = urkel_prove(db, &proof, &pn, key, haver ? r : NULL); urkel_close(db); sx_assert(i == !!known, "prove succeeds for a known root"); if (i) { hexline(proof, pn); urkel_free(proof); printed("prove prints the proof in hex"); sx_reach("proved"); } else failed(); break;
  }
  holds(&w, "the database holds what the commands put into it");
}
static void lists(void) {
  int n = (int)sx_param("N", 3), i, fix = (int)sx_param("FIX", -1), nv = (int)sx_param("NV", 30); unsigned char *proof; size_t pn; int env = (int)sx_param("ENV", 0);
  prepare(2); for (i = 0; i < 2; i++) hex(kh_[i], k[i], 32); for (i = 1; i < 3; i++) hex(rh_[i], root[i], 32);
  db = urkel_open(DB); sx_assert(urkel_prove(db, &proof, &pn, k[1], root[2]) == 1, "prove succeeds"); hex(prh_, proof, pn); urkel_free(proof); urkel_close(db);
  if (env) m_env_path = env == 1 ? DB : "/w/other"; if (sx_param("CWD", 1)) cd(DB);
  start(); if (fix >= 0) add(tok(fix)); if (sx_param("FIX2", -1) >= 0) add(tok((int)sx_param("FIX2", -1))); if (sx_param("FIX3", -1) >= 0) add(tok((int)sx_param("FIX3", -1)));
  for (i = 0; i < n; i++) { static char t[12]; int c; strcpy(t, "token0"); t[5] = (char)('0' + i); c = (int)sx_range(0, nv, t); if (c == nv) break; add(tok(c)); }
  run(); expect();
}
/* ---- 3: short arguments of arbitrary characters */
static void chars(void) {
  char s[16]; size_t n; int where = (int)sx_param("WHERE", 0);
  prepare(2); n = sx_range(sx_param("LO", 0), sx_param("HI", 3), "length"); { size_t p = 0; const char *pre[] = {"", "-", "--", "--h", "--has", "roo", "lis"}; strcpy(s, pre[sx_param("PRE", 0)]); p = strlen(s); sx_sym(s + p, n, "argument"); { size_t i; for (i = 0; i < n; i++) sx_assume(s[p + i] != 0); } s[p + n] = 0; }
  cd(DB); start(); if (where == 1) add("root"); add(s); run(); expect();
}
/* ---- 4: many positional arguments */
static void many(void) { int n = (int)sx_range(sx_param("LO", 29), sx_param("HI", 35), "count"), i; prepare(2); m_env_path = DB; start(); add("root"); for (i = 1; i < n; i++) add("x"); run(); if (n > 32) { if (status != 0) { refused(); } else expect(); } else expect(); }
/* ---- 5: what is printed for values, proofs and lists of every size */
static void sizes(void) {
  int i, nk = (int)sx_param("NK", 1); unsigned char *proof; size_t pn; static char h[70], ph[4000];
  for (i = 0; i < nk; i++) { vn[i] = sx_range(sx_param("LO", 0), sx_param("HI", 1023), "size"); fillv(v[i], vn[i], i); }
  prepare(nk); hex(h, k[0], 32);
  start(); add("get"); add(h); add("-p"); add(DB); run(); en = 0; hexline(v[0], vn[0]); printed("get prints the value in hex");
  start(); add("prove"); add(h); add("-p"); add(DB); run(); db = urkel_open(DB); sx_assert(urkel_prove(db, &proof, &pn, k[0], NULL) == 1, "prove succeeds"); urkel_close(db); hex(ph, proof, pn); en = 0; hexline(proof, pn); urkel_free(proof); printed("prove prints the proof in hex");
  { static char rh[70]; hex(rh, root[nk], 32); start(); add("verify"); add(h); add(ph); add("-r"); add(rh); run(); en = 0; hexline(v[0], vn[0]); printed("verify prints the proven value"); untouched(); }
  start(); add("info"); add("-p"); add(DB); run(); en = 0; lit("Items: "); num(nk); lit("\nSize:  "); { unsigned long s = 0; for (i = 0; i < nk; i++) s += 32 + vn[i]; num(s); } lit("\nRoot:  "); hexline(root[nk], 32); printed("info prints the number of items, their size and the root"); sx_reach("accepted");
}
/* ---- 6: proofs that are not quite proofs */
static void proofhex(void) {
  static char ph[1300], h[70], rh[70]; static unsigned char raw[700], pv[1100]; unsigned char *proof; size_t pn, n, m; int ex, ok; uint64_t at;
  prepare(2); db = urkel_open(DB); sx_assert(urkel_prove(db, &proof, &pn, k[sx_param("ABSENT", 0) ? 2 : 0], NULL) == 1, "prove succeeds"); hex(ph, proof, pn); urkel_free(proof); urkel_close(db);
  n = sx_range(sx_param("LO", 0), sx_param("HI", 2 * pn), "hex_length"); if (n > 2 * pn) n = 2 * pn; ph[n] = 0; at = n ? sx_range(0, n - 1, "position") : 0; if (sx_param("W", 1) && n) { sx_sym(ph + at, 1, "char"); sx_assume(ph[at] != 0); if (at == 0) sx_assume(ph[0] != '-'); }
  hex(h, k[sx_param("ABSENT", 0) ? 2 : 0], 32); hex(rh, root[2], 32); start(); add("verify"); add(h); add(ph); add("-r"); add(rh); run();
  if (n % 2) { refused(); return; }
  ok = unhex(raw, ph, n); if (!sx_concretize(ok)) { refused(); return; }
  en = 0; if (urkel_verify(&ex, pv, &m, raw, n / 2, sx_param("ABSENT", 0) ? k[2] : k[0], root[2])) { if (ex) hexline(pv, m); printed("verify prints the proven value"); sx_reach("verified"); } else { failed(); sx_reach("rejected"); }
  untouched();
}
/* ---- 7: keys of every length under --hash */
static void hashed(void) {
  static const int L[] = {0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 2048, 2200}; static char s[2300], o[2300]; unsigned char key[32], other[32], *proof; size_t n, i, pn; struct rmap m; int cmd, same;
  n = (size_t)L[sx_range(sx_param("LO", 0), sx_param("HI", 23), "length")]; for (i = 0; i < n; i++) s[i] = (char)('A' + (i * 11 + i / 26) % 58); s[n] = 0; vary(s, n, 3); memcpy(o, s, n + 1); if (n > 1) { i = sx_range(1, 4, "where"); i = i == 1 ? n - 1 : i == 2 ? n / 2 + 1 : i == 3 ? n - n / 4 - 1 : 1; if (i >= n) i = n - 1; sx_sym(o + i, 1, "other"); sx_assume(o[i] != 0); }
  prepare(2); m = map[2]; m_hash(key, s, n); m_hash(other, o, n); same = (int)sx_concretize(memcmp(s, o, n) == 0); if (!same) sx_assume(!sx_eq(key, other, 32));
  start(); add("-p"); add(DB); add("insert"); add("-H"); add(s); add("c0ffee"); run(); en = 0; printed("insert prints nothing"); rm_put(&m, key, "\xc0\xff\xee", 3); holds(&m, "insert --hash stores the value under the hash of the whole argument");
  cmd = (int)sx_range(0, 4, "command"); start(); add("--path"); add(DB); add("--hash"); add(cmd < 2 ? "get" : cmd == 2 ? "remove" : cmd == 3 ? "prove" : "verify"); add(o); en = 0;
  if (cmd < 2) { run(); if (same) { lit("c0ffee\n"); printed("get --hash reads the value under the hash of the whole argument"); sx_reach("found"); } else failed(); }
  if (cmd == 2) { run(); if (same) { printed("remove prints nothing"); rm_del(&m, key); } else sx_assert(status == (m_outn[1] > 0), "remove of an absent key reports as it exits"); }
  if (cmd >= 3) { static char ph[3000], rh[70]; unsigned char r[32]; db = urkel_open(DB); urkel_root(db, r); sx_assert(urkel_prove(db, &proof, &pn, other, NULL) == 1, "prove succeeds"); urkel_close(db); hex(ph, proof, pn); if (cmd == 3) { run(); hexline(proof, pn); printed("prove --hash proves the hash of the whole argument"); } else { hex(rh, r, 32); add(ph); add("-r"); add(rh); run(); if (same) lit("c0ffee\n"); printed("verify --hash verifies the hash of the whole argument"); } urkel_free(proof); }
  holds(&m, "the database holds what the commands put into it"); sx_reach("accepted");
}
/* ---- 8: system calls fail while a command runs: success is reported for exactly what was done */
static void faults(void) {
  static const char *c[] = {"create", "info", "root", "get", "insert", "remove", "list", "prove", "insert", "destroy"}; int cmd = (int)sx_range(sx_param("CLO", 0), sx_param("CHI", 9), "command"), nk = (int)sx_param("NK", 3), rsel = (int)sx_range(0, 1, "snapshot"), i, j, b, changed = 0; static char kh[70], rh[70]; struct rmap w; const struct rmap *m; unsigned char *proof = NULL, r[32], e[32]; size_t pn = 0;
  prepare(nk); w = map[nk]; m = &map[rsel ? nk - 1 : nk]; hex(kh, k[0], 32); if (cmd == 8) kh[63] ^= 1; hex(rh, root[rsel ? nk - 1 : nk], 32); en = 0;
  switch (cmd) {
    case 1: lit("Items: "); num(m->n); lit("\nSize:  "); { unsigned long s = 0; for (i = 0; i < m->n; i++) s += 32 + m->e[i].len; num(s); } lit("\nRoot:  "); hexline(root[nk], 32); break;
    case 2: hexline(root[nk], 32); break;
    case 3: hexline(v[0], vn[0]); break;
    case 4: rm_put(&w, k[0], "\x77\x88", 2); break;
    case 8: { unsigned char q[32]; unhex(q, kh, 64); rm_put(&w, q, "\x77\x88", 2); break; }
    case 5: rm_del(&w, k[0]); break;
    case 6: { int done[4] = {0}; for (i = 0; i < m->n; i++) { b = -1; for (j = 0; j < m->n; j++) if (!done[j] && (b < 0 || memcmp(m->e[j].key, m->e[b].key, 32) < 0)) b = j; done[b] = 1; hexline(m->e[b].key, 32); } break; }
    case 7: db = urkel_open(DB); sx_assert(urkel_prove(db, &proof, &pn, k[0], rsel ? root[nk - 1] : NULL) == 1, "prove succeeds"); urkel_close(db); hexline(proof, pn); urkel_free(proof); break;
  }
  start(); add("-p"); add(DB); if (rsel) { add("-r"); add(rh); } add(c[cmd]); if (cmd == 3 || cmd == 4 || cmd == 5 || cmd == 7 || cmd == 8) add(kh); if (cmd == 4 || cmd == 8) add("7788");
  m_k.fault_kinds = (int)sx_param("KINDS", 511); m_k.faults = (int)sx_param("FAULTS", 1); m_k.ops = 0; m_k.nfault = 0; m_k.fault_at = sx_between(0, sx_param("MAXF", 400), "fault_at");
  run(); m_k.faults = 0;
  sx_assert(status == 0 || status == 1, "the tool exits 0 or 1");
  if (m_k.nfault == 0) sx_assert(status == 0, "a command on a healthy system succeeds");
  if (status == 0) { printed("what a successful command prints is complete"); sx_reach(m_k.nfault ? "succeeded all the same" : "succeeded"); }
  else { sx_assert(m_outn[1] > 0, "a command that fails says why"); sx_assert(m_outn[0] <= en && (m_outn[0] == 0 || sx_eq(m_out[0], exp_, m_outn[0])), "a command that fails prints nothing wrong"); if (cmd != 6) sx_assert(m_outn[0] == 0, "a command that fails prints no result"); sx_reach("failed"); }
  if (cmd == 9) { if (status == 0) sx_assert(!m_exists(DB), "destroy removes the database"); return; }
  if (cmd == 4 || cmd == 5 || cmd == 8) { changed = status == 0; if (!changed) { db = urkel_open(DB); sx_assert(db != NULL, "the database opens"); if (!db) sx_end(); urkel_root(db, r); urkel_close(db); ref_root(e, &w); changed = (int)sx_concretize(sx_eq(r, e, 32)); } }
  holds(changed ? &w : &map[nk], status == 0 ? "a command that reports success did what it says" : "a command that fails leaves the database as it was, or did all of it");
}
void harness(void) {
  static void (*m[])(void) = {keyhex, valhex, lists, chars, many, sizes, proofhex, hashed, faults}; keys(); m[sx_param("MODE", 0)]();
}
