/* native.c - replay runtime: the harness, the model and the real objects, compiled natively,
 * are driven by the concrete values the solver chose. Exit 77: an assertion failed. */
#define _GNU_SOURCE
#include <pthread.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include "sx.h"
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define MSAN 1
# endif
#endif
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
#define NT 8
static FILE *in_; static char par_[32][64]; static int npar_;
static __thread int self_; static volatile int turn_; static int nth_ = 1;
static pthread_t pt_[NT]; static struct { void (*fn)(void *); void *arg; } tf_[NT];
static __thread jmp_buf *jb_;
static int64_t live_;
static void diverged(const char *why) { fprintf(stderr, "REPLAY-DIVERGED %s\n", why); fflush(stderr); _exit(3); }
static void fetch(void *p, size_t n, const char *name) {
  static char nm[256], hex[1 << 20]; size_t i; unsigned x;
  if (fscanf(in_, "%255s %1048575s", nm, hex) != 2) diverged("inputs exhausted");
  if (strcmp(nm, name)) { fprintf(stderr, "want %s have %s\n", name, nm); diverged("input order"); }
  if (strlen(hex) != 2 * n) diverged("input size");
  for (i = 0; i < n; i++) { sscanf(hex + 2 * i, "%2x", &x); ((unsigned char *)p)[i] = x; }
#ifdef MSAN
  __msan_unpoison(p, n);
#endif
}
void sx_sym(void *p, size_t n, const char *name) { if (n) fetch(p, n, name); }
uint64_t sx_between(uint64_t lo, uint64_t hi, const char *name) { uint64_t v = 0; fetch(&v, 8, name); if (v < lo || v > hi) diverged("range"); return v; }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_assume(int c) { if (!c) diverged("assumption"); }
void sx_assert_(int c, const char *msg) { if (!c) sx_fail(msg); }
void sx_fail(const char *msg) { fprintf(stderr, "REPLAY-FAILED %s\n", msg); fflush(stderr); _exit(77); }
void sx_reach(const char *n) { (void)n; }
int64_t sx_heap_live(void) { return live_; }
void *sx_malloc(size_t n) { return calloc(1, n ? n : 1); }
void *sx_sparse(size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) diverged("memory"); return p; }
static void *big_[64]; static int nbig_;
void *sx_snapshot(void *p, size_t n) { void *q; if (n > (64u << 20)) { big_[nbig_++ & 63] = p; return p; } q = malloc(n); memcpy(q, p, n); return q; }
static struct { void *p; size_t n; } sp_[64];
void sx_obj_free(void *p) { int i; for (i = 0; i < 64; i++) if (big_[i] == p) return; (void)sp_; if (((uintptr_t)p & 4095) == 0) return; free(p); }
int sx_try(void (*fn)(void *), void *arg) { jmp_buf jb, *old = jb_; jb_ = &jb; if (setjmp(jb) == 0) { fn(arg); jb_ = old; return 0; } jb_ = old; return 1; }
void sx_throw(void) { if (!jb_) diverged("throw"); longjmp(*jb_, 1); }
static void fwait(int me) { int t; while ((t = __atomic_load_n(&turn_, __ATOMIC_ACQUIRE)) != me) syscall(SYS_futex, &turn_, FUTEX_WAIT, t, NULL, NULL, 0); }
static void *tmain(void *a) { int me = (int)(intptr_t)a; self_ = me; fwait(me); tf_[me].fn(tf_[me].arg); return NULL; }
int sx_spawn(void (*fn)(void *), void *arg) { int t = nth_++; tf_[t].fn = fn; tf_[t].arg = arg; if (pthread_create(&pt_[t], NULL, tmain, (void *)(intptr_t)t)) diverged("thread"); return t; }
void sx_switch(int t) { int me = self_; if (t == me) return; __atomic_store_n(&turn_, t, __ATOMIC_RELEASE); syscall(SYS_futex, &turn_, FUTEX_WAKE, 1000, NULL, NULL, 0); fwait(me); }
int sx_self(void) { return self_; }
static char sync_[2048];
void sx_acquire(int id) { if (__tsan_acquire) __tsan_acquire(&sync_[id & 2047]); }
void sx_release(int id) { if (__tsan_release) __tsan_release(&sync_[id & 2047]); }
int64_t sx_param(const char *name, int64_t d) { size_t n = strlen(name); int i; for (i = 0; i < npar_; i++) if (strncmp(par_[i], name, n) == 0 && par_[i][n] == '=') return strtoll(par_[i] + n + 1, NULL, 0); return d; }
void sx_note(const char *m) { fprintf(stderr, "note: %s\n", m); }
int sx_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
void sx_poison(void *p, size_t n) {
#ifdef MSAN
  __msan_poison(p, n);
#else
  memset(p, 0xa5, n);
#endif
}
int sx_isinit(const void *p, size_t n) {
#ifdef MSAN
  return __msan_test_shadow(p, n) == -1;
#else
  (void)p; (void)n; return 1;
#endif
}
void sx_end(void) { fprintf(stderr, "REPLAY-OK\n"); fflush(stderr); _exit(0); }
int sx_feasible(int c) { return c; }
int sx_isconst(uint64_t v) { (void)v; return 1; }
void sx_const(void *p) { (void)p; }
/* the library's allocations are counted */
void *sxn_malloc(size_t n) { if (n > (1ull << 31)) return NULL; live_++; return malloc(n); }
void *sxn_calloc(size_t a, size_t b) { live_++; return calloc(a, b); }
void *sxn_realloc(void *p, size_t n) { if (!p) live_++; return realloc(p, n); }
void sxn_free(void *p) { if (p) live_--; free(p); }
int main(int argc, char **argv) {
  int i; if (argc < 2) return 2;
  in_ = fopen(argv[1], "r"); if (!in_) return 2;
  for (i = 2; i < argc && npar_ < 32; i++) strncpy(par_[npar_++], argv[i], 63);
  harness();
  fprintf(stderr, "REPLAY-OK\n"); fflush(stderr); _exit(0);
}
