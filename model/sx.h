/* sx.h - the interface between harnesses and usym (symbolic) or native.c (replay). */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
void sx_sym(void *p, size_t n, const char *name);          /* n fresh symbolic bytes */
uint64_t sx_between(uint64_t lo, uint64_t hi, const char *name); /* one symbolic integer */
uint64_t sx_concretize(uint64_t v);                        /* fork over every feasible value */
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_fail(const char *msg);
void sx_reach(const char *name);                           /* vacuity witness */
int64_t sx_heap_live(void);                                /* live malloc blocks */
void *sx_malloc(size_t n);                                 /* model memory, zeroed, not counted */
void *sx_sparse(size_t n);
void *sx_snapshot(void *p, size_t n);
void sx_obj_free(void *p);
int sx_try(void (*fn)(void *), void *arg);                 /* 1 when left through sx_throw */
void sx_throw(void);
int sx_spawn(void (*fn)(void *), void *arg);
void sx_switch(int t);
int sx_self(void);
void sx_acquire(int id);
void sx_release(int id);
int64_t sx_param(const char *name, int64_t dflt);
void sx_note(const char *msg);
int sx_eq(const void *a, const void *b, size_t n);         /* non-forking equality */
void sx_poison(void *p, size_t n);                         /* mark as uninitialised */
int sx_isinit(const void *p, size_t n);
void sx_end(void);                                         /* end this path quietly */
int sx_feasible(int c);
int sx_isconst(uint64_t v);                                 /* v has no symbolic bit */
void sx_const(void *p);                                    /* make the object read-only */
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
#define sx_range(lo, hi, name) sx_concretize(sx_between(lo, hi, name))
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
void harness(void);

/* ---- environment model (posix.c) */
struct m_knobs {
  int pid[8];              /* process of each thread */
  int crash_on;            /* a crash may happen */
  uint64_t crash_at;       /* symbolic: index of the mutating call that dies */
  uint64_t muts;           /* mutating calls so far */
  int partial_all;         /* every length of a partial write, not only three */
  int nopartial;
  int nfault;              /* faults injected so far */
  int nunmap;              /* munmap calls made to fail */
  int faults;              /* remaining injected faults */
  uint64_t fault_at;       /* symbolic: index of the call that fails */
  uint64_t ops;            /* fallible calls so far */
  int fault_kinds;         /* bit set, see F_* */
  int shortio;             /* remaining short reads/writes / EINTR */
  uint64_t short_at;
  uint64_t ios;
  int preempt;             /* remaining preemptions */
  int revdir;              /* readdir order */
  int crashed;
  int crash_pid;           /* only this process may crash (0: any) */
  int n_fdatasync, n_open, n_unlinks, n_mmaps;
  uint64_t filecap;
  int wrap_unmap;
};
extern struct m_knobs m_k;
#define F_WRITE 1
#define F_MMAP 2
#define F_OPEN 4
#define F_SYNC 8
#define F_TRUNC 16
#define F_UNLINK 32
#define F_READ 64
#define F_MUNMAP 128
#define F_FSTAT 256
void m_init(void);
void m_mkdirp(const char *path);
int m_exists(const char *path);
int64_t m_fsize(const char *path);
unsigned char *m_fdata(const char *path);
void m_fsetsize(const char *path, uint64_t n);
void m_fput(const char *path, const void *data, uint64_t n);    /* create or replace */
void m_fdel(const char *path);                                 /* the file is gone */
int m_count(const char *dir);                                  /* entries below dir */
int m_open_fds(void);
int m_open_fds_pid(int pid);
int m_open_maps(void);
void m_kill_process(int pid);                                  /* drop its fds, maps, locks */
uint64_t m_fs_digest_count(void);
int m_unlinked(int i, char *out);
void m_chdir(const char *path);
int m_isdir(const char *path);
int m_path(int i, char *out);                                 /* the i-th name in the filesystem: -1 no such slot, 0 free */
int m_nunlinked(void);
void m_thread(void (*fn)(void *), void *arg, int pid);
void m_run_all(void);                                          /* run spawned threads to completion */
void m_yield(void);
int m_held_locks(void);
void m_lose(const char *dir);                                  /* power loss: data after the last sync may be gone or garbage */
#endif
