/* posix.c - the operating system liburkel sees: an in-memory filesystem, locks, threads,
 * with symbolic crash points, faults and schedules. Runs both under usym and natively. */
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <time.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "sx.h"

#ifndef NINO
#define NINO 96
#endif
#ifndef NDENT
#define NDENT 96
#endif
#ifndef NFD
#define NFD 128
#endif
#ifndef NMAP
#define NMAP 128
#endif
#define NTH 8
struct m_knobs m_k;
struct m_inode { int used, isdir, nlink, refs, dev; unsigned char *data; uint64_t size, cap, synced; };
struct m_dent { int used, ino; char *path; };
struct m_fd { int used, ino, flags, pid; uint64_t pos; };
struct m_map { int used, pid; unsigned char *base; uint64_t len; };
struct m_dir { int pos, n, ino; char *path; struct dirent ent; int pid; };
static struct m_inode ino_[NINO];
static struct m_dent dent_[NDENT];
static struct m_fd fd_[NFD];
static struct m_map map_[NMAP];
static int errno_[NTH];
static char *unl_[64]; static int nunl_;
static int open_dirs_;

int *m___errno_location(void) { return &errno_[sx_self()]; }
#define E(x) (errno_[sx_self()] = (x))
static int mypid(void) { return m_k.pid[sx_self()]; }

static char *dups(const char *s) { size_t n = strlen(s); char *p = sx_malloc(n + 1); memcpy(p, s, n + 1); return p; }
static int lookup(const char *path) {
  int i; for (i = 0; i < NDENT; i++) if (dent_[i].used && strcmp(dent_[i].path, path) == 0) return i;
  return -1;
}
static const char *cwd_ = "/w";
void m_chdir(const char *p) { cwd_ = dups(p); }
/* what the kernel resolves a path to: relative to the working directory, redundant parts removed */
static const char *cn(const char *p) {
  size_t i, n = strlen(p), w, st; int plain = p[0] == '/', d; char *o;
  if (n == 0) { E(ENOENT); return NULL; }
  if (n >= 4096) { E(ENAMETOOLONG); return NULL; }
  for (i = 0; plain && i < n; i++) if (p[i] == '/' && (i + 1 == n || p[i + 1] == '/' || p[i + 1] == '.')) plain = 0;
  for (i = 0, w = 0; i < n; i++) { if (p[i] == '/') w = 0; else if (++w > 255) { E(ENAMETOOLONG); return NULL; } }
  if (plain) return p;
  o = sx_malloc(n + strlen(cwd_) + 3); w = 0;
  if (p[0] != '/') { w = strlen(cwd_); memcpy(o, cwd_, w); if (w == 1) w = 0; }
  for (i = 0; i < n;) {
    while (i < n && p[i] == '/') i++;
    st = i; while (i < n && p[i] != '/') i++;
    if (i == st || (i - st == 1 && p[st] == '.')) continue;
    if (i - st == 2 && p[st] == '.' && p[st + 1] == '.') { o[w] = 0; d = lookup(w ? o : "/"); if (d < 0 || !ino_[dent_[d].ino].isdir) { E(ENOENT); return NULL; } while (w > 0 && o[w - 1] != '/') w--; if (w > 0) w--; continue; }
    o[w++] = '/'; memcpy(o + w, p + st, i - st); w += i - st;
  }
  if (w == 0) o[w++] = '/';
  o[w] = 0; return o;
}
static int parent_ok(const char *path) {
  size_t n = strlen(path); char *p; int d;
  while (n > 0 && path[n - 1] != '/') n--;
  if (n == 0) return 0;
  p = sx_malloc(n + 1); memcpy(p, path, n); if (n > 1) n--; p[n] = 0;
  d = lookup(p); return d >= 0 && ino_[dent_[d].ino].isdir;
}
static int newino(int isdir) {
  int i; for (i = 1; i < NINO; i++) if (!ino_[i].used) { memset(&ino_[i], 0, sizeof ino_[i]); ino_[i].used = 1; ino_[i].isdir = isdir; ino_[i].nlink = 1; return i; }
  sx_fail("model: out of inodes"); return -1;
}
static int newdent(const char *path, int ino) {
  int i; for (i = 0; i < NDENT; i++) if (!dent_[i].used) { dent_[i].used = 1; dent_[i].ino = ino; dent_[i].path = dups(path); return i; }
  sx_fail("model: out of directory entries"); return -1;
}
static void ensure_data(struct m_inode *in) { if (!in->data) { in->cap = m_k.filecap; in->data = sx_sparse(in->cap); } }
static void drop(int i) { if (ino_[i].nlink == 0 && ino_[i].refs == 0) { if (ino_[i].data) sx_obj_free(ino_[i].data); ino_[i].used = 0; ino_[i].data = NULL; } }

/* a mutating call is about to happen: does the process die here? returns 1 when it does */
static int crash_here(void) {
  if (!m_k.crash_on || (m_k.crash_pid && m_k.crash_pid != mypid())) return 0;
  if (m_k.muts++ == m_k.crash_at) { m_k.crashed = 1; return 1; }
  return 0;
}
static void die_(void) { m_k.crashed = 0; sx_throw(); }
static int fault_here(int kind) {
  if (!(m_k.fault_kinds & kind) || m_k.faults <= 0) return 0;
  if (m_k.ops++ == m_k.fault_at) { m_k.faults--; m_k.nfault++; if (m_k.faults > 0) m_k.fault_at = sx_between(m_k.ops, m_k.ops + 40, "next_fault"); return 1; }
  return 0;
}
static int short_here(void) {
  if (m_k.shortio <= 0) return 0;
  if (m_k.ios++ == m_k.short_at) { m_k.shortio--; m_k.short_at = sx_between(m_k.ios, m_k.ios + 40, "next_short"); return 1; }
  return 0;
}

void m_init(void) {
  int i; memset(&m_k, 0, sizeof m_k); m_k.filecap = 1 << 22; 
  for (i = 0; i < 8; i++) m_k.pid[i] = 1;
  newdent("/", newino(1));
  m_mkdirp("/dev"); newdent("/dev/urandom", newino(0)); ino_[dent_[lookup("/dev/urandom")].ino].dev = 1;
  m_mkdirp("/w"); m_k.revdir = 1;
}
void m_mkdirp(const char *path) { if (lookup(path) < 0) newdent(path, newino(1)); }
int m_exists(const char *path) { return lookup(path) >= 0; }
int64_t m_fsize(const char *path) { int d = lookup(path); return d < 0 ? -1 : (int64_t)ino_[dent_[d].ino].size; }
unsigned char *m_fdata(const char *path) { int d = lookup(path); if (d < 0) return NULL; ensure_data(&ino_[dent_[d].ino]); return ino_[dent_[d].ino].data; }
void m_fsetsize(const char *path, uint64_t n) { int d = lookup(path); if (d >= 0) ino_[dent_[d].ino].size = n; }
void m_fput(const char *path, const void *data, uint64_t n) {
  int d = lookup(path); struct m_inode *in; if (d < 0) d = newdent(path, newino(0)); in = &ino_[dent_[d].ino]; ensure_data(in); if (n) memcpy(in->data, data, n); in->size = n;
}
void m_fdel(const char *path) { int d = lookup(path); if (d >= 0) { dent_[d].used = 0; ino_[dent_[d].ino].nlink--; drop(dent_[d].ino); } }
int m_count(const char *dir) { int i, c = 0; size_t n = strlen(dir); for (i = 0; i < NDENT; i++) if (dent_[i].used && strlen(dent_[i].path) > n + 1 && memcmp(dent_[i].path, dir, n) == 0 && dent_[i].path[n] == '/') c++; return c; }
int m_open_fds(void) { int i, c = 0; for (i = 0; i < NFD; i++) c += fd_[i].used; return c + open_dirs_; }
int m_open_fds_pid(int pid) { int i, c = 0; for (i = 0; i < NFD; i++) c += fd_[i].used && fd_[i].pid == pid; return c; }
int m_open_maps(void) { int i, c = 0; for (i = 0; i < NMAP; i++) c += map_[i].used; return c; }
int m_nunlinked(void) { return nunl_; }
int m_unlinked(int i, char *out) { strcpy(out, unl_[i]); return 1; }
/* power loss: of the bytes appended to each file since it was last synced, any prefix survives, any part of the rest
 * reads as zeros (delayed allocation); names and synced bytes survive */
void m_lose(const char *dir) {
  int i, j, done[NINO]; size_t n = strlen(dir); memset(done, 0, sizeof done);
  for (i = 0; i < NDENT; i++) if (dent_[i].used && strncmp(dent_[i].path, dir, n) == 0 && !ino_[dent_[i].ino].isdir) {
    struct m_inode *in = &ino_[dent_[i].ino]; uint64_t keep, z, size = sx_concretize(in->size), sy = in->synced; const char *nm = dent_[i].path + n;
    j = dent_[i].ino; if (done[j]) continue; done[j] = 1; if (sy > size) sy = size; if (size == sy) continue;
    if (strcmp(nm, "/lock") == 0 || strcmp(nm, "/meta") == 0) continue;
    { int w = m_k.partial_all || size - sy < 5 ? -1 : (int)sx_range(0, 4, "survives"); keep = w < 0 ? sx_range(sy, size, "survives_to") : w == 0 ? sy : w == 1 ? sy + 1 : w == 2 ? sy + (size - sy) / 2 : w == 3 ? size - 1 : size; } z = keep == sy ? keep : sx_range(0, 1, "holes") ? sy + (keep - sy) / 2 : keep;
    ensure_data(in); memset(in->data + z, 0, size - z); in->size = keep; in->synced = keep;
  }
}
/* advisory record locks, by process and byte range */
static struct { int ino, pid, type; uint64_t lo, hi; } lk_[24];
static void unlock_(int ino, int pid, uint64_t lo, uint64_t hi) {
  int i, j;
  for (i = 0; i < 24; i++) if (lk_[i].pid == pid && pid && lk_[i].ino == ino && lk_[i].lo < hi && lo < lk_[i].hi) {
    if (lk_[i].lo < lo && lk_[i].hi > hi) { for (j = 0; j < 24; j++) if (!lk_[j].pid) { lk_[j] = lk_[i]; lk_[j].lo = hi; break; } lk_[i].hi = lo; }
    else if (lk_[i].lo < lo) lk_[i].hi = lo; else if (lk_[i].hi > hi) lk_[i].lo = hi; else lk_[i].pid = 0;
  }
}
static void close_fd(int f) {
  int i = fd_[f].ino; fd_[f].used = 0; ino_[i].refs--;
  unlock_(i, fd_[f].pid, 0, ~(uint64_t)0); /* POSIX: any close drops the locks */
  drop(i);
}

int m_open(const char *path, int flags, unsigned mode) {
  int d, f, i; (void)mode;
  m_yield();
  if (fault_here(F_OPEN)) { E(EMFILE); return -1; }
  if (short_here()) { E(EINTR); return -1; }
  if (!(path = cn(path))) return -1;
  d = lookup(path);
  if (d < 0) {
    if (!(flags & O_CREAT) || !parent_ok(path)) { E(ENOENT); return -1; }
    if (crash_here()) { if (sx_range(0, 1, "crash_applied")) newdent(path, newino(0)); die_(); }
    d = newdent(path, newino(0));
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { E(EEXIST); return -1; }
  i = dent_[d].ino;
  if (ino_[i].isdir && (flags & O_ACCMODE) != O_RDONLY) { E(EISDIR); return -1; }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && ino_[i].size) {
    if (crash_here()) { if (sx_range(0, 1, "crash_applied")) ino_[i].size = 0; die_(); }
    ino_[i].size = 0;
  }
  for (f = 3; f < NFD; f++) if (!fd_[f].used) { fd_[f].used = 1; fd_[f].ino = i; fd_[f].pos = 0; fd_[f].flags = flags; fd_[f].pid = mypid(); ino_[i].refs++; m_k.n_open++; return f; }
  sx_fail("model: out of descriptors"); return -1;
}
int m_creat(const char *p, unsigned mode) { return m_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int m_openat(int d, const char *p, int flags, unsigned mode) { if (d != AT_FDCWD && *p != '/') sx_fail("model: openat relative to a directory"); return m_open(p, flags, mode); }
static int okfd(int f) { if (f < 3 || f >= NFD || !fd_[f].used || fd_[f].pid != mypid()) { E(EBADF); return 0; } return 1; }
int m_close(int f) { if (!okfd(f)) { sx_fail("close of a descriptor that is not open"); return -1; } close_fd(f); return 0; }
static void fillstat(int i, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = ino_[i].isdir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = ino_[i].size; st->st_nlink = ino_[i].nlink; st->st_ino = i; st->st_dev = 1; }
int m_fstat(int f, struct stat *st) { if (!okfd(f)) return -1; if (fault_here(F_FSTAT)) { E(EIO); return -1; } fillstat(fd_[f].ino, st); return 0; }
int m_lstat(const char *p, struct stat *st) { int d; m_yield(); if (fault_here(F_FSTAT)) { E(EIO); return -1; } if (!(p = cn(p))) return -1; d = lookup(p); if (d < 0) { E(ENOENT); return -1; } fillstat(dent_[d].ino, st); return 0; }
int m_stat(const char *p, struct stat *st) { return m_lstat(p, st); }
int m_access(const char *p, int mode) { (void)mode; if (!(p = cn(p))) return -1; if (lookup(p) < 0) { E(ENOENT); return -1; } return 0; }
static ssize_t rd(int f, void *buf, size_t len, uint64_t pos) {
  struct m_inode *in = &ino_[fd_[f].ino]; uint64_t n;
  if ((fd_[f].flags & O_ACCMODE) == O_WRONLY) { E(EBADF); return -1; }
  if (in->isdir) { E(EISDIR); return -1; }
  if (fault_here(F_READ)) { E(EIO); return -1; }
  if (in->dev) {
    static const unsigned char rnd[64] = {0x5a,0x11,0x22,0x33,0x44,0x55,0x66,0x77,0x88,0x99,0xaa,0xbb,0xcc,0xdd,0xee,0xff,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10};
    if (len > 64) len = 64; memcpy(buf, rnd, len); return len;
  }
  if (pos >= in->size) return 0;
  n = in->size - pos; if (n > len) n = len;
  if (n > 0 && short_here()) { if (sx_range(0, 1, "eintr")) { E(EINTR); return -1; } if (n > 1) { n = sx_between(1, n - 1, "short_read"); n = sx_concretize(n); } }
  n = sx_concretize(n);
  ensure_data(in); if (n) memcpy(buf, in->data + pos, n);
  return n;
}
ssize_t m_pread(int f, void *buf, size_t len, off_t pos) { if (!okfd(f)) return -1; if (pos < 0) { E(EINVAL); return -1; } return rd(f, buf, len, pos); }
ssize_t m_read(int f, void *buf, size_t len) { ssize_t r; if (!okfd(f)) return -1; r = rd(f, buf, len, fd_[f].pos); if (r > 0) fd_[f].pos += r; return r; }
static ssize_t wr(int f, const void *buf, size_t len, uint64_t pos) {
  struct m_inode *in = &ino_[fd_[f].ino]; uint64_t n = len;
  if ((fd_[f].flags & O_ACCMODE) == O_RDONLY) { E(EBADF); return -1; }
  ensure_data(in);
  if (pos + len > in->cap) { E(EFBIG); return -1; }
  if (crash_here()) {
    uint64_t k = sx_between(0, len, "torn_write");
    memcpy(in->data + pos, buf, len); if (pos + k > in->size) in->size = pos + k;
    die_();
  }
  if (fault_here(F_WRITE)) {
    /* the device fills up: some prefix is written, then the rest fails */
    if (len > 1 && !m_k.nopartial && sx_range(0, 1, "partial")) {
      if (m_k.partial_all) n = sx_range(1, len - 1, "enospc_after"); else { n = sx_range(0, len > 3 ? 2 : 0, "enospc_after"); n = n == 0 ? 1 : n == 1 ? len / 2 : len - 1; }
      memcpy(in->data + pos, buf, n); if (pos + n > in->size) in->size = pos + n;
      m_k.fault_at = m_k.ops; m_k.faults++; m_k.nopartial = 1; /* the next write fails altogether */
      return n;
    }
    m_k.nopartial = 0;
    E(ENOSPC); return -1;
  }
  if (n > 0 && short_here()) { if (sx_range(0, 1, "eintr")) { E(EINTR); return -1; } if (n > 1) { n = sx_between(1, n - 1, "short_write"); n = sx_concretize(n); } }
  if (n) memcpy(in->data + pos, buf, n);
  if (pos + n > in->size) in->size = pos + n;
  return n;
}
ssize_t m_write(int f, const void *buf, size_t len) {
  ssize_t r; uint64_t pos;
  if (f == 1 || f == 2) return len;
  if (!okfd(f)) return -1;
  pos = (fd_[f].flags & O_APPEND) ? sx_concretize(ino_[fd_[f].ino].size) : fd_[f].pos;
  r = wr(f, buf, len, pos); if (r > 0) fd_[f].pos = pos + r; return r;
}
ssize_t m_pwrite(int f, const void *buf, size_t len, off_t pos) { if (!okfd(f)) return -1; if (fd_[f].flags & O_APPEND) pos = sx_concretize(ino_[fd_[f].ino].size); return wr(f, buf, len, pos); }
/* vectored I/O is one operation on the joined buffer */
static ssize_t join(int f, const struct iovec *v, int n, off_t pos, int at, int out) {
  size_t k = 0, o; int i; unsigned char *b; ssize_t r, left; for (i = 0; i < n; i++) k += v[i].iov_len;
  b = sx_malloc(k);
  if (out) for (o = 0, i = 0; i < n; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  r = out ? at ? m_pwrite(f, b, k, pos) : m_write(f, b, k) : at ? m_pread(f, b, k, pos) : m_read(f, b, k);
  if (!out) for (o = 0, left = r, i = 0; i < n && left > 0; i++) { size_t c = (size_t)left < v[i].iov_len ? (size_t)left : v[i].iov_len; memcpy(v[i].iov_base, b + o, c); o += c; left -= c; }
  sx_obj_free(b); return r;
}
ssize_t m_readv(int f, const struct iovec *v, int n) { return join(f, v, n, 0, 0, 0); }
ssize_t m_writev(int f, const struct iovec *v, int n) { return join(f, v, n, 0, 0, 1); }
ssize_t m_preadv(int f, const struct iovec *v, int n, off_t p) { return join(f, v, n, p, 1, 0); }
ssize_t m_pwritev(int f, const struct iovec *v, int n, off_t p) { return join(f, v, n, p, 1, 1); }
off_t m_lseek(int f, off_t off, int wh) { if (!okfd(f)) return -1; if (wh == SEEK_SET) fd_[f].pos = off; else if (wh == SEEK_CUR) fd_[f].pos += off; else fd_[f].pos = ino_[fd_[f].ino].size + off; return fd_[f].pos; }
static void settrunc(struct m_inode *in, uint64_t n) {
  uint64_t old = sx_concretize(in->size); n = sx_concretize(n);
  if (n < old) { ensure_data(in); memset(in->data + n, 0, old - n); }
  in->size = n;
}
int m_ftruncate(int f, off_t n) {
  if (!okfd(f)) return -1; if ((fd_[f].flags & O_ACCMODE) == O_RDONLY) { E(EINVAL); return -1; }
  if (fault_here(F_TRUNC)) { E(EIO); return -1; }
  if (crash_here()) { if (sx_range(0, 1, "crash_applied")) settrunc(&ino_[fd_[f].ino], n); die_(); }
  settrunc(&ino_[fd_[f].ino], n); return 0;
}
int m_truncate(const char *p, off_t n) { int d; if (!(p = cn(p))) return -1; d = lookup(p); if (d < 0) { E(ENOENT); return -1; } if (crash_here()) die_(); settrunc(&ino_[dent_[d].ino], n); return 0; }
int m_fsync(int f) { if (!okfd(f)) return -1; if (fault_here(F_SYNC)) { E(EIO); return -1; } m_k.n_fdatasync++; ino_[fd_[f].ino].synced = ino_[fd_[f].ino].size; return 0; }
int m_fdatasync(int f) { return m_fsync(f); }
int m_unlink(const char *p) {
  int d; m_yield(); if (!(p = cn(p))) return -1; d = lookup(p); if (d < 0) { E(ENOENT); return -1; }
  if (ino_[dent_[d].ino].isdir) { E(EISDIR); return -1; }
  if (fault_here(F_UNLINK)) { E(EACCES); return -1; }
  if (crash_here()) { if (!sx_range(0, 1, "crash_applied")) die_(); }
  if (nunl_ < 64) unl_[nunl_++] = dups(p);
  dent_[d].used = 0; ino_[dent_[d].ino].nlink--; drop(dent_[d].ino);
  if (m_k.crashed) die_();
  return 0;
}
int m_rename(const char *a, const char *b) {
  int d, e; m_yield(); if (!(a = cn(a)) || !(b = cn(b))) return -1; d = lookup(a); if (d < 0) { E(ENOENT); return -1; }
  if (crash_here()) { if (!sx_range(0, 1, "crash_applied")) die_(); }
  e = lookup(b); if (e >= 0) { dent_[e].used = 0; ino_[dent_[e].ino].nlink--; drop(dent_[e].ino); }
  dent_[d].path = dups(b); if (m_k.crashed) die_(); return 0;
}
/* does the name end in "." or ".."? such a directory can be neither made nor removed */
static int dotted(const char *p) { size_t n = strlen(p); while (n > 1 && p[n - 1] == '/') n--; if (n && p[n - 1] == '.') { n--; if (n && p[n - 1] == '.') n--; return n == 0 || p[n - 1] == '/'; } return 0; }
int m_mkdir(const char *p, mode_t mode) {
  int dot = dotted(p); (void)mode; m_yield(); if (!(p = cn(p))) return -1; if (lookup(p) >= 0) { E(EEXIST); return -1; } if (dot) { E(ENOENT); return -1; }
  if (fault_here(F_OPEN)) { E(ENOSPC); return -1; }
  if (!parent_ok(p)) { E(ENOENT); return -1; }
  if (crash_here()) { if (!sx_range(0, 1, "crash_applied")) die_(); }
  newdent(p, newino(1)); if (m_k.crashed) die_(); return 0;
}
int m_rmdir(const char *p) {
  int d, dot = dotted(p); m_yield(); if (!(p = cn(p))) return -1; d = lookup(p); if (d < 0) { E(ENOENT); return -1; } if (!ino_[dent_[d].ino].isdir) { E(ENOTDIR); return -1; }
  if (dot) { E(EINVAL); return -1; }
  if (p[0] == '/' && p[1] == 0) { E(EBUSY); return -1; }
  if (fault_here(F_UNLINK)) { E(EACCES); return -1; }
  if (m_count(p)) { E(ENOTEMPTY); return -1; }
  if (crash_here()) { if (!sx_range(0, 1, "crash_applied")) die_(); }
  if (nunl_ < 64) unl_[nunl_++] = dups(p);
  dent_[d].used = 0; ino_[dent_[d].ino].used = 0; if (m_k.crashed) die_(); return 0;
}
int m_chmod(const char *p, mode_t m) { (void)m; return !(p = cn(p)) || lookup(p) < 0 ? -1 : 0; }
DIR *m_opendir(const char *p) {
  int d; struct m_dir *r; m_yield(); if (!(p = cn(p))) return NULL; d = lookup(p); if (d < 0 || !ino_[dent_[d].ino].isdir) { E(ENOENT); return NULL; }
  if (fault_here(F_OPEN)) { E(EMFILE); return NULL; }
  r = sx_malloc(sizeof *r); r->path = dups(p); r->pos = -2; open_dirs_++; return (DIR *)r;
}
struct dirent *m_readdir(DIR *dd) {
  struct m_dir *r = (struct m_dir *)dd; size_t n = strlen(r->path);
  memset(&r->ent, 0, sizeof r->ent);
  if (fault_here(F_READ)) { E(EIO); return NULL; }
  if (r->pos < 0) { strcpy(r->ent.d_name, r->pos == -2 ? "." : ".."); r->ent.d_type = DT_DIR; r->pos++; return &r->ent; }
  while (r->pos < NDENT) {
    int i = m_k.revdir ? NDENT - 1 - r->pos : r->pos; const char *q; size_t b = n; r->pos++;
    if (!dent_[i].used) continue;
    q = dent_[i].path; if (n == 1 && r->path[0] == '/') b = 0;
    if (strlen(q) <= b + 1 || memcmp(q, r->path, b) != 0 || q[b] != '/' || strchr(q + b + 1, '/')) continue;
    if (strlen(q + b + 1) >= sizeof r->ent.d_name) continue;
    strcpy(r->ent.d_name, q + b + 1); r->ent.d_type = ino_[dent_[i].ino].isdir ? DT_DIR : DT_REG; r->ent.d_ino = dent_[i].ino; return &r->ent;
  }
  return NULL;
}
int m_closedir(DIR *d) { (void)d; open_dirs_--; return 0; }
int m_fcntl(int f, int cmd, void *arg) {
  m_yield();
  if (!okfd(f)) return -1;
  if (cmd == F_SETLK || cmd == F_SETLKW) {
    struct flock *l = arg; int j, ino = fd_[f].ino, pid = mypid(); uint64_t lo = l->l_start, hi;
    if (l->l_whence == SEEK_CUR) lo += fd_[f].pos; else if (l->l_whence == SEEK_END) lo += ino_[ino].size; else if (l->l_whence != SEEK_SET) { E(EINVAL); return -1; }
    if (l->l_len < 0) { hi = lo; lo += l->l_len; } else hi = l->l_len ? lo + l->l_len : ~(uint64_t)0;
    if (l->l_type == F_UNLCK) { unlock_(ino, pid, lo, hi); return 0; }
    if (l->l_type != F_RDLCK && l->l_type != F_WRLCK) { E(EINVAL); return -1; }
    if (fault_here(F_OPEN)) { E(ENOLCK); return -1; }
    if ((fd_[f].flags & O_ACCMODE) == (l->l_type == F_RDLCK ? O_WRONLY : O_RDONLY)) { E(EBADF); return -1; }
    for (j = 0; j < 24; j++) if (lk_[j].pid && lk_[j].pid != pid && lk_[j].ino == ino && lk_[j].lo < hi && lo < lk_[j].hi && (lk_[j].type == F_WRLCK || l->l_type == F_WRLCK)) { E(EAGAIN); return -1; }
    unlock_(ino, pid, lo, hi); for (j = 0; j < 24 && lk_[j].pid; j++); if (j == 24) { E(ENOLCK); return -1; }
    lk_[j].ino = ino; lk_[j].pid = pid; lk_[j].type = l->l_type; lk_[j].lo = lo; lk_[j].hi = hi; return 0;
  }
  if (cmd == F_GETFD || cmd == F_GETFL) return 0;
  return 0;
}
void *m_mmap(void *addr, size_t len, int prot, int flags, int f, off_t off) {
  struct m_inode *in; int i; (void)addr; (void)prot; (void)flags;
  if (!okfd(f)) return MAP_FAILED;
  if (len == 0) { E(EINVAL); return MAP_FAILED; }
  if (fault_here(F_MMAP)) { E(ENOMEM); return MAP_FAILED; }
  in = &ino_[fd_[f].ino]; ensure_data(in);
  if (off + len > in->size) { sx_fail("mapping extends past the end of the file"); }
  for (i = 0; i < NMAP; i++) if (!map_[i].used) {
    map_[i].used = 1; map_[i].pid = mypid(); map_[i].len = len; map_[i].base = sx_snapshot(in->data + off, len); m_k.n_mmaps++;
    return map_[i].base;
  }
  sx_fail("model: out of mappings"); return MAP_FAILED;
}
int m_munmap(void *p, size_t len) {
  int i; for (i = 0; i < NMAP; i++) if (map_[i].used && map_[i].base == (unsigned char *)p) {
    if (fault_here(F_MUNMAP)) { m_k.nunmap++; E(EINVAL); return -1; }
    if (map_[i].len != len) sx_fail("munmap with the wrong length");
    map_[i].used = 0; sx_obj_free(p); return 0;
  }
  sx_fail("munmap of something that is not mapped"); E(EINVAL); return -1;
}
char *m_getcwd(char *buf, size_t n) { size_t k = strlen(cwd_) + 1; if (n < k) { E(ERANGE); return NULL; } memcpy(buf, cwd_, k); return buf; }
int m_isdir(const char *p) { int d = lookup(p); return d >= 0 && ino_[dent_[d].ino].isdir; }
int m_path(int i, char *out) { if (i >= NDENT) return -1; if (!dent_[i].used) return 0; strcpy(out, dent_[i].path); return 1; }
int m_posix_fadvise(int f, off_t o, off_t n, int a) { (void)o; (void)n; (void)a; return okfd(f) ? 0 : EBADF; }
int m_posix_madvise(void *p, size_t n, int a) { (void)p; (void)n; (void)a; return 0; }
int m_madvise(void *p, size_t n, int a) { (void)p; (void)n; (void)a; return 0; }
int m_getpid(void) { return 100 + mypid(); }
unsigned m_getuid(void) { return 1000; }
unsigned m_geteuid(void) { return 1000; }
long m_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : -1; }
int m_getpagesize(void) { return 4096; }
long m_time(long *t) { if (t) *t = 1600000000; return 1600000000; }
int m_clock_gettime(int c, struct timespec *t) { (void)c; t->tv_sec = 1600000000; t->tv_nsec = 7; return 0; }
ssize_t m_getrandom(void *p, size_t n, unsigned fl) { (void)fl; memset(p, 0x5a, n); return n; }
int m_getentropy(void *p, size_t n) { memset(p, 0x5a, n); return 0; }
int m_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = 1600000000; tv->tv_usec = 7; return 0; }
void m_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  unsigned char *b = base, t; size_t i, j, k;
  for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
    for (k = 0; k < sz; k++) { t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
int m_fflush(void *f) { (void)f; return 0; }

/* ---- threads: the schedule is symbolic */
struct m_lock { int magic, wr, rd, id; unsigned char rdby[NTH]; };
#define MAGIC 0x10cc10cc
static int nth_ = 1, done_[NTH], lockids_ = 1, wkind_[NTH], held_[NTH]; static struct m_lock *wait_[NTH];
static struct { void (*fn)(void *); void *arg; } th_[NTH]; static struct m_lock join_;
static int can(struct m_lock *l, int kind) { return kind ? (!l->wr && !l->rd) : !l->wr; }
static int runnable(int t) { return !done_[t] && (!wait_[t] || can(wait_[t], wkind_[t])); }
static void pick(int self_ok) {
  int t, n = 0, me = sx_self(), list[NTH], c;
  if (self_ok) list[n++] = me;
  for (t = 0; t < nth_; t++) if (t != me && runnable(t)) list[n++] = t;
  if (n == 0) { sx_fail("deadlock: no thread can make progress"); return; }
  c = n == 1 ? 0 : (int)sx_range(0, n - 1, "schedule");
  if (list[c] != me) { if (self_ok) m_k.preempt--; sx_switch(list[c]); }
}
void m_yield(void) { if (nth_ > 1 && m_k.preempt > 0 && !done_[sx_self()]) pick(1); }
static void lk(struct m_lock *l, int kind) {
  int me = sx_self();
  m_yield();
  if (l->magic != MAGIC) { sx_fail("locking an uninitialised or destroyed lock"); return; }
  while (!can(l, kind)) { wait_[me] = l; wkind_[me] = kind; pick(0); }
  wait_[me] = NULL; held_[me]++;
  if (kind) { l->wr = me + 1; sx_acquire(l->id); sx_acquire(l->id + 1); } else { l->rd++; l->rdby[me]++; sx_acquire(l->id); }
}
static int unlk(struct m_lock *l) {
  int me = sx_self();
  if (l->magic != MAGIC) { sx_fail("unlocking an uninitialised or destroyed lock"); return EINVAL; }
  if (l->wr == me + 1) { l->wr = 0; sx_release(l->id); sx_release(l->id + 1); }
  else if (l->rdby[me] > 0) { l->rdby[me]--; l->rd--; sx_release(l->id + 1); }
  else { sx_fail("unlocking a lock that is not held"); return EPERM; }
  held_[me]--;
  return 0;
}
static int lkinit(struct m_lock *l) { memset(l, 0, sizeof *l); l->magic = MAGIC; l->id = lockids_; lockids_ += 2; return 0; }
static int lkdestroy(struct m_lock *l) { if (l->magic != MAGIC) sx_fail("destroying a lock twice"); if (l->wr || l->rd) sx_fail("destroying a lock that is held"); l->magic = 0; return 0; }
int m_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; return lkinit((struct m_lock *)m); }
int m_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { (void)a; return lkinit((struct m_lock *)m); }
int m_pthread_mutex_destroy(pthread_mutex_t *m) { return lkdestroy((struct m_lock *)m); }
int m_pthread_rwlock_destroy(pthread_rwlock_t *m) { return lkdestroy((struct m_lock *)m); }
int m_pthread_mutex_lock(pthread_mutex_t *m) { lk((struct m_lock *)m, 1); return 0; }
int m_pthread_mutex_unlock(pthread_mutex_t *m) { return unlk((struct m_lock *)m); }
int m_pthread_rwlock_wrlock(pthread_rwlock_t *m) { lk((struct m_lock *)m, 1); return 0; }
int m_pthread_rwlock_rdlock(pthread_rwlock_t *m) { lk((struct m_lock *)m, 0); return 0; }
int m_pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlk((struct m_lock *)m); }
int m_pthread_mutex_trylock(pthread_mutex_t *m) { struct m_lock *l = (struct m_lock *)m; m_yield(); if (!can(l, 1)) return EBUSY; lk(l, 1); return 0; }
int m_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { struct m_lock *l = (struct m_lock *)m; m_yield(); if (!can(l, 0)) return EBUSY; lk(l, 0); return 0; }
int m_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { struct m_lock *l = (struct m_lock *)m; m_yield(); if (!can(l, 1)) return EBUSY; lk(l, 1); return 0; }
void m_kill_process(int pid) {
  int i; for (i = 0; i < NTH; i++) if (m_k.pid[i] == pid) held_[i] = 0;
  for (i = 0; i < NFD; i++) if (fd_[i].used && fd_[i].pid == pid) close_fd(i);
  for (i = 0; i < NMAP; i++) if (map_[i].used && map_[i].pid == pid) { map_[i].used = 0; sx_obj_free(map_[i].base); }
}
int m_held_locks(void) { return held_[sx_self()]; }
static void th_main(void *a) {
  int me = sx_self(), t, n, c, list[NTH]; (void)a;
  th_[me].fn(th_[me].arg);
  if (held_[me]) sx_fail("a thread finished while holding a lock");
  done_[me] = 1; sx_release(1000 + me);
  for (n = 0, t = 1; t < nth_; t++) n += !done_[t]; if (n == 0) join_.wr = 0; /* the main thread goes on when all others are done */
  for (n = 0, t = 0; t < nth_; t++) if (runnable(t)) list[n++] = t;
  if (n == 0) sx_fail("deadlock: no thread can make progress");
  c = n <= 1 ? 0 : (int)sx_range(0, n - 1, "schedule");
  sx_switch(list[c]);
  sx_fail("model: a finished thread was resumed");
}
void m_thread(void (*fn)(void *), void *arg, int pid) { int t = nth_; th_[t].fn = fn; th_[t].arg = arg; m_k.pid[t] = pid; if (sx_spawn(th_main, NULL) != t) sx_fail("model: thread numbering"); nth_++; }
void m_run_all(void) {
  int t, left; 
  for (;;) { for (left = 0, t = 1; t < nth_; t++) if (!done_[t]) left++; if (!left) break; 
    /* the main thread only waits: give way to any runnable thread */
    { int n = 0, list[NTH], c; for (t = 1; t < nth_; t++) if (runnable(t)) list[n++] = t; if (!n) { sx_fail("deadlock: no thread can make progress"); return; } c = n == 1 ? 0 : (int)sx_range(0, n - 1, "schedule"); join_.wr = 99; wait_[0] = &join_; wkind_[0] = 1; 
      /* main becomes runnable only when all others are done */
      sx_switch(list[c]); } }
  join_.wr = 0; wait_[0] = NULL;
  for (t = 1; t < nth_; t++) sx_acquire(1000 + t);
  nth_ = 1; for (t = 0; t < NTH; t++) { done_[t] = 0; held_[t] = t ? 0 : held_[0]; }
}
void uuid_generate(unsigned char *out) { memset(out, 0x5b, 16); }
