// Simulated disk: an LD_PRELOAD seam between CPython and libc.
//
// Inactive until fsi_begin().  Then every file operation on a path below the scratch root is
// numbered, logged with its data, and possibly replaced by a fault from the plan: an error, a short
// transfer, an interruption, or a signal delivered at that instant.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_TRUNC, OP_FSYNC, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_LINK, OP_SYMLINK, OP_MKDIR, OP_RMDIR, OP_CHMOD, OP_LSEEK, OP_OTHER };
enum { F_ERR = 1, F_SHORT = 2, F_EINTR = 3, F_SIGINT = 4 };

typedef struct {
  int op, err, fault, flags;
  long fd, ino, ino2, off, len, res;
  char *p1, *p2;
  unsigned char *data;
} Rec;

static int on = 0;
static char root[PATH_MAX];
static size_t rootlen;
static Rec *recs = NULL;
static long nrec = 0, caprec = 0;
static struct { long at; int kind; long arg; int sticky; int mask; } plan[64];
static int nplan = 0;
static long seq = 0;
static unsigned char mine[4096];
static long long fired[8];

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__) = NULL; if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)
#define EXPORT __attribute__((visibility("default")))

static void abspath(int dirfd, const char *p, char *out) {
  out[0] = 0;
  if (!p) return;
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return; }
  char base[PATH_MAX - 2];
  if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return; }
  else {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(l, base, sizeof base - 1);
    if (n < 0) return;
    base[n] = 0;
  }
  snprintf(out, PATH_MAX, "%s/%s", base, p);
}
static int under(const char *a) { return strncmp(a, root, rootlen) == 0 && (a[rootlen] == '/' || a[rootlen] == 0); }
static long inode_of_fd(int fd) { struct stat st; return fstat(fd, &st) ? -1 : (long)st.st_ino; }
static long inode_of(const char *p) { struct stat st; return lstat(p, &st) ? -1 : (long)st.st_ino; }

static Rec *add(int op) {
  if (nrec == caprec) { caprec = caprec ? caprec * 2 : 256; recs = realloc(recs, caprec * sizeof(Rec)); }
  Rec *r = &recs[nrec++];
  memset(r, 0, sizeof *r);
  r->op = op; r->fd = -1; r->ino = -1; r->ino2 = -1; r->off = -1;
  return r;
}
// which fault, if any, hits this operation
static int fault(int op, long *arg) {
  long me = seq++;
  for (int i = 0; i < nplan; i++) {
    int hit = plan[i].sticky ? me >= plan[i].at && (plan[i].mask >> op & 1) : me == plan[i].at;
    if (!hit) continue;
    int k = plan[i].kind;
    if ((k == F_SHORT) && op != OP_READ && op != OP_WRITE) continue;
    if (k == F_EINTR && (op != OP_READ && op != OP_WRITE && op != OP_OPEN && op != OP_FSYNC)) continue;
    if (k == F_ERR && op == OP_LSEEK) continue;
    *arg = plan[i].arg;
    fired[k]++;
    return k;
  }
  return 0;
}

EXPORT void fsi_begin(const char *r) {
  snprintf(root, sizeof root, "%s", r);
  rootlen = strlen(root);
  for (long i = 0; i < nrec; i++) { free(recs[i].p1); free(recs[i].p2); free(recs[i].data); }
  nrec = 0; seq = 0; nplan = 0;
  memset(mine, 0, sizeof mine);
  memset(fired, 0, sizeof fired);
  on = 1;
}
EXPORT void fsi_end(void) { on = 0; }
EXPORT void fsi_plan(long at, int kind, long arg, int sticky, int mask) {
  if (nplan < 64) { plan[nplan].at = at; plan[nplan].kind = kind; plan[nplan].arg = arg; plan[nplan].sticky = sticky; plan[nplan].mask = mask; nplan++; }
}
EXPORT long fsi_count(void) { return nrec; }
EXPORT const Rec *fsi_rec(long i) { return &recs[i]; }
EXPORT long long fsi_fired(int k) { return fired[k]; }

#define TRACK(fd) (on && (fd) >= 0 && (fd) < 4096 && mine[fd])
#define FINISH(rec, rc) do { int e_ = errno; (rec)->res = (rc); (rec)->err = (rc) < 0 ? e_ : 0; errno = e_; } while (0)
#define AFTER(k) do { if ((k) == F_SIGINT) { int e_ = errno; on = 0; raise(SIGINT); on = 1; errno = e_; } } while (0)
#define FAIL(rec, k, arg) do { if ((k) == F_ERR || (k) == F_EINTR) { (rec)->fault = (k); (rec)->res = -1; \
   (rec)->err = (k) == F_EINTR ? EINTR : (int)(arg); errno = (rec)->err; return -1; } } while (0)

static int do_open(int (*real)(int, const char *, int, ...), int dirfd, const char *p, int flags, mode_t mode) {
  char a[PATH_MAX];
  abspath(dirfd, p, a);
  if (!under(a)) return real(dirfd, p, flags, mode);
  long arg = 0;
  int k = fault(OP_OPEN, &arg);
  int existed = inode_of(a) >= 0;
  Rec *r = add(OP_OPEN);
  long me = nrec - 1;
  r->p1 = strdup(a); r->flags = flags; r->len = existed;
  FAIL(r, k, arg);
  int fd = real(dirfd, p, flags, mode);
  r = &recs[me];
  FINISH(r, fd);
  if (fd >= 0) { r->ino = inode_of_fd(fd); r->fd = fd; if (fd < 4096) mine[fd] = 1; }
  r->fault = k;
  AFTER(k);
  return fd;
}
EXPORT int openat(int dirfd, const char *p, int flags, ...) {
  REAL(int, openat, int, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list l; va_start(l, flags); m = va_arg(l, mode_t); va_end(l); }
  if (!on) return r_openat(dirfd, p, flags, m);
  return do_open(r_openat, dirfd, p, flags, m);
}
EXPORT int open(const char *p, int flags, ...) {
  REAL(int, openat, int, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list l; va_start(l, flags); m = va_arg(l, mode_t); va_end(l); }
  if (!on) return r_openat(AT_FDCWD, p, flags, m);
  return do_open(r_openat, AT_FDCWD, p, flags, m);
}
EXPORT int open64(const char *p, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list l; va_start(l, flags); m = va_arg(l, mode_t); va_end(l); }
  return open(p, flags, m);
}
EXPORT int openat64(int d, const char *p, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list l; va_start(l, flags); m = va_arg(l, mode_t); va_end(l); }
  return openat(d, p, flags, m);
}
EXPORT int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_rw(int op, int fd, void *buf, size_t n, off_t off, int positional) {
  REAL(ssize_t, pread64, int, void *, size_t, off_t);
  REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
  REAL(ssize_t, read, int, void *, size_t);
  REAL(ssize_t, write, int, const void *, size_t);
  long arg = 0;
  int k = fault(op, &arg);
  Rec *r = add(op);
  r->fd = fd; r->ino = inode_of_fd(fd); r->len = n;
  FAIL(r, k, arg);
  if (k == F_SHORT && n > 1) { size_t m = arg < 1 ? 1 : (size_t)arg; if (m < n) { n = m; r->fault = k; } }
  int fl = fcntl(fd, F_GETFL);
  if (!positional) off = (op == OP_WRITE && (fl & O_APPEND)) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
  r = &recs[nrec - 1];
  r->off = off;
  ssize_t rc = op == OP_READ ? (positional ? r_pread64(fd, buf, n, off) : r_read(fd, buf, n))
                             : (positional ? r_pwrite64(fd, buf, n, off) : r_write(fd, buf, n));
  FINISH(r, rc);
  if (op == OP_WRITE && rc > 0) { r->data = malloc(rc); memcpy(r->data, buf, rc); }
  if (k == F_SIGINT) r->fault = k;
  AFTER(k);
  return rc;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); return TRACK(fd) ? do_rw(OP_READ, fd, b, n, 0, 0) : r_read(fd, b, n); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return TRACK(fd) ? do_rw(OP_WRITE, fd, (void *)b, n, 0, 0) : r_write(fd, b, n); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread64, int, void *, size_t, off_t); return TRACK(fd) ? do_rw(OP_READ, fd, b, n, o, 1) : r_pread64(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off_t); return TRACK(fd) ? do_rw(OP_WRITE, fd, (void *)b, n, o, 1) : r_pwrite64(fd, b, n, o); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static ssize_t do_v(int op, int fd, const struct iovec *v, int c, off_t o, int pos) {
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t k = do_rw(op, fd, v[i].iov_base, v[i].iov_len, o + t, pos);
    if (k < 0) return t ? t : -1;
    t += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return t;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) { REAL(ssize_t, readv, int, const struct iovec *, int); return TRACK(fd) ? do_v(OP_READ, fd, v, c, 0, 0) : r_readv(fd, v, c); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int); return TRACK(fd) ? do_v(OP_WRITE, fd, v, c, 0, 0) : r_writev(fd, v, c); }
// the copying system calls are refused, so that callers fall back to read and write
EXPORT ssize_t sendfile64(int o, int i, off_t *off, size_t n) { REAL(ssize_t, sendfile64, int, int, off_t *, size_t); if (TRACK(o)) { errno = EINVAL; return -1; } return r_sendfile64(o, i, off, n); }
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
EXPORT ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
  if (TRACK(o)) { errno = EOPNOTSUPP; return -1; }
  return r_copy_file_range(i, io, o, oo, n, f);
}
EXPORT int ftruncate64(int fd, off_t n) {
  REAL(int, ftruncate64, int, off_t);
  if (!TRACK(fd)) return r_ftruncate64(fd, n);
  long arg = 0; int k = fault(OP_TRUNC, &arg); Rec *r = add(OP_TRUNC); r->fd = fd; r->ino = inode_of_fd(fd); r->len = n;
  FAIL(r, k, arg);
  int rc = r_ftruncate64(fd, n); r->fault = k; FINISH(r, rc); AFTER(k); return rc;
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int truncate64(const char *p, off_t n) {
  REAL(int, truncate64, const char *, off_t);
  char a[PATH_MAX];
  if (!on) return r_truncate64(p, n);
  abspath(AT_FDCWD, p, a);
  if (!under(a)) return r_truncate64(p, n);
  long arg = 0; int k = fault(OP_TRUNC, &arg); Rec *r = add(OP_TRUNC); struct stat st; r->p1 = strdup(a); r->ino = stat(a, &st) ? -1 : (long)st.st_ino; r->len = n;
  FAIL(r, k, arg);
  int rc = r_truncate64(p, n); r->fault = k; FINISH(r, rc); AFTER(k); return rc;
}
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
static int do_sync(int (*real)(int), int fd) {
  long arg = 0; int k = fault(OP_FSYNC, &arg); Rec *r = add(OP_FSYNC); r->fd = fd; r->ino = inode_of_fd(fd);
  FAIL(r, k, arg);
  (void)real;   // nothing to flush for real: the simulated disk decides what survives
  r->fault = k; r->res = 0; AFTER(k); return 0;
}
EXPORT int fsync(int fd) { REAL(int, fsync, int); return TRACK(fd) ? do_sync(r_fsync, fd) : r_fsync(fd); }
EXPORT int fdatasync(int fd) { REAL(int, fdatasync, int); return TRACK(fd) ? do_sync(r_fdatasync, fd) : r_fdatasync(fd); }
EXPORT int close(int fd) {
  REAL(int, close, int);
  if (!TRACK(fd)) return r_close(fd);
  long arg = 0; int k = fault(OP_CLOSE, &arg); Rec *r = add(OP_CLOSE); r->fd = fd; r->ino = inode_of_fd(fd);
  mine[fd] = 0;
  int rc = r_close(fd);      // the descriptor is gone even when close reports an error
  if (k == F_ERR) { r->fault = k; r->res = -1; r->err = arg; errno = arg; return -1; }
  r->fault = k; FINISH(r, rc); AFTER(k); return rc;
}
static int two(int op, int (*f)(void *), void *ctx, const char *a, const char *b) {
  long arg = 0; int k = fault(op, &arg); Rec *r = add(op); long me = nrec - 1;
  r->p1 = strdup(a); r->p2 = strdup(b); r->ino = inode_of(a); r->ino2 = inode_of(b);
  FAIL(r, k, arg);
  int rc = f(ctx); r = &recs[me]; r->fault = k; FINISH(r, rc); AFTER(k); return rc;
}
struct ren { int d1; const char *p1; int d2; const char *p2; unsigned fl; };
static int f_ren(void *c) { struct ren *x = c; REAL(int, renameat2, int, const char *, int, const char *, unsigned); return r_renameat2(x->d1, x->p1, x->d2, x->p2, x->fl); }
EXPORT int renameat2(int d1, const char *p1, int d2, const char *p2, unsigned fl) {
  struct ren x = {d1, p1, d2, p2, fl};
  if (!on) return f_ren(&x);
  char a[PATH_MAX], b[PATH_MAX];
  abspath(d1, p1, a); abspath(d2, p2, b);
  if (!under(a) && !under(b)) return f_ren(&x);
  return two(OP_RENAME, f_ren, &x, a, b);
}
EXPORT int renameat(int d1, const char *p1, int d2, const char *p2) { return renameat2(d1, p1, d2, p2, 0); }
EXPORT int rename(const char *p1, const char *p2) { return renameat2(AT_FDCWD, p1, AT_FDCWD, p2, 0); }
struct lnk { int d1; const char *p1; int d2; const char *p2; int fl; };
static int f_lnk(void *c) { struct lnk *x = c; REAL(int, linkat, int, const char *, int, const char *, int); return r_linkat(x->d1, x->p1, x->d2, x->p2, x->fl); }
EXPORT int linkat(int d1, const char *p1, int d2, const char *p2, int fl) {
  struct lnk x = {d1, p1, d2, p2, fl};
  if (!on) return f_lnk(&x);
  char a[PATH_MAX], b[PATH_MAX];
  abspath(d1, p1, a); abspath(d2, p2, b);
  if (!under(a) && !under(b)) return f_lnk(&x);
  return two(OP_LINK, f_lnk, &x, a, b);
}
EXPORT int link(const char *p1, const char *p2) { return linkat(AT_FDCWD, p1, AT_FDCWD, p2, 0); }
static int f_sym(void *c) { struct lnk *x = c; REAL(int, symlinkat, const char *, int, const char *); return r_symlinkat(x->p1, x->d2, x->p2); }
EXPORT int symlinkat(const char *p1, int d, const char *p2) {
  struct lnk x = {0, p1, d, p2, 0};
  if (!on) return f_sym(&x);
  char b[PATH_MAX];
  abspath(d, p2, b);
  if (!under(b)) return f_sym(&x);
  return two(OP_SYMLINK, f_sym, &x, p1, b);
}
EXPORT int symlink(const char *p1, const char *p2) { return symlinkat(p1, AT_FDCWD, p2); }
struct one { int d; const char *p; int fl; mode_t m; };
static int f_unl(void *c) { struct one *x = c; REAL(int, unlinkat, int, const char *, int); return r_unlinkat(x->d, x->p, x->fl); }
EXPORT int unlinkat(int d, const char *p, int fl) {
  struct one x = {d, p, fl, 0};
  if (!on) return f_unl(&x);
  char a[PATH_MAX];
  abspath(d, p, a);
  if (!under(a)) return f_unl(&x);
  return two(fl & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, f_unl, &x, a, "");
}
EXPORT int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
EXPORT int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int remove(const char *p) { struct stat st; return unlinkat(AT_FDCWD, p, !lstat(p, &st) && S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0); }
static int f_mkd(void *c) { struct one *x = c; REAL(int, mkdirat, int, const char *, mode_t); return r_mkdirat(x->d, x->p, x->m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) {
  struct one x = {d, p, 0, m};
  if (!on) return f_mkd(&x);
  char a[PATH_MAX];
  abspath(d, p, a);
  if (!under(a)) return f_mkd(&x);
  return two(OP_MKDIR, f_mkd, &x, a, "");
}
EXPORT int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
static int f_chm(void *c) { struct one *x = c; REAL(int, fchmodat, int, const char *, mode_t, int); return r_fchmodat(x->d, x->p, x->m, x->fl); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) {
  struct one x = {d, p, fl, m};
  if (!on) return f_chm(&x);
  char a[PATH_MAX];
  abspath(d, p, a);
  if (!under(a)) return f_chm(&x);
  return two(OP_CHMOD, f_chm, &x, a, "");
}
EXPORT int chmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
EXPORT int fchmod(int fd, mode_t m) {
  REAL(int, fchmod, int, mode_t);
  if (!TRACK(fd)) return r_fchmod(fd, m);
  long arg = 0; int k = fault(OP_CHMOD, &arg); Rec *r = add(OP_CHMOD); r->fd = fd; r->ino = inode_of_fd(fd);
  FAIL(r, k, arg);
  int rc = r_fchmod(fd, m); r->fault = k; FINISH(r, rc); AFTER(k); return rc;
}
static void track_dup(int a, int b) { if (on && a >= 0 && a < 4096 && b >= 0 && b < 4096) mine[b] = mine[a]; }
EXPORT int dup(int a) { REAL(int, dup, int); int b = r_dup(a); track_dup(a, b); return b; }
EXPORT int dup2(int a, int b) { REAL(int, dup2, int, int); int c = r_dup2(a, b); track_dup(a, c); return c; }
EXPORT int dup3(int a, int b, int f) { REAL(int, dup3, int, int, int); int c = r_dup3(a, b, f); track_dup(a, c); return c; }
// stdio would bypass the seam: hand out a stream over our own descriptor, unbuffered through cookies
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t k = write((int)(long)c, b, n); return k < 0 ? 0 : k; }
static int ck_seek(void *c, off64_t *o, int w) { off_t k = lseek((int)(long)c, *o, w); if (k < 0) return -1; *o = k; return 0; }
static int ck_close(void *c) { return close((int)(long)c); }
EXPORT FILE *fdopen(int fd, const char *m) {
  REAL(FILE *, fdopen, int, const char *);
  if (!TRACK(fd)) return r_fdopen(fd, m);
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie((void *)(long)fd, m, f);
}
EXPORT FILE *fopen(const char *p, const char *m) {
  REAL(FILE *, fopen, const char *, const char *);
  if (!on) return r_fopen(p, m);
  char a[PATH_MAX];
  abspath(AT_FDCWD, p, a);
  if (!under(a)) return r_fopen(p, m);
  int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
  int fd = open(p, fl, 0666);
  return fd < 0 ? NULL : fdopen(fd, m);
}
EXPORT FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
