/* Deterministic-simulation seam: LD_PRELOAD interposer.
 *
 * While a process is "active" (it called sim_activate), every file-system
 * call it makes on a path below the simulated world's root is announced to
 * the simulator over a SOCK_SEQPACKET socket, and the process stays parked
 * until the simulator answers what must happen: go on, fail with an errno,
 * transfer fewer bytes, die before/after the call, or tear the write and die.
 * Clocks, sleeps, pids, random bytes and directory order come from the
 * simulator too.  Inactive processes see plain libc.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <pthread.h>
#include <time.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXFD 4096
#define PMAX 1024

enum { A_GO = 0, A_FAIL = 1, A_SHORT = 2, A_CRASH_BEFORE = 3, A_CRASH_AFTER = 4, A_TORN = 5 };

struct reply { int32_t action; int32_t err; int64_t n; int64_t vnow; uint64_t seed; };

static int active = 0;
static int sock = -1;
static char root[PMAX];
static size_t rootlen = 0;
static pid_t main_tid = 0;
static int vpid = 0;
static int64_t vnow = 1600000000LL * 1000000000LL;
static int64_t vmono = 1000LL * 1000000000LL;
static uint64_t rng = 88172645463325252ULL;
static long nops = 0;

static char *fdpath[MAXFD];     /* tracked descriptors */
static int64_t fdbudget[MAXFD]; /* bytes readable before EIO; -1 = unlimited */
static int fdw[MAXFD];

#define MAXFILES 512
static struct { FILE *f; int fd; } files[MAXFILES];

#define MAXDIRS 64
static struct { DIR *d; struct dirent64 **e; int n, i; } dirs[MAXDIRS];

#define REAL(name) ((__typeof__(&name))real_sym(#name))
static void *real_sym(const char *n) {
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) { static const char m[] = "shim: missing symbol\n"; syscall(SYS_write, 2, m, sizeof m - 1); abort(); }
    return p;
}
#define DEFREAL(ret, name, ...) \
    static ret (*r_##name)(__VA_ARGS__); \
    static inline ret (*get_##name(void))(__VA_ARGS__) { if (!r_##name) r_##name = (ret (*)(__VA_ARGS__))real_sym(#name); return r_##name; }

DEFREAL(int, open, const char *, int, ...)
DEFREAL(int, openat, int, const char *, int, ...)
DEFREAL(FILE *, fopen, const char *, const char *)
DEFREAL(FILE *, fdopen, int, const char *)
DEFREAL(int, fclose, FILE *)
DEFREAL(size_t, fread, void *, size_t, size_t, FILE *)
DEFREAL(ssize_t, read, int, void *, size_t)
DEFREAL(ssize_t, pread, int, void *, size_t, off_t)
DEFREAL(ssize_t, write, int, const void *, size_t)
DEFREAL(ssize_t, pwrite, int, const void *, size_t, off_t)
DEFREAL(int, close, int)
DEFREAL(int, ftruncate, int, off_t)
DEFREAL(int, truncate, const char *, off_t)
DEFREAL(int, fsync, int)
DEFREAL(int, fdatasync, int)
DEFREAL(int, rename, const char *, const char *)
DEFREAL(int, renameat, int, const char *, int, const char *)
DEFREAL(int, unlink, const char *)
DEFREAL(int, unlinkat, int, const char *, int)
DEFREAL(int, remove, const char *)
DEFREAL(int, rmdir, const char *)
DEFREAL(int, mkdir, const char *, mode_t)
DEFREAL(int, link, const char *, const char *)
DEFREAL(int, linkat, int, const char *, int, const char *, int)
DEFREAL(int, symlink, const char *, const char *)
DEFREAL(int, stat, const char *, struct stat *)
DEFREAL(int, lstat, const char *, struct stat *)
DEFREAL(int, fstatat, int, const char *, struct stat *, int)
DEFREAL(int, __xstat, int, const char *, struct stat *)
DEFREAL(int, access, const char *, int)
DEFREAL(DIR *, opendir, const char *)
DEFREAL(struct dirent64 *, readdir64, DIR *)
DEFREAL(int, closedir, DIR *)
DEFREAL(int, flock, int, int)
DEFREAL(int, chmod, const char *, mode_t)
DEFREAL(int, fchmod, int, mode_t)
DEFREAL(int, utimensat, int, const char *, const struct timespec *, int)
DEFREAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
DEFREAL(int, clock_gettime, clockid_t, struct timespec *)
DEFREAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
DEFREAL(int, fcntl, int, int, ...)
DEFREAL(int, dup, int)

static inline int on(void) {
    return active && (pid_t)syscall(SYS_gettid) == main_tid;
}

static void die(void) { syscall(SYS_exit_group, 137); __builtin_unreachable(); }

/* Absolute, lexically normalised path; NULL when the path is not in the world. */
static int norm(const char *p, char *out) {
    char tmp[2 * PMAX];
    if (!p || !*p) return 0;
    if (p[0] == '/') { if (strlen(p) >= PMAX) return 0; strcpy(tmp, p); }
    else {
        if (syscall(SYS_getcwd, tmp, PMAX) < 0) return 0;
        if (strlen(tmp) + strlen(p) + 2 >= 2 * PMAX) return 0;
        strcat(tmp, "/"); strcat(tmp, p);
    }
    char *o = out; const char *s = tmp;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        const char *e = s; while (*e && *e != '/') e++;
        size_t l = e - s;
        if (l == 1 && s[0] == '.') {}
        else if (l == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/') {} }
        else { if ((o - out) + l + 2 >= PMAX) return 0; *o++ = '/'; memcpy(o, s, l); o += l; }
        s = e;
    }
    if (o == out) *o++ = '/';
    *o = 0;
    return 1;
}

static int tracked(const char *p, char *out) {
    if (!norm(p, out)) return 0;
    return strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
}

static int trackedat(int dfd, const char *p, char *out) {
    if (p && p[0] != '/' && dfd != AT_FDCWD) {
        if (dfd >= 0 && dfd < MAXFD && fdpath[dfd]) {
            char t[2 * PMAX];
            snprintf(t, sizeof t, "%s/%s", fdpath[dfd], p);
            return tracked(t, out);
        }
        return 0;
    }
    return tracked(p, out);
}

static void ask(const char *op, const char *path, int64_t arg, const char *path2, struct reply *rp) {
    char buf[3 * PMAX];
    int n = snprintf(buf, sizeof buf, "%s\t%s\t%lld\t%s", op, path ? path + rootlen : "", (long long)arg,
                     path2 ? (strncmp(path2, root, rootlen) == 0 ? path2 + rootlen : path2) : "");
    nops++;
    if (send(sock, buf, n, MSG_NOSIGNAL) != n) die();
    ssize_t k;
    do { k = recv(sock, rp, sizeof *rp, 0); } while (k < 0 && errno == EINTR);
    if (k != sizeof *rp) die();
    vnow = rp->vnow;
    if (rp->action == A_CRASH_BEFORE) die();
}

/* A mutating call that leaves the world: reported, never performed. */
static int outside_block(const char *op, const char *p) {
    char np[PMAX];
    if (!norm(p, np)) return 0;
    if (strncmp(np, "/dev/", 5) == 0 || strncmp(np, "/proc/", 6) == 0) return 0;
    const char *allow = getenv("SIM_ALLOW");
    if (allow && *allow && strncmp(np, allow, strlen(allow)) == 0) return 0;
    char buf[2 * PMAX];
    struct reply r;
    int n = snprintf(buf, sizeof buf, "OUTSIDE:%s\t%s\t0\t", op, np);
    if (send(sock, buf, n, MSG_NOSIGNAL) != n) die();
    if (recv(sock, &r, sizeof r, 0) != sizeof r) die();
    if (r.action == A_CRASH_BEFORE) die();
    errno = EACCES;
    return 1;
}

#define SIMPLE(opname, path, arg, path2, call) do { \
        struct reply _r; ask(opname, path, arg, path2, &_r); \
        if (_r.action == A_FAIL) { errno = _r.err; return -1; } \
        int _rc = (call); int _e = errno; \
        if (_r.action == A_CRASH_AFTER || _r.action == A_TORN) die(); \
        errno = _e; return _rc; } while (0)

EXPORT void sim_activate(int s, const char *r, int pid, uint64_t seed, int64_t now) {
    sock = s; strncpy(root, r, PMAX - 1); rootlen = strlen(root);
    main_tid = (pid_t)syscall(SYS_gettid); vpid = pid; rng = seed ? seed : 1; vnow = now;
    for (int i = 0; i < MAXFD; i++) fdbudget[i] = -1;
    active = 1;
}
EXPORT void sim_deactivate(void) { active = 0; }
EXPORT long sim_nops(void) { return nops; }
EXPORT int sim_open_count(void) { int c = 0; for (int i = 0; i < MAXFD; i++) if (fdpath[i]) c++; return c; }
EXPORT const char *sim_open_path(int k) { for (int i = 0; i < MAXFD; i++) if (fdpath[i]) { if (k-- == 0) return fdpath[i] + rootlen; } return ""; }
EXPORT void sim_mark(const char *what) {
    struct reply r; if (!on()) return;
    char buf[PMAX]; int n = snprintf(buf, sizeof buf, "MARK\t%s\t0\t", what);
    if (send(sock, buf, n, MSG_NOSIGNAL) != n) die();
    if (recv(sock, &r, sizeof r, 0) != sizeof r) die();
    vnow = r.vnow;
    if (r.action == A_CRASH_BEFORE) die();
}

static uint64_t nextrnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

/* ---------------------------------------------------------------- open */
static void track_fd(int fd, const char *np, int flags, struct reply *r) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = strdup(np);
    fdbudget[fd] = r->action == A_SHORT ? r->n : -1;
    fdw[fd] = (flags & O_ACCMODE) != O_RDONLY;
}

static int do_open(int dfd, const char *path, int flags, mode_t mode, int useat) {
    char np[PMAX];
    if (on()) {
        int t = useat ? trackedat(dfd, path, np) : tracked(path, np);
        if (t) {
            struct reply r;
            ask((flags & O_ACCMODE) == O_RDONLY ? "open_r" : (flags & O_EXCL) ? "open_x" : (flags & O_TRUNC) ? "open_w" : (flags & O_CREAT) ? "open_c" : "open_rw",
                np, flags, NULL, &r);
            if (r.action == A_FAIL) { errno = r.err; return -1; }
            int fd = useat ? get_openat()(dfd, path, flags, mode) : get_open()(path, flags, mode);
            int e = errno;
            if (r.action == A_CRASH_AFTER || r.action == A_TORN) die();
            if (fd >= 0) track_fd(fd, np, flags, &r);
            errno = e;
            return fd;
        }
        if (((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) && !(flags & O_DIRECTORY) && (!useat || dfd == AT_FDCWD || path[0] == '/') && outside_block("open", path)) return -1;
    }
    return useat ? get_openat()(dfd, path, flags, mode) : get_open()(path, flags, mode);
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode, 0); }
EXPORT int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode, 0); }
EXPORT int openat(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags, mode, 1); }
EXPORT int openat64(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags | O_LARGEFILE, mode, 1); }
EXPORT int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }

/* ---------------------------------------------------------------- data */
static ssize_t do_write(int fd, const void *b, size_t n, int positioned, off_t off) {
    struct reply r;
    ask("write", fdpath[fd], (int64_t)n, NULL, &r);
    if (r.action == A_FAIL) { errno = r.err; return -1; }
    size_t m = n;
    if ((r.action == A_SHORT || r.action == A_TORN) && r.n >= 0 && (size_t)r.n < n) m = (size_t)r.n;
    ssize_t k = 0;
    if (m > 0 || n == 0) k = positioned ? get_pwrite()(fd, b, m, off) : get_write()(fd, b, m);
    int e = errno;
    if (r.action == A_CRASH_AFTER || r.action == A_TORN) die();
    if (m == 0 && n > 0) { errno = ENOSPC; return -1; }
    errno = e;
    return k;
}
#define TRK(fd) ((fd) >= 0 && (fd) < MAXFD && fdpath[fd])
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (on() && TRK(fd)) return do_write(fd, b, n, 0, 0); return get_write()(fd, b, n); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (on() && TRK(fd)) return do_write(fd, b, n, 1, o); return get_pwrite()(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }

static ssize_t budgeted(int fd, size_t *n) {
    if (fdbudget[fd] < 0) return 0;
    if (fdbudget[fd] == 0) { errno = EIO; return -1; }
    if ((int64_t)*n > fdbudget[fd]) *n = fdbudget[fd];
    return 0;
}
static void spend(int fd, ssize_t k) { if (fdbudget[fd] >= 0 && k > 0) fdbudget[fd] -= k; }
EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (on() && TRK(fd)) {
        struct reply r; ask("read", fdpath[fd], (int64_t)n, NULL, &r);
        if (r.action == A_FAIL) { errno = r.err; return -1; }
        if (r.action == A_SHORT && r.n > 0 && (size_t)r.n < n) n = r.n;
        if (budgeted(fd, &n) < 0) return -1;
        ssize_t k = get_read()(fd, b, n); spend(fd, k); return k;
    }
    return get_read()(fd, b, n);
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) {
    if (on() && TRK(fd)) { if (budgeted(fd, &n) < 0) return -1; ssize_t k = get_pread()(fd, b, n, o); spend(fd, k); return k; }
    return get_pread()(fd, b, n, o);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
EXPORT ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    if (on() && TRK(out)) {
        struct reply r; struct stat st;
        off64_t pos = off ? *off : lseek(in, 0, SEEK_CUR);
        size_t left = (fstat(in, &st) == 0 && st.st_size > pos) ? (size_t)(st.st_size - pos) : 0;
        if (left < n) n = left;
        ask("write", fdpath[out], (int64_t)n, NULL, &r);
        if (r.action == A_FAIL) { errno = r.err; return -1; }
        if ((r.action == A_SHORT || r.action == A_TORN) && r.n >= 0 && (size_t)r.n < n) { n = r.n; if (n == 0 && r.action == A_SHORT) { errno = ENOSPC; return -1; } }
        ssize_t k = n ? get_sendfile64()(out, in, off, n) : 0; int e = errno;
        if (r.action == A_CRASH_AFTER || r.action == A_TORN) die();
        errno = e; return k;
    }
    return get_sendfile64()(out, in, off, n);
}
EXPORT ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
EXPORT ssize_t copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned fl) {
    if (on() && (TRK(fi) || TRK(fo))) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, fi, oi, fo, oo, n, fl);
}
static void release_locks_note(int fd);
EXPORT int close(int fd) {
    if (on() && TRK(fd)) {
        struct reply r; ask("close", fdpath[fd], fdw[fd], NULL, &r);
        free(fdpath[fd]); fdpath[fd] = NULL; fdbudget[fd] = -1;
        int rc = get_close()(fd), e = errno;
        if (r.action == A_CRASH_AFTER || r.action == A_TORN) die();
        if (r.action == A_FAIL) { errno = r.err; return -1; }
        errno = e; return rc;
    }
    if (active && fd == sock) { errno = EBADF; return -1; }
    if (active && TRK(fd)) { free(fdpath[fd]); fdpath[fd] = NULL; }
    return get_close()(fd);
}
EXPORT int dup(int fd) {
    int n = get_dup()(fd);
    if (n >= 0 && n < MAXFD && on() && TRK(fd)) { fdpath[n] = strdup(fdpath[fd]); fdbudget[n] = fdbudget[fd]; fdw[n] = fdw[fd]; }
    return n;
}
EXPORT int ftruncate(int fd, off_t l) { if (on() && TRK(fd)) SIMPLE("trunc", fdpath[fd], l, NULL, get_ftruncate()(fd, l)); return get_ftruncate()(fd, l); }
EXPORT int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
EXPORT int truncate(const char *p, off_t l) { char np[PMAX]; if (on()) { if (tracked(p, np)) SIMPLE("trunc", np, l, NULL, get_truncate()(p, l)); if (outside_block("trunc", p)) return -1; } return get_truncate()(p, l); }
EXPORT int fsync(int fd) { if (on() && TRK(fd)) { struct reply r; ask("fsync", fdpath[fd], 0, NULL, &r); if (r.action == A_FAIL) { errno = r.err; return -1; } if (r.action == A_CRASH_AFTER || r.action == A_TORN) die(); return 0; } if (active) return 0; return get_fsync()(fd); }
EXPORT int fdatasync(int fd) { if (active) return fsync(fd); return get_fdatasync()(fd); }

/* ---------------------------------------------------------------- stdio */
static int file_fd(FILE *f) { for (int i = 0; i < MAXFILES; i++) if (files[i].f == f) return files[i].fd; return -1; }
static void file_add(FILE *f, int fd) { for (int i = 0; i < MAXFILES; i++) if (!files[i].f) { files[i].f = f; files[i].fd = fd; return; } }
static void file_del(FILE *f) { for (int i = 0; i < MAXFILES; i++) if (files[i].f == f) files[i].f = NULL; }

struct ck { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { int fd = ((struct ck *)c)->fd; if (TRK(fd) && budgeted(fd, &n) < 0) return -1; ssize_t k = get_read()(fd, b, n); if (TRK(fd)) spend(fd, k); return k; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    int fd = ((struct ck *)c)->fd; size_t d = 0;
    while (d < n) {
        ssize_t k = (on() && TRK(fd)) ? do_write(fd, b + d, n - d, 0, 0) : get_write()(fd, b + d, n - d);
        if (k <= 0) return d ? (ssize_t)d : 0;
        d += k;
    }
    return (ssize_t)d;
}
static int ck_seek(void *c, off64_t *o, int w) { off64_t p = lseek(((struct ck *)c)->fd, *o, w); if (p < 0) return -1; *o = p; return 0; }
static int ck_close(void *c) { int fd = ((struct ck *)c)->fd; free(c); return close(fd); }

static FILE *do_fopen(const char *path, const char *mode) {
    char np[PMAX];
    if (!on() || !path) return get_fopen()(path, mode);
    if (!tracked(path, np)) {
        if ((strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')) && outside_block("fopen", path)) return NULL;
        return get_fopen()(path, mode);
    }
    int flags = strchr(mode, '+') ? O_RDWR : (mode[0] == 'r') ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w') flags |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a') flags |= O_CREAT | O_APPEND;
    if (strchr(mode, 'x')) flags |= O_EXCL;
    int fd = do_open(AT_FDCWD, path, flags, 0666, 0);
    if (fd < 0) return NULL;
    if ((flags & O_ACCMODE) == O_RDONLY) {
        FILE *f = get_fdopen()(fd, mode);
        if (f) file_add(f, fd); else close(fd);
        return f;
    }
    struct ck *c = malloc(sizeof *c); c->fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    char m[8]; size_t j = 0; for (const char *s = mode; *s && j < 6; s++) if (strchr("rwa+b", *s)) m[j++] = *s; m[j] = 0;
    FILE *f = fopencookie(c, m, io);
    if (!f) { close(fd); free(c); return NULL; }
    return f;
}
EXPORT FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
EXPORT FILE *fdopen(int fd, const char *m) { FILE *f = get_fdopen()(fd, m); if (f && on() && TRK(fd)) file_add(f, fd); return f; }
EXPORT int fclose(FILE *f) {
    int fd = active ? file_fd(f) : -1;
    if (fd >= 0) {
        file_del(f);
        if (TRK(fd)) { if (on()) { struct reply r; ask("close", fdpath[fd], fdw[fd], NULL, &r); } free(fdpath[fd]); fdpath[fd] = NULL; fdbudget[fd] = -1; }
    }
    return get_fclose()(f);
}
EXPORT size_t fread(void *b, size_t s, size_t n, FILE *f) {
    if (on()) {
        int fd = file_fd(f);
        if (fd >= 0 && fdbudget[fd] >= 0) {
            size_t want = s * n;
            if ((int64_t)want > fdbudget[fd]) { errno = EIO; f->_flags |= 0x20; /* _IO_ERR_SEEN */ fdbudget[fd] = 0; return 0; }
            size_t k = get_fread()(b, s, n, f); spend(fd, (ssize_t)(k * s)); return k;
        }
    }
    return get_fread()(b, s, n, f);
}

/* ---------------------------------------------------------------- names */
EXPORT int rename(const char *a, const char *b) { char x[PMAX], y[PMAX]; if (on()) { int t = tracked(a, x), u = tracked(b, y); if (t && u) SIMPLE("rename", x, 0, y, get_rename()(a, b)); if (outside_block("rename", u ? a : b)) return -1; } return get_rename()(a, b); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { if (on() && d == AT_FDCWD && e == AT_FDCWD) return rename(a, b); return get_renameat()(d, a, e, b); }
EXPORT int unlink(const char *p) { char x[PMAX]; if (on()) { if (tracked(p, x)) SIMPLE("unlink", x, 0, NULL, get_unlink()(p)); if (outside_block("unlink", p)) return -1; } return get_unlink()(p); }
EXPORT int unlinkat(int d, const char *p, int f) { char x[PMAX]; if (on()) { if (trackedat(d, p, x)) SIMPLE("unlink", x, 0, NULL, get_unlinkat()(d, p, f)); if ((d == AT_FDCWD || p[0] == '/') && outside_block("unlink", p)) return -1; } return get_unlinkat()(d, p, f); }
EXPORT int remove(const char *p) { char x[PMAX]; if (on()) { if (tracked(p, x)) SIMPLE("unlink", x, 0, NULL, get_remove()(p)); if (outside_block("remove", p)) return -1; } return get_remove()(p); }
EXPORT int rmdir(const char *p) { char x[PMAX]; if (on()) { if (tracked(p, x)) SIMPLE("rmdir", x, 0, NULL, get_rmdir()(p)); if (outside_block("rmdir", p)) return -1; } return get_rmdir()(p); }
EXPORT int mkdir(const char *p, mode_t m) { char x[PMAX]; if (on()) { if (tracked(p, x)) SIMPLE("mkdir", x, 0, NULL, get_mkdir()(p, m)); if (outside_block("mkdir", p)) return -1; } return get_mkdir()(p, m); }
EXPORT int link(const char *a, const char *b) { char x[PMAX], y[PMAX]; if (on()) { int t = tracked(a, x), u = tracked(b, y); if (t && u) SIMPLE("link", x, 0, y, get_link()(a, b)); if (outside_block("link", b)) return -1; } return get_link()(a, b); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { char x[PMAX], y[PMAX]; if (on() && trackedat(d, a, x) && trackedat(e, b, y)) SIMPLE("link", x, 0, y, get_linkat()(d, a, e, b, f)); return get_linkat()(d, a, e, b, f); }
EXPORT int symlink(const char *a, const char *b) { char y[PMAX]; if (on()) { if (tracked(b, y)) SIMPLE("symlink", y, 0, NULL, get_symlink()(a, b)); if (outside_block("symlink", b)) return -1; } return get_symlink()(a, b); }
EXPORT int stat(const char *p, struct stat *s) { char x[PMAX]; if (on() && tracked(p, x)) SIMPLE("stat", x, 0, NULL, get_stat()(p, s)); return get_stat()(p, s); }
EXPORT int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
EXPORT int lstat(const char *p, struct stat *s) { char x[PMAX]; if (on() && tracked(p, x)) SIMPLE("stat", x, 1, NULL, get_lstat()(p, s)); return get_lstat()(p, s); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *)s); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int f) { char x[PMAX]; if (on() && p && *p && trackedat(d, p, x)) SIMPLE("stat", x, 0, NULL, get_fstatat()(d, p, s, f)); return get_fstatat()(d, p, s, f); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int f) { return fstatat(d, p, (struct stat *)s, f); }
EXPORT int __xstat(int v, const char *p, struct stat *s) { return stat(p, s); }
EXPORT int access(const char *p, int m) { char x[PMAX]; if (on() && tracked(p, x)) SIMPLE("access", x, m, NULL, get_access()(p, m)); return get_access()(p, m); }
EXPORT int chmod(const char *p, mode_t m) { char x[PMAX]; if (on()) { if (tracked(p, x)) SIMPLE("chmod", x, m, NULL, get_chmod()(p, m)); if (outside_block("chmod", p)) return -1; } return get_chmod()(p, m); }
EXPORT int fchmod(int fd, mode_t m) { if (on() && TRK(fd)) SIMPLE("chmod", fdpath[fd], m, NULL, get_fchmod()(fd, m)); return get_fchmod()(fd, m); }
EXPORT int utimensat(int d, const char *p, const struct timespec *t, int f) { char x[PMAX]; if (on() && p && trackedat(d, p, x)) SIMPLE("utime", x, 0, NULL, get_utimensat()(d, p, t, f)); return get_utimensat()(d, p, t, f); }

/* ---------------------------------------------------------------- directories */
static int cmpent(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
EXPORT DIR *opendir(const char *p) {
    char x[PMAX];
    if (!on() || !tracked(p, x)) return get_opendir()(p);
    struct reply r; ask("opendir", x, 0, NULL, &r);
    if (r.action == A_FAIL) { errno = r.err; return NULL; }
    DIR *d = get_opendir()(p);
    if (!d) return NULL;
    int slot = -1;
    for (int i = 0; i < MAXDIRS; i++) if (!dirs[i].d) { slot = i; break; }
    if (slot < 0) return d;
    struct dirent64 **e = NULL; int n = 0, cap = 0; struct dirent64 *t;
    while ((t = get_readdir64()(d))) {
        if (n == cap) { cap = cap ? 2 * cap : 32; e = realloc(e, cap * sizeof *e); }
        e[n] = malloc(sizeof *t); memcpy(e[n], t, t->d_reclen < sizeof *t ? t->d_reclen : sizeof *t); n++;
    }
    qsort(e, n, sizeof *e, cmpent);
    if (r.seed) { uint64_t s = r.seed; for (int i = n - 1; i > 0; i--) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; int j = (int)(s % (uint64_t)(i + 1)); struct dirent64 *q = e[i]; e[i] = e[j]; e[j] = q; } }
    dirs[slot].d = d; dirs[slot].e = e; dirs[slot].n = n; dirs[slot].i = 0;
    return d;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
    if (active) for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d == d) return dirs[i].i < dirs[i].n ? dirs[i].e[dirs[i].i++] : NULL;
    return get_readdir64()(d);
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
    if (active) for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d == d) { for (int j = 0; j < dirs[i].n; j++) free(dirs[i].e[j]); free(dirs[i].e); dirs[i].d = NULL; }
    return get_closedir()(d);
}

/* ---------------------------------------------------------------- locks */
static int lock_loop(const char *op, int fd, int (*try_)(int, void *), void *arg, int blocking) {
    for (;;) {
        struct reply r; ask(op, fdpath[fd], blocking, NULL, &r);
        if (r.action == A_FAIL) { errno = r.err; return -1; }
        int rc = try_(fd, arg);
        if (r.action == A_CRASH_AFTER || r.action == A_TORN) die();
        if (rc == 0 || !blocking || (errno != EWOULDBLOCK && errno != EAGAIN && errno != EACCES)) return rc;
        op = "lockwait";
    }
}
static int try_flock(int fd, void *a) { return get_flock()(fd, *(int *)a | LOCK_NB); }
EXPORT int flock(int fd, int op) {
    if (on() && TRK(fd)) {
        if ((op & ~LOCK_NB) == LOCK_UN) SIMPLE("unlock", fdpath[fd], 0, NULL, get_flock()(fd, op));
        int o = op & ~LOCK_NB;
        return lock_loop("lock", fd, try_flock, &o, !(op & LOCK_NB));
    }
    return get_flock()(fd, op);
}
static int try_fcntl(int fd, void *a) { return get_fcntl()(fd, F_SETLK, a); }
static int do_fcntl(int fd, int cmd, void *arg) {
    if (on() && TRK(fd) && (cmd == F_SETLK || cmd == F_SETLKW)) {
        struct flock *l = arg;
        if (l->l_type == F_UNLCK) SIMPLE("unlock", fdpath[fd], 0, NULL, get_fcntl()(fd, cmd, arg));
        return lock_loop("lock", fd, try_fcntl, arg, cmd == F_SETLKW);
    }
    int rc = get_fcntl()(fd, cmd, arg);
    if (rc >= 0 && rc < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && on() && TRK(fd)) { fdpath[rc] = strdup(fdpath[fd]); fdbudget[rc] = fdbudget[fd]; fdw[rc] = fdw[fd]; }
    return rc;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int lockf(int fd, int cmd, off_t len) {
    struct flock l = { .l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK, .l_whence = SEEK_CUR, .l_start = 0, .l_len = len };
    if (cmd == F_TEST) { errno = EINVAL; return -1; }
    return do_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &l);
}

/* ---------------------------------------------------------------- time, pid, randomness */
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
    if (on() && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { vnow += 1000; t->tv_sec = vnow / 1000000000LL; t->tv_nsec = vnow % 1000000000LL; return 0; }
    if (on() && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME)) { vmono += 1000; t->tv_sec = vmono / 1000000000LL; t->tv_nsec = vmono % 1000000000LL; return 0; }
    return get_clock_gettime()(c, t);
}
EXPORT time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
EXPORT int gettimeofday(struct timeval *v, void *z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
static void do_sleep(int64_t ns) { struct reply r; if (ns < 0) ns = 0; vmono += ns; ask("sleep", NULL, ns, NULL, &r); }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
    if (on()) { int64_t ns = rq->tv_sec * 1000000000LL + rq->tv_nsec; if (fl & TIMER_ABSTIME) ns -= (c == CLOCK_REALTIME ? vnow : vmono); do_sleep(ns); return 0; }
    return get_clock_nanosleep()(c, fl, rq, rm);
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) { return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm) ? -1 : 0; }
EXPORT int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000L }; return nanosleep(&t, NULL); }
EXPORT pid_t getpid(void) { return active ? vpid : (pid_t)syscall(SYS_getpid); }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) { if (on()) { for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(nextrnd() >> 24); return (ssize_t)n; } return syscall(SYS_getrandom, b, n, f); }
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
