/* simdisk: deterministic storage simulator at the system-call boundary.
 *
 * A thread that is "inside" the simulator has Linux syscall user dispatch
 * switched on (prctl PR_SET_SYSCALL_USER_DISPATCH): each system call it makes,
 * from Python, numpy, libc stdio or the C++ runtime, raises SIGSYS before the
 * kernel sees it.  The handler decides what the call does: it is executed
 * unchanged, executed in part (torn / short write), refused with an errno, or
 * - after a simulated crash - refused without effect.  Every state-changing call
 * below the scratch prefix is recorded in an in-memory log with its data, from
 * which crash images are built.  State-changing calls on paths outside
 * the prefix are refused and recorded (containment).
 *
 * Nothing here depends on time or randomness: which call is disturbed and how is
 * decided by the plan installed by the caller.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/stat.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#define PR_SYS_DISPATCH_OFF 0
#define PR_SYS_DISPATCH_ON 1
#endif

/* ---- raw system calls issued from a section that is always allowed ---- */
__asm__(
    ".pushsection .text\n"
    ".globl sd_raw_begin\n.hidden sd_raw_begin\nsd_raw_begin:\n"
    ".globl sd_raw\n.hidden sd_raw\n.type sd_raw,@function\n"
    "sd_raw:\n"
    "  movq %rdi, %rax\n  movq %rsi, %rdi\n  movq %rdx, %rsi\n"
    "  movq %rcx, %rdx\n  movq %r8, %r10\n  movq %r9, %r8\n  movq 8(%rsp), %r9\n"
    "  syscall\n  ret\n"
    ".globl sd_restorer\n.hidden sd_restorer\n.type sd_restorer,@function\n"
    "sd_restorer:\n  movq $15, %rax\n  syscall\n"
    ".globl sd_raw_end\n.hidden sd_raw_end\nsd_raw_end:\n  nop\n"
    ".popsection\n");
extern char sd_raw_begin[], sd_raw_end[];
extern long sd_raw(long nr, long a, long b, long c, long d, long e, long f);
extern void sd_restorer(void);
#define RAW(nr, a, b, c, d, e, f) \
    sd_raw((nr), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

struct ksigaction { void (*handler)(int, siginfo_t *, void *); unsigned long flags;
                    void (*restorer)(void); unsigned long mask; };

/* ---- log ---- */
enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_FSYNC,
       OP_LINK, OP_SYMLINK, OP_CLOSE, OP_EXCHANGE, OP_UNSUPPORTED, OP_OUTSIDE, OP_READ, OP_FALLOC };
struct rec {               /* followed by path1, path2, data; 8-byte aligned */
    uint32_t size, kind;
    int64_t op;            /* index among faultable operations, -1 otherwise */
    int64_t ino, off, len; /* len: bytes of data / new length */
    int64_t ret;           /* result (negative errno on failure) */
    int32_t flags, fault;  /* open flags; fault action applied */
    uint32_t p1, p2;       /* lengths of the path strings incl. NUL */
};

/* ---- plan ---- */
enum { F_NONE = 0, F_ERRNO, F_SHORT, F_CRASH, F_CRASH_TORN };
struct fault { int64_t op; int32_t action; int32_t arg; };
#define MAXF 64
struct ctl {
    volatile int active;        /* record and inject */
    volatile int frozen;        /* crashed: nothing reaches the disk any more */
    int64_t next_op;            /* counter of faultable (state-changing) operations */
    int64_t next_read;          /* counter of faultable read operations */
    int64_t budget;             /* bytes left on the disk, -1: unlimited */
    int32_t budget_errno;
    int32_t nf, nrf;
    struct fault f[MAXF], rf[MAXF];
    int64_t fired[16];           /* per action */
    int64_t traps;
    int64_t overflow;
    int64_t unsupported, outside, post_crash;
    int64_t escaped_threads;
    uint64_t log_used, log_cap;
};
static struct ctl C;
static char *logbuf;
static char prefix[512];
static size_t prefix_len;
static __thread volatile char selector __attribute__((tls_model("initial-exec")));
static __thread volatile int armed __attribute__((tls_model("initial-exec")));
static int handler_installed;
static volatile int loglock;

static void lock(void) { while (__sync_lock_test_and_set(&loglock, 1)) ; }
static void unlock(void) { __sync_lock_release(&loglock); }

static size_t slen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }

/* normalise: collapse "//", "/./", resolve ".." lexically (scratch has no symlinked parents) */
static void norm(char *p) {
    char *out = p, *in = p;
    if (*in != '/') return;
    while (*in) {
        while (*in == '/') in++;
        if (!*in) break;
        char *seg = in; while (*in && *in != '/') in++;
        size_t n = (size_t)(in - seg);
        if (n == 1 && seg[0] == '.') continue;
        if (n == 2 && seg[0] == '.' && seg[1] == '.') {
            while (out > p && *--out != '/') ;
            continue;
        }
        *out++ = '/';
        memmove(out, seg, n); out += n;
    }
    if (out == p) *out++ = '/';
    *out = 0;
}
static int fdpath(long fd, char *buf, size_t cap) {
    char l[40] = "/proc/self/fd/"; char d[12]; int n = 0, k = 14; long v = fd;
    if (fd == AT_FDCWD) { long r = RAW(SYS_readlink, "/proc/self/cwd", buf, cap - 1, 0, 0, 0);
        if (r < 0) return -1;
        buf[r] = 0;
        return (int)r; }
    if (fd < 0) return -1;
    if (!v) d[n++] = '0';
    while (v) { d[n++] = (char)('0' + v % 10); v /= 10; }
    while (n) l[k++] = d[--n];
    l[k] = 0;
    long r = RAW(SYS_readlink, l, buf, cap - 1, 0, 0, 0);
    if (r < 0) return -1;
    buf[r] = 0;
    return (int)r;
}
static int abspath(long dirfd, const char *path, char *buf, size_t cap) {
    size_t n = slen(path);
    if (path[0] == '/') { if (n + 1 > cap) return -1; memcpy(buf, path, n + 1); norm(buf); return 0; }
    int k = fdpath(dirfd, buf, cap);
    if (k < 0 || (size_t)k + n + 2 > cap) return -1;
    if (n) { buf[k] = '/'; memcpy(buf + k + 1, path, n + 1); }
    norm(buf);
    return 0;
}
static int inside(const char *p) {
    return !strncmp(p, prefix, prefix_len) && (p[prefix_len] == '/' || p[prefix_len] == 0);
}
static int harmless(const char *p) {      /* character devices, proc */
    return !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || p[0] != '/';
}
static int64_t inode_of(const char *p) {
    struct stat st;
    long r = RAW(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW, 0, 0);
    return r < 0 ? -1 : (int64_t)st.st_ino;
}
static int64_t inode_fd(long fd, int64_t *size) {
    struct stat st;
    long r = RAW(SYS_fstat, fd, &st, 0, 0, 0, 0);
    if (r < 0) return -1;
    if (size) *size = st.st_size;
    return (int64_t)st.st_ino;
}

static struct rec *put(int kind, int64_t op, const char *a, const char *b, int64_t dlen) {
    size_t la = a ? slen(a) + 1 : 0, lb = b ? slen(b) + 1 : 0;
    size_t need = (sizeof(struct rec) + la + lb + (size_t)(dlen > 0 ? dlen : 0) + 7) & ~(size_t)7;
    if (C.log_used + need > C.log_cap) { C.overflow++; return 0; }
    struct rec *r = (struct rec *)(logbuf + C.log_used);
    memset(r, 0, sizeof *r);
    r->size = (uint32_t)need; r->kind = (uint32_t)kind; r->op = op; r->ino = -1;
    r->p1 = (uint32_t)la; r->p2 = (uint32_t)lb;
    char *p = (char *)(r + 1);
    if (la) memcpy(p, a, la);
    if (lb) memcpy(p + la, b, lb);
    C.log_used += need;
    return r;
}
static char *rec_data(struct rec *r) { return (char *)(r + 1) + r->p1 + r->p2; }

static struct fault *plan(struct fault *f, int n, int64_t op) {
    for (int i = 0; i < n; i++) if (f[i].op == op) return &f[i];
    return 0;
}
/* start a faultable operation.  Returns 1 if it must not be executed; *res is then its result. */
static int begin(int64_t *op, struct fault **fo, long *res) {
    *fo = 0;
    if (C.frozen) { C.post_crash++; *res = -EIO; *op = -1; return 1; }
    *op = C.next_op++;
    struct fault *f = plan(C.f, C.nf, *op);
    if (f) {
        *fo = f;
        if (f->action == F_ERRNO) { C.fired[F_ERRNO]++; *res = -f->arg; return 1; }
        if (f->action == F_CRASH) { C.fired[F_CRASH]++; C.frozen = 1; *res = -EIO; return 1; }
    }
    return 0;
}

static long do_write(int nr, long fd, long a2, long a3, long a4, long a5, long a6) {
    char p[1024];
    if (fd < 0 || fdpath(fd, p, sizeof p) < 0 || !inside(p)) return RAW(nr, fd, a2, a3, a4, a5, a6);
    struct iovec one, *iov; int cnt; int64_t off = -1;
    if (nr == SYS_write || nr == SYS_pwrite64) { one.iov_base = (void *)a2; one.iov_len = (size_t)a3; iov = &one; cnt = 1; }
    else { iov = (struct iovec *)a2; cnt = (int)a3; }
    if (nr == SYS_pwrite64 || nr == SYS_pwritev || nr == SYS_pwritev2) off = a4;
    int64_t total = 0;
    for (int i = 0; i < cnt; i++) total += (int64_t)iov[i].iov_len;
    int64_t op; struct fault *f; long res;
    lock();
    int skip = begin(&op, &f, &res);
    int64_t want = total;
    int crash_after = 0, fault = f ? f->action : 0;
    if (!skip) {
        if (f && f->action == F_SHORT && total > 1) { want = f->arg < 1 ? 1 : f->arg; if (want >= total) want = total - 1; C.fired[F_SHORT]++; }
        if (f && f->action == F_CRASH_TORN) { want = f->arg; if (want > total) want = total; crash_after = 1; C.fired[F_CRASH_TORN]++; }
        if (C.budget >= 0 && want > C.budget) {
            want = C.budget; C.fired[10]++; fault = 100;
            if (!want && total) { skip = 1; res = -C.budget_errno; }
        }
    }
    int64_t pos = off, size = 0;
    int fl = (int)RAW(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0);
    int64_t ino = inode_fd(fd, &size);
    if (pos < 0) pos = (fl & O_APPEND) ? size : RAW(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
    if (!skip) {
        int64_t done = 0; res = 0;
        for (int i = 0; i < cnt && done < want; i++) {
            int64_t n = (int64_t)iov[i].iov_len; if (n > want - done) n = want - done;
            int64_t k = 0;
            while (k < n) {
                long r = off >= 0 ? RAW(SYS_pwrite64, fd, (char *)iov[i].iov_base + k, n - k, off + done + k, 0, 0)
                                  : RAW(SYS_write, fd, (char *)iov[i].iov_base + k, n - k, 0, 0, 0);
                if (r == -EINTR) continue;
                if (r <= 0) { if (!done && !k) res = r; goto out; }
                k += r;
            }
            done += n;
        }
        res = done;
    out:
        if (C.budget >= 0 && res > 0) C.budget -= res;
        if (crash_after) { C.frozen = 1; }
    }
    {
        int64_t n = res > 0 ? res : 0;
        struct rec *r = put(OP_WRITE, op, p, 0, n);
        if (r) {
            r->ino = ino; r->off = pos; r->len = n; r->ret = res; r->flags = fl; r->fault = fault;
            char *d = rec_data(r); int64_t k = 0;
            for (int i = 0; i < cnt && k < n; i++) {
                int64_t m = (int64_t)iov[i].iov_len; if (m > n - k) m = n - k;
                memcpy(d + k, iov[i].iov_base, (size_t)m); k += m;
            }
        }
    }
    unlock();
    if (crash_after) res = -EIO;
    return res;
}

static long do_read(int nr, long fd, long a2, long a3, long a4, long a5, long a6) {
    char p[1024];
    if (!C.nrf || fd < 0 || fdpath(fd, p, sizeof p) < 0 || !inside(p)) {
        return RAW(nr, fd, a2, a3, a4, a5, a6);
    }
    lock();
    int64_t op = C.next_read++;
    struct fault *f = plan(C.rf, C.nrf, op);
    if (f && f->action == F_ERRNO) { C.fired[8]++; unlock(); return -f->arg; }
    if (f && f->action == F_SHORT && (nr == SYS_read || nr == SYS_pread64) && a3 > 1) {
        long n = f->arg < 1 ? 1 : f->arg; if (n >= a3) n = a3 - 1;
        C.fired[9]++; unlock();
        return RAW(nr, fd, a2, n, a4, a5, a6);
    }
    unlock();
    return RAW(nr, fd, a2, a3, a4, a5, a6);
}

static long outside_op(const char *p, const char *what) {
    (void)what;
    lock(); C.outside++; put(OP_OUTSIDE, -1, p, what, 0); unlock();
    return -EACCES;
}

static long do_open(long dirfd, const char *path, long flags, long mode) {
    char p[1024];
    int wr = (flags & O_CREAT) || (flags & O_TRUNC) || ((flags & O_ACCMODE) != O_RDONLY);
    if (!wr || abspath(dirfd, path, p, sizeof p) < 0)
        return RAW(SYS_openat, dirfd, path, flags, mode, 0, 0);
    if (!inside(p)) {
        if (harmless(p)) return RAW(SYS_openat, dirfd, path, flags, mode, 0, 0);
        return outside_op(p, "open");
    }
    int tmpf = (flags & O_TMPFILE) == O_TMPFILE;
    int64_t before = inode_of(p);
    int mutates = tmpf || ((flags & O_CREAT) && before < 0) || (flags & O_TRUNC);
    int64_t op = -1; struct fault *f = 0; long res;
    lock();
    int skip = 0;
    if (mutates || C.frozen) {
        skip = begin(&op, &f, &res);
        if (!skip && C.budget == 0 && before < 0) { skip = 1; res = -C.budget_errno; C.fired[10]++; }
    }
    if (!skip) res = RAW(SYS_openat, dirfd, path, flags, mode, 0, 0);
    if (mutates) {
        struct rec *r = put(OP_OPEN, op, p, 0, 0);
        if (r) { r->ret = res; r->flags = (int)flags; r->off = before; r->fault = f ? f->action : 0;
                 r->ino = res >= 0 ? inode_fd(res, 0) : before; if (tmpf) r->kind = OP_UNSUPPORTED; }
        if (tmpf) C.unsupported++;
    }
    if (f && f->action == F_CRASH_TORN && !C.frozen) { C.frozen = 1; C.fired[F_CRASH_TORN]++; }
    unlock();
    return res;
}

/* namespace operation on one or two paths */
static long do_ns(int kind, int nr, long d1, const char *p1, long d2, const char *p2, long a5,
                  long r1, long r2, long r3, long r4, long r5) {
    char a[1024], b[1024]; a[0] = b[0] = 0;
    if (abspath(d1, p1, a, sizeof a) < 0) return RAW(nr, r1, r2, r3, r4, r5, 0);
    if (p2 && abspath(d2, p2, b, sizeof b) < 0) return RAW(nr, r1, r2, r3, r4, r5, 0);
    int in1 = inside(a), in2 = p2 ? inside(b) : in1;
    if (kind == OP_SYMLINK) in1 = in2;
    if (!in1 || !in2) {
        /* creating a directory that exists is a no-op */
        if (kind == OP_MKDIR && inode_of(a) >= 0) return -EEXIST;
        if ((kind == OP_UNLINK || kind == OP_RMDIR) && inode_of(a) < 0) return -ENOENT;
        return outside_op(in1 ? b : a, kind == OP_RENAME ? "rename" : kind == OP_UNLINK ? "unlink" : kind == OP_MKDIR ? "mkdir" : kind == OP_RMDIR ? "rmdir" : "link");
    }
    int64_t i1 = inode_of(a), i2 = p2 ? inode_of(b) : -1;
    if (kind == OP_MKDIR && i1 >= 0) return -EEXIST;      /* does not change anything: not a fault point */
    if ((kind == OP_UNLINK || kind == OP_RMDIR || kind == OP_RENAME) && i1 < 0) return RAW(nr, r1, r2, r3, r4, r5, 0);
    int64_t op; struct fault *f; long res;
    lock();
    int skip = begin(&op, &f, &res);
    if (!skip && C.budget == 0 && kind == OP_MKDIR) { skip = 1; res = -C.budget_errno; C.fired[10]++; }
    if (!skip) res = RAW(nr, r1, r2, r3, r4, r5, 0);
    struct rec *r = put(kind, op, a, p2 ? b : 0, 0);
    if (r) { r->ret = res; r->ino = i1; r->off = i2; r->flags = (int)a5; r->fault = f ? f->action : 0; }
    if (f && f->action == F_CRASH_TORN && !C.frozen) { C.frozen = 1; C.fired[F_CRASH_TORN]++; }
    unlock();
    return res;
}

static long do_fdop(int kind, int nr, long fd, long a2, long a3, long a4) {
    char p[1024];
    if (fdpath(fd, p, sizeof p) < 0 || !inside(p)) return RAW(nr, fd, a2, a3, a4, 0, 0);
    int64_t op; struct fault *f; long res;
    lock();
    int skip = begin(&op, &f, &res);
    if (!skip && kind == OP_FALLOC && C.budget >= 0) { skip = 1; res = -C.budget_errno; }
    if (!skip) res = RAW(nr, fd, a2, a3, a4, 0, 0);
    struct rec *r = put(kind, op, p, 0, 0);
    if (r) { r->ret = res; r->ino = inode_fd(fd, 0); r->fault = f ? f->action : 0; r->len = kind == OP_TRUNC ? a2 : 0;
             if (kind == OP_FALLOC) { int64_t sz = 0; inode_fd(fd, &sz); r->kind = OP_TRUNC; r->len = sz; } }
    if (f && f->action == F_CRASH_TORN && !C.frozen) { C.frozen = 1; C.fired[F_CRASH_TORN]++; }
    unlock();
    return res;
}

static long dispatch(long nr, long a, long b, long c, long d, long e, long f) {
    switch (nr) {
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev:
#ifdef SYS_pwritev2
    case SYS_pwritev2:
#endif
        return do_write((int)nr, a, b, c, d, e, f);
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv:
        return do_read((int)nr, a, b, c, d, e, f);
    case SYS_open: return do_open(AT_FDCWD, (const char *)a, b, c);
    case SYS_openat: return do_open((int)a, (const char *)b, c, d);
    case SYS_creat: return do_open(AT_FDCWD, (const char *)a, O_CREAT | O_WRONLY | O_TRUNC, b);
#ifdef SYS_openat2
    case SYS_openat2: { struct { uint64_t flags, mode, resolve; } *how = (void *)c;
        return do_open((int)a, (const char *)b, (long)how->flags, (long)how->mode); }
#endif
    case SYS_rename: return do_ns(OP_RENAME, SYS_rename, AT_FDCWD, (char *)a, AT_FDCWD, (char *)b, 0, a, b, c, d, e);
    case SYS_renameat: return do_ns(OP_RENAME, SYS_renameat, (int)a, (char *)b, (int)c, (char *)d, 0, a, b, c, d, e);
    case SYS_renameat2: return do_ns((e & 2) ? OP_EXCHANGE : OP_RENAME, SYS_renameat2, (int)a, (char *)b, (int)c, (char *)d, e, a, b, c, d, e);
    case SYS_unlink: return do_ns(OP_UNLINK, SYS_unlink, AT_FDCWD, (char *)a, 0, 0, 0, a, b, c, d, e);
    case SYS_unlinkat: return do_ns((c & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, SYS_unlinkat, (int)a, (char *)b, 0, 0, c, a, b, c, d, e);
    case SYS_rmdir: return do_ns(OP_RMDIR, SYS_rmdir, AT_FDCWD, (char *)a, 0, 0, 0, a, b, c, d, e);
    case SYS_mkdir: return do_ns(OP_MKDIR, SYS_mkdir, AT_FDCWD, (char *)a, 0, 0, b, a, b, c, d, e);
    case SYS_mkdirat: return do_ns(OP_MKDIR, SYS_mkdirat, (int)a, (char *)b, 0, 0, c, a, b, c, d, e);
    case SYS_link: return do_ns(OP_LINK, SYS_link, AT_FDCWD, (char *)a, AT_FDCWD, (char *)b, 0, a, b, c, d, e);
    case SYS_linkat: return do_ns(OP_LINK, SYS_linkat, (int)a, (char *)b, (int)c, (char *)d, e, a, b, c, d, e);
    case SYS_symlink: return do_ns(OP_SYMLINK, SYS_symlink, AT_FDCWD, (char *)b, AT_FDCWD, (char *)b, 0, a, b, c, d, e);
    case SYS_symlinkat: return do_ns(OP_SYMLINK, SYS_symlinkat, (int)b, (char *)c, (int)b, (char *)c, 0, a, b, c, d, e);
    case SYS_truncate: {
        char p[1024];
        if (abspath(AT_FDCWD, (char *)a, p, sizeof p) < 0 || !inside(p)) return outside_op((char *)a, "truncate");
        long fd = RAW(SYS_openat, AT_FDCWD, a, O_WRONLY | O_CLOEXEC, 0, 0, 0);
        if (fd < 0) return fd;
        long r = do_fdop(OP_TRUNC, SYS_ftruncate, fd, b, 0, 0);
        RAW(SYS_close, fd, 0, 0, 0, 0, 0);
        return r; }
    case SYS_ftruncate: return do_fdop(OP_TRUNC, (int)nr, a, b, c, d);
    case SYS_fallocate: return do_fdop(OP_FALLOC, (int)nr, a, b, c, d);
    case SYS_fsync: case SYS_fdatasync: return do_fdop(OP_FSYNC, (int)nr, a, b, c, d);
    case SYS_sync: case SYS_syncfs: case SYS_sync_file_range:
        return do_fdop(OP_FSYNC, SYS_fsync, a, 0, 0, 0);
    case SYS_sendfile: case SYS_copy_file_range: case SYS_splice: {
        /* make user space fall back to read/write, as on file systems without support */
        char p[1024]; long out = nr == SYS_sendfile ? a : c;
        if (fdpath(out, p, sizeof p) >= 0 && inside(p)) return nr == SYS_copy_file_range ? -EXDEV : -EINVAL;
        return RAW(nr, a, b, c, d, e, f); }
    case SYS_mmap: {
        char p[1024];
        if ((int)e >= 0 && (d & MAP_SHARED) && (c & PROT_WRITE) && fdpath((int)e, p, sizeof p) >= 0 && inside(p)) {
            lock(); C.unsupported++; put(OP_UNSUPPORTED, -1, p, "mmap", 0); unlock(); }
        return RAW(nr, a, b, c, d, e, f); }
    default:
        return RAW(nr, a, b, c, d, e, f);
    }
}

static void handler(int sig, siginfo_t *si, void *uc) {
    (void)sig; (void)si;
    ucontext_t *u = uc;
    greg_t *g = u->uc_mcontext.gregs;
    C.traps++;
    long nr = g[REG_RAX];
    if (nr == SYS_clone || nr == SYS_clone3 || nr == SYS_fork || nr == SYS_vfork || nr == SYS_rt_sigreturn || nr == SYS_execve) {
        /* run natively: step back onto the syscall instruction with dispatch off */
        selector = 0; armed = 2; C.escaped_threads++;
        g[REG_RIP] -= 2;
        g[REG_RAX] = nr;
        return;
    }
    g[REG_RAX] = dispatch(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
}

/* ---- API for Python (ctypes) ---- */
int sd_init(const char *pfx, uint64_t cap) {
    prefix_len = slen(pfx);
    if (prefix_len + 1 > sizeof prefix) return -1;
    memcpy(prefix, pfx, prefix_len + 1);
    if (!logbuf) {
        logbuf = mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (logbuf == MAP_FAILED) { logbuf = 0; return -2; }
        C.log_cap = cap;
    }
    if (!handler_installed) {
        struct ksigaction sa; memset(&sa, 0, sizeof sa);
        sa.handler = handler; sa.flags = SA_SIGINFO | 0x04000000UL /* SA_RESTORER */ | SA_NODEFER; sa.restorer = sd_restorer;
        long r = sd_raw(SYS_rt_sigaction, SIGSYS, (long)&sa, 0, 8, 0, 0);
        if (r < 0) return (int)r;
        handler_installed = 1;
    }
    return 0;
}
int sd_enter(void) {
    selector = 0;
    long r = sd_raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, PR_SYS_DISPATCH_ON, (long)sd_raw_begin,
                    (long)(sd_raw_end - sd_raw_begin) + 1, (long)&selector, 0);
    if (r < 0) return (int)r;
    armed = 1;
    selector = 1;
    return 0;
}
int sd_leave(void) {
    selector = 0; armed = 0;
    return (int)sd_raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, PR_SYS_DISPATCH_OFF, 0, 0, 0, 0);
}
struct ctl *sd_ctl(void) { return &C; }
char *sd_log(void) { return logbuf; }
void sd_reset(void) {
    uint64_t cap = C.log_cap;
    memset(&C, 0, sizeof C);
    C.log_cap = cap; C.budget = -1; C.budget_errno = ENOSPC;
}
