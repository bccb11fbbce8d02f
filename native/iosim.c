/* Simulated disk faults: interposes the file calls of one process on files below an armed prefix.
 * Operation n (0-based, counted over all intercepted calls on such files) can be given one fault.
 * Nothing is altered for any other path, and nothing at all before iosim_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { F_NONE, F_ERRNO, F_SHORT, F_CRASH, F_TORN, F_EOF, F_SIGNAL, F_EINTR, F_FULL, F_FLIP };
enum { OP_OPENR = 'o', OP_OPENW = 'O', OP_READ = 'r', OP_WRITE = 'w', OP_TRUNC = 't', OP_SYNC = 's', OP_RENAME = 'm', OP_UNLINK = 'u', OP_CLOSE = 'c' };

static char prefix[PATH_MAX];
static int armed = 0;
static long nops = 0, fired = 0;
static char oplog[1 << 16];
#define MAXF 16
static struct { long op; int kind; int arg; } faults[MAXF];
static int nfaults = 0;
static long full_budget = -1;   /* bytes the simulated disk still has room for; -1: unlimited */
static unsigned char mine[4096];
static int plog = -1;             /* record of what is not yet durable: W inode (changed), S inode (synced), A (everything synced) */
static int token_in = -1, token_out = -1;   /* external scheduler: one byte out per operation, one byte in to go on */

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = dlsym(RTLD_NEXT, name)

void iosim_arm(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); nops = 0; fired = 0; nfaults = 0; full_budget = -1; memset(mine, 0, sizeof mine); armed = 1; }
void iosim_disarm(void) { armed = 0; }
void iosim_fault(long op, int kind, int arg) { if (nfaults < MAXF) { faults[nfaults].op = op; faults[nfaults].kind = kind; faults[nfaults].arg = arg; nfaults++; } }
void iosim_capacity(long bytes) { full_budget = bytes; }
void iosim_powerlog(int fd) { plog = fd; }
void iosim_tokens(int in, int out) { token_in = in; token_out = out; }
long iosim_ops(void) { return nops; }
long iosim_fired(void) { return fired; }
const char *iosim_log(void) { oplog[nops < (long)sizeof oplog - 1 ? nops : (long)sizeof oplog - 1] = 0; return oplog; }

static int inside(const char *path) {
    if (!armed || !path) return 0;
    char buf[PATH_MAX];
    if (path[0] != '/') { if (!getcwd(buf, sizeof buf)) return 0; size_t n = strlen(buf); snprintf(buf + n, sizeof buf - n, "/%s", path); path = buf; }
    return strncmp(path, prefix, strlen(prefix)) == 0;
}
static int isfd(int fd) { return armed && fd >= 0 && fd < (int)sizeof mine && mine[fd]; }

static ssize_t (*w_real)(int, const void *, size_t);
static ssize_t (*r_real)(int, void *, size_t);

static void durable(char what, int fd) {
    if (plog < 0 || !armed) return;
    if (!w_real) w_real = dlsym(RTLD_NEXT, "write");
    struct stat st;
    st.st_ino = 0;
    if (fd >= 0 && fstat(fd, &st)) return;
    if (what == 'W' && fd >= 0 && (fcntl(fd, F_GETFL) & O_DSYNC)) what = 'S';
    char line[64];
    int n = snprintf(line, sizeof line, "%c %lu\n", what, (unsigned long)st.st_ino);
    int keep = errno;
    (void)!w_real(plog, line, n);
    errno = keep;
}

/* Account one operation; returns the fault for it. */
static int next(char what, int *arg) {
    long n = nops++;
    if (n < (long)sizeof oplog - 1) oplog[n] = what;
    if (token_out >= 0) {
        if (!w_real) w_real = dlsym(RTLD_NEXT, "write");
        if (!r_real) r_real = dlsym(RTLD_NEXT, "read");
        char c = what;
        w_real(token_out, &c, 1);
        if (r_real(token_in, &c, 1) != 1) _exit(97);
        if (c == 'K') _exit(99);
    }
    for (int i = 0; i < nfaults; i++)
        if (faults[i].op == n) {
            *arg = faults[i].arg;
            fired++;
            if (faults[i].kind == F_CRASH) _exit(99);
            if (faults[i].kind == F_SIGNAL) { raise(faults[i].arg); return F_NONE; }
            return faults[i].kind;
        }
    return F_NONE;
}

#define SIMPLE(what, call) do { int arg = 0, f = next(what, &arg); \
    if (f == F_ERRNO || f == F_FULL) { errno = arg; return -1; } \
    if (f == F_TORN) { call; _exit(99); } return call; } while (0)

static ssize_t sim_write(int fd, const void *b, size_t n, off_t off, ssize_t (*doit)(int, const void *, size_t, off_t)) {
    int arg = 0, f = next(OP_WRITE, &arg);
    if (f == F_ERRNO || f == F_EINTR) { errno = f == F_EINTR ? EINTR : arg; return -1; }
    durable('W', fd);
    if (f == F_TORN) { if (n / 2) doit(fd, b, n / 2, off); _exit(99); }
    if (f == F_SHORT && n > 1) return doit(fd, b, n / 2, off);
    if (full_budget >= 0) {
        if (full_budget == 0) { fired++; errno = ENOSPC; return -1; }
        if ((long)n > full_budget) n = full_budget;
        full_budget -= n;
    }
    return doit(fd, b, n, off);
}
static ssize_t sim_read(int fd, void *b, size_t n, off_t off, ssize_t (*doit)(int, void *, size_t, off_t)) {
    int arg = 0, f = next(OP_READ, &arg);
    if (f == F_ERRNO || f == F_EINTR) { errno = f == F_EINTR ? EINTR : arg; return -1; }
    if (f == F_SHORT && n > 1) return doit(fd, b, n / 2, off);
    if (f == F_EOF) return 0;
    return doit(fd, b, n, off);
}
static ssize_t do_w(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "write", int, const void *, size_t); return real(fd, b, n); }
static ssize_t do_pw(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off_t); return real(fd, b, n, o); }
static ssize_t do_r(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, "read", int, void *, size_t); return real(fd, b, n); }
static ssize_t do_pr(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off_t); return real(fd, b, n, o); }

ssize_t write(int fd, const void *b, size_t n) { return isfd(fd) ? sim_write(fd, b, n, 0, do_w) : do_w(fd, b, n, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return isfd(fd) ? sim_write(fd, b, n, o, do_pw) : do_pw(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return isfd(fd) ? sim_write(fd, b, n, o, do_pw) : do_pw(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) { return isfd(fd) ? sim_read(fd, b, n, 0, do_r) : do_r(fd, b, n, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return isfd(fd) ? sim_read(fd, b, n, o, do_pr) : do_pr(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return isfd(fd) ? sim_read(fd, b, n, o, do_pr) : do_pr(fd, b, n, o); }

static int opened(const char *path, int flags, int fd) {
    if (fd >= 0 && fd < (int)sizeof mine) {
        mine[fd] = inside(path) && !(flags & O_DIRECTORY);
        if (mine[fd] && (flags & O_TRUNC)) durable('W', fd);
    }
    return fd;
}

#define OPENBODY(REALNAME, SIG, CALL) \
    mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    static int (*real) SIG = 0; if (!real) real = dlsym(RTLD_NEXT, REALNAME); \
    if (inside(path) && !(flags & O_DIRECTORY)) { int arg = 0; \
        int f = next((flags & O_ACCMODE) == O_RDONLY ? OP_OPENR : OP_OPENW, &arg); \
        if (f == F_ERRNO) { errno = arg; return -1; } \
        if (f == F_TORN) { (void)!CALL; _exit(99); } } \
    return opened(path, flags, CALL);

int open(const char *path, int flags, ...) { OPENBODY("open", (const char *, int, ...), real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { OPENBODY("open64", (const char *, int, ...), real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { OPENBODY("openat", (int, const char *, int, ...), real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY("openat64", (int, const char *, int, ...), real(d, path, flags, mode)) }

int close(int fd) {
    REAL(int, "close", int);
    if (isfd(fd)) {
        int arg = 0, f = next(OP_CLOSE, &arg);
        mine[fd] = 0;
        int rc = real(fd);
        if (f == F_TORN) _exit(99);
        if (f == F_ERRNO) { errno = arg; return -1; }
        return rc;
    }
    return real(fd);
}
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); if (isfd(fd)) { durable('W', fd); SIMPLE(OP_TRUNC, real(fd, n)); } return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); if (isfd(fd)) { durable('W', fd); SIMPLE(OP_TRUNC, real(fd, n)); } return real(fd, n); }
static int sim_sync(int fd, int (*doit)(int)) {
    int arg = 0, f = next(OP_SYNC, &arg);
    if (f == F_ERRNO || f == F_FULL) { errno = arg; return -1; }
    int rc = doit(fd);
    if (rc == 0) durable('S', fd);
    if (f == F_TORN) _exit(99);
    return rc;
}
int fsync(int fd) { REAL(int, "fsync", int); return isfd(fd) ? sim_sync(fd, real) : real(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); return isfd(fd) ? sim_sync(fd, real) : real(fd); }
int syncfs(int fd) { REAL(int, "syncfs", int); int rc = real(fd); durable('A', -1); return rc; }
void sync(void) { REAL(void, "sync", void); real(); durable('A', -1); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if (inside(a) || inside(b)) SIMPLE(OP_RENAME, real(a, b)); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); if (inside(a) || inside(b)) SIMPLE(OP_RENAME, real(x, a, y, b)); return real(x, a, y, b); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if (inside(a) || inside(b)) SIMPLE(OP_RENAME, real(a, b)); return real(a, b); }
int unlink(const char *a) { REAL(int, "unlink", const char *); if (inside(a)) SIMPLE(OP_UNLINK, real(a)); return real(a); }
int unlinkat(int d, const char *a, int fl) { REAL(int, "unlinkat", int, const char *, int); if (inside(a)) SIMPLE(OP_UNLINK, real(d, a, fl)); return real(d, a, fl); }
