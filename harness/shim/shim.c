// LD_PRELOAD shim: records what a process opens for writing, creates, renames and removes, and
// makes chosen calls fail.
//   LAPEXSHIM_LOG    file the record is appended to
//   LAPEXSHIM_FAULT  kind:index:errno:arg
//     write   the index-th write to a file opened for writing fails (errno), once
//     writes  that write and all later ones fail
//     short   that write transfers only arg bytes
//     shortf  that write transfers only arg bytes, all later ones fail
//     zero    that write transfers nothing and returns 0
//     budget  from the index-th file opened for writing on: only arg bytes can be written to
//             that file, then errno (as on a full disk)
//     open    the index-th open for writing fails, once
//     opens   that one and all later ones fail
//     read    the index-th read of a file opened for reading fails, once
//     shortr  that read transfers at most arg bytes (and so do all later ones)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, WRITE, WRITES, SHORT, SHORTF, ZERO, BUDGET, OPEN, OPENS, READ, SHORTR };
static int kind = NONE, ferrno = EIO, logfd = -1, ready = 0;
static long fidx = 0, farg = 0;
static long nwrite = 0, nopen = 0, nread = 0, injected = 0;
static long left = 0;
static int budget_fd = -1;
static unsigned char wr[4096], rd[4096];

static void put(const char *op, const char *a, const char *b, long n) {
    if (logfd < 0) return;
    char line[9000];
    char cwd[4096];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) strcpy(cwd, "/");
    int k = snprintf(line, sizeof line, "%s\t%ld\t%s\t%s\t%s\n", op, n, cwd, a ? a : "", b ? b : "");
    if (k > 0) syscall(SYS_write, logfd, line, (size_t)(k < (int)sizeof line ? k : (int)sizeof line - 1));
}

__attribute__((constructor)) static void init(void) {
    if (ready) return;
    ready = 1;
    const char *l = getenv("LAPEXSHIM_LOG");
    if (l) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) {
            logfd = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
            if (logfd < 0) logfd = fd; else syscall(SYS_close, fd);
        }
    }
    const char *f = getenv("LAPEXSHIM_FAULT");
    if (f) {
        char name[32];
        if (sscanf(f, "%31[a-z]:%ld:%d:%ld", name, &fidx, &ferrno, &farg) >= 2) {
            static const char *n[] = {"none", "write", "writes", "short", "shortf", "zero", "budget", "open", "opens", "read", "shortr"};
            for (int i = 1; i < 11; i++) if (!strcmp(name, n[i])) kind = i;
        }
    }
}

#define REAL(name) ({ static __typeof__(name) *p; if (!p) p = (__typeof__(name) *)dlsym(RTLD_NEXT, #name); p; })

static int writing(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

// -1: let the call happen, otherwise the errno to fail with
static int before_open(const char *path, int flags) {
    init();
    if (!writing(flags)) return -1;
    long k = nopen++;
    if ((kind == OPEN && k == fidx) || (kind == OPENS && k >= fidx)) {
        injected++;
        put("fault", path, "open", k);
        return ferrno;
    }
    return -1;
}
static void after_open(int fd, const char *path, int flags) {
    if (writing(flags)) put(fd >= 0 ? "open" : "openfail", path, "", nopen - 1);
    if (fd < 0 || fd >= 4096) return;
    wr[fd] = rd[fd] = 0;
    if (writing(flags)) {
        wr[fd] = 1;
        if (kind == BUDGET && nopen - 1 == fidx) { budget_fd = fd; left = farg; }
    } else {
        struct stat st;
        if (strncmp(path, "/proc", 5) && strncmp(path, "/sys", 4) && !fstat(fd, &st) && S_ISREG(st.st_mode)) rd[fd] = 1;
    }
}

#define OPENLIKE(name) \
    int name(const char *path, int flags, ...) { \
        mode_t mode = 0; \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
        int e = before_open(path, flags); \
        if (e >= 0) { errno = e; return -1; } \
        int fd = ((int (*)(const char *, int, ...))REAL(name))(path, flags, mode); \
        int s = errno; after_open(fd, path, flags); errno = s; \
        return fd; \
    }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name) \
    int name(int dir, const char *path, int flags, ...) { \
        mode_t mode = 0; \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
        int e = before_open(path, flags); \
        if (e >= 0) { errno = e; return -1; } \
        int fd = ((int (*)(int, const char *, int, ...))REAL(name))(dir, path, flags, mode); \
        int s = errno; after_open(fd, path, flags); errno = s; \
        return fd; \
    }
OPENATLIKE(openat)
OPENATLIKE(openat64)
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    if (fd >= 0 && fd < 4096) { wr[fd] = rd[fd] = 0; if (fd == budget_fd) { budget_fd = -1; } }
    return REAL(close)(fd);
}

// >= 0: transfer at most this many bytes; -1: as asked; -2: fail; -3: return 0
static long before_write(int fd, size_t n) {
    init();
    if (fd < 0 || fd >= 4096 || !wr[fd] || n == 0) return -1;
    long k = nwrite++;
    put("write", "", "", (long)n);
    long r = -1;
    if (kind == WRITE && k == fidx) r = -2;
    if (kind == WRITES && k >= fidx) r = -2;
    if (kind == SHORT && k == fidx) r = (size_t)farg < n ? farg : -1;
    if (kind == SHORTF) { if (k == fidx) r = (size_t)farg < n ? farg : -1; else if (k > fidx) r = -2; }
    if (kind == ZERO && k == fidx) r = -3;
    if (kind == BUDGET && fd == budget_fd) {
        if (left <= 0) r = -2; else if ((long)n > left) { r = left; left = 0; } else left -= (long)n;
    }
    if (r != -1) { injected++; put("fault", "", "write", k); }
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    long b = before_write(fd, n);
    if (b == -2) { errno = ferrno; return -1; }
    if (b == -3) return 0;
    if (b == 0) b = 1;
    return REAL(write)(fd, buf, b > 0 ? (size_t)b : n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    long b = before_write(fd, n);
    if (b == -2) { errno = ferrno; return -1; }
    if (b == -3) return 0;
    if (b >= 0) {
        size_t w = b == 0 ? 1 : (size_t)b;
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return REAL(write)(fd, v[i].iov_base, v[i].iov_len < w ? v[i].iov_len : w);
    }
    return REAL(writev)(fd, v, c);
}
#define PW(name) ssize_t name(int fd, const void *buf, size_t n, off_t o) { \
    long b = before_write(fd, n); \
    if (b == -2) { errno = ferrno; return -1; } \
    if (b == -3) return 0; \
    if (b == 0) b = 1; \
    return REAL(name)(fd, buf, b > 0 ? (size_t)b : n, o); }
PW(pwrite)
PW(pwrite64)

ssize_t read(int fd, void *buf, size_t n) {
    init();
    if (fd >= 0 && fd < 4096 && rd[fd] && n > 0) {
        long k = nread++;
        put("read", "", "", k);
        if (kind == READ && k == fidx) { injected++; put("fault", "", "read", k); errno = ferrno; return -1; }
        if (kind == SHORTR && k >= fidx && (size_t)farg < n) { injected++; n = farg > 0 ? (size_t)farg : 1; }
    }
    return REAL(read)(fd, buf, n);
}

#define P1(name) int name(const char *a) { init(); put(#name, a, "", 0); return REAL(name)(a); }
P1(unlink)
P1(rmdir)
P1(remove)
int unlinkat(int d, const char *a, int f) { init(); put("unlinkat", a, "", d); return REAL(unlinkat)(d, a, f); }
int mkdir(const char *a, mode_t m) { init(); int r = REAL(mkdir)(a, m); int s = errno; if (r == 0) put("mkdir", a, "", 0); errno = s; return r; }
int rename(const char *a, const char *b) { init(); put("rename", a, b, 0); return REAL(rename)(a, b); }
int renameat(int d, const char *a, int e, const char *b) { init(); put("renameat", a, b, 0); return REAL(renameat)(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { init(); put("renameat2", a, b, 0); return REAL(renameat2)(d, a, e, b, f); }
int link(const char *a, const char *b) { init(); put("link", b, a, 0); return REAL(link)(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { init(); put("linkat", b, a, 0); return REAL(linkat)(d, a, e, b, f); }
int symlink(const char *a, const char *b) { init(); put("symlink", b, a, 0); return REAL(symlink)(a, b); }
int truncate(const char *a, off_t n) { init(); put("truncate", a, "", n); return REAL(truncate)(a, n); }
int truncate64(const char *a, off64_t n) { init(); put("truncate", a, "", n); return REAL(truncate64)(a, n); }
int chmod(const char *a, mode_t m) { init(); put("chmod", a, "", m); return REAL(chmod)(a, m); }
