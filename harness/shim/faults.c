/* Preloaded into the command line tool (C26): logs what it does with the files of the scratch
 * folder SV_ROOT and makes one thing go wrong, as SV_FAULT says:
 *   kill:open:J        killed right after opening the J-th file for writing
 *   kill:write:J:W     killed right after the W-th write to that file
 *   kill:report:J      killed right after the J-th report on standard output
 *   nospace:write:J:W  from the W-th write on, writing to that file fails (ENOSPC)
 *   denied:open:J      opening the J-th file for writing fails (EACCES)
 *   badread:J:W        from the W-th read on, reading the J-th file opened for reading fails (EIO)
 *   short              every write to and read from a file takes only part of what was asked for
 *   clock:S:N          every look at the clock finds it S seconds and N nanoseconds further
 *   none               nothing; the log tells how often every file was written to or read from
 *   interrupted        every other write to and read from a file is interrupted (EINTR)
 * Otherwise a write takes up to 2048 bytes.  The log (SV_LOG) tells "fired" when it went wrong. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int logfd = -1, J, W, opened, reopened, reports;
static char root[PATH_MAX], kind[32], what[32];
static struct { int n, count, out; } files[1024];
static unsigned turn;

static void note(const char *s) { if (logfd >= 0) { syscall(SYS_write, logfd, s, strlen(s)); syscall(SYS_write, logfd, "\n", 1); } }
__attribute__((constructor)) static void begin(void)
{
    const char *f = getenv("SV_FAULT"), *l = getenv("SV_LOG"), *r = getenv("SV_ROOT");
    if (!f || !l || !r) return;
    strncpy(root, r, sizeof root - 1);
    logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (sscanf(f, "badread:%d:%d", &J, &W) == 2) strcpy(kind, "badread");
    else if (sscanf(f, "clock:%d:%d", &J, &W) == 2) strcpy(kind, "clock");
    else sscanf(f, "%31[a-z]:%31[a-z]:%d:%d", kind, what, &J, &W);
    note("loaded");
}
static void die(void) { note("fired"); kill(getpid(), SIGKILL); for (;;) pause(); }

static int is(const char *k, const char *w) { return !strcmp(kind, k) && !strcmp(what, w); }
static int inside(const char *path)
{
    char full[PATH_MAX * 2], cwd[PATH_MAX];
    if (!root[0] || logfd < 0) return 0;
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else if (getcwd(cwd, sizeof cwd)) snprintf(full, sizeof full, "%s/%s", cwd, path);
    else return 0;
    return !strncmp(full, root, strlen(root));
}
static int do_open(int dir, const char *path, int flags, mode_t mode)
{
    int in = inside(path) && !(flags & O_DIRECTORY), out = (flags & O_ACCMODE) != O_RDONLY;
    if (in && out && is("denied", "open") && opened + 1 == J) { opened++; note("fired"); errno = EACCES; return -1; }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < 1024) {
        files[fd].n = 0;
        if (in) {
            files[fd].n = out ? ++opened : ++reopened;
            files[fd].out = out;
            files[fd].count = 0;
            if (out && is("kill", "open") && opened == J) die();
        }
    }
    return fd;
}
int clock_gettime(clockid_t id, struct timespec *t)
{
    static long s = 1000, n = 0;
    if (id != CLOCK_MONOTONIC || strcmp(kind, "clock")) return syscall(SYS_clock_gettime, id, t);
    s += J;
    n += W;
    if (n >= 1000000000) { n -= 1000000000; s++; }
    t->tv_sec = s;
    t->tv_nsec = n;
    return 0;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }

ssize_t write(int fd, const void *buf, size_t n)
{
    int mine = fd >= 0 && fd < 1024 && files[fd].n && files[fd].out;
    if (!mine) {
        ssize_t r = syscall(SYS_write, fd, buf, n);
        if (fd == 1 && r == (ssize_t)n && memmem(buf, n, "Watermarked ", 12)) {
            reports++;
            if (is("kill", "report") && reports == J) die();
        }
        return r;
    }
    files[fd].count++;
    if (is("nospace", "write") && files[fd].n == J && files[fd].count >= W) { note("fired"); errno = ENOSPC; return -1; }
    if (!strcmp(kind, "interrupted") && turn++ % 2 == 0) { note("fired"); errno = EINTR; return -1; }
    if (!strcmp(kind, "short") && n > 1) { note("fired"); n = (n + 1) / 2; }
    else if (n > 2048 && strcmp(kind, "interrupted")) n = 2048;
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (is("kill", "write") && files[fd].n == J && files[fd].count == W) die();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t read(int fd, void *buf, size_t n)
{
    if (fd >= 0 && fd < 1024 && files[fd].n && !files[fd].out) {
        files[fd].count++;
        if (!strcmp(kind, "badread") && files[fd].n == J && files[fd].count >= W) { note("fired"); errno = EIO; return -1; }
        if (!strcmp(kind, "interrupted") && turn++ % 2 == 0) { note("fired"); errno = EINTR; return -1; }
        if (!strcmp(kind, "short") && n > 1) { note("fired"); n = n > 200 ? 97 : (n + 1) / 2; }
    }
    return syscall(SYS_read, fd, buf, n);
}
int close(int fd)
{
    if (fd >= 0 && fd < 1024 && files[fd].n && !strcmp(kind, "none")) {
        char b[64];
        snprintf(b, sizeof b, "%s %d %d", files[fd].out ? "write" : "read", files[fd].n, files[fd].count);
        note(b);
    }
    if (fd >= 0 && fd < 1024) files[fd].n = 0;
    return syscall(SYS_close, fd);
}
