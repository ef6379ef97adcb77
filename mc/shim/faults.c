/* LD_PRELOAD: makes chosen file operations of the program fail, or do less than asked for.
 *
 * MC_FAULT_LOG   one letter per counted operation is appended to this file
 * MC_FAULTS      space separated plan: <letter><number>=<what>, e.g. "W3=28 W5=s1"
 *     W write   O open for writing   M mkdir    of paths with MC_FAULT_W in them
 *     R read    N open for reading              of paths with MC_FAULT_R in them
 *   numbers count from 1; what is an errno, s<bytes> for a short one, or h for half of it
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int counts[256];
static int off; /* nothing is looked at while this is set */

static const char *var(const char *n) { const char *v = getenv(n); return v ? v : ""; }

static int wanted(const char *path, const char *name)
{
    const char *v = var(name);
    if (!path || !*v)
        return 0;
    char buf[256];
    strncpy(buf, v, sizeof buf - 1);
    buf[sizeof buf - 1] = 0;
    for (char *p = strtok(buf, ":"); p; p = strtok(NULL, ":"))
        if (strstr(path, p))
            return 1;
    return 0;
}

static int fd_wanted(int fd, const char *name)
{
    char link[64], path[4096];
    if (fd <= 2)
        return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, link, path, sizeof path - 1);
    if (n <= 0)
        return 0;
    path[n] = 0;
    return wanted(path, name);
}

/* count it; 0: nothing special, <0: fail with -errno, >0: at most this many bytes */
static long fault(char letter, size_t len)
{
    int k = ++counts[(unsigned char)letter];
    const char *log = var("MC_FAULT_LOG");
    if (*log) {
        int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
        if (fd >= 0) {
            syscall(SYS_write, fd, &letter, 1);
            syscall(SYS_close, fd);
        }
    }
    char want[32];
    int n = snprintf(want, sizeof want, "%c%d=", letter, k);
    for (const char *p = var("MC_FAULTS"); *p;) {
        while (*p == ' ')
            p++;
        if (!strncmp(p, want, n)) {
            p += n;
            if (*p == 's') {
                long m = atol(p + 1);
                return m < (long)len ? m : 0;
            }
            if (*p == 'h')
                return len > 1 ? (long)len / 2 : 0;
            return -atol(p);
        }
        while (*p && *p != ' ')
            p++;
    }
    return 0;
}

#define NEXT(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })
#define APPLY(letter, fd, buf, len, which)                    \
    if (!off && fd_wanted(fd, which)) {                       \
        long x = fault(letter, len);                          \
        if (x < 0) {                                          \
            errno = -x;                                       \
            return -1;                                        \
        }                                                     \
        if (x > 0)                                            \
            len = x;                                          \
    }

ssize_t write(int fd, const void *buf, size_t len)
{
    APPLY('W', fd, buf, len, "MC_FAULT_W")
    return NEXT(write)(fd, buf, len);
}

ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t at)
{
    APPLY('W', fd, buf, len, "MC_FAULT_W")
    return NEXT(pwrite64)(fd, buf, len, at);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!off && fd_wanted(fd, "MC_FAULT_W")) {
        size_t len = 0;
        for (int i = 0; i < n; i++)
            len += v[i].iov_len;
        long x = fault('W', len);
        if (x < 0) {
            errno = -x;
            return -1;
        }
        if (x > 0) {
            /* only what is in the first one that isn't empty, cut */
            for (int i = 0; i < n; i++)
                if (v[i].iov_len)
                    return NEXT(write) ? syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len < (size_t)x ? v[i].iov_len : (size_t)x) : -1;
        }
    }
    return NEXT(writev)(fd, v, n);
}

ssize_t read(int fd, void *buf, size_t len)
{
    APPLY('R', fd, buf, len, "MC_FAULT_R")
    return NEXT(read)(fd, buf, len);
}

ssize_t pread64(int fd, void *buf, size_t len, off64_t at)
{
    APPLY('R', fd, buf, len, "MC_FAULT_R")
    return NEXT(pread64)(fd, buf, len, at);
}

static int open_fault(const char *path, int flags)
{
    if (off)
        return 0;
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    if (w ? wanted(path, "MC_FAULT_W") : wanted(path, "MC_FAULT_R")) {
        long x = fault(w ? 'O' : 'N', 0);
        if (x < 0) {
            errno = -x;
            return 1;
        }
    }
    return 0;
}

#define OPEN(name)                                            \
    int name(const char *path, int flags, ...)                \
    {                                                         \
        va_list ap;                                           \
        va_start(ap, flags);                                  \
        mode_t mode = va_arg(ap, mode_t);                     \
        va_end(ap);                                           \
        if (open_fault(path, flags))                          \
            return -1;                                        \
        return NEXT(name)(path, flags, mode);                 \
    }
#define OPENAT(name)                                          \
    int name(int dir, const char *path, int flags, ...)       \
    {                                                         \
        va_list ap;                                           \
        va_start(ap, flags);                                  \
        mode_t mode = va_arg(ap, mode_t);                     \
        va_end(ap);                                           \
        if (open_fault(path, flags))                          \
            return -1;                                        \
        return NEXT(name)(dir, path, flags, mode);            \
    }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)

int mkdir(const char *path, mode_t mode)
{
    if (!off && wanted(path, "MC_FAULT_W")) {
        long x = fault('M', 0);
        if (x < 0) {
            errno = -x;
            return -1;
        }
    }
    return NEXT(mkdir)(path, mode);
}
