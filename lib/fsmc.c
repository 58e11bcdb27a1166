/* Interposes the calls that change files. While armed, each effect on a file below the prefix is announced on a pipe and
 * waits for an acknowledgement, so that the files can be looked at between any two effects, and in the middle of a write. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed, out_fd = -1, in_fd = -1;
static char prefix[PATH_MAX];
static size_t plen;

#define REAL(name) ((__typeof__(name) *)dlsym(RTLD_NEXT, #name))

void fsmc_arm(const char *p, int ofd, int ifd)
{
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    out_fd = ofd;
    in_fd = ifd;
    armed = 1;
}

void fsmc_disarm(void) { armed = 0; }
int fsmc_present(void) { return 1; }

static int under(const char *p)
{
    char b[PATH_MAX];
    if (!p)
        return 0;
    if (p[0] != '/') {
        if (!getcwd(b, sizeof b))
            return 0;
        strncat(b, "/", sizeof b - strlen(b) - 1);
        strncat(b, p, sizeof b - strlen(b) - 1);
        p = b;
    }
    return strncmp(p, prefix, plen) == 0;
}

static int fd_under(int fd, char *b)
{
    char l[64];
    ssize_t n;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, b, PATH_MAX - 1);
    if (n < 0)
        return 0;
    b[n] = 0;
    return strncmp(b, prefix, plen) == 0;
}

/* kind: '.' before an effect, '~' in the middle of a write */
static void point(char kind, const char *what, const char *path)
{
    char msg[PATH_MAX + 64], ack;
    int n, saved = errno, a = armed;
    armed = 0;
    n = snprintf(msg, sizeof msg, "%c %s %s\n", kind, what, path ? path : "");
    if (n > (int)sizeof msg - 1)
        n = sizeof msg - 1;
    syscall(SYS_write, out_fd, msg, n);
    while (syscall(SYS_read, in_fd, &ack, 1) < 0 && errno == EINTR)
        ;
    armed = a;
    errno = saved;
}

#define CHANGES(f) ((f) & (O_CREAT | O_TRUNC))
#define OPENF(name)                                                        \
    int name(const char *p, int flags, ...)                                \
    {                                                                      \
        mode_t m = 0;                                                      \
        if (flags & (O_CREAT | O_TMPFILE)) {                               \
            va_list a;                                                     \
            va_start(a, flags);                                            \
            m = va_arg(a, mode_t);                                         \
            va_end(a);                                                     \
        }                                                                  \
        if (armed && CHANGES(flags) && under(p))                           \
            point('.', "open", p);                                         \
        return syscall(SYS_openat, AT_FDCWD, p, flags, m);                 \
    }
OPENF(open)
OPENF(open64)
#define OPENATF(name)                                                      \
    int name(int d, const char *p, int flags, ...)                         \
    {                                                                      \
        mode_t m = 0;                                                      \
        if (flags & (O_CREAT | O_TMPFILE)) {                               \
            va_list a;                                                     \
            va_start(a, flags);                                            \
            m = va_arg(a, mode_t);                                         \
            va_end(a);                                                     \
        }                                                                  \
        if (armed && CHANGES(flags) && under(p))                           \
            point('.', "open", p);                                         \
        return syscall(SYS_openat, d, p, flags, m);                        \
    }
OPENATF(openat)
OPENATF(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *buf, size_t n)
{
    char b[PATH_MAX];
    if (armed && fd_under(fd, b)) {
        ssize_t r;
        point('.', "write", b);
        if (n > 1) {
            r = syscall(SYS_write, fd, buf, n / 2);
            if (r < 0)
                return r;
            point('~', "write", b);
            ssize_t s = syscall(SYS_write, fd, (const char *)buf + r, n - r);
            return s < 0 ? r : r + s;
        }
    }
    return syscall(SYS_write, fd, buf, n);
}

#define PWRITEF(name, type)                                                \
    ssize_t name(int fd, const void *buf, size_t n, type off)              \
    {                                                                      \
        char b[PATH_MAX];                                                  \
        if (armed && fd_under(fd, b)) {                                    \
            ssize_t r;                                                     \
            point('.', "pwrite", b);                                       \
            if (n > 1) {                                                   \
                r = syscall(SYS_pwrite64, fd, buf, n / 2, off);            \
                if (r < 0)                                                 \
                    return r;                                              \
                point('~', "pwrite", b);                                   \
                ssize_t s = syscall(SYS_pwrite64, fd, (const char *)buf + r, n - r, off + r); \
                return s < 0 ? r : r + s;                                  \
            }                                                              \
        }                                                                  \
        return syscall(SYS_pwrite64, fd, buf, n, off);                     \
    }
PWRITEF(pwrite, off_t)
PWRITEF(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *v, int c)
{
    char b[PATH_MAX];
    if (armed && fd_under(fd, b))
        point('.', "writev", b);
    return syscall(SYS_writev, fd, v, c);
}

ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    char b[PATH_MAX];
    if (armed && fd_under(o, b)) {
        struct stat st;
        size_t half;
        point('.', "sendfile", b);
        if (!fstat(i, &st) && (half = (st.st_size < (off_t)n ? (size_t)st.st_size : n) / 2) > 0) {
            /* the caller goes on after a short count */
            ssize_t r = syscall(SYS_sendfile, o, i, off, half);
            point('~', "sendfile", b);
            return r;
        }
    }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
    char b[PATH_MAX];
    if (armed && fd_under(o, b))
        point('.', "copy_file_range", b);
    return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}
int ftruncate(int fd, off_t n)
{
    char b[PATH_MAX];
    if (armed && fd_under(fd, b))
        point('.', "ftruncate", b);
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n)
{
    if (armed && under(p))
        point('.', "truncate", p);
    return syscall(SYS_truncate, p, n);
}
int rename(const char *a, const char *b)
{
    if (armed && (under(a) || under(b)))
        point('.', "rename", b);
    return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int renameat(int d, const char *a, int e, const char *b)
{
    if (armed && (under(a) || under(b)))
        point('.', "rename", b);
    return syscall(SYS_renameat2, d, a, e, b, 0);
}
int unlink(const char *p)
{
    if (armed && under(p))
        point('.', "unlink", p);
    return syscall(SYS_unlinkat, AT_FDCWD, p, 0);
}
int unlinkat(int d, const char *p, int f)
{
    if (armed && under(p))
        point('.', "unlink", p);
    return syscall(SYS_unlinkat, d, p, f);
}
int rmdir(const char *p)
{
    if (armed && under(p))
        point('.', "rmdir", p);
    return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
}
int mkdir(const char *p, mode_t m)
{
    if (armed && under(p))
        point('.', "mkdir", p);
    return syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int mkdirat(int d, const char *p, mode_t m)
{
    if (armed && under(p))
        point('.', "mkdir", p);
    return syscall(SYS_mkdirat, d, p, m);
}
int link(const char *a, const char *b)
{
    if (armed && under(b))
        point('.', "link", b);
    return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int symlink(const char *a, const char *b)
{
    if (armed && under(b))
        point('.', "symlink", b);
    return syscall(SYS_symlinkat, a, AT_FDCWD, b);
}
