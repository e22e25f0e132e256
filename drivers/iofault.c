/* LD_PRELOAD monitor of file operations: every operation that concerns a path outside /usr, /lib, /proc, /dev, /etc
   is logged as "N kind result path" to $VF_LOG (append) and the VF_FAIL-th of them fails with errno VF_ERRNO.
   kinds: mkdir, wopen (open for writing), ropen (open for reading), write, read, rename, unlink, other */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int logfd = -1, init_done = 0;
static long failAt = -1, n = 0;
static int failErrno = EIO, shortWrite = 0;
#define MAXFD 4096
static char kind_of[MAXFD];          /* 'w' or 'r' of tracked descriptors */
static char path_of[MAXFD][256];

static void init(void)
{
    if (init_done) { return; }
    init_done = 1;
    const char* l = getenv("VF_LOG");
    if (l) { logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); }
    const char* f = getenv("VF_FAIL");
    if (f) { failAt = atol(f); }
    f = getenv("VF_ERRNO");
    if (f) { failErrno = atoi(f); }
    f = getenv("VF_SHORT");
    if (f) { shortWrite = atoi(f); }
}

static int skipped(const char* p)
{
    static const char* Sys[] = {"/usr/", "/lib", "/proc/", "/dev/", "/etc/", "/sys/", "/opt/", NULL};
    if (!p || logfd < 0) { return 1; }
    for (int i = 0; Sys[i]; ++i) { if (strncmp(p, Sys[i], strlen(Sys[i])) == 0) { return 1; } }
    return 0;
}

/* 1: this operation has to fail */
static int note(const char* kind, const char* path)
{
    char buf[600];
    long k = ++n;
    int fail = (k == failAt);
    int len = snprintf(buf, sizeof(buf), "%ld\t%s\t%d\t%s\n", k, kind, fail, path);
    if (len > (int)sizeof(buf)) { len = sizeof(buf); buf[len - 1] = '\n'; }
    syscall(SYS_write, logfd, buf, (size_t)len);
    return fail;
}

static void track(int fd, char k, const char* p)
{
    if (fd >= 0 && fd < MAXFD) { kind_of[fd] = k; snprintf(path_of[fd], sizeof(path_of[fd]), "%s", p); }
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = NULL; if (!real) { real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name); } init()

static int wr(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }

#define OPEN_BODY(dirfd_ok, call) \
    int sk = skipped(path); \
    int w = wr(flags); \
    if (!sk && note(w ? "wopen" : "ropen", path)) { errno = failErrno; return -1; } \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int fd = call; \
    if (!sk) { track(fd, w ? 'w' : 'r', path); } else if (fd >= 0 && fd < MAXFD) { kind_of[fd] = 0; } \
    return fd;

int open(const char* path, int flags, ...) { REAL(int, "open", const char*, int, ...); OPEN_BODY(1, real(path, flags, mode)) }
int open64(const char* path, int flags, ...) { REAL(int, "open64", const char*, int, ...); OPEN_BODY(1, real(path, flags, mode)) }
int openat(int d, const char* path, int flags, ...) { REAL(int, "openat", int, const char*, int, ...); OPEN_BODY(1, real(d, path, flags, mode)) }
int openat64(int d, const char* path, int flags, ...) { REAL(int, "openat64", int, const char*, int, ...); OPEN_BODY(1, real(d, path, flags, mode)) }
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define FOPEN_BODY \
    int sk = skipped(path); \
    int w = strpbrk(mode, "wa+") != NULL; \
    if (!sk && note(w ? "wopen" : "ropen", path)) { errno = failErrno; return NULL; } \
    FILE* f = real(path, mode); \
    if (f) { if (!sk) { track(fileno(f), w ? 'w' : 'r', path); } else if (fileno(f) < MAXFD) { kind_of[fileno(f)] = 0; } } \
    return f;

FILE* fopen(const char* path, const char* mode) { REAL(FILE*, "fopen", const char*, const char*); FOPEN_BODY }
FILE* fopen64(const char* path, const char* mode) { REAL(FILE*, "fopen64", const char*, const char*); FOPEN_BODY }

ssize_t write(int fd, const void* b, size_t c)
{
    REAL(ssize_t, "write", int, const void*, size_t);
    if (fd > 2 && fd < MAXFD && kind_of[fd] == 'w' && note("write", path_of[fd])) {
        if (shortWrite && c > 1) { real(fd, b, c / 2); }
        errno = failErrno; return -1;
    }
    return real(fd, b, c);
}

ssize_t writev(int fd, const struct iovec* v, int c)
{
    REAL(ssize_t, "writev", int, const struct iovec*, int);
    if (fd > 2 && fd < MAXFD && kind_of[fd] == 'w' && note("write", path_of[fd])) { errno = failErrno; return -1; }
    return real(fd, v, c);
}

ssize_t read(int fd, void* b, size_t c)
{
    REAL(ssize_t, "read", int, void*, size_t);
    if (fd > 2 && fd < MAXFD && kind_of[fd] && note("read", path_of[fd])) { errno = failErrno; return -1; }
    return real(fd, b, c);
}

ssize_t sendfile(int out, int in, off_t* o, size_t c)
{
    REAL(ssize_t, "sendfile", int, int, off_t*, size_t);
    if (out > 2 && out < MAXFD && kind_of[out] == 'w' && note("write", path_of[out])) { errno = failErrno; return -1; }
    return real(out, in, o, c);
}

ssize_t sendfile64(int out, int in, off_t* o, size_t c)
{
    REAL(ssize_t, "sendfile64", int, int, off_t*, size_t);
    if (out > 2 && out < MAXFD && kind_of[out] == 'w' && note("write", path_of[out])) { errno = failErrno; return -1; }
    return real(out, in, o, c);
}

ssize_t copy_file_range(int in, off_t* oi, int out, off_t* oo, size_t c, unsigned fl)
{
    REAL(ssize_t, "copy_file_range", int, off_t*, int, off_t*, size_t, unsigned);
    if (out > 2 && out < MAXFD && kind_of[out] == 'w' && note("write", path_of[out])) { errno = failErrno; return -1; }
    return real(in, oi, out, oo, c, fl);
}

int mkdir(const char* path, mode_t m)
{
    REAL(int, "mkdir", const char*, mode_t);
    if (!skipped(path) && note("mkdir", path)) { errno = failErrno; return -1; }
    return real(path, m);
}

int mkdirat(int d, const char* path, mode_t m)
{
    REAL(int, "mkdirat", int, const char*, mode_t);
    if (!skipped(path) && note("mkdir", path)) { errno = failErrno; return -1; }
    return real(d, path, m);
}

#define PATH1(name, kind) int name(const char* path) { REAL(int, #name, const char*); if (!skipped(path) && note(kind, path)) { errno = failErrno; return -1; } return real(path); }
#define PATH2(name, kind) int name(const char* a, const char* b) { REAL(int, #name, const char*, const char*); if (!skipped(b)) { note(kind, a); if (note(kind, b)) { errno = failErrno; return -1; } } return real(a, b); }
PATH1(unlink, "unlink")
PATH1(remove, "unlink")
PATH1(rmdir, "unlink")
PATH2(rename, "rename")
PATH2(link, "link")
PATH2(symlink, "link")
int unlinkat(int d, const char* path, int f) { REAL(int, "unlinkat", int, const char*, int); if (!skipped(path) && note("unlink", path)) { errno = failErrno; return -1; } return real(d, path, f); }
int truncate(const char* path, off_t l) { REAL(int, "truncate", const char*, off_t); if (!skipped(path) && note("truncate", path)) { errno = failErrno; return -1; } return real(path, l); }
int chmod(const char* path, mode_t m) { REAL(int, "chmod", const char*, mode_t); if (!skipped(path)) { note("chmod", path); } return real(path, m); }
