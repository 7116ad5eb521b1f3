/* Preloaded into the program: makes calls fail, end early or be interrupted as the environment says.
   VF_WRITE, VF_READ, VF_OPEN, VF_LIST: one letter per call on standard output, per read of and per
   opening of a regular file, and per listing of a directory, below VF_DIR: . nothing, i interrupted, s one byte, h half, e input/output error, n no
   space, a try again, d denied, m and f too many files, p broken pipe, b file too big, q quota, v invalid,
   o no such file, l loop of links, k no memory, t timed out, z nothing written. After the last letter nothing happens.
   What happened is appended to VF_LOG.
   VF_TIME: the current time, in seconds since 1970. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int now(time_t *t) {
    const char *v = getenv("VF_TIME");
    if (!v || !*v) return 0;
    *t = strtoll(v, NULL, 10);
    return 1;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && now(&t->tv_sec)) {
        t->tv_nsec = 0;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval *t, void *z) {
    if (now(&t->tv_sec)) {
        t->tv_usec = 0;
        return 0;
    }
    return syscall(SYS_gettimeofday, t, z);
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
static char next_op(const char *var) {
    static const char *names[4];
    static size_t at[4];
    int k = var[3] == 'W' ? 0 : var[3] == 'R' ? 1 : var[3] == 'O' ? 2 : 3;
    if (!names[k]) names[k] = getenv(var) ? getenv(var) : "";
    if (at[k] >= strlen(names[k])) return '.';
    char c = names[k][at[k]++];
    if (c != '.' && getenv("VF_LOG")) {
        int f = syscall(SYS_openat, AT_FDCWD, getenv("VF_LOG"), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
        if (f >= 0) {
            char b[2] = {var[3], c};
            syscall(SYS_write, f, b, 2);
            syscall(SYS_close, f);
        }
    }
    return c;
}
static int fails(char c) {
    switch (c) {
    case 'i': errno = EINTR; return 1;
    case 'e': errno = EIO; return 1;
    case 'n': errno = ENOSPC; return 1;
    case 'a': errno = EAGAIN; return 1;
    case 'd': errno = EACCES; return 1;
    case 'm': errno = EMFILE; return 1;
    case 'f': errno = ENFILE; return 1;
    case 'p': errno = EPIPE; return 1;
    case 'b': errno = EFBIG; return 1;
    case 'q': errno = EDQUOT; return 1;
    case 'v': errno = EINVAL; return 1;
    case 'o': errno = ENOENT; return 1;
    case 'l': errno = ELOOP; return 1;
    case 'k': errno = ENOMEM; return 1;
    case 't': errno = ETIMEDOUT; return 1;
    }
    return 0;
}
static size_t part(char c, size_t n) {
    if (n > 1 && c == 's') return 1;
    if (n > 1 && c == 'h') return n / 2;
    return n;
}
static int ours(const char *path) {
    const char *d = getenv("VF_DIR");
    return d && strncmp(path, d, strlen(d)) == 0;
}
static int our_file(int fd) {
    struct stat st;
    char link[64], to[PATH_MAX + 1];
    if (fd < 3 || fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, to, PATH_MAX);
    if (n < 0) return 0;
    to[n] = 0;
    return ours(to);
}
ssize_t write(int fd, const void *b, size_t n) {
    char c = fd == 1 ? next_op("VF_WRITE") : '.';
    if (fails(c)) return -1;
    if (c == 'z') return 0;
    return syscall(SYS_write, fd, b, part(c, n));
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    char c = fd == 1 ? next_op("VF_WRITE") : '.';
    if (fails(c)) return -1;
    if (c != '.' && k > 0) return syscall(SYS_write, fd, v[0].iov_base, part(c, v[0].iov_len));
    return syscall(SYS_writev, fd, v, k);
}
ssize_t read(int fd, void *b, size_t n) {
    char c = our_file(fd) ? next_op("VF_READ") : '.';
    if (fails(c)) return -1;
    return syscall(SYS_read, fd, b, part(c, n));
}
static int opened(int dir, const char *path, int flags, mode_t mode) {
    struct stat st;
    char to[PATH_MAX];
    if (!(flags & O_DIRECTORY) && realpath(path, to) && ours(to) && stat(to, &st) == 0 && S_ISREG(st.st_mode)) {
        char c = next_op("VF_OPEN");
        if (fails(c)) return -1;
    }
    return syscall(SYS_openat, dir, path, flags, mode);
}
#define MODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE(flags) return opened(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return opened(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return opened(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return opened(d, p, flags, mode); }
DIR *opendir(const char *p) {
    static DIR *(*real)(const char *);
    char to[PATH_MAX];
    if (!real) real = dlsym(RTLD_NEXT, "opendir");
    if (realpath(p, to) && ours(to) && fails(next_op("VF_LIST"))) return NULL;
    return real(p);
}
