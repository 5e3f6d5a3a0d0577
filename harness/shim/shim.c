/* Preloaded into a tool under test: its reads of standard input (or of the file RZ_FILE, if that is
 * set) and writes to standard output follow the plan in RZ_PLAN, "what:at:errno:chunk":
 *   what w: the write call number at fails once; r: a read fails once when at bytes have been read;
 *        i: before each call, at + 1 are interrupted (EINTR); n: nothing fails
 *   chunk: most bytes moved per call, 0 for any number.
 * Every call is noted on the descriptor RZ_NOTE: 'w' a write, 'h' a failure. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char what = 'n';
static long at, got, calls, ticks;
static int err, chunk, note = -1, over;

static struct stat file;
static int named;

static int is_input(int fd) {
    struct stat s;
    if (!named) return fd == 0;
    return fd > 2 && fstat(fd, &s) == 0 && s.st_ino == file.st_ino && s.st_dev == file.st_dev;
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("RZ_PLAN"), *n = getenv("RZ_NOTE");
    if (p) sscanf(p, "%c:%ld:%d:%d", &what, &at, &err, &chunk);
    if (n) note = atoi(n);
    if ((p = getenv("RZ_FILE"))) named = stat(p, &file) == 0;
}

static void say(char c) {
    int e = errno;
    if (note >= 0) syscall(SYS_write, note, &c, 1);
    errno = e;
}

static ssize_t fault(int e) {
    say('h');
    errno = e;
    return -1;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (fd != 1) return syscall(SYS_write, fd, b, n);
    if (what == 'i' && ++ticks % (2 + at)) { errno = EINTR; return -1; }
    say('w');
    if (what == 'w' && ++calls == at) return fault(err);
    if (chunk && n > (size_t)chunk) n = chunk;
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd != 1) return syscall(SYS_writev, fd, v, n);
    while (n > 0 && v->iov_len == 0) v++, n--;
    return n > 0 ? write(fd, v->iov_base, v->iov_len) : 0;
}

ssize_t read(int fd, void *b, size_t n) {
    ssize_t r;
    if (!is_input(fd)) return syscall(SYS_read, fd, b, n);
    if (what == 'i' && ++ticks % (2 + at)) { errno = EINTR; return -1; }
    if (what == 'r' && !over && n > 0) {
        if (got >= at) { over = 1; return fault(err); }
        if (n > (size_t)(at - got)) n = at - got;
    }
    if (chunk && n > (size_t)chunk) n = chunk;
    r = syscall(SYS_read, fd, b, n);
    if (r > 0) got += r;
    return r;
}

ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!is_input(fd)) return syscall(SYS_readv, fd, v, n);
    while (n > 0 && v->iov_len == 0) v++, n--;
    return n > 0 ? read(fd, v->iov_base, v->iov_len) : 0;
}
