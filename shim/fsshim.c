/* File-system shim for the monitors: counts, delays, fails or cuts short the
 * file-system calls a process makes under one folder. Loaded with LD_PRELOAD
 * into the harness only, and idle until the harness configures it.
 *
 * mode 0  off
 * mode 1  count
 * mode 2  crash: the process ends at the n-th changing call
 *         (arg 0: before it, 1: after it, 2: in the middle of a write)
 * mode 3  fault: the n-th call (changing or not) fails once with errno err
 *         (arg 1: a write first does half of its work, the next one fails)
 * mode 4  lasting fault: from the n-th call on, calls that need new space or
 *         descriptors fail with err, for arg calls (0: until switched off)
 * mode 6  the n-th call fails with errno err, then the process ends at the
 *         seed-th changing call after it, in the way of mode 2
 * mode 5  delays: n per mille of the calls sleep up to arg microseconds
 *         before and after
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define FDS 65536

static char root[4096];
static size_t root_len;
static volatile int mode;
static long target, arg_n, fault_changes;
static int fault_errno;
static volatile unsigned long seed_base;
static unsigned char mine[FDS];

static long calls, changes, done_changes, fired;
static char fired_name[32];
static int fail_next_fd = -1;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static __thread unsigned long rng_state;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

/* ---------------------------------------------------------- configuration */

void hvshim_root(const char *path) {
    pthread_mutex_lock(&lock);
    strncpy(root, path, sizeof root - 1);
    root_len = strlen(root);
    pthread_mutex_unlock(&lock);
}

void hvshim_set(int m, long n, int err, long arg, unsigned long seed) {
    pthread_mutex_lock(&lock);
    mode = 0;
    target = n; fault_errno = err; arg_n = arg; seed_base = seed;
    calls = changes = done_changes = fired = 0;
    fired_name[0] = 0;
    fail_next_fd = -1;
    mode = m;
    pthread_mutex_unlock(&lock);
}

/* 0 calls, 1 changing calls, 2 changing calls that succeeded, 3 fired */
long hvshim_get(int what) {
    pthread_mutex_lock(&lock);
    long out = what == 0 ? calls : what == 1 ? changes : what == 2 ? done_changes : fired;
    pthread_mutex_unlock(&lock);
    return out;
}

void hvshim_fired_name(char *out, size_t n) {
    pthread_mutex_lock(&lock);
    strncpy(out, fired_name, n - 1);
    out[n - 1] = 0;
    pthread_mutex_unlock(&lock);
}

/* ----------------------------------------------------------------- policy */

static int under(const char *path) {
    return mode && path && root_len && strncmp(path, root, root_len) == 0
        && (path[root_len] == '/' || path[root_len] == 0);
}

static int under_at(int dir, const char *path) {
    if (!mode || !path) return 0;
    if (path[0] == '/') return under(path);
    return dir >= 0 && dir < FDS && mine[dir];
}

static int under_fd(int fd) { return mode && fd >= 0 && fd < FDS && mine[fd]; }

static unsigned long rnd(void) {
    if (!rng_state) rng_state = (seed_base + 1) * 0x9E3779B97F4A7C15ul ^ ((unsigned long)syscall(SYS_gettid) << 20) ^ 1;
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    return rng_state;
}

static void nap(void) {
    if (mode != 5 || (long)(rnd() % 1000) >= target) return;
    long us = arg_n ? (long)(rnd() % (unsigned long)arg_n) : 0;
    struct timespec t = { us / 1000000, (us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &t, NULL);
}

enum { CHANGE = 1, SPACE = 2 };
enum { GO, FAIL, HALF, CRASH_AFTER, CRASH_HALF };

static void die(void) { syscall(SYS_exit_group, 77); }

static void note(const char *name) {
    fired++;
    strncpy(fired_name, name, sizeof fired_name - 1);
}

/* Decide what happens to this call. */
static int enter(const char *name, int flags, int fd) {
    int out = GO;
    if (mode == 5) { nap(); pthread_mutex_lock(&lock); calls++; if (flags & CHANGE) changes++; pthread_mutex_unlock(&lock); return GO; }
    pthread_mutex_lock(&lock);
    calls++;
    if (flags & CHANGE) changes++;
    switch (mode) {
    case 6:
        if (calls == target) { note(name); fault_changes = changes; out = FAIL; }
        else if (calls > target && (flags & CHANGE) && changes == fault_changes + (long)seed_base) {
            if (arg_n == 0) die();
            out = arg_n == 2 ? CRASH_HALF : CRASH_AFTER;
        }
        break;
    case 2:
        if ((flags & CHANGE) && changes == target) {
            note(name);
            if (arg_n == 0) die();
            out = arg_n == 2 ? CRASH_HALF : CRASH_AFTER;
        }
        break;
    case 3:
        if (fail_next_fd >= 0 && fail_next_fd == fd) { fail_next_fd = -1; out = FAIL; }
        else if (calls == target) {
            note(name);
            out = arg_n == 1 && strcmp(name, "write") == 0 ? HALF : FAIL;
        }
        break;
    case 4:
        if (calls >= target && (flags & SPACE) && (arg_n == 0 || fired < arg_n)) { note(name); out = FAIL; }
        break;
    }
    pthread_mutex_unlock(&lock);
    if (out == FAIL) errno = fault_errno;
    return out;
}

static void leave(int verdict, int flags, int ok) {
    int saved = errno;
    if (verdict == CRASH_AFTER || verdict == CRASH_HALF) die();
    if (ok && (flags & CHANGE)) {
        pthread_mutex_lock(&lock);
        done_changes++;
        pthread_mutex_unlock(&lock);
    }
    if (mode == 5) nap();
    errno = saved;
}

static void own(int fd, int yes) { if (fd >= 0 && fd < FDS) mine[fd] = (unsigned char)yes; }

/* ------------------------------------------------------------------ calls */

static int open_flags(int flags) {
    return ((flags & (O_CREAT | O_TRUNC)) ? CHANGE | SPACE : 0);
}

#define OPEN(NAME) \
int NAME(const char *path, int flags, ...) { \
    REAL(int, #NAME, const char *, int, ...); \
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); \
    if (!under(path)) return real(path, flags, m); \
    int k = open_flags(flags), v = enter("open", k, -1); \
    if (v == FAIL) return -1; \
    int fd = real(path, flags, m); \
    own(fd, 1); \
    leave(v, k, fd >= 0); \
    return fd; \
}
OPEN(open)
OPEN(open64)

#define OPENAT(NAME) \
int NAME(int dir, const char *path, int flags, ...) { \
    REAL(int, #NAME, int, const char *, int, ...); \
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); \
    if (!under_at(dir, path)) return real(dir, path, flags, m); \
    int k = open_flags(flags), v = enter("open", k, -1); \
    if (v == FAIL) return -1; \
    int fd = real(dir, path, flags, m); \
    own(fd, 1); \
    leave(v, k, fd >= 0); \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)

int close(int fd) {
    REAL(int, "close", int);
    if (fd >= 0 && fd < FDS) mine[fd] = 0;
    return real(fd);
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!under_fd(fd)) return real(fd, buf, n);
    int v = enter("write", CHANGE | SPACE, fd);
    if (v == FAIL) return -1;
    if ((v == HALF || v == CRASH_HALF) && n > 1) {
        ssize_t r = real(fd, buf, n / 2);
        if (v == HALF) { pthread_mutex_lock(&lock); fail_next_fd = fd; pthread_mutex_unlock(&lock); }
        leave(v, CHANGE, r > 0);
        return r;
    }
    ssize_t r = real(fd, buf, n);
    leave(v, CHANGE, r > 0);
    return r;
}

#define PWRITE(NAME, OFF) \
ssize_t NAME(int fd, const void *buf, size_t n, OFF off) { \
    REAL(ssize_t, #NAME, int, const void *, size_t, OFF); \
    if (!under_fd(fd)) return real(fd, buf, n, off); \
    int v = enter("write", CHANGE | SPACE, fd); \
    if (v == FAIL) return -1; \
    ssize_t r = real(fd, buf, (v == HALF || v == CRASH_HALF) && n > 1 ? n / 2 : n, off); \
    if (v == HALF) { pthread_mutex_lock(&lock); fail_next_fd = fd; pthread_mutex_unlock(&lock); } \
    leave(v, CHANGE, r > 0); \
    return r; \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *iov, int n) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!under_fd(fd)) return real(fd, iov, n);
    int v = enter("write", CHANGE | SPACE, fd);
    if (v == FAIL) return -1;
    ssize_t r = real(fd, iov, (v == HALF || v == CRASH_HALF) && n > 1 ? n / 2 : n);
    if (v == HALF) { pthread_mutex_lock(&lock); fail_next_fd = fd; pthread_mutex_unlock(&lock); }
    leave(v, CHANGE, r > 0);
    return r;
}

ssize_t copy_file_range(int in, off64_t *ioff, int out, off64_t *ooff, size_t n, unsigned flags) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!under_fd(out)) return real(in, ioff, out, ooff, n, flags);
    int v = enter("write", CHANGE | SPACE, out);
    if (v == FAIL) return -1;
    ssize_t r = real(in, ioff, out, ooff, n, flags);
    leave(v, CHANGE, r > 0);
    return r;
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (!under_fd(out)) return real(out, in, off, n);
    int v = enter("write", CHANGE | SPACE, out);
    if (v == FAIL) return -1;
    ssize_t r = real(out, in, off, n);
    leave(v, CHANGE, r > 0);
    return r;
}

ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (!under_fd(fd)) return real(fd, buf, n);
    int v = enter("read", 0, fd);
    if (v == FAIL) return -1;
    ssize_t r = real(fd, buf, n);
    leave(v, 0, r >= 0);
    return r;
}

#define PATH1(NAME, LABEL, FLAGS) \
int NAME(const char *path) { \
    REAL(int, #NAME, const char *); \
    if (!under(path)) return real(path); \
    int v = enter(LABEL, FLAGS, -1); \
    if (v == FAIL) return -1; \
    int r = real(path); \
    leave(v, FLAGS, r == 0); \
    return r; \
}
PATH1(unlink, "unlink", CHANGE)
PATH1(rmdir, "rmdir", CHANGE)
PATH1(remove, "remove", CHANGE)

int unlinkat(int dir, const char *path, int flags) {
    REAL(int, "unlinkat", int, const char *, int);
    if (!under_at(dir, path)) return real(dir, path, flags);
    int v = enter("unlink", CHANGE, -1);
    if (v == FAIL) return -1;
    int r = real(dir, path, flags);
    leave(v, CHANGE, r == 0);
    return r;
}

int mkdir(const char *path, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (!under(path)) return real(path, m);
    int v = enter("mkdir", CHANGE | SPACE, -1);
    if (v == FAIL) return -1;
    int r = real(path, m);
    leave(v, CHANGE, r == 0);
    return r;
}

#define PATH2(NAME, LABEL) \
int NAME(const char *from, const char *to) { \
    REAL(int, #NAME, const char *, const char *); \
    if (!under(from) && !under(to)) return real(from, to); \
    int v = enter(LABEL, CHANGE | SPACE, -1); \
    if (v == FAIL) return -1; \
    int r = real(from, to); \
    leave(v, CHANGE, r == 0); \
    return r; \
}
PATH2(rename, "rename")
PATH2(link, "link")
PATH2(symlink, "symlink")

int renameat(int d1, const char *from, int d2, const char *to) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if (!under_at(d1, from) && !under_at(d2, to)) return real(d1, from, d2, to);
    int v = enter("rename", CHANGE | SPACE, -1);
    if (v == FAIL) return -1;
    int r = real(d1, from, d2, to);
    leave(v, CHANGE, r == 0);
    return r;
}

int renameat2(int d1, const char *from, int d2, const char *to, unsigned flags) {
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if (!under_at(d1, from) && !under_at(d2, to)) return real(d1, from, d2, to, flags);
    int v = enter("rename", CHANGE | SPACE, -1);
    if (v == FAIL) return -1;
    int r = real(d1, from, d2, to, flags);
    leave(v, CHANGE, r == 0);
    return r;
}

int linkat(int d1, const char *from, int d2, const char *to, int flags) {
    REAL(int, "linkat", int, const char *, int, const char *, int);
    if (!under_at(d1, from) && !under_at(d2, to)) return real(d1, from, d2, to, flags);
    int v = enter("link", CHANGE | SPACE, -1);
    if (v == FAIL) return -1;
    int r = real(d1, from, d2, to, flags);
    leave(v, CHANGE, r == 0);
    return r;
}

#define FTRUNC(NAME, OFF) \
int NAME(int fd, OFF n) { \
    REAL(int, #NAME, int, OFF); \
    if (!under_fd(fd)) return real(fd, n); \
    int v = enter("ftruncate", CHANGE, fd); \
    if (v == FAIL) return -1; \
    int r = real(fd, n); \
    leave(v, CHANGE, r == 0); \
    return r; \
}
FTRUNC(ftruncate, off_t)
FTRUNC(ftruncate64, off64_t)

#define SYNC(NAME) \
int NAME(int fd) { \
    REAL(int, #NAME, int); \
    if (!under_fd(fd)) return real(fd); \
    int v = enter("sync", 0, fd); \
    if (v == FAIL) return -1; \
    int r = real(fd); \
    leave(v, 0, r == 0); \
    return r; \
}
SYNC(fsync)
SYNC(fdatasync)

int statx(int dir, const char *path, int flags, unsigned mask, struct statx *out) {
    REAL(int, "statx", int, const char *, int, unsigned, struct statx *);
    int in = path && path[0] ? under_at(dir, path) : 0; /* not fstat: sizes are hints */
    if (!in) {
        if (mode == 5 && under_fd(dir)) nap();
        return real(dir, path, flags, mask, out);
    }
    int v = enter("stat", 0, -1);
    if (v == FAIL) return -1;
    int r = real(dir, path, flags, mask, out);
    leave(v, 0, r == 0);
    return r;
}

DIR *opendir(const char *path) {
    REAL(DIR *, "opendir", const char *);
    if (!under(path)) return real(path);
    int v = enter("opendir", 0, -1);
    if (v == FAIL) return NULL;
    DIR *d = real(path);
    if (d) own(dirfd(d), 1);
    leave(v, 0, d != NULL);
    return d;
}

int closedir(DIR *d) {
    REAL(int, "closedir", DIR *);
    if (d) own(dirfd(d), 0);
    return real(d);
}

struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, "readdir64", DIR *);
    if (!d || !under_fd(dirfd(d))) return real(d);
    int v = enter("readdir", 0, -1);
    if (v == FAIL) return NULL;
    errno = 0;
    struct dirent64 *e = real(d);
    leave(v, 0, e != NULL || errno == 0);
    return e;
}
