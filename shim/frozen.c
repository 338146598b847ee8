/* Everything a process could take for random but an observer can know: the
 * clocks stand still and every process has the same ids. Only the kernel's
 * entropy still differs between two processes under this shim. */
#define _GNU_SOURCE
#include <stddef.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>

static const time_t NOW = 1790000000;

int clock_gettime(clockid_t clock, struct timespec *out) {
    (void) clock;
    if (out) {
        out->tv_sec = NOW;
        out->tv_nsec = 123456789;
    }
    return 0;
}

int gettimeofday(struct timeval *restrict out, void *restrict zone) {
    (void) zone;
    if (out) {
        out->tv_sec = NOW;
        out->tv_usec = 123456;
    }
    return 0;
}

time_t time(time_t *out) {
    if (out) *out = NOW;
    return NOW;
}

clock_t clock(void) { return 1000; }
pid_t getpid(void) { return 4242; }
pid_t getppid(void) { return 4241; }
pid_t gettid(void) { return 4242; }
