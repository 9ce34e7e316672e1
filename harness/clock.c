// Loaded into the command: its time runs CLOCK_SCALE times as fast as the machine's.
// Sleeps and timed waits are shortened, clocks read accordingly.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef __int128 big;
static long scale = 1;
static struct timespec base[2];

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

__attribute__((constructor)) static void start(void) {
    const char *s = getenv("CLOCK_SCALE");
    if (s) scale = atol(s);
    raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&base[0], 0, 0, 0, 0);
    raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&base[1], 0, 0, 0, 0);
}

static big ns(const struct timespec *t) { return (big)t->tv_sec * 1000000000 + t->tv_nsec; }
static struct timespec of(big n) {
    struct timespec t;
    if (n < 0) n = 0;
    big s = n / 1000000000;
    if (s > INT64_MAX / 4) s = INT64_MAX / 4;
    t.tv_sec = (time_t)s;
    t.tv_nsec = (long)(n % 1000000000);
    return t;
}
static int kind(clockid_t c) {
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) return 0;
    if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME) return 1;
    return -1;
}
// the machine's time at which the command's clock shows t
static struct timespec real(clockid_t c, const struct timespec *t) {
    int k = kind(c);
    if (k < 0) return *t;
    big b = ns(&base[k]);
    return of(b + (ns(t) - b) / scale);
}
static struct timespec shorter(const struct timespec *t) { return of((ns(t) + scale - 1) / scale); }

int clock_gettime(clockid_t c, struct timespec *t) {
    long r = raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    int k = kind(c);
    if (k >= 0) {
        big b = ns(&base[k]);
        *t = of(b + (ns(t) - b) * scale);
    }
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
    struct timespec s = (flags & TIMER_ABSTIME) ? real(c, t) : shorter(t);
    return -raw(SYS_clock_nanosleep, c, flags, (long)&s, (long)rem, 0, 0);
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    struct timespec s = shorter(t);
    long r = raw(SYS_nanosleep, (long)&s, (long)rem, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
}
int usleep(useconds_t us) {
    struct timespec t = of((big)us * 1000);
    return nanosleep(&t, 0);
}
unsigned sleep(unsigned s) {
    struct timespec t = of((big)s * 1000000000);
    nanosleep(&t, 0);
    return 0;
}
int poll(struct pollfd *f, nfds_t n, int ms) {
    long r = raw(SYS_poll, (long)f, n, ms > 0 ? (ms + scale - 1) / scale : ms, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return r;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    static int (*next)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (!next) next = dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    struct timespec a = real(CLOCK_REALTIME, t);
    return next(c, m, &a);
}
long syscall(long n, ...) {
    va_list v;
    long a[6];
    va_start(v, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    struct timespec t;
    if (n == SYS_futex && a[3]) {
        int op = a[1] & FUTEX_CMD_MASK;
        const struct timespec *in = (const struct timespec *)a[3];
        if (op == FUTEX_WAIT) {
            t = shorter(in);
            a[3] = (long)&t;
        } else if (op == FUTEX_WAIT_BITSET) {
            t = real((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, in);
            a[3] = (long)&t;
        }
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
