/* Preloaded into ripcalc by P23, P24 and P30: records which environment variables it looks up, lets
   writes to its output streams take only part of the bytes or be interrupted, and pretends another
   time, process, user, host and other randomness. What is active is chosen by RV_* variables, which
   are read once and are not visible in the record. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static int ready, log_fd = -1;
static uint64_t shorts, who, last_write;
static int64_t shift;

static char *find(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}
static uint64_t number(const char *name) { char *v = find(name); return v ? strtoull(v, 0, 10) : 0; }
static uint64_t next(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }

__attribute__((constructor)) static void start(void) {
    if (ready) return;
    ready = 1;
    char *p = find("RV_LOG");
    if (p) log_fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    shorts = number("RV_SHORT");
    who = number("RV_WHO");
    char *t = find("RV_TIME");
    if (t) shift = strtoll(t, 0, 10);
}

char *getenv(const char *name) {
    start();
    if (log_fd >= 0 && name && strncmp(name, "RV_", 3)) {
        char b[300];
        size_t n = strlen(name);
        if (n < sizeof b - 1) { memcpy(b, name, n); b[n] = '\n'; syscall(SYS_write, log_fd, b, n + 1); }
    }
    return find(name);
}
char *secure_getenv(const char *name) { return getenv(name); }

/* how many of n bytes to take; 0: interrupted */
static size_t part(size_t n) {
    if (!shorts || n == 0) return n;
    uint64_t x = next(&shorts);
    if (x % 5 == 0 && !last_write) { last_write = 1; return 0; }
    last_write = 0;
    if (x % 5 == 1) return n;
    return 1 + (x >> 8) % (n < 40 || x % 5 > 2 ? n : 40);
}
ssize_t write(int fd, const void *b, size_t n) {
    start();
    if (fd == 1 || fd == 2) {
        size_t k = part(n);
        if (n && !k) { errno = EINTR; return -1; }
        n = k;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    start();
    if ((fd == 1 || fd == 2) && shorts && c > 0) {
        for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return syscall(SYS_writev, fd, v, c);
}

int clock_gettime(clockid_t id, struct timespec *t) {
    start();
    int r = syscall(SYS_clock_gettime, id, t);
    if (!r && id == CLOCK_REALTIME) t->tv_sec += shift;
    return r;
}
time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned flags) {
    start();
    if (!who) return syscall(SYS_getrandom, b, n, flags);
    uint64_t s = who;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = who % 7 == 0 ? 0 : who % 7 == 1 ? 255 : next(&s) >> 20;
    return n;
}
pid_t getpid(void) { start(); return who ? (pid_t)(1 + who % 32000) : (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) { start(); return who ? (pid_t)(who % 31) : (pid_t)syscall(SYS_getppid); }
uid_t getuid(void) { start(); return who ? (uid_t)(who % 3 * 1000) : (uid_t)syscall(SYS_getuid); }
uid_t geteuid(void) { return getuid(); }
gid_t getgid(void) { start(); return who ? (gid_t)(who % 5 * 100) : (gid_t)syscall(SYS_getgid); }
gid_t getegid(void) { return getgid(); }
int gethostname(char *b, size_t n) {
    static const char *names[] = { "localhost", "ripcalc", "a", "host.example.org" };
    start();
    struct utsname u;
    uname(&u);
    strncpy(b, who ? names[who % 4] : u.nodename, n);
    return 0;
}
