/* Preloaded into a process of the harness:
   - the HLH_AT-th operation that changes something under HLH_UNDER crashes, fails or waits (HLH_HOW);
   - HLH_PID is the number of the process, as process numbers come again;
   - the publisher's server is found at 127.0.0.1:HLH_PORT. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
static int count, watched[4096];

static int under(const char *p) {
    const char *u = getenv("HLH_UNDER");
    return u && *u && p && strncmp(p, u, strlen(u)) == 0;
}
/* what happens at the n-th change: 'c' the process ends, 'p' it ends with half of the change done, 'f' the change fails, 'w' it waits */
static int due(int n) {
    const char *h = getenv("HLH_HOW"), *a = getenv("HLH_AT");
    if (!h || !a) return 0;
    int at = atoi(a);
    if (!strcmp(h, "full")) return n >= at ? 'f' : 0;
    if (!strncmp(h, "fail", 4)) return n == at ? 'f' : h[4] && n == at + atoi(h + 4) ? 'p' : 0;
    if (n != at) return 0;
    return !strcmp(h, "crash") ? 'c' : !strcmp(h, "partial") ? 'p' : !strcmp(h, "pause") ? 'w' : 0;
}
static void note(const char *suffix) {
    char p[4096];
    snprintf(p, sizeof p, "%s.%s", getenv("HLH_FLAG"), suffix);
    int fd = REAL(open)(p, O_CREAT | O_WRONLY, 0600);
    if (fd >= 0) REAL(close)(fd);
}
static void hold(void) {
    char p[4096];
    struct stat st;
    note("paused");
    snprintf(p, sizeof p, "%s.go", getenv("HLH_FLAG"));
    for (int i = 0; i < 20000 && stat(p, &st) != 0; i++) usleep(1000);
}
/* -1: the operation must fail */
static int event(void) {
    switch (due(++count)) {
    case 'c': case 'p': _exit(77);
    case 'f': note("failed"); errno = ENOSPC; return -1;
    case 'w': hold();
    }
    return 0;
}
/* changes that need no space do not fail on a full disk */
static int small(void) {
    const char *h = getenv("HLH_HOW");
    if (h && !strcmp(h, "full")) { ++count; return 0; }
    return event();
}
static int changes(int flags) { return (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY; }

#define OPEN(name, ...) \
    int w = changes(flags) && under(path); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (w && event()) return -1; \
    int fd = REAL(name)(__VA_ARGS__); \
    if (w && fd >= 0 && fd < 4096) watched[fd] = 1; \
    return fd;
int open(const char *path, int flags, ...) { OPEN(open, path, flags, mode) }
int open64(const char *path, int flags, ...) { OPEN(open64, path, flags, mode) }
int openat(int d, const char *path, int flags, ...) { OPEN(openat, d, path, flags, mode) }
int openat64(int d, const char *path, int flags, ...) { OPEN(openat64, d, path, flags, mode) }

static int on(int fd) { return fd >= 0 && fd < 4096 && watched[fd]; }
ssize_t write(int fd, const void *b, size_t n) {
    if (on(fd)) {
        if (due(count + 1) == 'p') {
            if (n > 1 && REAL(write)(fd, b, n / 2) < 0) _exit(78);
            _exit(77);
        }
        if (event()) return -1;
    }
    return REAL(write)(fd, b, n);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (on(b)) {
        if (due(count + 1) == 'p') {
            struct stat st;
            if (fstat(a, &st) == 0 && st.st_size > 1) REAL(copy_file_range)(a, ao, b, bo, st.st_size / 2, f);
            _exit(77);
        }
        if (event()) return -1;
    }
    return REAL(copy_file_range)(a, ao, b, bo, n, f);
}
ssize_t sendfile64(int b, int a, off64_t *o, size_t n) { if (on(b) && event()) return -1; return REAL(sendfile64)(b, a, o, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (on(fd) && event()) return -1; return REAL(writev)(fd, v, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (on(fd) && event()) return -1; return REAL(pwrite64)(fd, b, n, o); }
int ftruncate64(int fd, off64_t n) { if (on(fd) && event()) return -1; return REAL(ftruncate64)(fd, n); }
int fsync(int fd) { if (on(fd) && event()) return -1; return REAL(fsync)(fd); }
int close(int fd) {
    if (on(fd)) {
        watched[fd] = 0;
        switch (due(++count)) {
        case 'c': case 'p': _exit(77);
        case 'f': { const char *h = getenv("HLH_HOW"); if (strcmp(h, "full")) note("failed"); break; }
        case 'w': hold();
        }
    }
    return REAL(close)(fd);
}
int rename(const char *a, const char *b) { if ((under(a) || under(b)) && small()) return -1; return REAL(rename)(a, b); }
int renameat(int x, const char *a, int y, const char *b) { if ((under(a) || under(b)) && small()) return -1; return REAL(renameat)(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { if ((under(a) || under(b)) && small()) return -1; return REAL(renameat2)(x, a, y, b, f); }
int mkdir(const char *a, mode_t m) { if (under(a) && event()) return -1; return REAL(mkdir)(a, m); }
int truncate64(const char *a, off64_t n) { if (under(a) && event()) return -1; return REAL(truncate64)(a, n); }
int link(const char *a, const char *b) { if (under(b) && event()) return -1; return REAL(link)(a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { if (under(b) && event()) return -1; return REAL(linkat)(x, a, y, b, f); }
int unlink(const char *a) { if (under(a) && small()) return -1; return REAL(unlink)(a); }
int unlinkat(int d, const char *a, int f) { if (under(a) && small()) return -1; return REAL(unlinkat)(d, a, f); }

pid_t getpid(void) { const char *p = getenv("HLH_PID"); return p ? atoi(p) : REAL(getpid)(); }

int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    if (node && getenv("HLH_PORT")) {
        if (strcmp(node, "www.kozlonyok.hu")) return EAI_NONAME;
        node = "127.0.0.1";
    }
    return REAL(getaddrinfo)(node, service, hints, res);
}
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    const char *p = getenv("HLH_PORT");
    if (p && a->sa_family == AF_INET) {
        struct sockaddr_in in = *(const struct sockaddr_in *)a;
        in.sin_port = htons(atoi(p));
        return REAL(connect)(fd, (struct sockaddr *)&in, sizeof in);
    }
    return REAL(connect)(fd, a, n);
}
