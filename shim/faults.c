/* Preloaded into the command-line tool: makes reads short, interrupted or failing, and opens and
 * mappings fail, as a rules file says, for named input files and standard input only. Faults that
 * fired are logged. Rules, one per line:
 *   <hex of base name or directory/base name, or "stdin"> <open errno or 0> <mmap errno or 0> <actions>
 * actions: comma separated, one per read call: sN at most N bytes, i EINTR, eN errno N, k as is.
 * After the last action, reads pass unchanged. Log lines: <rule index> <o|m|e|i|s>
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXRULES 64
#define MAXFD 1024
struct rule {
    unsigned char name[512];
    int namelen;
    int open_errno, mmap_errno;
    char *act;
} rules[MAXRULES];
static int nrules, logfd = -1;
static int fdrule[MAXFD]; /* rule + 1 */

static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_readv)(int, const struct iovec *, int);
static ssize_t (*real_pread)(int, void *, size_t, off_t);
static int (*real_open)(const char *, int, ...);
static int (*real_openat)(int, const char *, int, ...);
static int (*real_close)(int);
static void *(*real_mmap)(void *, size_t, int, int, int, off_t);

static int hexval(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static void log_fault(int rule, char what) {
    char buf[32];
    int n = snprintf(buf, sizeof buf, "%d %c\n", rule, what);
    if (logfd >= 0 && write(logfd, buf, n) != n)
        _exit(77);
}

__attribute__((constructor)) static void init(void) {
    real_read = dlsym(RTLD_NEXT, "read");
    real_readv = dlsym(RTLD_NEXT, "readv");
    real_pread = dlsym(RTLD_NEXT, "pread64");
    real_open = dlsym(RTLD_NEXT, "open64");
    real_openat = dlsym(RTLD_NEXT, "openat64");
    real_close = dlsym(RTLD_NEXT, "close");
    real_mmap = dlsym(RTLD_NEXT, "mmap64");
    const char *rf = getenv("FAULT_RULES"), *lf = getenv("FAULT_LOG");
    if (!rf || !lf)
        return;
    logfd = real_open(lf, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    FILE *f = fopen(rf, "r");
    if (!f || logfd < 0)
        _exit(77);
    static char line[70000], name[2000], act[66000];
    while (fgets(line, sizeof line, f) && nrules < MAXRULES) {
        struct rule *r = &rules[nrules];
        if (sscanf(line, "%1999s %d %d %65999s", name, &r->open_errno, &r->mmap_errno, act) != 4)
            _exit(77);
        r->act = strdup(act);
        if (!strcmp(name, "stdin")) {
            r->namelen = -1;
            fdrule[0] = nrules + 1;
        } else {
            for (int i = 0; name[i]; i += 2)
                r->name[r->namelen++] = hexval(name[i]) * 16 + hexval(name[i + 1]);
        }
        nrules++;
    }
    fclose(f);
}

static int find_rule(const char *path) {
    /* the last one or two components of the path; the longer match counts */
    int n = strlen(path), best = -1;
    for (int i = 0; i < nrules; i++) {
        int k = rules[i].namelen;
        if (k > 0 && k <= n && !memcmp(rules[i].name, path + n - k, k) && (k == n || path[n - k - 1] == '/'))
            if (best < 0 || k > rules[best].namelen)
                best = i;
    }
    return best;
}

static int after_open(int r, int fd) {
    if (fd >= 0 && fd < MAXFD)
        fdrule[fd] = r + 1;
    return fd;
}

static int do_open(int at, int dir, const char *path, int flags, mode_t mode) {
    int r = nrules ? find_rule(path) : -1;
    if (r >= 0 && rules[r].open_errno) {
        log_fault(r, 'o');
        errno = rules[r].open_errno;
        return -1;
    }
    int fd = at ? real_openat(dir, path, flags, mode) : real_open(path, flags, mode);
    return after_open(r, fd);
}

#define MODE() \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, mode_t); \
        va_end(ap); \
    }

int open(const char *path, int flags, ...) { MODE(); return do_open(0, 0, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(); return do_open(0, 0, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(); return do_open(1, d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(); return do_open(1, d, path, flags, mode); }

int close(int fd) {
    if (fd > 0 && fd < MAXFD)
        fdrule[fd] = 0;
    return real_close(fd);
}

/* the next action for a descriptor: 0 pass, 1 limited to *n, -1 fails with errno set */
static int act(int fd, size_t *n) {
    if (fd < 0 || fd >= MAXFD || !fdrule[fd])
        return 0;
    int r = fdrule[fd] - 1;
    char *a = rules[r].act;
    while (*a == ',' || *a == '-')
        a++;
    if (!*a)
        return 0;
    char kind = *a++;
    long v = strtol(a, &a, 10);
    rules[r].act = a;
    switch (kind) {
    case 's':
        if ((size_t)v < *n && v > 0) {
            *n = v;
            log_fault(r, 's');
        }
        return 1;
    case 'i':
        log_fault(r, 'i');
        errno = EINTR;
        return -1;
    case 'e':
        log_fault(r, 'e');
        errno = v;
        return -1;
    }
    return 0;
}

ssize_t read(int fd, void *buf, size_t n) {
    if (act(fd, &n) < 0)
        return -1;
    return real_read(fd, buf, n);
}

static ssize_t do_pread(int fd, void *buf, size_t n, off_t o) {
    if (act(fd, &n) < 0)
        return -1;
    return real_pread(fd, buf, n, o);
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return do_pread(fd, buf, n, o); }
ssize_t pread64(int fd, void *buf, size_t n, off_t o) { return do_pread(fd, buf, n, o); }

ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    if (cnt > 0 && fd >= 0 && fd < MAXFD && fdrule[fd])
        return read(fd, iov[0].iov_base, iov[0].iov_len);
    return real_readv(fd, iov, cnt);
}

static void *do_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    if (fd >= 0 && fd < MAXFD && fdrule[fd] && rules[fdrule[fd] - 1].mmap_errno) {
        log_fault(fdrule[fd] - 1, 'm');
        errno = rules[fdrule[fd] - 1].mmap_errno;
        return MAP_FAILED;
    }
    return real_mmap(a, l, p, f, fd, o);
}
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) { return do_mmap(a, l, p, f, fd, o); }
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return do_mmap(a, l, p, f, fd, o); }
