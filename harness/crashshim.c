/* LD_PRELOAD shim: ends the process at the k-th file system change made below a directory.
 *
 * Crash points: before every rename/unlink/rmdir/mkdir/link/truncate, before every open which creates or truncates a
 * file, and before and half way through every write.  SQLite's own files (names containing ".db") are atomic by
 * themselves, only the commit point (unlink or truncation of the journal) is counted for them. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <signal.h>
#include <dirent.h>
#include <sys/time.h>

static char root[PATH_MAX]; static size_t rootlen;
static long target = -1, counter = 0;
static int stopping = 0, netmode = 0, armed = 0, logfd = -1, failing = 0, failnow = 0, lasting = 0, dbtoo = 0, interrupting = 0;
static char denied[PATH_MAX];
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

void shim_arm(const char *r, long k, int lfd) {
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
    while (rootlen > 1 && root[rootlen-1] == '/') root[--rootlen] = 0;
    target = k; counter = 0; logfd = lfd; armed = 1;
}
/* let the k-th change fail instead (a full or broken disk) */
void shim_fault(const char *r, long k, int err) { shim_arm(r, k, -1); failing = err; }
/* writes to databases count as well */
void shim_dbtoo(void) { dbtoo = 1; }
/* from the k-th change on all of them fail (the file system became read-only) */
void shim_lasting(const char *r, long k, int err) { shim_fault(r, k, err); lasting = 1; }
/* nothing can be made, renamed or removed in this directory (its permissions) */
void shim_deny(const char *r, const char *d) { shim_fault(r, 1L << 40, EACCES); snprintf(denied, sizeof denied, "%s", d); }
long shim_disarm(void) { armed = 0; failing = 0; lasting = 0; dbtoo = 0; interrupting = 0; denied[0] = 0; failnow = 0; netmode = 0; stopping = 0; return counter; }

static int below(const char *p) { return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0); }
static int abspath_at(int dfd, const char *p, char *out) {
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return 1; }
    char base[PATH_MAX]; 
    if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
    snprintf(out, PATH_MAX, "%s/%s", base, p); return 1;
}
#define FAULT if (failnow) { failnow = 0; errno = failing; return -1; }
static void die(const char *what, const char *p) {
    if (failing) { failnow = 1; return; }
    if (stopping) { if (!strncmp(what, "half", 4)) return; raise(interrupting ? SIGINT : SIGSTOP); return; }      /* goes on when it is continued */
    if (logfd >= 0) { static ssize_t (*w)(int,const void*,size_t); if (!w) w = dlsym(RTLD_NEXT, "write");
        char b[PATH_MAX+64]; int n = snprintf(b, sizeof b, "%ld %s %s\n", counter, what, below(p) ? p + rootlen : p); ssize_t r = w(logfd, b, n); (void)r; }
    _exit(99);
}
static int sqlitefile(const char *p) { const char *b = strrchr(p, '/'); b = b ? b + 1 : p; return strstr(b, ".db") != NULL; }
static int journal(const char *p) { size_t n = strlen(p); return n > 8 && !strcmp(p + n - 8, "-journal"); }
static void point(const char *what, const char *p) { if (++counter == target || (lasting && counter > target)) die(what, p); }
static void deny(int dfd, const char *p, int making) {
    if (!armed || !denied[0]) return; int e = errno; char a[PATH_MAX], *l; struct stat st;
    if (abspath_at(dfd, p, a) && !(making && lstat(a, &st) == 0) && (l = strrchr(a, '/'))) { *l = 0; if (!strcmp(a, denied)) failnow = 1; }
    errno = e;
}
static void hit(const char *what, int dfd, const char *p) {
    if (!armed) return; deny(dfd, p, !strcmp(what, "open") || !strcmp(what, "mkdir")); int e = errno; char a[PATH_MAX];
    if (abspath_at(dfd, p, a) && below(a)) {
        if (sqlitefile(a)) { if (journal(a) && (!strcmp(what, "unlink") || !strcmp(what, "truncate"))) { if (!failing) point("sqlcommit", a); } }
        else if (stopping && !strcmp(what, "rename") && !strncmp(strrchr(a, '/'), "/.bvn", 5)) ;     /* renames of old names */
        else if (!strstr(a, "lock_file")) point(what, a);
    }
    errno = e;
}
static int fdpath(int fd, char *a) {
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, a, PATH_MAX - 1); if (n <= 0) return 0; a[n] = 0; return a[0] == '/';
}
static int fdhit(int fd, char *a) { /* is this a tracked file? */
    if (!armed || fd == logfd) return 0; int e = errno; int r = fdpath(fd, a) && below(a) && (!sqlitefile(a) || (dbtoo && (failing || interrupting))) && !strstr(a, "lock_file"); errno = e; return r;
}

int rename(const char *a, const char *b) { REAL(int, "rename", const char*, const char*); deny(AT_FDCWD, a, 0); hit("rename", AT_FDCWD, b); FAULT return real(a, b); }
int renameat(int d, const char *a, int d2, const char *b) { REAL(int, "renameat", int, const char*, int, const char*); deny(d, a, 0); hit("rename", d2, b); FAULT return real(d, a, d2, b); }
int renameat2(int d, const char *a, int d2, const char *b, unsigned f) { REAL(int, "renameat2", int, const char*, int, const char*, unsigned); deny(d, a, 0); hit("rename", d2, b); FAULT return real(d, a, d2, b, f); }
int unlink(const char *p) { REAL(int, "unlink", const char*); hit("unlink", AT_FDCWD, p); FAULT return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char*, int); hit("unlink", d, p); FAULT return real(d, p, f); }
int remove(const char *p) { REAL(int, "remove", const char*); hit("unlink", AT_FDCWD, p); FAULT return real(p); }
int rmdir(const char *p) { REAL(int, "rmdir", const char*); hit("rmdir", AT_FDCWD, p); FAULT return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char*, mode_t); struct stat st; if (!lstat(p, &st)) return real(p, m); hit("mkdir", AT_FDCWD, p); FAULT return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char*, mode_t); hit("mkdir", d, p); FAULT return real(d, p, m); }
int link(const char *a, const char *b) { REAL(int, "link", const char*, const char*); hit("link", AT_FDCWD, b); FAULT return real(a, b); }
int linkat(int d, const char *a, int d2, const char *b, int f) { REAL(int, "linkat", int, const char*, int, const char*, int); hit("link", d2, b); FAULT return real(d, a, d2, b, f); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char*, const char*); hit("link", AT_FDCWD, b); FAULT return real(a, b); }
int truncate(const char *p, off_t l) { REAL(int, "truncate", const char*, off_t); hit("truncate", AT_FDCWD, p); FAULT return real(p, l); }
int ftruncate(int fd, off_t l) { REAL(int, "ftruncate", int, off_t); char a[PATH_MAX]; if (armed && fdpath(fd, a)) hit("truncate", AT_FDCWD, a); FAULT return real(fd, l); }
int ftruncate64(int fd, off_t l) { REAL(int, "ftruncate64", int, off_t); char a[PATH_MAX]; if (armed && fdpath(fd, a)) hit("truncate", AT_FDCWD, a); FAULT return real(fd, l); }

static void openhit(int d, const char *p, int flags) {
    if (!armed) return;
    char a[PATH_MAX]; struct stat st; int e = errno;
    if ((flags & O_TRUNC) || ((flags & O_CREAT) && abspath_at(d, p, a) && stat(a, &st) != 0)) hit("open", d, p);
    errno = e;
}
#define OPEN(name) int name(const char *p, int flags, ...) { REAL(int, #name, const char*, int, ...); va_list v; va_start(v, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v); openhit(AT_FDCWD, p, flags); FAULT return real(p, flags, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { REAL(int, #name, int, const char*, int, ...); va_list v; va_start(v, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v); openhit(d, p, flags); FAULT return real(d, p, flags, m); }
OPENAT(openat) OPENAT(openat64)
FILE *fopen(const char *p, const char *m) { REAL(FILE*, "fopen", const char*, const char*); if (m[0] == 'w') openhit(AT_FDCWD, p, O_CREAT|O_TRUNC); if (failnow) { failnow = 0; errno = failing; return 0; } return real(p, m); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void*, size_t); char a[PATH_MAX];
    if (armed && fdhit(fd, a)) { point("write", a); FAULT
        if (n >= 2 && !stopping && (++counter == target || (lasting && counter > target))) { ssize_t r = real(fd, b, n / 2); (void)r; die("halfwrite", a); FAULT } }
    return real(fd, b, n);
}
#define PWRITE(name) ssize_t name(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, #name, int, const void*, size_t, off_t); char a[PATH_MAX]; \
    if (armed && fdhit(fd, a)) { point("write", a); FAULT if (n >= 2 && !stopping && (++counter == target || (lasting && counter > target))) { ssize_t r = real(fd, b, n / 2, o); (void)r; die("halfwrite", a); FAULT } } return real(fd, b, n, o); }
PWRITE(pwrite) PWRITE(pwrite64)
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, "writev", int, const struct iovec*, int); char a[PATH_MAX]; if (armed && fdhit(fd, a)) point("write", a); FAULT return real(fd, v, c); }
#define SENDFILE(name) ssize_t name(int out, int in, off_t *o, size_t n) { REAL(ssize_t, #name, int, int, off_t*, size_t); char a[PATH_MAX]; \
    if (armed && fdhit(out, a)) { point("write", a); FAULT struct stat st; size_t l = n; if (!fstat(in, &st) && (size_t)st.st_size < l) l = st.st_size; \
    if (l >= 2 && !stopping && (++counter == target || (lasting && counter > target))) { ssize_t r = real(out, in, o, l / 2); (void)r; die("halfwrite", a); FAULT } } return real(out, in, o, n); }
SENDFILE(sendfile) SENDFILE(sendfile64)
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", int, off64_t*, int, off64_t*, size_t, unsigned); char a[PATH_MAX];
    if (armed && fdhit(out, a)) { point("write", a); FAULT struct stat st; size_t l = n; if (!fstat(in, &st) && (size_t)st.st_size < l) l = st.st_size;
    if (l >= 2 && !stopping && (++counter == target || (lasting && counter > target))) { ssize_t r = real(in, oi, out, oo, l / 2, f); (void)r; die("halfwrite", a); FAULT } } return real(in, oi, out, oo, n, f); }

/* the network is a place to die as well (mode 1), or to lose the connection (mode 2: only network operations count) */
#include <sys/socket.h>

void shim_net(const char *r, long k, int mode) { shim_arm(r, k, -1); netmode = mode; if (mode == 2) rootlen = 0, strcpy(root, "/nowhere/at/all"), rootlen = strlen(root); }
static int isnet(int fd) { struct sockaddr_storage a; socklen_t l = sizeof a; int e = errno; int r = getsockname(fd, (struct sockaddr *)&a, &l) == 0 && a.ss_family == AF_INET; errno = e; return r; }
static void net(const char *what, int fd) {
    if (!armed || !netmode || !isnet(fd)) return;
    if (++counter == target) { if (netmode == 1) die(what, "net"); else shutdown(fd, SHUT_RDWR); }
}
/* no waiting for more to send (Nagle): only about speed */
#include <netinet/tcp.h>
#include <netinet/in.h>
static void nodelay(int fd) { int e = errno, one = 1; if (fd >= 0) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); errno = e; }
int connect(int fd, const struct sockaddr *a, socklen_t l) { REAL(int, "connect", int, const struct sockaddr*, socklen_t); int r = real(fd, a, l); if (a->sa_family == AF_INET) nodelay(fd); return r; }
int accept4(int fd, struct sockaddr *restrict a, socklen_t *restrict l, int f) { REAL(int, "accept4", int, struct sockaddr*, socklen_t*, int); int r = real(fd, a, l, f); nodelay(r); return r; }
int accept(int fd, struct sockaddr *restrict a, socklen_t *restrict l) { REAL(int, "accept", int, struct sockaddr*, socklen_t*); int r = real(fd, a, l); nodelay(r); return r; }
ssize_t send(int fd, const void *b, size_t n, int f) { REAL(ssize_t, "send", int, const void*, size_t, int); net("send", fd);
    if (armed && netmode && !stopping && n >= 2 && isnet(fd) && (++counter == target || (lasting && counter > target))) { ssize_t r = real(fd, b, n / 2, f); if (netmode == 1) die("halfsend", "net"); shutdown(fd, SHUT_RDWR); return r; }
    return real(fd, b, n, f); }
ssize_t recv(int fd, void *b, size_t n, int f) { REAL(ssize_t, "recv", int, void*, size_t, int); net("recv", fd); return real(fd, b, n, f); }

/* stop (SIGSTOP) at the k-th change, directory listing or network operation */
void shim_stop(const char *r, long k) { shim_arm(r, k, -1); netmode = 1; stopping = 1; }
/* the user presses Control-C at the k-th change or network operation */
void shim_interrupt(const char *r, long k) { shim_stop(r, k); interrupting = 1; dbtoo = 1; }
DIR *opendir(const char *p) { REAL(DIR*, "opendir", const char*); if (stopping) hit("opendir", AT_FDCWD, p); return real(p); }
DIR *fdopendir(int fd) { REAL(DIR*, "fdopendir", int); char a[PATH_MAX]; if (armed && stopping && fdpath(fd, a)) hit("opendir", AT_FDCWD, a); return real(fd); }

/* a clock which stands still where it is put */
static double frozen = -1;
void shim_clock(double t) { frozen = t; }
int clock_gettime(clockid_t c, struct timespec *t) { REAL(int, "clock_gettime", clockid_t, struct timespec*);
    if (frozen >= 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = (time_t)frozen; t->tv_nsec = (long)((frozen - (double)t->tv_sec) * 1e9); return 0; } return real(c, t); }
int gettimeofday(struct timeval *restrict v, void *restrict z) { REAL(int, "gettimeofday", struct timeval*, void*);
    if (frozen >= 0 && v) { v->tv_sec = (time_t)frozen; v->tv_usec = (long)((frozen - (double)v->tv_sec) * 1e6); return 0; } return real(v, z); }
time_t time(time_t *p) { REAL(time_t, "time", time_t*); if (frozen >= 0) { if (p) *p = (time_t)frozen; return (time_t)frozen; } return real(p); }
