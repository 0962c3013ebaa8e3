#include "dv.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <malloc.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <x86intrin.h>
#if DV_ASAN
#include <sanitizer/asan_interface.h>
#endif

/* ------------------------------------------------------------------ random numbers */
static __thread uint64_t rs;
uint64_t dv_seed; const char *dv_mode = ""; long dv_scale = 0;
int dv_verbose;
uint64_t dv_rand(void) {
    uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void dv_thread_seed(uint64_t s);
uint64_t dv_hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = p;
    while(n--) h = (h ^ *c++) * 0x100000001b3ULL;
    return h;
}

/* ------------------------------------------------------------------ reporting */
static FILE *out;
static struct { char name[48]; long v; int max; } stats[256];
static int nstats;
static pthread_mutex_t statlock = PTHREAD_MUTEX_INITIALIZER;
static void stat_(const char *name, long v, int max) {
    pthread_mutex_lock(&statlock);
    int i;
    for(i = 0; i < nstats; i++) if(!strcmp(stats[i].name, name)) break;
    if(i == nstats) {
        if(nstats == 256) { pthread_mutex_unlock(&statlock); return; }
        snprintf(stats[i].name, sizeof stats[i].name, "%s", name); stats[i].v = 0; stats[i].max = max; nstats++;
    }
    if(max) { if(v > stats[i].v) stats[i].v = v; } else stats[i].v += v;
    pthread_mutex_unlock(&statlock);
}
void dv_stat(const char *n, long v) { stat_(n, v, 0); }
void dv_max(const char *n, long v) { stat_(n, v, 1); }
static __thread uint64_t sig; static int nontriv; static long casno;
void dv_sig(uint64_t h) { sig = (sig ^ h) * 0x100000001b3ULL; sig ^= sig >> 29; }
void dv_nontrivial(void) { nontriv = 1; }
static int nsamples;
void dv_sample(const char *fmt, ...) {
    if(nsamples >= 3) return;
    nsamples++;
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for(char *p = b; *p; p++) if(*p == '\n') *p = ' ';
    fprintf(out, "X case %ld: %s\n", casno, b);
}
void dv_log(const char *fmt, ...) {
    if(!dv_verbose) return;
    va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fputc('\n', stderr);
}
static void dumpstats(void) {
    for(int i = 0; i < nstats; i++) fprintf(out, "%c %s %ld\n", stats[i].max ? 'M' : 'S', stats[i].name, stats[i].v);
    fflush(out);
}
void dv_fail(const char *key, const char *fmt, ...) {
    int e = errno;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for(char *p = b; *p; p++) if(*p == '\n') *p = ' ';
    fprintf(out, "V %ld %s | %s (errno %d, vt %lld)\n", casno, key, b, e, (long long)dv_vt);
    dumpstats();
    _exit(10);
}

/* ------------------------------------------------------------------ virtual time */
int dv_virtual = 1; __thread int64_t dv_vt = 1000000; int dv_grace = 0;
__thread long dv_waits, dv_waits0; __thread int dv_wait_ms; __thread int (*dv_deadlock)(void); __thread void (*dv_onwait)(int);
int dv_eintr_pct; __thread void (*dv_onidle)(int);
__thread int dv_us = 500; int dv_clockq = 1; unsigned long dv_tsc_khz = 10000000; int64_t dv_tsc_off;
static __thread long rdtsc_used; static __thread long idlespin;
unsigned long long dv_rdtsc(void) {
    rdtsc_used = 1;
    if(!dv_virtual) return __rdtsc();
    return (unsigned long long)dv_vt * dv_tsc_khz + (unsigned long long)dv_us * dv_tsc_khz / 1000 + (unsigned long long)dv_tsc_off;
}
void dv_advance(int64_t ms) {
    if(ms <= 0) return;
    dv_vt += ms; idlespin = 0;
    if(!rdtsc_used) { unsigned long long t = __rdtsc(); while(__rdtsc() - t < 3000000ULL); }
}
int dv_clock_gettime(clockid_t id, struct timespec *ts) {
    if(!dv_virtual) return clock_gettime(id, ts);
    int64_t v = dv_vt, u = dv_us;
    if(dv_clockq > 1) { v -= v % dv_clockq; u = 0; }
    ts->tv_sec = v / 1000; ts->tv_nsec = (v % 1000) * 1000000 + u * 1000;
    return 0;
}
int dv_gettimeofday(struct timeval *tv, void *tz) {
    if(!dv_virtual) return gettimeofday(tv, tz);
    tv->tv_sec = dv_vt / 1000; tv->tv_usec = (dv_vt % 1000) * 1000 + 500;
    return 0;
}
time_t dv_time(time_t *t) {
    if(!dv_virtual) return time(t);
    if(t) *t = dv_vt / 1000;
    return dv_vt / 1000;
}
static int vwait(int timeout, int (*fn)(void *, int), void *arg) {
    dv_waits++; if(timeout == 0) dv_waits0++;
    dv_wait_ms = timeout;
    if(dv_onwait) dv_onwait(timeout);
    if(!dv_virtual) return fn(arg, timeout);
    if(dv_eintr_pct && timeout != 0 && dv_pct(dv_eintr_pct)) { errno = EINTR; return -1; }
    int r = fn(arg, 0);
    if(r != 0) { if(++idlespin > 2000000) dv_fail("spin", "2000000 kernel waits without time passing"); return r; }
    if(timeout == 0) {
        if(++idlespin > 300000) dv_fail("spin", "300000 idle non-blocking waits without time passing");
        return 0;
    }
    if(dv_grace) {
        r = fn(arg, timeout > 0 && timeout < dv_grace ? timeout : dv_grace);
        if(r != 0) return r;
    }
    if(dv_onidle) dv_onidle(timeout);
    if(timeout < 0) {
        for(int i = 0; ; i++) {
            if(dv_deadlock && dv_deadlock()) {
                r = fn(arg, i < 100 ? 0 : 20); if(r != 0) return r;
                if(i > 600) dv_fail("deadlock", "infinite wait never ends");
                continue;
            }
            dv_fail("deadlock", "thread waits forever: no timer, no descriptor event, nothing runnable");
        }
    }
    dv_advance(timeout);
    return 0;
}
struct epw { int efd; struct epoll_event *evs; int max; };
static int epw_(void *a, int t) { struct epw *e = a; return epoll_wait(e->efd, e->evs, e->max, t); }
int dv_epoll_wait(int efd, struct epoll_event *evs, int max, int timeout) {
    struct epw e = {efd, evs, max};
    return vwait(timeout, epw_, &e);
}
int dv_epoll_pwait(int efd, struct epoll_event *evs, int max, int timeout, const sigset_t *s) {
    return dv_epoll_wait(efd, evs, max, timeout);
}
struct pw { struct pollfd *p; nfds_t n; };
static int pw_(void *a, int t) { struct pw *e = a; return poll(e->p, e->n, t); }
int dv_poll(struct pollfd *p, nfds_t n, int timeout) {
    struct pw e = {p, n};
    return vwait(timeout, pw_, &e);
}

void dv_thread_seed(uint64_t s) { rs = s; dv_vt = 1000000; dv_us = 500; idlespin = 0; }
uint64_t *dv_rngstate(void) { return &rs; }

/* ------------------------------------------------------------------ allocation and faults */
const char *dv_kindname[DV_NKINDS] = {"malloc", "socket", "bind", "listen", "accept", "connect", "send", "recv",
    "epoll_create", "epoll_ctl", "mprotect", "dup", "socketpair", "shutdown", "getsock", "open", "getifaddrs"};
static const int kinderr[DV_NKINDS] = {ENOMEM, EMFILE, EADDRINUSE, EADDRINUSE, EMFILE, ENETUNREACH, ENOBUFS, ENOMEM,
    EMFILE, ENOMEM, ENOMEM, EMFILE, EMFILE, ENOBUFS, ENOBUFS, EMFILE, ENOMEM};
long dv_calls[DV_NKINDS]; long dv_failat = -1; unsigned dv_failmask = ~0u; int dv_failed_kind = -1; int dv_fail_errno;
long dv_nfailed;
int dv_short_pct, dv_again_pct; size_t dv_io_max; long dv_live_allocs, dv_live_bytes; __thread long dv_io_calls;
static int inject(int kind) {
    __atomic_add_fetch(&dv_calls[kind], 1, __ATOMIC_RELAXED);
    if(dv_failat < 0 || !(dv_failmask & (1u << kind))) return 0;
    if(dv_failat-- > 0) return 0;
    dv_failed_kind = kind; dv_nfailed++;
    errno = dv_fail_errno ? dv_fail_errno : kinderr[kind];
    return 1;
}
/* live block table (open addressing), only maintained single-threaded or under the lock */
#define TABN (1u << 18)
static void *tab[TABN]; static pthread_mutex_t tablock = PTHREAD_MUTEX_INITIALIZER;
#define TOMB ((void*)1)
static unsigned th(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (TABN - 1); }
static void track(void *p) {
    if(!p) return;
    pthread_mutex_lock(&tablock);
    unsigned i = th(p); while(tab[i] && tab[i] != TOMB) i = (i + 1) & (TABN - 1);
    tab[i] = p; dv_live_allocs++; dv_live_bytes += malloc_usable_size(p);
    pthread_mutex_unlock(&tablock);
}
static int untrack(void *p) {
    int r = 0;
    pthread_mutex_lock(&tablock);
    unsigned i = th(p); while(tab[i] && tab[i] != p) i = (i + 1) & (TABN - 1);
    if(tab[i]) { tab[i] = TOMB; dv_live_allocs--; dv_live_bytes -= malloc_usable_size(p); r = 1; }
    pthread_mutex_unlock(&tablock);
    return r;
}
void dv_dump_allocs(const char *what) { fprintf(stderr, "%s:", what); for(int i = 0; i < TABN; i++) if(tab[i] && tab[i] != TOMB) fprintf(stderr, " %zu", malloc_usable_size(tab[i])); fprintf(stderr, "\n"); }
void *dv_malloc(size_t n) { if(inject(DV_MALLOC)) return NULL; void *p = malloc(n); track(p); return p; }
void *dv_calloc(size_t a, size_t b) { if(inject(DV_MALLOC)) return NULL; void *p = calloc(a, b); track(p); return p; }
void *dv_realloc(void *q, size_t n) {
    if(inject(DV_MALLOC)) return NULL;
    if(q) untrack(q);
    void *p = realloc(q, n); track(p ? p : (n ? q : NULL)); return p;
}
int dv_posix_memalign(void **pp, size_t al, size_t n) {
    if(inject(DV_MALLOC)) return ENOMEM;
    int r = posix_memalign(pp, al, n); if(r == 0) track(*pp); return r;
}
void *dv_aligned_alloc(size_t al, size_t n) { if(inject(DV_MALLOC)) return NULL; void *p = aligned_alloc(al, n); track(p); return p; }
void dv_free(void *p) { if(p) untrack(p); free(p); }
char *dv_strdup(const char *s) { if(inject(DV_MALLOC)) return NULL; char *p = strdup(s); track(p); return p; }
int dv_mprotect(void *p, size_t n, int prot) {
    if(prot == PROT_NONE && inject(DV_MPROTECT)) return -1;
    return mprotect(p, n, prot);
}
/* ------------------------------------------------------------------ sockets */
int (*dv_on_connect)(int, const struct sockaddr *, socklen_t, int *);
int (*dv_on_send)(int, const void *, size_t);
ssize_t (*dv_on_recv)(int, const struct iovec *, size_t);
void (*dv_on_socket)(int, int, int);
void (*dv_on_close)(int);
int dv_socket(int d, int t, int p) {
    if(inject(DV_SOCKET)) return -1;
    int r = socket(d, t, p);
    if(dv_on_socket && r >= 0) dv_on_socket(r, d, t);
    return r;
}
int dv_bind(int s, const struct sockaddr *a, socklen_t l) { if(inject(DV_BIND)) return -1; return bind(s, a, l); }
int dv_listen(int s, int b) { if(inject(DV_LISTEN)) return -1; return listen(s, b); }
int dv_abort_pct;
static int aborted(void) { if(!dv_abort_pct || !dv_pct(dv_abort_pct)) return 0; dv_stat("accept_aborts", 1); errno = ECONNABORTED; return 1; }
int dv_accept(int s, struct sockaddr *a, socklen_t *l) { if(inject(DV_ACCEPT) || aborted()) return -1; return accept(s, a, l); }
int dv_accept4(int s, struct sockaddr *a, socklen_t *l, int f) { if(inject(DV_ACCEPT) || aborted()) return -1; return accept4(s, a, l, f); }
int dv_connect(int s, const struct sockaddr *a, socklen_t l) {
    if(inject(DV_CONNECT)) return -1;
    int rc;
    if(dv_on_connect && dv_on_connect(s, a, l, &rc)) return rc;
    return connect(s, a, l);
}
static int isstream(int s) {
    int t = 0; socklen_t l = sizeof t;
    return getsockopt(s, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && t == SOCK_STREAM;
}
/* how many bytes of a stream transfer of n bytes to allow; -1: answer EAGAIN */
static ssize_t cut(int s, size_t n) {
    dv_io_calls++;
    if(!dv_short_pct && !dv_again_pct && !dv_io_max) return n;
    if(!isstream(s)) return n;
    if(dv_again_pct && dv_pct(dv_again_pct)) return -1;
    if(dv_short_pct && n > 1 && dv_pct(dv_short_pct)) n = 1 + dv_below(dv_pct(50) ? (n < 16 ? n : 16) : n);
    if(dv_io_max && n > dv_io_max) n = dv_io_max;
    return n;
}
static size_t iovcut(const struct msghdr *m, struct iovec *v, size_t maxv, size_t *nv, size_t lim) {
    size_t k = 0, tot = 0;
    for(size_t i = 0; i < m->msg_iovlen && k < maxv; i++) {
        if(tot >= lim && tot) break;
        v[k] = m->msg_iov[i];
        if(v[k].iov_len > lim - tot) v[k].iov_len = lim - tot;
        tot += v[k].iov_len; k++;
    }
    *nv = k;
    return tot;
}
static size_t iovtot(const struct msghdr *m) { size_t t = 0; for(size_t i = 0; i < m->msg_iovlen; i++) t += m->msg_iov[i].iov_len; return t; }
ssize_t dv_sendmsg(int s, const struct msghdr *m, int f) {
    if(inject(DV_SEND)) return -1;
    if(dv_on_send) for(size_t i = 0; i < m->msg_iovlen; i++) dv_on_send(s, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    size_t n = iovtot(m);
    ssize_t c = cut(s, n);
    if(c < 0) { errno = EAGAIN; return -1; }
    if((size_t)c == n || m->msg_iovlen > 4096) return sendmsg(s, m, f);
    struct iovec v[m->msg_iovlen]; size_t nv; iovcut(m, v, m->msg_iovlen, &nv, c);
    struct msghdr h = *m; h.msg_iov = v; h.msg_iovlen = nv;
    return sendmsg(s, &h, f);
}
ssize_t dv_recvmsg(int s, struct msghdr *m, int f) {
    if(inject(DV_RECV)) return -1;
    if(dv_on_recv) { ssize_t r = dv_on_recv(s, m->msg_iov, m->msg_iovlen); if(r >= -1) return r; }
    size_t n = iovtot(m);
    ssize_t c = cut(s, n);
    if(c < 0) { errno = EAGAIN; return -1; }
    if((size_t)c == n || m->msg_iovlen > 4096) return recvmsg(s, m, f);
    struct iovec v[m->msg_iovlen]; size_t nv; iovcut(m, v, m->msg_iovlen, &nv, c);
    struct msghdr h = *m; h.msg_iov = v; h.msg_iovlen = nv;
    ssize_t r = recvmsg(s, &h, f);
    m->msg_flags = h.msg_flags; m->msg_namelen = h.msg_namelen; m->msg_controllen = h.msg_controllen;
    return r;
}
ssize_t dv_send(int s, const void *b, size_t n, int f) {
    if(inject(DV_SEND)) return -1;
    if(dv_on_send) dv_on_send(s, b, n);
    ssize_t c = cut(s, n); if(c < 0) { errno = EAGAIN; return -1; }
    return send(s, b, c, f);
}
ssize_t dv_recv(int s, void *b, size_t n, int f) {
    if(inject(DV_RECV)) return -1;
    if(dv_on_recv) { struct iovec v = {b, n}; ssize_t r = dv_on_recv(s, &v, 1); if(r >= -1) return r; }
    ssize_t c = cut(s, n); if(c < 0) { errno = EAGAIN; return -1; }
    return recv(s, b, c, f);
}
ssize_t dv_write(int s, const void *b, size_t n) {
    ssize_t c = cut(s, n); if(c < 0) { errno = EAGAIN; return -1; }
    return write(s, b, c);
}
ssize_t dv_read(int s, void *b, size_t n) {
    ssize_t c = cut(s, n); if(c < 0) { errno = EAGAIN; return -1; }
    return read(s, b, c);
}
ssize_t dv_sendto(int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    if(inject(DV_SEND)) return -1;
    return sendto(s, b, n, f, a, l);
}
ssize_t dv_recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    if(inject(DV_RECV)) return -1;
    return recvfrom(s, b, n, f, a, l);
}
int dv_epoll_create(int n) { if(inject(DV_EPOLL_CREATE)) return -1; return epoll_create(n); }
int dv_epoll_create1(int n) { if(inject(DV_EPOLL_CREATE)) return -1; return epoll_create1(n); }
int dv_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) {
    if(op == EPOLL_CTL_ADD && inject(DV_EPOLL_CTL)) return -1;
    return epoll_ctl(e, op, fd, ev);
}
int dv_dup(int fd) { if(inject(DV_DUP)) return -1; return dup(fd); }
int dv_socketpair(int d, int t, int p, int v[2]) { if(inject(DV_SOCKETPAIR)) return -1; return socketpair(d, t, p, v); }
int dv_shutdown(int s, int how) { if(inject(DV_SHUTDOWN)) return -1; return shutdown(s, how); }
int dv_getsockname(int s, struct sockaddr *a, socklen_t *l) { if(inject(DV_GETSOCK)) return -1; return getsockname(s, a, l); }
int dv_getsockopt(int s, int lv, int o, void *v, socklen_t *l) { if(inject(DV_GETSOCK)) return -1; return getsockopt(s, lv, o, v, l); }
int dv_close(int fd) {
    if(dv_on_close) dv_on_close(fd);
    int r = close(fd);
    if(r < 0 && errno == EBADF) dv_fail("close-ebadf", "library closed descriptor %d which is not open", fd);
    return r;
}
const char *(*dv_openpath)(const char *);
/* stand-ins for configuration files, private to the process */
static int netc; static char etcn[8][64], etcp[8][300];
static const char *etcfind(const char *p) { for(int i = 0; i < netc; i++) if(!strcmp(p, etcn[i])) return etcp[i]; return NULL; }
static void etcclean(void) { for(int i = 0; i < netc; i++) unlink(etcp[i]); }
void dv_etc(const char *path, const char *text) {
    int i; for(i = 0; i < netc && strcmp(path, etcn[i]); i++);
    if(i == netc) { const char *d = getenv("DV_SCRATCH"); snprintf(etcn[i], 64, "%s", path); snprintf(etcp[i], 300, "%s/%d-etc-%d", d ? d : "/tmp", (int)getpid(), i); netc++; if(netc == 1) atexit(etcclean); }
    FILE *f = fopen(etcp[i], "w"); if(!f || fputs(text, f) < 0 || fclose(f)) dv_fail("harness", "cannot write %s", etcp[i]);
    dv_openpath = etcfind;
}
FILE *dv_fopen(const char *p, const char *m) {
    if(inject(DV_OPEN)) return NULL;
    if(dv_openpath) { p = dv_openpath(p); if(!p) { errno = ENOENT; return NULL; } }
    return fopen(p, m);
}
int dv_open(const char *p, int fl, ...) {
    if(inject(DV_OPEN)) return -1;
    if(dv_openpath && strncmp(p, "/dev/", 5)) { p = dv_openpath(p); if(!p) { errno = ENOENT; return -1; } }
    va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
    return open(p, fl, md);
}
struct ifaddrs *dv_ifaddrs; int dv_ifaddrs_on; long dv_ifaddrs_live;
int dv_getifaddrs(struct ifaddrs **p) {
    if(inject(DV_IFADDRS)) return -1;
    dv_ifaddrs_live++;
    if(dv_ifaddrs_on) {   /* a private copy, so that misuse after freeing shows */
        struct ifaddrs **q = p; *q = NULL;
        for(struct ifaddrs *i = dv_ifaddrs; i; i = i->ifa_next) {
            *q = malloc(sizeof **q); **q = *i; (*q)->ifa_name = strdup(i->ifa_name); (*q)->ifa_next = NULL;
            if(i->ifa_addr) { size_t n = i->ifa_addr->sa_family == AF_INET6 ? 28 : 16; (*q)->ifa_addr = malloc(n); memcpy((*q)->ifa_addr, i->ifa_addr, n); }
            q = &(*q)->ifa_next;
        }
        return 0;
    }
    return getifaddrs(p);
}
void dv_freeifaddrs(struct ifaddrs *p) {
    dv_ifaddrs_live--;
    if(!dv_ifaddrs_on) { freeifaddrs(p); return; }
    while(p) { struct ifaddrs *n = p->ifa_next; free(p->ifa_name); free(p->ifa_addr); free(p); p = n; }
}

/* ------------------------------------------------------------------ helpers */
int dv_fdcount(void) {
    int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e;
    if(!d) return -1;
    while((e = readdir(d))) if(e->d_name[0] != '.') n++;
    closedir(d);
    return n - 1;
}
void dv_fdset(unsigned char *set, int n) { for(int i = 0; i < n; i++) set[i] = fcntl(i, F_GETFD) >= 0; }
/* layout: [size][canary 64][user][canary 64] */
#define CAN 64
void *dv_galloc(size_t sz) {
    unsigned char *p = malloc(16 + CAN + sz + CAN);
    *(size_t*)p = sz;
    memset(p + 16, 0xC7, CAN); memset(p + 16 + CAN + sz, 0xC9, CAN);
    memset(p + 16 + CAN, 0xAB, sz);
#if DV_ASAN
    __asan_poison_memory_region(p + 16, CAN); __asan_poison_memory_region(p + 16 + CAN + sz, CAN);
#endif
    return p + 16 + CAN;
}
void dv_gfree(void *u) {
    if(!u) return;
    unsigned char *p = (unsigned char*)u - CAN - 16; size_t sz = *(size_t*)p;
#if DV_ASAN
    __asan_unpoison_memory_region(p + 16, CAN); __asan_unpoison_memory_region(p + 16 + CAN + sz, CAN);
#endif
    for(int i = 0; i < CAN; i++) {
        if(p[16 + i] != 0xC7) dv_fail("guard", "byte %d before a caller buffer of %zu bytes was written", CAN - i, sz);
        if(p[16 + CAN + sz + i] != 0xC9) dv_fail("guard", "byte %d after a caller buffer of %zu bytes was written", i, sz);
    }
    free(p);
}

/* ------------------------------------------------------------------ main loop */
static void onsig(int s) {
    static const char *nm = "?";
    nm = s == SIGPIPE ? "SIGPIPE" : s == SIGABRT ? "SIGABRT" : s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIGILL";
    fprintf(out, "V %ld signal-%s | process received %s\n", casno, nm, nm);
    fflush(out);
    _exit(11);
}
/* A case that keeps burning processor time has hung. */
int dv_hang_s = 30;
static void onprof(int n) {
    char b[100]; int k = snprintf(b, sizeof b, "V %ld hang | case used %d s of processor time\n", casno, dv_hang_s);
    if(write(fileno(out), b, k) < 0) {}
    _exit(10);
}
static void armhang(void) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = dv_hang_s;
    setitimer(ITIMER_PROF, &it, NULL);
}
__attribute__((weak)) void dv_init(void) {}
__attribute__((weak)) void dv_done(void) {}
int main(int argc, char **argv) {
    uint64_t base = 1; long from = 0, to = 1;
    for(int i = 1; i < argc; i++) {
        if(!strcmp(argv[i], "--seed")) base = strtoull(argv[++i], NULL, 10);
        else if(!strcmp(argv[i], "--from")) from = atol(argv[++i]);
        else if(!strcmp(argv[i], "--to")) to = atol(argv[++i]);
        else if(!strcmp(argv[i], "--mode")) dv_mode = argv[++i];
        else if(!strcmp(argv[i], "--scale")) dv_scale = atol(argv[++i]);
        else if(!strcmp(argv[i], "-v")) dv_verbose = 1;
    }
    int o = dup(1); fcntl(o, F_SETFD, FD_CLOEXEC);
    int hi = fcntl(o, F_DUPFD_CLOEXEC, 1000); if(hi >= 0) { close(o); o = hi; }
    out = fdopen(o, "w"); setvbuf(out, NULL, _IOLBF, 4096);
    static char altstk[65536]; stack_t ss = {.ss_sp = altstk, .ss_size = sizeof altstk}; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    sigaction(SIGPIPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
#if !DV_ASAN
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
#endif
    sa.sa_handler = onprof; sigaction(SIGPROF, &sa, NULL);
    dv_init();
    for(casno = from; casno < to; casno++) {
        uint64_t x = base * 0x9e3779b97f4a7c15ULL + casno;
        dv_seed = rs = x; dv_rand(); dv_rand();
        sig = 1469598103934665603ULL; nontriv = 0; idlespin = 0;
        dv_eintr_pct = dv_short_pct = dv_again_pct = dv_abort_pct = 0; dv_io_max = 0; dv_failat = -1; dv_failmask = ~0u; dv_fail_errno = 0;
        dv_deadlock = NULL; dv_on_recv = NULL; dv_on_send = NULL; dv_on_close = NULL; dv_on_connect = NULL; dv_on_socket = NULL; dv_grace = 0; dv_onwait = NULL; dv_onidle = NULL; dv_failed_kind = -1;
        fprintf(out, "C %ld\n", casno);
        armhang();
        dv_case();
        fprintf(out, "D %ld %d %016llx\n", casno, nontriv, (unsigned long long)sig);
    }
    dv_done();
    dumpstats();
    fprintf(out, "E\n");
    fflush(out);
    return 0;
}
