/* Common support of all harnesses: case loop, random numbers, reporting, virtual time, substituted system calls. */
#ifndef DV_H
#define DV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

/* ---- provided by each harness ---- */
void dv_case(void);                 /* runs one case; randomness only from dv_rand() */
extern const char *dv_modes;        /* unused marker, may be NULL */

/* ---- randomness ---- */
uint64_t dv_rand(void);
static inline uint64_t dv_below(uint64_t n) { return n ? dv_rand() % n : 0; }
static inline int dv_pct(int p) { return (int)dv_below(100) < p; }
static inline int64_t dv_range(int64_t lo, int64_t hi) { return lo + (int64_t)dv_below((uint64_t)(hi - lo + 1)); }
extern uint64_t dv_seed;            /* seed of the running case */
extern const char *dv_mode;         /* --mode argument or "" */
extern long dv_scale;               /* --scale argument (size of a case) */

/* ---- reporting ---- */
void dv_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define CHECK(cond, key, ...) do { if(!(cond)) dv_fail(key, __VA_ARGS__); } while(0)
void dv_stat(const char *name, long add);       /* summed over the run */
void dv_max(const char *name, long val);        /* maximum over the run */
void dv_sig(uint64_t h);                        /* folds into the signature of the case */
void dv_nontrivial(void);                       /* marks the case as non-trivial */
void dv_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void dv_log(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* verbose replay only */
extern int dv_verbose;

/* ---- virtual time ---- */
extern int dv_virtual;              /* 1: clock and waits are simulated */
extern __thread int64_t dv_vt;               /* virtual milliseconds */
extern __thread int dv_us;                   /* microseconds on top of dv_vt */
extern int dv_clockq;               /* resolution of the simulated clock in ms */
extern unsigned long dv_tsc_khz;    /* cycles per ms of the simulated cycle counter */
extern int64_t dv_tsc_off;          /* offset of the simulated cycle counter */
extern int dv_grace;                /* real ms to wait for the kernel before advancing the virtual clock */
extern __thread long dv_waits;               /* number of kernel waits issued by the library */
extern __thread long dv_waits0;              /* ... of which non-blocking */
extern __thread int dv_wait_ms;              /* timeout of the last wait */
extern __thread int (*dv_deadlock)(void);    /* called if an infinite wait can never end; nonzero: keep waiting (retry) */
extern __thread void (*dv_onwait)(int timeout);
extern __thread void (*dv_onidle)(int timeout); /* nothing was ready: time is about to pass */
void dv_advance(int64_t ms);        /* let virtual time pass while code runs */
extern int dv_eintr_pct;            /* percentage of waits interrupted by EINTR */

/* ---- fault injection in library calls ---- */
enum { DV_MALLOC = 0, DV_SOCKET, DV_BIND, DV_LISTEN, DV_ACCEPT, DV_CONNECT, DV_SEND, DV_RECV, DV_EPOLL_CREATE,
    DV_EPOLL_CTL, DV_MPROTECT, DV_DUP, DV_SOCKETPAIR, DV_SHUTDOWN, DV_GETSOCK, DV_OPEN, DV_IFADDRS, DV_NKINDS };
extern const char *dv_kindname[DV_NKINDS];
extern long dv_calls[DV_NKINDS];    /* calls made so far, per kind */
extern long dv_failat;              /* -1: none; n: the n-th eligible call from now (0 = next) fails */
extern unsigned dv_failmask;        /* kinds eligible */
extern int dv_failed_kind;          /* kind of the last injected failure or -1 */
extern int dv_fail_errno;           /* errno to use; 0: default of the kind */
extern long dv_nfailed;
extern int dv_short_pct;            /* percentage of transfers cut short */
extern int dv_again_pct;            /* percentage of transfers answered EAGAIN */
extern int dv_abort_pct;            /* percentage of accept() calls answered ECONNABORTED */
extern size_t dv_io_max;            /* max bytes per transfer, 0: unlimited */
extern long dv_live_allocs;         /* blocks allocated by the library and not freed */
extern long dv_live_bytes;
extern __thread long dv_io_calls;
void dv_thread_seed(uint64_t s);    /* starts the random sequence and the clock of a new thread */
uint64_t *dv_rngstate(void);          /* to be saved and restored around a warm-up */
/* getifaddrs replacement */
struct ifaddrs;
extern struct ifaddrs *dv_ifaddrs;  /* if set, reported instead of the real table */
extern int dv_ifaddrs_on;
extern long dv_ifaddrs_live;       /* tables obtained and not freed */
/* redirect of files opened by the library (resolver configuration) */
extern const char *(*dv_openpath)(const char *path);
void dv_etc(const char *path, const char *text);   /* the library sees this text in the file; other files do not exist for it */
extern int (*dv_on_connect)(int fd, const struct sockaddr *sa, socklen_t len, int *rc); /* nonzero: handled */
extern int (*dv_on_send)(int fd, const void *p, size_t n);
extern ssize_t (*dv_on_recv)(int fd, const struct iovec *v, size_t n); /* >= -1: handled */
extern void (*dv_on_socket)(int fd, int domain, int type);
extern void (*dv_on_close)(int fd);

/* ---- descriptors ---- */
int dv_fdcount(void);               /* number of open descriptors of the process */
void dv_fdset(unsigned char *set, int n);
/* guarded memory: bytes around the block are checked by dv_gcheck and are poisoned under ASan */
void dv_dump_allocs(const char *what);
void *dv_galloc(size_t sz);
void dv_gfree(void *p);
uint64_t dv_hash(const void *p, size_t n, uint64_t h);
#define DV_ASAN 0
#if defined(__SANITIZE_ADDRESS__)
#undef DV_ASAN
#define DV_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#undef DV_ASAN
#define DV_ASAN 1
#endif
#endif
#endif
