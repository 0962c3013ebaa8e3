/* C09: several threads use the library at once. Each thread's program is deterministic in its own virtual time, so its
   trace must be the one it produces when it runs alone. Modes: p (mixed programs), f (first use at the same moment). */
#include "dv.h"
#include "libdill.h"
#include <pthread.h>
#include <sys/socket.h>

#define MAXEV 6000
struct st { uint64_t seed; uint32_t ev[MAXEV]; int nev; int ch[6]; int nch; int actors; int depth; int stop; };
static __thread struct st *T;
static void ev(uint32_t op, long r, int e) {
    if(T->nev < MAXEV) T->ev[T->nev++] = (uint32_t)(op * 2654435761u) ^ (uint32_t)(r * 40503u) ^ (uint32_t)(e << 20) ^ (uint32_t)(dv_vt * 31u);
}
static int opx(uint32_t op, int rc) { int e = rc < 0 ? errno : 0; ev(op, rc, e); return rc; }
static coroutine void act(int id, int n);
static int step(int id) {
    int r = dv_below(100), rc, v = id * 1000 + T->nev;
    int64_t dl = dv_pct(20) ? -1 : dv_pct(30) ? 0 : now() + dv_below(40);
    if(dl == -1) dl = now() + 500;
    int ch = T->ch[dv_below(T->nch)];
    if(r < 20) rc = opx(1, chsend(ch, &v, sizeof v, dl));
    else if(r < 40) { rc = opx(2, chrecv(ch, &v, sizeof v, dl)); if(rc == 0) ev(3, v, 0); }
    else if(r < 50) { int v2 = v; struct chclause c[2] = {{CHSEND, ch, &v, sizeof v}, {CHRECV, T->ch[dv_below(T->nch)], &v2, sizeof v2}}; rc = opx(4, choose(c, 2, dl)); ev(5, v2, 0); }
    else if(r < 65) rc = opx(6, msleep(now() + dv_below(30)));
    else if(r < 75) rc = opx(7, yield());
    else if(r < 85 && T->actors < 30) { T->actors++; int h = go(act(T->actors, 1 + dv_below(10))); opx(8, h); if(h >= 0) { if(dv_pct(50)) opx(9, bundle_wait(h, now() + dv_below(50))); opx(10, hclose(h)); } rc = 0; }
    else if(r < 92) {
        int p[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, p)) { dv_fail("harness", "socketpair"); }
        if(dv_pct(50)) send(p[1], "x", 1, 0);
        int k = dv_below(2);
        rc = k ? fdin(p[0], now() + dv_below(5)) : fdout(p[0], -1); ev(11, rc, rc < 0 ? errno : 0);
        int e = errno; fdclean(p[0]); close(p[0]); close(p[1]); errno = e;
    }
    else { int q[2]; rc = chmake(q); if(rc == 0) { ev(12, q[0] * 100 + q[1], 0); hclose(q[0]); hclose(q[1]); } }
    if(rc < 0 && errno == ECANCELED) return -1;
    return 0;
}
static coroutine void act(int id, int n) {
    ev(20, id, 0);
    while(n--) if(step(id) < 0) break;
    ev(21, id, 0);
}
static int retry(void) { return 1; }
static coroutine void peer(int s, int n) {
    char b[3000]; for(int i = 0; i < n; i++) b[i] = i * 7;
    opx(30, bsend(s, b, n, -1));
    opx(31, brecv(s, b, n, -1));
    opx(32, hclose(s));
}
static coroutine void tpeer(struct ipaddr *a, int n) { int s = tcp_connect(a, -1); ev(33, s >= 0, s < 0 ? errno : 0); if(s >= 0) peer(s, n); }
static coroutine void wpeer(int s) {
    struct ws_storage m; int w = ws_attach_client_mem(s, WS_TEXT, "/", "h", &m, -1); opx(34, w);
    if(w < 0) return;
    opx(35, msend(w, "hello", 5, -1)); char b[8]; opx(36, mrecv(w, b, sizeof b, -1));
    int u = ws_detach(w, 1000, NULL, 0, -1); opx(37, u); if(u >= 0) hclose(u); else hclose(w);
}
static void net(void) {
    int p[2], n = 1 + dv_below(3000), k = dv_below(6); char b[3000];
    dv_deadlock = retry;
    ev(40, k, 0);
    if(k <= 1) {
        if(k == 0) { CHECK(ipc_pair(p) == 0, "ipc", "ipc_pair"); int h = go(peer(p[1], n)); opx(41, brecv(p[0], b, n, -1)); for(int i = 0; i < n; i++) CHECK(b[i] == (char)(i * 7), "data", "byte %d", i); opx(42, bsend(p[0], b, n, -1)); bundle_wait(h, -1); hclose(h); hclose(p[0]); }
        else {
            struct ipaddr a; CHECK(ipaddr_local(&a, "127.0.0.1", 0, 0) == 0, "ipaddr", "ipaddr_local");
            int l = tcp_listen(&a, 10); CHECK(l >= 0, "listen", "tcp_listen");
            int h = go(tpeer(&a, n)), s = tcp_accept(l, NULL, -1); CHECK(s >= 0, "accept", "tcp_accept");
            opx(41, brecv(s, b, n, -1)); for(int i = 0; i < n; i++) CHECK(b[i] == (char)(i * 7), "data", "byte %d", i);
            opx(42, bsend(s, b, n, -1)); bundle_wait(h, -1); hclose(h); hclose(s); hclose(l);
        }
    } else if(k == 2) {
        struct ipaddr a1, a2; ipaddr_local(&a1, "127.0.0.1", 0, 0); ipaddr_local(&a2, "127.0.0.1", 0, 0);
        int s1 = udp_open(&a1, NULL), s2 = udp_open(&a2, &a1); CHECK(s1 >= 0 && s2 >= 0, "udp", "udp_open");
        opx(43, udp_send(s2, NULL, b, n > 1000 ? 1000 : n)); ssize_t z = udp_recv(s1, NULL, b, sizeof b, -1); ev(44, z, 0);
        hclose(s1); hclose(s2);
    } else if(k == 3) {
        CHECK(ipc_pair(p) == 0, "ipc", "ipc_pair");
        int h = go(wpeer(p[1])); char rs[64], hs[64]; int w = ws_attach_server(p[0], WS_TEXT, rs, sizeof rs, hs, sizeof hs, -1); opx(45, w);
        char c[16]; if(w >= 0) { opx(46, mrecv(w, c, sizeof c, -1)); opx(47, msend(w, "yo", 2, -1)); int u = ws_detach(w, 1000, NULL, 0, -1); opx(48, u); if(u >= 0) hclose(u); else hclose(w); }
        bundle_wait(h, -1); hclose(h);
    } else if(k == 4) {
        struct ipaddr a[4]; int r = ipaddr_remotes(a, 4, "localhost", 80, dv_pct(50) ? 0 : IPADDR_IPV4, now() + 1000); opx(49, r);
    } else {
        CHECK(ipc_pair(p) == 0, "ipc", "ipc_pair");
        int x = prefix_attach(p[0], 2, 0), y = prefix_attach(p[1], 2, 0); opx(50, x); opx(51, y);
        opx(52, msend(x, b, n, -1)); ev(53, mrecv(y, b, sizeof b, -1), 0);
        hclose(x); hclose(y);
    }
    dv_stat("network_sections", 1);
    dv_deadlock = NULL;
}
static void program(struct st *t) {
    T = t; t->nev = 0; t->actors = 0; dv_thread_seed(t->seed);
    if(dv_mode[0] == 'f') { for(int i = 0; i < 3; i++) net(); }
    t->nch = 1 + dv_below(3);
    int c[6], i;
    for(i = 0; i < t->nch; i++) { CHECK(chmake(&c[2 * i]) == 0, "chmake", "chmake"); t->ch[i] = c[2 * i + dv_below(2)]; ev(60, c[2 * i], c[2 * i + 1]); }
    int rounds = 1 + dv_below(3);
    while(rounds--) {
        int h[8], n = 1 + dv_below(6);
        t->actors = 0;
        for(i = 0; i < n; i++) { h[i] = go(act(i, 5 + dv_below(30))); opx(61, h[i]); }
        opx(62, msleep(now() + dv_below(200)));
        for(i = 0; i < n; i++) opx(63, hclose(h[i]));
        net();
    }
    for(i = 0; i < 2 * t->nch; i++) opx(64, hclose(c[i]));
}
static pthread_barrier_t bar;
static void *thr(void *a) { struct st *t = a; pthread_barrier_wait(&bar); program(t); return NULL; }
static void *lone(void *a) { program(a); return NULL; }
/* threads which use one facility only, most of them no coroutine */
static void *sparse(void *a) {
    T = NULL; dv_thread_seed((uintptr_t)a); int c[2], v = 3;
    switch((uintptr_t)a % 8) {
    case 0: CHECK(now() > 0, "sparse", "now"); break;
    case 1: CHECK(chmake(c) == 0 && hclose(c[0]) == 0 && hclose(c[1]) == 0, "sparse", "chmake"); break;
    case 2: CHECK(msleep(now() + 1) == 0, "sparse", "msleep"); break;
    case 3: { CHECK(pipe(c) == 0, "harness", "pipe"); CHECK(fdin(c[0], now() + 1) == -1 && errno == ETIMEDOUT, "sparse", "fdin gave %d", errno); CHECK(fdclean(c[0]) == 0, "sparse", "fdclean"); close(c[0]); close(c[1]); break; }
    case 4: { int b = bundle(); CHECK(b >= 0 && bundle_wait(b, -1) == 0 && hclose(b) == 0, "sparse", "bundle"); break; }
    case 5: CHECK(chmake(c) == 0 && chrecv(c[0], &v, sizeof v, now() + 2) == -1 && errno == ETIMEDOUT && hclose(c[0]) == 0 && hclose(c[1]) == 0, "sparse", "chrecv"); break;
    case 6: CHECK(hclose(5) == -1 && errno == EBADF, "sparse", "hclose"); break;
    default: CHECK(yield() == 0, "sparse", "yield");
    }
    dv_stat("sparse_threads", 1); return NULL;
}
#define NT 8
static struct st A[NT], B[NT];
void dv_init(void) { dv_etc("/etc/hosts", "127.0.0.1 localhost\n"); dv_etc("/etc/resolv.conf", "nameserver 127.0.0.1\nlookup file bind\n"); }
void dv_case(void) {
    static int fd0 = -1; static long live0 = -1; static int warm;
    int n = 2 + dv_below(NT - 1), i; pthread_t t[NT];
    pthread_barrier_init(&bar, NULL, n);
    for(i = 0; i < n; i++) A[i].seed = B[i].seed = dv_rand();
    int same = dv_pct(30); if(same) for(i = 1; i < n; i++) A[i].seed = B[i].seed = A[0].seed;
    uint64_t s = dv_rand();
    for(i = 0; i < n; i++) if(pthread_create(&t[i], NULL, thr, &A[i])) dv_fail("harness", "pthread_create");
    for(i = 0; i < n; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    long ev_ = 0;
    for(i = 0; i < n; i++) {
        if(i && same) memcpy(B[i].ev, B[0].ev, sizeof B[0].ev), B[i].nev = B[0].nev;
        else { if(pthread_create(&t[0], NULL, lone, &B[i])) dv_fail("harness", "pthread_create"); pthread_join(t[0], NULL); }
        for(int k = 0; k < A[i].nev && k < B[i].nev; k++)
            CHECK(A[i].ev[k] == B[i].ev[k], "trace", "thread %d of %d behaved differently from the same program running alone at event %d", i, n, k);
        CHECK(A[i].nev == B[i].nev, "trace", "thread %d made %d events together with others and %d alone", i, A[i].nev, B[i].nev);
        ev_ += A[i].nev; dv_sig(dv_hash(A[i].ev, A[i].nev * 4, 1));
    }
    dv_thread_seed(s);
    dv_stat("threads", n); dv_stat("events_compared", ev_);
    int ns = dv_below(7); for(i = 0; i < ns; i++) if(pthread_create(&t[i], NULL, sparse, (void*)(uintptr_t)dv_below(1 << 30))) dv_fail("harness", "pthread_create");
    for(i = 0; i < ns; i++) pthread_join(t[i], NULL);
    if(ev_ > 100) dv_nontrivial();
    dv_sample("%d threads, %ld events compared%s", n, ev_, same ? ", same program in all" : "");
    /* what ended threads held is released: /dev/urandom and resolver data may stay open once */
    if(++warm == 6) { fd0 = dv_fdcount(); live0 = dv_live_allocs; }
    else if(warm > 6) {
        int f = dv_fdcount(); long l = dv_live_allocs;
        CHECK(f <= fd0 + 1, "fd-left", "%d descriptors open after all threads ended, %d before", f, fd0);
        CHECK(l <= live0 + 60, "memory-left", "%ld blocks held after all threads ended, %ld before", l, live0);
    }
}
