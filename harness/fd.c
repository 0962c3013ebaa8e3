/* Waiting for descriptors: online model of fdin/fdout/fdclean against the kernel's own readiness.
   Modes: f (general), c (clean/close/reuse), n (hundreds of descriptors at once), b (busy coroutines, T03). */
#include "dv.h"
#include "libdill.h"
#include <fcntl.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <limits.h>

#define NA 420
#define NF 900
enum { SOCK, PIPER, PIPEW, EVT };
struct fdobj { int fd, kind, open; int peer; };         /* peer: index in F or -1 */
static struct fdobj F[NF]; static int nf;
struct wt { int on, fd, dir, released, rdy_ever, rdy_last; int64_t dl, start, rdy_vt, due; };
static struct wt W[NA];
static int H[NA], alive[NA], cancelled[NA]; static int na;
static int busy, stopping, nready_last; static int64_t bound;
static int64_t made_ready[NF * 2];
static int readyfl(int dir, int re) { return !!(re & ((dir ? POLLOUT : POLLIN) | POLLERR | POLLHUP | POLLNVAL)); }
static int isready(int fd, int dir) {
    struct pollfd p = {fd, dir ? POLLOUT : POLLIN, 0};
    int r = poll(&p, 1, 0);
    return r > 0 && readyfl(dir, p.revents);
}
static void onwait(int timeout) {
    struct pollfd p[NA]; int ix[NA], n = 0;
    for(int i = 0; i < na; i++) if(W[i].on && !W[i].released) { p[n].fd = W[i].fd; p[n].events = W[i].dir ? POLLOUT : POLLIN; p[n].revents = 0; ix[n++] = i; }
    if(n) poll(p, n, 0);
    nready_last = 0;
    for(int k = 0; k < n; k++) nready_last += readyfl(W[ix[k]].dir, p[k].revents);
    for(int k = 0; k < n; k++) {
        struct wt *w = &W[ix[k]];
        w->rdy_last = readyfl(w->dir, p[k].revents);
        if(w->rdy_last) { if(!w->rdy_ever) w->rdy_vt = dv_vt; w->rdy_ever = 1; if(nready_last <= 128) w->released = 1; }
    }
    dv_stat("kernel_waits", 1);
    dv_max("ready_at_once", nready_last);
}
static void onidle(int timeout) {
    for(int i = 0; i < na; i++) if(W[i].on && W[i].rdy_last)
        dv_fail("lost-readiness", "descriptor %d is ready for %s, a coroutine waits for it and the thread goes idle", W[i].fd, W[i].dir ? "out" : "in");
}
static int waiter(int fd, int dir) { /* 2: certain, 1: possible, 0: none */
    int r = 0;
    for(int i = 0; i < na; i++) if(W[i].on && W[i].fd == fd && W[i].dir == dir) {
        if(!W[i].released && !cancelled[i] && !(W[i].dl >= 0 && W[i].dl <= dv_vt) && !(W[i].rdy_ever)) return 2;
        if(!W[i].released && !cancelled[i]) r = 1;
    }
    return r;
}
static int addfd(int fd, int kind) {
    int i; for(i = 0; i < nf; i++) if(!F[i].open) break;
    if(i == nf) { if(nf == NF) return -1; nf++; }
    F[i] = (struct fdobj){fd, kind, 1, -1};
    return i;
}
static void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
static int mkpair(void) {
    int v[2], k = dv_below(4), a, b;
    if(k <= 1) {
        if(socketpair(AF_UNIX, SOCK_STREAM, 0, v)) dv_fail("harness", "socketpair");
        a = addfd(v[0], SOCK); b = addfd(v[1], SOCK);
        int sz = 2048; setsockopt(v[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); setsockopt(v[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
    } else if(k == 2) {
        if(pipe(v)) dv_fail("harness", "pipe");
        fcntl(v[1], F_SETPIPE_SZ, 4096);
        a = addfd(v[0], PIPER); b = addfd(v[1], PIPEW);
    } else {
        v[0] = eventfd(0, EFD_NONBLOCK); a = addfd(v[0], EVT); nb(v[0]);
        return a;
    }
    nb(v[0]); nb(v[1]); F[a].peer = b; F[b].peer = a;
    return a;
}
static void fdput(int i) {
    char buf[4096] = {0}; uint64_t one = 1;
    if(F[i].kind == EVT) { one = dv_pct(30) ? 0xfffffffffffffffeULL : 1; if(write(F[i].fd, &one, 8)) {} }
    else if(F[i].kind == PIPER) return;
    else if(F[i].kind == PIPEW && !(F[i].peer >= 0 && F[F[i].peer].open && F[F[i].peer].peer == i)) return;
    else if(dv_pct(30)) { while((F[i].kind == SOCK ? send(F[i].fd, buf, sizeof buf, MSG_NOSIGNAL) : (isready(F[i].fd, 1) ? write(F[i].fd, buf, sizeof buf) : -1)) > 0); }
    else if(F[i].kind == SOCK) send(F[i].fd, buf, 1 + dv_below(8), MSG_NOSIGNAL);
    else { if(write(F[i].fd, buf, 1)) {} }
}
static void fdget(int i) {
    char buf[8192];
    if(F[i].kind == PIPEW) return;
    if(dv_pct(60)) { while(read(F[i].fd, buf, sizeof buf) > 0); } else if(read(F[i].fd, buf, 8)) {}
}
static int pickfd(void) {
    for(int t = 0; t < 20; t++) { int i = dv_below(nf); if(nf && F[i].open) return i; }
    return mkpair();
}
static int doclean(int i) {
    int fd = F[i].fd, w = waiter(fd, 0), o = waiter(fd, 1);
    errno = 0;
    int rc = fdclean(fd);
    if(w == 2 || o == 2) { CHECK(rc == -1 && errno == EBUSY, "clean-busy", "fdclean of a descriptor waited for returned %d errno %d", rc, errno); dv_stat("clean_busy", 1); }
    else if(!w && !o) CHECK(rc == 0, "clean-free", "fdclean of a free descriptor returned %d errno %d", rc, errno);
    if(rc == 0) dv_stat("cleaned", 1);
    dv_sig(0x30 + rc);
    return rc;
}
static void doclose(int i) {
    if(doclean(i)) return;
    int p = F[i].peer; if(p >= 0 && F[p].open && F[p].peer == i) F[p].peer = -1;
    if(F[i].peer >= 0 && F[i].kind == PIPER) { /* writers see SIGPIPE: forget the other end's writability by keeping it for waits only */ }
    close(F[i].fd); F[i].open = 0;
    dv_stat("closed", 1);
    if(dv_pct(70)) { mkpair(); dv_stat("number_reused", 1); }
}
static void badfd(void) {
    int fd, k = dv_below(4);
    if(k == 0) fd = -1 - (int)dv_below(5);
    else if(k == 1) fd = INT_MAX - (int)dv_below(2);
    else if(k == 2) fd = 1 << 30;
    else { fd = 3 + dv_below(200); if(fcntl(fd, F_GETFD) >= 0) return; }
    int op = dv_below(3), rc; int64_t dl = dv_pct(50) ? now() + 10 : -1, t = dv_vt;
    errno = 0;
    if(op == 0) rc = fdin(fd, dl); else if(op == 1) rc = fdout(fd, dl); else rc = fdclean(fd);
    int e = errno;
    if(op < 2) { CHECK(rc == -1 && (e == EBADF || e == ECANCELED), "badfd", "fd%s(%d) returned %d errno %d", op ? "out" : "in", fd, rc, e); CHECK(t == dv_vt || busy, "badfd-blocked", "waiting for a bad descriptor took time"); }
    else CHECK(rc == 0 || (rc == -1 && e == EBADF), "badfd-clean", "fdclean(%d) returned %d errno %d", fd, rc, e);
    dv_stat("bad_descriptors", 1);
}
/* returns -1 if the actor has to end */
static int dowait(int a, int i, int dir) {
    struct fdobj f = F[i]; int fd = f.fd;
    int b = waiter(fd, dir);
    int k = dv_below(10); int64_t dl = k < 3 ? (dv_pct(50) ? 0 : now() - 1) : k < 8 ? now() + dv_below(50) : -1;
    if(busy && k >= 3 && k < 8) dl = now() + dv_below(6000);
    struct wt *w = &W[a];
    memset(w, 0, sizeof *w); w->fd = fd; w->dir = dir; w->dl = dl; w->start = dv_vt; w->due = -1;
    if(b != 2) w->on = 1;
    int wascancelled = cancelled[a];
    errno = 0;
    int rc = dir ? fdout(fd, dl) : fdin(fd, dl), e = errno;
    w->on = 0;
    dv_sig((dir << 8) ^ rc ^ e * 7); dv_sig(dv_vt - w->start);
    if(rc == 0) {
        CHECK(b != 2, "second-waiter", "a second coroutine could wait for the same descriptor and direction");
        CHECK(w->rdy_ever, "spurious", "%s of descriptor %d (kind %d) succeeded but it was not ready at any kernel wait", dir ? "fdout" : "fdin", fd, f.kind);
        if(!busy && nready_last <= 128) CHECK(dv_vt == w->rdy_vt, "late", "resumed %lld ms after the descriptor was found ready", (long long)(dv_vt - w->rdy_vt));
        if(busy) { CHECK(dv_vt - w->rdy_vt <= bound, "late", "resumed %lld ms after a kernel wait found the descriptor ready", (long long)(dv_vt - w->rdy_vt)); dv_max("fd_lateness", dv_vt - w->rdy_vt); }
        dv_stat(dir ? "out_ready" : "in_ready", 1);
        return 0;
    }
    CHECK(rc == -1, "rc", "fd wait returned %d", rc);
    if(e == EBUSY) { CHECK(b, "busy", "EBUSY although nobody waits for the descriptor"); CHECK(dv_vt == w->start || busy, "busy-blocked", "EBUSY took time"); dv_stat("busy_refused", 1); return 0; }
    if(e == ECANCELED) { CHECK(cancelled[a], "cancel", "ECANCELED without cancellation"); dv_stat("wait_cancelled", 1); return -1; }
    CHECK(b != 2, "second-waiter", "a second waiter got errno %d instead of EBUSY", e);
    CHECK(!wascancelled, "cancelled-blocked", "a cancelled coroutine could block");
    CHECK(e == ETIMEDOUT, "errno", "fd wait failed with errno %d", e);
    CHECK(dl >= 0 && dv_vt >= dl, "early", "timed out %lld ms early", (long long)(dl - dv_vt));
    if(nready_last <= 128) CHECK(!w->rdy_last, "ready-timeout", "timed out although the descriptor was ready");
    int64_t due = dl > w->start ? dl : w->start;
    if(!busy) CHECK(dv_vt == due, "late-timeout", "timed out %lld ms late", (long long)(dv_vt - due));
    else { CHECK(dv_vt - due <= bound, "late-timeout", "timed out %lld ms late", (long long)(dv_vt - due)); dv_max("fd_timeout_lateness", dv_vt - due); }
    dv_stat("timed_out", 1);
    return 0;
}
static long steps, maxsteps; static int cleanmode;
static void step_(int a);
static int step(int a) {
    if(stopping || steps >= maxsteps) return -1;
    steps++;
    int r = dv_below(100);
    if(cleanmode && r < 25) { doclose(pickfd()); return 0; }
    if(r < 38) return dowait(a, pickfd(), dv_pct(50));
    if(r < 55) { fdput(pickfd()); return 0; }
    if(r < 68) { fdget(pickfd()); return 0; }
    if(r < 74) { doclose(pickfd()); return 0; }
    if(r < 78) { doclean(pickfd()); return 0; }
    if(r < 82) { badfd(); return 0; }
    if(r < 84) { int i = pickfd(); if(F[i].kind == SOCK) shutdown(F[i].fd, dv_below(3)); return 0; }
    if(r < 88) { mkpair(); return 0; }
    if(r < 91) {
        /* cancel somebody */
        for(int t = 0; t < 5; t++) { int x = dv_below(na); if(x != a && H[x] >= 0) {
            int h = H[x]; H[x] = -1;
            if(alive[x]) cancelled[x] = 1;
            int rc = hclose(h); CHECK(rc == 0, "hclose", "hclose failed"); CHECK(!alive[x], "cancel-left", "coroutine still runs after its handle was closed");
            dv_stat("cancels", 1); break; } }
        return 0;
    }
    if(r < 96) { int rc = yield(); return rc; }
    return msleep(now() + dv_below(20));
}
static coroutine void actor(int a) {
    alive[a] = 1;
    int n = 1 + dv_below(60);
    while(n-- && !cancelled[a]) if(step(a) < 0) break;
    alive[a] = 0;
}
static void prep(void) { nf = na = 0; steps = 0; stopping = 0; memset(W, 0, sizeof W); memset(cancelled, 0, sizeof cancelled); memset(alive, 0, sizeof alive); dv_onwait = onwait; dv_onidle = onidle; nready_last = 0; busy = 0; }
static void finish(void) {
    stopping = 1;
    for(int i = 0; i < na; i++) if(H[i] >= 0) { if(alive[i]) cancelled[i] = 1; int h = H[i]; H[i] = -1; CHECK(hclose(h) == 0, "hclose", "hclose"); CHECK(!alive[i], "cancel-left", "coroutine still runs"); }
    for(int i = 0; i < nf; i++) if(F[i].open) { int rc = fdclean(F[i].fd); CHECK(rc == 0, "clean-free", "fdclean at the end returned errno %d", errno); close(F[i].fd); F[i].open = 0; }
}
static void general(void) {
    prep();
    dv_eintr_pct = dv_pct(30) ? 10 : 0;
    cleanmode = dv_mode[0] == 'c';
    maxsteps = 200 + dv_below(400);
    int n = 2 + dv_below(10);
    for(int i = 0; i < 2 + (int)dv_below(5); i++) mkpair();
    int total = n + dv_below(20);
    for(int i = 0; i < total && steps < maxsteps; i++) {
        int a = na++; H[a] = -1;
        int h = go(actor(a)); CHECK(h >= 0, "go", "go failed"); H[a] = h;
        if(i >= n) { int rc = msleep(now() + dv_below(40)); CHECK(rc == 0, "msleep", "main msleep %d", errno); }
        else if(dv_pct(30)) yield();
    }
    for(int k = 0; k < 3; k++) msleep(now() + dv_below(60));
    long st = steps;
    finish();
    if(st > 40) dv_nontrivial();
    dv_sample("%d coroutines, %ld steps, %d descriptors", na, st, nf);
}
/* many descriptors become ready at once; everybody has to be resumed */
static int nres;
static coroutine void mwait(int a, int i, int dir) {
    alive[a] = 1;
    struct wt *w = &W[a]; memset(w, 0, sizeof *w); w->fd = F[i].fd; w->dir = dir; w->dl = -1; w->start = dv_vt; w->on = 1;
    int rc = dir ? fdout(F[i].fd, -1) : fdin(F[i].fd, -1);
    w->on = 0;
    CHECK(rc == 0, "many", "wait failed with errno %d", errno);
    CHECK(w->rdy_ever, "spurious", "resumed although not ready");
    nres++; alive[a] = 0;
}
static void many(void) {
    prep();
    int n = 100 + dv_below(300); nres = 0;
    for(int i = 0; i < n; i++) { int v = eventfd(0, EFD_NONBLOCK); addfd(v, EVT); }
    for(int i = 0; i < n; i++) { int a = na++; H[a] = -1; H[a] = go(mwait(a, i, 0)); CHECK(H[a] >= 0, "go", "go"); }
    msleep(now() + 5);
    CHECK(nres == 0, "spurious", "resumed early");
    uint64_t one = 1; int k = 0; unsigned char on[NF] = {0};
    for(int i = 0; i < n; i++) if(dv_pct(80)) { if(write(F[i].fd, &one, 8)) {} on[i] = 1; k++; }
    int64_t t = dv_vt;
    msleep(now() + 1);
    CHECK(nres == k && dv_vt == t + 1, "many-lost", "%d of %d ready waiters were resumed", nres, k);
    for(int i = 0; i < n; i++) CHECK(alive[i] == !on[i], "many-lost", "wrong waiter resumed");
    /* the others time out of the same state by cancellation, then everything works again */
    dv_stat("many_resumed", k); dv_sig(n); dv_sig(k); dv_nontrivial();
    for(int i = 0; i < n; i++) if(alive[i]) { if(write(F[i].fd, &one, 8)) {} }
    msleep(now() + 1);
    CHECK(nres == n, "many-lost", "%d of %d", nres, n);
    finish();
}
/* T03: coroutines that never stop running, timers and descriptors must be served all the same */
static int nb_, maxstep, bstop;
static coroutine void burner(int id) {
    while(!bstop) {
        dv_advance(1 + dv_below(maxstep)); dv_stat("burns", 1);
        if(dv_pct(10)) { int ch[2]; if(chmake(ch) == 0) { /* non-blocking work in between */ char c; chrecv(ch[0], &c, 1, 0); hclose(ch[0]); hclose(ch[1]); } }
        if(yield() < 0) return;
    }
}
static int served;
static coroutine void bsleep(int a) {
    while(!bstop) {
        int64_t dl = now() + dv_below(4000), t;
        int rc = msleep(dl); if(rc < 0) return;
        t = dv_vt;
        CHECK(t >= dl, "early", "timer early by %lld", (long long)(dl - t));
        CHECK(t - dl <= bound, "starved-timer", "timer was served %lld ms late (bound %lld) while other coroutines kept running", (long long)(t - dl), (long long)bound);
        dv_max("timer_lateness", t - dl); served++; dv_stat("timers_served", 1); dv_sig(t - dl);
    }
}
static int64_t stamp[64];
static coroutine void bwaiter(int a, int i) {
    while(!bstop) {
        struct wt *w = &W[a]; memset(w, 0, sizeof *w);
        int rc = fdin(F[i].fd, -1); if(rc < 0) return;
        int64_t t = dv_vt; uint64_t v; if(read(F[i].fd, &v, 8)) {}
        CHECK(stamp[a] >= 0, "spurious", "descriptor wait ended though nothing was written");
        CHECK(t - stamp[a] <= bound, "starved-fd", "descriptor became ready %lld ms ago (bound %lld) while other coroutines kept running", (long long)(t - stamp[a]), (long long)bound);
        dv_max("fd_lateness", t - stamp[a]); stamp[a] = -1; served++; dv_stat("fds_served", 1); dv_sig(t);
    }
}
static coroutine void bwriter(int n, int base) {
    while(!bstop) {
        int k = dv_below(n); uint64_t one = 1;
        if(stamp[base + k] < 0) { stamp[base + k] = dv_vt; if(write(F[k].fd, &one, 8)) {} }
        if(yield() < 0) return;
    }
}
static void busycase(void) {
    prep(); bstop = 0; served = 0; dv_onwait = NULL; dv_onidle = NULL; busy = 1;
    maxstep = dv_pct(50) ? 1 + dv_below(20) : 1 + dv_below(400); nb_ = 1 + dv_below(5);
    int ns = dv_below(5), nw = dv_below(5) + 1;
    bound = 1001 + (int64_t)maxstep * (nb_ + 1) * 2;
    int h[64], n = 0;
    for(int i = 0; i < nw; i++) { addfd(eventfd(0, EFD_NONBLOCK), EVT); stamp[i] = -1; }
    /* stamps are indexed by waiter */
    for(int i = 0; i < nw; i++) { int a = na++; h[n++] = go(bwaiter(a, i)); }
    for(int i = 0; i < ns; i++) { int a = na++; h[n++] = go(bsleep(a)); }
    for(int i = 0; i < nb_; i++) h[n++] = go(burner(i));
    h[n++] = go(bwriter(nw, 0));
    for(int i = 0; i < n; i++) CHECK(h[i] >= 0, "go", "go");
    int64_t t0 = dv_vt, len = 8000 + dv_below(8000) + maxstep * 30;
    int rc = msleep(now() + len); CHECK(rc == 0, "msleep", "msleep");
    CHECK(dv_vt - t0 <= len + bound, "starved-timer", "the main coroutine's timer was served %lld ms late", (long long)(dv_vt - t0 - len));
    CHECK(served > 0, "starved", "nothing was served in %lld ms", (long long)len);
    bstop = 1;
    for(int i = 0; i < n; i++) CHECK(hclose(h[i]) == 0, "hclose", "hclose");
    na = 0; finish(); dv_nontrivial();
    dv_sample("%d busy coroutines with steps up to %d ms, %d sleepers, %d descriptor waiters, %d services", nb_, maxstep, ns, nw, served);
}
void dv_case(void) {
    switch(dv_mode[0]) {
    case 'b': busycase(); break;
    case 'n': many(); break;
    default: general();
    }
}
