/* B01-B04, B02 close handshake: byte streams over TCP and local sockets against a position-pattern model.
   Modes: s (transfers), e (failures), b (busy), c (close handshake), k (a peer that never stops sending). */
#include "net.h"
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/stat.h>
struct dir { uint64_t seed; long sent, sentmax, rpos; int done, outerr, inerr, eof, sbusy, rbusy; long rgoal; struct { int64_t t; long v; } h[64]; int nh; };
static struct dir D[2];
struct ep { int h, open, how, hbundle[2], cancelled[2]; void *mem; };
static struct ep E[2];
static int ipc, stop, faultseen, total, lim;
static int retry(void) { return 1; }
static void commit(struct dir *d, long n) {
    d->sent += n; if(d->sentmax < d->sent) d->sentmax = d->sent;
    if(d->nh == 64) { memmove(d->h, d->h + 32, 32 * sizeof d->h[0]); d->nh = 32; }
    d->h[d->nh].t = dv_vt; d->h[d->nh++].v = d->sent;
}
static long sent_before(struct dir *d, int64_t t) { long v = 0; for(int i = 0; i < d->nh; i++) if(d->h[i].t < t) v = d->h[i].v; return v; }
static int64_t pickdl(int inf) {
    if(dv_mode[0] == 's' || dv_mode[0] == 'b') return dv_pct(80) ? -1 : now() + 100000;
    if(dv_pct(inf)) return -1;
    if(dv_pct(10)) return 0;
    if(dv_pct(5)) return now() - 5;
    return now() + dv_below(30);
}
static size_t picksize(void) {
    int r = dv_below(100); size_t n;
    if(r < 40) n = dv_below(65); else if(r < 70) n = dv_below(3000); else if(r < 82) n = 1982 + dv_below(6); else if(r < 95) n = dv_below(20000); else n = dv_below(300000);
    if((long)n > lim) n = lim;
    return n;
}
static int fault(int e) {   /* is this errno the injected failure, reported once? */
    if(dv_nfailed > faultseen && (e == dv_fail_errno || (dv_fail_errno == EPIPE && e == ECONNRESET))) { faultseen++; return 1; }
    return 0;
}
static void ontime(const char *what, int64_t t0, int64_t dl) {
    if(dl >= 0 && !dv_again_pct) CHECK(dv_vt <= (dl > t0 ? dl : t0) + 1, "late", "%s returned %lld ms after its deadline", what, (long long)(dv_vt - (dl > t0 ? dl : t0)));
}
static int dosend(int i, size_t n, int64_t dl) {
    struct dir *d = &D[i]; int pi = 1 - i;
    struct gl *g = gl_new(n, GL_MANY); gl_fill(g, d->seed, d->sent);
    int pdone = d->done, perr = d->outerr; int64_t t0 = dv_vt; int rc;
    if(!pdone && !perr && d->sent + (long)n > d->sentmax) d->sentmax = d->sent + n;
    d->sbusy = 1;
    if(g->n == 1 && dv_pct(60)) rc = bsend(E[i].h, g->b[0], n, dl); else rc = bsendl(E[i].h, gl_first(g), gl_last(g), dl);
    int e = errno;
    d->sbusy = 0;
    dv_log("%lld send ep%d n=%zu dl=%lld -> %d %s", (long long)dv_vt, i, n, (long long)dl, rc, rc ? strerror(e) : "");
    gl_same(g, "bsendl"); gl_check(g, n, d->seed, d->sent, "buffer being sent");
    if(dv_mode[0] != 'k') ontime("bsend", t0, dl);
    dv_stat("sends", 1); if(g->n > 1) dv_stat("lists_sent", 1);
    gl_free(g);
    if(pdone) CHECK(rc == -1 && e == EPIPE, "after-done", "bsend after done returned %d errno %d", rc, e);
    else if(perr) CHECK(rc == -1 && e == ECONNRESET, "after-failure", "bsend after a failed send returned %d errno %d", rc, e);
    else if(rc == 0) { commit(d, n); dv_stat("bytes_sent", n); }
    else {
        CHECK(rc == -1, "rc", "bsend returned %d", rc);
        d->outerr = 1; dv_stat("sends_failed", 1);
        if(fault(e)) { dv_stat("faults_reported", 1); }
        else if(e == ETIMEDOUT) CHECK(dl >= 0 && dv_vt >= dl, "early-timeout", "bsend timed out %lld ms early", (long long)(dl - dv_vt));
        else if(e == ECANCELED) CHECK(E[i].cancelled[0], "spurious-cancel", "bsend returned ECANCELED although not cancelled");
        else if(e == ECONNRESET) CHECK(!E[pi].open, "spurious-reset", "bsend returned ECONNRESET while the peer is open");
        else dv_fail("errno", "bsend failed with errno %d", e);
    }
    errno = e; dv_sig(rc * 131 + e + n * 7);
    return rc;
}
static int dorecv(int i, size_t n, int64_t dl) {
    struct dir *d = &D[1 - i]; struct gl *g = gl_new(n, GL_MANY | GL_NULLS);
    gl_blank(g);
    int peof = d->eof, perr = d->inerr; int64_t t0 = dv_vt; int rc; long s0 = d->sent;
    d->rbusy = 1; d->rgoal = d->rpos + n;
    if(g->n == 1 && dv_pct(60)) rc = brecv(E[i].h, g->b[0], n, dl); else rc = brecvl(E[i].h, gl_first(g), gl_last(g), dl);
    int e = errno;
    d->rbusy = 0;
    dv_log("%lld recv ep%d n=%zu list=%d dl=%lld -> %d %s", (long long)dv_vt, i, n, g->n, (long long)dl, rc, rc ? strerror(e) : "");
    gl_same(g, "brecvl"); if(dv_mode[0] != 'k') ontime("brecv", t0, dl);
    dv_stat("recvs", 1);
    if(peof) CHECK(rc == -1 && e == EPIPE, "eof-not-persistent", "brecv after EPIPE returned %d errno %d", rc, e);
    else if(perr) CHECK(rc == -1 && e == ECONNRESET, "after-failure", "brecv after a failed receive returned %d errno %d", rc, e);
    else if(rc == 0) {
        CHECK(d->rpos + (long)n <= d->sentmax, "invented", "received %ld bytes, at most %ld were sent", d->rpos + (long)n, d->sentmax);
        gl_check(g, n, d->seed, d->rpos, "brecv"); d->rpos += n; dv_stat("bytes_received", n);
    } else {
        CHECK(rc == -1, "rc", "brecv returned %d", rc);
        dv_stat("recvs_failed", 1);
        int needpeer = 0;
        if(e == EPIPE) { d->eof = 1; needpeer = 1; CHECK(d->rpos + (long)n > d->sent || d->outerr, "lost", "EPIPE at %ld+%zu although %ld bytes were sent", d->rpos, n, d->sent); dv_stat("epipes", 1); }
        else d->inerr = 1;
        if(needpeer) CHECK(d->done || !E[1 - i].open, "spurious-eof", "EPIPE although the peer has not ended its stream");
        else if(fault(e)) dv_stat("faults_reported", 1);
        else if(e == ETIMEDOUT) {
            CHECK(dl >= 0 && dv_vt >= dl, "early-timeout", "brecv timed out %lld ms early", (long long)(dl - dv_vt));
            if(ipc && !dv_again_pct && (dl > t0)) CHECK(d->rpos + (long)n > sent_before(d, dv_vt), "missed", "brecv of %zu timed out although %ld bytes had been sent before and %ld consumed", n, sent_before(d, dv_vt), d->rpos);
            if(ipc && !dv_again_pct && dl == 0) CHECK(d->rpos + (long)n > s0, "missed-immediate", "immediate brecv of %zu failed although %ld bytes were there", n, s0 - d->rpos);
        }
        else if(e == ECANCELED) CHECK(E[i].cancelled[1], "spurious-cancel", "brecv returned ECANCELED although not cancelled");
        else if(e == ECONNRESET) CHECK(!E[1 - i].open, "spurious-reset", "brecv returned ECONNRESET while the peer is open");
        else dv_fail("errno", "brecv failed with errno %d", e);
    }
    gl_free(g); errno = e; dv_sig(rc * 137 + e + n * 3);
    return rc;
}
static int dodone(int i, int64_t dl) {
    struct dir *d = &D[i]; int pdone = d->done, perr = d->outerr;
    int rc = ipc ? ipc_done(E[i].h, dl) : tcp_done(E[i].h, dl), e = errno;
    dv_log("%lld done ep%d -> %d %s", (long long)dv_vt, i, rc, rc ? strerror(e) : "");
    if(pdone) CHECK(rc == -1 && e == EPIPE, "second-done", "second done returned %d errno %d", rc, e);
    else if(perr) CHECK(rc == -1 && e == ECONNRESET, "done-after-failure", "done after a failed send returned %d errno %d", rc, e);
    else if(rc == 0) { d->done = 1; dv_stat("dones", 1); }
    else { CHECK(rc == -1 && !E[1 - i].open && e == ECONNRESET, "done", "done failed with errno %d", e); d->outerr = 1; }
    return rc;
}
static coroutine void sender(int i, int steps) {
    while(steps-- && !stop) {
        int r = dv_below(100);
        if(r < 25) { if(msleep(now() + dv_below(dv_mode[0] == 'b' ? 3 : 20)) < 0) return; continue; }
        if(r < 28 && dv_mode[0] == 'e') { dodone(i, pickdl(50)); continue; }
        if(dosend(i, picksize(), pickdl(50)) < 0 && errno == ECANCELED) return;
        if(D[i].outerr && dv_pct(50)) return;
    }
}
static coroutine void receiver(int i, int steps) {
    struct dir *d = &D[1 - i];
    while(steps-- && !stop) {
        int r = dv_below(100);
        if(r < 25) { if(msleep(now() + dv_below(20)) < 0) return; continue; }
        size_t n = picksize();
        if(dv_mode[0] == 's' && d->rpos + (long)n > d->sentmax) n = dv_below(d->sentmax - d->rpos + 1 + (dv_pct(20) ? 100 : 0));
        if(dorecv(i, n, pickdl(50)) < 0 && errno == ECANCELED) return;
        if((d->inerr || d->eof) && dv_pct(50)) return;
    }
}
/* lets the transfers of one direction complete */
static coroutine void feed(int i) {
    struct dir *d = &D[i];
    while(d->rbusy) {
        if(!d->sbusy && d->rgoal > d->sentmax && !d->outerr && !d->done) { if(dosend(i, d->rgoal - d->sent, -1) < 0) return; }
        else if(msleep(now() + 3) < 0) return;
    }
}
static coroutine void serve(int i) {
    struct dir *d = &D[i]; int h = go(feed(i));
    while(d->sbusy || d->rbusy) {
        if(d->sbusy && !d->rbusy && d->sentmax > d->rpos && !d->inerr && !d->eof) { if(dorecv(1 - i, 1 + dv_below(d->sentmax - d->rpos), -1) < 0) break; }
        else if(msleep(now() + 3) < 0) break;
    }
    hclose(h);
}
static coroutine void intruder(void) {
    char b[4] = "x";
    for(int k = 0; k < 60; k++) {
        if((dv_pct(50) ? yield() : msleep(now() + dv_below(4))) < 0) return;
        int i = dv_below(2); int64_t t = dv_vt; long w = dv_waits;
        if(D[i].sbusy && E[i].open) {
            int64_t dl = dv_pct(50) ? -1 : now() + 10; int rc = ipc && dv_pct(30) ? ipc_sendfd(E[i].h, 0, dl) : bsend(E[i].h, b, 1, dl);
            CHECK(rc == -1 && errno == EBUSY, "no-ebusy", "send while another coroutine sends returned %d errno %d", rc, errno);
            CHECK(dv_vt == t && dv_waits == w, "ebusy-slow", "refusal of a second sender took time");
            dv_stat("busy_send_refused", 1);
        }
        if(D[1 - i].rbusy && E[i].open) {
            int64_t dl = dv_pct(50) ? -1 : now() + 10; int rc = ipc && dv_pct(30) ? ipc_recvfd(E[i].h, dl) : brecv(E[i].h, b, 1, dl);
            CHECK(rc == -1 && errno == EBUSY, "no-ebusy", "receive while another coroutine receives returned %d errno %d", rc, errno);
            CHECK(dv_vt == t && dv_waits == w, "ebusy-slow", "refusal of a second receiver took time");
            dv_stat("busy_recv_refused", 1);
        }
    }
}
static coroutine void connector(struct ipaddr *a, int i) {
    E[i].h = E[i].mem ? tcp_connect_mem(a, E[i].mem, -1) : tcp_connect(a, -1);
}
static void mkpair(void) {
    int fds[2], rc;
    memset(D, 0, sizeof D); memset(E, 0, sizeof E);
    D[0].seed = dv_rand(); D[1].seed = dv_rand();
    for(int i = 0; i < 2; i++) E[i].mem = dv_pct(50) ? dv_galloc(ipc ? sizeof(struct ipc_storage) : sizeof(struct tcp_storage)) : NULL;
    if(ipc) {
        if(dv_pct(50)) {
            if(E[0].mem) dv_gfree(E[0].mem); if(E[1].mem) dv_gfree(E[1].mem); E[0].mem = E[1].mem = NULL;
            int s[2];
            if(dv_pct(50)) { E[0].mem = dv_galloc(sizeof(struct ipc_pair_storage)); rc = ipc_pair_mem(E[0].mem, s); } else rc = ipc_pair(s);
            CHECK(rc == 0, "ipc_pair", "ipc_pair failed"); E[0].h = s[0]; E[1].h = s[1];
        } else {
            CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, fds) == 0, "harness", "socketpair");
            if(dv_pct(30)) { int z = 4096; setsockopt(fds[0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); setsockopt(fds[1], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); }
            for(int i = 0; i < 2; i++) E[i].h = E[i].mem ? ipc_fromfd_mem(fds[i], E[i].mem) : ipc_fromfd(fds[i]);
        }
    } else {
        struct ipaddr a; rc = ipaddr_local(&a, dv_pct(50) ? "127.0.0.1" : "::1", 0, 0); CHECK(rc == 0, "harness", "ipaddr_local");
        int l = tcp_listen(&a, 5); CHECK(l >= 0, "tcp_listen", "tcp_listen");
        int h = go(connector(&a, 0)); int s = E[1].mem ? tcp_accept_mem(l, NULL, E[1].mem, -1) : tcp_accept(l, NULL, -1);
        E[1].h = s; bundle_wait(h, -1); hclose(h); hclose(l);
    }
    CHECK(E[0].h >= 0 && E[1].h >= 0, "connect", "could not make a pair");
    E[0].open = E[1].open = 1;
}
static void stopactor(int i, int k) {
    if(E[i].hbundle[k] < 0) return;
    E[i].cancelled[k] = 1;
    if(dv_pct(50)) dv_stat("cancelled", 1);
    int rc = hclose(E[i].hbundle[k]); CHECK(rc == 0, "hclose", "closing an actor failed"); E[i].hbundle[k] = -1;
}
static void closeep(int i, int soft, int64_t dl) {
    struct dir *out = &D[i], *in = &D[1 - i];
    int64_t t0 = dv_vt; int rc, e, h = E[i].h;
    int err0 = out->outerr || in->inerr, done0 = out->done;
    int peer0 = E[1 - i].open && !in->done;    /* peer had not ended its stream */
    if(!soft) { rc = hclose(h); e = errno; CHECK(rc == 0, "hclose", "hclose of a socket failed"); E[i].open = 0; E[i].how = 1; dv_stat("hclosed", 1); }
    else {
        if(!err0 && !done0) out->done = 1; /* the peer may see the end from now on */
        rc = ipc ? ipc_close(h, dl) : tcp_close(h, dl); e = errno;
        dv_log("%lld close ep%d dl=%lld -> %d %s (err0 %d done0 %d peer0 %d)", (long long)dv_vt, i, (long long)dl, rc, rc ? strerror(e) : "", err0, done0, peer0);
        E[i].open = 0; E[i].how = rc == 0 ? 2 : 3;
        ontime("close", t0, dl);
        if(err0) CHECK(rc == -1 && e == ECONNRESET, "close-after-failure", "close of a failed socket returned %d errno %d", rc, e);
        else if(rc == 0) {
            CHECK(!(E[1 - i].open && !in->done), "close-success", "close succeeded although the peer has not ended its stream");
            dv_stat("clean_closes", 1); if(peer0) dv_stat("clean_close_waited", 1);
        } else {
            CHECK(rc == -1, "rc", "close returned %d", rc); dv_stat("failed_closes", 1);
            if(fault(e)) ;
            else if(e == ETIMEDOUT) { CHECK(dl >= 0 && dv_vt >= dl, "early-timeout", "close timed out early"); if(ipc && dl > t0 && !dv_again_pct) CHECK(peer0, "close-failed", "close timed out although the peer had ended its stream"); }
            else if(e == ECANCELED) CHECK(E[i].cancelled[0] || E[i].cancelled[1], "spurious-cancel", "close returned ECANCELED");
            else if(e == ECONNRESET) CHECK(E[1 - i].how == 1 || E[1 - i].how == 3, "spurious-reset", "close returned ECONNRESET");
            else dv_fail("errno", "close failed with errno %d", e);
        }
    }
    rc = hclose(h); CHECK(rc == -1 && errno == EBADF, "not-closed", "the handle is still valid after close (rc %d errno %d)", rc, errno);
    char b; rc = bsend(h, &b, 1, 0); CHECK(rc == -1 && errno == EBADF, "not-closed", "the handle still works after close (rc %d errno %d)", rc, errno);
}
static coroutine void closer(int i, int soft, int delay, int64_t dl) { if(delay) msleep(now() + delay); closeep(i, soft, dl); }
static void drain(int i) {   /* endpoint i receives whatever is left */
    struct dir *d = &D[1 - i];
    if(!E[i].open || d->inerr || d->eof) return;
    long goal = d->sent;
    if(E[1 - i].how == 1 && !ipc) return;       /* reset: anything may be lost */
    while(d->rpos < goal) {
        size_t n = picksize(); if((long)n > goal - d->rpos) n = goal - d->rpos;
        CHECK(dorecv(i, n, -1) == 0, "drain", "could not receive the rest of the stream");
    }
    CHECK(d->rpos >= goal, "harness", "drain");
    if(d->outerr) { int lim1 = dv_below(600); while(d->rpos < d->sentmax) if(dorecv(i, lim1-- > 0 ? 1 : 1 + dv_below(2000), now() + 3) < 0) break; return; }
    if(d->done || E[1 - i].how >= 1) {
        for(int k = 0; k < 2; k++) CHECK(dorecv(i, 1 + dv_below(10), dv_pct(50) ? -1 : now() + 50) == -1 && (errno == EPIPE || (errno == ECONNRESET && (E[1 - i].how & 1))), "no-eof", "no EPIPE after the end of the stream (errno %d)", errno);
        dv_stat("streams_ended", 1);
    }
}
static void modeflood(void);
static coroutine void flood_recv(int h, int what, int64_t dl, int *res) {
    static char b[100000]; int rc;
    if(what == 0) rc = ipc ? ipc_close(h, dl) : tcp_close(h, dl);
    else if(what == 1) rc = brecv(h, NULL, 1 << 30, dl);
    else { struct iolist l = {NULL, 1 << 30, NULL, 0}; struct iolist f = {b, sizeof b, &l, 0}; rc = brecvl(h, &f, &l, dl); }
    res[0] = rc; res[1] = errno; res[2] = 1;
}
static long flooded;
static ssize_t floodhook(int fd, const struct iovec *v, size_t n) {
    ssize_t t = 0; for(size_t i = 0; i < n; i++) { memset(v[i].iov_base, 'f', v[i].iov_len); t += v[i].iov_len; }
    flooded += t;
    if((flooded + t) >> 20 > flooded >> 20) dv_advance(1);
    if(flooded > 600L << 20) dv_fail("flood", "an operation swallowed 600 MB without noticing its deadline or cancellation");
    return t;
}
static void modeflood(void) {
    int res[3] = {0, 0, 0}, what = dv_below(3); mkpair(); flooded = 0;
    char b[64] = {0};
    bsend(E[0].h, b, sizeof b, -1);
    dv_on_recv = floodhook;
    int h; int64_t t0 = now();
    if(dv_pct(50)) {
        int64_t dl = dv_pct(10) ? now() + 0 : now() + 1 + dv_below(300);
        h = go(flood_recv(E[1].h, what, dl, res)); int brc = bundle_wait(h, -1); CHECK(brc == 0, "bw", "bundle_wait %d", brc);
        CHECK(res[2] && res[0] == -1 && res[1] == ETIMEDOUT, "flood-deadline", "operation %d under a never-ending stream returned %d errno %d done %d flooded %ld dl %lld", what, res[0], res[1], res[2], flooded, (long long)dl);
        CHECK(dv_vt <= (dl > t0 ? dl : t0) + 50, "flood-late", "operation %d under a never-ending stream ended %lld ms late", what, (long long)(dv_vt - dl));
        hclose(h);
    } else {
        h = go(flood_recv(E[1].h, what, -1, res)); int64_t t = now() + dv_below(200); msleep(t);
        hclose(h);
        CHECK(res[2] && res[0] == -1 && res[1] == ECANCELED, "flood-cancel", "operation %d under a never-ending stream could not be cancelled: %d errno %d", what, res[0], res[1]);
    }
    dv_on_recv = NULL;
    if(what) hclose(E[1].h);
    hclose(E[0].h); dv_stat("floods", 1); dv_max("flooded_mb", flooded >> 20); dv_nontrivial(); dv_sig(flooded);
}
static void halfclose(void) {
    /* B has ended its own stream but keeps reading; A sends a lot and closes cleanly; B must still get everything */
    mkpair(); lim = 1 << 20;
    int n = dv_pct(50) ? dv_below(400000) : dv_below(5000);
    dodone(1, -1);
    if(dosend(0, n, now() + 50) < 0) { hclose(E[0].h); hclose(E[1].h); return; }
    if(dv_pct(50)) dodone(0, -1);
    closeep(0, 1, dv_pct(50) ? -1 : now() + 100);
    CHECK(E[0].how == 2, "close-failed", "close failed although the peer had ended its stream");
    if(dv_pct(50)) msleep(now() + 10);
    drain(1);
    closeep(1, dv_pct(50), -1);
    dv_stat("half_closed_drains", 1); dv_nontrivial();
}
/* ---- mode d: descriptors passed between bytes ---- */
struct item { int fd; long n; ino_t ino; int tag; };   /* fd: 1 descriptor, 0 bytes */
static struct item items[2][200]; static int nitems[2], ipos[2], isent[2];
static int mktagged(int tag) {   /* a pipe whose read end carries its tag */
    int p[2]; CHECK(pipe(p) == 0, "harness", "pipe"); (void)!write(p[1], &tag, sizeof tag); close(p[1]); return p[0];
}
static ino_t inoof(int fd) { struct stat st; CHECK(fstat(fd, &st) == 0, "bad-fd", "received descriptor %d is not open (errno %d)", fd, errno); return st.st_ino; }
static coroutine void fdsender(int i) {
    for(; isent[i] < nitems[i]; ) {
        struct item *it = &items[i][isent[i]];
        if(dv_pct(20) && msleep(now() + dv_below(8)) < 0) return;
        int64_t dl = dv_pct(70) ? -1 : now() + dv_below(40), t0 = dv_vt; int rc;
        D[i].sbusy = 1;
        if(it->fd) {
            int fd = mktagged(it->tag); it->ino = inoof(fd);
            rc = ipc_sendfd(E[i].h, fd, dl); int e = errno;
            CHECK(fcntl(fd, F_GETFD) >= 0, "sender-fd-closed", "ipc_sendfd closed the sender's descriptor");
            CHECK(inoof(fd) == it->ino, "sender-fd-changed", "the sender's descriptor now names another file"); close(fd);
            errno = e; if(rc == 0) dv_stat("fds_sent", 1);
        } else {
            void *b = dv_galloc(it->n); patfill(b, it->n, D[i].seed, D[i].sent);
            rc = bsend(E[i].h, b, it->n, -1); int e = errno; dv_gfree(b); errno = e;
            if(rc == 0) { D[i].sent += it->n; dv_stat("bytes_sent", it->n); }
        }
        int e = errno; D[i].sbusy = 0;
        if(rc == 0) { isent[i]++; continue; }
        CHECK(rc == -1, "rc", "sending returned %d", rc);
        if(e == ECANCELED) { CHECK(E[i].cancelled[0], "spurious-cancel", "ECANCELED although not cancelled"); return; }
        CHECK(it->fd && e == ETIMEDOUT && dl >= 0 && dv_vt >= dl, "sendfd", "ipc_sendfd failed with errno %d", e);
        ontime("ipc_sendfd", t0, dl); dv_stat("sendfd_timeouts", 1);   /* nothing was sent: try again */
    }
}
static coroutine void fdreceiver(int i) {   /* receives what 1 - i sends */
    int j = 1 - i;
    while(ipos[j] < nitems[j]) {
        if(dv_pct(20) && msleep(now() + dv_below(8)) < 0) return;
        struct item *it = &items[j][ipos[j]]; int64_t dl = dv_pct(70) ? -1 : now() + dv_below(40), t0 = dv_vt;
        D[j].rbusy = 1;
        if(it->fd) {
            int sent = isent[j] > ipos[j];
            int fd = ipc_recvfd(E[i].h, dl), e = errno; D[j].rbusy = 0;
            if(fd < 0) {
                if(e == ECANCELED) { CHECK(E[i].cancelled[1], "spurious-cancel", "ECANCELED although not cancelled"); return; }
                CHECK(e == ETIMEDOUT && dl >= 0 && dv_vt >= dl, "recvfd", "ipc_recvfd failed with errno %d", e);
                CHECK(!sent || dv_again_pct, "recvfd-missed", "ipc_recvfd timed out although a descriptor had been sent");
                ontime("ipc_recvfd", t0, dl); dv_stat("recvfd_timeouts", 1);
                continue;
            }
            int tag = -1; CHECK(inoof(fd) == it->ino, "wrong-fd", "received descriptor names another file than the one sent");
            (void)!read(fd, &tag, sizeof tag); CHECK(tag == it->tag, "wrong-fd", "descriptor %d carries tag %d, expected %d", fd, tag, it->tag);
            CHECK(fcntl(fd, F_GETFD) >= 0, "bad-fd", "received descriptor is not open");
            close(fd); dv_stat("fds_received", 1);
        } else {
            char *b = dv_galloc(it->n); int rc = brecv(E[i].h, b, it->n, -1), e = errno; D[j].rbusy = 0;
            if(rc < 0) { dv_gfree(b); errno = e; CHECK(e == ECANCELED && E[i].cancelled[1], "brecv", "brecv between descriptors failed with errno %d", e); return; }
            for(long k = 0; k < it->n; k++) CHECK((unsigned char)b[k] == pat(D[j].seed, D[j].rpos + k), "data", "byte %ld between descriptors is wrong", D[j].rpos + k);
            D[j].rpos += it->n; dv_gfree(b); dv_stat("bytes_received", it->n);
        }
        ipos[j]++;
    }
}
static void rawfds(int sock, int n, int payload) {   /* a peer that sends n descriptors in one message */
    char ctl[CMSG_SPACE(sizeof(int) * 64)] = {0}, b[8] = "x"; struct iovec v = {b, payload}; struct msghdr m = {0}; int fds[64];
    m.msg_iov = &v; m.msg_iovlen = 1;
    for(int i = 0; i < n; i++) fds[i] = mktagged(1000 + i);
    if(n) {
        m.msg_control = ctl; m.msg_controllen = CMSG_SPACE(sizeof(int) * n);
        struct cmsghdr *c = CMSG_FIRSTHDR(&m); c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(sizeof(int) * n); memcpy(CMSG_DATA(c), fds, sizeof(int) * n);
    }
    CHECK(sendmsg(sock, &m, 0) == payload, "harness", "sendmsg %d", errno);
    for(int i = 0; i < n; i++) close(fds[i]);
}
static coroutine void onerecvfd(int h, int64_t dl, int *res) { res[0] = ipc_recvfd(h, dl); res[1] = errno; res[2] = 1; }
static void fdspecial(void) {
    int f[2], h, rc, fd, k = dv_below(8), base = dv_fdcount(), dup0;
    CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, f) == 0, "harness", "socketpair");
    h = ipc_fromfd(f[0]); CHECK(h >= 0, "ipc_fromfd", "ipc_fromfd failed");
    switch(k) {
    case 0: { /* several descriptors at once: one is delivered, none is left open */
        int n = 1 + dv_below(60); rawfds(f[1], n, 1); int c0 = dv_fdcount();
        fd = ipc_recvfd(h, -1); CHECK(fd >= 0, "recvfd", "ipc_recvfd failed with errno %d", errno);
        int tag; (void)!read(fd, &tag, sizeof tag); CHECK(tag == 1000, "wrong-fd", "not the first descriptor");
        close(fd); CHECK(dv_fdcount() == c0, "fd-leak", "%d descriptors sent in one message: %d left open", n, dv_fdcount() - c0); dv_stat("multi_fd_messages", 1); break; }
    case 1: /* a byte without a descriptor */
        rawfds(f[1], 0, 1); fd = ipc_recvfd(h, -1); CHECK(fd == -1 && errno == EPROTO, "no-descriptor", "ipc_recvfd of a plain byte returned %d errno %d", fd, errno);
        fd = ipc_recvfd(h, 0); CHECK(fd == -1 && errno == ECONNRESET, "after-failure", "ipc_recvfd after EPROTO returned %d errno %d", fd, errno); break;
    case 2: /* the peer is gone */
        close(f[1]); f[1] = -1; dup0 = dup(0);
        rc = ipc_sendfd(h, dup0, -1); CHECK(rc == -1 && errno == ECONNRESET, "broken", "ipc_sendfd to a closed peer returned %d errno %d", rc, errno);
        rc = ipc_sendfd(h, dup0, -1); CHECK(rc == -1 && errno == ECONNRESET, "after-failure", "ipc_sendfd after a failed one returned %d errno %d", rc, errno);
        if(dv_pct(50)) { rc = ipc_done(h, -1); CHECK(rc == -1 && errno == ECONNRESET, "after-failure", "ipc_done after a failed ipc_sendfd returned %d errno %d", rc, errno); }
        rc = bsend(h, "a", 1, -1); CHECK(rc == -1 && errno == ECONNRESET, "after-failure", "bsend after a failed ipc_sendfd returned %d errno %d", rc, errno);
        fd = ipc_recvfd(h, -1); CHECK(fd == -1 && errno == EPIPE, "eof", "ipc_recvfd at the end of the stream returned %d errno %d", fd, errno);
        fd = ipc_recvfd(h, -1); CHECK(fd == -1 && errno == EPIPE, "eof", "second ipc_recvfd at the end returned %d errno %d", fd, errno); close(dup0); if(dv_pct(50)) { rc = ipc_close(h, -1); CHECK(rc == -1 && errno == ECONNRESET, "close-after-failure", "ipc_close after a failed ipc_sendfd returned %d errno %d", rc, errno); h = -1; } dv_stat("broken_peers", 1); break;
    case 3: { /* an invalid descriptor: error, nothing sent */
        int bad = 900 + dv_below(100); rc = ipc_sendfd(h, bad, -1); CHECK(rc == -1 && errno == EBADF, "bad-fd-sent", "ipc_sendfd of descriptor %d that is not open returned %d errno %d", bad, rc, errno);
        rc = ipc_sendfd(h, -1 - (int)dv_below(5), -1); CHECK(rc == -1 && errno == EINVAL, "negative-fd-sent", "ipc_sendfd of a negative descriptor returned %d errno %d", rc, errno);
        char c; CHECK(recv(f[1], &c, 1, MSG_DONTWAIT) == -1, "bad-fd-sent", "something was sent"); break; }
    case 4: /* after done */
        ipc_done(h, -1); rc = ipc_sendfd(h, f[1], -1); CHECK(rc == -1 && errno == EPIPE, "after-done", "ipc_sendfd after ipc_done returned %d errno %d", rc, errno);
        shutdown(f[1], SHUT_WR); fd = ipc_recvfd(h, -1); CHECK(fd == -1 && errno == EPIPE, "eof", "ipc_recvfd at the end of the stream returned %d errno %d", fd, errno);
        char b; rc = brecv(h, &b, 1, -1); CHECK(rc == -1 && errno == EPIPE, "eof", "brecv after ipc_recvfd's EPIPE returned %d errno %d", rc, errno); break;
    case 5: { /* cancelled and refused while another coroutine waits; the waiting one is not harmed */
        int res[3] = {0}; int g = go(onerecvfd(h, -1, res)); char c;
        rc = brecv(h, &c, 1, -1); CHECK(rc == -1 && errno == EBUSY, "no-ebusy", "brecv while ipc_recvfd waits returned %d errno %d", rc, errno);
        rc = ipc_recvfd(h, -1); CHECK(rc == -1 && errno == EBUSY, "no-ebusy", "ipc_recvfd while ipc_recvfd waits returned %d errno %d", rc, errno);
        if(dv_pct(50)) { rawfds(f[1], 1, 1); bundle_wait(g, -1); CHECK(res[2] && res[0] >= 0, "busy-harmed", "ipc_recvfd failed after another receive was refused (errno %d)", res[1]); close(res[0]); hclose(g); }
        else {
            hclose(g); CHECK(res[2] && res[0] == -1 && res[1] == ECANCELED, "cancel", "ipc_recvfd cancelled: %d errno %d", res[0], res[1]);
            rawfds(f[1], 1, 1); fd = ipc_recvfd(h, -1); CHECK(fd >= 0, "lost", "ipc_recvfd after a cancelled one failed with errno %d", errno); close(fd);
        }
        dv_stat("busy_recv_refused", 2); break; }
    case 6: { /* unread descriptors die with the socket */
        rawfds(f[1], 1 + dv_below(5), 1); break; }
    default: { /* not an IPC socket */
        int t = -1; struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); int l = tcp_listen(&a, 1); CHECK(l >= 0, "harness", "tcp_listen");
        rc = ipc_sendfd(l, 0, 0); CHECK(rc == -1 && errno == ENOTSUP, "not-supported", "ipc_sendfd on a TCP listener returned %d errno %d", rc, errno);
        rc = ipc_recvfd(l, 0); CHECK(rc == -1 && errno == ENOTSUP, "not-supported", "ipc_recvfd on a TCP listener returned %d errno %d", rc, errno);
        rc = ipc_recvfd(t, 0); CHECK(rc == -1 && errno == EBADF, "bad-handle", "ipc_recvfd(-1) returned %d errno %d", rc, errno); hclose(l); break; }
    }
    if(h >= 0) hclose(h); if(f[1] >= 0) close(f[1]);
    CHECK(dv_fdcount() == base, "fd-leak", "%d descriptors open, %d before (special case %d)", dv_fdcount(), base, k);
    dv_stat("special_cases", 1); dv_sig(k); dv_nontrivial();
}
static void modefds(void) {
    if(dv_pct(50)) { fdspecial(); return; }
    ipc = 1; mkpair();
    if(dv_pct(50)) dv_short_pct = dv_below(100);
    if(dv_pct(40)) dv_again_pct = dv_below(60);
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
    for(int i = 0; i < 2; i++) {
        nitems[i] = dv_below(dv_pct(10) ? 200 : 40); ipos[i] = isent[i] = 0;
        for(int k = 0; k < nitems[i]; k++) { struct item *it = &items[i][k]; it->fd = dv_pct(50); it->n = it->fd ? 0 : 1 + dv_below(dv_pct(10) ? 20000 : 50); it->tag = dv_rand() & 0xffffff; }
    }
    for(int i = 0; i < 2; i++) { E[i].hbundle[0] = go(fdsender(i)); E[i].hbundle[1] = go(fdreceiver(i)); }
    if(dv_pct(70)) for(int k = 0; k < 4; k++) { int rc = bundle_wait(E[k & 1].hbundle[k >> 1], now() + 100000); CHECK(rc == 0, "stuck", "descriptor transfer did not finish"); }
    else { msleep(now() + dv_below(60)); dv_stat("cancelled", 1); }
    for(int k = 0; k < 4; k++) stopactor(k & 1, k >> 1);
    for(int i = 0; i < 2; i++) { hclose(E[i].h); E[i].open = 0; }
    for(int i = 0; i < 2; i++) { dv_sig(isent[i]); dv_sig(ipos[i]); if(isent[i] > 3) dv_nontrivial(); }
    dv_sample("%d and %d items, delivered %d and %d", nitems[0], nitems[1], ipos[0], ipos[1]);
}
void dv_case(void) {
    int fd0, i; static int warm;
    if(!warm) { int p[2]; ipc_pair(p); char c; bsend(p[0], "a", 1, -1); brecv(p[1], &c, 1, -1); hclose(p[0]); hclose(p[1]); warm = 1; msleep(now() + 1); }
    fd0 = dv_fdcount();
    dv_deadlock = retry; stop = 0; faultseen = dv_nfailed = 0;
    ipc = dv_pct(55); lim = 1 << 20;
    if(!ipc) dv_grace = 1;
    char m = dv_mode[0];
    if(m == 'd') { dv_grace = 0; ipc = 1; memset(E, 0, sizeof E); modefds(); goto out; }
    if(m == 'k') { modeflood(); goto out; }
    if(m == 'c' && dv_pct(35)) { halfclose(); goto out; }
    mkpair();
    if(dv_pct(50)) dv_short_pct = dv_below(100);
    if(dv_pct(30)) dv_again_pct = dv_below(40);
    if(dv_pct(15)) { dv_io_max = 1 + dv_below(100); lim = 5000; }
    if(dv_short_pct > 60) lim = 20000;
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
    int steps = m == 'c' ? 3 : 4 + dv_below(30);
    for(i = 0; i < 2; i++) { E[i].hbundle[0] = go(sender(i, dv_below(steps))); E[i].hbundle[1] = go(receiver(i, dv_below(steps))); }
    int hi = -1; if(m == 'b') hi = go(intruder());
    if(m == 'e' && dv_pct(35)) { dv_fail_errno = (int[]){ECONNRESET, ENOBUFS, ENOMEM, EPIPE, EHOSTUNREACH}[dv_below(5)]; dv_failmask = dv_pct(50) ? 1u << DV_SEND : 1u << DV_RECV; dv_failat = dv_below(40); }
    msleep(now() + dv_below(m == 'e' ? 150 : 300));
    if(m == 'e' && dv_pct(25)) { int v = dv_below(2); stopactor(v, 0); stopactor(v, 1); closeep(v, 0, 0); msleep(now() + dv_below(60)); dv_stat("resets", 1); }
    stop = 1;
    if(m == 's' || m == 'b') {
        /* let blocked transfers complete: feed receivers, drain senders */
        int sh[2]; for(i = 0; i < 2; i++) sh[i] = go(serve(i));
        for(int round = 0; round < 4000 && (D[0].sbusy | D[1].sbusy | D[0].rbusy | D[1].rbusy); round++) msleep(now() + 5);
        for(i = 0; i < 2; i++) CHECK(!D[i].sbusy && !D[i].rbusy, "stuck", "a transfer did not complete although its peer served it");
        for(i = 0; i < 2; i++) hclose(sh[i]);
    }
    for(i = 0; i < 2; i++) { stopactor(i, 0); stopactor(i, 1); }
    if(hi >= 0) hclose(hi);
    dv_failat = -1;
    for(i = 0; i < 2; i++) E[i].cancelled[0] = E[i].cancelled[1] = 0;
    if(m != 'c' || dv_pct(40)) {
        for(i = 0; i < 2; i++) if(E[i].open && dv_pct(70)) { dodone(i, -1); if(dv_pct(20)) { dodone(i, -1); dosend(i, 1, -1); } }
        for(i = 0; i < 2; i++) drain(i);
    }
    if(m == 'c' || dv_pct(30)) {
        int cb[2] = {-1, -1};
        for(i = 0; i < 2; i++) if(E[i].open) cb[i] = go(closer(i, dv_pct(75), dv_below(3) * dv_below(20), dv_pct(60) ? now() + dv_below(60) : now() + 500));
        for(i = 0; i < 2; i++) if(cb[i] >= 0) { if(dv_pct(15)) { msleep(now() + dv_below(30)); E[i].cancelled[0] = 1; } else bundle_wait(cb[i], -1); hclose(cb[i]); }
    }
    for(i = 0; i < 2; i++) if(E[i].open) closeep(i, 0, 0);
    if(D[0].sent + D[1].sent > 200) dv_nontrivial();
    dv_sample("%s: %ld and %ld bytes sent, short %d%% again %d%% max %zu", ipc ? "local" : "tcp", D[0].sent, D[1].sent, dv_short_pct, dv_again_pct, dv_io_max);
out:
    for(i = 0; i < 2; i++) if(E[i].mem) dv_gfree(E[i].mem);
    int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
