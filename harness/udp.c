/* M01: UDP sockets against a model of the datagrams in flight. */
#include "net.h"
#include <netinet/in.h>
#include <arpa/inet.h>
#define NS 4
#define QN 300
struct dg { unsigned char *b; long n; int from; int64_t t; int sure, gone; };
static struct sk { int h, hasrem, rem, open, bound, rbusy, cancelled, hb[2]; struct ipaddr a; void *mem; struct dg q[QN]; int nq, pend; long pbytes; int lossy; } S[NS];
static int ns, v6, stop, inj; static long uid;
static int retry(void) { return 1; }
static long sz(void) {
    int r = dv_below(100);
    if(r < 8) return 0; if(r < 50) return dv_below(30); if(r < 80) return dv_below(1500); if(r < 92) return dv_below(9000);
    if(r < 96) return 65400 + dv_below(108); if(r < 98) return 65500 + dv_below(40); return dv_below(100000);
}
static void mkaddr(struct ipaddr *a, int port) { int rc = ipaddr_local(a, v6 ? "::1" : "127.0.0.1", port, 0); CHECK(rc == 0, "harness", "ipaddr_local"); }
static int accepts(int to, int from) { return !S[to].hasrem || S[to].rem == from; }
static void dosend(int i) {
    struct sk *s = &S[i]; long n = sz(); int to, rc, e, byremote = 0; struct gl *g = NULL;
    unsigned char *b = malloc(n + 1); for(long k = 0; k < n; k++) b[k] = (unsigned char)dv_rand();
    if(n >= 8) { uid++; memcpy(b, &uid, 8); }
    to = dv_below(ns);
    if(dv_pct(30) || (s->hasrem && dv_pct(50))) byremote = 1;
    if(byremote) to = s->hasrem ? s->rem : -1;
    int failn = dv_nfailed, free1 = to >= 0 && S[to].nq < QN;
    if(to >= 0 && !free1) { free(b); return; }
    struct ipaddr dst; if(!byremote) dst = S[to].a;
    int m = dv_below(4); if(!byremote && m >= 2) m -= 2;
    g = gl_new(n, GL_MANY); { unsigned char *p = b; for(int k = 0; k < g->n; k++) { memcpy(g->b[k], p, g->len[k]); p += g->len[k]; } }
    int wasbusy = s->rbusy; int64_t t0 = dv_vt;
    if(m == 0) rc = udp_send(s->h, byremote ? NULL : &dst, b, n);
    else if(m == 1) rc = udp_sendl(s->h, byremote ? NULL : &dst, gl_first(g), gl_last(g));
    else if(m == 2) rc = msend(s->h, b, n, -1); else rc = msendl(s->h, gl_first(g), gl_last(g), -1);
    e = errno; gl_same(g, "udp send"); CHECK(dv_vt == t0, "send-blocked", "an UDP send took time");
    { unsigned char *p = b; for(int k = 0; k < g->n; k++) { CHECK(!memcmp(g->b[k], p, g->len[k]), "send-modified", "the buffer being sent was modified"); p += g->len[k]; } }
    gl_free(g);
    dv_log("%lld send %d->%d n=%ld how=%d -> %d %s", (long long)dv_vt, i, to, n, m, rc, rc ? strerror(e) : ""); dv_sig(rc * 3 + n + to);
    dv_stat("sends", 1); if(wasbusy) dv_stat("sends_while_receiving", 1);
    if(to < 0) { CHECK(rc == -1 && e == EINVAL, "no-destination", "sending without a destination returned %d errno %d", rc, e); free(b); return; }
    if(rc < 0 && dv_nfailed > failn) { CHECK(e == dv_fail_errno, "errno", "injected failure %d reported as %d", dv_fail_errno, e); dv_stat("faults", 1); free(b); return; }
    long max = v6 ? 65527 : 65507;
    if(n > max) { CHECK(rc == -1 && e == EMSGSIZE, "too-long", "sending %ld bytes returned %d errno %d", n, rc, e); dv_stat("too_long", 1); free(b); return; }
    CHECK(rc == 0, "send", "sending %ld bytes failed with errno %d", n, e);
    struct dg *d = &S[to].q[S[to].nq++]; *d = (struct dg){b, n, i, dv_vt, 0, 0};
    d->sure = !dv_again_pct && dv_nfailed == failn && !S[to].lossy && S[to].pbytes + n + 800 < 60000;
    S[to].pbytes += n + 800; if(!d->sure) S[to].lossy = 1;
}
/* removes the datagram from the model; -1 if there is none like it */
static int take(struct sk *s, int k) { for(int j = 0; j <= k; j++) if(!s->q[j].gone && !accepts(s - S, s->q[j].from)) { s->q[j].gone = 1; s->pbytes -= s->q[j].n + 800; } s->q[k].gone = 1; s->pbytes -= s->q[k].n + 800; return 0; }
static int dorecv(int i, int64_t dl) {
    struct sk *s = &S[i]; struct gl *g = NULL; ssize_t r; int e, drop = 0, wantaddr = 0; int64_t t0 = dv_vt; long cap = 0;
    struct { char c[64]; struct ipaddr a; char d[64]; } w; memset(&w, 0x5a, sizeof w); struct ipaddr *ap = NULL;
    long sure0 = -1; for(int k = 0; k < s->nq && sure0 < 0; k++) if(!s->q[k].gone && s->q[k].sure && accepts(i, s->q[k].from)) sure0 = k;
    int failn = dv_nfailed;
    s->rbusy = 1;
    if(dv_pct(10)) { drop = 1; r = dv_pct(50) ? mrecvl(s->h, NULL, NULL, dl) : udp_recvl(s->h, NULL, NULL, NULL, dl); e = errno; }
    else {
        cap = dv_pct(60) ? 70000 : sz(); if(dv_pct(20)) for(int k = 0; k < s->nq; k++) if(!s->q[k].gone && accepts(i, s->q[k].from)) { cap = s->q[k].n + dv_below(3) - 1; if(cap < 0) cap = 0; break; }
        g = gl_new(cap, GL_MANY | GL_NULLS); gl_blank(g);
        if(dv_pct(60)) ap = &w.a;
        int m = dv_below(2);
        if(g->n == 1 && m) { if(ap || dv_pct(50)) { r = udp_recv(s->h, ap, g->b[0], cap, dl); wantaddr = !!ap; } else r = mrecv(s->h, g->b[0], cap, dl); }
        else if(ap || dv_pct(50)) { r = udp_recvl(s->h, ap, gl_first(g), gl_last(g), dl); wantaddr = !!ap; }
        else r = mrecvl(s->h, gl_first(g), gl_last(g), dl);
        e = errno; gl_same(g, "udp recv");
    }
    s->rbusy = 0; dv_stat("recvs", 1); dv_sig(r * 5 + (r < 0) * e);
    for(int k = 0; k < 64; k++) CHECK(w.c[k] == 0x5a && w.d[k] == 0x5a, "addr-overrun", "memory around the address was written");
    dv_log("%lld recv %d list=%d cap=%ld drop=%d dl=%lld -> %zd %s", (long long)dv_vt, i, g ? g->n : 0, cap, drop, (long long)dl, r, r < 0 ? strerror(e) : "");
    if(dl >= 0) CHECK(dv_vt <= (dl > t0 ? dl : t0) + 1, "late", "udp receive returned %lld ms after its deadline", (long long)(dv_vt - (dl > t0 ? dl : t0)));
    if(r >= 0) {
        int k, found = -1;
        if(!drop) CHECK(r <= cap, "cut", "a datagram of %zd bytes was returned in a buffer of %ld", r, cap);
        for(k = 0; k < s->nq && found < 0; k++) {
            struct dg *d = &s->q[k]; if(d->gone || d->n != r || !accepts(i, d->from)) continue;
            if(wantaddr && !ipaddr_equal(&w.a, &S[d->from].a, 0)) continue;
            int same = 1; if(!drop) { unsigned char *p = d->b; long left = r; for(int j = 0; j < g->n && left && same; j++) { long c = (long)g->len[j] < left ? (long)g->len[j] : left; if(g->b[j] && memcmp(g->b[j], p, c)) same = 0; p += c; left -= c; } }
            if(same) found = k;
        }
        CHECK(found >= 0, "invented", "a datagram of %zd bytes was received that is not one of those sent here (or its sender is wrong)", r);
        if(!drop) { if(!s->hasrem) gl_tail(g, r, "udp recv"); } else dv_stat("dropped", 1);
        if(wantaddr) { CHECK(ipaddr_port(&w.a) == ipaddr_port(&S[s->q[found].from].a), "sender", "wrong sender port"); dv_stat("senders_checked", 1); }
        for(k = 0; k < found; k++) if(!s->q[k].gone && s->q[k].sure && accepts(i, s->q[k].from)) CHECK(0, "lost", "datagram %d (%ld bytes) was lost or overtaken", k, s->q[k].n);
        for(k = 0; k < found; k++) if(!s->q[k].gone) { s->q[k].gone = 1; s->pbytes -= s->q[k].n + 800; }
        take(s, found); dv_stat("received", 1);
    } else if(e == EMSGSIZE) {
        int k, found = -1; CHECK(!drop, "spurious-emsgsize", "EMSGSIZE when dropping");
        for(k = 0; k < s->nq && found < 0; k++) if(!s->q[k].gone && accepts(i, s->q[k].from) && s->q[k].n > cap) found = k; else if(!s->q[k].gone && accepts(i, s->q[k].from) && s->q[k].sure) CHECK(0, "spurious-emsgsize", "EMSGSIZE with a buffer of %ld although the next datagram has %ld bytes", cap, s->q[k].n);
        CHECK(found >= 0, "spurious-emsgsize", "EMSGSIZE although no datagram is longer than %ld", cap);
        for(k = 0; k < found; k++) if(!s->q[k].gone) { s->q[k].gone = 1; s->pbytes -= s->q[k].n + 800; }
        take(s, found); dv_stat("emsgsize", 1);
    } else if(dv_nfailed > failn && e == dv_fail_errno) dv_stat("faults", 1);
    else if(e == ETIMEDOUT) {
        CHECK(dl >= 0 && dv_vt >= dl, "early-timeout", "timed out early");
        if(!dv_again_pct) CHECK(sure0 < 0 || S[i].q[sure0].gone || s->lossy, "missed", "receive timed out although datagram %ld was there", sure0);
        dv_stat("timeouts", 1);
    } else CHECK(e == ECANCELED && s->cancelled, "errno", "receive failed with errno %d", e);
    if(g) gl_free(g); errno = e; return r < 0 ? -1 : 0;
}
static coroutine void sender(int i, int n) { while(n-- && !stop) { if(dv_pct(40) && msleep(now() + dv_below(10)) < 0) return; dosend(i); } }
static coroutine void receiver(int i, int n) {
    while(n-- && !stop) { int64_t dl = dv_pct(30) ? -1 : dv_pct(20) ? 0 : now() + dv_below(25); if(dorecv(i, dl) < 0 && errno == ECANCELED) return; }
}
static coroutine void busy(int n) {
    while(n-- && !stop) {
        if(msleep(now() + dv_below(6)) < 0) return;
        int i = dv_below(ns); if(!S[i].rbusy) continue;
        char b[4]; int64_t t = dv_vt; ssize_t r = dv_pct(50) ? udp_recv(S[i].h, NULL, b, 4, -1) : mrecv(S[i].h, b, 4, -1);
        CHECK(r == -1 && errno == EBUSY && dv_vt == t, "no-ebusy", "a second receiver got %zd errno %d", r, errno); dv_stat("busy_refused", 1);
    }
}
static int l_s(int i, int n) { return go(sender(i, n)); }
static int l_r(int i, int n) { return go(receiver(i, n)); }
static int l_b(int n) { return go(busy(n)); }
static void specials(void) {
    struct ipaddr a, b, c; int rc, h, p[2]; ssize_t r; char buf[8];
    switch(dv_below(6)) {
    case 0: mkaddr(&a, 0); h = udp_open(&a, NULL); CHECK(h >= 0, "open", "udp_open"); CHECK(ipaddr_port(&a) > 0, "ephemeral", "no port reported"); b = a; rc = udp_open(&b, NULL); CHECK(rc == -1 && errno == EADDRINUSE, "in-use", "opening a used address returned %d errno %d", rc, errno); hclose(h); break;
    case 1: { struct sockaddr_in *si = (void*)&a; memset(&a, 0, sizeof a); si->sin_family = AF_INET; si->sin_port = 0; inet_pton(AF_INET, "192.0.2.77", &si->sin_addr); rc = udp_open(&a, NULL); CHECK(rc == -1 && errno == EADDRNOTAVAIL, "not-local", "opening a foreign address returned %d errno %d", rc, errno); break; }
    case 2: ipaddr_local(&a, "127.0.0.1", 0, 0); ipaddr_remote(&b, "::1", 80, 0, -1); rc = udp_open(&a, &b); CHECK(rc == -1 && errno == EINVAL, "families", "mixed families returned %d errno %d", rc, errno); mkaddr(&c, 0); rc = udp_open_mem(&c, NULL, NULL); CHECK(rc == -1 && errno == EINVAL, "no-memory", "NULL memory returned %d errno %d", rc, errno); break;
    case 3: ipc_pair(p); mkaddr(&a, 5); for(int k = 0; k < 4; k++) { struct iolist l = {buf, 4, NULL, 0}; r = k == 0 ? udp_send(p[0], &a, "x", 1) : k == 1 ? udp_recv(p[0], &b, buf, 4, 0) : k == 2 ? udp_sendl(p[0], &a, &l, &l) : udp_recvl(p[0], &b, &l, &l, 0); CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "an UDP call on a local socket returned %zd errno %d", r, errno); }
        { int pf = prefix_attach(p[0], 2, 0); r = udp_send(pf, &a, "x", 1); CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "udp_send on a PREFIX socket returned %zd errno %d", r, errno); r = udp_recv(pf, &a, buf, 4, 0); CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "udp_recv on a PREFIX socket returned %zd errno %d", r, errno); hclose(pf); }
        hclose(p[1]); r = udp_send(p[1], &a, "x", 1); CHECK(r == -1 && errno == EBADF, "closed", "udp_send on a closed handle returned %zd errno %d", r, errno); break;
    case 4: { /* a flood of unwanted packets */
        mkaddr(&a, 0); int hx = udp_open(&a, NULL); mkaddr(&b, 0); int hy = udp_open(&b, NULL); mkaddr(&c, 0); h = udp_open(&c, &b); CHECK(hx >= 0 && hy >= 0 && h >= 0, "open", "udp_open");
        int k = dv_below(240); while(k--) { rc = udp_send(hx, &c, "foreign", 7); CHECK(rc == 0, "send", "udp_send"); }
        int legit = dv_pct(70); if(legit) udp_send(hy, &c, "good", 4);
        r = mrecv(h, buf, 8, dv_pct(50) ? 0 : now() + 10); if(legit) CHECK(r == 4 && !memcmp(buf, "good", 4), "filter", "after unwanted packets received %zd errno %d", r, errno); else CHECK(r == -1 && errno == ETIMEDOUT, "filter", "an unwanted packet was not dropped: %zd errno %d", r, errno);
        hclose(h); hclose(hx); hclose(hy); dv_stat("floods", 1); break; }
    case 5: h = udp_open(NULL, NULL); CHECK(h >= 0, "open", "udp_open without addresses"); rc = udp_send(h, NULL, "x", 1); CHECK(rc == -1 && errno == EINVAL, "no-destination", "sending without destination returned %d errno %d", rc, errno);
        ipaddr_local(&a, "127.0.0.1", 0, 0); { int hx = udp_open(&a, NULL); rc = udp_send(h, &a, "hello", 5); CHECK(rc == 0, "send", "udp_send"); r = udp_recv(hx, &b, buf, 8, now() + 50); CHECK(r == 5 && !memcmp(buf, "hello", 5), "unbound", "received %zd", r);
            CHECK(!strcmp(ipaddr_str(&b, (char[IPADDR_MAXSTRLEN]){0}), "127.0.0.1"), "sender", "wrong sender"); rc = udp_send(hx, &b, "yo", 2); r = mrecv(h, buf, 8, now() + 50); CHECK(r == 2, "reply", "reply to the reported sender not received (%zd)", r); hclose(hx); }
        hclose(h); break;
    }
    dv_stat("specials", 1);
}
void dv_case(void) {
    static int warm; if(!warm) { warm = 1; int p[2]; ipc_pair(p); mrecv(p[0], NULL, 0, 0); char c; brecv(p[0], &c, 1, now() + 1); hclose(p[0]); hclose(p[1]); struct ipaddr a; ipaddr_remote(&a, "127.0.0.1", 1, 0, -1); }
    int fd0 = dv_fdcount(); dv_deadlock = retry; memset(S, 0, sizeof S); stop = 0; v6 = dv_pct(40); ns = 2 + dv_below(NS - 1); int i;
    for(i = 0; i < ns; i++) {
        struct sk *s = &S[i]; s->mem = dv_pct(50) ? dv_galloc(sizeof(struct udp_storage)) : NULL; mkaddr(&s->a, 0);
        struct ipaddr rem; if(i && dv_pct(50)) { s->hasrem = 1; s->rem = dv_below(i); rem = S[s->rem].a; }
        s->h = s->mem ? udp_open_mem(&s->a, s->hasrem ? &rem : NULL, s->mem) : udp_open(&s->a, s->hasrem ? &rem : NULL);
        CHECK(s->h >= 0, "open", "udp_open failed"); CHECK(ipaddr_port(&s->a) > 0, "ephemeral", "the ephemeral port was not filled in");
    }
    if(dv_pct(30)) dv_again_pct = dv_below(50);
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
    if(dv_pct(25)) { dv_fail_errno = (int[]){ENOMEM, ENOBUFS, EHOSTUNREACH}[dv_below(3)]; dv_failmask = dv_pct(50) ? 1u << DV_SEND : 1u << DV_RECV; dv_failat = dv_below(30); }
    for(i = 0; i < ns; i++) { S[i].hb[0] = l_s(i, dv_below(20)); S[i].hb[1] = l_r(i, dv_below(40)); }
    int hb = l_b(30);
    msleep(now() + dv_below(150)); stop = 1;
    for(i = 0; i < ns; i++) { S[i].cancelled = 1; hclose(S[i].hb[0]); hclose(S[i].hb[1]); S[i].cancelled = 0; }
    hclose(hb); dv_failat = -1; long tot = 0;
    for(i = 0; i < ns; i++) for(int k = 0; k < QN && dorecv(i, now() + 2) == 0; k++) tot++;
    for(i = 0; i < ns; i++) { if(S[i].nq > 3) dv_nontrivial(); int h = S[i].h; hclose(h); CHECK(hclose(h) == -1 && errno == EBADF, "not-closed", "the handle survives hclose"); if(S[i].mem) dv_gfree(S[i].mem); for(int k = 0; k < S[i].nq; k++) free(S[i].q[k].b); }
    dv_again_pct = 0; if(dv_pct(40)) specials();
    dv_sample("%d sockets %s, %d datagrams to the first", ns, v6 ? "IPv6" : "IPv4", S[0].nq);
    int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
