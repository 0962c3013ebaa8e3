/* M02-M04: message protocols over byte streams against a queue model.
   Modes: p (PREFIX), s (SUFFIX), t (TERM above PREFIX or SUFFIX).  The peer is the library or a plain stream driven by the model's own encoder. */
#include "net.h"
#include <fcntl.h>
#define QMAX 400
struct m { unsigned char *b; long n; int64_t t; int ok; };       /* ok: completely sent at time t */
static struct dir { struct m q[QMAX]; int nq, rpos, done, outerr, inerr, eof, skip, sbusy, rbusy; } D[2];
static struct ep { int u, h, raw, noterm, open, hb[2], cancelled; void *mem, *tmem; } E[2];
static int ispfx, hdrlen, flags, sfxlen, isterm, termlen, stop, alpha, tcp; static unsigned char sfx[32], term[32];
static int retry(void) { return 1; }
static void sfxbytes(unsigned char *b, long n) { for(long i = 0; i < n; i++) b[i] = dv_pct(60) ? sfx[dv_below(sfxlen)] : dv_pct(50) ? (unsigned char)dv_rand() : sfx[0]; }
/* would the delimiter appear before the end of the wire form? */
static int ambiguous(const unsigned char *b, long n) {
    unsigned char *w = malloc(n + sfxlen); memcpy(w, b, n); memcpy(w + n, sfx, sfxlen);
    int r = 0; for(long i = 0; i < n && !r; i++) if(w[i] == sfx[0] && !memcmp(w + i, sfx, sfxlen)) r = 1;
    free(w); return r;
}
static int isterminal(const unsigned char *b, long n) { return isterm && n == termlen && (n == 0 || !memcmp(b, term, n)); }
static long msgsize(void) {
    int r = dv_below(100);
    if(ispfx && hdrlen == 1 && r < 20) return 250 + dv_below(10);
    if(ispfx && hdrlen == 2 && r < 4) return 65530 + dv_below(10);
    if(isterm && r < 30) return termlen + (long)dv_below(3) - (termlen ? 1 : 0);
    if(r < 10) return 0;
    if(r < 60) return dv_below(40);
    if(r < 90) return dv_below(400);
    if(ispfx) return r < 98 ? dv_below(6000) : dv_below(100000);
    return r < 99 ? dv_below(2500) : dv_below(40000);
}
static struct m mkmsg(void) {
    struct m m = {0};
    for(int tries = 0;; tries++) {
        m.n = tries > 20 ? 1 + dv_below(3) + termlen : msgsize(); m.b = malloc(m.n + 1);
        if(isterm && termlen && dv_pct(60)) { for(long i = 0; i < m.n; i++) m.b[i] = i < termlen ? term[i] : (unsigned char)dv_rand(); if(m.n && dv_pct(50)) m.b[dv_below(m.n < termlen ? m.n : termlen)] ^= 1 << dv_below(8); }
        else if(!ispfx && dv_pct(50)) sfxbytes(m.b, m.n);
        else for(long i = 0; i < m.n; i++) m.b[i] = (unsigned char)dv_rand();
        if(!ispfx && ambiguous(m.b, m.n)) { if(tries > 10) memset(m.b, sfx[0] ^ 0x55 ^ sfx[sfxlen - 1] ? (unsigned char)(sfx[0] + 1) : 0, m.n); }
        if(!isterminal(m.b, m.n) && (ispfx || !ambiguous(m.b, m.n))) return m;
        free(m.b);
        if(tries > 60) dv_fail("harness", "cannot generate a message");
    }
}
static void glput(struct gl *g, const unsigned char *b) { for(int i = 0; i < g->n; i++) { if(g->b[i]) memcpy(g->b[i], b, g->len[i]); b += g->len[i]; } }
static void glcmp(struct gl *g, const unsigned char *b, long n, const char *what) {
    long o = 0;
    for(int i = 0; i < g->n && o < n; i++) {
        long k = (long)g->len[i] < n - o ? (long)g->len[i] : n - o;
        if(g->b[i] && memcmp(g->b[i], b + o, k)) { for(long j = 0; j < k; j++) CHECK(((unsigned char*)g->b[i])[j] == b[o + j], "data", "%s: byte %ld of %ld is 0x%02x, expected 0x%02x", what, o + j, n, ((unsigned char*)g->b[i])[j], b[o + j]); }
        o += k;
    }
}
/* reference encoder; returns malloc'd wire form */
static unsigned char *encode(const unsigned char *b, long n, long *wn) {
    unsigned char *w;
    if(ispfx) {
        w = malloc(n + hdrlen); unsigned long z = n;
        for(int i = 0; i < hdrlen; i++) { w[flags & PREFIX_LITTLE_ENDIAN ? i : hdrlen - 1 - i] = z & 255; z >>= 8; }
        memcpy(w + hdrlen, b, n); *wn = n + hdrlen;
    } else { w = malloc(n + sfxlen); memcpy(w, b, n); memcpy(w + n, sfx, sfxlen); *wn = n + sfxlen; }
    return w;
}
static int toolong(long n) { return ispfx && hdrlen < 8 && n >> (8 * hdrlen); }
static int64_t pickdl(void) {
    if(dv_mode[1] != 'e') return dv_pct(80) ? -1 : now() + 100000;
    int r = dv_below(100);
    if(r < 60) return -1; if(r < 70) return 0; if(r < 73) return now() - 3; return now() + dv_below(30);
}
static void ontime(const char *what, int64_t t0, int64_t dl) {
    if(dl >= 0 && !dv_again_pct) CHECK(dv_vt <= (dl > t0 ? dl : t0) + 1, "late", "%s returned %lld ms after its deadline", what, (long long)(dv_vt - (dl > t0 ? dl : t0)));
}
static int rawsend(int i, unsigned char *w, long wn, int64_t dl) {
    long o = 0;
    while(o < wn) {
        long k = dv_pct(50) ? wn - o : 1 + dv_below(wn - o < 20 ? wn - o : 20);
        if(bsend(E[i].u, w + o, k, dl) < 0) return -1;
        o += k; if(dv_pct(10) && msleep(now() + dv_below(5)) < 0) return -1;
    }
    return 0;
}
/* sends one message; returns 0 to continue */
static int dosend(int i) {
    struct dir *d = &D[i];
    if(d->nq == QMAX || (E[i].noterm && d->done)) { errno = 0; return -1; }
    struct m m = mkmsg(); int k = d->nq, rc, e; int64_t dl = pickdl(), t0 = dv_vt;
    int pdone = d->done, perr = d->outerr, big = toolong(m.n);
    if(!pdone && !perr && !big) d->q[d->nq++] = m;
    d->sbusy = 1;
    if(E[i].raw) {
        if(big || perr || pdone) { d->sbusy = 0; free(m.b); return 0; }
        long wn; unsigned char *w = encode(m.b, m.n, &wn); rc = rawsend(i, w, wn, dl); e = errno; free(w);
    } else {
        struct gl *g = gl_new(m.n, GL_MANY); glput(g, m.b);
        if(g->n == 1 && dv_pct(60)) rc = msend(E[i].h, g->b[0], m.n, dl); else rc = msendl(E[i].h, gl_first(g), gl_last(g), dl);
        e = errno;
        gl_same(g, "msendl"); glcmp(g, m.b, m.n, "buffer being sent"); ontime("msend", t0, dl);
        dv_stat("sends", 1); if(g->n > 1) dv_stat("lists_sent", 1);
        gl_free(g);
    }
    d->sbusy = 0;
    dv_log("%lld send ep%d %s #%d n=%ld dl=%lld -> %d %s", (long long)dv_vt, i, E[i].raw ? "raw" : "", k, m.n, (long long)dl, rc, rc ? strerror(e) : "");
    dv_sig(rc * 13 + m.n * 7 + e * (rc < 0));
    if(pdone) { CHECK(rc == -1 && e == EPIPE, "after-done", "msend after done returned %d errno %d", rc, e); free(m.b); return 0; }
    if(perr) { CHECK(rc == -1, "after-failure", "msend succeeded after a failed send"); free(m.b); return 0; }
    if(big) { CHECK(rc == -1 && e == EMSGSIZE, "toolong", "sending %ld bytes with a %d-byte header returned %d errno %d", m.n, hdrlen, rc, e); dv_stat("too_long", 1); free(m.b); return 0; }
    if(rc == 0) { d->q[k].ok = 1; d->q[k].t = dv_vt; dv_stat("bytes_sent", m.n); return 0; }
    CHECK(rc == -1, "rc", "msend returned %d", rc);
    d->outerr = 1; dv_stat("sends_failed", 1);
    if(e == ETIMEDOUT) CHECK(dl >= 0 && dv_vt >= dl, "early-timeout", "msend timed out early");
    else if(e == ECANCELED) CHECK(E[i].cancelled, "spurious-cancel", "msend returned ECANCELED");
    else if(e == ECONNRESET) CHECK(!E[1 - i].open, "spurious-reset", "msend returned ECONNRESET while the peer is open");
    else dv_fail("errno", "msend failed with errno %d", e);
    errno = e; return -1;
}
static long pickcap(struct dir *d) {
    if(d->rpos >= d->nq && dv_mode[1] != 'e') return ispfx ? 101000 : 40100;
    long n = d->rpos < d->nq ? d->q[d->rpos].n : (long)dv_below(300);
    int r = dv_below(100);
    if(r < 40) return n; if(r < 92 || dv_mode[1] != 'e') return n + dv_below(100);
    return n ? dv_below(n) : 0;
}
static int dorecv(int i, int64_t dl) {
    struct dir *d = &D[1 - i]; long cap = 0; ssize_t sz; int e, drop = 0; int64_t t0 = dv_vt;
    int peof = d->eof, perr = d->inerr, k0 = d->rpos, avail0 = d->rpos < d->nq && d->q[d->rpos].ok;
    if(E[i].noterm && peof) return 0;
    d->rbusy = 1;
    if(E[i].raw) {   /* reference decoder */
        unsigned char *w; long wn;
        if(perr || peof) { d->rbusy = 0; return 0; }
        if(ispfx) {
            unsigned char h[16]; unsigned long n = 0; CHECK(hdrlen <= 16, "harness", "hdrlen");
            if(brecv(E[i].u, h, hdrlen, dl) < 0) goto rawfail;
            for(int j = 0; j < hdrlen; j++) { unsigned char c = h[flags & PREFIX_LITTLE_ENDIAN ? hdrlen - 1 - j : j]; n = n << 8 | c; }
            CHECK(d->rpos < d->nq && (long)n == d->q[d->rpos].n, "wire-header", "header on the wire says %lu bytes, message %d has %ld", n, d->rpos, d->rpos < d->nq ? d->q[d->rpos].n : -1);
            w = malloc(n + 1);
            if(brecv(E[i].u, w, n, -1) < 0) { free(w); goto rawfail; }
            CHECK(!memcmp(w, d->q[d->rpos].b, n), "wire-data", "message %d differs on the wire", d->rpos); free(w);
        } else {
            unsigned char c; int pos = 0;
            if(brecv(E[i].u, &c, 1, dl) < 0) goto rawfail;
            CHECK(d->rpos < d->nq, "wire-extra", "bytes on the wire although no message is being sent");
            unsigned char *x = encode(d->q[d->rpos].b, d->q[d->rpos].n, &wn);
            while(1) {
                if(c != x[pos]) { free(x); dv_fail("wire-data", "byte %d of message %d is 0x%02x on the wire", pos, d->rpos, c); }
                if(++pos == wn) break;
                if(brecv(E[i].u, &c, 1, -1) < 0) { free(x); goto rawfail; }
            }
            free(x);
        }
        d->rpos++; d->rbusy = 0; dv_stat("wire_checked", 1); return 0;
rawfail:
        e = errno; d->rbusy = 0; d->inerr = 1; errno = e; return -1;
    }
    struct gl *g = NULL;
    if(dv_pct(12)) { drop = 1; sz = dv_pct(50) ? mrecvl(E[i].h, NULL, NULL, dl) : mrecv(E[i].h, NULL, SIZE_MAX, dl); e = errno; }
    else {
        cap = pickcap(d); g = gl_new(cap, GL_MANY | GL_NULLS); gl_blank(g);
        if(g->n == 1 && dv_pct(60)) sz = mrecv(E[i].h, g->b[0], cap, dl); else sz = mrecvl(E[i].h, gl_first(g), gl_last(g), dl);
        e = errno; gl_same(g, "mrecvl");
    }
    d->rbusy = 0;
    dv_log("%lld recv ep%d #%d cap=%ld drop=%d dl=%lld -> %zd %s", (long long)dv_vt, i, d->rpos, cap, drop, (long long)dl, sz, sz < 0 ? strerror(e) : "");
    ontime("mrecv", t0, dl); dv_stat("recvs", 1); dv_sig(sz * 17 + (sz < 0) * e);
    if(peof) CHECK(sz == -1 && (!isterm || e == EPIPE), "eof-not-persistent", "mrecv after EPIPE returned %zd errno %d", sz, e);
    else if(perr && !d->skip) CHECK(sz == -1, "after-failure", "mrecv returned %zd after a failed receive", sz);
    else if(sz >= 0) {
        if(d->skip) d->skip = d->inerr = 0;
        if(E[i].noterm && d->done && d->rpos >= d->nq) {   /* the bare terminal message */
            CHECK(sz == termlen, "terminal", "the terminal message has %zd bytes on the wire instead of %d", sz, termlen);
            if(!drop) glcmp(g, term, termlen, "terminal message");
            d->eof = 1; dv_stat("bare_terminals", 1); goto out;
        }
        CHECK(d->rpos < d->nq, "invented", "received a message of %zd bytes although none is pending", sz);
        struct m *m = &d->q[d->rpos];
        CHECK(sz == m->n, "size", "message %d has %ld bytes but %zd were reported", d->rpos, m->n, sz);
        if(!drop) { CHECK(sz <= cap, "overrun", "%zd bytes reported for a buffer of %ld", sz, cap); glcmp(g, m->b, m->n, "mrecv"); gl_tail(g, m->n, "mrecv"); }
        else dv_stat("dropped", 1);
        d->rpos++; dv_stat("bytes_received", sz);
    } else {
        CHECK(sz == -1, "rc", "mrecv returned %zd", sz);
        dv_stat("recvs_failed", 1);
        if(e == EMSGSIZE) {
            CHECK(!drop && cap < (d->rpos < d->nq ? d->q[d->rpos].n : E[i].noterm && d->done ? termlen : 0), "spurious-emsgsize", "EMSGSIZE with a buffer of %ld for a message of %ld", cap, d->rpos < d->nq ? d->q[d->rpos].n : -1);
            d->inerr = d->skip = 1; d->rpos++; dv_stat("emsgsize", 1);
        } else if(e == EPIPE) {
            if(isterm && !E[1 - i].open) { d->eof = 1; }
            else { CHECK(d->rpos >= d->nq || !d->q[d->rpos].ok, "lost", "EPIPE although message %d was sent", d->rpos); CHECK(d->done || !E[1 - i].open || d->outerr, "spurious-eof", "EPIPE although the peer is not done"); d->eof = 1; }
            dv_stat("epipes", 1);
        } else {
            if(!d->skip || e != ECONNRESET) {
                if(e == ETIMEDOUT) {
                    CHECK(dl >= 0 && dv_vt >= dl, "early-timeout", "mrecv timed out early");
                    if(!tcp && !dv_again_pct && dl > t0) CHECK(!(k0 < d->nq && d->q[k0].ok && d->q[k0].t < dv_vt), "missed", "mrecv timed out although message %d had been sent", k0);
                    if(!tcp && !dv_again_pct && dl == 0) CHECK(!avail0, "missed-immediate", "immediate mrecv failed although message %d was there", k0);
                } else if(e == ECANCELED) CHECK(E[i].cancelled, "spurious-cancel", "mrecv returned ECANCELED");
                else if(e == ECONNRESET) CHECK(!E[1 - i].open, "spurious-reset", "mrecv returned ECONNRESET while the peer is open");
                else dv_fail("errno", "mrecv failed with errno %d", e);
            }
            d->inerr = 1; d->skip = 0;
        }
    }
out:
    if(g) gl_free(g);
    errno = e; return sz < 0 ? -1 : 0;
}
static void dodone(int i) {
    struct dir *d = &D[i]; int pdone = d->done, rc, e;
    if(d->outerr || d->sbusy || (E[i].noterm && d->done)) return;
    if(!pdone) d->done = 1;
    if(E[i].noterm) { if(pdone) return; rc = msend(E[i].h, term, termlen, -1); e = errno; }
    else { rc = term_done(E[i].h, -1); e = errno; }
    dv_log("%lld done ep%d -> %d", (long long)dv_vt, i, rc);
    if(pdone) CHECK(rc == -1 && e == EPIPE, "second-done", "second done returned %d errno %d", rc, e);
    else if(rc < 0) { CHECK(E[i].cancelled && e == ECANCELED, "done", "done failed with errno %d", e); d->outerr = 1; }
    dv_stat("dones", 1);
}
static coroutine void sender(int i, int steps) {
    while(steps-- && !stop) {
        if(dv_pct(20)) { if(msleep(now() + dv_below(15)) < 0) return; continue; }
        if(isterm && dv_pct(3)) { dodone(i); if(dv_pct(70)) return; continue; }
        if(dosend(i) < 0 && errno == ECANCELED) return;
        if(D[i].outerr && dv_pct(50)) return;
    }
}
static coroutine void receiver(int i, int steps) {
    struct dir *d = &D[1 - i];
    while(steps-- && !stop) {
        if(dv_pct(20)) { if(msleep(now() + dv_below(15)) < 0) return; continue; }
        if(dv_mode[1] != 'e' && d->rpos >= d->nq && dv_pct(70)) { if(msleep(now() + 2) < 0) return; continue; }
        if(dorecv(i, pickdl()) < 0 && errno == ECANCELED) return;
        if((d->inerr || d->eof) && dv_pct(50)) return;
    }
}
static coroutine void feed(int i) { while(D[i].rbusy) { if(!D[i].sbusy && D[i].rpos >= D[i].nq && !D[i].outerr && !D[i].done && !D[i].eof) { if(dosend(i) < 0) return; } if(msleep(now() + 2) < 0) return; } }
static coroutine void serve(int i) { while(D[i].sbusy) { if(!D[i].rbusy && !D[i].inerr && !D[i].eof && D[i].rpos < D[i].nq) { if(dorecv(1 - i, -1) < 0) return; } else if(msleep(now() + 2) < 0) return; } }
static coroutine void conn(struct ipaddr *a, int *h) { *h = tcp_connect(a, -1); }
static void attach(int i) {
    int u = E[i].u;
    if(E[i].raw) return;
    E[i].mem = dv_pct(50) ? dv_galloc(ispfx ? sizeof(struct prefix_storage) : sizeof(struct suffix_storage)) : NULL;
    int h = ispfx ? E[i].mem ? prefix_attach_mem(u, hdrlen, flags, E[i].mem) : prefix_attach(u, hdrlen, flags) : E[i].mem ? suffix_attach_mem(u, sfx, sfxlen, E[i].mem) : suffix_attach(u, sfx, sfxlen);
    CHECK(h >= 0, "attach", "attach failed"); E[i].h = h;
    CHECK(hclose(u) == -1 && errno == EBADF, "still-owned", "the underlying handle is still valid");
    if(!isterm || E[i].noterm) return;
    E[i].tmem = dv_pct(50) ? dv_galloc(sizeof(struct term_storage)) : NULL;
    E[i].h = E[i].tmem ? term_attach_mem(h, term, termlen, E[i].tmem) : term_attach(h, term, termlen);
    CHECK(E[i].h >= 0, "attach", "attach failed");
}
static void stopactors(int i) {
    E[i].cancelled = 1;
    for(int k = 0; k < 2; k++) if(E[i].hb[k] >= 0) { hclose(E[i].hb[k]); E[i].hb[k] = -1; }
    E[i].cancelled = 0;
}
/* after detaching: everything not yet received must be on the stream, and nothing else */
static void rest(int i) {
    struct dir *d = &D[1 - i];
    for(int k = d->rpos; k < d->nq; k++) {
        long wn; unsigned char *w = encode(d->q[k].b, d->q[k].n, &wn), *r = malloc(wn);
        int rc = brecv(E[i].u, r, wn, -1); CHECK(rc == 0, "position", "message %d is missing from the stream after detaching", k);
        CHECK(!memcmp(w, r, wn), "position", "the stream after detaching is not positioned at message %d", k); free(w); free(r);
    }
    char b[6]; int rc = bsend(E[1 - i].u, "#mark", 5, -1); CHECK(rc == 0, "detached-send", "sending on the detached socket failed");
    rc = brecv(E[i].u, b, 5, -1); CHECK(rc == 0 && !memcmp(b, "#mark", 5), "position", "the stream is not positioned right after the last message");
    dv_stat("positions_checked", 1);
}
static int detach1(int i) { return E[i].raw ? E[i].u : ispfx ? prefix_detach(E[i].h) : suffix_detach(E[i].h, -1); }
static coroutine void tdetach(int i, int64_t dl, int *rc);
static int l_send(int i, int n) { return go(sender(i, n)); }
static int l_recv(int i, int n) { return go(receiver(i, n)); }
static int l_feed(int i) { return go(feed(i)); }
static int l_serve(int i) { return go(serve(i)); }
static int l_conn(struct ipaddr *a, int *h) { return go(conn(a, h)); }
static int l_tdet(int i, int64_t dl, int *rc) { return go(tdetach(i, dl, rc)); }
static coroutine void tdetach(int i, int64_t dl, int *rc) { *rc = term_detach(E[i].h, dl); if(*rc < 0) *rc = -errno; }
void dv_case(void) {
    static int warm; int i;
    if(!warm) { int p[2]; ipc_pair(p); char c; bsend(p[0], "a", 1, -1); brecv(p[1], &c, 1, -1); hclose(p[0]); hclose(p[1]); warm = 1; msleep(now() + 1); }
    int fd0 = dv_fdcount();
    dv_deadlock = retry; memset(D, 0, sizeof D); memset(E, 0, sizeof E); stop = 0; isterm = dv_mode[0] == 't';
    ispfx = dv_mode[0] == 'p' || (isterm && dv_pct(50)); tcp = dv_pct(25); dv_grace = tcp;
    hdrlen = dv_pct(60) ? 1 << dv_below(4) : 1 + dv_below(12); flags = dv_pct(50) ? PREFIX_LITTLE_ENDIAN : PREFIX_BIG_ENDIAN;
    sfxlen = dv_pct(40) ? 2 : dv_pct(50) ? 1 + dv_below(4) : 1 + dv_below(32); alpha = 1 + dv_below(3);
    for(i = 0; i < 32; i++) sfx[i] = 'a' + dv_below(alpha); if(dv_pct(30)) memcpy(sfx, "\r\n\r\n", 4); if(dv_pct(10)) for(i = 0; i < 32; i++) sfx[i] = (unsigned char)dv_rand();
    if(alpha == 1 && sfxlen > 1 && dv_pct(70)) sfx[sfxlen - 1] ^= 3;
    if(isterm) {
        termlen = dv_pct(20) ? 0 : dv_pct(20) ? 32 : dv_below(33);
        for(int t = 0;; t++) { for(i = 0; i < 32; i++) term[i] = dv_pct(50) ? (unsigned char)dv_rand() : 's'; if(ispfx || !ambiguous(term, termlen)) break; if(t > 20) termlen = t > 40 ? 0 : dv_below(4); }
    } else termlen = 0;
    if(dv_pct(40)) dv_short_pct = dv_below(100);
    if(dv_pct(25)) dv_again_pct = dv_below(40);
    if(dv_pct(10)) dv_io_max = 1 + dv_below(100);
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
    if(tcp) {
        struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); int l = tcp_listen(&a, 5); int h = l_conn(&a, &E[0].u); E[1].u = tcp_accept(l, NULL, -1); bundle_wait(h, -1); hclose(h); hclose(l);
    } else {
        int fds[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, fds);
        if(!isterm && dv_pct(30)) { int z = 4096; setsockopt(fds[0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); setsockopt(fds[1], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); }
        for(i = 0; i < 2; i++) E[i].u = ipc_fromfd(fds[i]);
    }
    CHECK(E[0].u >= 0 && E[1].u >= 0, "harness", "no pair");
    if(isterm) E[1].noterm = dv_pct(30); else E[1].raw = dv_pct(50);
    for(i = 0; i < 2; i++) { attach(i); E[i].open = 1; }
    dv_log("tcp %d noterm %d raw %d short %d again %d max %zu pfx %d hdr %d term %d", tcp, E[1].noterm, E[1].raw, dv_short_pct, dv_again_pct, dv_io_max, ispfx, hdrlen, termlen);
    int steps = 3 + dv_below(25);
    for(i = 0; i < 2; i++) { E[i].hb[0] = l_send(i, dv_below(steps)); E[i].hb[1] = l_recv(i, dv_below(steps)); }
    msleep(now() + dv_below(200)); stop = 1;
    if(dv_mode[1] != 'e') {
        int sh[4]; for(i = 0; i < 2; i++) { sh[i] = l_serve(i); sh[2 + i] = l_feed(i); }
        for(int r = 0; r < 3000 && (D[0].sbusy | D[1].sbusy | D[0].rbusy | D[1].rbusy); r++) msleep(now() + 5);
        for(i = 0; i < 2; i++) CHECK(!D[i].sbusy && !D[i].rbusy, "stuck", "a message transfer did not complete although its peer served it");
        for(i = 0; i < 4; i++) hclose(sh[i]);
    }
    for(i = 0; i < 2; i++) stopactors(i);
    int bad = D[0].inerr | D[0].outerr | D[1].inerr | D[1].outerr;
    if(!isterm) { dv_short_pct = 0; dv_io_max = 0; }
    int how = dv_below(4); dv_log("bad %d how %d pending %d %d", bad, how, D[0].nq - D[0].rpos, D[1].nq - D[1].rpos);
    if(isterm && how < 2 && !E[1].noterm) {
        int rc[2] = {-99, -99}; int64_t dl = dv_pct(70) ? -1 : now() + dv_below(40); int both = dv_pct(80);
        if(!both && dl < 0) dl = now() + dv_below(40);
        int hb[2]; hb[0] = l_tdet(0, dl, &rc[0]); hb[1] = both ? l_tdet(1, dl, &rc[1]) : -1;
        int w = bundle_wait(hb[0], -1); CHECK(w == 0 || bad, "detach-stuck", "term_detach does not finish");
        if(both) { w = bundle_wait(hb[1], -1); CHECK(w == 0 || bad, "detach-stuck", "term_detach does not finish"); hclose(hb[1]); }
        hclose(hb[0]);
        if(!both) { if(!D[1].done) { CHECK(rc[0] < 0, "detach-alone", "term_detach succeeded although the peer sent no terminal message"); if(!bad) CHECK(rc[0] == -ETIMEDOUT, "detach-alone", "term_detach returned %d", rc[0]); } dv_stat("detach_alone", 1);
            if(rc[0] >= 0) hclose(rc[0]); }
        for(i = 0; i < 1 + both; i++) CHECK(hclose(E[i].h) == -1 && errno == EBADF, "not-closed", "the handle is still valid after term_detach");
        if(both && !bad && dl < 0) {
            CHECK(rc[0] >= 0 && rc[1] >= 0, "detach", "term_detach by both sides returned %d and %d", rc[0], rc[1]);
            for(i = 0; i < 2; i++) { char b[40]; struct m am; am = mkmsg(); while(am.n > 40) { free(am.b); am = mkmsg(); } int r = msend(rc[i], am.b, am.n, -1); CHECK(r == 0, "after-detach", "msend on the detached socket failed");
                ssize_t z = mrecv(rc[1 - i], b, 40, -1); CHECK(z == am.n && !memcmp(b, am.b, z), "after-detach", "after term_detach a message of %zd bytes was received instead of the one sent", z); free(am.b); }
            dv_stat("detached", 1);
        }
        if(both) for(i = 0; i < 2; i++) if(rc[i] >= 0) hclose(rc[i]);
        if(!both) hclose(E[1].h);
    } else if(!isterm && how < 2) {
        int ok[2];
        for(i = 0; i < 2; i++) {
            E[i].u = detach1(i); ok[i] = E[i].u >= 0;
            int err = D[i].outerr || D[1 - i].inerr;
            if(!E[i].raw) {
                if(!err) CHECK(ok[i], "detach", "detach failed");
                else CHECK(!ok[i] && errno == ECONNRESET, "detach-after-failure", "detaching a failed socket returned %d", E[i].u);
                CHECK(hclose(E[i].h) == -1 && errno == EBADF, "not-closed", "the handle is still valid after detaching");
            }
        }
        if(!bad) { rest(0); rest(1); }
        for(i = 0; i < 2; i++) if(ok[i]) hclose(E[i].u);
    } else {
        if(!bad) {
            /* end of the stream: at a boundary or inside a message */
            for(int r = 0; r < 2; r++) for(i = 0; i < 2; i++) while(D[1 - i].rpos < D[1 - i].nq && !D[1 - i].inerr) dorecv(i, -1);
            if(isterm) { for(i = 0; i < 2; i++) dodone(i); if(!E[1].noterm) for(i = 0; i < 2; i++) { for(int n = 0; n < QMAX + 2 && !D[1 - i].eof && !D[1 - i].inerr; n++) dorecv(i, -1); CHECK(D[1 - i].eof || D[1 - i].inerr, "no-eof", "no EPIPE after the terminal message"); dorecv(i, now() + 10); }
                else { while(!D[1].eof && !D[1].inerr) dorecv(0, -1); } dosend(0); }
            else if(!D[0].inerr && !D[1].inerr) {
                int cut = E[1].raw && dv_pct(60);
                if(cut) {
                    struct m m = mkmsg(); if(!toolong(m.n)) { long wn; unsigned char *w = encode(m.b, m.n, &wn); long k = dv_below(wn < 100 ? wn : 100); if(k) bsend(E[1].u, w, k, -1); free(w); if(k == 0) cut = 0; } else cut = 0; free(m.b); dv_stat("truncated", cut);
                }
                if(tcp || dv_pct(50)) {
                    if(!E[1].raw) { E[1].u = detach1(1); CHECK(E[1].u >= 0, "detach", "detach failed"); E[1].raw = 1; }
                    int rc = tcp ? tcp_done(E[1].u, -1) : ipc_done(E[1].u, -1); CHECK(rc == 0, "done", "done failed");
                } else if(E[1].raw) { hclose(E[1].u); E[1].u = -1; } else { hclose(E[1].h); E[1].h = -1; }
                E[1].open = 0;
                ssize_t z = mrecvl(E[0].h, NULL, NULL, -1); CHECK(z == -1 && (errno == EPIPE || (cut && errno == ECONNRESET)), "end", "mrecv at the end of the stream (%s) returned %zd errno %d", cut ? "inside a message" : "between messages", z, errno);
                z = mrecvl(E[0].h, NULL, NULL, -1); CHECK(z == -1 && errno != ETIMEDOUT, "end", "a second mrecv at the end of the stream returned %zd errno %d", z, errno);
                dv_stat("ends", 1);
            }
        }
        for(i = 0; i < 2; i++) { int h = E[i].raw ? E[i].u : E[i].h; if(h >= 0) hclose(h); }
    }
    if(D[0].rpos + D[1].rpos > 4) dv_nontrivial();
    dv_sample("%s header %d suffix %d term %d: %d and %d messages, delivered %d and %d%s", ispfx ? "prefix" : "suffix", hdrlen, sfxlen, termlen, D[0].nq, D[1].nq, D[0].rpos, D[1].rpos, E[1].raw ? " (model peer)" : "");
    for(i = 0; i < 2; i++) { if(E[i].mem) dv_gfree(E[i].mem); if(E[i].tmem) dv_gfree(E[i].tmem); for(int k = 0; k < D[i].nq; k++) free(D[i].q[k].b); }
    int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
