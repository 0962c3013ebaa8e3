/* P05: TLS sockets over a tapped transport. Modes: s (sessions), f (transport faults), h (failing handshakes), b (sessions with intruders, B04). */
#include "net.h"
#define DILL_H2
#include "libdillimpl.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/evp.h>
#include <openssl/ec.h>
#include "cert.h"
/* ---- count of live OpenSSL objects ---- */
static long ossl; static void *om(size_t n, const char *f, int l) { void *p = malloc(n); if(p) ossl++; return p; }
static void *orl(void *p, size_t n, const char *f, int l) { if(!p) ossl++; void *q = realloc(p, n); if(n == 0 && p) ossl--; return q; }
static void ofr(void *p, const char *f, int l) { if(p) ossl--; free(p); }
__attribute__((constructor)) static void early_(void) { CRYPTO_set_mem_functions(om, orl, ofr); }
/* The application, or another connection which blocks while it sends its alert, leaves errors in OpenSSL's queue, which belongs to the thread. */
static int littering;
static void litter(void) { if(!littering || !dv_pct(15)) return; int e = errno; BIO *b = BIO_new_mem_buf("junk", 4); if(b) { X509 *x = PEM_read_bio_X509(b, NULL, NULL, NULL); CHECK(!x, "harness", "junk read"); BIO_free(b); dv_stat("littered", 1); } errno = e; }
/* ---- transport ---- */
enum { NONE, CORRUPT, TRUNC, RESET, STALL, NFAULT };
static const char *fname[] = {"none", "corruption", "truncation", "reset", "stall"};
struct tap { struct dill_hvfs hv; struct dill_bsock_vfs bv; int u, i, closed, dead; unsigned char *rec; long n, cap, in; } T[2];
static int fdir, fkind, fx, fhit; static long fpos;
static void *tq(struct dill_hvfs *h, const void *t) { struct tap *x = (struct tap*)h; if(t == dill_bsock_type) return &x->bv; errno = ENOTSUP; return NULL; }
static void tc(struct dill_hvfs *h) { struct tap *x = (struct tap*)h; CHECK(!x->closed, "double-close", "the transport was closed twice"); x->closed = 1; int rc = dill_hclose(x->u); CHECK(rc == 0, "harness", "hclose"); }
static int tsend(struct dill_bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    struct tap *x = (struct tap*)((char*)b - offsetof(struct tap, bv)); long n = 0; struct dill_iolist *it;
    CHECK(!x->closed, "use-after-close", "the transport is used after it was closed");
    for(it = f; it; it = it->iol_next) n += it->iol_len;
    unsigned char *p = malloc(n + 1); n = 0; for(it = f; it; it = it->iol_next) { memcpy(p + n, it->iol_base, it->iol_len); n += it->iol_len; }
    if(x->n + n > x->cap) { x->cap = (x->n + n) * 2 + 1000; x->rec = realloc(x->rec, x->cap); }
    memcpy(x->rec + x->n, p, n); long pos = x->n; x->n += n; long m = n; int rc;
    if(x->i == fdir && fkind && fpos < pos + n) {
        if(fkind == CORRUPT) { if(fpos >= pos) { p[fpos - pos] ^= fx; fhit = 1; dv_log("corrupted byte %ld of %d", fpos, fdir); } }
        else if(x->dead) { free(p); if(fkind == RESET) { errno = ECONNRESET; return -1; } return 0; }
        else {
            fhit = 1; m = fpos > pos ? fpos - pos : 0; rc = m ? dill_bsend(x->u, p, m, dl) : 0; free(p); x->dead = 1; dv_log("%s at byte %ld of %d", fkind == TRUNC ? "truncated" : fkind == RESET ? "reset" : "stalled", fpos, fdir);
            if(fkind == TRUNC && rc == 0) ipc_done(x->u, -1);
            if(fkind == RESET) { if(rc == 0) ipc_done(x->u, -1); T[1 - x->i].dead = 1; errno = ECONNRESET; return -1; }
            return 0;
        }
    }
    rc = dill_bsend(x->u, p, n, dl); int e = errno; free(p); litter(); errno = e; return rc;
}
static int trecv(struct dill_bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    struct tap *x = (struct tap*)((char*)b - offsetof(struct tap, bv));
    CHECK(!x->closed, "use-after-close", "the transport is used after it was closed");
    int rc = dill_brecvl(x->u, f, l, dl); litter(); if(rc == 0) for(; f; f = f->iol_next) x->in += f->iol_len;
    if(rc < 0 && errno == EPIPE && x->dead && fkind == RESET) errno = ECONNRESET;
    return rc;
}
/* ---- sides; 0 is the client ---- */
static struct side { int t, h, mem, u; void *m; long total, want, sent, got, pos; int rend, sdone, done, fin, attached, rerr, serr, derr, aerr, det, first, gotend, slow; struct gl *g; } S[2];
static int sbusy[2], rbusy[2];   /* a coroutine is in an operation of that direction */
static uint64_t seed[2]; static int whole; static int64_t limit;   /* whole: something may stay unread, so that it must not fill the buffers */
static int retry(void) { return 1; }
static int64_t DL(void) { return limit < 0 ? -1 : now() + limit; }
static void mktap(int i, int u) { struct tap *x = &T[i]; x->hv.query = tq; x->hv.close = tc; x->bv.bsendl = tsend; x->bv.brecvl = trecv; x->u = u; x->i = i; x->closed = x->dead = 0; x->n = x->in = 0; S[i].t = dill_hmake(&x->hv); CHECK(S[i].t >= 0, "harness", "hmake"); }
static int attach(int i, int64_t dl) {
    struct side *s = &S[i]; int h, e; s->m = dv_pct(50) ? dv_galloc(sizeof(struct tls_storage)) : NULL;
    if(i == 0) h = s->m ? tls_attach_client_mem(s->t, s->m, dl) : tls_attach_client(s->t, dl);
    else h = s->m ? tls_attach_server_mem(s->t, certf, keyf, s->m, dl) : tls_attach_server(s->t, certf, keyf, dl);
    e = errno; dv_log("%d attach -> %d %s", i, h, h < 0 ? strerror(e) : "");
    CHECK(dill_hquery(s->t, dill_bsock_type) == NULL && errno == EBADF, "still-owned", "the underlying handle is still valid after attaching (%d)", h);
    if(h < 0) { CHECK(T[i].closed, "not-closed", "the underlying socket was not closed when attaching failed with %d", e); }
    s->h = h; s->aerr = h < 0 ? e : 0; s->attached = h >= 0; errno = e; return h;
}
static long amount(void) { int r = dv_below(100); return r < 10 ? 0 : r < 40 ? 1 + dv_below(40) : r < 70 ? 1 + dv_below(3000) : r < 92 ? 16000 + dv_below(1000) : dv_below(60000); }
static long piece(long left) { int r = dv_below(100); long n = r < 8 ? 0 : r < 40 ? 1 + dv_below(20) : r < 70 ? 1 + dv_below(2000) : r < 85 ? 16380 + dv_below(10) : left; return n > left ? left : n; }
static void late(int64_t dl, const char *w) { CHECK(dl < 0 || dv_vt <= dl + 2, "late", "%s took until %lld, the deadline was %lld", w, (long long)dv_vt, (long long)dl); }
static coroutine void sender(int i) {
    struct side *s = &S[i]; long left = s->total;
    while(left > 0 || s->first) {
        s->first = 0; long n = piece(left); if(dv_pct(15)) msleep(now() + dv_below(10));
        struct gl *g = gl_new(n, 0); gl_fill(g, seed[i], s->sent); int rc, e, onebuf = g->n == 1 && dv_pct(50);
        int64_t dl = fkind ? DL() : s->slow && s->total < 10000 && !dv_short_pct && !dv_again_pct ? now() + (int64_t)dv_below(4) : -1;
        litter(); sbusy[i] = 1; rc = onebuf ? bsend(s->h, g->b[0], n, dl) : bsendl(s->h, gl_first(g), gl_last(g), dl); e = errno; sbusy[i] = 0; late(dl, "send");
        gl_same(g, "TLS send"); gl_free(g); dv_log("%d send %ld -> %d %s", i, n, rc, rc < 0 ? strerror(e) : ""); dv_sig(n + rc * 3);
        if(rc < 0) { s->serr = e; return; }
        s->sent += n; left -= n; dv_stat("lists_sent", 1); dv_stat("bytes", n); if(n == 0 && left == 0) break;
    }
    if(s->sdone) {
        int64_t dl = DL(); litter(); sbusy[i] = 1; int rc = tls_done(s->h, dl); int e = errno; sbusy[i] = 0; late(dl, "tls_done"); dv_log("%d done -> %d %s", i, rc, rc < 0 ? strerror(e) : "");
        if(rc < 0) { s->derr = e; return; }
        s->done = 1;
        rc = tls_done(s->h, -1); CHECK(rc == -1 && errno == EPIPE, "second-done", "the second tls_done returned %d errno %d", rc, errno);
        rc = bsend(s->h, "x", 1, -1); CHECK(rc == -1 && errno == EPIPE, "after-done", "sending after tls_done returned %d errno %d", rc, errno); dv_stat("dones", 1);
    }
}
static coroutine void receiver(int i) {
    struct side *s = &S[i], *p = &S[1 - i]; uint64_t sd = seed[1 - i];
    while(s->got < s->want || s->rend) {
        long left = s->want - s->got, n = piece(left); if(left == 0) { n = 1 + dv_below(20); if(n > 3 && dv_pct(50)) n = 20000; }
        if(dv_pct(15)) msleep(now() + dv_below(10));
        struct gl *g = gl_new(n, GL_NULLS); gl_blank(g); int rc, e, skip = dv_pct(5);
        int64_t dl = fkind ? DL() : -1;
        litter(); rbusy[i] = 1; rc = skip ? brecv(s->h, NULL, n, dl) : g->n == 1 && g->b[0] && dv_pct(50) ? brecv(s->h, g->b[0], n, dl) : brecvl(s->h, gl_first(g), gl_last(g), dl); e = errno; rbusy[i] = 0; late(dl, "receive");
        gl_same(g, "TLS receive"); dv_log("%d recv %ld -> %d %s", i, n, rc, rc < 0 ? strerror(e) : ""); dv_sig(n + rc * 5);
        if(rc == 0) {
            CHECK(n <= left, "excess", "received %ld bytes more than was sent", n - left);
            if(!skip) gl_check(g, n, sd, s->got, "TLS receive"); s->got += n; dv_stat("recvs", 1); CHECK(s->got <= p->sent + p->total, "excess", "received what was not sent");
        }
        gl_free(g);
        if(rc < 0) {
            s->rerr = e; if(e == EPIPE) s->gotend = 1; 
            if(e == EPIPE) CHECK(s->got + n > p->sent && (p->done || p->det), "false-end", "end of the stream reported after %ld bytes, %ld were sent and the stream %s finished", s->got, p->sent, p->done ? "was" : "was not");
            char c[3]; rc = brecv(s->h, c, dv_below(4), -1); CHECK(rc == -1 && errno == (e == EPIPE ? EPIPE : ECONNRESET), "after-error", "receiving after error %d returned %d errno %d", e, rc, errno);
            return;
        }
        if(n == 0 && left == 0 && !s->rend) break;
    }
}
/* coroutines that try to use a direction already in use; each attempt must be refused at once and change nothing (B04) */
static coroutine void intruder(int i) {
    struct side *s = &S[i]; char b[4] = "x";
    for(int k = 0; k < 3000; k++) {
        if((dv_pct(40) ? yield() : msleep(now() + dv_below(6))) < 0) return;
        if(s->fin) return;
        if(sbusy[i]) {
            int64_t t = dv_vt; long w = dv_waits, n = T[i].n; int64_t dl = dv_pct(50) ? -1 : dv_pct(50) ? 0 : now() + 10; int r = dv_below(3), rc, e;
            struct iolist l1 = {b + 1, 2, NULL, 0}, l0 = {b, 1, &l1, 0};
            rc = r == 0 ? tls_done(s->h, dl) : r == 1 ? bsend(s->h, b, 1 + dv_below(3), dl) : bsendl(s->h, &l0, &l1, dl); e = errno;
            CHECK(rc == -1 && e == EBUSY, "no-ebusy", "%s while another coroutine sends returned %d errno %d", r ? "sending" : "tls_done", rc, e);
            CHECK(dv_vt == t && dv_waits == w, "ebusy-slow", "refusal of a second sender took time"); CHECK(T[i].n == n, "ebusy-sent", "refusal of a second sender sent something");
            dv_stat("tls_busy_send_refused", 1);
        }
        if(rbusy[i]) {
            int64_t t = dv_vt; long w = dv_waits, n = T[i].in; int64_t dl = dv_pct(50) ? -1 : dv_pct(50) ? 0 : now() + 10; int r = dv_below(3), rc, e;
            struct iolist l1 = {b + 1, 2, NULL, 0}, l0 = {b, 1, &l1, 0};
            rc = r == 0 ? brecv(s->h, NULL, 1 + dv_below(3), dl) : r == 1 ? brecv(s->h, b, 1 + dv_below(3), dl) : brecvl(s->h, &l0, &l1, dl); e = errno;
            CHECK(rc == -1 && e == EBUSY, "no-ebusy", "receiving while another coroutine receives returned %d errno %d", rc, e);
            CHECK(dv_vt == t && dv_waits == w, "ebusy-slow", "refusal of a second receiver took time"); CHECK(T[i].in == n, "ebusy-received", "refusal of a second receiver consumed something");
            dv_stat("tls_busy_recv_refused", 1);
        }
    }
}
static int l_i(int i) { return go(intruder(i)); }
static int l_s(int i) { return go(sender(i)); }
static int l_r(int i) { return go(receiver(i)); }
static coroutine void peer(int i) {
    struct side *s = &S[i]; if(dv_pct(20)) msleep(now() + dv_below(5));
    int64_t adl = DL(); int ar = attach(i, adl); late(adl, "attach"); if(ar < 0) { s->fin = 1; return; }
    int a = l_s(i), b = l_r(i), c = dv_mode[0] == 'b' ? l_i(i) : -1, d = c >= 0 && dv_pct(50) ? l_i(i) : -1; bundle_wait(a, -1); bundle_wait(b, -1); hclose(a); hclose(b); if(c >= 0) hclose(c); if(d >= 0) hclose(d);
    if(s->det) { int64_t dl = DL(); s->u = tls_detach(s->h, dl); int e = errno; late(dl, "tls_detach"); errno = e; if(s->u < 0) s->derr = errno; dv_log("%d detach -> %d %s", i, s->u, s->u < 0 ? strerror(errno) : ""); CHECK(hclose(s->h) == -1 && errno == EBADF, "still-open", "the handle is valid after tls_detach"); if(s->u < 0) CHECK(T[i].closed, "not-closed", "the transport is not closed after a failed tls_detach"); else CHECK(!T[i].closed, "closed", "the transport is closed after tls_detach"); }
    s->fin = 1;
}
static int l_p(int i) { return go(peer(i)); }
static void pair(void) {
    int p[2]; int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); for(int i = 0; i < 2; i++) { mktap(i, p[i]); }
    if(!whole && dv_pct(30)) dv_short_pct = dv_below(60);
    if(!whole && dv_pct(20)) dv_again_pct = dv_below(40);
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
}
static void session(int faulty) {
    int i, rc; whole = 0;
    for(i = 0; i < 2; i++) { struct side *s = &S[i]; s->total = amount(); s->first = dv_pct(50); s->sdone = dv_pct(60); s->det = dv_pct(75); s->slow = dv_pct(40); seed[i] = dv_rand(); }
    if(!faulty) S[1].det = S[0].det;
    for(i = 0; i < 2; i++) { S[i].want = S[1 - i].total; if(dv_pct(25) && S[1 - i].total < 2000) { S[i].want = dv_below(S[1 - i].total + 1); whole = 1; } S[i].rend = S[i].want == S[1 - i].total && S[1 - i].sdone && dv_pct(60); }
    limit = -1;
    if(faulty) { fkind = 1 + dv_below(NFAULT - 1); fdir = dv_below(2); fx = 1 + dv_below(255); fpos = dv_pct(50) ? dv_below(2500) : dv_pct(50) ? 400 + (long)dv_below(400) : (long)dv_below(2500 + S[fdir].total); limit = 200000 + dv_below(100); }
    pair(); int h[2]; for(i = 0; i < 2; i++) h[i] = l_p(i);
    for(i = 0; i < 2; i++) { rc = bundle_wait(h[i], -1); CHECK(rc == 0, "stuck", "a session does not finish"); hclose(h[i]); }
    int wire = 0; for(i = 0; i < 2; i++) {
        struct side *s = &S[i];
        if(!faulty || !fhit) {
            CHECK(s->attached, "attach", "side %d: attaching failed with errno %d", i, s->aerr);
            CHECK(!s->serr, "send", "sending failed with errno %d", s->serr); CHECK(s->got == s->want, "lost", "%ld of %ld bytes received", s->got, s->want);
            CHECK(!s->rend || s->gotend, "no-end", "EPIPE did not follow the last byte"); CHECK(!s->derr || !S[0].det || !S[1].det, "detach", "side %d: finishing failed with errno %d", i, s->derr);
            if(S[1].det && S[0].det) CHECK(s->u >= 0, "detach", "side %d: tls_detach failed with errno %d", i, s->derr);
        }
        /* no plain text on the wire */
        for(long k = 0; k + 12 <= s->total && k < 200; k += 61) { unsigned char w[12]; patfill(w, 12, seed[i], k); CHECK(!memmem(T[i].rec, T[i].n, w, 12), "plain-text", "plain text is visible on the transport"); wire = 1; }
    }
    if(wire) dv_stat("wires_searched", 1);
    if(fhit) {
        dv_stat(fname[fkind], 1); struct side *r = &S[1 - fdir];
        /* whoever claims success must have got it all */
        if(r->gotend) CHECK(r->got == S[fdir].sent && (S[fdir].done || S[fdir].u >= 0 || S[fdir].derr), "false-end", "%s: end of stream after %ld bytes, %ld were sent", fname[fkind], r->got, S[fdir].sent);
        if(r->u >= 0) CHECK(fkind == CORRUPT && r->got == r->want, "false-end", "%s: tls_detach succeeded although the stream was broken", fname[fkind]);
        dv_stat(S[0].attached && S[1].attached ? "faults_in_session" : "faults_in_handshake", 1);
    } else if(S[0].u >= 0 && S[1].u >= 0) {
        fkind = NONE; char x[50], y[50]; patfill(x, 50, 77, 0); CHECK(T[0].n == T[1].in && T[1].n == T[0].in, "position", "%ld and %ld bytes on the wire, %ld and %ld consumed", T[0].n, T[1].n, T[1].in, T[0].in);
        for(i = 0; i < 2; i++) { rc = bsend(S[i].u, x, 50, -1); CHECK(rc == 0, "position", "sending on the detached socket failed"); rc = brecv(S[1 - i].u, y, 50, -1); CHECK(rc == 0 && !memcmp(x, y, 50), "position", "the detached socket is not positioned after the TLS stream"); CHECK(memmem(T[i].rec, T[i].n, x, 50), "position", "data of the detached socket are encrypted"); }
        dv_stat("detached", 1);
    }
    for(i = 0; i < 2; i++) { if(S[i].u >= 0) hclose(S[i].u); else if(S[i].attached && !S[i].det) hclose(S[i].h); CHECK(T[i].closed, "not-closed", "the transport %d is left open", i); }
    if(S[0].total + S[1].total > 100) dv_nontrivial();
    dv_stat("sessions", 1); dv_sig(S[0].total * 3 + S[1].total); dv_sig(fhit * 10 + fkind + fpos * 50);
    dv_sample("%ld and %ld bytes, %s at %ld of %d", S[0].total, S[1].total, fname[fkind], fkind ? fpos : 0, fdir);
}
/* ---- failing handshakes ---- */
static coroutine void rawpeer(int i, int kind, long n, unsigned char *b) {
    if(dv_pct(30)) msleep(now() + dv_below(5));
    if(kind == 0) { bsend(S[i].t, b, n, -1); hclose(S[i].t); S[i].t = -1; }         /* garbage, hang-up */
    else if(kind == 1) { bsend(S[i].t, b, n, -1); char c; while(brecv(S[i].t, &c, 1, -1) == 0); }  /* garbage, silence */
}
static coroutine void att(int i, int64_t dl) { attach(i, dl); S[i].fin = 1; S[i].pos = dv_vt; }
static int l_a(int i, int64_t dl) { return go(att(i, dl)); }
static int l_raw(int i, int k, long n, unsigned char *b) { return go(rawpeer(i, k, n, b)); }
static void handshakes(void) {
    int i = dv_below(2), k = dv_below(6), rc; pair();
    if(k < 2) {
        long n = dv_pct(20) ? 0 : dv_below(300); unsigned char *b = malloc(n + 10); for(long j = 0; j < n; j++) b[j] = (unsigned char)dv_rand(); int shaped = dv_pct(60) && n > 5; if(shaped) { b[0] = dv_pct(70) ? 22 : 20 + dv_below(5); b[1] = 3; b[2] = dv_below(5); b[3] = 0; b[4] = (unsigned char)(n - 5 > 255 ? 255 : n - 5); if(n > 9 && dv_pct(50)) { b[5] = dv_below(3); b[6] = 0; b[7] = 0; b[8] = b[4] - 4; } }
        int64_t d = 20 + dv_below(50), dl = now() + d; int cancel = k == 1 && dv_pct(30); if(cancel) dl = -1; else if(k == 0 && dv_pct(50)) dl = -1;
        int r = l_raw(1 - i, k, n, b), a = l_a(i, dl);
        if(cancel) { msleep(now() + 10 + dv_below(20)); int was = S[i].fin; hclose(a); CHECK(S[i].fin && !S[i].attached && (was || S[i].aerr == ECANCELED), "cancel", "the cancelled handshake gave %d errno %d", S[i].h, S[i].aerr); dv_stat("cancelled", !was); }
        else { rc = bundle_wait(a, -1); CHECK(rc == 0, "stuck", "handshake does not finish"); hclose(a);
            CHECK(!S[i].attached, "false-handshake", "a handshake with a peer sending garbage succeeded"); CHECK(S[i].aerr != 0 && S[i].aerr != EAGAIN, "errno", "errno %d", S[i].aerr);
            if(S[i].aerr == ETIMEDOUT) { CHECK(S[i].pos >= dl && S[i].pos <= dl + 2, "deadline", "handshake timed out at %lld, deadline %lld", (long long)S[i].pos, (long long)dl); dv_stat("timeouts", 1); } else CHECK(S[i].pos <= dl + 2 || dl < 0, "deadline", "handshake ended at %lld, deadline %lld", (long long)S[i].pos, (long long)dl);
            if(n == 0 && k == 1) CHECK(S[i].aerr == ETIMEDOUT, "deadline", "handshake with a silent peer gave %d", S[i].aerr);
            if(n == 0 && k == 0) CHECK(S[i].aerr == ECONNRESET || S[i].aerr == EPIPE || S[i].aerr == ETIMEDOUT, "hangup", "handshake with a peer hanging up gave %d", S[i].aerr);
        }
        if(S[i].attached) hclose(S[i].h);
        rc = bundle_wait(r, -1); CHECK(rc == 0, "stuck", "the raw peer does not see the transport closed"); hclose(r); free(b); if(S[1 - i].t >= 0) hclose(S[1 - i].t); dv_stat("garbage", 1);
    } else if(k == 2) {   /* no certificate */
        const char *c = dv_pct(50) ? "/nonexistent/cert" : certf, *y = c != certf && dv_pct(50) ? keyf : "/nonexistent/key"; struct tls_storage m; int h = dv_pct(50) ? tls_attach_server(S[i].t, c, y, -1) : tls_attach_server_mem(S[i].t, c, y, &m, -1);
        CHECK(h == -1, "no-certificate", "a server without a certificate was created"); CHECK(T[i].closed, "not-closed", "the socket is not closed"); hclose(S[1 - i].t); dv_stat("bad_args", 1);
    } else if(k == 3) {
        int h = i ? tls_attach_server_mem(S[0].t, certf, keyf, NULL, -1) : tls_attach_client_mem(S[0].t, NULL, -1); CHECK(h == -1 && errno == EINVAL, "bad-mem", "NULL storage: %d errno %d", h, errno); CHECK(T[0].closed, "not-closed", "the socket is not closed"); hclose(S[1].t); dv_stat("bad_args", 1);
    } else if(k == 4) {
        int m = prefix_attach(S[0].t, 2, 0); int h = i ? tls_attach_server(m, certf, keyf, -1) : tls_attach_client(m, -1); CHECK(h == -1 && errno == EPROTO, "wrong-kind", "TLS over a message socket: %d errno %d", h, errno); CHECK(T[0].closed, "not-closed", "the socket is not closed");
        h = i ? tls_done(S[1].t, -1) : tls_detach(S[1].t, -1); CHECK(h == -1 && errno == ENOTSUP, "wrong-kind", "TLS operation on another socket: %d errno %d", h, errno); hclose(S[1].t); dv_stat("wrong_kinds", 1);
    } else {   /* both sides of the same role */
        int h[2]; static int role; role = i; (void)role; limit = 300;
        S[0].m = S[1].m = NULL; int64_t dl = now() + 300; h[0] = l_a(i, dl); int keep = S[1 - i].t; struct side sv = S[1 - i]; (void)keep;
        /* the other side uses the same role over its own transport */
        int hh; hh = i ? tls_attach_server(sv.t, certf, keyf, dl) : tls_attach_client(sv.t, dl); CHECK(hh == -1, "same-role", "two sides with the same role succeeded"); rc = bundle_wait(h[0], -1); hclose(h[0]); CHECK(!S[i].attached, "same-role", "two sides with the same role succeeded"); CHECK(T[1 - i].closed, "not-closed", "left open"); dv_stat("same_role", 1);
    }
    for(i = 0; i < 2; i++) CHECK(T[i].closed, "not-closed", "the transport %d is left open", i);
    dv_nontrivial(); dv_sig(k * 2 + i); dv_sample("failing handshake of kind %d", k);
}
void dv_case(void) {
    static int warm; int i; dv_deadlock = retry; uint64_t rs = *dv_rngstate();
    if(!warm) { mkcert(); atexit(clean); if(!dv_verbose) freopen("/dev/null", "w", stderr); }
    for(int rep = 0; rep < (warm ? 1 : 3); rep++) {
        memset(S, 0, sizeof S); memset(sbusy, 0, sizeof sbusy); memset(rbusy, 0, sizeof rbusy); for(i = 0; i < 2; i++) { S[i].u = S[i].h = -1; T[i].n = 0; } fkind = NONE; fhit = 0; limit = -1; 
        if(warm) break;
        int ev = dv_eintr_pct; session(rep > 0); dv_eintr_pct = ev; dv_short_pct = dv_again_pct = 0; for(i = 0; i < 2; i++) if(S[i].m) { dv_gfree(S[i].m); S[i].m = NULL; }
    }
    if(!warm) { warm = 1; *dv_rngstate() = rs; memset(S, 0, sizeof S); for(i = 0; i < 2; i++) S[i].u = S[i].h = -1; fkind = NONE; fhit = 0; limit = -1; }
    int fd0 = dv_fdcount(); ERR_clear_error(); long o0 = ossl; littering = dv_pct(40);
    if(dv_mode[0] == 'h') handshakes(); else session(dv_mode[0] == 'f');
    for(i = 0; i < 2; i++) if(S[i].m) dv_gfree(S[i].m);
    ERR_clear_error(); littering = 0; CHECK(ossl - o0 < 50, "openssl-leak", "%ld OpenSSL blocks leaked", ossl - o0);
    dv_max("ossl_growth", ossl - o0);

    int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
