/* P02, P03: WebSocket. Modes:
   f (messages, closing; library peers or a raw RFC 6455 peer), x (hostile frames against a reference decoder),
   k (opening handshakes against library and raw peers, with corruptions). */
#include "net.h"
#include <ctype.h>
#include <strings.h>
#include <limits.h>
struct m { unsigned char *b; long n; int text; };
#define QMAX 40
static struct { struct m q[QMAX]; int nq, sent, got, done, eof, inerr, status; char txt[130]; int txtn; unsigned masks[3]; int nmasks; } D[2];   /* D[i]: direction sent by i */
static struct { int u, h, raw, srv, flags; void *mem; } E[2];
static int tcp, whole;
static int retry(void) { return 1; }
static coroutine void conn(struct ipaddr *a) { E[0].u = tcp_connect(a, -1); }
static int l_conn(struct ipaddr *a) { return go(conn(a)); }
static void pair(void) {
    tcp = dv_pct(dv_mode[0] == 'x' ? 25 : 8); dv_grace = tcp;
    if(tcp) { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); int l = tcp_listen(&a, 5); int c = l_conn(&a); E[1].u = tcp_accept(l, NULL, -1); bundle_wait(c, -1); hclose(c); hclose(l); }
    else { int p[2]; int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); E[0].u = p[0]; E[1].u = p[1]; }
    if(dv_pct(40)) dv_short_pct = dv_below(100);
    if(dv_pct(20)) dv_again_pct = dv_below(40);
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
}
static int rawsend(int i, const void *w, long n) { long o = 0; while(o < n) { long k = whole || dv_pct(50) ? n - o : 1 + dv_below(n - o < 30 ? n - o : 30); if(bsend(E[i].u, (char*)w + o, k, -1) < 0) return -1; o += k; if(dv_pct(8) && msleep(now() + dv_below(4)) < 0) return -1; } return 0; }
/* one frame in wire form; lenform 0: minimal, else 126 or 127 */
static long mkframe(unsigned char *w, int b0, int masked, uint64_t declared, int lenform, const unsigned char *p, long n) {
    long k = 0; w[k++] = b0; int mb = masked ? 0x80 : 0;
    if(lenform == 0) lenform = declared < 126 ? 1 : declared < 65536 ? 126 : 127;
    if(lenform == 127) { w[k++] = mb | 127; for(int i = 7; i >= 0; i--) w[k++] = declared >> (8 * i); }
    else if(lenform == 126) { w[k++] = mb | 126; w[k++] = declared >> 8; w[k++] = declared; }
    else w[k++] = mb | declared;
    unsigned char mk[4] = {0, 0, 0, 0}; if(masked) for(int i = 0; i < 4; i++) w[k++] = mk[i] = (unsigned char)dv_rand();
    for(long i = 0; i < n; i++) w[k++] = p[i] ^ mk[i % 4];
    return k;
}
static long size(void) { int r = dv_below(200); return r < 20 ? 0 : r < 60 ? dv_below(12) : r < 90 ? 120 + dv_below(12) : r < 150 ? dv_below(400) : r < 194 ? dv_below(3000) : r < 196 ? 65530 + dv_below(12) : r < 197 ? dv_below(100000) : dv_below(200); }
static struct m mkmsg(void) {
    struct m m; m.n = size(); m.text = dv_pct(50); m.b = malloc(m.n + 1); uint64_t s = dv_rand(); patfill(m.b, m.n, s, 0); return m;
}
/* ---- sending and receiving one message ---- */
static int sendmsg1(int i, struct m *m) {
    if(E[i].raw) {
        int nf = dv_pct(60) ? 1 : 1 + dv_below(4); long o = 0; int rc = 0;
        for(int f = 0; f < nf && rc == 0; f++) {
            long k = f == nf - 1 ? m->n - o : (long)dv_below(m->n - o + 1); unsigned char *w = malloc(k + 20);
            long wn = mkframe(w, (f == nf - 1 ? 0x80 : 0) | (f ? 0 : m->text ? 1 : 2), !E[i].srv, k, 0, m->b + o, k); rc = rawsend(i, w, wn); free(w); o += k;
            if(nf > 1) dv_stat("fragments", 1);
        }
        return rc;
    }
    int how = dv_below(4); if((how & 1) && !!(E[i].flags & WS_TEXT) != m->text) how &= 2;
    if(how < 2) return how ? msend(E[i].h, m->b, m->n, -1) : ws_send(E[i].h, m->text ? WS_TEXT : WS_BINARY, m->b, m->n, -1);
    struct gl *g = gl_new(m->n, GL_MANY); long o = 0; for(int k = 0; k < g->n; k++) { memcpy(g->b[k], m->b + o, g->len[k]); o += g->len[k]; }
    int rc = how == 3 ? msendl(E[i].h, gl_first(g), gl_last(g), -1) : ws_sendl(E[i].h, m->text ? WS_TEXT : WS_BINARY, gl_first(g), gl_last(g), -1), e = errno;
    gl_same(g, "sending"); gl_free(g); errno = e; return rc;
}
static int rawrecv(int i, void *b, long n) { return n ? brecv(E[i].u, b, n, -1) : 0; }
/* reads one frame of the library; returns payload length, fills *b0 and *pay; checks the wire form */
static long rawframe(int i, int *b0, unsigned char **pay, int *rc) {
    unsigned char h[14], mk[4] = {0, 0, 0, 0}; *pay = NULL; if((*rc = rawrecv(i, h, 2)) < 0) return -1;
    *b0 = h[0]; CHECK((h[0] & 0xf0) == 0x80, "wire", "first byte of a frame is 0x%02x", h[0]);
    CHECK(!(h[1] & 0x80) == E[1 - i].srv, "wire", "%s %s its frames", E[1 - i].srv ? "the server" : "the client", E[1 - i].srv ? "masks" : "does not mask");
    uint64_t n = h[1] & 127;
    if(n == 126) { if((*rc = rawrecv(i, h, 2)) < 0) return -1; n = h[0] * 256 + h[1]; CHECK(n > 125, "wire", "length %d in a form longer than needed", (int)n); }
    else if(n == 127) { if((*rc = rawrecv(i, h, 8)) < 0) return -1; n = 0; for(int k = 0; k < 8; k++) n = n << 8 | h[k]; CHECK(n > 65535, "wire", "length %llu in a form longer than needed", (unsigned long long)n); CHECK(n < 1000000, "wire", "length %llu", (unsigned long long)n); }
    if(!E[1 - i].srv) { if((*rc = rawrecv(i, mk, 4)) < 0) return -1; unsigned v; memcpy(&v, mk, 4); if(D[1 - i].nmasks < 3) D[1 - i].masks[D[1 - i].nmasks++] = v; }
    *pay = malloc(n + 1); if((*rc = rawrecv(i, *pay, n)) < 0) { free(*pay); return -1; }
    for(uint64_t k = 0; k < n; k++) (*pay)[k] ^= mk[k % 4];
    dv_stat("wire_checked", 1); return (long)n;
}
/* receives a message on side i that must be m; returns 0 or -1 with errno */
static int recvmsg1(int i, struct m *m, int *toobig, int *mismatch) {
    *toobig = *mismatch = 0;
    if(E[i].raw) {
        int b0, rc; unsigned char *p; long n = rawframe(i, &b0, &p, &rc); if(n < 0) return -1;
        CHECK((b0 & 15) == (m->text ? 1 : 2), "wire", "opcode %d for a %s message", b0 & 15, m->text ? "text" : "binary");
        CHECK(n == m->n, "wire", "frame of %ld bytes for a message of %ld", n, m->n);
        CHECK(!memcmp(p, m->b, n), "wire", "payload of %ld bytes differs on the wire", n); free(p); return 0;
    }
    int how = dv_below(5), fl = 77, e; long cap = dv_pct(60) ? m->n + (long)dv_below(20) : dv_pct(60) ? m->n + (long)dv_below(3) - 1 : (long)dv_below(m->n + 1); if(cap < 0) cap = 0;
    if(!whole && cap < m->n) cap = m->n;
    ssize_t rc; int mm = 0;
    if(how == 0) { rc = dv_pct(50) ? ws_recvl(E[i].h, dv_pct(50) ? &fl : NULL, NULL, NULL, -1) : ws_recv(E[i].h, &fl, NULL, SIZE_MAX, -1); e = errno; if(rc >= 0 && fl != 77) mm = 1; dv_stat("skipped", rc >= 0); }
    else if(how == 1 || how == 2) {
        char *b = dv_galloc(cap); if(cap) memset(b, 0xEE, cap); rc = how == 1 ? ws_recv(E[i].h, &fl, b, cap, -1) : mrecv(E[i].h, b, cap, -1); e = errno; mm = how == 1;
        if(rc >= 0) { CHECK(rc <= cap && rc == m->n && !memcmp(b, m->b, rc), "message", "received %zd bytes that are not the message of %ld bytes sent", rc, m->n); for(long k = rc; k < cap; k++) CHECK((unsigned char)b[k] == 0xEE, "overrun", "byte past the message was written"); }
        dv_gfree(b);
    } else {
        struct gl *g = gl_new(cap, GL_NULLS | GL_MANY); gl_blank(g); rc = how == 3 ? ws_recvl(E[i].h, &fl, gl_first(g), gl_last(g), -1) : mrecvl(E[i].h, gl_first(g), gl_last(g), -1); e = errno; mm = how == 3;
        gl_same(g, "receiving");
        if(rc >= 0) { CHECK(rc <= cap && rc == m->n, "message", "received %zd bytes instead of %ld", rc, m->n); long o = 0; for(int k = 0; k < g->n && o < rc; k++) { long z = (long)g->len[k] < rc - o ? (long)g->len[k] : rc - o; if(g->b[k]) CHECK(!memcmp(g->b[k], m->b + o, z), "message", "bytes from %ld differ from the message sent", o); o += z; } gl_tail(g, rc, "receiving"); }
        gl_free(g); if(how == 4 && rc >= 0) how = 2;
    }
    dv_log("recv%d how %d cap %ld of %ld text %d -> %zd errno %d", i, how, cap, m->n, m->text, rc, rc < 0 ? e : 0);
    dv_sig(m->n * 64 + how * 4 + m->text); errno = e; if(rc < 0 && e == ECANCELED) return -1;
    if(how && cap < m->n) { CHECK(rc == -1 && e == EMSGSIZE, "emsgsize", "a message of %ld bytes for a buffer of %ld gave %zd errno %d", m->n, cap, rc, e); *toobig = 1; dv_stat("emsgsize", 1); errno = e; return -1; }
    if((how == 2 || how == 4) && !!(E[i].flags & WS_TEXT) != m->text) { CHECK(rc == -1 && e == EPROTO, "type", "a %s message on a socket of the other type gave %zd errno %d", m->text ? "text" : "binary", rc, e); *mismatch = 1; dv_stat("type_mismatch", 1); return 0; }
    CHECK(rc == m->n, "message", "receiving a message of %ld bytes returned %zd errno %d", m->n, rc, e);
    if(mm && fl != 77) CHECK(fl == (m->text ? WS_TEXT : WS_BINARY), "type", "flags %d for a %s message", fl, m->text ? "text" : "binary");
    if(mm && (how == 1 || how == 3)) CHECK(fl != 77, "type", "flags were not set");
    return 0;
}
/* ---- closing ---- */
static void mkclose(int d) { D[d].status = dv_pct(30) ? 0 : dv_pct(20) ? 1000 : dv_pct(12) ? 4999 : 1000 + dv_below(4000); D[d].txtn = D[d].status == 0 ? 0 : dv_pct(20) ? 0 : dv_pct(20) ? 123 : dv_below(124); if((whole || dv_again_pct || D[d].nq) && !E[d].srv && D[d].txtn > 10) D[d].txtn = dv_below(10);   /* sent byte by byte and possibly never received */
    for(int k = 0; k < D[d].txtn; k++) D[d].txt[k] = (char)dv_rand(); }
static int doclose(int i) {
    if(E[i].raw) { unsigned char p[125], w[150]; int n = 0; if(D[i].status) { p[0] = D[i].status >> 8; p[1] = D[i].status; memcpy(p + 2, D[i].txt, D[i].txtn); n = 2 + D[i].txtn; } long wn = mkframe(w, 0x88, !E[i].srv, n, 0, p, n); return rawsend(i, w, wn); }
    int rc;
    if(dv_pct(20)) {
        static const int bad[] = {1, 999, 5000, -1, 65536 + 1000, 999}; char big[200]; memset(big, 'x', sizeof big);
        switch(dv_below(4)) { case 0: rc = ws_done(E[i].h, bad[dv_below(6)], "a", dv_below(2), -1); break; case 1: rc = ws_done(E[i].h, 1000, NULL, 1 + dv_below(5), -1); break; case 2: rc = ws_done(E[i].h, 1000, big, 124 + dv_below(70), -1); break; default: rc = ws_done(E[i].h, 0, big, 1 + dv_below(130), -1); }
        CHECK(rc == -1 && errno == EINVAL, "bad-close", "a terminal message that cannot be sent gave %d errno %d", rc, errno); dv_stat("bad_closes", 1);
    }
    rc = ws_done(E[i].h, D[i].status, D[i].txtn || dv_pct(50) ? D[i].txt : NULL, D[i].txtn, -1);
    if(rc < 0) return rc;
    int r2 = ws_done(E[i].h, 1000, NULL, 0, -1); CHECK(r2 == -1 && errno == EPIPE, "second-done", "second ws_done returned %d errno %d", r2, errno);
    r2 = dv_pct(50) ? msend(E[i].h, "a", 1, -1) : ws_send(E[i].h, WS_TEXT, "a", 1, -1); CHECK(r2 == -1 && errno == EPIPE, "after-done", "sending after ws_done returned %d errno %d", r2, errno);
    return 0;
}
static void checkstatus(int i) {   /* side i has seen the other's close frame */
    int d = 1 - i, st = -5; char b[130]; memset(b, 0xEE, sizeof b); int cap = dv_pct(40) ? 130 : dv_below(130); void *bp = dv_pct(80) ? b : NULL; if(!bp) cap = 0;
    ssize_t n = ws_status(E[i].h, dv_pct(90) ? &st : NULL, bp, cap);
    if(bp && cap < D[d].txtn) { CHECK(n == -1 && errno == EMSGSIZE, "status", "ws_status with a small buffer returned %zd errno %d", n, errno); return; }
    CHECK(n == D[d].txtn, "status", "ws_status returned %zd errno %d, expected a text of %d bytes", n, errno, D[d].txtn);
    if(st != -5) CHECK(st == D[d].status, "status", "ws_status reports %d, the peer sent %d", st, D[d].status);
    if(bp) { CHECK(!memcmp(b, D[d].txt, n), "status", "the terminal text differs from the one sent"); for(int k = n; k < 130; k++) CHECK((unsigned char)b[k] == 0xEE, "overrun", "ws_status wrote past the text"); }
    dv_stat("statuses", 1);
}
static void expecteof(int i) {
    if(E[i].raw) { int b0, rc; unsigned char *p; long n = rawframe(i, &b0, &p, &rc); CHECK(n >= 0 && (b0 & 15) == 8, "wire-close", "no close frame on the wire (%ld, 0x%02x)", n, b0);
        int d = 1 - i; CHECK(n == (D[d].status ? 2 + D[d].txtn : 0), "wire-close", "close frame of %ld bytes", n); if(n) { CHECK(p[0] * 256 + p[1] == D[d].status && !memcmp(p + 2, D[d].txt, D[d].txtn), "wire-close", "content of the close frame differs"); } free(p); D[d].eof = 1; return; }
    char b[8]; int fl;
    for(int k = 0; k < 2; k++) { ssize_t rc = dv_pct(40) ? mrecv(E[i].h, b, 8, -1) : dv_pct(50) ? ws_recv(E[i].h, &fl, b, 8, -1) : ws_recvl(E[i].h, NULL, NULL, NULL, -1); CHECK(rc == -1 && errno == EPIPE, "eof", "receiving after the close frame returned %zd errno %d", rc, errno); }
    D[1 - i].eof = 1; checkstatus(i); if(dv_pct(50)) checkstatus(i);
}
static coroutine void sender(int i, int close) {
    for(int k = 0; k < D[i].nq; k++) {
        if(dv_pct(15) && msleep(now() + dv_below(8)) < 0) return;
        int rc = sendmsg1(i, &D[i].q[k]); CHECK(rc == 0 || errno == ECANCELED, "send", "sending message %d of %ld bytes failed with errno %d", k, D[i].q[k].n, errno); if(rc < 0) return;
        D[i].sent++; dv_sig(D[i].q[k].n * 8 + 7);
    }
    if(close) { int rc = doclose(i); CHECK(rc == 0, "done", "closing failed with errno %d", errno); D[i].done = 1; }
}
static coroutine void receiver(int i, int upto) {
    int d = 1 - i, tb, mm;
    for(int k = 0; k < upto; k++) {
        if(dv_pct(15) && msleep(now() + dv_below(8)) < 0) return;
        if(!E[i].raw && dv_pct(10)) { ssize_t z = ws_status(E[i].h, NULL, NULL, 0); CHECK(z == -1 && errno == EAGAIN, "status-early", "ws_status before the end returned %zd errno %d", z, errno); }
        int rc = recvmsg1(i, &D[d].q[k], &tb, &mm); if(rc < 0 && !tb) { CHECK(errno == ECANCELED, "recv", "receiving message %d failed with errno %d", k, errno); return; }
        D[d].got++; if(tb) { D[d].inerr = 1; return; }
    }
}
static int l_s(int i, int c) { return go(sender(i, c)); }
static int l_r(int i, int n) { return go(receiver(i, n)); }
static coroutine void det(int i, int *rc) {
    if(E[i].raw) {
        if(!D[i].done) { mkclose(i); int r = doclose(i); CHECK(r == 0, "harness", "raw close"); D[i].done = 1; }
        while(!D[1 - i].eof) { int b0, r; unsigned char *p; long n = rawframe(i, &b0, &p, &r); if(n < 0) { *rc = -1; return; } free(p); if((b0 & 15) == 8) { CHECK(n <= 125, "wire-close", "close frame of %ld bytes", n); D[1 - i].eof = 1; } }
        *rc = E[i].u; return;
    }
    mkclose(i); *rc = ws_detach(E[i].h, D[i].status, D[i].txtn ? D[i].txt : NULL, D[i].txtn, -1); if(*rc < 0) *rc = -errno;
}
static int l_d(int i, int *rc) { return go(det(i, rc)); }
static void attach_nohttp(void) {
    for(int i = 0; i < 2; i++) {
        E[i].flags = dv_pct(50) ? WS_TEXT : WS_BINARY; if(E[i].raw) continue;
        E[i].mem = dv_pct(50) ? dv_galloc(sizeof(struct ws_storage)) : NULL; int u = E[i].u, fl = E[i].flags | WS_NOHTTP;
        E[i].h = E[i].srv ? E[i].mem ? ws_attach_server_mem(u, fl, NULL, 0, NULL, 0, E[i].mem, -1) : ws_attach_server(u, fl, NULL, 0, NULL, 0, -1)
                          : E[i].mem ? ws_attach_client_mem(u, fl, NULL, NULL, E[i].mem, -1) : ws_attach_client(u, fl, NULL, NULL, -1);
        CHECK(E[i].h >= 0, "attach", "attach failed with errno %d", errno); CHECK(hclose(u) == -1 && errno == EBADF, "still-owned", "the underlying handle is still valid");
    }
}
static void messages(void) {
    int i; E[0].srv = dv_pct(50); E[1].srv = !E[0].srv; E[1].raw = dv_pct(50); pair(); attach_nohttp();
    int upto[2];
    for(i = 0; i < 2; i++) { D[i].nq = dv_below(10); for(int k = 0; k < D[i].nq; k++) D[i].q[k] = mkmsg(); }
    whole = dv_pct(30);    /* only then may a side stop receiving early */
    if(whole) { dv_short_pct = dv_again_pct = 0; for(i = 0; i < 2; i++) { long t = 0; for(int k = 0; k < D[i].nq; k++) { struct m *m = &D[i].q[k]; if(!E[i].srv && !E[i].raw && m->n > 20) m->n = dv_below(20); t += m->n; if(t > 60000) { D[i].nq = k + 1; break; } } } }
    for(i = 0; i < 2; i++) upto[i] = !whole || dv_pct(60) ? D[1 - i].nq : (int)dv_below(D[1 - i].nq + 1);
    int hb[4], cl[2]; for(i = 0; i < 2; i++) { cl[i] = dv_pct(50); mkclose(i); }
    for(i = 0; i < 2; i++) { hb[i] = l_s(i, cl[i]); hb[2 + i] = l_r(i, upto[i]); }
    for(i = 0; i < 2; i++) { int rc = bundle_wait(hb[2 + i], -1); CHECK(rc == 0, "stuck", "messages do not arrive"); rc = bundle_wait(hb[i], -1); CHECK(rc == 0, "stuck", "messages cannot be sent"); }
    for(i = 0; i < 4; i++) hclose(hb[i]);
    for(i = 0; i < 2; i++) if(!E[i].raw && D[1 - i].inerr) { char b[4]; ssize_t z = mrecv(E[i].h, b, 4, -1); CHECK(z == -1 && errno != EMSGSIZE, "after-failure", "receiving after EMSGSIZE returned %zd errno %d", z, errno); }
    for(i = 0; i < 2; i++) if(D[1 - i].done && D[1 - i].got == D[1 - i].nq && !D[1 - i].inerr && dv_pct(70)) expecteof(i);
    for(i = 0; i < 2; i++) if(D[i].nmasks == 3) CHECK(D[i].masks[0] != D[i].masks[1] || D[i].masks[1] != D[i].masks[2], "mask", "the same mask 0x%08x in three frames", D[i].masks[0]);
    if(D[0].got + D[1].got > 3) dv_nontrivial();
    int how = dv_below(4);
    if(!D[0].inerr && !D[1].inerr && how < 3 && !tcp) {
        for(i = 0; i < 2; i++) if(E[i].raw) for(int k = D[1 - i].got; k < D[1 - i].nq; k++) { int tb, mm; int rc = recvmsg1(i, &D[1 - i].q[k], &tb, &mm); CHECK(rc == 0, "wire", "message missing on the wire"); D[1 - i].got++; }
        int rc[2], db[2]; for(i = 0; i < 2; i++) db[i] = l_d(i, &rc[i]);
        for(i = 0; i < 2; i++) { int w = bundle_wait(db[i], -1); CHECK(w == 0, "detach-stuck", "ws_detach does not finish"); hclose(db[i]); CHECK(rc[i] >= 0, "detach", "ws_detach failed with errno %d", -rc[i]); }
        for(i = 0; i < 2; i++) { char b[6]; int r = bsend(rc[i], "#body", 5, -1); CHECK(r == 0, "body", "bsend on the detached stream failed"); r = brecv(rc[1 - i], b, 5, -1); CHECK(r == 0 && !memcmp(b, "#body", 5), "position", "the stream after detaching is not positioned after the close frame"); }
        for(i = 0; i < 2; i++) { hclose(rc[i]); if(!E[i].raw) CHECK(hclose(E[i].h) == -1 && errno == EBADF, "not-closed", "handle valid after detach"); }
        dv_stat("detached", 1);
    } else if(how == 3 && !D[0].inerr && !D[1].inerr && !D[1].done && !tcp) {
        /* the peer vanishes without a close frame: an error from receiving and from detaching */
        if(dv_pct(30)) { /* it stays but is silent: detaching fails when the deadline comes, not before */
            int64_t t0 = now(), dl = t0 + dv_below(50); int rc = ws_detach(E[0].h, 0, NULL, 0, dl), e = errno; CHECK(rc == -1, "no-close", "ws_detach succeeded although the peer has not closed"); if(e == ETIMEDOUT) { CHECK(now() >= dl && now() <= dl + dv_grace, "deadline", "ws_detach with a deadline in %lld ms failed after %lld ms", (long long)(dl - t0), (long long)(now() - t0)); dv_stat("detach_timeouts", 1); }
            CHECK(hclose(E[0].h) == -1 && errno == EBADF, "not-closed", "handle valid after a failed detach"); hclose(E[1].raw ? E[1].u : E[1].h); dv_stat("vanished", 1); dv_sig(9); goto vanished; }
        if(dv_pct(50)) { hclose(E[1].raw ? E[1].u : E[1].h); int r = -1; for(int k = 0; k <= QMAX && r < 0; k++) { char b[4]; ssize_t z = ws_recvl(E[0].h, NULL, NULL, NULL, -1); if(z < 0) r = errno; (void)b; } CHECK(r > 0 && r != EMSGSIZE, "vanished", "no error after the peer has vanished"); ssize_t z = ws_status(E[0].h, NULL, NULL, 0); CHECK(z == -1 && errno == EAGAIN, "vanished", "ws_status without a close frame returned %zd errno %d", z, errno); }
        else hclose(E[1].raw ? E[1].u : E[1].h);
        int rc = ws_detach(E[0].h, 0, NULL, 0, -1); CHECK(rc == -1, "vanished", "ws_detach succeeded although the peer has not closed"); CHECK(hclose(E[0].h) == -1 && errno == EBADF, "not-closed", "handle valid after a failed detach"); dv_stat("vanished", 1);
        vanished:;
    } else if(how == 2 && !tcp && !E[1].raw && !D[0].inerr && !D[1].inerr) { hclose(E[0].h); hclose(E[1].h);
    } else if(!tcp && dv_pct(50) && !D[1].done && !D[0].inerr && !D[1].inerr) {
        /* nobody answers: deadline, and what was pending remains unusable */
        char b[8]; ssize_t z; int k; for(k = 0; k <= QMAX; k++) { z = ws_recvl(E[0].h, NULL, NULL, NULL, now() + dv_below(20)); if(z < 0) break; }
        CHECK(z == -1 && errno == ETIMEDOUT, "timeout", "receiving nothing returned %zd errno %d", z, errno); z = mrecv(E[0].h, b, 8, -1); CHECK(z == -1 && errno != ETIMEDOUT, "after-failure", "receiving after a timeout returned %zd errno %d", z, errno);
        hclose(E[0].h); hclose(E[1].raw ? E[1].u : E[1].h); dv_stat("timeouts", 1);
    } else for(i = 0; i < 2; i++) hclose(E[i].raw ? E[i].u : E[i].h);
    dv_sample("%d and %d messages, %s %s, %s", D[0].nq, D[1].nq, E[0].srv ? "server with" : "client with", E[1].raw ? "raw peer" : "library peer", tcp ? "tcp" : "local");
}
/* ---- hostile frames ---- */
static coroutine void push(unsigned char *w, long n, int close) { rawsend(1, w, n); if(close && tcp) tcp_done(E[1].u, -1); else if(close) { hclose(E[1].u); E[1].u = -1; } }
static int l_push(unsigned char *w, long n, int c) { return go(push(w, n, c)); }
static void hostile(void) {
    E[0].srv = dv_pct(50); E[1].srv = !E[0].srv; E[1].raw = 1; pair(); attach_nohttp(); int msgs = 0, over = 0, masked = !E[1].srv;
    for(int r = 0; r < 25 && !over; r++) {
        static unsigned char w[70000], want[70000], p[20000]; long wn = 0, wantn = 0; int started = 0, text = 0, ok = -1, closing = 0, huge = 0; long cap = dv_pct(15) ? -1 : dv_pct(60) ? 6000 : dv_below(300), capped = -1;
        const char *what = "";
        while(ok < 0) {
            long n = dv_pct(20) ? dv_below(3) : dv_pct(85) ? dv_below(200) : dv_below(3000); for(long k = 0; k < n; k++) p[k] = (unsigned char)dv_rand();
            int c = dv_below(100), op = 0; if(!started) op = text = 1 + dv_below(2); if(wantn + n > 15000) c = 0;
            if(c < 85) { int fin = c < 50, lf = dv_pct(90) || n < 0 ? 0 : n < 126 ? dv_pct(50) ? 126 : 127 : 127; wn += mkframe(w + wn, (fin ? 0x80 : 0) | op, masked, n, lf, p, n);
                memcpy(want + wantn, p, n); wantn += n; started = 1; if(fin) ok = 1; if(cap >= 0 && wantn > cap && capped < 0) { capped = 1; ok = 0; what = "message too large"; } (void)lf; continue; }
            int b0 = 0x80 | op; ok = 0;
            switch(dv_below(13)) {
            case 0: b0 |= 0x10 << dv_below(3); what = "reserved bit"; break;
            case 1: b0 = 0x80 | (dv_pct(50) ? 3 + dv_below(5) : 9 + dv_below(7)); n %= 126; what = "unsupported opcode"; break;
            case 2: wn += mkframe(w + wn, b0, !masked, n, 0, p, n); what = "wrong masking"; goto bad;
            case 3: b0 = 0x80 | (started ? 1 + dv_below(2) : 0); what = started ? "new message inside a message" : "continuation of nothing"; break;
            case 4: b0 = 0x08; n %= 126; if(n == 1) n = 0; what = "fragmented close frame"; break;
            case 5: b0 = 0x88; if(n < 126) n = 126 + n; p[0] = 3; p[1] = 0xe8; what = "close frame of more than 125 bytes"; break;
            case 6: b0 = 0x88; n = 1; what = "close frame of 1 byte"; break;
            case 7: { b0 = 0x88; n = 2 + n % 123; int st = dv_pct(20) ? 999 : dv_pct(25) ? 5000 : dv_pct(50) ? (int)dv_below(1000) : 5000 + (int)dv_below(60000); p[0] = st >> 8; p[1] = st; what = "close frame with a status out of range"; break; }
            case 8: { uint64_t len = dv_pct(50) ? (1ULL << 63) | dv_rand() : dv_pct(50) ? (uint64_t)SSIZE_MAX - dv_below(20000) : ~0ULL - dv_below(20000); wn += mkframe(w + wn, b0, masked, len, 127, p, n); huge = 1; what = "absurd length"; goto bad; }
            case 9: { n = 10 + n; long k = wn, fl = mkframe(w + wn, b0, masked, n, 0, p, n); wn = k + dv_below(fl); closing = 1; what = "truncated frame"; break; }
            default: { ok = 2; n = dv_pct(30) ? 0 : 2 + n % 124; if(n > 125) n = 125; if(n) { int st = dv_pct(15) ? 1000 : dv_pct(20) ? 4999 : 1000 + dv_below(4000); p[0] = st >> 8; p[1] = st; D[1].status = st; D[1].txtn = n - 2; memcpy(D[1].txt, p + 2, n - 2); } else D[1].status = D[1].txtn = 0; b0 = 0x88; what = "close frame"; }
            }
            if(!closing) wn += mkframe(w + wn, b0, masked, n, 0, p, n);
            bad:
            if(!closing && ok == 0) { for(int k = 0; k < 20; k++) w[wn++] = (unsigned char)dv_rand(); closing = 1; }
        }
        if(capped > 0) closing = 1;
        int last = closing; if(tcp) whole = 1; int hb = l_push(w, wn, last); int fl = 77; ssize_t rc; int e;
        if(cap < 0) { rc = ws_recvl(E[0].h, &fl, NULL, NULL, -1); e = errno; }
        else { struct gl *g = gl_new(cap, GL_NULLS | GL_MANY); gl_blank(g); rc = ws_recvl(E[0].h, &fl, gl_first(g), gl_last(g), -1); e = errno; gl_same(g, "receiving");
            if(rc >= 0 && ok == 1) { CHECK(rc == wantn, "message", "received %zd bytes, the peer sent %ld", rc, wantn); long o = 0; for(int k = 0; k < g->n && o < rc; k++) { long z = (long)g->len[k] < rc - o ? (long)g->len[k] : rc - o; if(g->b[k]) CHECK(!memcmp(g->b[k], want + o, z), "message", "bytes from %ld differ from the message sent", o); o += z; } gl_tail(g, rc, "receiving"); }
            gl_free(g); }
        dv_log("recv ok %d %s cap %ld wantn %ld -> %zd errno %d", ok, what, cap, wantn, rc, e);
        dv_sig((uint64_t)(rc + 1) * 256 + (rc < 0 ? e : 0));
        if(ok == 1) { CHECK(rc == wantn, "message", "received %zd errno %d, the peer sent a message of %ld bytes", rc, e, wantn); CHECK(fl == (text == 1 ? WS_TEXT : WS_BINARY), "type", "flags %d", fl); msgs++; dv_stat("messages", 1); }
        else if(ok == 2) { CHECK(rc == -1 && e == EPIPE, "close", "a close frame gave %zd errno %d", rc, e); checkstatus(0); checkstatus(0); rc = mrecvl(E[0].h, NULL, NULL, -1); CHECK(rc == -1 && errno == EPIPE, "close", "receiving after a close frame gave %zd errno %d", rc, errno); over = 1; dv_stat("closes", 1); }
        else {
            CHECK(rc == -1, "accepted", "%s: %zd bytes received", what, rc);
            if(capped > 0) CHECK(e == EMSGSIZE, "emsgsize", "%s gave errno %d", what, e); else if(huge) CHECK(e == EMSGSIZE || e == EPROTO || e == EPIPE || e == ECONNRESET, "huge", "%s gave errno %d", what, e);
            else if(!strcmp(what, "truncated frame")) CHECK(e == EPIPE || e == ECONNRESET || (e == EMSGSIZE && cap >= 0), "truncated", "a truncated frame gave errno %d", e);
            else CHECK(e == EPROTO, "eproto", "%s gave errno %d", what, e);
            rc = mrecvl(E[0].h, NULL, NULL, -1); CHECK(rc == -1 && errno != EMSGSIZE && errno != EPROTO, "after-failure", "receiving after a failure (%s) gave %zd errno %d", what, rc, errno);
            rc = ws_status(E[0].h, NULL, NULL, 0); CHECK(rc == -1 && errno == EAGAIN, "status", "ws_status after a failure gave %zd errno %d", rc, errno);
            over = 1; dv_stat("refused", 1);
        }
        if(over && capped > 0) { hclose(E[0].h); E[0].h = -1; }
        bundle_wait(hb, -1); hclose(hb);
    }
    if(msgs > 1 || over) dv_nontrivial();
    dv_sample("%d messages accepted, then %s", msgs, over ? "refusal or close" : "end");
    if(E[0].h >= 0) { if(over && dv_pct(30) && E[1].u < 0) { int rc = ws_detach(E[0].h, 0, NULL, 0, -1); CHECK(rc == -1, "detach", "ws_detach succeeded after a failure"); } else hclose(E[0].h); }
    if(E[1].u >= 0) hclose(E[1].u);
}
/* ---- opening handshakes ---- */
static void sha1(const unsigned char *p, size_t n, unsigned char *out) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; size_t tot = (n + 9 + 63) / 64 * 64; unsigned char *m = calloc(1, tot); memcpy(m, p, n); m[n] = 0x80;
    for(int i = 0; i < 8; i++) m[tot - 1 - i] = (unsigned char)((uint64_t)n * 8 >> (8 * i));
    #define ROL(x, k) ((x) << (k) | (x) >> (32 - (k)))
    for(size_t o = 0; o < tot; o += 64) {
        uint32_t w[80]; for(int i = 0; i < 16; i++) w[i] = (uint32_t)m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
        for(int i = 16; i < 80; i++) { uint32_t x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]; w[i] = ROL(x, 1); }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for(int i = 0; i < 80; i++) { uint32_t f, k; if(i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if(i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if(i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = ROL(a, 5) + f + e + k + w[i]; e = d; d = c; c = ROL(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    for(int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4)); free(m);
}
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void b64(const unsigned char *p, int n, char *o) { int k = 0; for(int i = 0; i < n; i += 3) { uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0); o[k++] = B64[v >> 18]; o[k++] = B64[v >> 12 & 63]; o[k++] = i + 1 < n ? B64[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? B64[v & 63] : '='; } o[k] = 0; }
static void accept_key(const char *key, char *out) { char t[200]; snprintf(t, sizeof t, "%s258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key); unsigned char d[20]; sha1((unsigned char*)t, strlen(t), d); b64(d, 20, out); }
static int goodkey(const char *k) { return strlen(k) == 24 && strspn(k, B64) == 22 && !strcmp(k + 22, "=="); }
static void newkey(char *k) { unsigned char n[16]; for(int i = 0; i < 16; i++) n[i] = (unsigned char)dv_rand(); b64(n, 16, k); }
static void badkey(char *k) {
    newkey(k);
    switch(dv_below(7)) { case 0: k[dv_below(22)] = "=-_*~ "[dv_below(5)]; break; case 1: k[dv_below(22)] = (char)(128 + dv_below(128)); break; case 2: k[20] = 0; break; case 3: k[4] = 0; break; case 4: strcpy(k + 24, "AAAA"); break; case 5: k[0] = 0; break;
    default: { unsigned char n[30]; int len = dv_pct(50) ? 15 : 17 + dv_below(6); for(int i = 0; i < len; i++) n[i] = (unsigned char)dv_rand(); b64(n, len, k); } }
}
static void keys(void) {
    char a[WS_KEY_SIZE + 8], b[200], want[64], last[WS_KEY_SIZE] = ""; int rc;
    for(int i = 0; i < 20; i++) { char *k = dv_galloc(WS_KEY_SIZE); rc = ws_request_key(k); CHECK(rc == 0, "request-key", "ws_request_key failed"); CHECK(goodkey(k), "request-key", "request key '%.32s'", k); CHECK(strcmp(k, last), "request-key", "the same request key twice"); strcpy(last, k);
        char *o = dv_galloc(WS_KEY_SIZE); rc = ws_response_key(k, o); CHECK(rc == 0, "response-key", "ws_response_key refused '%s'", k); accept_key(k, want); CHECK(!strcmp(o, want), "response-key", "response key of '%s' is '%.32s', should be '%s'", k, o, want); dv_gfree(k);
        newkey(a); rc = ws_response_key(a, o); accept_key(a, want); CHECK(rc == 0 && !strcmp(o, want), "response-key", "response key of '%s' is '%.32s', should be '%s'", a, o, want);
        badkey(b); rc = ws_response_key(b, o); CHECK(rc == -1 && errno == EPROTO, "bad-key", "ws_response_key of '%s' returned %d errno %d", b, rc, errno); dv_gfree(o); dv_stat("keys", 3); }
    rc = ws_request_key(NULL); CHECK(rc == -1 && errno == EINVAL, "null-key", "ws_request_key(NULL) returned %d errno %d", rc, errno);
    rc = ws_response_key(NULL, b); CHECK(rc == -1 && errno == EINVAL, "null-key", "ws_response_key(NULL) returned %d errno %d", rc, errno);
    rc = ws_response_key(a, NULL); CHECK(rc == -1 && errno == EINVAL, "null-key", "ws_response_key(, NULL) returned %d errno %d", rc, errno);
}
static char res[700], host[256], gotres[800], gothost[300], reqkey[64]; static int hrc[2], herr[2]; static long rescap, hostcap; static int64_t hdl[2];
static void rstr(char *o, long n) { for(long i = 0; i < n; i++) o[i] = 33 + dv_below(94); o[n] = 0; }
static coroutine void hs(int i) {
    E[i].flags = dv_pct(50) ? WS_TEXT : WS_BINARY; int u = E[i].u;
    if(E[i].srv) E[i].h = E[i].mem ? ws_attach_server_mem(u, E[i].flags, gotres, rescap, gothost, hostcap, E[i].mem, hdl[i]) : ws_attach_server(u, E[i].flags, gotres, rescap, gothost, hostcap, hdl[i]);
    else E[i].h = E[i].mem ? ws_attach_client_mem(u, E[i].flags, res, host, E[i].mem, hdl[i]) : ws_attach_client(u, E[i].flags, res, host, hdl[i]);
    hrc[i] = E[i].h; herr[i] = errno;
    CHECK(hclose(u) == -1 && errno == EBADF, "still-owned", "the underlying handle is still valid after attaching (%d)", hrc[i]);
}
static int l_hs(int i) { return go(hs(i)); }
/* random upper and lower case */
static void rcase(char *s) { if(dv_pct(60)) return; for(; *s; s++) if(dv_pct(50)) *s = islower((unsigned char)*s) ? toupper((unsigned char)*s) : tolower((unsigned char)*s); }
static int readline(int i, char *l, int max) { int n = 0; while(1) { char c; if(brecv(E[i].u, &c, 1, -1) < 0) return -1; l[n++] = c; CHECK(n < max, "wire", "line of more than %d bytes in the handshake", max); if(n >= 2 && l[n - 1] == '\n' && l[n - 2] == '\r') { l[n - 2] = 0; return n - 2; } } }
struct fld { char name[64], value[300]; };
static int readfields(int i, struct fld *f) { int n = 0; char l[1100]; while(1) { int k = readline(i, l, 1100); if(k < 0) return -1; if(k == 0) return n; char *c = strchr(l, ':'); CHECK(c && c - l < 60 && n < 20, "wire", "header line '%s'", l); *c++ = 0; while(*c == ' ') c++; strcpy(f[n].name, l); snprintf(f[n].value, 300, "%s", c); n++; } }
static const char *fval(struct fld *f, int n, const char *name) { const char *v = NULL; for(int i = 0; i < n; i++) if(!strcasecmp(f[i].name, name)) { CHECK(!v, "wire", "field %s twice", name); v = f[i].value; } return v; }
static int mustbe(const char *v, const char *want) { return v && !strcasecmp(v, want); }
/* writes the fields in random order with a possible corruption; returns 0 if the head is unacceptable */
static int putfields(char *w, struct fld *f, int n, int critical) {
    int ok = 1;
    if(dv_pct(40)) { int c = dv_below(critical); ok = 0; switch(dv_below(3)) {
        case 0: f[c] = f[--n]; break;
        case 1: f[n] = f[c]; n++; break;
        default: if(!strcasecmp(f[c].name, "Host")) { ok = 1; break; } if(!strcasecmp(f[c].name, "Sec-WebSocket-Key")) badkey(f[c].value); else if(!strcasecmp(f[c].name, "Sec-WebSocket-Accept")) { char *v = f[c].value; int k = dv_below(27); v[k] = v[k] == 'A' ? 'B' : 'A'; } else { char *v = f[c].value; int k = dv_below(strlen(v)); if(dv_pct(50)) v[k] = '!'; else strcat(v, "x"); } } }
    while(dv_pct(40) && n < 15) { rstr(f[n].name, 3 + dv_below(20)); for(char *s = f[n].name; *s; s++) if(!isalnum((unsigned char)*s)) *s = 'x'; strcpy(f[n].value, "v"); rstr(f[n].value + 1, dv_below(150)); n++; }
    for(int i = n - 1; i > 0; i--) { int j = dv_below(i + 1); struct fld t = f[i]; f[i] = f[j]; f[j] = t; }
    *w = 0; for(int i = 0; i < n; i++) { rcase(f[i].name); w += sprintf(w, "%s:%s%s\r\n", f[i].name, dv_pct(80) ? " " : dv_pct(50) ? "" : "   ", f[i].value); }
    strcpy(w, "\r\n"); return ok;
}
static void setf(struct fld *f, const char *n, const char *v) { strcpy(f->name, n); strcpy(f->value, v); }
static void handshake(void) {
    int i; E[0].srv = dv_pct(50); E[1].srv = !E[0].srv; E[1].raw = dv_pct(65); pair(); whole = 0;
    rstr(res, dv_pct(90) ? 1 + dv_below(60) : 1 + dv_below(690)); res[0] = '/'; rstr(host, dv_pct(90) ? 1 + dv_below(40) : 1 + dv_below(255));
    rescap = dv_pct(60) ? 800 : (long)strlen(res) + (long)dv_below(4) - 1; hostcap = dv_pct(60) ? 300 : (long)strlen(host) + (long)dv_below(4) - 1; if(rescap < 0) rescap = 0; if(hostcap < 0) hostcap = 0; memset(gotres, 0xEE, sizeof gotres); memset(gothost, 0xEE, sizeof gothost);
    int fits = rescap > (long)strlen(res) && hostcap > (long)strlen(host);
    for(i = 0; i < 2; i++) { if(!E[i].raw) E[i].mem = dv_pct(50) ? dv_galloc(sizeof(struct ws_storage)) : NULL; hdl[i] = -1; }
    int hb[2] = {-1, -1}; if(!E[1].raw) {
        for(i = 0; i < 2; i++) hb[i] = l_hs(i);
        for(i = 0; i < 2; i++) { int w = bundle_wait(hb[i], -1); CHECK(w == 0, "stuck", "the handshake does not finish"); hclose(hb[i]); }
        int s = E[0].srv ? 0 : 1;
        if(fits) CHECK(hrc[0] >= 0 && hrc[1] >= 0, "handshake", "the handshake failed: %d %d", herr[0], herr[1]);
        else { CHECK(hrc[s] < 0 && herr[s] == EMSGSIZE, "small-buffer", "a resource and host longer than the buffers gave %d errno %d", hrc[s], herr[s]); CHECK(hrc[1 - s] < 0, "small-buffer", "the client succeeded although the server failed"); dv_stat("small_buffers", 1); }
    } else if(E[0].srv) {
        /* raw client */
        struct fld f[20]; char key[64], w[8000]; newkey(key); setf(&f[0], "Host", host); setf(&f[1], "Upgrade", dv_pct(70) ? "websocket" : "WebSocket"); setf(&f[2], "Connection", dv_pct(70) ? "Upgrade" : "upgrade"); setf(&f[3], "Sec-WebSocket-Key", key); setf(&f[4], "Sec-WebSocket-Version", "13");
        int get = dv_pct(95); int k = sprintf(w, "%s %s HTTP/1.1\r\n", get ? "GET" : dv_pct(50) ? "POST" : "get", res); int ok = putfields(w + k, f, 5, 5) && get; int orig = ok;
        k = strlen(w); struct m m; memset(&m, 0, sizeof m); unsigned char fr[40]; long fn = 0; if(dv_pct(50)) fn = mkframe(fr, 0x81, 1, 5, 0, (unsigned char*)"early", 5); memcpy(w + k, fr, fn);
        dv_log("head:\n%.*s", k, w);
        hb[0] = l_hs(0); rawsend(1, w, k + fn); struct fld g[20]; char line[1100]; int bad = 0;
        int r = readline(1, line, 1100), nf = -1; if(r >= 0) nf = readfields(1, g);
        if(r < 0 || nf < 0) bad = 1;
        int wtd = bundle_wait(hb[0], -1); CHECK(wtd == 0, "stuck", "ws_attach_server does not finish"); hclose(hb[0]);
        if(!orig) { CHECK(hrc[0] < 0, "accepted", "the server accepted an invalid handshake"); CHECK(herr[0] == EPROTO || herr[0] == EMSGSIZE || (tcp && herr[0] == ECONNRESET), "refusal", "the server refused an invalid handshake with errno %d", herr[0]); CHECK(bad, "refusal", "the server answered an invalid handshake with '%s'", line); dv_stat("refused", 1); }
        else if(!fits) { CHECK(hrc[0] < 0 && herr[0] == EMSGSIZE, "small-buffer", "a resource and host longer than the buffers gave %d errno %d", hrc[0], herr[0]); dv_stat("small_buffers", 1); }
        else {
            CHECK(hrc[0] >= 0, "handshake", "the server refused a valid handshake with errno %d", herr[0]); CHECK(!bad, "handshake", "the server did not answer");
            CHECK(!strncmp(line, "HTTP/1.1 101 ", 13), "response", "response '%s'", line); char want[64]; accept_key(key, want);
            CHECK(mustbe(fval(g, nf, "Upgrade"), "websocket") && mustbe(fval(g, nf, "Connection"), "Upgrade"), "response", "fields of the response are wrong"); const char *a = fval(g, nf, "Sec-WebSocket-Accept"); CHECK(a && !strcmp(a, want), "response", "accept key '%s' instead of '%s'", a ? a : "(none)", want);
            if(fn) { char b[8]; int fl; ssize_t z = ws_recv(E[0].h, &fl, b, 8, -1); CHECK(z == 5 && fl == WS_TEXT && !memcmp(b, "early", 5), "early", "a message right behind the request was not received (%zd errno %d)", z, errno); }
        }
    } else {
        /* raw server */
        hb[0] = l_hs(0); char line[1100], want[1100]; struct fld g[20], f[20]; int r = readline(1, line, 1100); CHECK(r > 0, "request", "no request"); snprintf(want, sizeof want, "GET %s HTTP/1.1", res); CHECK(!strcmp(line, want), "request", "request '%s' instead of '%s'", line, want);
        int nf = readfields(1, g); CHECK(nf >= 0, "request", "request not finished"); const char *hv = fval(g, nf, "Host"), *key = fval(g, nf, "Sec-WebSocket-Key"); CHECK(hv && !strcmp(hv, host), "request", "host '%s' instead of '%s'", hv ? hv : "(none)", host);
        CHECK(mustbe(fval(g, nf, "Upgrade"), "websocket") && mustbe(fval(g, nf, "Connection"), "Upgrade") && mustbe(fval(g, nf, "Sec-WebSocket-Version"), "13"), "request", "fields of the request are wrong"); CHECK(key && goodkey(key), "request", "key '%s'", key ? key : "(none)"); CHECK(strcmp(key, reqkey), "request", "the same key as in the previous connection"); snprintf(reqkey, sizeof reqkey, "%s", key);
        char ak[64], w[8000]; accept_key(key, ak); setf(&f[0], "Upgrade", dv_pct(70) ? "websocket" : "WebSocket"); setf(&f[1], "Connection", dv_pct(70) ? "Upgrade" : "upgrade"); setf(&f[2], "Sec-WebSocket-Accept", ak);
        int st = dv_pct(90) ? 101 : dv_pct(50) ? 100 + dv_below(500) : 200; int k = sprintf(w, "HTTP/1.1 %d %s\r\n", st, dv_pct(80) ? "Switching Protocols" : ""); int ok = putfields(w + k, f, 3, 3) && st == 101; k = strlen(w);
        unsigned char fr[40]; long fn = 0; if(dv_pct(50)) fn = mkframe(fr, 0x82, 0, 5, 0, (unsigned char*)"early", 5); memcpy(w + k, fr, fn); dv_log("head:\n%.*s", k, w);
        rawsend(1, w, k + fn); int wtd = bundle_wait(hb[0], -1); CHECK(wtd == 0, "stuck", "ws_attach_client does not finish"); hclose(hb[0]);
        if(!ok) { CHECK(hrc[0] < 0, "accepted", "the client accepted an invalid handshake"); CHECK(herr[0] == EPROTO || (tcp && herr[0] == ECONNRESET), "refusal", "the client refused an invalid handshake with errno %d", herr[0]); char c; r = brecv(E[1].u, &c, 1, -1); CHECK(r == -1, "refusal", "the client did not close the connection after an invalid handshake"); dv_stat("refused", 1); }
        else { CHECK(hrc[0] >= 0, "handshake", "the client refused a valid handshake with errno %d", herr[0]); if(fn) { char b[8]; int fl; ssize_t z = ws_recv(E[0].h, &fl, b, 8, -1); CHECK(z == 5 && fl == WS_BINARY && !memcmp(b, "early", 5), "early", "a message right behind the response was not received (%zd errno %d)", z, errno); } }
    }
    if(hrc[0] >= 0 && (E[1].raw || hrc[1] >= 0)) {
        if(E[0].srv || !E[1].raw) { CHECK(!strcmp(gotres, res), "resource", "resource '%.40s' instead of '%.40s'", gotres, res); CHECK(!strcmp(gothost, host), "host", "host '%.40s' instead of '%.40s'", gothost, host);
            for(long k = strlen(res) + 1; k < (long)sizeof gotres; k++) if(k >= rescap) CHECK((unsigned char)gotres[k] == 0xEE, "overrun", "byte past the resource buffer was written"); for(long k = hostcap; k < (long)sizeof gothost; k++) CHECK((unsigned char)gothost[k] == 0xEE, "overrun", "byte past the host buffer was written"); }
        for(i = 0; i < 2; i++) { D[i].q[0] = mkmsg(); if(D[i].q[0].n > 100) D[i].q[0].n = 100; D[i].nq = 1; whole = 1; dv_short_pct = dv_again_pct = 0; int tb, mm, rc = sendmsg1(i, &D[i].q[0]); CHECK(rc == 0, "exchange", "sending after the handshake failed"); rc = recvmsg1(1 - i, &D[i].q[0], &tb, &mm); CHECK(rc == 0 || tb, "exchange", "receiving after the handshake failed"); }
        dv_stat("handshakes", 1);
    }
    dv_sig(dv_hash(res, strlen(res), 1)); dv_sig(dv_hash(host, strlen(host), hrc[0] < 0 ? herr[0] : 0));
    dv_nontrivial();
    for(i = 0; i < 2; i++) { if(E[i].raw) hclose(E[i].u); else if(hrc[i] >= 0) hclose(E[i].h); }
    dv_sample("%s, %s: %d", E[0].srv ? "server" : "client", E[1].raw ? "raw peer" : "library peer", hrc[0] >= 0);
}
/* nobody answers, the caller is cancelled, or the peer hangs up at a random byte */
static void handfail(void) {
    E[0].srv = dv_pct(50); E[1].srv = !E[0].srv; E[1].raw = 1; pair(); whole = 0; strcpy(res, "/x"); strcpy(host, "h"); rescap = 100; hostcap = 100; E[0].mem = dv_pct(50) ? dv_galloc(sizeof(struct ws_storage)) : NULL;
    int how = dv_below(3); hdl[0] = how == 0 ? now() + dv_below(50) : -1; int64_t t0 = now(); (void)t0; hrc[0] = -9; int hb = l_hs(0); char w[500]; int n = 0;
    if(E[0].srv) n = sprintf(w, "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n");
    else n = sprintf(w, "HTTP/1.1 101 X\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: xxxxxxxxxxxxxxxxxxxxxxxxx\r\n\r\n");
    n = dv_below(n - (E[0].srv ? 0 : 35)); if(n) rawsend(1, w, n);
    if(how == 1) { msleep(now() + dv_below(30)); hclose(hb); CHECK(hrc[0] == -1 && herr[0] == ECANCELED, "cancelled", "a cancelled handshake returned %d errno %d", hrc[0], herr[0]); }
    else { if(how == 2) { if(dv_pct(50)) msleep(now() + dv_below(20)); hclose(E[1].u); E[1].u = -1; }
        int r = bundle_wait(hb, -1); CHECK(r == 0, "stuck", "the handshake does not end"); hclose(hb); CHECK(hrc[0] == -1, "failure", "the handshake succeeded"); if(how == 0) CHECK(herr[0] == ETIMEDOUT, "deadline", "the handshake ended with errno %d", herr[0]); else CHECK(herr[0] == EPIPE || herr[0] == ECONNRESET || herr[0] == EPROTO, "hangup", "the handshake ended with errno %d", herr[0]); }
    if(E[1].u >= 0) hclose(E[1].u);
    dv_sig(n * 1000 + how * 200 + herr[0]); dv_stat("broken_off", 1); dv_nontrivial();
}
void dv_case(void) {
    static int warm; int i;
    if(!warm) { int p[2]; ipc_pair(p); char c; bsend(p[0], "a", 1, -1); brecv(p[1], &c, 1, -1); hclose(p[0]); hclose(p[1]); char k[WS_KEY_SIZE]; ws_request_key(k); warm = 1; msleep(now() + 1); }
    int fd0 = dv_fdcount(); dv_deadlock = retry; memset(D, 0, sizeof D); memset(E, 0, sizeof E); whole = 0; hrc[0] = hrc[1] = -1;
    if(dv_mode[0] == 'x') hostile(); else if(dv_mode[0] == 'k') { if(dv_pct(70)) handshake(); else if(dv_pct(70)) handfail(); else { keys(); dv_nontrivial(); } } else messages();
    for(i = 0; i < 2; i++) { if(E[i].mem) dv_gfree(E[i].mem); for(int k = 0; k < QMAX; k++) free(D[i].q[k].b); }
    if(dv_pct(5)) { int p[2]; ipc_pair(p); int m = prefix_attach(p[0], 2, 0); int r = dv_pct(50) ? ws_attach_client(m, WS_NOHTTP, NULL, NULL, -1) : ws_attach_server(m, WS_NOHTTP, NULL, 0, NULL, 0, -1); CHECK(r == -1 && errno == EPROTO, "wrong-kind", "attaching to a message socket returned %d errno %d", r, errno); CHECK(hclose(m) == -1 && errno == EBADF, "leaked", "the socket is still open after a failed attach");
        r = ws_done(p[1], 0, NULL, 0, 0); CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "ws_done on a local socket returned %d errno %d", r, errno); r = ws_send(p[1], 0, "a", 1, 0); CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "ws_send on a local socket: errno %d", errno); hclose(p[1]); dv_stat("wrong_kinds", 1); }
    int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
