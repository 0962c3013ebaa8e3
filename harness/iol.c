/* B05: malformed lists given to every list-taking call of every kind of socket. */
#include "net.h"
#include "cert.h"
#include <netinet/in.h>
static int retry(void) { return 1; }
enum { T_IPC, T_TCP, T_PREFIX, T_SUFFIX, T_TERM, T_UDP, T_WS, T_TLS, T_N };
static const char *tn[] = {"ipc", "tcp", "prefix", "suffix", "term", "udp", "ws", "tls"};
static int kind, H[2]; static struct ipaddr A[2]; static int stream;
struct q { unsigned char b[600]; int n; }; static struct q Q[2][40]; static int qh[2], qt[2]; static long spos[2], rpos[2];
static void tcppair(int h[2]) { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); int l = tcp_listen(&a, 3); h[0] = tcp_connect(&a, -1); h[1] = tcp_accept(l, NULL, -1); hclose(l); CHECK(h[0] >= 0 && h[1] >= 0, "harness", "tcp pair"); }
static int tc;
static coroutine void tlsco(int s) { tc = tls_attach_client(s, -1); }
static int l_t(int s) { return go(tlsco(s)); }
static void mkpair(void) {
    int rc = 0, i, p[2];
    if(kind == T_UDP) { for(i = 0; i < 2; i++) { ipaddr_local(&A[i], "127.0.0.1", 0, 0); H[i] = udp_open(&A[i], NULL); } return; }
    if(kind == T_TCP) tcppair(p); else { rc = ipc_pair(p); CHECK(rc == 0, "harness", "ipc_pair"); }
    if(kind == T_TLS) { int b = l_t(p[0]); p[1] = tls_attach_server(p[1], certf, keyf, -1); bundle_wait(b, -1); hclose(b); p[0] = tc; }
    else for(i = 0; i < 2; i++) {
        if(kind == T_PREFIX) p[i] = prefix_attach(p[i], 2, dv_pct(50) ? PREFIX_LITTLE_ENDIAN * 0 : 0);
        if(kind == T_SUFFIX) p[i] = suffix_attach(p[i], "\r\n", 2);
        if(kind == T_TERM) { p[i] = prefix_attach(p[i], 2, 0); p[i] = term_attach(p[i], "STOP", 4); }
        if(kind == T_WS) p[i] = i ? ws_attach_server(p[i], WS_BINARY | WS_NOHTTP, NULL, 0, NULL, 0, -1) : ws_attach_client(p[i], WS_BINARY | WS_NOHTTP, NULL, NULL, -1);
    }
    for(i = 0; i < 2; i++) { CHECK(p[i] >= 0, "harness", "attaching %s: errno %d", tn[kind], errno); H[i] = p[i]; }
}
/* the calls under test */
enum { R_GEN, R_OWN };
static ssize_t xsend(int i, struct iolist *f, struct iolist *l, int64_t dl) {
    if(stream) return bsendl(H[i], f, l, dl);
    if(kind == T_UDP) return udp_sendl(H[i], &A[1 - i], f, l);
    if(kind == T_WS && dv_pct(50)) return ws_sendl(H[i], WS_BINARY, f, l, dl);
    return msendl(H[i], f, l, dl);
}
static ssize_t xrecv(int i, struct iolist *f, struct iolist *l, int64_t dl) {
    if(stream) return brecvl(H[i], f, l, dl);
    if(kind == T_UDP && dv_pct(50)) { struct ipaddr a; return udp_recvl(H[i], dv_pct(50) ? &a : NULL, f, l, dl); }
    if(kind == T_WS && dv_pct(50)) { int fl; return ws_recvl(H[i], dv_pct(50) ? &fl : NULL, f, l, dl); }
    return mrecvl(H[i], f, l, dl);
}
static void goodsend(int i) {
    if(qh[i] - qt[i] >= (kind == T_WS ? 3 : stream ? 20 : 8)) return;
    struct q *q = &Q[i][qh[i] % 40]; q->n = dv_below(kind == T_WS ? 20 : 500); for(int k = 0; k < q->n; k++) { q->b[k] = dv_rand(); if(q->b[k] == '\r' || q->b[k] == 'S') q->b[k] = 'x'; }
    if(kind == T_UDP && !q->n) q->n = 1;
    struct gl *g = gl_new(q->n, kind == T_TCP || kind == T_UDP ? GL_MANY : 0); int p = 0; for(int k = 0; k < g->n; k++) { memcpy(g->b[k], q->b + p, g->len[k]); p += g->len[k]; }
    int rc = kind == T_UDP ? udp_sendl(H[i], &A[1 - i], gl_first(g), gl_last(g)) : xsend(i, gl_first(g), gl_last(g), -1); CHECK(rc == 0, "send", "sending %d bytes over %s failed with errno %d", q->n, tn[kind], errno); gl_same(g, "send"); gl_free(g); qh[i]++; dv_stat("good", 1);
}
static void goodrecv(int i) {   /* i receives */
    int j = 1 - i; if(qh[j] == qt[j]) return;
    struct q *q = &Q[j][qt[j] % 40]; struct gl *g = gl_new(stream ? q->n : q->n + dv_below(40), GL_MANY); gl_blank(g); int want = q->n;
    ssize_t r = xrecv(i, gl_first(g), gl_last(g), -1); CHECK(r == (stream ? 0 : want), "recv", "receiving %d bytes over %s returned %zd errno %d", want, tn[kind], r, errno); gl_same(g, "recv");
    int p = 0; for(int k = 0; k < g->n && p < want; k++) { int c = (int)g->len[k] < want - p ? (int)g->len[k] : want - p; CHECK(!memcmp(g->b[k], q->b + p, c), "data", "wrong data over %s", tn[kind]); p += c; }
    gl_free(g); qt[j]++; dv_stat("good", 1);
}
static void bad(int i) {
    int send = dv_pct(50), n = 1 + dv_below(6), k, m, a, same = 0; struct iolist *e[8], copy[8]; unsigned char *buf[8], *bc[8]; size_t len[8];
    if(dv_pct(10)) n = 6;
    for(k = 0; k < n; k++) { len[k] = dv_below(40); buf[k] = dv_galloc(len[k]); bc[k] = malloc(len[k] + 1); for(size_t z = 0; z < len[k]; z++) buf[k][z] = bc[k][z] = dv_rand(); e[k] = dv_galloc(sizeof(struct iolist)); }
    for(k = 0; k < n; k++) { e[k]->iol_base = !send && dv_pct(10) ? NULL : buf[k]; e[k]->iol_len = len[k]; e[k]->iol_next = k + 1 < n ? e[k + 1] : NULL; e[k]->iol_rsvd = 0; }
    struct iolist *f = e[0], *l = e[n - 1];
    switch(m = dv_below(8)) {
    case 0: f = NULL; break;
    case 1: l = NULL; break;
    case 2: if(n == 1) { e[0]->iol_next = e[0]; break; } l = e[dv_below(n - 1)]; break;                    /* end is not last */
    case 3: e[n - 1]->iol_next = e[dv_below(n)]; if(dv_pct(50)) { l = e[dv_below(n)]; } break;              /* cycle */
    case 4: a = dv_below(n); e[a]->iol_rsvd = 1 + (dv_pct(30) ? dv_below(100) : 0); break;                   /* in use */
    case 5: if(n == 1) { f = NULL; break; } a = dv_below(n - 1); e[a]->iol_next = NULL; break;               /* chain ends too early */
    case 6: a = dv_below(n); e[a]->iol_next = e[dv_below(a + 1)]; same = 1; break;                           /* cycle before the end, l has no successor unless a is last */
    default: if(n < 3) { l = NULL; break; } f = e[n - 1]; l = e[0]; e[n - 1]->iol_next = e[dv_below(n)]; break;         /* backwards */
    }
    /* is it malformed after all? */
    int ok = f && l && !l->iol_next, cnt = 0; struct iolist *it; for(it = f; ok && it; it = it->iol_next) { if(++cnt > n || it->iol_rsvd || (!it->iol_next && it != l)) ok = 0; }
    CHECK(!ok, "harness", "list kind %d of %d is well-formed", m, n); (void)same;
    for(k = 0; k < n; k++) copy[k] = *e[k];
    int64_t dl = dv_pct(40) ? -1 : dv_pct(30) ? 0 : now() + dv_below(10), t0 = dv_vt; int pend = qh[1 - i] - qt[1 - i]; long io = dv_io_calls;
    ssize_t r; errno = 0; r = send ? xsend(i, f, l, dl) : xrecv(i, f, l, dl); int err = errno;
    dv_log("%s kind %d n=%d %s pending=%d -> %zd %s", tn[kind], m, n, send ? "send" : "recv", pend, r, strerror(err)); dv_sig(m * 8 + n); dv_sig(send + kind * 2);
    CHECK(r == -1 && err == EINVAL, "accepted", "%s %s with a malformed list (kind %d, %d elements) returned %zd errno %d", tn[kind], send ? "send" : "receive", m, n, r, err);
    CHECK(dv_vt == t0, "blocked", "a malformed list blocked the call");
    (void)io;
    for(k = 0; k < n; k++) {
        CHECK(copy[k].iol_base == e[k]->iol_base && copy[k].iol_len == e[k]->iol_len && copy[k].iol_next == e[k]->iol_next && copy[k].iol_rsvd == e[k]->iol_rsvd, "list-changed", "%s %s: element %d of a malformed list (kind %d) was changed (rsvd %d, was %d)", tn[kind], send ? "send" : "receive", k, m, e[k]->iol_rsvd, copy[k].iol_rsvd);
        CHECK(!memcmp(buf[k], bc[k], len[k]), "buffer-changed", "%s %s: buffer %d of a malformed list was changed", tn[kind], send ? "send" : "receive", k);
        dv_gfree(buf[k]); free(bc[k]); dv_gfree(e[k]);
    }
    dv_stat("malformed", 1); dv_stat(tn[kind], 1); if(!send && pend) dv_stat("malformed_with_data_pending", 1);
}
void dv_case(void) {
    static int warm; dv_deadlock = retry; if(!warm) { warm = 1; uint64_t r = *dv_rngstate(); mkcert(); atexit(clean); for(int k = 0; k < 3; k++) for(kind = 0; kind < T_N; kind++) { stream = kind == T_IPC || kind == T_TCP || kind == T_TLS; mkpair(); goodsend(0); goodrecv(1); hclose(H[0]); hclose(H[1]); } *dv_rngstate() = r; }
    int f0 = dv_fdcount(), i; kind = dv_pct(90) ? dv_below(T_TLS) : T_TLS; stream = kind == T_IPC || kind == T_TCP || kind == T_TLS; memset(qh, 0, sizeof qh); memset(qt, 0, sizeof qt);
    mkpair(); int n = 10 + dv_below(60); if(kind == T_UDP || kind == T_TCP || kind == T_TLS) dv_grace = 1;
    while(n--) { i = dv_below(2); int r = dv_below(100); if(r < 50) bad(i); else if(r < 78) goodsend(i); else goodrecv(i); }
    for(i = 0; i < 2; i++) while(qh[1 - i] > qt[1 - i]) goodrecv(i);
    /* nothing more on the wire */
    for(i = 0; i < 2; i++) { char c[64]; ssize_t r = stream ? brecv(H[i], c, 1, now() + 1) : mrecv(H[i], c, sizeof c, now() + 1); CHECK(r == -1 && errno == ETIMEDOUT, "extra", "%s: something was sent by a refused call (%zd, errno %d)", tn[kind], r, errno); }
    hclose(H[0]); hclose(H[1]); dv_nontrivial(); dv_sample("%s", tn[kind]);
    int f = dv_fdcount(); CHECK(f == f0, "fd-leak", "%d descriptors, %d before", f, f0);
}
