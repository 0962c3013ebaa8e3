/* P01: HTTP heads between two library sockets or against a model-driven raw peer.
   Modes: r (round trips, either side may be raw), h (raw peer sending arbitrary lines; reference parser). */
#include "net.h"
#include <ctype.h>
enum { REQ, STATUS, FIELD };
struct line { int kind, status; char *a, *b; char *wire; long wn; };
static struct line L[2][60]; static int nl[2], sent[2], got[2], donedir[2], u[2], h[2], raw[2], stop, whole, tcp, latched[2]; static void *mem[2];
static int retry(void) { return 1; }
static char *rndstr(long n, const char *avoid) { char *s = malloc(n + 1); for(long i = 0; i < n; i++) { int c; do c = dv_pct(80) ? 33 + (int)dv_below(94) : dv_pct(50) ? 128 + (int)dv_below(127) : 'a'; while(strchr(avoid, c)); s[i] = (char)c; } s[n] = 0; return s; }
static long len(void) { int r = dv_below(100); return r < 60 ? 1 + dv_below(12) : r < 90 ? 1 + dv_below(80) : 1 + dv_below(480); }
#define BADNAME "(),/:;<=>?@[\\]{}\" \t\r\n"
static char *spaced(long n) { char *s = rndstr(n, " \t\r\n"); for(long i = 1; i + 1 < n; i++) if(dv_pct(15)) s[i] = ' '; return s; }
static void mkwire(struct line *l) {
    l->wire = malloc(strlen(l->a) + strlen(l->b) + 40);
    if(l->kind == REQ) sprintf(l->wire, "%s %s HTTP/1.1\r\n", l->a, l->b);
    else if(l->kind == STATUS) sprintf(l->wire, "HTTP/1.1 %03d %s\r\n", l->status, l->a);
    else sprintf(l->wire, "%s: %s\r\n", l->a, l->b);
    l->wn = strlen(l->wire);
}
static struct line mk(int kind) {
    struct line l = {kind, 0, NULL, NULL, NULL, 0};
    if(kind == REQ) { l.a = rndstr(len(), " \t\r\n"); l.b = rndstr(len(), " \t\r\n"); }
    else if(kind == STATUS) { l.status = 100 + dv_below(500); l.a = dv_pct(10) ? strdup("") : spaced(len()); l.b = strdup(""); }
    else { l.a = rndstr(len(), BADNAME); l.b = spaced(len()); }
    mkwire(&l); return l;
}
static int callsend(int i, struct line *l, int64_t dl) {
    if(l->kind == REQ) return http_sendrequest(h[i], l->a, l->b, dl);
    if(l->kind == STATUS) return http_sendstatus(h[i], l->status, l->a, dl);
    char *v = malloc(strlen(l->b) + 20); int pre = dv_pct(20) ? dv_below(4) : 0, post = dv_pct(20) ? dv_below(4) : 0;
    sprintf(v, "%.*s%s%.*s", pre, "    ", l->b, post, "    "); int rc = http_sendfield(h[i], l->a, v, dl), e = errno; free(v); errno = e; return rc;
}
static int rawsend(int i, const char *w, long n) { long o = 0; while(o < n) { long k = whole || dv_pct(50) ? n - o : 1 + dv_below(n - o < 30 ? n - o : 30); if(bsend(u[i], w + o, k, -1) < 0) return -1; o += k; if(dv_pct(8) && msleep(now() + dv_below(4)) < 0) return -1; } return 0; }
/* arguments that cannot be represented */
static void badargs(int i) {
    static const char bad[] = " \t\r\n"; char b[8] = "ab_cd"; int rc; const char *what; int want = EINVAL, want2 = EINVAL;
    switch(dv_below(10)) {
    case 0: b[dv_below(5)] = bad[dv_below(4)]; rc = http_sendrequest(h[i], b, "/x", -1); what = "command with a blank"; break;
    case 1: b[dv_below(5)] = bad[dv_below(4)]; rc = http_sendrequest(h[i], "GET", b, -1); what = "resource with a blank"; break;
    case 2: rc = http_sendrequest(h[i], dv_pct(50) ? "" : "GET", "", -1); what = "empty resource"; break;
    case 3: b[dv_below(5)] = BADNAME[dv_below(sizeof BADNAME - 1)]; rc = http_sendfield(h[i], b, "value", -1); what = "invalid field name"; break;
    case 4: rc = http_sendfield(h[i], "", "value", -1); what = "empty field name"; break;
    case 5: b[dv_below(5)] = dv_pct(50) ? '\r' : '\n'; rc = http_sendfield(h[i], "name", b, -1); what = "value with a line break"; break;
    case 6: rc = http_sendfield(h[i], "name", dv_pct(50) ? "" : "   ", -1); what = "empty value"; want2 = EPROTO; break;
    case 7: rc = http_sendstatus(h[i], dv_pct(50) ? (int)dv_below(100) : 600 + (int)dv_below(5000), "x", -1); what = "status out of range"; break;
    case 8: rc = http_sendstatus(h[i], -(int)dv_below(600), "x", -1); what = "negative status"; break;
    default: b[dv_below(5)] = dv_pct(50) ? '\r' : '\n'; rc = http_sendstatus(h[i], 200, b, -1); what = "reason with a line break"; break;
    }
    CHECK(rc == -1 && (errno == want || errno == want2), "bad-args", "%s: returned %d errno %d", what, rc, errno); dv_stat("bad_args", 1);
}
/* compares the outcome of receiving a line of the given kind with the expectation */
static int recvline(int i, int kind, int malformed, int status, const char *a, const char *b, int toolong) {
    long la = strlen(a), lb = strlen(b), ca, cb; int rc, e;
    ca = dv_pct(50) ? 1100 : la + (long)dv_below(4) - 1; cb = dv_pct(50) ? 1100 : lb + (long)dv_below(4) - 1; if(dv_pct(5)) ca = dv_below(3); if(dv_pct(5)) cb = dv_below(3); if(ca < 0) ca = 0; if(cb < 0) cb = 0;
    char *ba = dv_galloc(ca), *bb = dv_galloc(cb);
    if(ca) memset(ba, 0xEE, ca); if(cb) memset(bb, 0xEE, cb);
    if(kind == REQ) rc = http_recvrequest(h[i], ba, ca, bb, cb, -1); else if(kind == STATUS) rc = http_recvstatus(h[i], ba, ca, -1); else rc = http_recvfield(h[i], ba, ca, bb, cb, -1);
    e = errno; int small = ca < la + 1 || (kind != STATUS && cb < lb + 1);
    dv_log("recv%d kind %d caps %ld %ld for %ld %ld malformed %d -> %d %s", i, kind, ca, cb, la, lb, malformed, rc, rc < 0 ? strerror(e) : ""); dv_sig(rc * 3 + e * (rc < 0) + la);
    if(rc < 0 && e == ECANCELED) { dv_gfree(ba); dv_gfree(bb); errno = e; return -1; }
    if(toolong) { CHECK(rc == -1 && e == EMSGSIZE, "toolong", "a line of more than 1023 bytes gave %d errno %d", rc, e); dv_stat("long_lines", 1); }
    else if(malformed == 2 && rc == -1 && e == EPROTO) ;
    else if(malformed == 1) { CHECK(rc == -1 && (e == EPROTO || (e == EMSGSIZE && (ca < 1100 || cb < 1100))), "malformed-accepted", "a malformed line (kind %d) gave %d errno %d", kind, rc, e); dv_stat("malformed", 1); }
    else if(small) { CHECK(rc == -1 && e == EMSGSIZE, "small-buffer", "buffers of %ld and %ld bytes for %ld and %ld gave %d errno %d", ca, cb, la, lb, rc, e); dv_stat("emsgsize", 1); }
    else {
        CHECK(rc == (kind == STATUS ? status : 0), "result", "receiving a line of kind %d gave %d errno %d, expected %d", kind, rc, e, kind == STATUS ? status : 0);
        CHECK(!memcmp(ba, a, la + 1), "text", "received '%.40s' instead of '%.40s'", ba, a);
        if(kind != STATUS) CHECK(!memcmp(bb, b, lb + 1), "text", "received '%.40s' instead of '%.40s'", bb, b);
        for(long k = la + 1; k < ca; k++) CHECK((unsigned char)ba[k] == 0xEE, "overrun", "byte past the string was written");
        if(kind != STATUS) for(long k = lb + 1; k < cb; k++) CHECK((unsigned char)bb[k] == 0xEE, "overrun", "byte past the string was written");
        dv_stat("lines", 1);
    }
    dv_gfree(ba); dv_gfree(bb); errno = e; return rc < 0 ? -1 : 0;
}
static coroutine void sender(int i) {
    int d = i;
    for(int k = 0; k < nl[d]; k++) {
        if(dv_pct(15) && msleep(now() + dv_below(8)) < 0) return;
        if(!raw[i] && dv_pct(10)) badargs(i);
        int rc = raw[i] ? rawsend(i, L[d][k].wire, L[d][k].wn) : callsend(i, &L[d][k], -1);
        if(rc < 0) { CHECK(errno == ECANCELED, "send", "sending line %d failed with errno %d", k, errno); return; }
        sent[d]++;
    }
    if(raw[i]) rawsend(i, "\r\n", 2); else if(dv_pct(70)) { int rc = http_done(h[i], -1); CHECK(rc == 0 || errno == ECANCELED, "done", "http_done failed"); if(rc) return; rc = http_done(h[i], -1); CHECK(rc == -1 && errno == EPIPE, "second-done", "second http_done returned %d errno %d", rc, errno); rc = http_sendfield(h[i], "a", "b", -1); CHECK(rc == -1 && errno == EPIPE, "after-done", "sending after http_done returned %d errno %d", rc, errno); }
    else return;
    donedir[d] = 1;
}
static coroutine void receiver(int i, int upto) {
    int d = 1 - i;
    for(int k = 0; k < upto; k++) {
        if(dv_pct(15) && msleep(now() + dv_below(8)) < 0) return;
        struct line *l = &L[d][k];
        if(raw[i]) { char *w = malloc(l->wn); if(brecv(u[i], w, l->wn, -1) < 0) { free(w); return; } if(memcmp(w, l->wire, l->wn)) dv_fail("wire", "line %d (kind %d) differs on the wire", k, l->kind); free(w); dv_stat("wire_checked", 1); got[d]++; continue; }
        int rc = recvline(i, l->kind, 0, l->status, l->a, l->b, l->wn - 2 > 1023);
        if(rc < 0 && errno == ECANCELED) return;
        got[d]++;
        if(l->wn - 2 > 1023) { latched[i] = 1; return; }
    }
}
static void finish(int i) {   /* everything received: EPIPE, persistently */
    char a[8], b[8]; int rc;
    if(raw[i]) { char w[2]; rc = brecv(u[i], w, 2, -1); CHECK(rc == 0 && !memcmp(w, "\r\n", 2), "wire-end", "no blank line on the wire after http_done"); return; }
    for(int k = 0; k < 2; k++) { rc = dv_pct(50) ? http_recvfield(h[i], a, 8, b, 8, -1) : dv_pct(50) ? http_recvrequest(h[i], a, 8, b, 8, -1) : http_recvstatus(h[i], a, 8, -1); CHECK(rc == -1 && errno == EPIPE, "end", "receiving after the last field returned %d errno %d", rc, errno); }
    dv_stat("ends", 1);
}
static coroutine void conn(struct ipaddr *a) { u[0] = tcp_connect(a, -1); }
static coroutine void det(int i, int *rc) { *rc = raw[i] ? u[i] : http_detach(h[i], -1); if(*rc < 0) *rc = -errno; }
static int l_conn(struct ipaddr *a) { return go(conn(a)); }
static int l_s(int i) { return go(sender(i)); }
static int l_r(int i, int n) { return go(receiver(i, n)); }
static int l_d(int i, int *rc) { return go(det(i, rc)); }
static void pair(void) {
    tcp = dv_pct(25); dv_grace = tcp;
    if(tcp) { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); int l = tcp_listen(&a, 5); int c = l_conn(&a); u[1] = tcp_accept(l, NULL, -1); bundle_wait(c, -1); hclose(c); hclose(l); }
    else { int p[2]; int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); u[0] = p[0]; u[1] = p[1]; }
    for(int i = 0; i < 2; i++) if(!raw[i]) {
        mem[i] = dv_pct(50) ? dv_galloc(sizeof(struct http_storage)) : NULL; int o = u[i]; h[i] = mem[i] ? http_attach_mem(u[i], mem[i]) : http_attach(u[i]); CHECK(h[i] >= 0, "attach", "http_attach failed");
        CHECK(hclose(o) == -1 && errno == EBADF, "still-owned", "the underlying handle is still valid");
    }
    if(dv_pct(40)) dv_short_pct = dv_below(100);
    if(dv_pct(20)) dv_again_pct = dv_below(40);
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
}
/* ---- mode h ---- */
static long mkhostile(char *w, int kind) {
    long n = 0;
    static const char *vers[] = {"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/1.10", "HTTP/1.", "XTTP/1.1", "http/1.1", "HTTP/2", ""};
    #define PUT(s) do { const char *s_ = (s); long k_ = strlen(s_); memcpy(w + n, s_, k_); n += k_; } while(0)
    #define SP() do { int k_ = dv_pct(70) ? 1 : dv_below(4); while(k_--) w[n++] = ' '; } while(0)
    char *a = rndstr(dv_pct(10) ? 0 : len(), " \t\r\n:"), *b = dv_pct(50) ? rndstr(dv_pct(10) ? 0 : len(), " \t\r\n:") : dv_pct(10) ? strdup("") : spaced(len());
    if(kind == REQ) { if(dv_pct(10)) SP(); PUT(a); SP(); PUT(b); SP(); PUT(vers[dv_below(10)]); if(dv_pct(10)) SP(); if(dv_pct(10)) PUT("x"); }
    else if(kind == STATUS) { PUT(vers[dv_below(10)]); SP(); char d[8]; snprintf(d, 8, "%03d", (int)dv_below(1000)); if(dv_pct(15)) d[dv_below(3)] = "0aZ/:- "[dv_below(7)]; PUT(d); SP(); PUT(b); }
    else { PUT(a); if(dv_pct(90)) PUT(":"); else if(dv_pct(50) && n) PUT(" foo:"); if(dv_pct(80)) SP(); PUT(b); if(dv_pct(20)) SP(); }
    if(dv_pct(6) && n) w[dv_below(n)] = 0;
    if(dv_pct(6)) { long k = 1010 + dv_below(30); while(n < k) w[n++] = kind == FIELD || kind == STATUS ? 'x' : ' '; }
    if(n == 0) w[n++] = '?';
    free(a); free(b);
    return n;
}
/* reference parser: 0 malformed */
static int refparse(const char *w, long n, int kind, int *status, char *a, char *b) {
    a[0] = b[0] = 0; *status = 0;
    if(memchr(w, 0, n)) return 0;
    if(kind == REQ) {
        char *tok[4]; int nt = 0; static char c[5000]; memcpy(c, w, n); c[n] = 0; char *save; for(char *t = strtok_r(c, " ", &save); t; t = strtok_r(NULL, " ", &save)) { if(nt < 4) tok[nt] = t; nt++; }
        if(nt != 3 || strcmp(tok[2], "HTTP/1.1")) return 0;
        strcpy(a, tok[0]); strcpy(b, tok[1]); return 1;
    }
    if(kind == STATUS) {
        long p = 0; while(p < n && w[p] == ' ') p++;
        if(n - p < 9 || memcmp(w + p, "HTTP/1.1 ", 9)) return 0;
        p += 8; while(p < n && w[p] == ' ') p++;
        if(n - p < 4 || !isdigit((unsigned char)w[p]) || !isdigit((unsigned char)w[p + 1]) || !isdigit((unsigned char)w[p + 2]) || w[p + 3] != ' ') return 0;
        *status = (w[p] - '0') * 100 + (w[p + 1] - '0') * 10 + w[p + 2] - '0'; p += 3; while(p < n && w[p] == ' ') p++;
        memcpy(a, w + p, n - p); a[n - p] = 0; return 1;
    }
    const char *c = memchr(w, ':', n); if(!c || c == w) return 0;
    /* spaces around the name: to be refused by RFC 7230, but stripping them is just as well */
    const char *ns = w, *ne = c; int odd = 0; while(ns < ne && *ns == ' ') { ns++; odd = 1; } while(ne > ns && ne[-1] == ' ') { ne--; odd = 1; }
    if(ns == ne || memchr(ns, ' ', ne - ns)) return 0;
    memcpy(a, ns, ne - ns); a[ne - ns] = 0; c++; while(c < w + n && *c == ' ') c++;
    long m = w + n - c; while(m && c[m - 1] == ' ') m--; memcpy(b, c, m); b[m] = 0; return odd ? 2 : 1;
}
static coroutine void rawpush(char *w, long n) { rawsend(1, w, n); }
static int l_push(char *w, long n) { return go(rawpush(w, n)); }
static void hostile(void) {
    raw[0] = 0; raw[1] = 1; pair(); int n = 1 + dv_below(25);
    for(int k = 0; k < n; k++) {
        static char w[5000], a[5000], b[5000]; int kind = dv_below(3), st; long wn = mkhostile(w, kind);
        int ok = refparse(w, wn, kind, &st, a, b); memcpy(w + wn, "\r\n", 2);
        dv_log("line kind %d ok %d: %.*s", kind, ok, (int)wn, w);
        if(wn > 1023) { whole = 1; dv_short_pct = 0; }
        int hb = l_push(w, wn + 2); recvline(0, kind, ok == 2 ? 2 : !ok, st, a, b, wn > 1023); int e = errno; bundle_wait(hb, -1); hclose(hb);
        if(wn > 1023) { char x[8], y[8]; int rc = http_recvfield(h[0], x, 8, y, 8, now() + 10); CHECK(rc == -1 && errno != ETIMEDOUT, "after-failure", "receiving after an over-long line returned %d errno %d", rc, errno); break; }
        (void)e; if(k > 3) dv_nontrivial();
    }
    hclose(h[0]); hclose(u[1]);
}
void dv_case(void) {
    static int warm; int i;
    if(!warm) { int p[2]; ipc_pair(p); char c; bsend(p[0], "a", 1, -1); brecv(p[1], &c, 1, -1); hclose(p[0]); hclose(p[1]); warm = 1; msleep(now() + 1); }
    int fd0 = dv_fdcount(); dv_deadlock = retry; whole = 0; mem[0] = mem[1] = NULL; memset(nl, 0, sizeof nl); memset(sent, 0, sizeof sent); memset(got, 0, sizeof got); memset(donedir, 0, sizeof donedir); memset(latched, 0, sizeof latched);
    if(dv_mode[0] == 'h') { hostile(); goto out; }
    raw[0] = 0; raw[1] = dv_pct(50); pair();
    for(i = 0; i < 2; i++) { nl[i] = dv_below(12); for(int k = 0; k < nl[i]; k++) L[i][k] = mk(k == 0 ? i ? STATUS : REQ : FIELD); }
    int upto[2]; for(i = 0; i < 2; i++) upto[i] = dv_pct(70) ? nl[1 - i] : (int)dv_below(nl[1 - i] + 1);
    /* what is never received must fit into the socket buffers: no tiny pieces then */
    for(i = 0; i < 2; i++) { if(upto[i] < nl[1 - i]) whole = 1; for(int k = 0; k < nl[i]; k++) if(L[i][k].wn > 1025) whole = 1; }
    if(whole) dv_short_pct = 0;
    int hb[4]; for(i = 0; i < 2; i++) { hb[i] = l_s(i); hb[2 + i] = l_r(i, upto[i]); }
    for(i = 0; i < 2; i++) { int rc = bundle_wait(hb[2 + i], -1); CHECK(rc == 0, "stuck", "lines do not arrive"); rc = bundle_wait(hb[i], -1); CHECK(rc == 0, "stuck", "lines cannot be sent"); }
    for(i = 0; i < 4; i++) hclose(hb[i]);
    for(i = 0; i < 2; i++) if(donedir[1 - i] && got[1 - i] == nl[1 - i] && !latched[i]) { finish(i); }
    for(i = 0; i < 2; i++) { if(nl[i] > 2) dv_nontrivial(); }
    int clean = donedir[1] && !latched[0] && !latched[1];
    if(clean && dv_pct(70)) {
        /* detach: bytes after the head stay on the stream */
        int rc[2]; int db[2]; if(raw[1] && !donedir[0]) { }
        for(i = 0; i < 2; i++) db[i] = l_d(i, &rc[i]);
        for(i = 0; i < 2; i++) { int w = bundle_wait(db[i], -1); CHECK(w == 0, "detach-stuck", "http_detach does not finish"); hclose(db[i]); }
        int good = rc[0] >= 0 && rc[1] >= 0; if(!tcp) for(i = 0; i < 2; i++) CHECK(rc[i] >= 0, "detach", "http_detach failed with errno %d", -rc[i]);
        if(good) {
            if(raw[1]) { /* the peer may have unread lines */ for(int k = got[0]; k < nl[0]; k++) { char *w = malloc(L[0][k].wn); int r = brecv(rc[1], w, L[0][k].wn, -1); CHECK(r == 0 && !memcmp(w, L[0][k].wire, L[0][k].wn), "wire", "line %d differs on the wire", k); free(w); }
                if(!donedir[0] || got[0] < nl[0]) { char w[2]; int r = brecv(rc[1], w, 2, -1); CHECK(r == 0 && !memcmp(w, "\r\n", 2), "wire-end", "no blank line on the wire after detaching"); } }
            for(i = 0; i < 2; i++) { char b[6]; int r = bsend(rc[i], "#body", 5, -1); CHECK(r == 0, "body", "bsend on the detached stream failed"); r = brecv(rc[1 - i], b, 5, -1); CHECK(r == 0 && !memcmp(b, "#body", 5), "position", "the stream after detaching is not positioned after the head"); }
            dv_stat("detached", 1);
        }
        for(i = 0; i < 2; i++) if(rc[i] >= 0) { hclose(rc[i]); if(!raw[i]) CHECK(hclose(h[i]) == -1 && errno == EBADF, "not-closed", "handle valid after detach"); }
    } else for(i = 0; i < 2; i++) hclose(raw[i] ? u[i] : h[i]);
    dv_sample("%d and %d lines, %s, %s", nl[0], nl[1], raw[1] ? "raw peer" : "library peer", tcp ? "tcp" : "local");
out:
    for(i = 0; i < 2; i++) { if(mem[i]) dv_gfree(mem[i]); for(int k = 0; k < nl[i]; k++) { free(L[i][k].a); free(L[i][k].b); free(L[i][k].wire); } }
    if(dv_pct(5)) { int p[2]; ipc_pair(p); int m = prefix_attach(p[0], 2, 0); int r = http_attach(m); CHECK(r == -1 && errno == EPROTO, "wrong-kind", "http_attach to a message socket returned %d errno %d", r, errno); CHECK(hclose(m) == -1 && errno == EBADF, "leaked", "the socket is still open after a failed attach");
        r = http_done(p[1], 0); CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "http_done on a local socket returned %d errno %d", r, errno); r = http_sendfield(p[1], "a", "b", 0); CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "http_sendfield on a local socket: errno %d", errno); hclose(p[1]); dv_stat("wrong_kinds", 1); }
    int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
