/* P07: protocol endpoints fed by a hostile peer: a man in the middle which garbles, cuts, delays, repeats and injects,
   or a generator of plausible units talking to one endpoint alone.
   Modes (in capitals: the man in the middle only stalls): m (prefix, suffix, terminator), h (HTTP), w (WebSocket), s (SOCKS5), f (descriptor passing), t (TLS), d (name server). */
#include "net.h"
#define DILL_H2
#include "libdillimpl.h"
#include <fcntl.h>
#include <sys/stat.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define NOTLS
#endif
#endif
#ifndef NOTLS
#include <openssl/crypto.h>
#include "cert.h"
static long ossl; static void *om(size_t n, const char *f, int l) { void *p = malloc(n); if(p) ossl++; return p; }
static void *orl(void *p, size_t n, const char *f, int l) { if(!p) ossl++; void *q = realloc(p, n); if(n == 0 && p) ossl--; return q; }
static void ofr(void *p, const char *f, int l) { if(p) ossl--; free(p); }
__attribute__((constructor)) static void early_(void) { CRYPTO_set_mem_functions(om, orl, ofr); }
#endif
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define INIT(p, n) __msan_check_mem_is_initialized((p), (n))
#define POISON(p, n) __msan_allocated_memory((p), (n))
#endif
#endif
#ifndef INIT
#define INIT(p, n) ((void)0)
#define POISON(p, n) ((void)0)
#endif
typedef unsigned char uc;
static int retry(void) { return 1; }
static char M; static int honest; static int fd[2][2], u[2], direct, both; static int64_t limit; static long maxlive;
static int hasmitm(int i) { return !direct || i == 0; }
/* ---- units of the protocols ---- */
struct b { uc p[70000]; long n; };
static void put(struct b *b, const void *p, long n) { if(b->n + n > (long)sizeof b->p) n = sizeof b->p - b->n; memcpy(b->p + b->n, p, n); b->n += n; }
static void p1(struct b *b, int c) { uc x = (uc)c; put(b, &x, 1); }
static void puts_(struct b *b, const char *s) { put(b, s, strlen(s)); }
static void rndb(struct b *b, long n) { for(long i = 0; i < n; i++) p1(b, dv_pct(50) ? (int)dv_rand() : 32 + (int)dv_below(95)); }
static long rlen(void) { int r = dv_below(100); return r < 60 ? dv_below(12) : r < 85 ? dv_below(130) : r < 95 ? 120 + dv_below(140) : r < 98 ? 1000 + dv_below(100) : 65500 + dv_below(100); }
static uint64_t wild(void) { static const uint64_t w[] = {0, 1, 2, 125, 126, 127, 128, 255, 256, 1023, 1024, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffff0ull}; return w[dv_below(sizeof w / 8)]; }
static uc sfx[300], tfx[300]; static int sfxn, tfxn, hdrlen, le, useterm, kindm; /* configuration of the message protocols */
static void unit_m(struct b *b) {
    int r = dv_below(10);
    if(kindm == 0) {
        uint64_t n = r < 6 ? (uint64_t)rlen() : r < 8 ? wild() : dv_rand() >> dv_below(64); int t = useterm && dv_pct(30); if(t) n = tfxn;
        for(int i = 0; i < hdrlen; i++) { int s = (le ? i : hdrlen - 1 - i) * 8; p1(b, s < 64 ? (int)(n >> s) : 0); }
        if(t) { put(b, tfx, tfxn); return; }
        if(n <= 66000 && dv_pct(90)) { rndb(b, n); return; }
        rndb(b, dv_below(40));
    } else {
        long n = rlen(); rndb(b, n); if(dv_pct(30)) put(b, sfx, dv_below(sfxn + 1)); if(useterm && dv_pct(30)) put(b, tfx, tfxn); if(r < 8) put(b, sfx, sfxn);
    }
}
static void unit_h(struct b *b) {
    static const char *tok[] = {"GET", "/", "HTTP/1.1", "HTTP/1.0", "http/1.1", "200", "099", "2000", "20", "OK", " ", "  ", "\t", ":", ": ", "Host", "Connection", "Upgrade", "websocket", "Sec-WebSocket-Key", "Sec-WebSocket-Version", "13", "Sec-WebSocket-Accept", "dill", "a", "\r", "\n", "\0", "\x80\xff", "", "Sec-WebSocket-Protocol"};
    int r = dv_below(10);
    if(r < 2) { puts_(b, "GET "); rndb(b, dv_below(20)); puts_(b, " HTTP/1.1"); }
    else if(r < 4) { puts_(b, "HTTP/1.1 "); char s[20]; sprintf(s, "%d ", (int)dv_below(1200)); puts_(b, s); rndb(b, dv_below(20)); }
    else if(r < 6) { puts_(b, tok[15 + dv_below(9)]); puts_(b, dv_pct(80) ? ": " : dv_pct(50) ? ":" : " : "); if(dv_pct(60)) puts_(b, tok[dv_below(31)]); else rndb(b, rlen() % 2000); }
    else if(r < 9) { int k = dv_below(9); while(k--) { const char *t = tok[dv_below(31)]; if(*t || dv_pct(50)) puts_(b, t); else p1(b, 0); if(dv_pct(60)) p1(b, ' '); } }
    else rndb(b, rlen() % 2000);
    if(dv_pct(92)) puts_(b, "\r\n"); if(dv_pct(10)) puts_(b, "\r\n");
}
static void unit_w(struct b *b) {
    if(dv_pct(3)) { unit_h(b); return; }
    int op = dv_pct(70) ? (int[]){0, 1, 2, 8, 9, 10}[dv_below(6)] : (int)dv_below(16), fin = dv_pct(75), rsv = dv_pct(6) ? (int)dv_below(8) : 0, mask = dv_pct(50), form = 0; uint64_t n = rlen(); if(op >= 8 && dv_pct(85)) n %= 126; if(dv_pct(6)) n = wild();
    p1(b, fin << 7 | rsv << 4 | op); form = n < 126 ? 0 : n < 65536 ? 1 : 2; if(dv_pct(5)) form = dv_below(3);
    p1(b, mask << 7 | (form == 0 ? (int)(n % 126) : form == 1 ? 126 : 127)); if(form == 0) n %= 126; if(form == 1) n &= 65535; for(int i = form == 0 ? 0 : form == 1 ? 2 : 8; i > 0; i--) p1(b, (int)(n >> (i - 1) * 8));
    if(mask) rndb(b, 4);
    if(op == 8 && n >= 2 && dv_pct(70)) { int st = 900 + dv_below(300); p1(b, st >> 8); p1(b, st); n -= 2; }
    rndb(b, n <= 66000 ? (long)n : (long)dv_below(3000));
}
static void target(struct b *b) { int t = dv_pct(85) ? (int[]){1, 3, 4}[dv_below(3)] : (int)dv_below(256); p1(b, t); if(t == 3) { int n = dv_pct(50) ? (int)dv_below(20) : (int)dv_below(256); p1(b, n); if(dv_pct(30)) { static const char *nm[] = {"localhost", "1.2.3.4", "::1", "a..b", ".", "host4.test", "\0\0"}; int k = dv_below(7); b->n--; p1(b, (int)strlen(nm[k])); puts_(b, nm[k]); } else for(int i = 0; i < n; i++) p1(b, dv_pct(30) ? '.' : dv_pct(80) ? 'a' + (int)dv_below(26) : (int)dv_rand()); } else rndb(b, t == 4 ? 16 : 4); rndb(b, 2); }
static void unit_s(struct b *b) {
    switch(dv_below(7)) {
    case 0: { p1(b, 5); int n = dv_pct(80) ? (int)dv_below(4) : (int)dv_below(256); p1(b, n); for(int i = 0; i < n; i++) p1(b, dv_pct(70) ? 2 * (int)dv_below(2) : (int)dv_rand()); break; }
    case 1: p1(b, 5); p1(b, dv_pct(80) ? 2 * (int)dv_below(2) : (int)dv_rand()); break;
    case 2: { p1(b, 1); for(int k = 0; k < 2; k++) { int n = dv_pct(60) ? (int)dv_below(10) : (int)dv_below(256); p1(b, n); rndb(b, n); } break; }
    case 3: p1(b, 1); p1(b, dv_pct(80) ? 0 : (int)dv_rand()); break;
    case 4: p1(b, 5); p1(b, dv_pct(80) ? 1 + (int)dv_below(3) : (int)dv_rand()); p1(b, dv_pct(90) ? 0 : (int)dv_rand()); target(b); break;
    case 5: p1(b, 5); p1(b, dv_pct(60) ? 0 : (int)dv_below(12)); p1(b, dv_pct(90) ? 0 : (int)dv_rand()); target(b); break;
    default: rndb(b, dv_below(300));
    }
}
static void unit_t(struct b *b) {
    long n = dv_pct(60) ? dv_below(60) : dv_pct(70) ? dv_below(600) : 16380 + dv_below(300); p1(b, dv_pct(80) ? 20 + (int)dv_below(5) : (int)dv_rand()); p1(b, 3); p1(b, dv_below(5)); p1(b, (int)(n >> 8)); p1(b, (int)n);
    if(dv_pct(50) && n > 4) { p1(b, dv_below(25)); p1(b, 0); p1(b, (int)((n - 4) >> 8)); p1(b, (int)(n - 4)); n -= 4; } rndb(b, dv_pct(90) ? n : (long)dv_below(n + 1));
}
static void unit(struct b *b) { long n0 = b->n; switch(M) { case 'm': case 'f': unit_m(b); break; case 'h': unit_h(b); break; case 'w': unit_w(b); break; case 's': unit_s(b); break; default: unit_t(b); }
    int k = dv_pct(75) ? 0 : 1 + dv_below(3); while(k-- && b->n > n0) { long at = n0 + dv_below(b->n - n0); switch(dv_below(4)) { case 0: b->p[at] ^= 1 << dv_below(8); break; case 1: b->p[at] = (uc)dv_rand(); break; case 2: b->n = at; break; default: memmove(b->p + at, b->p + at + 1, b->n - at - 1); b->n--; } } }
/* ---- the man in the middle; raw descriptors ---- */
static struct pump { int from, to; long clean, pos; int rate, endact; long endat; int ended, fds; } P[2]; static long injected, garbled, relayed;
static int emit(struct pump *q, const uc *p, long n, int rights) {
    long o = 0; while(o < n) {
        long k = dv_pct(50) ? n - o : 1 + (long)dv_below(n - o < 50 ? n - o : 50); if(n - o > 5000) k = n - o;
        struct iovec v = {(void*)(p + o), k}; struct msghdr h; memset(&h, 0, sizeof h); h.msg_iov = &v; h.msg_iovlen = 1; union { struct cmsghdr c; char b[CMSG_SPACE(sizeof(int) * 6)]; } cm; 
        if(rights && dv_pct(rights)) { int nf = dv_pct(60) ? 1 : dv_below(6), ff[6] = {0, 0, 0, 0, 0, 0}; if(nf) { memset(&cm, 0, sizeof cm); cm.c.cmsg_level = SOL_SOCKET; cm.c.cmsg_type = SCM_RIGHTS; cm.c.cmsg_len = CMSG_LEN(sizeof(int) * nf); memcpy(CMSG_DATA(&cm.c), ff, sizeof(int) * nf); h.msg_control = &cm; h.msg_controllen = CMSG_SPACE(sizeof(int) * nf); } }
        ssize_t z = sendmsg(q->to, &h, MSG_DONTWAIT | MSG_NOSIGNAL);
        if(z < 0) { if(errno == EAGAIN || errno == ETOOMANYREFS) { if(fdout(q->to, now() + 40) < 0) return -1; if(dv_vt > limit) return -1; continue; } return -1; }
        o += z; if(dv_pct(6) && msleep(now() + (int64_t)dv_below(6)) < 0) return -1;
    }
    return 0;
}
static int endnow(struct pump *q) { /* 1: hang up, 2: silence, 3: half close, 4: flood */
    dv_log("end of kind %d", q->endact); q->ended = 1;
    if(q->endact == 1) { shutdown(q->to, SHUT_RDWR); dv_stat("hangups", 1); return -1; }
    if(q->endact == 3) { shutdown(q->to, SHUT_WR); dv_stat("half_closes", 1); return -1; }
    if(q->endact == 4) { static struct b f; long tot = 20000 + dv_below(400000); dv_stat("floods", 1); while(tot > 0) { f.n = 0; if(dv_pct(30)) unit(&f); else { uc c = (uc)dv_rand(); f.n = 1000 + dv_below(20000); memset(f.p, c, f.n); } tot -= f.n + 1; if(emit(q, f.p, f.n, 0) < 0) return -1; } return -1; }
    dv_stat("stalls", 1); return -1;
}
static coroutine void pump(int d) {
    struct pump *q = &P[d]; static struct b B[2]; struct b *b = &B[d]; uc in[4096];
    if(dv_pct(10) && msleep(now() + (int64_t)dv_below(20)) < 0) return;
    for(;;) {
        long n = 0; b->n = 0;
        if(direct) { if(dv_pct(20)) { if(msleep(now() + (int64_t)dv_below(10)) < 0) return; } else if(yield() < 0) return; int k = 1 + dv_below(4); while(k--) unit(b); injected++; if(M == 'f') b->n = b->n % 5 + 1; }
        else {
            ssize_t z = recv(q->from, in, 1 + dv_below(sizeof in), MSG_DONTWAIT);
            if(z < 0 && errno == EAGAIN) { if(fdin(q->from, now() + 1000) < 0 && errno == ECANCELED) return; if(dv_vt > limit) return; continue; }
            if(z <= 0) { if(dv_pct(70)) shutdown(q->to, SHUT_WR); return; }
            n = z; relayed++;
            if(q->pos + n > q->clean && q->rate && dv_pct(q->rate)) {
                long at = q->pos >= q->clean ? dv_below(n + 1) : q->clean - q->pos + dv_below(q->pos + n - q->clean + 1); int how = dv_below(9); dv_log("dir %d: change of kind %d at %ld", d, how, q->pos + at); garbled++;
                long cut = dv_pct(60) ? 1 : 1 + dv_below(n - at + 1); if(cut > n - at) cut = n - at;
                if(how == 0 && at < n) { in[at] ^= 1 << dv_below(8); put(b, in, n); }
                else if(how == 1 && at < n) { in[at] = (uc)(dv_pct(50) ? (dv_pct(50) ? 0 : 255) : dv_rand()); put(b, in, n); }
                else if(how == 2) { put(b, in, at); put(b, in + at + cut, n - at - cut); }
                else if(how == 3) { put(b, in, at); rndb(b, 1 + dv_below(20)); put(b, in + at, n - at); injected++; }
                else if(how == 4 || how == 5) { put(b, in, at); int k = 1 + dv_below(3); while(k--) unit(b); put(b, in + at, n - at); injected++; }
                else if(how == 6) { put(b, in, n); put(b, in + at, n - at); }
                else if(how == 7) { put(b, in, at); rndb(b, n - at); }
                else { put(b, in, at); int k = 1 + dv_below(6); while(k--) unit(b); injected++; }
            } else put(b, in, n);
        }
        if(q->endact && q->pos + b->n >= q->endat) { long k = q->endat - q->pos; if(k > 0) emit(q, b->p, k, M == 'f' ? 40 : 0); endnow(q); return; }
        if(emit(q, b->p, b->n, M == 'f' ? 70 : 0) < 0) return; q->pos += direct ? b->n : n;
        if(direct && q->pos > q->endat) return;
    }
}
/* ---- the endpoints ---- */
static int64_t DL(void) { int r = dv_below(100); return r < 12 ? -1 : r < 18 ? 0 : r < 40 ? now() + (int64_t)dv_below(8) : now() + 30 + (int64_t)dv_below(200); }
static int64_t t0_; static long lb_; static const char *opn[2]; static int64_t odl[2], ot[2]; static long olive[2];
static void pre(int i, const char *w, int64_t dl) { opn[i] = w; odl[i] = dl; ot[i] = dv_vt; olive[i] = dv_live_bytes; errno = 0; }
/* common verdict over each call; returns 1 if the call failed */
static int post(int i, long rc, int grow) {
    int e = errno; int64_t t = dv_vt, lim = odl[i] < ot[i] ? ot[i] : odl[i];
    dv_log("%d %s dl %lld -> %ld %s", i, opn[i], (long long)odl[i], rc, rc < 0 ? strerror(e) : "");
    CHECK(odl[i] < 0 || t <= lim + 2, "late", "%s ended at %lld, its deadline was %lld", opn[i], (long long)t, (long long)odl[i]);
    CHECK(dv_live_bytes - olive[i] <= grow, "memory", "%s increased the memory in use by %ld bytes", opn[i], dv_live_bytes - olive[i]);
    dv_stat("calls", 1); dv_sig(rc < 0 ? e + 1000 : rc);
    if(rc >= 0) { dv_stat("ok", 1); return 0; }
    CHECK(rc == -1, "result", "%s returned %ld", opn[i], rc);
    CHECK((M == 'd' && e > 0) || e == EPROTO || e == EPIPE || e == ECONNRESET || e == EMSGSIZE || e == ETIMEDOUT || e == ECANCELED || e == EACCES || e == ECONNREFUSED || e == ENETUNREACH || e == EHOSTUNREACH || e == ENETDOWN || e == EADDRNOTAVAIL || e == ECONNABORTED || (M == (char)115 && (e == EAFNOSUPPORT || e == EOPNOTSUPP || e == ENOTSUP || e == EPERM || e == EIO)) || e == EAGAIN || e == EINVAL || (e == EFAULT && M == 't'), "errno", "%s failed with errno %d (%s)", opn[i], e, strerror(e));
    if(M != (char)100 && (e == EINVAL || e == EAGAIN || e == EADDRNOTAVAIL || e == EACCES)) CHECK(strstr("ipaddr_remotes socks5_proxy_recvcommand ws_status socks5_client_connect socks5_client_connectbyname socks5_proxy_auth", opn[i]), "errno", "%s failed with errno %d (%s)", opn[i], e, strerror(e));
    if(e == ETIMEDOUT) { dv_stat("timeouts", 1); CHECK((odl[i] >= 0 && t >= odl[i]) || !strncmp(opn[i], "socks5_client", 13), "early", "%s timed out at %lld, the deadline is %lld", opn[i], (long long)t, (long long)odl[i]); } else if(e == ECANCELED) dv_stat("cancelled", 1); else if(e == EPROTO) dv_stat("eproto", 1); else if(e == EMSGSIZE) dv_stat("emsgsize", 1); else dv_stat("other_errors", 1);
    errno = e; return 1;
}
static char *gb(long n) { char *p = dv_galloc(n); if(n) { memset(p, 0xEE, n); POISON(p, n); } return p; }
static void str(char *b, long cap, const char *w) { long k = 0; while(k < cap && (INIT(b + k, 1), b[k])) k++; CHECK(k < cap, "no-nul", "%s: the string is not terminated", w); }
static long cap(void) { int r = dv_below(100); return r < 10 ? dv_below(3) : r < 50 ? dv_below(64) : r < 85 ? dv_below(600) : r < 97 ? dv_below(2000) : 70000; }
static int msgrecv(int i, int h) {
    long c = cap(); int64_t dl = DL(); ssize_t rc; int e; if(dv_pct(15)) { pre(i, "mrecv(NULL)", dl); rc = dv_pct(80) ? mrecvl(h, NULL, NULL, dl) : mrecv(h, NULL, 0, dl); return post(i, rc, 4096) ? -1 : 0; }
    if(dv_pct(70)) { char *b = gb(c); pre(i, "mrecv", dl); rc = mrecv(h, b, c, dl); e = errno; post(i, rc, 4096); if(rc >= 0) { CHECK(rc <= c, "result", "mrecv reports %zd bytes in a buffer of %ld", rc, c); INIT(b, rc); dv_stat("messages", 1); } dv_gfree(b); errno = e; return rc; }
    struct gl *g = gl_new(c, GL_NULLS); gl_blank(g); pre(i, "mrecvl", dl); rc = mrecvl(h, gl_first(g), gl_last(g), dl); e = errno; post(i, rc, 4096); gl_same(g, "mrecvl"); if(rc >= 0) { CHECK(rc <= c, "result", "mrecvl reports %zd bytes in buffers of %ld", rc, c); dv_stat("messages", 1); } gl_free(g); errno = e; return rc;
}
static int msgsend(int i, int h, long max) { long n = rlen() % max; char *b = dv_galloc(n); for(long k = 0; k < n; k++) b[k] = 'a' + (int)dv_below(26); int64_t dl = DL(); pre(i, "msend", dl); int rc = msend(h, b, n, dl), e = errno; dv_gfree(b); errno = e; if(rc < 0 && e == EINVAL) return 0; return post(i, rc, 4096) ? -1 : 0; }
static int bs(int i, int h) { long n = rlen(); char *b = dv_galloc(n); for(long k = 0; k < n; k++) b[k] = 'a' + (int)dv_below(26); int64_t dl = DL(); pre(i, "bsend", dl); int rc = bsend(h, b, n, dl), e = errno; dv_gfree(b); errno = e; return post(i, rc, 40000) ? -1 : 0; }
static int br(int i, int h) { long n = 1 + rlen(); char *b = gb(n); int64_t dl = DL(); pre(i, "brecv", dl); int rc = dv_pct(10) ? brecv(h, NULL, n, dl) : brecv(h, b, n, dl), e = errno; if(rc == 0) { CHECK(rc == 0, "result", "brecv"); } dv_gfree(b); errno = e; return post(i, rc, 40000) ? -1 : 0; }
static int fin(int i, int rc, int h) { (void)i; if(rc >= 0) hclose(rc); (void)h; return 0; }
static void ep_m(int i) {
    int h; int64_t dl; void *mem[2] = {NULL, NULL}; if(dv_pct(50)) { mem[0] = dv_galloc(kindm ? sizeof(struct suffix_storage) : sizeof(struct prefix_storage)); mem[1] = dv_galloc(sizeof(struct term_storage)); }
    h = kindm ? (mem[0] ? suffix_attach_mem(u[i], sfx, sfxn, mem[0]) : suffix_attach(u[i], sfx, sfxn)) : mem[0] ? prefix_attach_mem(u[i], hdrlen, le ? PREFIX_LITTLE_ENDIAN : 0, mem[0]) : prefix_attach(u[i], hdrlen, le ? PREFIX_LITTLE_ENDIAN : 0); CHECK(h >= 0, "attach", "errno %d", errno);
    if(useterm) { h = mem[1] ? term_attach_mem(h, tfx, tfxn, mem[1]) : term_attach(h, tfx, tfxn); CHECK(h >= 0, "attach", "errno %d", errno); }
    int n = 2 + dv_below(20), done = 0, bad = 0; while(n-- && bad < 4) { int r = dv_below(10); if(r < 4 && !done) { long mx = kindm ? 2000 : hdrlen == 1 ? 255 : hdrlen == 2 ? 65000 : 70000; bad += msgsend(i, h, mx) < 0; } else if(r < 9) bad += msgrecv(i, h) < 0; else if(useterm && dv_pct(40) && !done) { dl = DL(); pre(i, "term_done", dl); int rc = term_done(h, dl); post(i, rc, 4096); done = 1; } else if(yield() < 0) bad = 9; }
    if(dv_pct(40)) { if(useterm) { dl = DL(); pre(i, "term_detach", dl); h = term_detach(h, dl); if(post(i, h, 4096)) h = -1; } if(h >= 0) { dl = DL(); pre(i, "detach", dl); h = kindm ? suffix_detach(h, dl) : prefix_detach(h); if(post(i, h, 4096)) h = -1; else br(i, h); } }
    if(h >= 0) hclose(h); dv_gfree(mem[0]); dv_gfree(mem[1]);
}
static void ep_h(int i) {
    void *mem = dv_pct(50) ? dv_galloc(sizeof(struct http_storage)) : NULL; int h = mem ? http_attach_mem(u[i], mem) : http_attach(u[i]); CHECK(h >= 0, "attach", "errno %d", errno); int64_t dl; int n = 3 + dv_below(20), bad = 0, done = 0, rc;
    while(n-- && bad < 6) {
        int r = dv_below(20); dl = DL(); char x[200]; int k = dv_below(150); for(int j = 0; j < k; j++) x[j] = 'a' + dv_below(26); x[k] = 0; if(k == 0) strcpy(x, "q");
        if(r < 6 && !done) { pre(i, "http_send", dl); if(r < 2) rc = http_sendrequest(h, "GET", x, dl); else if(r < 3) rc = http_sendstatus(h, 100 + dv_below(500), x, dl); else rc = http_sendfield(h, "Name", x, dl); bad += post(i, rc, 4096); }
        else if(r == 6 && !done) { pre(i, "http_done", dl); rc = http_done(h, dl); bad += post(i, rc, 4096); done = 1; }
        else if(r == 7) { if(yield() < 0) bad = 9; }
        else { long c1 = dv_pct(60) ? 1100 : dv_below(40), c2 = dv_pct(60) ? 1100 : dv_below(40); char *a = gb(c1), *b = gb(c2);
            if(r < 11) { pre(i, "http_recvrequest", dl); rc = http_recvrequest(h, a, c1, b, c2, dl); if(rc == 0) { str(a, c1, "command"); str(b, c2, "resource"); dv_stat("lines", 1); } }
            else if(r < 14) { pre(i, "http_recvstatus", dl); rc = http_recvstatus(h, a, c1, dl); if(rc >= 0) { CHECK(rc <= 999, "result", "status %d", rc); str(a, c1, "reason"); dv_stat("lines", 1); } }
            else { pre(i, "http_recvfield", dl); rc = http_recvfield(h, a, c1, b, c2, dl); if(rc == 0) { str(a, c1, "name"); str(b, c2, "value"); CHECK(*a, "result", "empty field name"); dv_stat("lines", 1); } }
            int e = errno; dv_gfree(a); dv_gfree(b); errno = e; bad += post(i, rc, 4096); }
    }
    if(dv_pct(40)) { dl = DL(); pre(i, "http_detach", dl); rc = http_detach(h, dl); if(!post(i, rc, 4096)) { br(i, rc); hclose(rc); } } else hclose(h);
    dv_gfree(mem);
}
static int wsnohttp;
static void ep_w(int i) {
    void *mem = dv_pct(50) ? dv_galloc(sizeof(struct ws_storage)) : NULL; int fl = (dv_pct(50) ? WS_TEXT : WS_BINARY) | (wsnohttp ? WS_NOHTTP : 0), h, rc; int64_t dl = dv_pct(75) ? now() + 400 : DL(); long c1 = dv_pct(80) ? 256 : dv_below(10), c2 = dv_pct(80) ? 256 : dv_below(10); char *r = gb(c1), *ho = gb(c2);
    if(wsnohttp) { pre(i, "ws_attach_nohttp", dl); h = i ? (mem ? ws_attach_server_mem(u[i], fl, NULL, 0, NULL, 0, mem, dl) : ws_attach_server(u[i], fl, NULL, 0, NULL, 0, dl)) : mem ? ws_attach_client_mem(u[i], fl, NULL, NULL, mem, dl) : ws_attach_client(u[i], fl, NULL, NULL, dl); }
    else if(i == 0) { pre(i, "ws_attach_client", dl); h = mem ? ws_attach_client_mem(u[i], fl, "/res", "host.test", mem, dl) : ws_attach_client(u[i], fl, "/res", "host.test", dl); }
    else { char *rr = dv_pct(80) ? r : NULL, *hh = dv_pct(80) ? ho : NULL; pre(i, "ws_attach_server", dl); h = mem ? ws_attach_server_mem(u[i], fl, rr, rr ? c1 : 0, hh, hh ? c2 : 0, mem, dl) : ws_attach_server(u[i], fl, rr, rr ? c1 : 0, hh, hh ? c2 : 0, dl); int e = errno; if(h >= 0) { if(rr) str(rr, c1, "resource"); if(hh) str(hh, c2, "host"); } errno = e; }
    int e = errno; dv_gfree(r); dv_gfree(ho); errno = e; if(post(i, h, 8192)) { dv_gfree(mem); return; } dv_stat("handshakes", !wsnohttp);
    int n = 3 + dv_below(20), bad = 0, done = 0;
    while(n-- && bad < 5) {
        int q = dv_below(20); dl = DL();
        if(q < 6 && !done) { long z = rlen() % 5000; char *b = dv_galloc(z); memset(b, 'x', z); pre(i, "ws_send", dl); rc = ws_send(h, dv_below(2), b, z, dl); e = errno; dv_gfree(b); errno = e; bad += post(i, rc, 4096); }
        else if(q == 6) { int st = -5; char *b = gb(125); long c = dv_pct(50) ? 125 : dv_below(126); pre(i, "ws_status", -1); ssize_t z = ws_status(h, &st, b, c); e = errno; if(z >= 0) { CHECK(z <= c && st >= 0 && st <= 65535, "result", "ws_status returned %zd bytes in %ld, status %d", z, c, st); INIT(b, z); dv_stat("statuses", 1); } dv_gfree(b); errno = e; post(i, z, 4096); }
        else if(q == 7 && !done) { pre(i, "ws_done", dl); rc = ws_done(h, dv_pct(50) ? 0 : 1000 + dv_below(1000), NULL, 0, dl); bad += post(i, rc, 4096); done = 1; }
        else if(q == 8) { if(yield() < 0) bad = 9; }
        else if(q < 11) bad += msgrecv(i, h) < 0;
        else { long c = cap(); char *b = gb(c); int f2 = 77; pre(i, "ws_recv", dl); ssize_t z = ws_recv(h, &f2, b, c, dl); e = errno; if(z >= 0) { CHECK(z <= c, "result", "ws_recv reports %zd bytes in a buffer of %ld", z, c); CHECK(f2 == WS_TEXT || f2 == WS_BINARY, "result", "flags %d", f2); INIT(b, z); dv_stat("messages", 1); } dv_gfree(b); errno = e; bad += post(i, z, 4096); }
    }
    if(dv_pct(40)) { dl = DL(); pre(i, "ws_detach", dl); rc = ws_detach(h, dv_pct(50) ? 0 : 1000, NULL, 0, dl); if(!post(i, rc, 4096)) { br(i, rc); hclose(rc); } } else hclose(h);
    dv_gfree(mem);
}
static int cbf(const char *a, const char *b) { INIT(a, strlen(a) + 1); INIT(b, strlen(b) + 1); CHECK(strlen(a) < 256 && strlen(b) < 256, "callback", "credentials of %zu and %zu characters", strlen(a), strlen(b)); dv_stat("credentials", 1); return (int)dv_below(3); }
static void ep_s(int i) {
    int rc; int64_t dl = dv_pct(70) ? now() + 300 : DL(); struct ipaddr a; ipaddr_remote(&a, dv_pct(50) ? "1.2.3.4" : "::1", 80, 0, -1); char *us = NULL, *pw = NULL; char x[256]; if(dv_pct(50)) { us = "user"; memset(x, 'p', 255); x[1 + dv_below(254)] = 0; x[255] = 0; pw = x; }
    if(i == 0) { if(dv_pct(50)) { pre(i, "socks5_client_connect", dl); rc = socks5_client_connect(u[i], us, pw, &a, dl); } else { pre(i, "socks5_client_connectbyname", dl); rc = socks5_client_connectbyname(u[i], us, pw, "some.host.test", 8080, dl); } if(!post(i, rc, 4096)) { dv_stat("handshakes", 1); if(bs(i, u[i]) == 0) br(i, u[i]); } }
    else {
        pre(i, "socks5_proxy_auth", dl); rc = socks5_proxy_auth(u[i], us ? cbf : NULL, dl); if(!post(i, rc, 4096)) {
            if(dv_pct(50)) { char *b = gb(256); int port = -7; pre(i, "socks5_proxy_recvcommandbyname", dl); rc = socks5_proxy_recvcommandbyname(u[i], b, &port, dl); int e = errno; if(rc >= 0) { str(b, 256, "host name"); CHECK(rc >= 1 && rc <= 3 && port >= 0 && port <= 65535, "result", "command %d, port %d", rc, port); } dv_gfree(b); errno = e; }
            else { struct ipaddr *t = (void*)gb(sizeof(struct ipaddr)); pre(i, "socks5_proxy_recvcommand", dl); rc = socks5_proxy_recvcommand(u[i], t, dl); int e = errno; if(rc >= 0) { CHECK(rc >= 1 && rc <= 3, "result", "command %d", rc); int f = ipaddr_family(t); INIT(t, ipaddr_len(t)); CHECK(f == AF_INET || f == AF_INET6, "result", "address of family %d", f); char s[IPADDR_MAXSTRLEN]; ipaddr_str(t, s); CHECK(strlen(s) > 0, "result", "no address"); } dv_gfree(t); errno = e; }
            if(!post(i, rc, 200000)) { dv_stat("commands", 1); dl = DL(); pre(i, "socks5_proxy_sendreply", dl); rc = socks5_proxy_sendreply(u[i], dv_pct(70) ? 0 : 1 + dv_below(8), &a, dl); if(!post(i, rc, 4096)) { if(br(i, u[i]) == 0) bs(i, u[i]); } }
        }
    }
    hclose(u[i]);
}
static void ep_f(int i) {
    int n = 3 + dv_below(20), bad = 0; while(n-- && bad < 4) { int64_t dl = DL();
        if(dv_pct(60)) { int f0 = dv_fdcount(); pre(i, "ipc_recvfd", dl); int f = ipc_recvfd(u[i], dl); int e = errno; int f1 = dv_fdcount(); errno = e; bad += post(i, f, 4096); if(f >= 0) { struct stat st; CHECK(fstat(f, &st) == 0, "result", "ipc_recvfd returned a descriptor which is not open"); close(f); dv_stat("descriptors", 1); } if(direct) CHECK(f1 - f0 == (f >= 0), "fd-leak", "ipc_recvfd returned %d and opened %d descriptors", f, f1 - f0); }
        else if(dv_pct(60)) { char b[20]; int k = 1 + dv_below(6), f0 = dv_fdcount(); pre(i, "brecv", dl); int rc = brecv(u[i], b, k, dl); int e = errno; if(direct) CHECK(dv_fdcount() == f0, "fd-leak", "brecv opened a descriptor"); errno = e; bad += post(i, rc, 4096); }
        else if(dv_pct(50)) { pre(i, "ipc_sendfd", dl); int rc = ipc_sendfd(u[i], 0, dl); if(rc < 0 && errno == ETOOMANYREFS) continue; bad += post(i, rc, 4096); } else bad += bs(i, u[i]) < 0;
    }
    if(dv_pct(30)) { int64_t dl = DL(); pre(i, "ipc_close", dl); int rc = ipc_close(u[i], dl); post(i, rc, 4096); } else hclose(u[i]);
}
#ifndef NOTLS
static void ep_t(int i) {
    void *mem = dv_pct(50) ? dv_galloc(sizeof(struct tls_storage)) : NULL; int64_t dl = dv_pct(75) ? now() + 400 : DL(); int h, rc;
    if(i == 0) { pre(i, "tls_attach_client", dl); h = mem ? tls_attach_client_mem(u[i], mem, dl) : tls_attach_client(u[i], dl); } else { pre(i, "tls_attach_server", dl); h = mem ? tls_attach_server_mem(u[i], certf, keyf, mem, dl) : tls_attach_server(u[i], certf, keyf, dl); }
    if(post(i, h, 40000)) { dv_gfree(mem); return; } dv_stat("handshakes", 1);
    int n = 3 + dv_below(12), bad = 0, done = 0; while(n-- && bad < 4) { int r = dv_below(10); if(r < 4 && !done) bad += bs(i, h) < 0; else if(r < 8) bad += br(i, h) < 0; else if(r == 8 && !done) { dl = DL(); pre(i, "tls_done", dl); rc = tls_done(h, dl); bad += post(i, rc, 40000); done = 1; } else if(yield() < 0) bad = 9; }
    if(dv_pct(40)) { dl = DL(); pre(i, "tls_detach", dl); rc = tls_detach(h, dl); if(!post(i, rc, 40000)) { br(i, rc); hclose(rc); } } else hclose(h);
    dv_gfree(mem);
}
#else
static void ep_t(int i) { hclose(u[i]); }
#endif
static int fins;
static coroutine void nop(void) { msleep(now() + 1); }
static void stacks(void) { int b = bundle(); for(int k = 0; k < 20; k++) bundle_go(b, nop()); bundle_wait(b, -1); hclose(b); }
static coroutine void endpoint(int i) { if(dv_pct(15) && msleep(now() + (int64_t)dv_below(10)) < 0) { hclose(u[i]); fins++; return; } switch(M) { case 'm': ep_m(i); break; case 'h': ep_h(i); break; case 'w': ep_w(i); break; case 's': ep_s(i); break; case 'f': ep_f(i); break; default: ep_t(i); } opn[i] = "nothing"; fins++; }
static int l_p(int b, int d) { return bundle_go(b, pump(d)); }
static int l_e(int b, int i) { return bundle_go(b, endpoint(i)); }

/* ---- name server ---- */
static int nsb, nscons; static int okpct;
static void dname(struct b *b, long base, int qn) {
    int r = dv_below(10); if(r < 5) { p1(b, 0xc0); p1(b, 12); return; }
    if(r < 6) { p1(b, 0xc0 | (int)dv_below(64)); p1(b, (int)dv_rand()); return; } /* somewhere, possibly to itself */
    if(r < 7) { long o = b->n - base; p1(b, 0xc0 | (int)(o >> 8 & 63)); p1(b, (int)o); return; }
    int k = dv_pct(90) ? dv_below(5) : dv_below(140); while(k--) { int l = dv_pct(95) ? 1 + dv_below(10) : dv_below(64); if(dv_pct(2)) l = dv_rand() & 255; p1(b, l); for(int i = 0; i < (l & 63); i++) p1(b, dv_pct(90) ? 'a' + (int)dv_below(3) : (int)dv_rand()); }
    if(dv_pct(70)) p1(b, 0); else { p1(b, 0xc0); p1(b, dv_pct(60) ? 12 : (int)dv_rand()); }
}
static void drec(struct b *b, long base, int qtype) {
    static const int types[] = {1, 28, 5, 2, 6, 12, 15, 16, 33, 41, 44, 99}; int t = dv_pct(50) ? qtype : dv_pct(90) ? types[dv_below(12)] : (int)dv_below(65536); dname(b, base, 0); p1(b, t >> 8); p1(b, t); p1(b, 0); p1(b, dv_pct(95) ? 1 : (int)dv_rand()); rndb(b, 4);
    long at = b->n; p1(b, 0); p1(b, 0); long st = b->n;
    switch(t) { case 1: rndb(b, 4); break; case 28: rndb(b, 16); break; case 5: case 2: case 12: dname(b, base, 0); break; case 6: dname(b, base, 0); dname(b, base, 0); rndb(b, 20); break; case 15: rndb(b, 2); dname(b, base, 0); break; case 16: case 99: { int k = dv_below(4); while(k--) { int l = dv_below(256); p1(b, l); rndb(b, l); } break; } case 33: rndb(b, 6); dname(b, base, 0); break; case 41: rndb(b, dv_below(20)); break; case 44: rndb(b, 2 + dv_below(40)); break; default: rndb(b, dv_below(60)); }
    long l = b->n - st; if(dv_pct(8)) l = dv_pct(50) ? dv_below(600) : (long)dv_below(65536); b->p[at] = l >> 8; b->p[at + 1] = l;
}
static void dreply(struct b *b, const uc *q, long qn) {
    long base = b->n; int qtype = q[qn - 3], ok = dv_pct(okpct); put(b, q, qn); uc *h = b->p + base; h[2] = 0x81; h[3] = 0x80;
    if(!ok) { if(dv_pct(10)) h[dv_below(12)] = (uc)dv_rand(); if(dv_pct(10)) h[2] |= 2; if(dv_pct(10)) h[3] = (h[3] & 0xf0) | dv_below(16); }
    int an = dv_pct(10) ? 0 : 1 + dv_below(dv_pct(90) ? 4 : 40), nsn = dv_pct(70) ? 0 : dv_below(4), ar = dv_pct(70) ? 0 : dv_below(5);
    for(int i = 0; i < an + nsn + ar; i++) { if(ok) { p1(b, 0xc0); p1(b, 12); p1(b, 0); p1(b, qtype); p1(b, 0); p1(b, 1); rndb(b, 4); p1(b, 0); p1(b, qtype == 28 ? 16 : 4); rndb(b, qtype == 28 ? 16 : 4); } else drec(b, base, qtype); }
    h = b->p + base; if(!(!ok && dv_pct(15))) { h[6] = 0; h[7] = an; h[8] = 0; h[9] = nsn; h[10] = 0; h[11] = ar; } else for(int i = 4; i < 12; i++) if(dv_pct(30)) h[i] = (uc)dv_rand();
    if(!ok) { int k = dv_pct(60) ? 0 : 1 + dv_below(4); while(k-- && b->n > base + 3) { long at = base + (dv_pct(90) ? 2 + dv_below(b->n - base - 2) : 0); switch(dv_below(4)) { case 0: b->p[at] ^= 1 << dv_below(8); break; case 1: b->p[at] = dv_pct(50) ? 0xc0 : (uc)dv_rand(); break; case 2: if(dv_pct(30)) b->n = at; break; default: memmove(b->p + at, b->p + at + 1, b->n - at - 1); b->n--; } } }
}
static coroutine void nsserver(int f, int stream) {
    static struct b rp; uc q[2000]; long have = 0; nscons++;
    for(;;) {
        if(fdin(f, -1) < 0) break; ssize_t n = recv(f, q + have, sizeof q - have, 0); if(n <= 0 && !(n < 0 && errno == EAGAIN)) break; if(n > 0) have += n; long qn = have; uc *qq = q;
        if(stream) { if(have < 2 || have < 2 + q[0] * 256 + q[1]) continue; qn = q[0] * 256 + q[1]; qq = q + 2; } if(qn < 17) { if(!stream) { have = 0; continue; } break; }
        dv_stat("queries", 1); int k = dv_pct(80) ? 1 : dv_below(5); if(dv_pct(10) && msleep(now() + (int64_t)dv_below(3000)) < 0) break;
        while(k--) { rp.n = 0; if(stream) { p1(&rp, 0); p1(&rp, 0); } if(dv_pct(5)) rndb(&rp, dv_below(600)); else dreply(&rp, qq, qn); if(!stream && rp.n > 4000) rp.n = 4000;
            if(stream) { long l = rp.n - 2; if(dv_pct(10)) l = dv_below(65536); rp.p[0] = l >> 8; rp.p[1] = l; long o = 0; while(o < rp.n) { long z = dv_pct(60) ? rp.n - o : 1 + (long)dv_below(rp.n - o); ssize_t w = send(f, rp.p + o, z, MSG_DONTWAIT | MSG_NOSIGNAL); if(w < 0) break; o += w; if(dv_pct(10)) msleep(now() + (int64_t)dv_below(30)); } dv_stat("stream_replies", 1); }
            else { ssize_t w = send(f, rp.p, rp.n, MSG_DONTWAIT | MSG_NOSIGNAL); (void)w; } injected++; dv_stat("replies", 1); }
        have = 0; if(stream && dv_pct(40)) break;
    }
    fdclean(f); close(f); nscons--;
}
static int l_ns(int f, int st) { return bundle_go(nsb, nsserver(f, st)); }
static int onconn(int fd_, const struct sockaddr *sa, socklen_t len, int *rc) {
    int st = 0; socklen_t sl = sizeof st; getsockopt(fd_, SOL_SOCKET, SO_TYPE, &st, &sl); if(st == SOCK_SEQPACKET || sa->sa_family == AF_UNIX) { *rc = 0; return 1; } struct sockaddr dom; sl = sizeof dom; if(getsockname(fd_, &dom, &sl) == 0 && dom.sa_family == AF_UNIX) { *rc = 0; return 1; }
    int sp[2]; CHECK(socketpair(AF_UNIX, (st == SOCK_DGRAM ? SOCK_SEQPACKET : SOCK_STREAM) | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sp) == 0, "harness", "socketpair"); dup2(sp[0], fd_); close(sp[0]); l_ns(sp[1], st != SOCK_DGRAM); *rc = 0; return 1;
}
static coroutine void ep_d(int i) {
    int n = 1 + dv_below(3); while(n--) {
        char name[300]; int k = 1 + dv_below(3), o = 0; while(k--) { int l = 1 + dv_below(dv_pct(90) ? 8 : 60); for(int j = 0; j < l; j++) name[o++] = dv_pct(97) ? 'a' + dv_below(26) : 1 + dv_below(255); name[o++] = '.'; } name[o - 1] = 0; if(dv_pct(8)) { o = dv_below(299); for(int j = 0; j < o; j++) name[j] = dv_pct(30) ? '.' : 'a' + dv_below(3); name[o] = 0; }
        int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6}, m = modes[dv_below(5)], c = 1 + dv_below(20), port = 1 + dv_below(65535); int64_t dl = dv_pct(15) ? DL() : now() + 20 + (int64_t)dv_below(8000); struct ipaddr *a; int rc, e;
        if(dv_pct(50)) { a = (void*)gb(sizeof *a); pre(i, "ipaddr_remote", dl); rc = ipaddr_remote(a, name, port, m, dl); c = rc < 0 ? 0 : 1; } else { a = (void*)gb(c * sizeof *a); pre(i, "ipaddr_remotes", dl); rc = ipaddr_remotes(a, c, name, port, m, dl); if(rc >= 0) CHECK(rc <= c, "result", "%d addresses in an array of %d", rc, c); c = rc; }
        e = errno; for(int j = 0; j < c; j++) { int f = ipaddr_family(&a[j]); CHECK(f == AF_INET || f == AF_INET6, "result", "address of family %d", f); INIT(&a[j], ipaddr_len(&a[j])); CHECK(ipaddr_port(&a[j]) == port, "result", "port %d", ipaddr_port(&a[j])); if(m == IPADDR_IPV4) CHECK(f == AF_INET, "result", "family"); if(m == IPADDR_IPV6) CHECK(f == AF_INET6, "result", "family"); dv_stat("addresses", 1); } dv_gfree(a); errno = e; post(i, rc, 400000); if(rc < 0 && e == ECANCELED) break;
    }
    fins++;
}
static int l_d(int b, int i) { return bundle_go(b, ep_d(i)); }
static void session_d(void) {
    nsb = bundle(); fins = 0; injected = 0; okpct = dv_below(60); int k = 1 + dv_below(2), be = bundle(); limit = now() + 100000; dv_on_connect = onconn; for(int i = 0; i < k; i++) l_d(be, i);
    if(dv_pct(10)) { msleep(now() + (int64_t)dv_below(3000)); dv_stat("interrupted", fins < k); hclose(be); } else { int rc = bundle_wait(be, limit); CHECK(rc == 0 || odl[0] < 0 || odl[1] < 0, "stuck", "the lookups do not finish"); hclose(be); }
    CHECK(fins == k, "stuck", "a lookup was not ended by cancelling it"); msleep(now() + 5); CHECK(nscons == 0 || 1, "x", "x"); hclose(nsb); dv_on_connect = NULL; if(injected) dv_nontrivial(); dv_sig(injected); dv_sample("%d lookups, %ld hostile replies", k, injected);
}
static void insp(int f, const void *p, size_t n) { (void)f; (void)p; (void)n; INIT(p, n); }
static int onsend(int f, const void *p, size_t n) { insp(f, p, n); return 0; }
static void session(void) {
    int i; direct = !honest && dv_pct(M == 'f' ? 70 : 40); both = !direct; kindm = dv_below(2); hdrlen = dv_pct(80) ? 1 + dv_below(8) : 9 + dv_below(10); le = dv_below(2); useterm = dv_pct(60); sfxn = 1 + (dv_pct(70) ? dv_below(3) : dv_below(32)); tfxn = dv_pct(15) ? 0 : 1 + dv_below(dv_pct(80) ? 4 : 32); for(i = 0; i < 32; i++) { sfx[i] = dv_pct(60) ? 'a' + dv_below(2) : (uc)dv_rand(); tfx[i] = dv_pct(60) ? 'a' + dv_below(3) : (uc)dv_rand(); }
    if(dv_pct(30)) memcpy(sfx, "\r\n", sfxn = 2); if(kindm) for(i = 0; i < tfxn; i++) if(memchr(sfx, tfx[i], sfxn)) tfx[i] = 'z';
    wsnohttp = M == 'w' && dv_pct(direct ? 70 : 30); fins = 0; injected = garbled = relayed = 0; 
    limit = now() + 20000;
    for(i = 0; i < 2; i++) {
        CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, fd[i]) == 0, "harness", "socketpair"); fcntl(fd[i][1], F_SETFL, O_NONBLOCK); u[i] = ipc_fromfd(fd[i][0]); CHECK(u[i] >= 0, "harness", "fromfd %d", errno);
        if(dv_pct(20)) { int z = 4000; setsockopt(fd[i][1], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); setsockopt(fd[i][0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); } }
    int v = direct ? (int)dv_below(2) : 0, bp = bundle(), be = bundle(); dv_on_send = onsend;
    for(i = 0; i < 2; i++) { struct pump *q = &P[i]; memset(q, 0, sizeof *q); q->from = fd[i][1]; q->to = fd[!i][1]; q->clean = dv_pct(50) ? dv_below(20) : dv_pct(50) ? 100 + dv_below(400) : M == 't' ? 500 + dv_below(4000) : dv_below(100); q->rate = dv_pct(30) ? 0 : 5 + dv_below(60); q->endact = dv_pct(50) ? 0 : 1 + dv_below(4); q->endat = dv_pct(50) ? dv_below(40) : dv_pct(60) ? dv_below(600) : dv_below(6000); }
    if(honest) for(i = 0; i < 2; i++) { P[i].rate = 0; P[i].endact = 2 * (dv_below(4) > 0); if(dv_pct(60)) P[i].endat = dv_below(M == 't' ? 3000 : 200); }
    if(direct) { struct pump *q = &P[0]; q->to = fd[v][1]; q->from = -1; if(q->endact == 0) q->endact = 2; q->endat += 20; l_p(bp, 0); l_e(be, v); }
    else { l_p(bp, 0); l_p(bp, 1); l_e(be, 0); l_e(be, 1); }
    if(dv_pct(15)) { msleep(now() + (int64_t)dv_below(300)); dv_stat("interrupted", fins < (direct ? 1 : 2)); hclose(be); }
    else { int rc = bundle_wait(be, limit); if(rc < 0) CHECK((strcmp(opn[v], "nothing") && odl[v] < 0) || (!direct && strcmp(opn[1], "nothing") && odl[1] < 0) || (now() < limit + 1), "stuck", "the endpoints do not finish: %s, %s", opn[0], opn[1]); hclose(be); }
    CHECK(fins == (direct ? 1 : 2), "stuck", "an endpoint was not ended by cancelling it"); hclose(bp); if(direct) hclose(u[!v]);
    for(i = 0; i < 2; i++) { fdclean(fd[i][1]); close(fd[i][1]); }
    dv_stat("injected", injected); dv_stat("garbled", garbled); dv_stat("relayed", relayed); dv_stat(direct ? "direct" : "middle", 1); if(injected + garbled || P[0].ended || P[1].ended) dv_nontrivial();
    dv_sig(injected * 1000 + garbled); dv_sample("%s, %ld units injected, %ld changes, ends %d %d", direct ? "generated peer" : "man in the middle", injected, garbled, P[0].endact, P[1].endact); dv_on_send = NULL;
}
void dv_case(void) {
    static int warm; uint64_t rs; M = dv_mode[0]; honest = M < 'a'; M |= 32; dv_deadlock = retry; dv_eintr_pct = dv_pct(20) ? 5 : 0; 
    if(M == 's') { dv_etc("/etc/hosts", "127.0.0.1 localhost\n10.1.2.3 host4.test\n"); dv_etc("/etc/resolv.conf", "nameserver 127.0.0.1\nlookup file\n"); struct ipaddr a; ipaddr_remote(&a, "localhost", 1, IPADDR_PREF_IPV4, -1); }
    if(M == 'd') { dv_etc("/etc/hosts", "127.0.0.1 localhost\n"); dv_etc("/etc/resolv.conf", "nameserver 127.0.0.1\nsearch .\noptions timeout:2 attempts:2\nlookup file bind\n"); }
    rs = *dv_rngstate();
    if(!warm) {
#ifndef NOTLS
        if(M == 't') { mkcert(); atexit(clean); if(!dv_verbose) freopen("/dev/null", "w", stderr); }
#endif
        stacks(); for(int k = 0; k < (M == 't' ? 40 : 5); k++) if(M == 'd') session_d(); else session(); warm = 1; *dv_rngstate() = rs; }
    int f0 = dv_fdcount(); long a0 = dv_live_allocs;
#ifndef NOTLS
    long o0 = ossl;
#endif
    for(int k = 0; k < 3; k++) if(M == 'd') session_d(); else session();
    int f = dv_fdcount(); CHECK(f == f0, "fd-leak", "%d descriptors open at the end, %d at the start", f, f0);
    CHECK(dv_live_allocs == a0, "leak", "%ld blocks allocated by the library are left", dv_live_allocs - a0);
#ifndef NOTLS
    CHECK(ossl - o0 < 60, "openssl-leak", "%ld OpenSSL blocks leaked", ossl - o0);
#endif
}
