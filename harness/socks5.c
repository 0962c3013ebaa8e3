/* P04: SOCKS5 client and proxy against each other and against a model-driven raw peer.
   Modes: a (library client and library proxy), c (library client, raw proxy), p (raw client, library proxy). */
#include "net.h"
#include <arpa/inet.h>
#include <netinet/in.h>
struct buf { unsigned char b[1200]; int n; };
static int u[2], tcp, whole, stop;
/* plan */
static char *user, *pass, host[320], pathost[320]; static int port, byname, pbyname, badarg, cmd, rep, useauth, accept_it, natyp; static struct ipaddr addr; static unsigned char abytes[16];
static int bk, bkat, deadl, cancelled; static int64_t dl;   /* bk: 0 none, 1 hang-up, 2 stall */
static struct buf greet, auth, req, reply, mrep, arep, tail, tail2; static int early;
static int cbn, cbu; static int crc, cerr, cfin, prc, perr, pfin, rawok, rawstage; static int64_t cend, pend;
static int retry(void) { return 1; }
static void put(struct buf *b, const void *p, int n) { memcpy(b->b + b->n, p, n); b->n += n; }
static void put1(struct buf *b, int c) { b->b[b->n++] = (unsigned char)c; }
static char *rnd(int n) { char *s = malloc(n + 1); for(int i = 0; i < n; i++) s[i] = (char)(dv_pct(80) ? 33 + dv_below(94) : 1 + dv_below(255)); s[n] = 0; return s; }
/* a wrong value for a byte that has to be v, often the next one */
static int off(int v) { int r = dv_below(4); return r == 0 ? (v + 1) & 255 : r == 1 ? (v + 255) & 255 : (int)dv_below(256); }
static int slen(int lo) { int r = dv_below(100); return r < 60 ? lo + (int)dv_below(16) : r < 75 ? 253 + (int)dv_below(3) : r < 95 ? lo + (int)dv_below(255) : lo; }
static int cap255(int n) { return n > 255 ? 255 : n; }
static void warmup(void) {
    struct ipaddr a; dv_etc("/etc/hosts", "127.0.0.1 localhost\n10.1.2.3 host4.test\n192.168.200.1 a.b.c.example\n"); dv_etc("/etc/resolv.conf", "nameserver 127.0.0.1\nlookup file\n");
    int rc = ipaddr_remote(&a, "localhost", 1, IPADDR_PREF_IPV4, -1); CHECK(rc == 0, "harness", "cannot resolve localhost: %d", errno);
    int p[2]; ipc_pair(p); char c; bsend(p[0], "a", 1, -1); brecv(p[1], &c, 1, -1); hclose(p[0]); hclose(p[1]); msleep(now() + 1);
}
/* destination; kind 1 IPv4, 4 IPv6, 3 name */
static struct { const char *name; const char *ip; } names[] = {{"localhost", "127.0.0.1"}, {"host4.test", "10.1.2.3"}, {"a.b.c.example", "192.168.200.1"}, {"1.2.3.4", "1.2.3.4"}, {"250.0.0.255", "250.0.0.255"}};
static void target(struct buf *b, int kind) {
    natyp = kind; put1(b, kind);
    if(kind == 3) { put1(b, (int)strlen(host)); put(b, host, (int)strlen(host)); }
    else put(b, abytes, kind == 1 ? 4 : 16);
    put1(b, port >> 8); put1(b, port & 255);
}
static void mkip(struct ipaddr *a, int v6, const unsigned char *p, int prt) {
    int rc = ipaddr_remote(a, v6 ? "::1" : "127.0.0.1", prt, v6 ? IPADDR_IPV6 : IPADDR_IPV4, -1); CHECK(rc == 0, "harness", "ipaddr_remote");
    if(v6) memcpy(&((struct sockaddr_in6*)a)->sin6_addr, p, 16); else memcpy(&((struct sockaddr_in*)a)->sin_addr, p, 4);
}
static int cb(const char *us, const char *pw) {
    cbn++; CHECK(us && pw, "callback", "NULL credentials");
    CHECK(user && pass && !strcmp(us, user) && !strcmp(pw, pass), "callback", "the callback got '%.40s'/'%.40s' instead of '%.40s'/'%.40s'", us, pw, user, pass);
    return accept_it ? 1 + (int)dv_below(3) : 0;
}
/* ---- library sides ---- */
static coroutine void client(void) {
    if(byname) crc = socks5_client_connectbyname(u[0], user, pass, badarg == 3 ? NULL : host, port, dl);
    else crc = socks5_client_connect(u[0], user, pass, badarg == 3 ? NULL : &addr, dl);
    cerr = errno; cfin = 1; cend = dv_vt; dv_log("client -> %d %s", crc, crc < 0 ? strerror(cerr) : "");
}
static struct ipaddr raddr; static int repv6, sr, srerr, got; static char ghost[300]; static struct ipaddr gaddr; static int gport, autherr, authrc, badrep, badrepval;
static coroutine void proxy(void) {
    authrc = socks5_proxy_auth(u[1], useauth ? cb : NULL, dl); autherr = errno; dv_log("proxy_auth -> %d %s", authrc, authrc < 0 ? strerror(autherr) : "");
    if(authrc < 0) { prc = -1; perr = autherr; goto end; }
    memset(ghost, 0x5a, sizeof ghost); gport = -1;
    if(pbyname) got = socks5_proxy_recvcommandbyname(u[1], ghost, &gport, dl); else got = socks5_proxy_recvcommand(u[1], &gaddr, dl);
    prc = got; perr = errno; dv_log("recvcommand%s -> %d %s", pbyname ? "byname" : "", got, got < 0 ? strerror(perr) : "");
    if(got < 0) goto end;
    if(badrep) { int r = socks5_proxy_sendreply(u[1], badrepval, &raddr, dl); CHECK(r == -1 && errno == EINVAL, "bad-reply", "sendreply(%d) returned %d errno %d", badrepval, r, errno); dv_stat("bad_args", 1); }
    sr = socks5_proxy_sendreply(u[1], rep, &raddr, dl); srerr = errno; if(sr < 0) { prc = -1; perr = srerr; }
end: pfin = 1; pend = dv_vt;
}
/* ---- raw sides ---- */
static int left;   /* bytes the raw peer still sends before breaking off */
static int push(struct buf *b) {
    int n = b->n, o = 0; if(bk && left < n) n = left;
    while(o < n) { int k = whole || dv_pct(50) ? n - o : 1 + (int)dv_below(n - o < 40 ? n - o : 40); if(bsend(u[stop], b->b + o, k, -1) < 0) return -1; o += k; if(dv_pct(8) && msleep(now() + dv_below(4)) < 0) return -1; }
    left -= n;
    if(n < b->n) return -2;
    return 0;
}
static int pull(struct buf *b, const char *what) {
    unsigned char w[1200]; int o = 0; while(o < b->n) {
        int k = dv_pct(70) ? b->n - o : 1 + (int)dv_below(b->n - o); if(brecv(u[stop], w + o, k, -1) < 0) return -1;
        if(memcmp(w + o, b->b + o, k)) for(int i = o; i < o + k; i++) CHECK(w[i] == b->b[i], "wire", "byte %d of the %s is 0x%02x, expected 0x%02x", i, what, w[i], b->b[i]);
        o += k;
    }
    dv_stat("wire_checked", 1); return 0;
}
static void breakoff(void) {
    unsigned char c;
    if(bk == 1) { hclose(u[stop]); u[stop] = -1; dv_stat("hangups", 1); return; }
    while(brecv(u[stop], &c, 1, -1) == 0); dv_stat("stalls", 1);
}
static coroutine void rawproxy(int fails) {
    int r; static struct buf all; all.n = 0; stop = 1; (void)fails;
    if(early) { put(&all, mrep.b, mrep.n); put(&all, arep.b, arep.n); put(&all, reply.b, reply.n); put(&all, tail.b, tail.n); r = push(&all); if(r == -2) { breakoff(); return; } if(r) return; }
    if(pull(&greet, "greeting")) return; rawstage = 1;
    if(!early) { r = push(&mrep); if(r == -2) { breakoff(); return; } if(r) return; }
    if(auth.n) { if(pull(&auth, "authentication")) return; rawstage = 2; if(!early) { r = push(&arep); if(r == -2) { breakoff(); return; } if(r) return; } }
    if(req.n) { if(pull(&req, "request")) return; rawstage = 3; if(!early) { put(&all, reply.b, reply.n); put(&all, tail.b, tail.n); r = push(&all); if(r == -2) { breakoff(); return; } if(r) return; } }
    if(tail2.n && pull(&tail2, "data after the handshake")) return;
    rawok = 1;
}
static coroutine void rawclient(void) {
    int r; static struct buf all; all.n = 0; stop = 0;
    if(early) { put(&all, greet.b, greet.n); put(&all, auth.b, auth.n); put(&all, req.b, req.n); put(&all, tail.b, tail.n); r = push(&all); if(r == -2) { breakoff(); return; } if(r) return; }
    else { r = push(&greet); if(r == -2) { breakoff(); return; } if(r) return; }
    if(mrep.n && pull(&mrep, "method selection")) return; rawstage = 1;
    if(auth.n) { if(!early) { r = push(&auth); if(r == -2) { breakoff(); return; } if(r) return; } if(arep.n && pull(&arep, "authentication reply")) return; rawstage = 2; }
    if(req.n) { if(!early) { put(&all, req.b, req.n); put(&all, tail.b, tail.n); r = push(&all); if(r == -2) { breakoff(); return; } if(r) return; } if(reply.n && pull(&reply, "reply")) return; rawstage = 3; }
    if(tail2.n && pull(&tail2, "data after the handshake")) return;
    rawok = 1;
}
static coroutine void conn(struct ipaddr *a) { u[0] = tcp_connect(a, -1); }
static int l_conn(struct ipaddr *a) { return go(conn(a)); }
static int l_c(void) { return go(client()); }
static int l_p(void) { return go(proxy()); }
static int l_rp(void) { return go(rawproxy(0)); }
static int l_rc(void) { return go(rawclient()); }
static void pair(void) {
    tcp = dv_pct(6); dv_grace = tcp;
    if(tcp) { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); int l = tcp_listen(&a, 5); int c = l_conn(&a); u[1] = tcp_accept(l, NULL, -1); bundle_wait(c, -1); hclose(c); hclose(l); }
    else { int p[2]; int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); u[0] = p[0]; u[1] = p[1]; }
    if(!whole && dv_pct(40)) dv_short_pct = dv_below(100);
    if(dv_pct(20)) dv_again_pct = dv_below(40);
    if(dv_pct(30)) dv_eintr_pct = dv_below(30);
}
static void mkcred(void) {
    if(dv_pct(40)) { if(dv_pct(20)) user = rnd(cap255(slen(0))); else if(dv_pct(20)) pass = rnd(cap255(slen(0))); }
    else { user = rnd(cap255(slen(dv_pct(90)))); pass = rnd(cap255(slen(dv_pct(90)))); }
}
static void mktarget(int libname) {
    port = dv_pct(20) ? 65535 : dv_pct(20) ? 1 : 1 + (int)dv_below(65535);
    for(int i = 0; i < 16; i++) abytes[i] = (unsigned char)dv_rand();
    int k = dv_below(3), v6 = k == 1;
    pathost[0] = 0;
    if(libname) {
        if(k < 2) inet_ntop(v6 ? AF_INET6 : AF_INET, abytes, host, 300);
        else if(!pbyname) { int i = dv_below(3); strcpy(host, names[i].name); strcpy(pathost, names[i].ip); }
        else { char *h; do { free(0); h = rnd(cap255(slen(1))); struct in_addr a4; struct in6_addr a6; if(inet_pton(AF_INET, h, &a4) != 1 && inet_pton(AF_INET6, h, &a6) != 1) break; free(h); } while(1); strcpy(host, h); free(h); }
        target(&req, k == 2 ? 3 : v6 ? 4 : 1);
    } else { k = dv_below(2); v6 = k; mkip(&addr, v6, abytes, port); target(&req, v6 ? 4 : 1); inet_ntop(v6 ? AF_INET6 : AF_INET, abytes, host, 300); }
}
static void hdr(struct buf *b, int x) { put1(b, 5); put1(b, x); put1(b, 0); }
static const int rerr[] = {0, EIO, EACCES, ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, ETIMEDOUT, EOPNOTSUPP, EAFNOSUPPORT};
static int reperr(int r) { return r <= 8 ? rerr[r] : EPROTO; }
static void mkreplyaddr(int allownames) {
    unsigned char a[16]; for(int i = 0; i < 16; i++) a[i] = (unsigned char)dv_rand();
    int k = dv_below(allownames ? 3 : 2), p = dv_below(65536);
    if(k == 2) { char *n = rnd(cap255(slen(0))); int l = strlen(n); put1(&reply, 3); put1(&reply, l); put(&reply, n, l); free(n); }
    else { put1(&reply, k ? 4 : 1); put(&reply, a, k ? 16 : 4); if(!allownames) mkip(&raddr, k, a, p); }
    put1(&reply, p >> 8); put1(&reply, p & 255);
}
static void mktails(void) { for(int i = 0, n = dv_pct(70) ? dv_below(60) : 0; i < n; i++) put1(&tail, (int)dv_rand()); for(int i = 0, n = dv_pct(70) ? dv_below(60) : 0; i < n; i++) put1(&tail2, (int)dv_rand()); }
/* the library's end of the stream right after the handshake */
static void exchange(int s) {
    unsigned char w[100]; int rc;
    if(tail.n) { rc = brecv(s, w, tail.n, -1); CHECK(rc == 0 && !memcmp(w, tail.b, tail.n), "position", "the stream is not positioned right after the handshake (errno %d)", rc ? errno : 0); }
    if(tail2.n) { rc = bsend(s, tail2.b, tail2.n, -1); CHECK(rc == 0, "position", "sending after the handshake failed with errno %d", errno); }
    dv_stat("exchanged", 1);
}
static void greeting(int both) { put1(&greet, 5); put1(&greet, both ? 2 : 1); put1(&greet, 0); if(both) put1(&greet, 2); }
static void mkauth(void) { put1(&auth, 1); put1(&auth, (int)strlen(user)); put(&auth, user, (int)strlen(user)); put1(&auth, (int)strlen(pass)); put(&auth, pass, (int)strlen(pass)); }
static void agree(void) {
    int both, want, hc, hp, rc;
    byname = dv_pct(60); pbyname = dv_pct(60); mkcred(); both = user && pass; useauth = dv_pct(60); accept_it = dv_pct(75);
    hdr(&req, 1); mktarget(byname); rep = dv_pct(60) ? 0 : dv_below(9); badrep = dv_pct(15); badrepval = dv_pct(50) ? -1 - (int)dv_below(300) : 9 + (int)dv_below(600); hdr(&reply, rep); mkreplyaddr(0); mktails();
    want = useauth && (!both || !accept_it) ? EACCES : reperr(rep);
    pair(); dl = tcp || dv_pct(50) ? -1 : now() + 100000;
    int cancel = dv_pct(8);
    if(dv_pct(50)) { hc = l_c(); hp = l_p(); } else { hp = l_p(); hc = l_c(); }
    if(cancel) {   /* cancel one side, hang up, and let the other one find out */
        int v = dv_below(2), vb = v ? hp : hc, ob = v ? hc : hp; msleep(now() + dv_below(3)); for(int i = dv_below(40); i; i--) yield();
        int was = v ? pfin : cfin; hclose(vb); CHECK(v ? pfin : cfin, "cancel", "a cancelled operation did not return"); int r1 = v ? prc : crc, e1 = v ? perr : cerr;
        if(!was) CHECK(r1 >= 0 || e1 == ECANCELED || (e1 == EACCES) || (!v && want && e1 == want), "cancel", "the cancelled %s gave %d errno %d", v ? "proxy" : "client", r1, e1);
        if(!was && r1 < 0 && e1 == ECANCELED) dv_stat("cancelled", 1);
        hclose(u[v]); u[v] = -1; rc = bundle_wait(ob, -1); CHECK(rc == 0, "stuck", "the %s does not notice the hang-up", v ? "client" : "proxy"); hclose(ob);
        int r2 = v ? crc : prc, e2 = v ? cerr : perr; CHECK(r2 >= 0 || e2 == EPIPE || e2 == ECONNRESET || e2 == EACCES || (v && want && e2 == want), "hangup", "the %s got %d errno %d when its peer was cancelled", v ? "client" : "proxy", r2, e2);
        if(v && r2 == 0) CHECK(want == 0 && r1 > 0, "hangup", "the client succeeded although the proxy did not");
        return;
    }
    rc = bundle_wait(hc, -1); CHECK(rc == 0, "stuck", "the client does not finish"); rc = bundle_wait(hp, -1); CHECK(rc == 0, "stuck", "the proxy does not finish"); hclose(hc); hclose(hp);
    CHECK(want ? crc == -1 && cerr == want : crc == 0, "client-result", "client got %d errno %d, expected errno %d (reply %d)", crc, cerr, want, rep);
    CHECK(cbn == (useauth && both), "callback", "the callback was called %d times", cbn);
    if(useauth && (!both || !accept_it)) { CHECK(authrc == -1 && autherr == EACCES, "proxy-auth", "proxy_auth of a client to be refused returned %d errno %d", authrc, autherr); dv_stat("auth_refused", 1); return; }
    CHECK(authrc == 0, "proxy-auth", "proxy_auth returned %d errno %d", authrc, autherr);
    CHECK(got == 1, "command", "recvcommand returned %d errno %d", got, perr); CHECK(sr == 0, "sendreply", "sendreply failed with errno %d", srerr);
    if(useauth) dv_stat("auth_ok", 1);
    if(pbyname) { CHECK(!strcmp(ghost, host) && gport == port, "target", "the proxy got '%.60s' port %d instead of '%.60s' port %d", ghost, gport, host, port); for(int i = 256; i < 300; i++) CHECK(ghost[i] == 0x5a, "overrun", "written past 256 bytes of the host"); }
    else { char b[64]; const char *w = pathost[0] ? pathost : host; ipaddr_str(&gaddr, b); CHECK(!strcmp(b, w) && ipaddr_port(&gaddr) == port, "target", "the proxy got address %s port %d instead of %s port %d", b, ipaddr_port(&gaddr), w, port); }
    dv_stat(natyp == 1 ? "ipv4" : natyp == 4 ? "ipv6" : "name", 1);
    /* both ends right after the handshake */
    char x[60], y[60]; patfill(x, 60, 1, 0);
    if(!want) for(int i = 0; i < 2; i++) { rc = bsend(u[i], x, 60, -1); CHECK(rc == 0, "position", "sending failed"); rc = brecv(u[1 - i], y, 60, -1); CHECK(rc == 0 && !memcmp(x, y, 60), "position", "data after the handshake is wrong"); }
    dv_nontrivial(); dv_stat("sessions", 1);
}
static void rawproxycase(void) {
    int want = 0, both, hc, hr, rc, m, i;
    byname = dv_pct(65); pbyname = 1; mkcred();
    if(dv_pct(6)) { badarg = 1 + (int)dv_below(5); }
    hdr(&req, 1); mktarget(byname);
    if(badarg == 1) { free(user); user = rnd(256 + (int)dv_below(60)); if(!pass && dv_pct(70)) pass = rnd(3); want = EINVAL; }
    if(badarg == 2) { free(pass); pass = rnd(256 + (int)dv_below(60)); if(!user && dv_pct(70)) user = rnd(3); want = EINVAL; }
    if(badarg == 3) want = EINVAL;
    if(badarg == 4) { if(byname) { if(dv_pct(50)) host[0] = 0; else { memset(host, 'x', 310); host[256 + dv_below(50)] = 0; } want = EINVAL; } else badarg = 0; }
    if(badarg == 5) { if(byname) { int b = dv_below(3); port = b == 0 ? 0 : b == 1 ? -1 - (int)dv_below(70000) : 65536 + (int)dv_below(100000); want = EINVAL; } else badarg = 0; }
    both = user && pass; greeting(both);
    m = both && dv_pct(60) ? 2 : 0;
    int ver = 5; if(!badarg) { if(dv_pct(4)) m = 0xff; else if(dv_pct(4)) m = dv_pct(50) ? 2 : (int)dv_below(256); if(dv_pct(3)) ver = off(5); }
    put1(&mrep, ver); put1(&mrep, m);
    if(!want && ver != 5) want = EPROTO; if(!want && m == 0xff) want = EACCES; if(!want && m != 0 && !(m == 2 && both)) want = EPROTO;
    if(want && !badarg) req.n = 0;
    if(m == 2 && both && ver == 5 && badarg != 1 && badarg != 2) {
        mkauth(); int v = 1, st = 0; if(!badarg) { if(dv_pct(6)) st = 1 + dv_below(255); if(dv_pct(3)) v = off(1); }
        put1(&arep, v); put1(&arep, st); if(!want && v != 1) want = EPROTO; if(!want && st) want = EACCES; if(want && !badarg) req.n = 0;
    }
    int success = 0, bad4 = 0;
    if(!want || badarg) {
        rep = dv_pct(65) ? 0 : dv_pct(80) ? dv_below(9) : dv_pct(40) ? 9 : dv_below(256); hdr(&reply, rep); mkreplyaddr(1);
        int alt = 0; if(reply.b[3] == 3 && memchr(reply.b + 5, 0, reply.b[4])) alt = 1; (void)alt;
        if(!badarg && dv_pct(6)) { i = dv_below(3); if(i == 0) reply.b[0] = (unsigned char)off(5); else if(i == 1) reply.b[2] = (unsigned char)off(0); else reply.b[3] = (unsigned char)(dv_pct(50) ? dv_below(256) : 2);
            if(reply.b[0] != 5 || reply.b[2] != 0 || (reply.b[3] != 1 && reply.b[3] != 3 && reply.b[3] != 4)) want = EPROTO; else if(i == 2) reply.n = 4, want = EPROTO, reply.b[3] = 0; }
        bad4 = want == EPROTO; if(!want) want = reperr(rep);
        if(!want) { success = 1; mktails(); }
    }
    int total = mrep.n + arep.n + reply.n + tail.n; early = dv_pct(20);
    if(!badarg && dv_pct(25)) { bk = 1 + (int)dv_below(2); bkat = dv_below(total); }
    int needed = mrep.n + arep.n + (reply.n ? bad4 ? 4 : reply.n : 0); left = bkat;
    deadl = (bk == 2 && bkat < needed) || dv_pct(15); int cancel = deadl && bk == 2 && bkat < needed && dv_pct(30); int64_t d = 0;
    pair(); if(tcp && bk == 2) whole = 1;
    dl = -1; if(deadl && !cancel && (!tcp || (bk == 2 && bkat < needed))) { d = bk == 2 && bkat < needed ? (int64_t)dv_below(60) : 100000; dl = now() + d; }
    if(dv_pct(50)) { hc = l_c(); hr = l_rp(); } else { hr = l_rp(); hc = l_c(); }
    if(cancel) { msleep(now() + 20 + dv_below(50)); if(tcp) msleep(now() + 100); CHECK(!cfin || bkat >= needed, "early-result", "client gave %d errno %d before the handshake was complete", crc, cerr); hclose(hc); CHECK(cfin && crc == -1 && cerr == ECANCELED, "cancel", "cancelled client gave %d errno %d", crc, cerr); dv_stat("cancelled", 1); hc = -1; }
    else { rc = bundle_wait(hc, -1); CHECK(rc == 0, "stuck", "the client does not finish"); hclose(hc); }
    if(!cancel) {
        if(bk && bkat < needed && !badarg) {
            if(bk == 1) CHECK(crc == -1 && (cerr == EPIPE || cerr == ECONNRESET || (cerr == want && want)), "hangup", "proxy hung up after %d of %d bytes and the client got %d errno %d", bkat, needed, crc, cerr);
            else CHECK(crc == -1 && (cerr == ETIMEDOUT && (tcp || (cend >= dl && cend <= dl + 2)) || (want == EPROTO && cerr == EPROTO)), "deadline", "proxy stalled after %d of %d bytes and the client got %d errno %d at %lld, deadline %lld", bkat, needed, crc, cerr, (long long)cend, (long long)dl);
            dv_stat("broken_off", 1);
        } else if(!(bk == 1 && crc < 0 && (cerr == EPIPE || cerr == ECONNRESET))) CHECK(want ? crc == -1 && cerr == want : crc == 0, "client-result", "client got %d errno %d, expected errno %d (method %d, reply %d, bad argument %d)", crc, cerr, want, m, rep, badarg);
        if(badarg) dv_stat("bad_args", 1); else if(want) dv_stat("refused", 1);
        if(crc == 0) {
            CHECK(rawstage == 3 || early, "order", "client succeeded before its request was sent");
            if(success && (!bk || bkat >= total)) { exchange(u[0]); rc = bundle_wait(hr, -1); CHECK(rc == 0 && rawok, "wire-short", "the client did not send everything"); dv_nontrivial(); dv_stat("sessions", 1); }
        }
    }
    if(u[0] >= 0) { hclose(u[0]); u[0] = -1; }
    rc = bundle_wait(hr, -1); CHECK(rc == 0, "stuck", "the raw proxy does not finish"); hclose(hr);
}
static void rawclientcase(void) {
    int want = 0, i, hp, hr, rc, needed = 0, hasna = 0, hasup = 0, truncated = 0;
    useauth = dv_pct(60); accept_it = dv_pct(80); pbyname = dv_pct(60);
    /* greeting */
    int nm = dv_pct(60) ? 1 + (int)dv_below(3) : dv_pct(10) ? 0 : (int)dv_below(256), ver = dv_pct(3) ? off(5) : 5;
    put1(&greet, ver); put1(&greet, nm); for(i = 0; i < nm; i++) { int mth = dv_pct(nm < 5 ? 70 : 3) ? (dv_pct(50) ? 0 : 2) : (int)dv_below(256); put1(&greet, mth); if(mth == 0) hasna = 1; if(mth == 2) hasup = 1; }
    if(ver != 5) { want = EPROTO; needed = 2; goto go; }
    needed = greet.n;
    if(useauth ? !hasup : !hasna) { want = EACCES; put1(&mrep, 5); put1(&mrep, 0xff); goto go; }
    put1(&mrep, 5); put1(&mrep, useauth ? 2 : 0);
    int nulcred = 0;
    if(useauth) {
        user = rnd(cap255(slen(0))); pass = rnd(cap255(slen(0))); mkauth();
        if(dv_pct(4)) { auth.b[0] = (unsigned char)off(1); if(auth.b[0] != 1) { want = EPROTO; needed += 2; goto go; } }
        if(dv_pct(4)) { int ul = strlen(user), pl = strlen(pass); if(ul && dv_pct(50)) auth.b[2 + dv_below(ul)] = 0, nulcred = 1; else if(pl) auth.b[3 + ul + dv_below(pl)] = 0, nulcred = 1; }
        needed += auth.n; put1(&arep, 1);
        if(nulcred || !accept_it) { put1(&arep, 255); want = EACCES; goto go; }
        put1(&arep, 0);
    }
    cmd = dv_pct(88) ? 1 + (int)dv_below(3) : dv_pct(60) ? (dv_pct(60) ? 4 : 0) : (int)dv_below(256); hdr(&req, cmd);
    int k = dv_below(3); port = dv_below(65536); for(i = 0; i < 16; i++) abytes[i] = (unsigned char)dv_rand();
    pathost[0] = 0;
    if(k < 2) { inet_ntop(k ? AF_INET6 : AF_INET, abytes, host, 300); target(&req, k ? 4 : 1); }
    else { if(pbyname) { char *h = rnd(cap255(slen(1))); strcpy(host, h); free(h); } else { i = dv_below(5); strcpy(host, names[i].name); strcpy(pathost, names[i].ip); } target(&req, 3); }
    if(dv_pct(6)) {
        i = dv_below(4);
        if(i == 0) req.b[0] = (unsigned char)off(5); else if(i == 1) req.b[2] = (unsigned char)off(0); else if(i == 2) { req.b[3] = (unsigned char)(dv_pct(50) ? (int[]){0, 2, 5}[dv_below(3)] : (int)(5 + dv_below(250))); } else if(k == 2) req.b[5 + dv_below(req.b[4])] = 0, truncated = 1;
        if(truncated || req.b[0] != 5 || req.b[2] != 0 || (req.b[3] != 1 && req.b[3] != 3 && req.b[3] != 4)) { want = EPROTO; needed += truncated ? req.n : 4; goto go; }
    }
    needed += req.n;
    if(cmd < 1 || cmd > 3) { want = EPROTO; goto go; }
    rep = dv_pct(60) ? 0 : dv_below(9); badrep = dv_pct(15); badrepval = dv_pct(50) ? -1 - (int)dv_below(300) : 9 + (int)dv_below(600); hdr(&reply, rep); mkreplyaddr(0); mktails();
go:;
    int total = greet.n + auth.n + req.n + tail.n; early = dv_pct(30);
    if(dv_pct(25)) { bk = 1 + (int)dv_below(2); bkat = dv_below(total); }
    left = bkat; pair(); int short_ = bk && bkat < needed; int cancel = short_ && bk == 2 && dv_pct(30);
    dl = -1; if(short_ && bk == 2 && !cancel) dl = now() + dv_below(60); else if(!tcp && dv_pct(20)) dl = now() + 100000;
    if(dv_pct(50)) { hp = l_p(); hr = l_rc(); } else { hr = l_rc(); hp = l_p(); }
    if(cancel) { msleep(now() + 20 + dv_below(50)); if(tcp) msleep(now() + 100); int m2 = want && pfin; CHECK(!pfin || m2, "early-result", "proxy finished with %d errno %d before the handshake was complete", prc, perr); hclose(hp); if(!m2) CHECK(pfin && prc == -1 && perr == ECANCELED, "cancel", "cancelled proxy gave %d errno %d", prc, perr); dv_stat("cancelled", 1); goto out; }
    rc = bundle_wait(hp, -1); CHECK(rc == 0, "stuck", "the proxy does not finish"); hclose(hp);
    if(short_) {
        if(bk == 1) CHECK(prc == -1 && (perr == EPIPE || perr == ECONNRESET || (want && perr == want)), "hangup", "client hung up after %d of %d bytes and the proxy got %d errno %d", bkat, needed, prc, perr);
        else CHECK(prc == -1 && (perr == ETIMEDOUT && (tcp || (pend >= dl && pend <= dl + 2)) || (want && perr == want)), "deadline", "client stalled after %d of %d bytes and the proxy got %d errno %d at %lld, deadline %lld", bkat, needed, prc, perr, (long long)pend, (long long)dl);
        dv_stat("broken_off", 1); goto out;
    }
    if(want) { CHECK(prc == -1 && (perr == want || (bk == 1 && (perr == EPIPE || perr == ECONNRESET))), "proxy-result", "proxy got %d errno %d, expected errno %d", prc, perr, want); dv_stat("refused", 1);
        if(want == EACCES && !bk) { rc = bundle_wait(hr, tcp ? -1 : now() + 1000); CHECK(rc == 0 && rawok, "refusal-unsent", "the refusal was not sent to the client"); }
        goto out; }
    if(bk == 1 && bkat < total) { goto out; }
    CHECK(prc == cmd, "command", "recvcommand returned %d errno %d, expected %d", prc, perr, cmd);
    CHECK(cbn == useauth, "callback", "the callback was called %d times", cbn);
    if(pbyname) { CHECK(!strcmp(ghost, host) && gport == port, "target", "the proxy got '%.60s' port %d instead of '%.60s' port %d", ghost, gport, host, port); for(i = 256; i < 300; i++) CHECK(ghost[i] == 0x5a, "overrun", "written past 256 bytes of the host"); }
    else { char b[64]; const char *w = pathost[0] ? pathost : host; ipaddr_str(&gaddr, b); CHECK(!strcmp(b, w) && ipaddr_port(&gaddr) == port, "target", "the proxy got address %s port %d instead of %s port %d", b, ipaddr_port(&gaddr), w, port); }
    dv_stat(natyp == 1 ? "ipv4" : natyp == 4 ? "ipv6" : "name", 1);
    if(!bk || bkat >= total) { exchange(u[1]); rc = bundle_wait(hr, -1); CHECK(rc == 0 && rawok, "wire-short", "the proxy did not send everything"); dv_nontrivial(); dv_stat("sessions", 1); }
out:
    if(u[1] >= 0) { hclose(u[1]); u[1] = -1; }
    rc = bundle_wait(hr, -1); CHECK(rc == 0, "stuck", "the raw client does not finish"); hclose(hr);
}
void dv_case(void) {
    static int warm; if(!warm) { warmup(); warm = 1; }
    int fd0 = dv_fdcount(); dv_deadlock = retry;
    user = pass = NULL; host[0] = 0; badarg = cmd = rep = bk = bkat = deadl = early = cbn = cfin = pfin = rawok = rawstage = badrep = left = natyp = 0; crc = prc = cerr = perr = sr = got = authrc = 0; dl = -1; whole = dv_pct(30);
    greet.n = auth.n = req.n = reply.n = mrep.n = arep.n = tail.n = tail2.n = 0;
    if(dv_mode[0] == 'a') agree(); else if(dv_mode[0] == 'c') rawproxycase(); else rawclientcase();
    for(int i = 0; i < 2; i++) if(u[i] >= 0) hclose(u[i]);
    dv_sig(crc * 7 + cerr + prc * 3 + perr + rep * 100 + port + natyp); dv_sig(bk * 1000 + bkat); dv_sig((user ? strlen(user) : 999) * 1000 + (pass ? strlen(pass) : 999)); dv_sig(early + tcp * 2 + byname * 4 + pbyname * 8 + useauth * 16);
    dv_sample("user %d pass %d bytes, target %s port %d, reply %d, break %d at %d", user ? (int)strlen(user) : -1, pass ? (int)strlen(pass) : -1, host, port, rep, bk, bkat);
    free(user); free(pass); user = pass = NULL;
    if(dv_pct(3)) {   /* wrong kinds of sockets */
        int p[2]; ipc_pair(p); int m = prefix_attach(p[0], 2, 0); struct ipaddr a; char h[256]; int pt, rc; mkip(&a, 0, (const unsigned char*)"\1\2\3\4", 5);
        switch(dv_below(6)) { case 0: rc = socks5_client_connect(m, NULL, NULL, &a, 0); break; case 1: rc = socks5_client_connectbyname(m, NULL, NULL, "a", 1, 0); break; case 2: rc = socks5_proxy_auth(m, NULL, 0); break; case 3: rc = socks5_proxy_recvcommand(m, &a, 0); break; case 4: rc = socks5_proxy_recvcommandbyname(m, h, &pt, 0); break; default: rc = socks5_proxy_sendreply(m, 0, &a, 0); }
        CHECK(rc == -1 && errno == ENOTSUP, "wrong-kind", "a SOCKS5 function on a message socket returned %d errno %d", rc, errno); hclose(m); hclose(p[1]); dv_stat("wrong_kinds", 1);
    }
    int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
