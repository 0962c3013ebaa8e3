/* R04: random programs whose every observable is recorded; run with the same random numbers in every configuration.
   Each worker starts its operations at times of its own residue class, so that no result depends on the order in which
   simultaneous events of different descriptors are reported, which is not specified.
   Modes: c (channels, coroutines, timers), n (descriptors, streams, messages as well), a (addresses, lists, handles, bad arguments). */
#include "net.h"
#define DILL_H2
#include "libdillimpl.h"
#include <fcntl.h>
#include <arpa/inet.h>
enum { W = 12, SLOT = 13 };
static int nw, ch[6][2], nch, pr[4][2], npr, prk[4], rawfd[3][2]; static uint64_t tr[60000]; static int ntr, own[60000]; static long steps; static int ended, ord;
static int retry(void) { return 1; }
static void rec(int w, const char *what, int64_t a, int64_t b) {
    int64_t v[4] = {now() - 1000000, a, b, ord}; tr[w] = dv_hash(what, strlen(what), tr[w]); tr[w] = dv_hash(v, ord < 0 ? 24 : 32, tr[w]); if(ord >= 0) ord++;
    dv_log("w%d %lld %s %lld %lld", w, (long long)v[0], what, (long long)a, (long long)b); steps++; }
static void res(int w, const char *what, int64_t rc) { int e = errno; rec(w, what, rc, rc < 0 ? e : 0); if(rc >= 0) dv_stat("succeeded", 1); else if(e == ETIMEDOUT) dv_stat("timed_out", 1); else if(e == ECANCELED) dv_stat("cancelled", 1); else dv_stat("refused", 1); errno = e; }
static void data(int w, const void *p, size_t n) { tr[w] = dv_hash(p, n, tr[w]); }
static int slot(int w) { int64_t t = now(), d = (w - t % SLOT + SLOT) % SLOT; if(d == 0) d = SLOT; return msleep(t + d); }
static int64_t DL(int w) { int r = dv_below(10); int64_t t = now(); if(r < 1) return -1; if(r < 2) return 0; int64_t k = dv_below(8); return t - (t - own[w]) % SLOT + SLOT * k; (void)w; }
static int op(int w, int depth, int64_t life);
/* children have traces of their own: the order in which several of them end may be that of descriptor events */
static coroutine void child(int w, int depth, int64_t life) { rec(w, "child", depth, 0); op(w, depth + 1, life); rec(w, "childend", depth, 0); }
static int kid(int w) { CHECK(ntr < 60000, "harness", "traces"); own[ntr] = own[w]; tr[ntr] = 0x5a; return ntr++; }
static int l_child(int b, int w, int d, int64_t l) { int k = kid(w); return bundle_go(b, child(k, d, l)); }
static int l_child1(int w, int d, int64_t l) { int k = kid(w); return go(child(k, d, l)); }
static coroutine void quick(int w, int n) { for(int i = 0; i < n; i++) { rec(w, "quick", n, i); if(yield() < 0) { rec(w, "quickc", n, errno); return; } } }
static int l_quick(int b, int w, int n) { return bundle_go(b, quick(w, n)); }
static int hdone_(int h) { errno = ENOTSUP; return h < 0 ? -1 : prefix_detach(-1); }
static int net(int w) {
    int k = dv_below(14), p = dv_below(npr), s = dv_below(2), rc; int64_t dl = DL(w); char b[4000]; long n = dv_pct(70) ? 1 + dv_below(60) : 1 + dv_below(3900); int h = pr[p][s];
    switch(k) {
    case 0: case 1: if(prk[p] == 0) { memset(b, 'a' + n % 26, n); rc = bsend(h, b, n, dl); res(w, "bsend", rc); } else { memset(b, 'a' + n % 26, n); rc = msend(h, b, n % 250, dl); res(w, "msend", rc); } break;
    case 2: case 3: memset(b, 0, sizeof b); if(prk[p] == 0) { rc = brecv(h, b, n, dl); res(w, "brecv", rc); if(rc == 0) data(w, b, n); } else { ssize_t z = mrecv(h, b, dv_pct(80) ? 4000 : n, dl); res(w, "mrecv", z); if(z >= 0) data(w, b, z); } break;
    case 4: if(dv_pct(20)) { if(prk[p] == 0) rc = ipc_done(h, dl); else if(prk[p] == 3) rc = term_done(h, dl); else if(prk[p] == 4) rc = http_done(h, dl); else rc = hdone_(h); res(w, "done", rc); } break;
    case 5: { int f = dv_below(3); rc = fdin(rawfd[f][s], dl); res(w, "fdin", rc); break; }
    case 6: { int f = dv_below(3); rc = fdout(rawfd[f][s], dl); res(w, "fdout", rc); break; }
    case 7: { int f = dv_below(3); if(dv_pct(70)) { ssize_t z = write(rawfd[f][s], b, 1 + n % 50); rec(w, "write", z, 0); } else { ssize_t z, t = 0; while((z = write(rawfd[f][s], b, sizeof b)) > 0) t += z; rec(w, "fill", t > 0, 0); } break; }
    case 8: { int f = dv_below(3); ssize_t z = read(rawfd[f][s], b, sizeof b); int e = errno; rec(w, "read", z, z < 0 ? e : 0); break; }
    case 9: { int f = dv_below(3); rc = fdclean(rawfd[f][s]); res(w, "fdclean", rc); break; }
    case 10: { int q[2]; rc = ipc_pair(q); res(w, "pair", rc < 0 ? rc : 0); rc = bsend(q[0], "hello", 5, -1); res(w, "bsend", rc); if(dv_pct(50)) { rc = ipc_done(q[0], -1); res(w, "done", rc); } rc = brecv(q[1], b, 5, -1); res(w, "brecv", rc); rc = brecv(q[1], b, 1, dl == -1 ? 0 : dl); res(w, "brecv2", rc); hclose(q[0]); hclose(q[1]); break; }
    case 11: { struct iolist l[2] = {{b, 3, &l[1], 0}, {dv_pct(50) ? NULL : b + 3, 4, NULL, 0}}; if(prk[p]) { ssize_t z = mrecvl(h, l, l + 1, dl); res(w, "mrecvl", z); } else { rc = brecvl(h, l, l + (dv_pct(90) ? 1 : 0), dl); res(w, "brecvl", rc); } break; }
    case 12: { int q[2]; rc = ipc_pair(q); int f = l_child1(w, 9, now() + 1000); (void)f; rc = hclose(f); res(w, "hclose", rc); if(dv_pct(50)) q[0] = prefix_attach(q[0], 2, 0), q[1] = prefix_attach(q[1], 2, 0); else { q[0] = suffix_attach(q[0], "\r\n", 2); q[1] = suffix_attach(q[1], "\r\n", 2); } rc = msend(q[0], "message", 7, dl); res(w, "msend", rc); ssize_t z = mrecv(q[1], b, 100, dl); res(w, "mrecv", z); hclose(q[0]); z = mrecv(q[1], b, 100, dl); res(w, "mrecv", z); hclose(q[1]); break; }
    default: rc = prk[p] ? bsend(h, b, 1, dl) : msend(h, b, 1, dl); res(w, "wrong", rc);
    }
    return errno == ECANCELED ? -1 : 0;
}
static int op(int w, int depth, int64_t life) {
    int k = dv_below(dv_mode[0] == 'n' && depth < 9 ? 26 : 14), rc; int64_t dl = DL(w), v = dv_rand(); int c = dv_below(nch), s = dv_below(2); errno = 0;
    switch(k) {
    case 0: case 1: rc = chsend(ch[c][s], &v, 8, dl); res(w, "chsend", rc); break;
    case 2: case 3: v = 0; rc = chrecv(ch[c][s], &v, 8, dl); res(w, "chrecv", rc); if(rc == 0) data(w, &v, 8); break;
    case 4: case 5: { struct chclause cl[5]; int64_t x[5]; int n = dv_below(6); for(int i = 0; i < n; i++) { x[i] = dv_pct(50) ? 7 : 0; int cc = dv_below(nch), t = dv_below(2); cl[i].op = t ? CHSEND : CHRECV; cl[i].ch = ch[cc][t]; cl[i].val = &x[i]; cl[i].len = 8; } rc = choose(cl, n, dl); res(w, "choose", rc); if(rc >= 0 && rc < n) data(w, &x[rc], 8); break; }
    case 6: if(dv_pct(15)) { rc = chdone(ch[c][s]); res(w, "chdone", rc); } break;
    case 7: rc = yield(); res(w, "yield", rc); break;
    case 8: { int64_t t = now() + dv_below(4) * SLOT; rc = msleep(t); res(w, "msleep", rc); break; }
    case 9: case 10: if(depth < 3) { int b = bundle(), n = 1 + dv_below(3); for(int i = 0; i < n; i++) { rc = l_child(b, w, depth, life); res(w, "go", rc); } if(dv_pct(60)) { rc = bundle_wait(b, dl); res(w, "wait", rc); } rc = hclose(b); res(w, "hclose", rc); } break;
    case 11: if(depth < 3) { int b = bundle(), n = 1 + dv_below(6); for(int i = 0; i < n; i++) { int z = dv_below(5); l_quick(b, w, z); } if(dv_pct(70)) { rc = bundle_wait(b, dl); res(w, "wait", rc); } else yield(); rc = hclose(b); res(w, "hclose", rc); } break;
    case 12: { int cc[2]; rc = chmake(cc); res(w, "chmake", rc); int b = bundle(); v = 0; rc = chrecv(cc[0], &v, dv_pct(80) ? 8 : 3, 0); res(w, "chrecv0", rc); hclose(cc[0]); rc = chsend(cc[1], &v, 8, dl == -1 ? 0 : dl); res(w, "chsend0", rc); hclose(cc[1]); hclose(b); break; }
    case 13: { int cc[2]; chmake(cc); rc = chrecv(cc[0], &v, 8, -5 + (int64_t)dv_below(5) ? 0 : 0); res(w, "chrecv1", rc); rc = bundle_wait(cc[0], 0); res(w, "kind", rc); int o = hown(cc[0]); rc = chrecv(o, &v, 8, 0); res(w, "own", rc); hclose(o); hclose(cc[1]); break; }
    default: return net(w);
    }
    return errno == ECANCELED ? -1 : 0;
}
static coroutine void worker(int w) { int n = 3 + dv_below(dv_scale ? 120 : 40); while(n--) { if(slot(w) < 0) { rec(w, "slotc", 0, errno); break; } op(w, 0, 0); } rec(w, "end", 0, 0); ended++; }
static int l_worker(int b, int w) { return bundle_go(b, worker(w)); }
static void programs(void) {
    int i, rc, b; nw = 2 + dv_below(W - 2); nch = 1 + dv_below(6); npr = 0; ended = 0; ord = dv_mode[0] == 'c' ? 0 : -1; ntr = W + 1; for(i = 0; i <= W; i++) { tr[i] = 0x5a; own[i] = i; } steps = 0;
    for(i = 0; i < nch; i++) { rc = chmake(ch[i]); CHECK(rc == 0, "harness", "chmake"); }
    if(dv_mode[0] == 'n') {
        npr = 1 + dv_below(4); for(i = 0; i < npr; i++) { rc = ipc_pair(pr[i]); CHECK(rc == 0, "harness", "pair"); prk[i] = dv_below(5); for(int s = 0; s < 2; s++) { int h = pr[i][s]; switch(prk[i]) { case 0: break; case 1: h = prefix_attach(h, 2, 0); break; case 2: h = suffix_attach(h, "\r\n", 2); break; case 3: h = prefix_attach(h, 4, PREFIX_LITTLE_ENDIAN); h = term_attach(h, "STOP", 4); break; case 4: h = ws_attach_client(h, WS_BINARY | WS_NOHTTP, NULL, NULL, -1); hclose(h); h = -1; break; } if(h < 0) { if(s == 0) { hclose(pr[i][1]); ipc_pair(pr[i]); prk[i] = 0; break; } } pr[i][s] = h; } }
        for(i = 0; i < 3; i++) { CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, rawfd[i]) == 0, "harness", "socketpair"); for(int s = 0; s < 2; s++) { int z = 5000; setsockopt(rawfd[i][s], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); } }
    }
    b = bundle(); for(i = 0; i < nw; i++) l_worker(b, i); int64_t lim = now() + 300 + dv_below(4000); lim += SLOT - lim % SLOT - 1; rc = bundle_wait(b, lim); rec(W, "wait", rc, rc < 0 ? errno : 0); rc = hclose(b); rec(W, "hclose", rc, 0); CHECK(ended == nw, "lost", "%d of %d workers ended", ended, nw);
    for(i = 0; i < nch; i++) { hclose(ch[i][0]); hclose(ch[i][1]); } for(i = 0; i < npr; i++) { hclose(pr[i][0]); hclose(pr[i][1]); }
    if(npr) for(i = 0; i < 3; i++) for(int s = 0; s < 2; s++) { fdclean(rawfd[i][s]); close(rawfd[i][s]); }
    for(i = 0; i < ntr; i++) dv_sig(tr[i]); dv_stat("steps", steps); if(steps > 30) dv_nontrivial(); dv_sample("%d workers, %d channels, %d pairs, %ld results", nw, nch, npr, steps);
}
/* calls that need no waiting */
static void args(void) {
    tr[0] = 0x5a; steps = 0; ord = 0; char b[300]; memset(b, 'z', 299); b[299] = 0; struct ipaddr a, c; int n = 30; memset(&a, 0, sizeof a); ipaddr_local(&a, "127.0.0.1", 1, 0); c = a;
    while(n--) { int rc, k = dv_below(16), r1 = dv_below(2), r2 = dv_below(2), r3 = dv_below(10), r4 = dv_below(700); errno = 0; struct iolist l[3] = {{b, r3 / 2, &l[1], 0}, {b + 5, r4 % 5, &l[2], 0}, {b + 10, 3, NULL, 0}}; int h; ssize_t z;
        switch(k) {
        case 0: case 1: { static const char *lit[] = {"1.2.3.4", "255.255.255.255", "1.2.3", "::1", "fe80::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4", "g::1", "", "1.2.3.4.5", "0.0.0.0", "::", "300.1.1.1", "12::34::56"}; int mode = (int[]){0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6, 77}[dv_below(6)]; int port = dv_pct(80) ? (int)dv_below(65536) : dv_pct(50) ? -1 : 65536; const char *t = lit[dv_below(14)]; memset(&a, 0, sizeof a); if(strchr("0123456789:", *t) && *t && strcmp(t, "1.2.3") && strcmp(t, "1.2.3.4.5") && strcmp(t, "300.1.1.1") && strcmp(t, "12::34::56")) { rc = ipaddr_local(&a, t, port, mode); res(0, "ipaddr_local", rc); if(rc == 0) { char s[IPADDR_MAXSTRLEN]; memset(s, 0, sizeof s); ipaddr_str(&a, s); data(0, s, strlen(s)); rec(0, "addr", ipaddr_family(&a), ipaddr_port(&a)); rec(0, "equal", ipaddr_equal(&a, &c, 0), ipaddr_equal(&a, &c, 1)); c = a; } } break; }
        case 2: h = dv_below(3) ? (int)dv_below(5) - 2 : -1; rc = hclose(-1 - (h & 3)); res(0, "hclose", rc); break;
        case 3: { int p[2]; ipc_pair(p); z = r1 ? bsendl(p[0], l, l + r3 % 3, 0) : brecvl(p[0], l + r2, l + 2, 0); res(0, "list", z); if(dv_pct(50)) { rc = bsendl(p[0], dv_pct(50) ? l : NULL, NULL, 0); res(0, "list", rc); } hclose(p[0]); rc = bsend(p[1], b, 5, 0); res(0, "peer", rc); hclose(p[1]); break; }
        case 4: rc = msleep(dv_pct(50) ? 0 : now() + dv_below(50)); res(0, "msleep", rc); break;
        case 5: { int p[2]; ipc_pair(p); int u = dv_pct(50) ? prefix_attach(p[0], r3, r1 * PREFIX_LITTLE_ENDIAN) : suffix_attach(p[0], "abc", dv_below(4)); res(0, "attach", u < 0 ? u : 0); if(u >= 0) { rc = msend(u, b, dv_below(300), 0); res(0, "msend", rc); rc = bsend(u, b, 1, 0); res(0, "bsend", rc); hclose(u); } hclose(p[1]); break; }
        case 6: { int c2[2]; chmake(c2); rc = chsend(c2[0], b, dv_below(20), 0); res(0, "chsend", rc); struct chclause cl = {r3 % 4, c2[0], b, r4 % 9}; rc = choose(&cl, (int)dv_below(3) - 1 > 0 ? 1 : 0, 0); res(0, "choose", rc); cl.op = 9; rc = choose(&cl, 1, 0); res(0, "choose", rc); hclose(c2[0]); hclose(c2[1]); break; }
        case 7: h = bundle(); rc = bundle_wait(h, dv_pct(50) ? 0 : now() + dv_below(9)); res(0, "wait", rc); rc = hclose(h); res(0, "hclose", rc); rc = bundle_wait(h, 0); res(0, "closed", rc); break;
        case 8: { int f[2]; if(pipe2(f, O_NONBLOCK)) abort(); rc = fdin(f[0], now() + dv_below(4)); res(0, "fdin", rc); rc = fdout(f[1], -1); res(0, "fdout", rc); rc = fdin(-1, 0); res(0, "fdin-1", rc); fdclean(f[0]); fdclean(f[1]); close(f[1]); rc = fdin(f[0], now() + 5); res(0, "fdin-hup", rc); fdclean(f[0]); close(f[0]); rc = fdin(f[0], 0); res(0, "fdin-closed", rc); break; }
        case 9: rc = tcp_listen(&c, -5 + (int)dv_below(5)); res(0, "listen", rc < 0 ? -1 : 0); if(rc >= 0) hclose(rc); break;
        case 10: h = ipc_connect("/nonexistent/socket", 0); res(0, "ipc_connect", h); h = ipc_listen(dv_pct(50) ? "/nonexistent/dir/s" : b, 3) ; res(0, "ipc_listen", h < 0 ? h : 0); if(h >= 0) hclose(h); break;
        case 11: { int p[2]; ipc_pair(p); int x = ws_attach_client(p[0], WS_BINARY, r1 ? NULL : "/", r2 ? NULL : "h", now() + 3); res(0, "ws", x); hclose(p[1]); break; }
        case 12: { int p[2]; ipc_pair(p); int x = http_attach(p[0]); rc = http_sendrequest(x, r1 ? "GET" : "G T", r2 ? "/" : "", 0); res(0, "http", rc); rc = http_sendstatus(x, r4, r3 < 5 ? "OK" : "a\nb", 0); res(0, "http", rc); rc = http_sendfield(x, r3 % 2 ? "N" : "N:", r4 % 2 ? " v " : "  ", 0); res(0, "http", rc); hclose(x); memset(b, 0, sizeof b); long k2 = 0; while(brecv(p[1], b + k2, 1, 0) == 0 && k2 < 200) k2++; data(0, b, k2); rec(0, "wire", k2, 0); hclose(p[1]); memset(b, 'z', 299); break; }
        case 13: { struct ipaddr la; ipaddr_local(&la, "127.0.0.1", 0, 0); int s = udp_open(&la, NULL); res(0, "udp", s < 0 ? s : 0); z = udp_recv(s, NULL, b, 9, now() + dv_below(3)); res(0, "udp_recv", z); z = udp_send(s, NULL, b, 3); res(0, "udp_send", z); hclose(s); break; }
        case 14: { int p[2]; ipc_pair(p); int s = dv_below(2); rc = socks5_client_connect(p[0], s ? "u" : NULL, s ? "p" : NULL, dv_pct(80) ? &c : NULL, now() + 4); res(0, "socks5", rc); hclose(p[0]); hclose(p[1]); break; }
        default: { char key[32]; memset(key, 0, 32); rc = ws_response_key("dGhlIHNhbXBsZSBub25jZQ==", key); res(0, "ws_key", rc < 0 ? -1 : 0); data(0, key, strlen(key)); }
        }
    }
    dv_sig(tr[0]); dv_stat("steps", steps); dv_nontrivial(); dv_sample("%ld results", steps);
}
void dv_case(void) { dv_deadlock = retry; static int w; if(!w) { w = 1; int p[2]; ipc_pair(p); hclose(p[0]); hclose(p[1]); } if(dv_mode[0] == 'a') args(); else programs(); }
