/* B06: connecting, accepting and wrapping descriptors. Modes: a (one-to-one matching), c (failures), w (wrapping). */
#include "net.h"
#include <fcntl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <sys/un.h>
#define NL 3
#define NC 60
static struct ls { int h, kind, backlog, incall, fd; struct ipaddr a; char path[120]; void *mem; long accepted, anon; } L[NL];
static struct cl { int l, state, port, h, closed, accepted, fd, cancelled; int64_t t; void *mem; } C[NC];
static int nl, nc, curc, stop, accept_cancelled, lastsock, loose;
static int retry(void) { return 1; }
static int onconn(int fd, const struct sockaddr *sa, socklen_t len, int *rc) { if(curc >= 0) C[curc].fd = fd; return 0; }
static void onsock(int fd, int d, int t) { lastsock = fd; }
static const char *dir(void) { const char *d = getenv("DV_SCRATCH"); return d ? d : "/tmp"; }
static long pathno; static char made[64][120]; static int nmade;
static void mkpath(char *p) { snprintf(p, 108, "%s/c%d-%ld", dir(), (int)getpid(), pathno++); if(nmade < 64) strcpy(made[nmade++], p); }
static void rmpaths(void) { while(nmade) unlink(made[--nmade]); }
static void *gmem(size_t n) { if(dv_pct(50)) return NULL; unsigned char *p = dv_galloc(n); for(size_t i = 0; i < n; i++) p[i] = dv_rand(); return p; }
static void mkaddr(struct ipaddr *a, int v6, int port) { int rc = ipaddr_local(a, v6 ? "::1" : "127.0.0.1", port, 0); CHECK(rc == 0, "harness", "ipaddr_local"); }
static int portof(int fd, int peer) { struct sockaddr_storage ss; socklen_t l = sizeof ss; int rc = peer ? getpeername(fd, (void*)&ss, &l) : getsockname(fd, (void*)&ss, &l); if(rc < 0) return -1; return ntohs(ss.ss_family == AF_INET ? ((struct sockaddr_in*)&ss)->sin_port : ((struct sockaddr_in6*)&ss)->sin6_port); }
static void ontime(const char *what, int64_t t0, int64_t dl) { if(dl >= 0) CHECK(dv_vt <= (dl > t0 ? dl : t0) + 1, "late", "%s returned %lld ms after its deadline", what, (long long)(dv_vt - (dl > t0 ? dl : t0))); }
static int hconnect(struct ls *l, void *mem, int64_t dl) {
    if(l->kind == 2) return mem ? ipc_connect_mem(l->path, mem, dl) : ipc_connect(l->path, dl);
    return mem ? tcp_connect_mem(&l->a, mem, dl) : tcp_connect(&l->a, dl);
}
static void dolisten(struct ls *l, int kind, int backlog) {
    l->kind = kind; l->backlog = backlog; l->mem = gmem(kind == 2 ? sizeof(struct ipc_listener_storage) : sizeof(struct tcp_listener_storage));
    if(kind == 2) { mkpath(l->path); if(dv_pct(10)) { size_t n = strlen(l->path); while(n < 107) l->path[n++] = 'x'; l->path[n] = 0; strcpy(made[nmade - 1], l->path); dv_stat("longest_paths", 1); } }
    else mkaddr(&l->a, kind, 0);
    struct { char c[32]; struct ipaddr a; char d[32]; } w; memset(&w, 0x5a, sizeof w); w.a = l->a;
    if(kind == 2) l->h = l->mem ? ipc_listen_mem(l->path, backlog, l->mem) : ipc_listen(l->path, backlog);
    else l->h = l->mem ? tcp_listen_mem(&w.a, backlog, l->mem) : tcp_listen(&w.a, backlog);
    CHECK(l->h >= 0, "listen", "listening failed with errno %d", errno); l->fd = lastsock;
    for(int i = 0; i < 32; i++) CHECK(w.c[i] == 0x5a && w.d[i] == 0x5a, "addr-overrun", "memory around the address was written");
    if(kind != 2) {
        CHECK(ipaddr_port(&w.a) == portof(l->fd, 0) && ipaddr_port(&w.a) > 0, "port", "the listener reports port %d, the system %d", ipaddr_port(&w.a), portof(l->fd, 0));
        CHECK(ipaddr_family(&w.a) == ipaddr_family(&l->a), "listen-addr", "tcp_listen changed the family");
        l->a = w.a; mkaddr(&w.a, kind, ipaddr_port(&l->a)); CHECK(ipaddr_equal(&w.a, &l->a, 0), "listen-addr", "tcp_listen changed the address");
    }
}
static void client(int j) {
    struct cl *c = &C[j]; struct ls *l = &L[c->l]; int r = dv_below(100), pend = 0;
    if(msleep(now() + dv_below(60)) < 0) { c->state = 3; return; }
    int64_t dl = r < 70 ? -1 : r < 75 ? 0 : r < 78 ? now() - 3 : now() + dv_below(10), t0 = dv_vt;
    for(int k = 0; k < nc; k++) pend += C[k].l == c->l && C[k].state == 2 && !C[k].accepted;
    c->mem = gmem(l->kind == 2 ? sizeof(struct ipc_storage) : sizeof(struct tcp_storage));
    c->state = 1; curc = j; c->h = hconnect(l, c->mem, dl); curc = -1; int e = errno;
    dv_log("%lld client %d connects to %d dl=%lld -> %d %s", (long long)dv_vt, j, c->l, (long long)dl, c->h, c->h < 0 ? strerror(e) : ""); dv_sig(c->h < 0 ? e : 1);
    ontime("connect", t0, dl);
    if(c->h < 0) {
        if(c->mem) dv_gfree(c->mem); c->mem = NULL;
        c->state = 4; dv_stat("connects_failed", 1);
        if(e == ECANCELED) { CHECK(c->cancelled, "spurious-cancel", "connect returned ECANCELED"); return; }
        if(l->kind == 2 && e == EAGAIN) { CHECK(pend > l->backlog, "spurious-eagain", "ipc_connect failed with EAGAIN with %d pending of %d", pend, l->backlog); c->state = 3; dv_stat("backlog_full", 1); return; }
        if((loose || l->h < 0) && (e == ECONNRESET || e == ECONNREFUSED)) return;
        CHECK(l->kind != 2 && e == ETIMEDOUT && dl >= 0 && dv_vt >= dl, "connect", "connect failed with errno %d", e); return;
    }
    c->state = 2; c->t = dv_vt; c->port = l->kind == 2 ? 0 : portof(c->fd, 0);
    if(l->kind != 2) CHECK(portof(c->fd, 1) == ipaddr_port(&l->a), "not-connected", "tcp_connect returned a socket that is not connected to the listener");
    int rc = bsend(c->h, (char[8]){'I', (char)j, 0, 1, 2, 3, 4, 5}, 8, -1);
    if(rc < 0 && errno == ECANCELED) return;
    CHECK(rc == 0 || loose || l->h < 0, "fresh-send", "sending on a fresh connection failed with errno %d", errno);
    if(dv_pct(15)) { c->closed = 1; hclose(c->h); dv_stat("closed_in_backlog", 1); if(c->mem) dv_gfree(c->mem); c->mem = NULL; return; }
    unsigned char b[16]; rc = brecv(c->h, b, 16, -1);
    if(rc < 0) { CHECK((errno == ECANCELED && c->cancelled) || loose || l->h < 0, "fresh-recv", "no reply on a fresh connection: errno %d", errno); return; }
    for(int k = 0; k < 16; k++) CHECK(b[k] == pat(dv_seed, j * 100 + k), "crossed", "client %d got somebody else's reply", j);
    dv_stat("replies", 1);
}
static coroutine void clientco(int j) { client(j); }
static int l_c(int j) { return go(clientco(j)); }
/* accepts one connection; 0 if accepted */
static int doaccept(int i, int64_t dl) {
    struct ls *l = &L[i]; struct { char c[64]; struct ipaddr a; char d[64]; } w; memset(&w, 0x5a, sizeof w);
    struct ipaddr *ap = l->kind != 2 && dv_pct(60) ? &w.a : NULL; void *mem = gmem(l->kind == 2 ? sizeof(struct ipc_storage) : sizeof(struct tcp_storage));
    int other = l->incall, s; int64_t t0 = dv_vt; l->incall++;
    if(l->kind == 2) s = mem ? ipc_accept_mem(l->h, mem, dl) : ipc_accept(l->h, dl);
    else s = mem ? tcp_accept_mem(l->h, ap, mem, dl) : tcp_accept(l->h, ap, dl);
    int e = errno; l->incall--;
    dv_log("%lld accept on %d dl=%lld -> %d %s port %d", (long long)dv_vt, i, (long long)dl, s, s < 0 ? strerror(e) : "", ap && s >= 0 ? ipaddr_port(ap) : 0); dv_sig(s < 0 ? e : 2);
    for(int k = 0; k < 64; k++) CHECK(w.c[k] == 0x5a && w.d[k] == 0x5a, "addr-overrun", "memory around the address was written");
    ontime("accept", t0, dl);
    if(s < 0) {
        if(mem) dv_gfree(mem);
        if(e == EBUSY) { CHECK(other, "spurious-busy", "accept returned EBUSY"); dv_stat("accept_busy", 1); errno = e; return -1; }
        if(e == ECANCELED) { CHECK(accept_cancelled, "spurious-cancel", "accept returned ECANCELED"); errno = e; return -1; }
        CHECK(e == ETIMEDOUT && dl >= 0 && dv_vt >= dl, "accept", "accept failed with errno %d", e); dv_stat("accept_timeouts", 1);
        if(l->kind == 2) for(int j = 0; j < nc; j++) CHECK(!(C[j].l == i && C[j].state == 2 && !C[j].accepted && C[j].t < dv_vt), "missed", "accept timed out although connection %d was waiting", j);
        errno = e; return -1;
    }
    l->accepted++; dv_stat("accepted", 1);
    int who = -1, byport = -1; unsigned char b[16];
    if(ap) {
        struct ipaddr x; mkaddr(&x, l->kind, ipaddr_port(ap)); CHECK(ipaddr_equal(&x, ap, 0), "peer-addr", "accept reported a wrong peer address");
        for(int j = 0; j < nc && byport < 0; j++) if(C[j].l == i && !C[j].accepted && C[j].state != 0 && C[j].state != 3 && ((C[j].port && C[j].port == ipaddr_port(ap)) || (!C[j].port && C[j].state == 1 && portof(C[j].fd, 0) == ipaddr_port(ap)))) byport = j;
        if(byport < 0) for(int j = 0; j < nc && byport < 0; j++) if(C[j].l == i && !C[j].accepted && C[j].state == 4) byport = j;
        CHECK(byport >= 0, "peer-addr", "the connection accepted with port %d belongs to no client", ipaddr_port(ap)); C[byport].accepted = 1; who = byport; dv_stat("addresses_checked", 1);
    }
    int rc = brecv(s, b, 8, -1); e = errno; dv_log("%lld handle %d identification %d %s loose %d", (long long)dv_vt, s, rc, rc ? strerror(e) : "", loose);
    if(rc == 0) {
        CHECK(b[0] == 'I' && b[1] < nc, "data", "garbage received"); int j = b[1];
        CHECK(C[j].l == i, "crossed", "client %d connected to listener %d but was accepted on %d", j, C[j].l, i);
        if(ap) CHECK(j == byport, "peer-addr", "accept reported the port of client %d, the connection is that of client %d", byport, j);
        else { CHECK(!C[j].accepted, "twice", "client %d was accepted twice", j); C[j].accepted = 1; } who = j;
        for(int k = 0; k < 16; k++) b[k] = pat(dv_seed, j * 100 + k);
        rc = bsend(s, b, 16, -1); CHECK(rc == 0 || C[j].closed || errno == ECANCELED || C[j].cancelled, "reply", "replying failed with errno %d", errno);
        dv_stat("matched", 1);
    } else if(e != ECANCELED || !accept_cancelled) {
        CHECK(e == ECONNRESET || e == EPIPE, "recv", "receiving the identification failed with errno %d", e);
        if(!ap) {   /* it is not known whose it was */
            int cand = 0; for(int j = 0; j < nc; j++) cand += C[j].l == i && !C[j].accepted && ((C[j].closed && l->kind != 2) || C[j].state == 4 || C[j].cancelled);
            CHECK(l->anon < cand, "extra", "a connection was accepted that no client made"); l->anon++;
        } else CHECK(C[who].closed || C[who].state == 4 || C[who].cancelled, "broken", "the connection of client %d is broken", who);
        dv_stat("anonymous", 1);
    } else { loose = 1; if(!ap) { L[i].accepted--; accept_cancelled = 2; } }   /* unknown whose it was */
    hclose(s); if(mem) dv_gfree(mem);
    return 0;
}
static coroutine void acceptor(int i, int n) {
    while(n-- && !stop) {
        if(dv_pct(40) && msleep(now() + dv_below(30)) < 0) return;
        if(doaccept(i, dv_pct(40) ? -1 : dv_pct(20) ? 0 : now() + dv_below(30)) < 0 && errno == ECANCELED) return;
    }
}
static int l_a(int i, int n) { return go(acceptor(i, n)); }
static void mode_a(void) {
    nl = 1 + dv_below(NL); nc = 1 + dv_below(dv_pct(30) ? NC : 15); int i, j, hc[NC], ha[NL][2], nowait = dv_pct(15); stop = loose = 0; accept_cancelled = 0; curc = -1;
    memset(C, 0, sizeof C); memset(L, 0, sizeof L); dv_on_connect = onconn; dv_on_socket = onsock;
    for(i = 0; i < nl; i++) { int kind = dv_pct(50) ? 2 : dv_below(2); dolisten(&L[i], kind, kind == 2 && dv_pct(40) ? dv_below(4) : NC + 5); if(kind != 2) dv_grace = 1; }
    if(dv_pct(30)) dv_eintr_pct = dv_below(30); if(dv_pct(40)) dv_abort_pct = 1 + dv_below(40);
    for(j = 0; j < nc; j++) { C[j].l = dv_below(nl); C[j].h = -1; }
    for(j = 0; j < nc; j++) hc[j] = l_c(j);
    for(i = 0; i < nl; i++) for(j = 0; j < 2; j++) ha[i][j] = nowait || (j && dv_pct(50)) ? -1 : l_a(i, 1 + dv_below(nc + 1));
    msleep(now() + dv_below(120));
    if(dv_pct(20)) for(j = 0; j < nc; j++) if(dv_pct(30) && hc[j] >= 0) { C[j].cancelled = 1; hclose(hc[j]); hc[j] = -1; }
    stop = 1; accept_cancelled = 1;
    for(i = 0; i < nl; i++) for(j = 0; j < 2; j++) if(ha[i][j] >= 0) hclose(ha[i][j]);
    int amb = accept_cancelled == 2; accept_cancelled = 0; stop = 0;
    for(i = 0; i < nl; i++) {   /* nothing may be lost */
        int tries = 0, leave = dv_pct(15);
        while(!leave) {
            int must = -L[i].anon; for(j = 0; j < nc; j++) must += C[j].l == i && C[j].state == 2 && !C[j].accepted;
            if(doaccept(i, now() + (must > 0 ? 30 : 1)) == 0) { tries = 0; continue; }
            for(must = -L[i].anon, j = 0; j < nc; j++) must += C[j].l == i && C[j].state < 3 && !C[j].accepted;
            if(must <= 0 || amb) break;
            CHECK(++tries < 300, "lost", "%d established connections to listener %d are never accepted", must, i);
        }
        if(!leave) dv_stat("drained", 1);
        int lh = L[i].h; L[i].h = -1; int rc = L[i].kind == 2 ? (dv_pct(50) ? hclose(lh) : ipc_close(lh, -1)) : dv_pct(50) ? hclose(lh) : tcp_close(lh, -1);
        CHECK(rc == 0, "listener-close", "closing the listener failed with errno %d", errno); if(L[i].mem) dv_gfree(L[i].mem);
        char c; CHECK(hclose(lh) == -1 && errno == EBADF, "listener-open", "the listener's handle survives"); (void)c;
    }
    for(j = 0; j < nc; j++) { C[j].cancelled = 1; if(hc[j] >= 0) hclose(hc[j]); if(C[j].h >= 0 && !C[j].closed) { int rc = hclose(C[j].h); CHECK(rc == 0, "close", "hclose failed"); } if(C[j].mem) dv_gfree(C[j].mem); }
    if(nc > 3) dv_nontrivial();
    dv_sample("%d clients, %d listeners, first of kind %d", nc, nl, L[0].kind);
}
/* ---- c: failures ---- */
static int fs[16], nfs;
static int rawsock(int fam, int type) { int s = socket(fam, type, 0); CHECK(s >= 0, "harness", "socket"); fs[nfs++] = s; return s; }
static socklen_t sal(int kind, struct sockaddr_storage *ss, int port, const char *path) {
    memset(ss, 0, sizeof *ss);
    if(kind == 2) { struct sockaddr_un *u = (void*)ss; u->sun_family = AF_UNIX; strncpy(u->sun_path, path, 107); return sizeof *u; }
    if(kind == 0) { struct sockaddr_in *a = (void*)ss; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a->sin_port = htons(port); return sizeof *a; }
    struct sockaddr_in6 *a = (void*)ss; a->sin6_family = AF_INET6; a->sin6_addr = in6addr_loopback; a->sin6_port = htons(port); return sizeof *a;
}
static int rawbound(int kind, int type, struct ls *l) {
    struct sockaddr_storage ss; if(kind == 2) mkpath(l->path); socklen_t n = sal(kind, &ss, 0, l->path); l->kind = kind;
    int s = rawsock(kind == 2 ? AF_UNIX : kind ? AF_INET6 : AF_INET, type); int rc = bind(s, (void*)&ss, n); CHECK(rc == 0, "harness", "bind %d", errno);
    if(kind != 2) mkaddr(&l->a, kind, portof(s, 0)); return s;
}
static int rawconn(struct ls *l, int nonblock) {
    struct sockaddr_storage ss; socklen_t n = sal(l->kind, &ss, l->kind == 2 ? 0 : ipaddr_port(&l->a), l->path); int s = rawsock(l->kind == 2 ? AF_UNIX : l->kind ? AF_INET6 : AF_INET, SOCK_STREAM);
    if(nonblock) fcntl(s, F_SETFL, O_NONBLOCK); int rc = connect(s, (void*)&ss, n); CHECK(nonblock || rc == 0, "harness", "connect %d", errno); return s;
}
static void closeraw(void) { while(nfs) close(fs[--nfs]); rmpaths(); }
static int conres, conerr; static int64_t contime;
static coroutine void conco(struct ls *l, void *mem, int64_t dl) { conres = hconnect(l, mem, dl); conerr = errno; contime = dv_vt; }
static int l_con(struct ls *l, void *mem, int64_t dl) { return go(conco(l, mem, dl)); }
static coroutine void accco(struct ls *l, void *mem, int64_t dl) { conres = l->kind == 2 ? (mem ? ipc_accept_mem(l->h, mem, dl) : ipc_accept(l->h, dl)) : mem ? tcp_accept_mem(l->h, NULL, mem, dl) : tcp_accept(l->h, NULL, dl); conerr = errno; contime = dv_vt; }
static int l_acc(struct ls *l, void *mem, int64_t dl) { return go(accco(l, mem, dl)); }
static void expect(struct ls *l, const char *what, const int *errs) {
    int64_t dl = dv_pct(40) ? -1 : dv_pct(20) ? 0 : now() + 5 + dv_below(20), t0 = dv_vt; void *mem = gmem(sizeof(struct tcp_storage)); int f0 = dv_fdcount(); long a0 = dv_live_allocs;
    int s = hconnect(l, mem, dl), e = errno, ok = s == -1 && dl == 0 && e == ETIMEDOUT; for(; *errs; errs++) ok |= s == -1 && e == *errs;
    if(s == -1 && e == ETIMEDOUT && l->kind != 2 && dl > 0 && dv_vt >= dl) ok = 1;   /* the kernel may be slow */
    dv_log("expect %s -> %d %s", what, s, strerror(e));
    CHECK(ok, "connect-error", "%s: connect returned %d errno %d", what, s, e); ontime("connect", t0, dl);
    CHECK(dv_fdcount() == f0, "fd-leak", "%s: a descriptor was left behind", what); CHECK(dv_live_allocs == a0, "mem-leak", "%s: memory was left behind", what);
    if(mem) dv_gfree(mem); dv_stat(what, 1); dv_sig(e);
}
static void one_failure(void) {
    struct ls l; memset(&l, 0, sizeof l); int kind = dv_below(3), r = dv_below(13), f0 = dv_fdcount(), rc, e, k; struct sockaddr_storage ss; (void)ss;
    dv_log("failure %d kind %d", r, kind);
    switch(r) {
    case 0: rawbound(kind, SOCK_STREAM, &l); expect(&l, "refused", (int[]){ECONNREFUSED, 0}); break;
    case 1: l.kind = 2; mkpath(l.path); expect(&l, "missing", (int[]){ENOENT, 0}); break;
    case 2: l.kind = 2; memset(l.path, 'y', 108 + dv_below(10)); expect(&l, "too_long", (int[]){ENAMETOOLONG, 0});
        { int64_t a0 = dv_live_allocs; rc = ipc_listen(l.path, 5); CHECK(rc == -1 && errno == ENAMETOOLONG, "too-long", "ipc_listen with a too long path returned %d errno %d", rc, errno); CHECK(dv_live_allocs == a0, "mem-leak", "memory left"); } break;
    case 3: rawbound(2, SOCK_DGRAM, &l); expect(&l, "wrong_type", (int[]){EPROTOTYPE, 0}); break;
    case 4: { rawbound(2, SOCK_STREAM, &l); unlink(l.path); int f = open(l.path, O_CREAT | O_RDWR, 0600); close(f); if(dv_pct(50)) { strcat(l.path, "/x"); expect(&l, "not_dir", (int[]){ENOTDIR, 0}); } else expect(&l, "stale", (int[]){ECONNREFUSED, 0}); break; }
    case 5: case 6: case 7: {   /* nobody answers */
        int s = rawbound(kind, SOCK_STREAM, &l); listen(s, 0); if(kind != 2) dv_grace = 1;
        int c0 = rawconn(&l, 1); if(kind != 2) { struct pollfd pf = {.fd = c0, .events = POLLOUT}; poll(&pf, 1, 1000); struct pollfd pa = {.fd = s, .events = POLLIN}; poll(&pa, 1, 1000); }
        if(kind == 2) { int f1 = dv_fdcount(); int64_t t0 = dv_vt, dl = dv_pct(30) ? 0 : now() + dv_below(20); int h = ipc_connect(l.path, dl); e = errno; CHECK(h == -1 && (e == EAGAIN || (e == ETIMEDOUT && dv_vt >= dl)), "backlog", "connecting to a full local listener returned %d errno %d", h, e); ontime("connect", t0, dl); CHECK(dv_fdcount() == f1, "fd-leak", "descriptor left"); dv_stat("full_ipc", 1); break; }
        int f1 = dv_fdcount(); void *mem = gmem(sizeof(struct tcp_storage)); int64_t t0 = dv_vt, dl = dv_pct(40) ? -1 : t0 + dv_below(30); conres = -2;
        int h = l_con(&l, mem, dl); CHECK(h >= 0, "harness", "go"); int64_t tc = t0 + dv_below(40); msleep(tc);
        if(dl < 0 || dv_pct(50) || tc >= dl) { hclose(h); h = -1; } else { bundle_wait(h, -1); hclose(h); }
        CHECK(conres == -1, "silent", "connecting to a silent listener returned %d errno %d", conres, conerr);
        if(dl >= 0 && conerr == ETIMEDOUT) CHECK(contime >= dl && contime <= dl + 1, "deadline", "connecting to a silent listener ended %lld ms after the deadline", (long long)(contime - dl));
        else CHECK(conerr == ECANCELED && (dl < 0 || tc <= dl), "silent", "connecting to a silent listener failed with errno %d", conerr);
        dv_stat(conerr == ECANCELED ? "silent_cancelled" : "silent_timeouts", 1); dv_sig(conerr);
        CHECK(dv_fdcount() == f1, "fd-leak", "a timed out or cancelled connect left a descriptor"); if(mem) dv_gfree(mem); break; }
    case 8: {   /* listening failures */
        int s = rawbound(kind, SOCK_STREAM, &l); listen(s, 3); int f1 = dv_fdcount(); long a0 = dv_live_allocs; void *mem = gmem(sizeof(struct tcp_listener_storage)); struct ipaddr a = l.a;
        int h = kind == 2 ? (mem ? ipc_listen_mem(l.path, 5, mem) : ipc_listen(l.path, 5)) : mem ? tcp_listen_mem(&a, 5, mem) : tcp_listen(&a, 5);
        CHECK(h == -1 && errno == EADDRINUSE, "in-use", "listening on a used address returned %d errno %d", h, errno); if(kind != 2) CHECK(ipaddr_equal(&a, &l.a, 0), "addr-changed", "a failed tcp_listen changed the address");
        CHECK(dv_fdcount() == f1, "fd-leak", "a failed listen left a descriptor"); CHECK(dv_live_allocs == a0, "mem-leak", "a failed listen left memory"); if(mem) dv_gfree(mem);
        rc = ipaddr_remote(&a, "192.0.2.77", 4000, 0, -1); CHECK(rc == 0, "harness", "ipaddr_remote"); h = tcp_listen(&a, 5); CHECK(h == -1 && errno == EADDRNOTAVAIL, "not-local", "listening on a foreign address returned %d errno %d", h, errno); CHECK(dv_fdcount() == f1, "fd-leak", "a failed listen left a descriptor");
        h = ipc_listen("/nonexistent-dir/x", 5); CHECK(h == -1 && errno == ENOENT, "no-dir", "ipc_listen in a missing directory returned %d errno %d", h, errno); CHECK(dv_fdcount() == f1, "fd-leak", "a failed listen left a descriptor");
        dv_stat("listen_failures", 1); break; }
    case 9: {   /* wrong arguments */
        dolisten(&l, kind, 5); struct tcp_storage m; struct tcp_listener_storage lm; int v = dv_below(7); long a0 = dv_live_allocs; int f1 = dv_fdcount();
        if(v == 0) { rc = kind == 2 ? tcp_accept(l.h, NULL, now() + 1) : ipc_accept(l.h, now() + 1); CHECK(rc == -1 && errno == ENOTSUP, "wrong-kind", "accepting on the wrong kind of listener returned %d errno %d", rc, errno); }
        else if(v == 1) { rc = kind == 2 ? ipc_accept_mem(l.h, NULL, now() + 1) : tcp_accept_mem(l.h, NULL, NULL, now() + 1); CHECK(rc == -1 && errno == EINVAL, "null-mem", "null storage returned %d errno %d", rc, errno); }
        else if(v == 2) { rc = kind == 2 ? ipc_connect_mem(l.path, NULL, now() + 1) : tcp_connect_mem(&l.a, NULL, now() + 1); CHECK(rc == -1 && errno == EINVAL, "null-mem", "null storage returned %d errno %d", rc, errno); }
        else if(v == 3) { struct ipaddr a; mkaddr(&a, 0, 0); rc = kind == 2 ? ipc_listen_mem("q", 5, NULL) : tcp_listen_mem(&a, 5, NULL); CHECK(rc == -1 && errno == EINVAL, "null-mem", "null storage returned %d errno %d", rc, errno); }
        else if(v == 4) { int c; rc = bsend(l.h, "x", 1, -1); CHECK(rc == -1 && errno == ENOTSUP, "wrong-kind", "bsend to a listener: errno %d", errno); rc = kind == 2 ? ipc_done(l.h, -1) : tcp_done(l.h, -1); CHECK(rc == -1 && errno == ENOTSUP, "wrong-kind", "done on a listener: errno %d", errno); (void)c; }
        else if(v == 5) { rc = kind == 2 ? ipc_accept(123456, now() + 1) : tcp_accept(123456, NULL, now() + 1); CHECK(rc == -1 && errno == EBADF, "bad-handle", "accepting on a bad handle returned %d errno %d", rc, errno); }
        else { int c[2]; rc = ipc_pair(c); CHECK(rc == 0, "harness", "pair"); rc = kind == 2 ? ipc_accept(c[0], now() + 1) : tcp_accept(c[0], NULL, now() + 1); CHECK(rc == -1 && errno == ENOTSUP, "wrong-kind", "accepting on a connection returned %d errno %d", rc, errno); rc = tcp_close(c[0], -1); CHECK(rc == -1 && errno == ENOTSUP, "wrong-kind", "tcp_close of a local socket: %d errno %d", rc, errno); hclose(c[0]); hclose(c[1]); }
        CHECK(dv_live_allocs == a0 && dv_fdcount() == f1, "leak", "a refused call left something behind");
        hclose(l.h); if(l.mem) dv_gfree(l.mem); (void)m; (void)lm; dv_stat("wrong_arguments", 1); break; }
    case 10: {  /* cancelled and timed out accepts; the connection is there afterwards */
        dolisten(&l, kind, 5); if(kind != 2) dv_grace = 1; void *mem = gmem(sizeof(struct tcp_storage)); int f1 = dv_fdcount(); int64_t t0 = dv_vt, dl = dv_pct(40) ? -1 : t0 + dv_below(30); conres = -2;
        int h = l_acc(&l, mem, dl); int64_t tc = t0 + dv_below(40); msleep(tc); hclose(h);
        CHECK(conres == -1 && (conerr == ECANCELED || (conerr == ETIMEDOUT && dl >= 0)), "accept", "accept without clients returned %d errno %d", conres, conerr);
        if(conerr == ETIMEDOUT) CHECK(contime >= dl && contime <= dl + 1, "deadline", "accept ended %lld ms after the deadline", (long long)(contime - dl)); else CHECK(dl < 0 || tc <= dl, "deadline", "accept missed its deadline");
        CHECK(dv_fdcount() == f1, "fd-leak", "a cancelled accept left a descriptor");
        rawconn(&l, 0); int s = -1; for(k = 0; k < 300 && s < 0; k++) s = kind == 2 ? ipc_accept(l.h, now() + 10) : tcp_accept(l.h, NULL, now() + 10);
        CHECK(s >= 0, "accept", "a connection made after a failed accept is not accepted: errno %d", errno); hclose(s); hclose(l.h); if(mem) dv_gfree(mem); if(l.mem) dv_gfree(l.mem); dv_stat("accept_after_failure", 1); break; }
    default: {  /* injected failures */
        dolisten(&l, kind, 9); if(kind != 2) dv_grace = 1; void *mem = gmem(sizeof(struct tcp_storage)), *mem2 = NULL; int what = dv_below(3), f1 = dv_fdcount(); long a0 = dv_live_allocs, n0 = dv_nfailed;
        int s = -1; struct ls l2; memset(&l2, 0, sizeof l2); char p2[120]; mkpath(p2); struct ipaddr a2; mkaddr(&a2, kind == 1, 0);
        if(what == 1) { rawconn(&l, 0); f1++; }
        dv_failmask = 1u << DV_MALLOC | 1u << DV_SOCKET | 1u << DV_BIND | 1u << DV_LISTEN | 1u << DV_ACCEPT | 1u << DV_CONNECT | 1u << DV_GETSOCK; dv_fail_errno = (int[]){ENOMEM, EMFILE, ENFILE, ENOBUFS}[dv_below(4)]; dv_failat = dv_below(4);
        if(what == 0) s = hconnect(&l, mem, -1);
        else if(what == 1) for(k = 0; k < 300 && s < 0; k++) { s = kind == 2 ? (mem ? ipc_accept_mem(l.h, mem, now() + 5) : ipc_accept(l.h, now() + 5)) : mem ? tcp_accept_mem(l.h, NULL, mem, now() + 5) : tcp_accept(l.h, NULL, now() + 5); if(s < 0 && (errno != ETIMEDOUT || dv_nfailed > n0)) break; }
        else { mem2 = gmem(sizeof(struct tcp_listener_storage)); s = kind == 2 ? (mem2 ? ipc_listen_mem(p2, 5, mem2) : ipc_listen(p2, 5)) : mem2 ? tcp_listen_mem(&a2, 5, mem2) : tcp_listen(&a2, 5); }
        e = errno; dv_failat = -1; dv_log("injected kind %d into %d -> %d %s", dv_failed_kind, what, s, s < 0 ? strerror(e) : "");
        if(dv_nfailed > n0) {
            CHECK(s == -1, "ignored", "operation %d succeeded although call kind %s failed", what, dv_kindname[dv_failed_kind]);
            CHECK(e == dv_fail_errno || (dv_failed_kind == DV_MALLOC && e == ENOMEM), "errno", "operation %d reports errno %d although %s failed with %d", what, e, dv_kindname[dv_failed_kind], dv_fail_errno);
            CHECK(dv_fdcount() == f1, "fd-leak", "operation %d left a descriptor behind when %s failed", what, dv_kindname[dv_failed_kind]); CHECK(dv_live_allocs == a0, "mem-leak", "operation %d left memory behind when %s failed", what, dv_kindname[dv_failed_kind]);
            dv_stat("faults", 1); dv_sig(dv_failed_kind);
            if(what == 1) { for(k = 0; k < 300 && s < 0; k++) s = kind == 2 ? ipc_accept(l.h, now() + 5) : tcp_accept(l.h, NULL, now() + 5); CHECK(s >= 0, "lost", "a connection was lost when accept failed"); dv_stat("accepted_after_fault", 1); }
        } else CHECK(s >= 0, "op", "operation %d failed with errno %d", what, e);
        if(s >= 0) hclose(s);
        hclose(l.h); if(mem) dv_gfree(mem); if(mem2) dv_gfree(mem2); if(l.mem) dv_gfree(l.mem); break; }
    }
    closeraw(); dv_grace = 0; int f = dv_fdcount(); CHECK(f == f0, "fd-leak", "%d descriptors open after failure case %d, %d before", f, r, f0);
}
static void mode_c(void) { curc = -1; dv_on_socket = onsock; int n = 1 + dv_below(12); if(dv_pct(30)) dv_eintr_pct = dv_below(30); for(int i = 0; i < n; i++) one_failure(); dv_nontrivial(); dv_sample("%d failing operations", n); }
/* ---- w: wrapping descriptors ---- */
enum { K_TCP4, K_TCP6, K_UNIX, K_TCPL4, K_TCPL6, K_UNIXL, K_PAIR, K_UDP4, K_UDP6, K_UNIXD, K_SEQ, K_SEQL, K_PIPE, K_FILE, K_EVENT, K_CLOSED, K_NEG, K_N };
static const char *kn[] = {"tcp4", "tcp6", "unix", "tcp4 listener", "tcp6 listener", "unix listener", "socketpair", "udp4", "udp6", "unix datagram", "seqpacket", "seqpacket listener", "pipe", "file", "eventfd", "closed", "negative"};
static void one_wrap(void) {
    struct ls l; memset(&l, 0, sizeof l); int k = dv_pct(50) ? dv_below(K_UDP4) : dv_below(K_N), w = dv_below(4), fd = -1, other = -1, f0 = dv_fdcount(), s, e; struct sockaddr_storage ss;
    if(k < K_UDP4 && dv_pct(70)) w = k < K_UNIX ? 0 : k == K_UNIX || k == K_PAIR ? 2 : k == K_UNIXL ? 3 : 1;
    int lst = -1; fd = -1;
    switch(k) {
    case K_TCP4: case K_TCP6: case K_UNIX: { int s0 = lst = rawbound(k == K_UNIX ? 2 : k, SOCK_STREAM, &l); listen(s0, 5); other = rawconn(&l, 0); do fd = accept(s0, NULL, NULL); while(fd < 0 && errno == EINTR); CHECK(fd >= 0, "harness", "accept"); if(dv_pct(50)) { nfs--; fs[nfs++] = fd; int t = fd; fd = other; other = t; } break; }
    case K_TCPL4: case K_TCPL6: case K_UNIXL: fd = rawbound(k - K_TCPL4, SOCK_STREAM, &l); listen(fd, 5); nfs--; break;
    case K_PAIR: case K_SEQ: { int p[2]; socketpair(AF_UNIX, k == K_PAIR ? SOCK_STREAM : SOCK_SEQPACKET, 0, p); fd = p[0]; other = p[1]; fs[nfs++] = other; break; }
    case K_UDP4: case K_UDP6: case K_UNIXD: fd = rawbound(k - K_UDP4, SOCK_DGRAM, &l); nfs--; break;
    case K_SEQL: fd = rawbound(2, SOCK_SEQPACKET, &l); listen(fd, 5); nfs--; break;
    case K_PIPE: { int p[2]; if(pipe(p)) abort(); fd = p[0]; fs[nfs++] = p[1]; break; }
    case K_FILE: { char p[120]; mkpath(p); fd = open(p, O_CREAT | O_RDWR, 0600); break; }
    case K_EVENT: fd = eventfd(0, 0); break;
    case K_CLOSED: fd = dup(0); close(fd); break;
    default: fd = -1 - (int)dv_below(3);
    }
    int good = (w == 0 && (k == K_TCP4 || k == K_TCP6)) || (w == 1 && (k == K_TCPL4 || k == K_TCPL6)) || (w == 2 && (k == K_UNIX || k == K_PAIR)) || (w == 3 && k == K_UNIXL);
    int opened = fd >= 0 && k != K_CLOSED;
    if(opened && fd == (nfs ? fs[nfs - 1] : -1)) nfs--;
    for(int i = 0; i < nfs; i++) if(fs[i] == fd) { fs[i] = fs[--nfs]; }
    int nb = dv_pct(50), pre = 0, prevwait = 0; if(opened && nb) fcntl(fd, F_SETFL, O_NONBLOCK);
    if(good && other >= 0 && dv_pct(50)) { pre = 1 + dv_below(40); unsigned char b[64]; patfill(b, pre, dv_seed, 0); CHECK(send(other, b, pre, 0) == pre, "harness", "send"); }
    if(opened && k != K_FILE && dv_pct(40)) { prevwait = 1; int rc = dv_pct(50) ? fdin(fd, 0) : fdout(fd, 0); (void)rc; }
    int fl0 = opened ? fcntl(fd, F_GETFL) : 0, f1 = dv_fdcount(), nullmem = dv_pct(5); struct stat st0, st1; if(opened) fstat(fd, &st0);
    size_t need = w == 0 ? sizeof(struct tcp_storage) : w == 1 ? sizeof(struct tcp_listener_storage) : w == 2 ? sizeof(struct ipc_storage) : sizeof(struct ipc_listener_storage);
    void *mem = gmem(need); long a0 = dv_live_allocs, n0 = dv_nfailed;
    if(dv_pct(20)) { dv_failmask = 1u << DV_MALLOC | 1u << DV_DUP | 1u << DV_GETSOCK; dv_fail_errno = dv_pct(50) ? ENOMEM : EMFILE; dv_failat = dv_below(5); }
    if(nullmem) s = w == 0 ? tcp_fromfd_mem(fd, NULL) : w == 1 ? tcp_listener_fromfd_mem(fd, NULL) : w == 2 ? ipc_fromfd_mem(fd, NULL) : ipc_listener_fromfd_mem(fd, NULL);
    else if(mem) s = w == 0 ? tcp_fromfd_mem(fd, mem) : w == 1 ? tcp_listener_fromfd_mem(fd, mem) : w == 2 ? ipc_fromfd_mem(fd, mem) : ipc_listener_fromfd_mem(fd, mem);
    else s = w == 0 ? tcp_fromfd(fd) : w == 1 ? tcp_listener_fromfd(fd) : w == 2 ? ipc_fromfd(fd) : ipc_listener_fromfd(fd);
    e = errno; dv_failat = -1; int inj = dv_nfailed > n0; static const char *wn[] = {"tcp_fromfd", "tcp_listener_fromfd", "ipc_fromfd", "ipc_listener_fromfd"};
    dv_log("%s(%s) nb=%d pre=%d wait=%d mem=%d inj=%d(%d) -> %d %s", wn[w], kn[k], nb, pre, prevwait, !!mem, inj, inj ? dv_failed_kind : 0, s, s < 0 ? strerror(e) : ""); dv_sig(k * 4 + w); dv_sig(s < 0 ? e : 0); dv_stat(wn[w], 1);
    if(s < 0) {
        CHECK(s == -1, "rc", "%s returned %d", wn[w], s);
        CHECK(inj || nullmem || !good, "refused", "%s refused a %s with errno %d", wn[w], kn[k], e);
        if(inj) { CHECK(e == dv_fail_errno || (dv_failed_kind == DV_MALLOC && e == ENOMEM) || (!good && (e == EINVAL || e == EBADF || e == ENOTSOCK)), "errno", "%s failed with errno %d", wn[w], e); dv_stat("faults", 1); }
        else if(nullmem || k == K_NEG) CHECK(e == EINVAL || e == EBADF, "errno", "%s failed with errno %d", wn[w], e);
        else if(k == K_CLOSED) CHECK(e == EBADF, "errno", "%s of a closed descriptor failed with errno %d", wn[w], e);
        else CHECK(e == EINVAL || e == ENOTSOCK || e == EOPNOTSUPP, "errno", "%s of a %s failed with errno %d", wn[w], kn[k], e);
        if(opened) {
            CHECK(fcntl(fd, F_GETFD) >= 0, "taken", "%s failed but closed the descriptor", wn[w]); fstat(fd, &st1); CHECK(st0.st_ino == st1.st_ino && st0.st_dev == st1.st_dev, "taken", "%s failed but replaced the descriptor", wn[w]);
            CHECK(fcntl(fd, F_GETFL) == fl0, "flags", "%s failed but changed the descriptor's flags", wn[w]);
            if(pre) { unsigned char b[64]; ssize_t n = recv(fd, b, 64, MSG_DONTWAIT); CHECK(n == pre, "consumed", "%s failed but consumed data", wn[w]); }
        }
        CHECK(dv_fdcount() == f1, "fd-leak", "%s failed and left a descriptor", wn[w]); CHECK(dv_live_allocs == a0, "mem-leak", "%s failed and left memory", wn[w]);
        if(opened) { fdclean(fd); close(fd); } dv_stat("refused", 1);
    } else {
        CHECK(!nullmem && good, "accepted", "%s accepted a %s", wn[w], nullmem ? "null storage" : kn[k]);
        CHECK(!inj, "ignored", "%s succeeded although a call failed", wn[w]);
        CHECK(fcntl(fd, F_GETFD) < 0 || dv_fdcount() == f1, "not-taken", "%s succeeded but left the caller's descriptor open", wn[w]); CHECK(dv_fdcount() == f1, "not-taken", "%s: %d descriptors instead of %d", wn[w], dv_fdcount(), f1);
        dv_stat("wrapped", 1);
        if(w == 0 || w == 2) {
            unsigned char b[64]; if(k == K_TCP4 || k == K_TCP6) dv_grace = 1;
            if(pre) { int rc = brecv(s, b, pre, -1); CHECK(rc == 0, "recv", "receiving on a wrapped socket: errno %d", errno); for(int i = 0; i < pre; i++) CHECK(b[i] == pat(dv_seed, i), "data", "wrong data"); }
            int64_t t0 = dv_vt; int rc = brecv(s, b, 1, now() + 7); CHECK(rc == -1 && errno == ETIMEDOUT && dv_vt >= t0 + 7, "blocking", "an empty wrapped socket returned %d errno %d after %lld ms", rc, errno, (long long)(dv_vt - t0));
            rc = bsend(s, "hello", 5, -1); CHECK(rc == 0, "send", "sending on a wrapped socket: errno %d", errno); ssize_t n; do n = recv(other, b, 5, MSG_WAITALL); while(n < 0 && errno == EINTR); CHECK(n == 5 && !memcmp(b, "hello", 5), "data", "sent data did not arrive");
            hclose(s); struct pollfd pf = {.fd = other, .events = POLLIN}; int pr = poll(&pf, 1, 2000); CHECK(pr == 1, "not-closed", "the peer of a closed socket does not notice");
        } else {
            int64_t t0 = dv_vt; int a = w == 1 ? tcp_accept(s, NULL, now() + 7) : ipc_accept(s, now() + 7); CHECK(a == -1 && errno == ETIMEDOUT && dv_vt >= t0 + 7, "blocking", "accept on a wrapped listener returned %d errno %d", a, errno);
            if(w == 1) dv_grace = 1; rawconn(&l, 0); for(int i = 0; i < 300 && a < 0; i++) a = w == 1 ? tcp_accept(s, NULL, now() + 5) : ipc_accept(s, now() + 5); CHECK(a >= 0, "accept", "accept on a wrapped listener failed with errno %d", errno); hclose(a); hclose(s);
        }
    }
    if(mem) dv_gfree(mem); closeraw(); dv_grace = 0; (void)ss; (void)lst;
    int f = dv_fdcount(); CHECK(f == f0, "fd-leak", "%d descriptors open after wrapping a %s, %d before", f, kn[k], f0);
}
static void mode_w(void) { int n = 1 + dv_below(15); for(int i = 0; i < n; i++) one_wrap(); dv_nontrivial(); dv_sample("%d descriptors", n); }
void dv_case(void) {
    static int warm; if(!warm) { warm = 1; uint64_t r = *dv_rngstate(); int p[2]; ipc_pair(p); char c; brecv(p[0], &c, 1, now() + 1); hclose(p[0]); hclose(p[1]); struct ipaddr a; ipaddr_remote(&a, "127.0.0.1", 1, 0, -1); hclose(l_con(&L[0], (void*)8, 0)); *dv_rngstate() = r; }
    int fd0 = dv_fdcount(); dv_deadlock = retry; nfs = 0;
    if(dv_mode[0] == 'c') mode_c(); else if(dv_mode[0] == 'w') mode_w(); else mode_a();
    closeraw(); int f = dv_fdcount(); CHECK(f == fd0, "fd-leak", "%d descriptors open at the end, %d at the start", f, fd0);
}
