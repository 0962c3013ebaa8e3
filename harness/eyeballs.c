/* A04: happyeyeballs_connect against name servers and addresses played by the harness. */
#include "net.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <strings.h>
enum { OKAY, REFUSE, SILENT, NOW, FAILNOW };
struct att; 
struct look { char name[40]; int n[2]; int64_t delay[2]; /* -1 never */ int64_t arr[2]; /* -1 not yet */ int kind[2][12]; int64_t when[2][12]; char tried[2][12]; unsigned char a[2][12][16]; int port, live, hosts; int64_t t0, end; struct att *log[30]; int nlog; };
struct att { struct look *l; int v6, idx, fd, peer, done; int64_t t, at; };
static struct look *L[8]; static int nL, bndl, extra; static unsigned ctr;
static struct look *byname(const char *q) { for(int i = 0; i < nL; i++) if(!strcasecmp(L[i]->name, q)) return L[i]; return NULL; }
struct con { int fd, refs; };
static void drop(struct con *c) { if(!--c->refs) free(c); }
struct rep { int n; struct con *c; int64_t at; struct look *l; unsigned serial; int v6; unsigned char b[600]; };
static unsigned serial(struct look *l) { unsigned s; sscanf(l->name + 1, "%u", &s); return s; }
static coroutine void reply(struct rep *r) { /* the lookup may be gone by then */
    int rc = msleep(r->at); if(rc == 0) { if(r->c->fd >= 0) { ssize_t x = send(r->c->fd, r->b, r->n, MSG_NOSIGNAL); (void)x; } for(int i = 0; i < nL; i++) if(L[i] == r->l && serial(L[i]) == r->serial && L[i]->arr[r->v6] < 0) L[i]->arr[r->v6] = now(); }
    drop(r->c); free(r);
}
static int armed;
static void l_reply(struct rep *r) { long fa = dv_failat; dv_failat = -1; CHECK(bundle_go(bndl, reply(r)) == 0, "harness", "go"); if(armed) dv_failat = fa; }
static coroutine void server(struct con *c) {
    while(1) {
        int rc = fdin(c->fd, -1); if(rc < 0) break; unsigned char b[600]; ssize_t n = recv(c->fd, b, sizeof b, 0); if(n == 0 || (n < 0 && errno != EAGAIN)) break; if(n < 17) continue;
        char q[300]; int o = 0, i = 12; while(b[i]) { int l = b[i++]; memcpy(q + o, b + i, l); o += l; i += l; q[o++] = '.'; } q[o ? o - 1 : 0] = 0; i++; int type = b[i + 1]; i += 4; struct look *l = byname(q); int v6 = type == 28, k = l && !l->hosts ? l->n[v6] : 0;
        dv_log("  %lld: query %s %s", (long long)(l ? now() - l->t0 : 0), q, v6 ? "AAAA" : "A"); if(l && l->delay[v6] < 0) continue;
        struct rep r = {0}; unsigned char *p = r.b; memcpy(p, b, i); p[2] = 0x81; p[3] = 0x80; p[7] = k; int z = i; for(int j = 0; j < k; j++) { static const unsigned char h[] = {0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4}; memcpy(p + z, h, 12); if(v6) p[z + 3] = 28, p[z + 11] = 16; z += 12; memcpy(p + z, l->a[v6][j], v6 ? 16 : 4); z += v6 ? 16 : 4; }
        r.n = z; r.c = c; c->refs++; r.l = l; r.v6 = v6; r.serial = l ? serial(l) : 0; r.at = now() + (l ? l->delay[v6] : 0); CHECK(z < 512, "harness", "%d", z);
        struct rep *m = malloc(sizeof *m); *m = r; l_reply(m);
    }
    fdclean(c->fd); close(c->fd); c->fd = -1; extra--; drop(c);
}
static void l_server(struct con *c) { long fa = dv_failat; dv_failat = -1; CHECK(bundle_go(bndl, server(c)) == 0, "harness", "go"); if(armed) dv_failat = fa; }
static void drain(int fd) { char b[4096]; while(read(fd, b, sizeof b) > 0); }
static coroutine void outcome(struct att *a) {
    int rc = msleep(a->at); if(rc < 0 || a->peer < 0) return;
    if(a->l->kind[a->v6][a->idx] == OKAY) drain(a->peer); else { close(a->peer); a->peer = -1; extra--; }
}
static void l_outcome(struct att *a) { long fa = dv_failat; dv_failat = -1; CHECK(bundle_go(bndl, outcome(a)) == 0, "harness", "go"); if(armed) dv_failat = fa; }
static int onconnect(int fd, const struct sockaddr *sa, socklen_t len, int *rc) {
    int v6 = sa->sa_family == AF_INET6; struct sockaddr_in a; unsigned char ip[16] = {0}; int port; if(v6) { struct sockaddr_in6 z; CHECK(len >= sizeof z, "contact", "address length %d", (int)len); memcpy(&z, sa, sizeof z); memcpy(ip, &z.sin6_addr, 16); port = ntohs(z.sin6_port); } else { CHECK(sa->sa_family == AF_INET, "contact", "family %d", sa->sa_family); memcpy(&a, sa, sizeof a); memcpy(ip, &a.sin_addr, 4); port = ntohs(a.sin_port); }
    int st = 0; socklen_t sl = sizeof st; getsockopt(fd, SOL_SOCKET, SO_TYPE, &st, &sl);
    if(st == SOCK_SEQPACKET) { *rc = 0; return 1; } /* asked again */
    if(st == SOCK_DGRAM) { CHECK(!v6 && ip[0] == 127, "contact", "datagram to somewhere else"); CHECK(port == 53, "contact", "name server port %d", port); int sp[2]; CHECK(socketpair(AF_UNIX, SOCK_SEQPACKET | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sp) == 0, "harness", "socketpair"); dup2(sp[0], fd); close(sp[0]); struct con *c = calloc(1, sizeof *c); c->fd = sp[1]; c->refs = 1; extra++; l_server(c); *rc = 0; return 1; }
    for(int i = 0; i < nL; i++) { struct look *l = L[i]; if(l->port != port) continue; for(int k = 0; k < l->n[v6]; k++) if(!memcmp(l->a[v6][k], ip, v6 ? 16 : 4)) {
        CHECK(l->live, "straggler", "an attempt after the function returned"); CHECK(!l->tried[v6][k], "repeated", "address connected to twice"); l->tried[v6][k] = 1; struct att *t = calloc(1, sizeof *t); t->l = l; t->v6 = v6; t->idx = k; t->t = now(); t->at = t->t + l->when[v6][k]; t->fd = fd; t->peer = -1; l->log[l->nlog++] = t; int kd = l->kind[v6][k];
        dv_log("  %lld: attempt on %s address %d, outcome %d at %lld", (long long)(t->t - l->t0), v6 ? "IPv6" : "IPv4", k, kd, (long long)(kd == OKAY || kd == REFUSE ? t->at - l->t0 : 0)); dv_stat("attempts", 1);
        if(kd == FAILNOW) { static const int er[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, EADDRNOTAVAIL, EACCES}; errno = er[dv_below(5)]; *rc = -1; return 1; }
        int sp[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sp) == 0, "harness", "socketpair"); int z = 1; setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); dup2(sp[0], fd); close(sp[0]); t->peer = sp[1]; extra++;
        if(kd == NOW) { *rc = 0; return 1; }
        char f[1024] = {0}; while(write(fd, f, sizeof f) > 0); while(write(fd, f, 1) > 0); if(kd != SILENT) l_outcome(t); errno = EINPROGRESS; *rc = -1; return 1;
    } }
    dv_fail("contact", "connecting to an address which %s port %d does not have", v6 ? "v6" : "v4", port); return 0;
}
static int64_t pick(void) { int r = dv_below(10); return r < 3 ? 0 : r < 5 ? dv_below(60) : r < 7 ? dv_below(700) : r < 9 ? dv_below(3000) : -1; }
static struct look *mk(void) {
    struct look *l = calloc(1, sizeof *l); snprintf(l->name, sizeof l->name, "n%u.t", ++ctr); l->port = 1 + dv_below(65535); if(l->port == 53) l->port = 54; for(int i = 0; i < nL; i++) if(L[i]->port == l->port) l->port = l->port % 65000 + 1000;
    int theme = dv_below(5);
    for(int f = 0; f < 2; f++) {
        l->n[f] = dv_pct(20) ? 0 : 1 + (int)dv_below(dv_pct(80) ? 4 : 12); if(l->n[f] > 10) l->n[f] = dv_pct(50) ? 10 : f ? 12 : 11; l->delay[f] = theme == 4 ? 0 : pick(); l->arr[f] = -1; if(l->n[f] > 12) l->n[f] = 12;
        for(int i = 0; i < l->n[f]; i++) { for(int j = 0; j < (f ? 16 : 4); j++) l->a[f][i][j] = dv_rand(); l->a[f][i][0] = f ? 0x20 : 10; l->a[f][i][f ? 15 : 3] = i; int r = dv_below(10); l->kind[f][i] = theme == 0 ? (r < 5 ? SILENT : r < 8 ? REFUSE : FAILNOW) : r < 2 ? NOW : r < 5 ? OKAY : r < 7 ? REFUSE : r < 9 ? SILENT : FAILNOW; if(theme == 1 && l->kind[f][i] == NOW) l->kind[f][i] = OKAY; l->when[f][i] = dv_pct(50) ? dv_below(320) : dv_below(4000); }
    }
    if(dv_pct(12)) { l->delay[0] = l->delay[1] = 0; int f = dv_pct(50), n = 1; l->hosts = 1; l->arr[0] = l->arr[1] = -2; /* a literal */ l->n[!f] = 0; if(!l->n[f]) { l->kind[f][0] = OKAY; l->when[f][0] = 100; for(int j = 0; j < (f ? 16 : 4); j++) l->a[f][0][j] = dv_rand(); l->a[f][0][0] = f ? 0x20 : 10; } l->n[f] = n; inet_ntop(f ? AF_INET6 : AF_INET, l->a[f][0], l->name, sizeof l->name); for(int i = 0; i < nL; i++) if(!strcmp(L[i]->name, l->name)) { free(l); return mk(); } }
    return l;
}
#define SL 4
static void judge(struct look *l, int64_t R, int64_t dl, int res, int e) {
    int used[2] = {0, 0}, prevf = 0, bad = 0; int64_t prev = -1, S = -1, E0 = 0; struct att *win = NULL; const int64_t INF = 1ll << 60; int64_t arr[2]; for(int f = 0; f < 2; f++) arr[f] = l->arr[f] == -2 ? l->t0 : l->arr[f] < 0 ? INF : l->arr[f]; int n[2] = {l->n[0] > 10 ? 10 : l->n[0], l->n[1] > 10 ? 10 : l->n[1]};
    for(int k = 0; k <= l->nlog; k++) {
        struct att *a = k < l->nlog ? l->log[k] : NULL; int64_t E, c[2]; for(int f = 0; f < 2; f++) c[f] = used[f] < n[f] ? arr[f] : INF;
        int64_t first = c[0] < c[1] ? c[0] : c[1]; if(k == 0) { int64_t g = arr[1] < l->t0 + 50 ? arr[1] : l->t0 + 50; /* IPv6 gets a head start */ E = E0 = first > g ? first : g; if(!n[1]) E = first > l->t0 + 50 ? first : l->t0 + 50; /* having no IPv6 addresses may take more than one query to find out */ else E0 = E; } else E = first > prev + 300 ? first : prev + 300;
        if(!a) { if(E < INF) CHECK(R <= E + SL || (S >= 0 && S <= E + SL), "stalled", "no attempt %d although one was due after %lld ms; the call ended after %lld", k, (long long)(E - l->t0), (long long)(R - l->t0)); break; }
        int f = a->v6; CHECK(used[f] < n[f], "limit", "attempt on address %d of %d", used[f], n[f]); CHECK(E < INF, "early", "attempt %d on an address not known yet", k);
        if(prev >= 0) CHECK(a->t >= prev + 300 - 1, "hasty", "attempt %d follows %lld ms after the previous one", k, (long long)(a->t - prev)); CHECK(a->t >= (k ? E : E0) - SL && a->t <= E + SL, "schedule", "attempt %d after %lld ms instead of %lld", k, (long long)(a->t - l->t0), (long long)(E - l->t0));
        int p = prev < 0 ? 1 : !prevf; if(c[p] <= E - SL || (k == 0 && c[p] <= E && p == 1 && c[1] + SL < l->t0 + 50)) CHECK(f == p, "alternate", "attempt %d goes to %s although an address of the other family is due", k, f ? "IPv6" : "IPv4"); if(c[p] > E + SL) CHECK(f == !p, "alternate", "attempt %d", k);
        CHECK(S < 0 || a->t <= S + SL, "straggler", "attempt %d although a connection was made", k); used[f]++; prev = a->t; prevf = f; int kd = l->kind[f][a->idx]; int64_t s = kd == NOW ? a->t : kd == OKAY ? a->at : -1; if(s >= 0 && (S < 0 || s < S)) { S = s; win = a; }
    }
    (void)bad;
    if(res >= 0) { CHECK(S >= 0, "invented", "connected although no address accepted"); CHECK(R >= S - 1 && R <= S + SL, "late", "connection made after %lld ms returned after %lld", (long long)(S - l->t0), (long long)(R - l->t0)); dv_stat("connected", 1); }
    else if(e == ETIMEDOUT) { CHECK(dl >= 0 && R >= dl && R <= (dl > l->t0 ? dl : l->t0) + 1, "timeout", "ETIMEDOUT after %lld with deadline %lld", (long long)(R - l->t0), (long long)(dl - l->t0)); CHECK(S < 0 || S >= dl - SL, "missed", "timed out although connected after %lld ms", (long long)(S - l->t0)); dv_stat("timeouts", 1); (void)win; }
    else CHECK(e == ECANCELED, "error", "failed with errno %d", e);
}
static void closeall(struct look *l, int res, const char *what) { /* everything but the result is closed when the function returns */
    int open = 0; for(int k = 0; k < l->nlog; k++) if(l->log[k]->peer >= 0) { struct pollfd p = {l->log[k]->peer, POLLIN, 0}; poll(&p, 1, 0); if(!(p.revents & (POLLHUP | POLLERR))) open++; }
    CHECK(open == (res >= 0), "left-open", "%s: %d connections open", what, open);
}
static void run1(int cancelable, int fault, int concurrent) {
    struct look *l = mk(); L[nL++] = l; int64_t dl = dv_pct(15) ? 0 : dv_pct(15) ? -1 : dv_pct(50) ? now() + dv_below(1000) : now() + dv_below(9000); int ok = 0; for(int f = 0; f < 2; f++) { int good = 0; for(int i = 0; i < l->n[f]; i++) good += l->delay[f] >= 0 && (l->kind[f][i] == NOW || l->kind[f][i] == OKAY); ok |= good > (l->n[f] > 10 ? l->n[f] - 10 : 0); /* any ten of them are used */ } if(dl == -1 && (!ok || fault)) dl = now() + 20000; if(concurrent && dl == -1) dl = now() + 15000;
    l->t0 = now(); l->live = 1; int f0 = dv_fdcount() - extra; dv_log("connect to %s port %d deadline %lld: %d IPv6 after %lld, %d IPv4 after %lld", l->name, l->port, (long long)(dl - l->t0), l->n[1], (long long)l->delay[1], l->n[0], (long long)l->delay[0]);
    errno = 0; int h = happyeyeballs_connect(l->name, l->port, dl), e = errno; int64_t R = now(); l->live = 0; l->end = R; dv_log("  %lld: result %d %s", (long long)(R - l->t0), h, h < 0 ? strerror(e) : ""); dv_sig(dv_hash(&R, 0, l->nlog * 31 + (R - l->t0) + (h >= 0))); dv_max("attempts_in_one", l->nlog); if(l->nlog > 3) dv_stat("long", 1);
    int f1 = dv_fdcount() - extra; if(!concurrent) CHECK(f1 == f0 + (h >= 0), "fd-leak", "%d descriptors, %d before, result %d", f1, f0, h);
    closeall(l, h, "on return");
    if(fault && dv_failed_kind >= 0) { if(h < 0) CHECK(e == ETIMEDOUT || e == ENOMEM || e == EMFILE || (e == ECANCELED && cancelable), "error", "failed with errno %d after %s failed", e, dv_kindname[dv_failed_kind]); dv_stat("fault_survived", 1); }
    else { if(h < 0 && e == ECANCELED) { CHECK(cancelable, "error", "ECANCELED in a coroutine not cancelled"); dv_stat("cancelled", 1); } judge(l, R, dl, h, e); }
    if(h >= 0) { /* it is a working connection, the one which succeeded */
        struct att *w = NULL; for(int k = 0; k < l->nlog; k++) if(l->log[k]->peer >= 0) { struct pollfd p = {l->log[k]->peer, POLLIN, 0}; poll(&p, 1, 0); if(!(p.revents & (POLLHUP | POLLERR))) w = l->log[k]; }
        CHECK(w && (l->kind[w->v6][w->idx] == NOW || l->kind[w->v6][w->idx] == OKAY), "wrong", "the connection is not to a working address"); char m[20], g[20]; long fa = dv_failat; dv_failat = -1; int n = 1 + dv_below(18); for(int i = 0; i < n; i++) m[i] = dv_rand();
        CHECK(bsend(h, m, n, cancelable ? 0 : -1) == 0 || cancelable, "send", "errno %d", errno); if(!cancelable) { CHECK(read(w->peer, g, sizeof g) == n && !memcmp(m, g, n), "data", "sent data differ"); CHECK(write(w->peer, m, n) == n, "harness", "write"); CHECK(brecv(h, g, n, -1) == 0 && !memcmp(m, g, n), "data", "received data differ"); }
        if(!cancelable && dv_pct(30)) { CHECK(tcp_done(h, -1) == 0 && read(w->peer, g, 1) == 0, "done", "end of stream"); close(w->peer); w->peer = -1; extra--; CHECK(tcp_close(h, -1) == 0, "close", "errno %d", errno); } else CHECK(hclose(h) == 0, "close", "errno %d", errno); (void)fa; dv_failat = -1;
    }
    closeall(l, -1, "after close"); for(int k = 0; k < l->nlog; k++) if(l->log[k]->peer >= 0) { close(l->log[k]->peer); l->log[k]->peer = -1; extra--; }
    if(!concurrent) { f1 = dv_fdcount() - extra; CHECK(f1 == f0, "fd-leak", "%d descriptors, %d before", f1, f0); }
}
static struct look *G[200]; static int nG;
static void forget(void) { for(int i = 0; i < nL; i++) { CHECK(nG < 200, "harness", "graves"); G[nG++] = L[i]; L[i] = NULL; } nL = 0; }
static void bury(void) { for(int i = 0; i < nG; i++) { for(int k = 0; k < G[i]->nlog; k++) free(G[i]->log[k]); free(G[i]); } nG = 0; }
static coroutine void client(int c, int conc) { run1(c, 0, conc); }
static int l_one(int c) { return go(client(c, 1)); }
static void l_many(int b) { CHECK(bundle_go(b, client(0, 1)) == 0, "harness", "go"); }
static coroutine void idle(void) { msleep(now() + 10); }
static void l_idle(int b) { CHECK(bundle_go(b, idle()) == 0, "harness", "go"); }
static coroutine void hold(void) { msleep(-1); }
static void l_hold(int b) { CHECK(bundle_go(b, hold()) == 0, "harness", "go"); }
static int retry(void) { return 1; }
void dv_case(void) {
    dv_deadlock = retry; dv_on_connect = onconnect; extra = 0;
    dv_etc("/etc/resolv.conf", "nameserver 127.0.0.1\nsearch .\noptions timeout:5 attempts:1\nlookup file bind\n"); dv_etc("/etc/hosts", "127.0.0.1 localhost\n");
    bndl = bundle(); now(); { int wb = bundle(); for(int i = 0; i < 80; i++) l_idle(wb); CHECK(bundle_wait(wb, -1) == 0, "harness", "wait"); hclose(wb); struct ipaddr ia; ipaddr_remote(&ia, "x.y", 1, 0, -1); msleep(now() + 10); }
    int n = 6 + dv_below(12); long a0 = dv_live_allocs; int f0 = dv_fdcount(); if(dv_verbose) dv_dump_allocs("start");
    while(n--) {
        int k = dv_below(10); dv_failed_kind = -1;
        if(k < 6) run1(0, 0, 0);
        else if(k == 6) { int b = bundle(); for(int i = 2 + dv_below(4); i--;) l_many(b); CHECK(bundle_wait(b, -1) == 0, "harness", "wait"); hclose(b); dv_stat("concurrent", 1); }
        else if(k == 7) { int h = l_one(1); if(dv_pct(90)) msleep(now() + dv_below(2000)); hclose(h); dv_stat("cancellations", 1); }
        else if(k == 8) { struct { const char *n; int p; } b[] = {{NULL, 80}, {"x", 0}, {"x", -1}, {"x", 65536}, {"1.2.3.4", 100000}}; int i = dv_below(5); errno = 0; int64_t t0 = now(); int h = happyeyeballs_connect(b[i].n, b[i].p, now() + 1000); CHECK(h == -1 && errno == EINVAL && now() == t0, "arguments", "name %s port %d: %d, errno %d", b[i].n ? b[i].n : "NULL", b[i].p, h, errno); dv_stat("bad_args", 1); }
        else { dv_failmask = 1u << DV_MALLOC | 1u << DV_SOCKET | 1u << DV_GETSOCK; int hb = -1; if(dv_pct(60)) { /* no cached stack is left, so coroutines cannot be started either */ hb = bundle(); for(int i = 0; i < 70; i++) l_hold(hb); } int fa = dv_pct(60) ? dv_below(6) : dv_below(40), reps = dv_pct(80) || fa > 5 ? 1 : 8; while(reps--) { dv_failat = fa; dv_failed_kind = -1; armed = 1; long nf = dv_nfailed; run1(0, 1, 0); armed = 0; dv_failat = -1; if(dv_nfailed > nf) dv_stat("faults", 1); if(reps) { msleep(now() + 10000); if(nL) forget(); } } if(hb >= 0) hclose(hb); }
        if(dv_pct(50)) msleep(now() + dv_below(10000)); if(nL) forget();
    }
    msleep(now() + 20000); int f1 = dv_fdcount(); CHECK(f1 == f0 && extra == 0, "fd-leak", "%d descriptors, %d before", f1, f0); long a1 = dv_live_allocs; if(dv_verbose) dv_dump_allocs("end"); CHECK(a1 <= a0 + 4, "leak", "%ld blocks, %ld before", a1, a0); dv_max("blocks_grown", a1 - a0);
    hclose(bndl); bury(); dv_nontrivial(); dv_sample("%u names looked up", ctr);
}
