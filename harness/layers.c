/* Stacks of protocols with counting layers in between. Modes: p (P06: ownership, attach, detach, close, failures), m (R01: the same in caller-supplied storage),
   c (R03: any such program repeated changes nothing). */
#include "net.h"
#define DILL_H2
#include "libdillimpl.h"
#include <fcntl.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <openssl/ssl.h>
#include "cert.h"
static long ossl; static void *om(size_t n, const char *f, int l) { void *p = malloc(n); if(p) ossl++; return p; }
static void *orl(void *p, size_t n, const char *f, int l) { if(!p) ossl++; void *q = realloc(p, n); if(n == 0 && p) ossl--; return q; }
static void ofr(void *p, const char *f, int l) { if(p) ossl--; free(p); }
__attribute__((constructor)) static void early_(void) { CRYPTO_set_mem_functions(om, orl, ofr); }
static int retry(void) { return 1; }
/* ---- caller-supplied storage: given back to the pool, it must not change any more ---- */
static int allmem, cycles; struct yard { unsigned char *p; size_t n; struct yard *next; }; static struct yard *yard;
static void *take(size_t n) { return (allmem || dv_pct(40)) ? dv_galloc(n) : NULL; }
static void retire(void *p, size_t n) {
    if(!p) return; dv_stat("storage_retired", 1);
    if(DV_ASAN && dv_pct(50)) { dv_gfree(p); return; }
    memset(p, 0x5d, n); struct yard *y = malloc(sizeof *y); y->p = p; y->n = n; y->next = yard; yard = y;
}
static void sweep(void) { while(yard) { struct yard *y = yard; for(size_t i = 0; i < y->n; i++) CHECK(y->p[i] == 0x5d, "storage-used", "byte %zu of %zu of the storage changed after its object was gone", i, y->n); dv_gfree(y->p); yard = y->next; free(y); } }
static int taptype_;
/* ---- counting layer, bytestream or message ---- */
struct tap { struct dill_hvfs hv; struct dill_bsock_vfs bv; struct dill_msock_vfs mv; int u, msg, closed, detached; };
static void *tq(struct dill_hvfs *h, const void *t) { struct tap *x = (struct tap*)h; if(t == &taptype_) return x; if(t == dill_bsock_type && !x->msg) return &x->bv; if(t == dill_msock_type && x->msg) return &x->mv; errno = ENOTSUP; return NULL; }
static void tclose(struct dill_hvfs *h) { struct tap *x = (struct tap*)h; x->closed++; CHECK(x->closed == 1, "double-close", "a layer was closed %d times", x->closed); if(!x->detached) { int rc = dill_hclose(x->u); CHECK(rc == 0, "close", "closing what is beneath: errno %d", errno); } }
#define TB(b) struct tap *x = (struct tap*)((char*)b - offsetof(struct tap, bv)); CHECK(!x->closed, "use-after-close", "a layer is used after it was closed")
#define TM(b) struct tap *x = (struct tap*)((char*)b - offsetof(struct tap, mv)); CHECK(!x->closed, "use-after-close", "a layer is used after it was closed")
/* mode k: the karm-th operation in direction kdir fails with kerr, having done its work or not; afterwards everything works again */
static int karm = -1, kdir, kerr, kafter; static long kcalls[2]; static struct tap *kt;
#define KF(d, op) if(x == kt) { kcalls[d]++; if(karm >= 0 && kdir == d && karm-- == 0) { if(kafter) op; errno = kerr; return -1; } }
static int tbs(struct dill_bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) { TB(b); KF(0, dill_bsendl(x->u, f, l, dl)) return dill_bsendl(x->u, f, l, dl); }
static int tbr(struct dill_bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) { TB(b); KF(1, dill_brecvl(x->u, f, l, dl)) return dill_brecvl(x->u, f, l, dl); }
static int tms(struct dill_msock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) { TM(b); return dill_msendl(x->u, f, l, dl); }
static ssize_t tmr(struct dill_msock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) { TM(b); return dill_mrecvl(x->u, f, l, dl); }
/* ---- stacks ---- */
enum { TAP, PREFIX, SUFFIX, TERM, WSN, WSH, HTTP, TLS, NL }; static const char *ln[] = {"tap", "prefix", "suffix", "term", "ws (no http)", "ws", "http", "tls"};
enum { B, M, H };
struct layer { int kind, le; size_t hl; char x[4]; int xl; void *m; size_t ml; struct tap *t; int type; };
static struct side { int h, n, alive, basek; struct layer l[10]; void *bm; size_t bml; } S[2];
static int type(int i) { return S[i].n ? S[i].l[S[i].n - 1].type : B; }
struct q { char b[1200]; int n, msg; int len[12], nm; }; static struct q Q[2];  /* in flight to side i */
static int ctr;
static int tight = -1;   /* mode g: so many handles can be made before the table grows; their numbers are reused at once */
static void invalid(int h, const char *what) { if(tight >= 0) return; errno = 0; void *r = dill_hquery(h, &taptype_); CHECK(!r && errno == EBADF, "still-valid", "the handle passed to %s is still valid (errno %d)", what, errno); }
static int nattach, ndetach;
/* attaches the layer, returns the new handle or -1 */
static int attach(struct layer *l, int server, int s, int64_t dl) {
    int h = -1, e; char rb[64], hb[64]; long a0 = dv_live_allocs; l->m = NULL; l->ml = 0;
    switch(l->kind) {
    case TAP: { struct tap *x = l->t = calloc(1, sizeof *x); int u = dill_hown(s); CHECK(u >= 0, "harness", "hown"); x->hv.query = tq; x->hv.close = tclose; x->bv.bsendl = tbs; x->bv.brecvl = tbr; x->mv.msendl = tms; x->mv.mrecvl = tmr; x->u = u; x->msg = l->type == M; h = dill_hmake(&x->hv); CHECK(h >= 0, "harness", "hmake"); return h; }
    case PREFIX: l->m = take(l->ml = sizeof(struct prefix_storage)); h = l->m ? prefix_attach_mem(s, l->hl, l->le ? PREFIX_LITTLE_ENDIAN : 0, l->m) : prefix_attach(s, l->hl, l->le ? PREFIX_LITTLE_ENDIAN : 0); break;
    case SUFFIX: l->m = take(l->ml = sizeof(struct suffix_storage)); h = l->m ? suffix_attach_mem(s, l->x, l->xl, l->m) : suffix_attach(s, l->x, l->xl); break;
    case TERM: l->m = take(l->ml = sizeof(struct term_storage)); h = l->m ? term_attach_mem(s, l->x, l->xl, l->m) : term_attach(s, l->x, l->xl); break;
    case WSN: case WSH: { l->m = take(l->ml = sizeof(struct ws_storage)); int f = WS_BINARY | (l->kind == WSN ? WS_NOHTTP : 0);
        if(server) h = l->m ? ws_attach_server_mem(s, f, rb, sizeof rb, hb, sizeof hb, l->m, dl) : ws_attach_server(s, f, rb, sizeof rb, hb, sizeof hb, dl); else h = l->m ? ws_attach_client_mem(s, f, "/r", "h.example", l->m, dl) : ws_attach_client(s, f, "/r", "h.example", dl); break; }
    case HTTP: l->m = take(l->ml = sizeof(struct http_storage)); h = l->m ? http_attach_mem(s, l->m) : http_attach(s); break;
    case TLS: l->m = take(l->ml = sizeof(struct tls_storage));
        if(server) h = l->m ? tls_attach_server_mem(s, certf, keyf, l->m, dl) : tls_attach_server(s, certf, keyf, dl); else h = l->m ? tls_attach_client_mem(s, l->m, dl) : tls_attach_client(s, dl); break;
    }
    e = errno; nattach++; dv_stat("attached", h >= 0); if(h < 0 || (h != s && l->kind != WSH && l->kind != HTTP && l->kind != TLS)) invalid(s, ln[l->kind]);
    if(h >= 0 && l->m && l->kind != TLS && l->kind != WSH) { CHECK(dv_live_allocs == a0, "outside-storage", "%s was given storage but allocated %ld blocks", ln[l->kind], dv_live_allocs - a0); dv_stat("in_storage", 1); }
    if(h < 0) { retire(l->m, l->ml); l->m = NULL; } errno = e; return h;
}
static int detach(struct layer *l, int s, int64_t dl) {
    int h = -1, e;
    switch(l->kind) {
    case TAP: { int u = l->t->u; l->t->detached = 1; int rc = hclose(s); CHECK(rc == 0 && l->t->closed == 1, "close", "closing a layer"); free(l->t); l->t = NULL; return u; }
    case PREFIX: h = prefix_detach(s); break;
    case SUFFIX: h = suffix_detach(s, dl); break;
    case TERM: h = term_detach(s, dl); break;
    case WSN: case WSH: h = dv_pct(50) ? ws_detach(s, 0, NULL, 0, dl) : ws_detach(s, 1000, "bye", 3, dl); break;
    case HTTP: h = http_detach(s, dl); break;
    case TLS: h = tls_detach(s, dl); break;
    }
    e = errno; ndetach++; dv_stat("detached", h >= 0); if(h != s) invalid(s, "detach"); retire(l->m, l->ml); l->m = NULL; errno = e; return h;
}
/* everything of side i has to be gone */
static int fds0;
static int nbase(void) { return (S[0].alive ? 1 : 0) + (S[1].alive ? 1 : 0); }
static void gone(int i, const char *what) {
    struct side *s = &S[i]; for(int k = 0; k < s->n; k++) { struct layer *l = &s->l[k]; if(l->kind == TAP) { CHECK(l->t->closed == 1, "not-closed", "%s: layer %d of %d was closed %d times", what, k, s->n, l->t->closed); free(l->t); dv_stat("taps_closed", 1); } else if(l->m) { retire(l->m, l->ml); l->m = NULL; } }
    dv_max("depth_closed", s->n); s->n = 0; s->alive = 0; if(s->basek) { retire(s->bm, s->bml); s->bm = NULL; } else if(!S[!i].alive) { retire(S[0].bm, S[0].bml); S[0].bm = NULL; }
    int f = dv_fdcount(); CHECK(f == fds0 + nbase(), "fd", "%s: %d descriptors open instead of %d", what, f, fds0 + nbase());
}
static void intact(int i, const char *what) { struct side *s = &S[i]; for(int k = 0; k < s->n; k++) if(s->l[k].kind == TAP) CHECK(!s->l[k].t->closed, "closed", "%s: layer %d of %d was closed", what, k, s->n); int f = dv_fdcount(); CHECK(f == fds0 + nbase(), "fd", "%s: %d descriptors open instead of %d", what, f, fds0 + nbase()); }
/* ---- base sockets ---- */
static char path[100]; static int conn;
static coroutine void conn_(int kind, struct ipaddr *a, void *m) { conn = kind == 2 ? (m ? ipc_connect_mem(path, m, -1) : ipc_connect(path, -1)) : m ? tcp_connect_mem(a, m, -1) : tcp_connect(a, -1); }
static int l_conn(int kind, struct ipaddr *a, void *m) { return go(conn_(kind, a, m)); }
static int holders = -1;   /* a bundle of sleeping coroutines: no cached stack is left */
static void base(void) {
    int r = dv_below(100), kind = r < 60 ? 0 : r < 75 ? 1 : r < 93 ? 2 : 3, p[2], rc = 0; memset(S, 0, sizeof S); memset(Q, 0, sizeof Q); long a0 = dv_live_allocs; void *lm = NULL;
    if(kind == 0) { if(allmem || dv_pct(40)) { struct ipc_pair_storage *m = dv_galloc(sizeof *m); rc = ipc_pair_mem(m, p); S[0].bm = m; S[0].bml = sizeof *m; CHECK(dv_live_allocs == a0, "outside-storage", "ipc_pair_mem allocated"); } else rc = ipc_pair(p); CHECK(rc == 0, "harness", "ipc_pair: errno %d", errno); }
    else if(kind == 1) { int f[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, f) == 0, "harness", "socketpair"); for(int i = 0; i < 2; i++) { S[i].bm = take(S[i].bml = sizeof(struct ipc_storage)); p[i] = S[i].bm ? ipc_fromfd_mem(f[i], S[i].bm) : ipc_fromfd(f[i]); CHECK(p[i] >= 0, "harness", "fromfd: errno %d", errno); } }
    else { struct ipaddr a; int l; size_t cs = kind == 2 ? sizeof(struct ipc_storage) : sizeof(struct tcp_storage); for(int i = 0; i < 2; i++) S[i].bm = take(S[i].bml = cs); lm = take(kind == 2 ? sizeof(struct ipc_listener_storage) : sizeof(struct tcp_listener_storage));
        if(kind == 2) { l = lm ? ipc_listen_mem(path, 3, lm) : ipc_listen(path, 3); } else { ipaddr_local(&a, "127.0.0.1", 0, 0); l = lm ? tcp_listen_mem(&a, 3, lm) : tcp_listen(&a, 3); } CHECK(l >= 0, "harness", "listen: errno %d", errno);
        int b = l_conn(kind, &a, S[0].bm); p[1] = kind == 2 ? (S[1].bm ? ipc_accept_mem(l, S[1].bm, -1) : ipc_accept(l, -1)) : S[1].bm ? tcp_accept_mem(l, NULL, S[1].bm, -1) : tcp_accept(l, NULL, -1); CHECK(bundle_wait(b, -1) == 0, "harness", "wait"); hclose(b); p[0] = conn; CHECK(p[0] >= 0 && p[1] >= 0, "harness", "connection: errno %d", errno);
        rc = hclose(l); CHECK(rc == 0, "close", "listener"); retire(lm, kind == 2 ? sizeof(struct ipc_listener_storage) : sizeof(struct tcp_listener_storage)); if(kind == 2) unlink(path);
        if(S[0].bm && S[1].bm && lm && holders < 0) CHECK(dv_live_allocs == a0, "outside-storage", "connections in given storage allocated %ld blocks", dv_live_allocs - a0); }
    for(int i = 0; i < 2; i++) { S[i].h = p[i]; S[i].alive = 1; S[i].basek = kind; }
    dv_grace = kind == 3; intact(0, "base"); dv_stat("stacks", 1); dv_log("base %d, %d %d", kind, S[0].h, S[1].h);
}
/* ---- steps ---- */
static void recv1(int i) { /* side i takes what is in flight, one item */
    struct q *q = &Q[i]; int t = type(i); char b[1300]; if(t == B) { if(!q->n) return; int n = 1 + dv_below(q->n); CHECK(brecv(S[i].h, b, n, -1) == 0, "recv", "errno %d", errno); CHECK(!memcmp(b, q->b, n), "data", "%d bytes differ", n); memmove(q->b, q->b + n, q->n -= n); }
    else { if(!q->nm) return; int n = q->len[0]; if(t == M) { ssize_t r = mrecv(S[i].h, b, sizeof b, -1); CHECK(r == n, "recv", "message of %d bytes: %zd, errno %d", n, r, errno); CHECK(!memcmp(b, q->b, n), "data", "message differs"); } else { char nm[100], v[600]; int r = http_recvfield(S[i].h, nm, sizeof nm, v, sizeof v, -1); CHECK(r == 0, "recv", "field: errno %d", errno); CHECK(!strcmp(nm, "F") && (int)strlen(v) == n && !memcmp(v, q->b, n), "data", "field differs"); } memmove(q->b, q->b + n, q->n -= n); memmove(q->len, q->len + 1, sizeof(int) * --q->nm); }
    dv_stat("received", 1);
}
static void drain(int i) { while(Q[i].n || Q[i].nm) recv1(i); }
static int room(int i) { return Q[i].n < 900 && Q[i].nm < 6; }
static void send1(int i) { /* from i to the other side */
    struct q *q = &Q[!i]; if(!room(!i)) return; int t = type(i), n = 1 + dv_below(t == B ? 40 : 12); char b[64]; for(int k = 0; k < n; k++) b[k] = 'a' + dv_below(16); int r;
    if(t == B) r = bsend(S[i].h, b, n, -1); else if(t == M) r = msend(S[i].h, b, n, -1); else { b[n] = 0; r = http_sendfield(S[i].h, "F", b, -1); } CHECK(r == 0, "send", "%s: errno %d", S[i].n ? ln[S[i].l[S[i].n - 1].kind] : "base", errno); memcpy(q->b + q->n, b, n); q->n += n; if(t != B) q->len[q->nm++] = n; dv_stat("sent", 1);
}
static void exchange(void) { for(int k = 1 + dv_below(6); k--;) { int i = dv_below(2); if(dv_pct(50)) send1(i); else recv1(i); } }
struct job { int i, h, e, marker; struct layer *l; int64_t dl; int s; };
static coroutine void att_(struct job *j) { j->h = attach(j->l, 1, j->s, j->dl); j->e = errno; }
static int l_att(struct job *j) { return go(att_(j)); }
static void det(struct job *j);
static coroutine void det_(struct job *j) { det(j); }
static int l_det(struct job *j) { return go(det_(j)); }
static void mk(struct layer *l, int kind, int under) { memset(l, 0, sizeof *l); l->kind = kind; l->le = dv_below(2); l->hl = 1 + dv_below(8); if(l->hl < 1) l->hl = 1; ctr = (ctr + 1) % 26; l->x[0] = 'A' + ctr; l->x[1] = '#'; l->xl = 2; if(kind == SUFFIX && dv_pct(50)) memcpy(l->x, "\r\n", 2); l->type = kind == TAP ? under : kind == TLS ? B : kind == HTTP ? H : M; }
static int pickkind(int t) { static const int kb[] = {TAP, TAP, PREFIX, SUFFIX, WSN, WSH, HTTP, TLS}; return t == B ? kb[dv_below(8)] : dv_pct(60) ? TERM : TAP; }
static void push(void) {
    int t = type(0); if(t == H || S[0].n >= 6) return; drain(0); drain(1); int k = pickkind(t); struct layer L; mk(&L, k, t); if(k == TLS && S[0].basek == 3 && dv_pct(60)) return; struct layer *l[2]; for(int i = 0; i < 2; i++) { l[i] = &S[i].l[S[i].n]; *l[i] = L; }
    if(k == TAP && dv_pct(30)) { /* on one side only */ int i = dv_below(2); S[i].h = attach(l[i], i, S[i].h, -1); S[i].n++; return; }
    if(k == WSH || k == TLS || k == WSN) { struct job j = {1, -1, 0, 0, l[1], -1, S[1].h}; int b = l_att(&j); S[0].h = attach(l[0], 0, S[0].h, -1); int e = errno; CHECK(bundle_wait(b, -1) == 0, "harness", "wait"); hclose(b); S[1].h = j.h; CHECK(S[0].h >= 0 && j.h >= 0, "attach", "%s: %d errno %d, %d errno %d", ln[k], S[0].h, e, j.h, j.e); }
    else for(int i = 0; i < 2; i++) { S[i].h = attach(l[i], i, S[i].h, -1); CHECK(S[i].h >= 0, "attach", "%s: errno %d", ln[k], errno); }
    S[0].n++; S[1].n++; dv_log("attach %s, depth %d", ln[k], S[0].n); dv_sig(k + 17 * S[0].n); dv_max("depth", S[0].n);
}
static void det(struct job *j) { j->h = detach(j->l, j->s, -1); j->e = errno; if(j->h < 0) return; S[j->i].n--; S[j->i].h = j->h; if(j->marker) { memset(&Q[!j->i], 0, sizeof(struct q)); send1(j->i); } }
static int depthreal(int i) { int n = 0; for(int k = 0; k < S[i].n; k++) n += S[i].l[k].kind != TAP; return n; }
static void pop(void) {
    /* one-sided taps are taken off first */
    for(int i = 0; i < 2; i++) while(S[i].n && S[i].l[S[i].n - 1].kind == TAP && (depthreal(0) || dv_pct(50))) { struct layer *l = &S[i].l[S[i].n - 1]; S[i].h = detach(l, S[i].h, -1); S[i].n--; dv_log("tap off %d", i); }
    if(!S[0].n || !S[1].n) return; if(S[0].l[S[0].n - 1].kind == TAP || S[1].l[S[1].n - 1].kind == TAP) return;
    struct layer *l[2] = {&S[0].l[S[0].n - 1], &S[1].l[S[1].n - 1]}; CHECK(l[0]->kind == l[1]->kind, "harness", "stacks differ"); int k = l[0]->kind; dv_log("detach %s at depth %d, in flight %d and %d", ln[k], S[0].n, Q[0].nm, Q[1].nm); dv_sig(100 + k + 17 * Q[0].nm);
    if(dv_pct(60)) exchange();
    if(k == PREFIX || k == SUFFIX) for(int i = 0; i < 2; i++) { /* messages not received become bytes of the stream below */
        struct q n; memset(&n, 0, sizeof n); int o = 0; for(int z = 0; z < Q[i].nm; z++) { if(k == PREFIX) { for(size_t y = 0; y < l[0]->hl; y++) { size_t sh = l[0]->le ? y : l[0]->hl - 1 - y; n.b[n.n++] = sh ? 0 : Q[i].len[z]; } } memcpy(n.b + n.n, Q[i].b + o, Q[i].len[z]); n.n += Q[i].len[z]; o += Q[i].len[z]; if(k == SUFFIX) { memcpy(n.b + n.n, l[0]->x, 2); n.n += 2; } } Q[i] = n; }
    if(k == PREFIX || k == SUFFIX) { int first = dv_below(2); for(int z = 0; z < 2; z++) { int i = z ? !first : first; int h = detach(l[i], S[i].h, -1); CHECK(h >= 0, "detach", "%s: errno %d", ln[k], errno); S[i].h = h; S[i].n--; } }
    else { struct job j[2]; for(int i = 0; i < 2; i++) { struct job x = {i, -1, 0, (int)dv_below(2), l[i], -1, S[i].h}; j[i] = x; } if(S[0].n > 1 && (S[0].l[S[0].n - 2].kind == TAP) != 0) {} memset(Q, 0, sizeof Q); int b = l_det(&j[0]); det(&j[1]); CHECK(bundle_wait(b, -1) == 0, "harness", "wait"); hclose(b); CHECK(j[0].h >= 0 && j[1].h >= 0, "detach", "%s: %d errno %d, %d errno %d", ln[k], j[0].h, j[0].e, j[1].h, j[1].e); }
    intact(0, "detach"); intact(1, "detach"); if(dv_pct(70)) { drain(0); drain(1); } exchange();
}
static void kill1(int i, const char *how) { int rc = hclose(S[i].h); CHECK(rc == 0, "close", "hclose: errno %d", errno); invalid(S[i].h, "hclose"); gone(i, how); dv_stat("closed", 1); }
static void both(int first) { kill1(first, "close"); int i = !first;
    /* the peer has to notice: whatever was in flight and then the end, no waiting */
    if(S[i].alive && dv_pct(80)) { int t = type(i); int64_t dl = now() + 5000; char b[1300], nm[100]; int n = 0; while(n++ < 2000) { ssize_t r = t == B ? brecv(S[i].h, b, 1, dl) : t == M ? mrecv(S[i].h, b, sizeof b, dl) : http_recvfield(S[i].h, nm, sizeof nm, b, sizeof b, dl); if(r < 0) { CHECK(errno != ETIMEDOUT, "not-closed", "the peer closed but the connection is still open (%s)", S[i].n ? ln[S[i].l[S[i].n - 1].kind] : "base"); break; } } CHECK(n < 2000, "not-closed", "no end"); dv_stat("end_seen", 1); intact(i, "peer closed"); }
    if(dv_pct(30)) { int64_t t = now(); struct layer *l = S[i].n ? &S[i].l[S[i].n - 1] : NULL; if(l && l->kind != TAP) { int h = detach(l, S[i].h, t + 1000); if(h >= 0) { S[i].h = h; S[i].n--; } else { gone(i, "failed detach"); dv_stat("failed_detach", 1); return; } } }
    kill1(i, "close"); }
static struct ipaddr nowhere;
static void wrong(int i) { /* operations for other kinds of objects change nothing */
    int t = type(i), k = S[i].n ? S[i].l[S[i].n - 1].kind : -1, s = S[i].h, r = 0; char b[64]; struct ipaddr a; const char *w = ""; int what = dv_below(26); errno = 0; int killer = 0; int nh = -2;
    #define W(n, c, e) case n: if(!(c)) return; w = #e; r = (e); break;
    switch(what) { W(0, t != B, bsend(s, "x", 1, -1)) W(1, t != B, brecv(s, b, 1, -1)) W(2, t != M, msend(s, "x", 1, -1)) W(3, t != M, (int)mrecv(s, b, 9, -1)) W(4, 1, chsend(s, b, 1, -1)) W(5, 1, chrecv(s, b, 1, -1)) W(6, 1, chdone(s)) W(7, 1, bundle_wait(s, -1))
        W(8, k >= 0 || S[i].basek != 3, tcp_done(s, -1)) W(9, k >= 0 || S[i].basek == 3, ipc_done(s, -1)) W(10, 1, tcp_accept(s, &a, -1)) W(11, 1, ipc_accept(s, -1)) W(12, 1, udp_send(s, &a, "x", 1)) W(13, 1, (int)udp_recv(s, &a, b, 9, -1)) W(14, k != TERM, term_done(s, -1)) W(15, k != HTTP, http_done(s, -1)) W(16, k != TLS, tls_done(s, -1)) W(17, k != WSN && k != WSH, ws_done(s, 0, NULL, 0, -1))
        W(18, k != HTTP, http_sendfield(s, "a", "b", -1)) W(19, k != HTTP, http_recvstatus(s, b, 9, -1)) W(20, k != WSN && k != WSH, ws_send(s, WS_TEXT, "x", 1, -1)) W(21, k >= 0 || S[i].basek == 3, ipc_sendfd(s, 0, -1))
        W(22, k != TERM, (killer = 1, nh = term_detach(s, 0))) W(23, k != HTTP, (killer = 1, nh = http_detach(s, 0))) W(24, k != PREFIX, (killer = 1, nh = prefix_detach(s))) W(25, k != TLS, (killer = 1, nh = tls_detach(s, 0))) }
    CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "%s on %s returned %d, errno %d instead of ENOTSUP", w, k < 0 ? "a base socket" : ln[k], r, errno); dv_stat("wrong_kind", 1); dv_log("wrong: %s", w); dv_sig(what + 300);
    if(killer) { /* whether the socket survives is not said, but not half of it */ errno = 0; if(dill_hquery(s, &taptype_) == NULL && errno == EBADF) { gone(i, "detach of another protocol"); kill1(!i, "close"); return; } }
    intact(i, w);
}
static void badargs(int i) { /* attach fails: everything beneath is closed */
    int t = type(i), s = S[i].h, r = 0, what = dv_below(22), want = 0; const char *w = ""; struct { char c[2000]; } st; int64_t t0 = now(); char rb[32]; errno = 0; long nf = dv_nfailed; int fault = 0; nowhere = nowhere;
    #define E(n, c, er, e) case n: if(!(c)) return; w = #e; want = er; r = (e); break;
    #define F(n, c, e) case n: if(!(c)) return; w = #e; want = ENOMEM; dv_failmask = 1u << DV_MALLOC; dv_failat = 0; fault = 1; r = (e); break;
    switch(what) { E(0, t != B, EPROTO, prefix_attach(s, 2, 0)) E(1, t != B, EPROTO, suffix_attach(s, "ab", 2)) E(2, t != B, EPROTO, http_attach(s)) E(3, t != B, EPROTO, ws_attach_client(s, WS_BINARY | WS_NOHTTP, NULL, NULL, -1)) E(4, t != B, EPROTO, ws_attach_server(s, WS_BINARY, NULL, 0, NULL, 0, -1)) E(5, t != B, EPROTO, tls_attach_client(s, -1)) E(6, t != B, EPROTO, tls_attach_server(s, certf, keyf, -1)) E(7, t != M, EPROTO, term_attach(s, "ab", 2))
        E(8, 1, EINVAL, prefix_attach(s, 0, 0)) E(9, 1, EINVAL, suffix_attach(s, NULL, 2)) E(10, 1, EINVAL, suffix_attach(s, "ab", 0)) E(11, 1, EINVAL, term_attach(s, NULL, 3)) E(12, t == M, EINVAL, term_attach_mem(s, "a", 100, (void*)&st)) E(13, 1, EINVAL, prefix_attach_mem(s, 2, 0, NULL)) E(14, t == B, -1, tls_attach_server(s, "/nonexistent", keyf, -1))
        F(15, t == B, prefix_attach(s, 2, 0)) F(16, t == B, suffix_attach(s, "ab", 2)) F(17, t == B, http_attach(s)) F(18, t == M, term_attach(s, "ab", 2)) F(19, t == B, ws_attach_client(s, WS_BINARY | WS_NOHTTP, NULL, NULL, -1))
        E(20, t == B, ETIMEDOUT, dv_pct(50) ? ws_attach_client(s, WS_BINARY, "/", "h", t0 + 100) : ws_attach_server(s, WS_BINARY, rb, 32, NULL, 0, t0 + 100)) E(21, t == B, ETIMEDOUT, dv_pct(50) ? tls_attach_client(s, t0 + 100) : tls_attach_server(s, certf, keyf, t0 + 100)) }
    int e = errno; dv_failat = -1; if(fault && dv_nfailed == nf) CHECK(0, "harness", "no fault in %s", w);
    if(want == ETIMEDOUT && r == -1 && e != ETIMEDOUT && Q[i].n) want = e; /* what was in flight is not a handshake */
    CHECK(r == -1, "bad-accepted", "%s on %s succeeded", w, t == B ? "a bytestream" : t == M ? "a message socket" : "http"); CHECK(want < 0 || e == want, "bad-errno", "%s: errno %d instead of %d", w, e, want); if(want == ETIMEDOUT) CHECK(now() >= t0 + 100 && now() <= t0 + 102, "timeout", "%s returned after %lld ms", w, (long long)(now() - t0));
    invalid(s, w); gone(i, w); dv_stat("failed_attach", 1); dv_log("failed: %s", w); dv_sig(what + 400); both2: if(S[!i].alive) { kill1(!i, "close"); }
    if(0) goto both2;
}
/* number of handles in use, measured from outside: in a child process, handles are opened until the table grows */
static int used(void) {
    int pp[2], u = -1; CHECK(pipe(pp) == 0, "harness", "pipe"); pid_t c = fork(); CHECK(c >= 0, "harness", "fork");
    if(c == 0) { long y = dv_live_bytes; int n = 0, h; static struct bundle_storage st[70000]; while(n < 70000) { h = bundle_mem(&st[n]); n++; if(dv_live_bytes != y) break; } u = h + 1 - n; ssize_t z = write(pp[1], &u, sizeof u); (void)z; _exit(0); }
    ssize_t z = read(pp[0], &u, sizeof u); int st; waitpid(c, &st, 0); CHECK(z == sizeof u && u >= 0, "harness", "child"); close(pp[0]); close(pp[1]); return u;
}
static void stacks(int n) {
    while(n--) {
        base(); dv_sig(S[0].basek); int steps = 2 + dv_below(14); while(steps-- && S[0].alive && S[1].alive) { int r = dv_below(100);
            if(r < 35) push(); else if(r < 50) exchange(); else if(r < 68) pop(); else if(r < 76) { int i = dv_below(2), o = S[i].h, k = hown(o); dv_log("hown %d %d", o, k); CHECK(k >= 0, "hown", "errno %d", errno); S[i].h = k; if(k != o) invalid(o, "hown"); intact(i, "hown"); } else if(r < 90) wrong(dv_below(2)); else if(r < 96) badargs(dv_below(2)); else { int o = S[0].h; errno = 0; int f = dv_below(3); int rc = f == 0 ? prefix_attach(-1, 2, 0) : f == 1 ? http_attach(o + 10000) : term_attach(-1, "a", 1); CHECK(rc == -1 && errno == EBADF, "bad-handle", "%d errno %d", rc, errno); intact(0, "bad handle"); } }
        if(S[0].alive && S[1].alive) both(dv_below(2)); CHECK(!S[0].alive && !S[1].alive, "harness", "alive");
    }
}
/* ---- other objects with storage of their own ---- */
static int hits; static coroutine void w_(int64_t dl, int ch, int n) { int v = n; hits++; if(ch >= 0) { if(n & 1) { if(chsend(ch, &v, sizeof v, dl) < 0 && errno == ECANCELED) return; } else if(chrecv(ch, &v, sizeof v, dl) < 0 && errno == ECANCELED) return; } else msleep(dl); }
static int l_go(int64_t dl, int ch, int n) { return go(w_(dl, ch, n)); }
static int l_gomem(int64_t dl, int ch, int n, void *st, size_t sz) { return go_mem(w_(dl, ch, n), st, sz); }
static int l_bgo(int b, int64_t dl, int ch, int n) { return bundle_go(b, w_(dl, ch, n)); }
static int l_bgomem(int b, int64_t dl, int ch, int n, void *st, size_t sz) { return bundle_go_mem(b, w_(dl, ch, n), st, sz); }
#define STK (DV_ASAN ? 131072 : 65536)
/* every operation on objects of every other kind */
static void wrongobj(void) {
    enum { CH = 1, BU = 2, UD = 4, TL = 8, IL = 16, TC = 32, IP = 64, BS = TC | IP, MS = UD }; int h[8], kd[8], n = 0, p[2]; struct ipaddr a, a2; char b[64] = "x";
    ipaddr_local(&a, "127.0.0.1", 0, 0); ipaddr_local(&a2, "127.0.0.1", 0, 0); CHECK(chmake(p) == 0, "harness", "chmake"); h[n] = p[0]; kd[n++] = CH; h[n] = p[1]; kd[n++] = CH; h[n] = bundle(); kd[n++] = BU; h[n] = udp_open(&a, NULL); kd[n++] = UD; h[n] = tcp_listen(&a2, 3); kd[n++] = TL; unlink(path); h[n] = ipc_listen(path, 3); kd[n++] = IL; CHECK(ipc_pair(p) == 0, "harness", "pair"); h[n] = p[0]; kd[n++] = IP; h[n] = p[1]; kd[n++] = IP;
    for(int k = 0; k < n; k++) CHECK(h[k] >= 0, "harness", "object %d: errno %d", k, errno);
    for(int z = 5 + dv_below(30); z--;) {
        int k = dv_below(n), s = h[k], t = kd[k], r = 0; const char *w = ""; struct dill_iolist io = {b, 1, NULL, 0}; int64_t dl = dv_pct(50) ? -1 : now(); int bits = 0; struct chclause cl = {CHRECV, s, b, 1};
        #define X(c, ok, e) case c: bits = ok; w = #e; if(t & bits) break; errno = 0; r = (int)(e); break;
        switch(dv_below(27)) { X(0, CH, chsend(s, b, 1, dl)) X(1, CH, chrecv(s, b, 1, dl)) X(2, CH, chdone(s)) X(3, CH, (choose(&cl, 1, dl) == 0 ? -1 : 7)) X(4, BU, bundle_wait(s, dl)) X(5, BU, l_bgo(s, -1, -1, 0)) X(6, BS, bsend(s, b, 1, dl)) X(7, BS, brecv(s, b, 1, dl)) X(8, BS, bsendl(s, &io, &io, dl)) X(9, BS, brecvl(s, &io, &io, dl)) X(10, MS, msend(s, b, 1, dl)) X(11, MS, mrecv(s, b, 1, dl)) X(12, MS, msendl(s, &io, &io, dl)) X(13, MS, mrecvl(s, &io, &io, dl))
            X(14, UD, udp_send(s, &a, b, 1)) X(15, UD, udp_recv(s, &a2, b, 9, dl)) X(16, UD, udp_sendl(s, &a, &io, &io)) X(17, UD, udp_recvl(s, &a2, &io, &io, dl)) X(18, TL, tcp_accept(s, NULL, dl)) X(19, IL, ipc_accept(s, dl)) X(20, TC, tcp_done(s, dl)) X(21, IP, ipc_done(s, dl)) X(22, IP, ipc_sendfd(s, 0, dl)) X(23, IP, ipc_recvfd(s, dl)) X(24, TC | TL, tcp_close(s, dl)) X(25, IP | IL, ipc_close(s, dl)) X(26, 0, tls_done(s, dl)) }
        #undef X
        if(t & bits) continue; CHECK(r == -1 && errno == ENOTSUP, "wrong-kind", "%s on an object of kind %d returned %d, errno %d instead of ENOTSUP", w, t, r, errno); dv_stat("wrong_objects", 1);
    }
    /* nothing has been changed */
    CHECK(udp_send(h[3], &a, "u", 1) == 0 && mrecv(h[3], b, 64, -1) == 1 && *b == 'u', "wrong-effect", "udp: errno %d", errno); CHECK(bsend(h[6], "v", 1, -1) == 0 && brecv(h[7], b, 1, -1) == 0 && *b == 'v', "wrong-effect", "ipc: errno %d", errno); CHECK(bundle_wait(h[2], 0) == 0, "wrong-effect", "bundle: errno %d", errno); CHECK(chrecv(h[0], b, 1, 0) == -1 && errno == ETIMEDOUT, "wrong-effect", "channel: errno %d", errno);
    for(int k = 0; k < n; k++) CHECK(hclose(h[k]) == 0, "wrong-effect", "hclose: errno %d", errno); unlink(path);
}
static void zoo(void) {
    long a0 = dv_live_allocs; int f0 = dv_fdcount();
    switch(dv_below(8)) {
    case 7: if(!allmem) wrongobj(); break;
    case 0: { /* bundle of coroutines around a channel */
        struct bundle_storage *bm = take(sizeof *bm); struct chstorage *cm = take(sizeof *cm); int ch[2]; CHECK((cm ? chmake_mem(cm, ch) : chmake(ch)) == 0, "chmake", "errno %d", errno); int b = bm ? bundle_mem(bm) : bundle(); CHECK(b >= 0, "bundle", "errno %d", errno); if(bm && cm) CHECK(dv_live_allocs == a0, "outside-storage", "bundle_mem and chmake_mem allocated"); void *st[6]; int n = 1 + dv_below(6); hits = 0;
        for(int i = 0; i < n; i++) { st[i] = dv_pct(allmem ? 90 : 40) ? dv_galloc(STK) : NULL; int64_t dl = now() + dv_below(60); int c = dv_pct(60) ? ch[dv_below(2)] : -1; CHECK((st[i] ? l_bgomem(b, dl, c, i, st[i], STK) : l_bgo(b, dl, c, i)) == 0, "go", "errno %d", errno); }
        int how = dv_below(3); if(how == 0) CHECK(bundle_wait(b, -1) == 0, "wait", "errno %d", errno); else if(how == 1) bundle_wait(b, now() + dv_below(40)); CHECK(hits == n, "harness", "not run"); hclose(b); for(int i = 0; i < n; i++) retire(st[i], STK); retire(bm, sizeof *bm); int z = dv_below(2); hclose(ch[z]); hclose(ch[!z]); retire(cm, sizeof *cm); dv_stat("core_objects", 2); break; }
    case 1: { void *st = dv_pct(allmem ? 100 : 50) ? dv_galloc(STK) : NULL; int b = st ? l_gomem(now() + dv_below(30), -1, 0, st, STK) : l_go(now() + dv_below(30), -1, 0); CHECK(b >= 0, "go", "errno %d", errno); if(dv_pct(50)) bundle_wait(b, dv_pct(50) ? -1 : now() + 5); hclose(b); retire(st, STK); dv_stat("core_objects", 1); break; }
    case 2: { struct udp_storage *m[2]; int s[2]; struct ipaddr a[2]; for(int i = 0; i < 2; i++) { m[i] = take(sizeof **m); ipaddr_local(&a[i], "127.0.0.1", 0, 0); s[i] = m[i] ? udp_open_mem(&a[i], NULL, m[i]) : udp_open(&a[i], NULL); CHECK(s[i] >= 0, "udp_open", "errno %d", errno); } if(m[0] && m[1]) CHECK(dv_live_allocs == a0, "outside-storage", "udp_open_mem allocated");
        char b[40]; dv_grace = 1; CHECK(udp_send(s[0], &a[1], "hello", 5) == 0, "udp", "errno %d", errno); ssize_t r = udp_recv(s[1], NULL, b, 40, -1); CHECK(r == 5 && !memcmp(b, "hello", 5), "udp", "%zd", r); if(dv_pct(50)) { r = udp_recv(s[1], NULL, b, 40, now() + 3); CHECK(r == -1 && errno == ETIMEDOUT, "udp", "%zd", r); } for(int i = 0; i < 2; i++) { CHECK(hclose(s[i]) == 0, "close", "udp"); retire(m[i], sizeof **m); } dv_stat("udp_objects", 2); break; }
    case 3: { /* listeners: refused, timed out, cancelled */
        struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); struct tcp_listener_storage *m = take(sizeof *m); int l = m ? tcp_listen_mem(&a, 3, m) : tcp_listen(&a, 3); CHECK(l >= 0, "listen", "errno %d", errno); if(m) CHECK(dv_live_allocs == a0, "outside-storage", "tcp_listen_mem allocated"); struct tcp_storage *c = take(sizeof *c); int s = c ? tcp_accept_mem(l, NULL, c, now() + 5) : tcp_accept(l, NULL, now() + 5); CHECK(s == -1 && errno == ETIMEDOUT, "accept", "%d", s); retire(c, sizeof *c); hclose(l); retire(m, sizeof *m);
        c = take(sizeof *c); s = c ? tcp_connect_mem(&a, c, -1) : tcp_connect(&a, -1); CHECK(s == -1 && errno == ECONNREFUSED, "connect", "%d errno %d", s, errno); retire(c, sizeof *c); dv_stat("listeners", 1); break; }
    case 4: { struct ipc_listener_storage *m = take(sizeof *m); int l = m ? ipc_listen_mem(path, 3, m) : ipc_listen(path, 3); CHECK(l >= 0, "listen", "errno %d", errno); int l2 = ipc_listen(path, 3); CHECK(l2 == -1 && errno == EADDRINUSE, "listen", "twice"); int s = ipc_accept(l, now() + 2); CHECK(s == -1 && errno == ETIMEDOUT, "accept", "%d", s); hclose(l); retire(m, sizeof *m); unlink(path); struct ipc_storage *c = take(sizeof *c); s = c ? ipc_connect_mem(path, c, -1) : ipc_connect(path, -1); CHECK(s == -1, "connect", "no such path"); retire(c, sizeof *c); dv_stat("listeners", 1); break; }
    case 5: { int f[2]; CHECK(pipe2(f, O_NONBLOCK) == 0, "harness", "pipe"); CHECK(fdin(f[0], now() + dv_below(5)) == -1 && errno == ETIMEDOUT, "fdin", "%d", errno); CHECK(fdout(f[1], -1) == 0, "fdout", "%d", errno); fdclean(f[0]); fdclean(f[1]); close(f[0]); close(f[1]); int b = l_go(-1, -1, 0); if(dv_pct(50)) msleep(now() + 3); hclose(b); dv_stat("core_objects", 1); break; }
    case 6: { /* failures */
        dv_failmask = 1u << DV_MALLOC | 1u << DV_SOCKET | 1u << DV_SOCKETPAIR | 1u << DV_DUP | 1u << DV_BIND | 1u << DV_LISTEN; dv_failat = dv_below(3); long nf = dv_nfailed; int r = dv_below(8), p[2]; struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, 0); int rc = r == 0 ? ipc_pair(p) : r == 1 ? tcp_listen(&a, 2) : r == 2 ? udp_open(&a, NULL) : r == 3 ? bundle() : r == 4 ? chmake(p) : r == 5 ? ipc_listen(path, 2) : r == 6 ? l_go(now() + 3, -1, 0) : tcp_connect(&a, -1); dv_failat = -1;
        if(rc < 0 && dv_nfailed > nf) dv_stat("faults", 1); CHECK(rc >= 0 || dv_nfailed > nf || r == 7, "failed", "call %d without a fault: errno %d", r, errno); if(rc >= 0) { if(r == 0 || r == 4) { hclose(p[0]); hclose(p[1]); } else hclose(rc); } unlink(path); break; }
    }
    dv_grace = 0; int f1 = dv_fdcount(); CHECK(f1 == f0, "fd", "%d descriptors, %d before", f1, f0);
}
static void program(int n) { while(n--) { if(dv_pct(70)) stacks(1); else zoo(); } sweep(); }
static void warm(void) { int b = bundle(); for(int i = 0; i < 80; i++) l_bgo(b, now() + 5, -1, 0); bundle_wait(b, -1); hclose(b); int h[200]; for(int i = 0; i < 200; i++) h[i] = bundle(); for(int i = 0; i < 200; i++) hclose(h[i]); }
/* ---- R02: every operation with its k-th allocation or system call failing, for all k ---- */
static long fk; static int fe, fr; static const char *fop; static const char *fsurv; static int hit;
/* mode g: only tight handles can be made before the table has to grow, and no cached stack is left */
static struct bundle_storage tst[70000]; static int th[70000], tn;
static void tighten(void) {
    if(tight < 0) return; unsigned m = dv_failmask; long nf = dv_nfailed; int k = dv_failed_kind, e = dv_fail_errno; dv_failmask = 1u << DV_MALLOC; dv_fail_errno = 0;
    while(tn < 70000) { dv_failat = 0; int h = bundle_mem(&tst[tn]); dv_failat = -1; if(h < 0) break; th[tn++] = h; } 
    if(tn < 70000) { for(int i = 0; i < tight && tn; i++) hclose(th[--tn]); dv_stat("tightened", 1); } dv_failmask = m; dv_nfailed = nf; dv_failed_kind = k; dv_fail_errno = e;
}
/* how many handles can be made before the table has to grow */
static int capacity(void) { int t = tight, c; tight = 0; tn = 0; tighten(); c = tn; tight = t; while(tn) hclose(th[--tn]); return c; }
static void loosen(void) { while(tn) hclose(th[--tn]); if(holders >= 0) { hclose(holders); holders = -1; } }
static void hold(void) { holders = bundle(); for(int i = 0; i < 70; i++) l_bgo(holders, now() + 100000000, -1, 0); dv_stat("stacks_held", 1); }
#define ARM() (tighten(), dv_failat = fk, hit = dv_nfailed)
#define OP(x) do { fop = #x; errno = 0; ARM(); fr = (x); fe = errno; dv_failat = -1; hit = dv_nfailed > hit; } while(0)
#define FAULTS "R02"
/* the operation failed because of the fault, or there was none and it succeeded */
static int verdict(const char *also) {
    if(!hit) { CHECK(fr >= 0, "op", "%s failed with errno %d without a fault", fop, fe); return 1; }
    int k = dv_failed_kind; static const int d[DV_NKINDS] = {ENOMEM, EMFILE, EADDRINUSE, EADDRINUSE, EMFILE, ENETUNREACH, ENOBUFS, ENOMEM}; int want = dv_fail_errno && k != DV_MALLOC ? dv_fail_errno : d[k];
    dv_stat("faults", 1); { char b[40]; snprintf(b, sizeof b, "fault_%s", dv_kindname[k]); dv_stat(b, 1); } dv_sig(k * 31 + fk);
    if(fr >= 0) { CHECK(strstr(also, dv_kindname[k]), "ignored", "%s succeeded although %s failed (call %ld)", fop, dv_kindname[k], fk); dv_stat("survived", 1); return 1; }
    CHECK(fe != 0, "errno", "%s failed without an error code when %s failed", fop, dv_kindname[k]);
    CHECK(fe == want || k >= DV_EPOLL_CREATE || (k == DV_MALLOC && fe == ENOMEM) || strstr(also, "*") || (k == DV_SEND && fe == ECONNRESET) || (k == DV_RECV && fe == ECONNRESET), "errno", "%s reports errno %d although %s failed with %d", fop, fe, dv_kindname[k], want); return 0;
}
/* the connection had been taken from the listener when its handle could not be made */
static int taken(void *m) { return tight >= 0 && dv_failed_kind == DV_MALLOC && fe == ENOMEM && (m || fk > 0); }
static int ovclosed; static void *ov_query(struct hvfs *v, const void *t) { (void)t; return v; } static void ov_close(struct hvfs *v) { (void)v; ovclosed++; }
static int fbundle(int r) { if(r == 0) { struct bundle_storage *m = take(sizeof *m); int h; OP(m ? bundle_mem(m) : bundle()); h = fr; int ok = verdict(""); if(ok) hclose(h); retire(m, sizeof *m); }
    else if(r == 1) { int ch[2]; struct chstorage *m = take(sizeof *m); OP(m ? chmake_mem(m, ch) : chmake(ch)); if(verdict("")) { hclose(ch[0]); hclose(ch[1]); } retire(m, sizeof *m); }
    else if(r == 2) { hits = 0; OP(l_go(now() + 3, -1, 0)); if(verdict("")) { CHECK(bundle_wait(fr, -1) == 0 && hits == 1, "go", "not run"); hclose(fr); } else CHECK(hits == 0, "go", "failed but run"); }
    else if(r == 4) { static struct hvfs ov = {ov_query, ov_close}; int h = hmake(&ov); ovclosed = 0; OP(hown(h)); CHECK(hquery(h, &ov) == NULL && errno == EBADF, "still-valid", "the old handle is valid after hown returned %d", fr); if(verdict("")) { CHECK(!ovclosed, "closed", "closed by hown"); hclose(fr); } CHECK(ovclosed == 1, "not-closed", "the object was closed %d times, hown returned %d", ovclosed, fr); }
    else { int b = bundle(); l_bgo(b, now() + 3, -1, 0); hits = 0; OP(l_bgo(b, now() + 3, -1, 0)); int n = verdict(""); CHECK(hits == n, "go", "run %d times", hits); if(!n) CHECK(l_bgo(b, now() + 2, -1, 0) == 0, "retry", "errno %d", errno); CHECK(bundle_wait(b, -1) == 0, "wait", "errno %d", errno); hclose(b); }
    return hit; }
static int fsock(int r) { int p[2]; struct ipaddr a; size_t n; void *m = NULL; dv_grace = 0;
    switch(r) {
    case 0: OP(ipc_pair(p)); if(verdict("")) { CHECK(bsend(p[0], "x", 1, -1) == 0 && brecv(p[1], &n, 1, -1) == 0, "use", "errno %d", errno); hclose(p[0]); hclose(p[1]); } break;
    case 1: unlink(path); m = take(n = sizeof(struct ipc_listener_storage)); OP(m ? ipc_listen_mem(path, 3, m) : ipc_listen(path, 3)); if(verdict("")) hclose(fr); retire(m, n); unlink(path); break;
    case 2: case 3: { unlink(path); int l = ipc_listen(path, 5); CHECK(l >= 0, "harness", "listen %d", errno); m = take(n = sizeof(struct ipc_storage)); if(r == 2) { int c = ipc_connect(path, -1); OP(m ? ipc_accept_mem(l, m, -1) : ipc_accept(l, -1)); if(verdict("")) hclose(fr); else if(taken(m)) { char b; CHECK(brecv(c, &b, 1, -1) == -1 && (errno == EPIPE || errno == ECONNRESET), "half-open", "the connection of a failed accept stays open (errno %d)", errno); } else { int s = ipc_accept(l, now() + 100); CHECK(s >= 0, "lost", "the connection was lost when accept failed: errno %d", errno); bsend(s, "q", 1, -1); char b; CHECK(brecv(c, &b, 1, -1) == 0, "lost", "connection of a failed accept"); hclose(s); } hclose(c); }
        else { OP(m ? ipc_connect_mem(path, m, -1) : ipc_connect(path, -1)); if(verdict("")) hclose(fr); } hclose(l); retire(m, n); unlink(path); break; }
    case 4: ipaddr_local(&a, "127.0.0.1", 0, 0); m = take(n = sizeof(struct tcp_listener_storage)); struct ipaddr b0 = a; OP(m ? tcp_listen_mem(&a, 3, m) : tcp_listen(&a, 3)); if(verdict("")) hclose(fr); else CHECK(ipaddr_equal(&a, &b0, 0), "address", "changed by a failed tcp_listen"); retire(m, n); break;
    case 5: case 6: { ipaddr_local(&a, "127.0.0.1", 0, 0); int l = tcp_listen(&a, 5); CHECK(l >= 0, "harness", "listen %d", errno); dv_grace = 1; m = take(n = sizeof(struct tcp_storage)); if(r == 5) { int c = tcp_connect(&a, -1); OP(m ? tcp_accept_mem(l, NULL, m, -1) : tcp_accept(l, NULL, -1)); if(verdict("")) hclose(fr); else if(taken(m)) { char b; CHECK(brecv(c, &b, 1, -1) == -1 && (errno == EPIPE || errno == ECONNRESET), "half-open", "the connection of a failed accept stays open (errno %d)", errno); } else { int s = tcp_accept(l, NULL, now() + 100); CHECK(s >= 0, "lost", "the connection was lost when accept failed: errno %d", errno); hclose(s); } hclose(c); } else { OP(m ? tcp_connect_mem(&a, m, -1) : tcp_connect(&a, -1)); if(verdict("")) hclose(fr); } hclose(l); retire(m, n); break; }
    case 7: ipaddr_local(&a, "127.0.0.1", 0, 0); m = take(n = sizeof(struct udp_storage)); struct ipaddr a0 = a; OP(m ? udp_open_mem(&a, NULL, m) : udp_open(&a, NULL)); if(verdict("")) hclose(fr); else CHECK(ipaddr_equal(&a, &a0, 0), "address", "changed by a failed udp_open"); retire(m, n); break;
    case 8: case 9: { int f[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, f) == 0, "harness", "pair"); struct stat st0, st1; fstat(f[0], &st0); m = take(n = sizeof(struct ipc_storage)); OP(m ? ipc_fromfd_mem(f[0], m) : ipc_fromfd(f[0])); if(verdict("")) hclose(fr); else if(fstat(f[0], &st1) == 0 && st0.st_ino == st1.st_ino) { close(f[0]); dv_stat("fd_returned", 1); } close(f[1]); retire(m, n); break; }
    case 10: { int f = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_addr.s_addr = htonl(0x7f000001); bind(f, (void*)&si, sizeof si); listen(f, 3); struct stat st0, st1; fstat(f, &st0); m = take(n = sizeof(struct tcp_listener_storage)); OP(m ? tcp_listener_fromfd_mem(f, m) : tcp_listener_fromfd(f)); if(verdict("")) hclose(fr); else if(fstat(f, &st1) == 0 && st0.st_ino == st1.st_ino) { close(f); dv_stat("fd_returned", 1); } retire(m, n); break; }
    case 11: case 12: { int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); if(r == 11) { OP(ipc_sendfd(p[0], 0, -1)); if(verdict("*")) { int f = ipc_recvfd(p[1], -1); CHECK(f >= 0, "recvfd", "errno %d", errno); close(f); } } else { CHECK(ipc_sendfd(p[0], 0, -1) == 0, "sendfd", "errno %d", errno); OP(ipc_recvfd(p[1], -1)); if(verdict("*")) close(fr); } hclose(p[0]); hclose(p[1]); break; }
    case 13: case 14: { int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); int f1 = dv_fdcount(); if(r == 13) { OP(ipc_done(p[0], -1)); verdict("shutdown"); } else { ipc_done(p[1], -1); OP(ipc_close(p[0], -1)); verdict("*"); CHECK(dv_fdcount() == f1 - 1, "fd", "ipc_close left the descriptor open"); p[0] = -1; } if(p[0] >= 0) hclose(p[0]); hclose(p[1]); break; }
    case 15: { int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); int fd[2]; if(pipe2(fd, O_NONBLOCK)) abort(); int first = dv_below(2); if(first) { CHECK(fdin(fd[0], now() + 3) == -1, "harness", "fdin"); msleep(now() + 3); } ssize_t z = write(fd[1], "a", 1); (void)z; OP(fdin(fd[0], now() + 50)); int ok = verdict("*"); int o = fdout(fd[1], -1); CHECK(o == 0, "fdout", "errno %d", errno); if(!ok) { o = fdin(fd[0], -1); CHECK(o == 0, "retry", "fdin errno %d", errno); } fdclean(fd[0]); fdclean(fd[1]); close(fd[0]); close(fd[1]); hclose(p[0]); hclose(p[1]); break; }
    case 16: { /* a wait which has to be renewed inside the scheduler while another coroutine is fine */
        int rc = ipc_pair(p); CHECK(rc == 0, "harness", "pair"); char b[4]; int w = brecv(p[1], b, 1, now() + 3); CHECK(w == -1 && errno == ETIMEDOUT, "harness", "brecv"); hclose(p[0]); hclose(p[1]);
        int fd[2]; if(pipe2(fd, O_NONBLOCK)) abort(); fdin(fd[0], now() + 3); msleep(now() + 3); int k = l_go(now() + 7, -1, 0); OP(fdin(fd[0], now() + 20)); if(!hit) { CHECK(fr == -1 && fe == ETIMEDOUT, "fdin", "%d errno %d", fr, fe); } else { dv_stat("faults", 1); CHECK(fr == -1 && fe != 0, "ignored", "fdin %d errno %d", fr, fe); } CHECK(bundle_wait(k, -1) == 0, "wait", "errno"); hclose(k); CHECK(fdin(fd[0], now() + 2) == -1 && errno == ETIMEDOUT, "retry", "errno %d", errno); fdclean(fd[0]); close(fd[0]); close(fd[1]); break; }
    case 17: { /* the handle table is full */
        int pp[2]; if(pipe(pp)) abort(); pid_t c = fork(); if(c == 0) { static struct bundle_storage st[70000]; int n = 0, h; long y = dv_live_bytes; dv_failmask = 1u << DV_MALLOC; dv_failat = 0; long nf = dv_nfailed; while(n < 70000) { errno = 0; h = bundle_mem(&st[n]); if(h < 0) break; n++; } char res = h < 0 && errno == ENOMEM && dv_nfailed == nf + 1 ? 'o' : 'x'; dv_failat = -1; int last = n ? n - 1 : 0; if(res == 'o') { /* all of it still works */ int hh = bundle_mem(&st[n]); if(hh < 0) res = 'y'; } (void)y; (void)last; ssize_t z = write(pp[1], &res, 1); (void)z; _exit(0); }
        close(pp[1]); char res = 'd'; ssize_t z = read(pp[0], &res, 1); (void)z; close(pp[0]); int st; waitpid(c, &st, 0); CHECK(res == 'o', "table-full", "running out of memory for handles: %c, status %x", res, st); dv_stat("table_full", 1); hit = 0; break; }
    }
    dv_grace = 0; return hit; }
#define FD_ (S[0].basek == 3 ? -1 : now() + 500)
static int upto(struct layer *l, int i, int s) { return attach(l, i, s, S[0].basek == 3 ? -1 : now() + 1000); }
static int flayer(int r) { /* handshakes, transfers and detaching: each side fails cleanly or not at all */
    base(); if(dv_pct(40)) push(); if(type(0) != B) { both(0); return 0; } long nf = dv_nfailed; int k = r < 3 ? WSH : TLS, done = 0; struct layer *l[2]; for(int i = 0; i < 2; i++) { l[i] = &S[i].l[S[i].n]; mk(l[i], r % 3 == 2 ? (dv_pct(50) ? PREFIX : SUFFIX) : k, B); } if(l[0]->kind != k) { l[1]->kind = l[0]->kind; l[1]->hl = l[0]->hl; l[1]->le = l[0]->le; memcpy(l[1]->x, l[0]->x, 4); } int lim = r % 3; drain(0); drain(1); fop = "handshake";
    struct job j = {1, -1, 0, 0, l[1], S[0].basek == 3 ? -1 : now() + 1000, S[1].h}; int b = l_att(&j); if(lim == 0) ARM(); S[0].h = upto(l[0], 0, S[0].h); int e = errno; bundle_wait(b, -1); dv_failat = -1; hclose(b); S[1].h = j.h;
    for(int i = 0; i < 2; i++) S[i].alive = S[i].h >= 0;
    for(int i = 0; i < 2; i++) if(S[i].h >= 0) S[i].n++; else { CHECK((i ? j.e : e) != 0, "errno", "no error"); gone(i, "failed handshake"); }
    if(lim == 0 && dv_nfailed > nf) { dv_stat("handshake_faults", 1); }
    else CHECK(S[0].alive && S[1].alive, "attach", "without a fault: errno %d, %d", e, j.e);
    if(lim && S[0].alive && S[1].alive) { char b2[1300]; int n = 0; nf = dv_nfailed; ARM(); int rc = 0; while(n++ < 4 && rc >= 0) { int i = dv_below(2), t = type(i); rc = t == B ? bsend(S[i].h, "hello", 5, FD_) : msend(S[i].h, "hello", 5, FD_); if(rc < 0) { CHECK(dv_nfailed > nf && errno != 0, "send", "errno %d without a fault", errno); CHECK(errno != ETIMEDOUT, "send", "ETIMEDOUT after a fault"); break; } rc = t == B ? brecv(S[!i].h, b2, 5, FD_) : mrecv(S[!i].h, b2, sizeof b2, FD_); if(rc < 0) { CHECK(dv_nfailed > nf && errno != 0, "recv", "errno %d without a fault", errno); break; } CHECK(!memcmp(b2, "hello", 5), "data", "wrong data"); }
        if(rc >= 0) done = 1; if(done && k == WSH && l[0]->kind == k) {} struct layer *tl = &S[0].l[S[0].n - 1]; int h = rc < 0 || tl->kind == PREFIX || tl->kind == SUFFIX ? detach(tl, S[0].h, now() + 100) : -2; dv_failat = -1; if(dv_nfailed > nf) dv_stat("transfer_faults", 1); if(h >= 0) { S[0].h = h; S[0].n--; } else if(h == -1) gone(0, "failed detach"); intact(1, "peer"); }
    dv_failat = -1; int any = dv_nfailed > nf; for(int i = 0; i < 2; i++) if(S[i].alive) kill1(i, "close"); dv_grace = 0; return any; }
/* attaching that involves no peer, at any place of a stack */
static int fattach(void) { base(); for(int n = dv_below(3); n--;) push(); int t = type(0); if(t == H) { both(0); return 0; } static const int kb[] = {PREFIX, SUFFIX, WSN, HTTP}; struct layer L, *l = &S[0].l[S[0].n]; drain(0); drain(1); mk(&L, t == B ? kb[dv_below(4)] : TERM, t); *l = L;
    OP(attach(l, 0, S[0].h, S[0].basek == 3 ? -1 : now() + 1000)); int ok = verdict("*"); S[0].h = fr; S[0].alive = ok; if(ok) { S[0].n++; intact(0, "attached"); } else gone(0, "failed attach"); intact(1, "peer"); int any = hit; for(int i = 0; i < 2; i++) if(S[i].alive) kill1(i, "close"); dv_grace = 0; hit = any; dv_stat("attach_faults", any); return any; }
/* ---- B04: several coroutines use one direction of a stack; mode b ---- */
static struct fl { int i, n, len[40], inop, done, mid, got; const char *op; } F[2]; static int bstop;
static void bmsg(struct fl *f, int k, unsigned char *b) { for(int z = 0; z < f->len[k]; z++) b[z] = 'a' + pat(dv_seed, f->i * 100003 + k * 1009 + z) % 20; }
static coroutine void bsnd(struct fl *f) {
    static unsigned char bb[2][40100]; unsigned char *b = bb[f->i];
    for(int k = 0; k < f->n; k++) {
        if(dv_pct(30)) msleep(now() + dv_below(10)); int i = f->i, t = type(i), r; bmsg(f, k, b); b[f->len[k]] = 0; f->inop |= 1;
        if(t == B) r = bsend(S[i].h, b, f->len[k], -1); else if(t == M) r = msend(S[i].h, b, f->len[k], -1); else r = http_sendfield(S[i].h, "F", (char*)b, -1);
        int e = errno; f->inop &= ~1; CHECK(r == 0, "send", "message %d of %d bytes: errno %d, although only refused attempts were made at the same time", k, f->len[k], e);
    }
    int i = f->i, k = S[i].n ? S[i].l[S[i].n - 1].kind : -1, r = 0; if(dv_pct(60) && k != PREFIX && k != SUFFIX && k != TAP) { f->inop |= 1; f->done = 1; if(k == TERM) r = term_done(S[i].h, -1); else if(k == HTTP) r = http_done(S[i].h, -1); else if(k == TLS) r = tls_done(S[i].h, -1); else if(k == WSN || k == WSH) r = ws_done(S[i].h, 0, NULL, 0, -1); else if(k < 0) r = S[i].basek == 3 ? tcp_done(S[i].h, -1) : ipc_done(S[i].h, -1); f->inop &= ~1; int e = errno; CHECK(r == 0, "done", "errno %d", e); }
    f->mid = 1;
}
static coroutine void brcv(struct fl *f) {
    static unsigned char bb[2][40100], xx[2][40100]; unsigned char *b = bb[f->i], *x = xx[f->i]; int i = !f->i, r, e;
    for(int k = 0; k < f->n; k++) {
        if(dv_pct(50)) msleep(now() + dv_below(30)); int t = type(i); bmsg(f, k, x); f->inop |= 2; r = 0; int n = f->len[k];
        if(t == B) { int o = dv_below(n + 1); r = brecv(S[i].h, b, o, -1); if(r == 0) r = brecv(S[i].h, b + o, n - o, -1); } else if(t == M) { r = mrecv(S[i].h, b, sizeof bb[0], -1); if(r >= 0) { CHECK(r == n, "size", "message %d has %d bytes instead of %d", k, r, n); r = 0; } }
        else { char nm[16]; r = http_recvfield(S[i].h, nm, sizeof nm, (char*)b, sizeof bb[0], -1); if(r == 0) CHECK(!strcmp(nm, "F") && (int)strlen((char*)b) == n, "size", "field %d has %zu bytes instead of %d", k, strlen((char*)b), n); }
        e = errno; f->inop &= ~2; CHECK(r == 0, "recv", "message %d: errno %d, although only refused attempts were made at the same time", k, e); CHECK(!memcmp(b, x, n), "data", "message %d differs", k); f->got++;
    }
    while(!f->mid && !f->done) if(msleep(now() + 1) < 0) return;
    if(f->done) { f->inop |= 2; char c[64], nm[16]; int t = type(i); r = t == B ? brecv(S[i].h, c, 1, -1) : t == M ? (int)mrecv(S[i].h, c, 64, -1) : http_recvfield(S[i].h, nm, 16, c, 64, -1); e = errno; f->inop &= ~2; CHECK(r == -1 && e == EPIPE, "no-eof", "after done: %d errno %d", r, e); dv_stat("busy_ends", 1); }
}
static void intrude(struct fl *f, int send) {
    int i = send ? f->i : !f->i, t = type(i), k = S[i].n ? S[i].l[S[i].n - 1].kind : -1, s = S[i].h, r, w = dv_below(4); char b[64]; memset(b, 0x11, sizeof b); int64_t dl = dv_pct(50) ? -1 : now() + dv_below(3); const char *what; int64_t t0 = dv_vt; errno = 0;
    if(send) { if(w || f->done || k < 0 || k == PREFIX || k == SUFFIX || k == TAP) { what = "sending"; r = t == B ? bsend(s, "zzz", 1 + dv_below(3), dl) : t == M ? msend(s, "zzz", 1 + dv_below(3), dl) : http_sendfield(s, "Z", "z", dl); } else { what = "done"; r = k == TERM ? term_done(s, dl) : k == HTTP ? http_done(s, dl) : k == TLS ? tls_done(s, dl) : ws_done(s, 0, NULL, 0, dl); } }
    else { what = "receiving"; char nm[16]; r = t == B ? brecv(s, b, 1, dl) : t == M ? (int)mrecv(s, b, 64, dl) : http_recvfield(s, nm, 16, b, 64, dl); }
    int e = errno; CHECK(r == -1 && e == EBUSY, "no-ebusy", "%s while another coroutine does it returned %d errno %d (top: %s)", what, r, e, k < 0 ? "base" : ln[k]); CHECK(dv_vt == t0, "busy-blocked", "the refused call took %lld ms", (long long)(dv_vt - t0));
    if(!send) for(int z = 0; z < 64; z++) CHECK(b[z] == 0x11, "busy-effect", "a refused receive changed the buffer"); { char x[60]; snprintf(x, sizeof x, "busy_%s_%s", send ? w || f->done ? "send" : "done" : "recv", k < 0 ? "base" : ln[k]); dv_stat(x, 1); } dv_stat(send ? "busy_sends" : "busy_recvs", 1);
}
static coroutine void bintr(int n) { while(n-- && !bstop) { for(int d = 0; d < 2; d++) { if((F[d].inop & 1) && dv_pct(70)) intrude(&F[d], 1); if((F[d].inop & 2) && dv_pct(70)) intrude(&F[d], 0); } if(dv_pct(30) ? yield() < 0 : msleep(now() + 1 + dv_below(4)) < 0) return; } }
static int l_bsnd(int b, struct fl *f) { return bundle_go(b, bsnd(f)); } static int l_brcv(int b, struct fl *f) { return bundle_go(b, brcv(f)); } static int l_bintr(int b, int n) { return bundle_go(b, bintr(n)); }
static void busymode(void) {
    base(); for(int n = dv_below(5); n--;) push(); drain(0); drain(1); int t = type(0), lim = t == B ? 40000 : t == H ? 300 : 1000; memset(F, 0, sizeof F); bstop = 0; int http = 0; for(int k = 0; k < S[0].n; k++) http |= S[0].l[k].kind == HTTP; 
    for(int k = 0; k < S[0].n; k++) if(S[0].l[k].kind == PREFIX && S[0].l[k].hl == 1 && lim > 200) lim = t == B ? lim : 200;
    if(dv_pct(80)) for(int fd = 3; fd < 100; fd++) { int z = 2048 + dv_below(6000); setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &z, sizeof z); } if(dv_pct(60)) dv_again_pct = 5 + dv_below(60); int b = bundle(), bi = bundle();
    for(int d = 0; d < 2; d++) { F[d].i = d; F[d].n = 1 + dv_below(40); if(dv_pct(20)) F[d].n = 0; for(int k = 0; k < F[d].n; k++) F[d].len[k] = 1 + dv_below(dv_pct(70) ? lim / 10 : lim); l_bsnd(b, &F[d]); l_brcv(b, &F[d]); }
    for(int n = 1 + dv_below(2); n--;) l_bintr(bi, 3000); CHECK(bundle_wait(b, -1) == 0, "wait", "errno %d", errno); dv_again_pct = 0; bstop = 1; CHECK(bundle_wait(bi, -1) == 0, "wait", "errno %d", errno); hclose(b); hclose(bi);
    dv_stat("busy_stacks", 1); dv_nontrivial(); dv_sample("%d layers, %d and %d messages", S[0].n, F[0].n, F[1].n); for(int i = 0; i < 2; i++) kill1(i, "close"); sweep(); dv_grace = 0;
}
static void *thr(void *p) { (void)p; dv_thread_seed(1); dv_failmask = 1u << DV_MALLOC | 1u << DV_EPOLL_CREATE; dv_failat = fk; int h = bundle(); if(h >= 0) hclose(h); dv_failat = -1; return h < 0 ? (void*)1 : NULL; }
static void fctx(void) { /* the first call in a thread; mode t */
    for(fk = 0; fk < 8; fk++) {
        int pp[2]; if(pipe(pp)) abort(); pid_t c = fork(); if(c == 0) { dup2(pp[1], 2); close(pp[0]); close(pp[1]); signal(SIGABRT, SIG_DFL); pthread_t t; long nf = dv_nfailed; pthread_create(&t, NULL, thr, NULL); void *r; pthread_join(t, &r); _exit(dv_nfailed > nf ? (r ? 0 : 1) : 2); }
        close(pp[1]); char b[2000]; int n = 0; ssize_t z; while(n < 1999 && (z = read(pp[0], b + n, 1999 - n)) > 0) n += z; b[n] = 0; close(pp[0]); int st; waitpid(c, &st, 0); dv_stat("contexts", 1); if(WIFEXITED(st) && WEXITSTATUS(st) == 2) break;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue; CHECK(!WIFEXITED(st) || WEXITSTATUS(st) != 1, "context-ignored", "a failure when creating a context is ignored"); CHECK(strstr(b, "Assert failed") && strstr(b, "/ctx.c:"), "context-crash", "the process crashed when call %ld of creating a context failed (status %x): %s", fk, st, b); dv_fail("context-aborts", "the process is aborted by an assertion in ctx.c when call %ld of creating the context of a thread fails", fk); }
}
static void faults(void) {
    int gm = dv_mode[0] == 'g', g = dv_below(10), r = dv_below(gm ? 15 : 18), rr = dv_below(4 + gm), rl = dv_below(6); uint64_t s = dv_rand(); int tg = gm ? dv_below(7) : -1, ho = gm && dv_pct(60); if(gm) g = dv_below(12); unsigned mask = dv_pct(50) ? ~0u : 1u << dv_below(DV_NKINDS); mask &= ~(1u << DV_OPEN | 1u << DV_IFADDRS); dv_fail_errno = dv_pct(70) ? 0 : (int[]){ENOMEM, ENOBUFS, EMFILE, ENFILE}[dv_below(4)]; int fe0 = dv_fail_errno; if(fe0) mask &= 1u << DV_SOCKET | 1u << DV_SOCKETPAIR | 1u << DV_ACCEPT | 1u << DV_MALLOC;
    for(fk = 0; fk < 120; fk++) { *dv_rngstate() = s; ctr = 0; dv_failmask = mask; dv_fail_errno = fe0; dv_failed_kind = -1; long a0 = dv_live_allocs; int f0 = dv_fdcount(); hit = 0; fop = "?"; int cap = gm ? capacity() : 0; tight = tg; if(ho) hold();
        int more = g < 2 ? fbundle(rr) : g < 7 ? fsock(r) : g < 10 ? flayer(rl) : fattach(); dv_failat = -1; sweep(); tight = -1; loosen(); if(gm && cap < 35000) { int c1 = capacity(); CHECK(c1 >= cap && (c1 - cap) % 256 == 0, "handle-leak", "%s: %d handles can be made, %d before, %s failed", fop, c1, cap, dv_failed_kind < 0 ? "nothing" : dv_kindname[dv_failed_kind]); dv_stat("capacities", 1); }
        int f1 = dv_fdcount(); CHECK(f1 == f0, "fd-leak", "%s: %d descriptors, %d before, %s failed", fop, f1, f0, dv_failed_kind < 0 ? "nothing" : dv_kindname[dv_failed_kind]); if(fk) CHECK(dv_live_allocs <= a0 + 2, "mem-leak", "%s: %ld blocks, %ld before, %s failed", fop, dv_live_allocs, a0, dv_failed_kind < 0 ? "nothing" : dv_kindname[dv_failed_kind]);
        dv_stat("runs", 1); if(!more) break; dv_max("deepest", fk); }
}
/* ---- mode k: a protocol over a stream that fails once ---- */
static int ktls; static char kin[400];
static void klist(struct iolist *l, struct iolist *o, long rc) { int e = errno; for(int i = 0; i < 2; i++) CHECK(l[i].iol_base == o[i].iol_base && l[i].iol_len == o[i].iol_len && l[i].iol_next == o[i].iol_next && l[i].iol_rsvd == o[i].iol_rsvd, "list", "element %d of the list is changed after a call that returned %ld errno %d", i, rc, e); dv_stat("lists_intact", 1); errno = e; }
static int kput(int i, const char *b, int n) { if(ktls) return bsend(S[i].h, b, n, -1); if(dv_pct(50)) return msend(S[i].h, b, n, -1); int c = dv_below(n + 1); struct iolist l[2] = {{(void*)b, c, &l[1], 0}, {(void*)(b + c), n - c, NULL, 0}}, o[2]; memcpy(o, l, sizeof l); int rc = msendl(S[i].h, l, l + 1, -1); klist(l, o, rc); return rc; }
static long kget(int i, int n) { memset(kin, 0, sizeof kin); if(ktls) return brecv(S[i].h, kin, n, -1); int r = dv_below(3); if(r == 0) return mrecv(S[i].h, kin, n + dv_below(50), -1); int c = r == 1 ? dv_below(n + 1) : n; struct iolist l[2] = {{kin, c, &l[1], 0}, {kin + c, n - c + 3, NULL, 0}}, o[2]; memcpy(o, l, sizeof l); ssize_t rc = mrecvl(S[i].h, l, l + 1, -1); klist(l, o, rc); return rc; }
static void shaky(void) {
    static const int kk[] = {PREFIX, SUFFIX, WSN, TLS, PREFIX, SUFFIX, WSN, WSH}; static const int ke[] = {ETIMEDOUT, ECONNRESET, ENOMEM, ECANCELED, ETIMEDOUT}; int k = kk[dv_below(8)]; kt = NULL; karm = -1; base(); ktls = k == TLS;
    struct layer *t = &S[0].l[0]; mk(t, TAP, B); S[0].h = attach(t, 0, S[0].h, -1); S[0].n = 1; struct layer L, *l[2]; mk(&L, k, B); for(int i = 0; i < 2; i++) { l[i] = &S[i].l[S[i].n]; *l[i] = L; }
    int srv = dv_below(2); struct job j = {srv, -1, 0, 0, l[srv], -1, S[srv].h};
    if(k == PREFIX || k == SUFFIX) { S[0].h = attach(l[0], 0, S[0].h, -1); S[1].h = attach(l[1], 1, S[1].h, -1); } else { int b = l_att(&j); S[!srv].h = attach(l[!srv], 0, S[!srv].h, -1); CHECK(bundle_wait(b, -1) == 0, "harness", "wait"); hclose(b); S[srv].h = j.h; }
    CHECK(S[0].h >= 0 && S[1].h >= 0, "attach", "%s: errno %d", ln[k], errno); S[0].n++; S[1].n++; kt = t->t;
    int at = dv_below(6), d, busy = k != TLS && dv_pct(15), failed = -1; kdir = dv_below(2); char b[400];
    for(int i = 0; i < 12 && failed < 0; i++) {
        d = dv_below(2); int n = ktls ? 1 + dv_below(300) : dv_below(250); for(int y = 0; y < n; y++) b[y] = 'a' + dv_below(26);
        if(i >= at && karm < 0) { kerr = busy ? EBUSY : ke[dv_below(5)]; kafter = !busy && dv_pct(50); karm = busy ? 0 : dv_pct(40) ? 0 : dv_below(4); if(busy) d = kdir; }
        int a0 = karm, fired, r, e; long g;
        if(d == 1) { r = kput(1, b, n); CHECK(r == 0, "send", "%s: errno %d", ln[k], errno); }
        if(d == 0) { r = kput(0, b, n); g = r; } else g = kget(0, n);
        e = errno; fired = a0 >= 0 && karm < 0 && d == kdir;
        if(!fired) { CHECK(d == 0 ? g == 0 : g == (ktls ? 0 : n), d ? "recv" : "send", "%s: returned %ld errno %d although the stream beneath did not fail", ln[k], g, e); }
        else { CHECK(g == -1 && e == kerr, "not-reported", "%s: %s returned %ld errno %d although the stream beneath failed with errno %d", ln[k], d ? "receiving" : "sending", g, e, kerr); dv_stat("beneath_failed", 1);
            if(busy) { karm = -1; busy = 0; g = d == 0 ? kput(0, b, n) : kget(0, n); CHECK(d == 0 ? g == 0 : g == n, "after-busy", "%s: a refused %s cannot be repeated: %ld errno %d", ln[k], d ? "receive" : "send", g, errno); dv_stat("beneath_busy", 1); }
            else { failed = d; break; } }
        if(d == 0) { g = kget(1, n); CHECK(g == (ktls ? 0 : n), "recv", "%s: %ld errno %d", ln[k], g, errno); }
        CHECK(!memcmp(kin, b, n), "data", "%s: the message differs", ln[k]);
    }
    karm = -1; dv_sig(k * 1000 + kdir * 500 + failed * 100 + at * 10 + kafter); 
    if(failed >= 0) {
        long c = kcalls[failed]; if(failed == 1) { int r = kput(1, "more", 4); CHECK(r == 0, "send", "errno %d", errno); }
        for(int i = 0; i < 3; i++) { long g = failed == 0 ? kput(0, b, 1 + dv_below(20)) : kget(0, 4); CHECK(g == -1 && errno == ECONNRESET, "goes-on", "%s: %s after a failure returned %ld errno %d instead of ECONNRESET", ln[k], failed ? "receiving" : "sending", g, errno); CHECK(kcalls[failed] == c, "goes-on", "%s: the stream beneath is used after a failure", ln[k]); }
        for(int i = 0; i < 2; i++) { int n = 1 + dv_below(200); for(int y = 0; y < n; y++) b[y] = 'a' + dv_below(26); int from = failed == 0 ? 1 : 0; int r = kput(from, b, n); CHECK(r == 0, "other-direction", "%s: sending: errno %d", ln[k], errno); long g = kget(!from, n); CHECK(g == (ktls ? 0 : n) && !memcmp(kin, b, n), "other-direction", "%s: receiving: %ld errno %d", ln[k], g, errno); dv_stat("other_direction", 1); }
        if(dv_pct(60)) { int h = detach(l[0], S[0].h, now() + 50); CHECK(h == -1 && errno == ECONNRESET, "detach", "%s: detaching after a failure returned %d errno %d", ln[k], h, errno); gone(0, "failed detach"); kt = NULL; kill1(1, "close"); dv_stat("failed_detach", 1); }
    }
    kt = NULL; int f = dv_below(2); if(S[f].alive) kill1(f, "close"); if(S[!f].alive) kill1(!f, "close"); sweep(); dv_nontrivial();
}
void dv_case(void) {
    dv_deadlock = retry; static int first = 1; if(first) { const char *d = getenv("DV_SCRATCH"); mkcert(); atexit(clean); snprintf(path, sizeof path, "%s/l%d.ipc", d ? d : "/tmp", (int)getpid()); unlink(path); } allmem = dv_mode[0] == 'm'; cycles = dv_mode[0] == 'c'; ctr = 0;
    if(first) { first = 0; uint64_t s = *dv_rngstate(); now(); warm(); int p[2]; CHECK(ipc_pair(p) == 0, "harness", "pair"); int w = ws_attach_client(p[0], WS_BINARY | WS_NOHTTP, NULL, NULL, -1); msend(w, "a", 1, -1); hclose(w); hclose(p[1]); *dv_rngstate() = s; }
    fds0 = dv_fdcount();
    if(dv_mode[0] == 't') { fctx(); dv_nontrivial(); dv_sig(dv_seed); dv_sample("%d", 1); }
    else if(dv_mode[0] == 'b') busymode();
    else if(dv_mode[0] == 'k') { shaky(); dv_sample("%d", 1); }
    else if(dv_mode[0] == 'g') { faults(); dv_nontrivial(); dv_sample("last %s", fop); }
    else if(dv_mode[0] == 'f') { for(int k = 0; k < 3; k++) faults(); dv_nontrivial(); dv_sample("last %s", fop); }
    else if(!cycles) { int n = 2 + dv_below(6); program(n); dv_nontrivial(); dv_sample("%d stacks and objects, %d attached", n, nattach); }
    else { /* the same program over and over: after the caches are warm nothing may grow */
        uint64_t s = *dv_rngstate(); int n = 1 + dv_below(5), reps = 6 + dv_below(10); long a = 0, y = 0, o = 0; int f = 0, hm = 0;
        for(int k = 0; k < reps; k++) { *dv_rngstate() = s; ctr = 0; program(n); int h = k == 2 || k == reps - 1 ? used() : 0; long la = dv_live_allocs, ly = dv_live_bytes; if(k == 2) { a = la; y = ly; o = ossl; f = dv_fdcount(); hm = h; } if(k > 2) { CHECK(dv_fdcount() <= f, "fd-growth", "%d descriptors after %d repetitions, %d after 3", dv_fdcount(), k + 1, f); CHECK(la <= a + 1 && ly <= y + 70000, "growth", "%ld blocks, %ld bytes after %d repetitions, %ld and %ld after 3", la, ly, k + 1, a, y); CHECK(ossl <= o + 60, "ossl-growth", "%ld OpenSSL blocks after %d repetitions, %ld after 3", ossl, k + 1, o); CHECK(h <= hm, "handle-growth", "%d handles in use after %d repetitions, %d after 3", h, k + 1, hm); dv_stat("repetitions", 1); } if(k == reps - 1 && dv_verbose) dv_log("blocks %ld/%ld bytes %ld/%ld ossl %ld/%ld handle %d/%d", la, a, ly, y, ossl, o, h, hm); }
        dv_nontrivial(); dv_sample("%d repetitions of a program of %d", reps, n); }
    int f = dv_fdcount(); CHECK(f == fds0, "fd", "%d descriptors at the end, %d before", f, fds0);
}
