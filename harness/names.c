/* A03: names resolved through a hosts file and name servers played by the harness. One configuration per process. */
#include "net.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <strings.h>
enum { OK_ = 0, SILENT, CLOSED };
static int ns, kind[3], ufd[3], tfd[3], port[3], nopt_drop, nopt_delay, nopt_forge, nopt_bad, tmo, attempts, ndots, tcponly, fast; static char order[4];
static char dom[3][40]; static int ndom;
struct rec { char name[130]; int n4, n6, glue, tcp; unsigned char a4[120][4], a6[120][16]; char cname[130]; };
static struct rec R[24]; static int nr;
static struct { char name[64]; int v6; unsigned char a[16]; } H[60]; static int nh;
static uint64_t seed0;
static uint64_t kh(const char *n, int t, int s) { char b[200]; int i; for(i = 0; n[i] && i < 190; i++) b[i] = n[i] >= 'A' && n[i] <= 'Z' ? n[i] + 32 : n[i]; b[i++] = t; b[i++] = s; return dv_hash(b, i, seed0); }
static struct rec *find(const char *fqdn) { for(int i = 0; i < nr; i++) if(!strcasecmp(R[i].name, fqdn)) return &R[i]; return NULL; }
/* ---- everything ever sent in replies, to recognise where an address came from ---- */
static unsigned char *sent; static size_t nsent, csent; static int badsent; static long asked, tcpasked;
static void note(const void *p, size_t n) { if(nsent + n > csent) { csent = (nsent + n) * 2 + 4096; sent = realloc(sent, csent); } memcpy(sent + nsent, p, n); nsent += n; }
/* ---- encoding of replies ---- */
static unsigned char *P; static int pn; static unsigned char pk[70000];
static void b16(int v) { P[pn++] = v >> 8; P[pn++] = v; }
static void nm(const char *s) { while(*s) { const char *e = strchr(s, '.'); int l = e ? e - s : (int)strlen(s); if(l) { P[pn++] = l; for(int i = 0; i < l; i++) { int c = s[i]; P[pn++] = c; } } s += l + (e != NULL); } P[pn++] = 0; }
static void owner(const char *s, const char *q, int big) { if(!strcasecmp(s, q) && (big || dv_pct(80))) b16(0xc00c); else nm(s); }
static int roff[2000], nro; static void rdone(void) { if(nro < 2000) roff[nro++] = pn; } /* where each record ends */
static void rr(const char *o, const char *q, int type, const void *d, int n, int big) { owner(o, q, big); b16(type); b16(1); b16(0); b16(dv_below(3600)); b16(n); memcpy(P + pn, d, n); pn += n; rdone(); }
static void rrname(const char *o, const char *q, int type, const char *t) { owner(o, q, 0); b16(type); b16(1); b16(0); b16(60); int at = pn; pn += 2; if(type == 15) b16(10); nm(t); int n = pn - at - 2; P[at] = n >> 8; P[at + 1] = n; rdone(); }
static void noise(const char *q, int *cnt, int type) {
    unsigned char junk[16]; for(int i = 0; i < 16; i++) junk[i] = 0xE0 | dv_below(16); char o[160]; snprintf(o, sizeof o, "noise.%.100s", q);
    switch(dv_below(5)) { case 4: { static const int ty[] = {2, 1001, 6, 12, 13, 15, 16, 33, 41, 44, 99, 255, 1000}; int t = ty[dv_below(13)]; unsigned char d[48]; int l = dv_below(sizeof d); for(int i = 0; i < l; i++) d[i] = dv_rand() & (dv_pct(50) ? 0xff : 7); const char *w = dv_pct(50) ? o : q;
        if(nopt_bad && dv_pct(50)) badsent = 1; else if(t == 2 || t == 12 || t == 15) { rrname(w, q, t, "other.noise.test"); break; } else if(t == 6 || t == 33 || t == 41) t = 257; else if(t == 44) { d[0] = d[1] = 1; l = 22; for(int i = 2; i < l; i++) d[i] = dv_rand(); } else if(t == 16 || t == 99) { if(l == 0) l = 1; d[0] = l - 1; }
        rr(w, q, t, d, l, 0); break; } case 0: rr(o, q, type, junk, type == 1 ? 4 : 16, 0); break; case 1: rr(q, q, type == 1 ? 28 : 1, junk, type == 1 ? 16 : 4, 0); break; case 2: rr(q, q, 16, "\7noise12", 8, 0); break; default: rrname(q, q, 15, "mail.noise.test"); }
    ++*cnt;
}
/* q as asked (case kept); returns length, sets *big when it does not fit into 512 bytes */
static int answer(const unsigned char *query, int qlen, const char *q, int type, int tcp) {
    P = pk; memcpy(P, query, 2); pn = 2; b16(0x8180); b16(1); b16(0); b16(0); b16(0); memcpy(P + 12, query + 12, qlen - 12); pn = qlen; nro = 0; if(dv_pct(10)) { /* some servers change the case of the name */ for(int i = 12; i < qlen - 4; i++) if(P[i] >= 'a' && P[i] <= 'z' && dv_pct(50)) P[i] -= 32; dv_stat("case_changed", 1); } int an = 0, au = 0, ad = 0, rc = 0, nz = dv_pct(20);
    struct rec *r = find(q); const char *o = r ? r->name : q; if(!r) rc = dv_pct(80) ? 3 : 0;
    int hop = 0, first = 1, rev = dv_pct(20);
    while(r) {
        if(nz && dv_pct(50)) noise(q, &an, type);
        if(r->cname[0]) { if(!rev || !r->glue) { rrname(o, q, 5, r->cname); an++; } struct rec *t = find(r->cname); if(!r->glue || !t || ++hop > 4) break; if(rev) { struct rec *x = t; if(!x->cname[0]) { int n = type == 1 ? x->n4 : x->n6; for(int i = 0; i < n; i++) { rr(x->name, q, type, type == 1 ? (void*)x->a4[i] : (void*)x->a6[i], type == 1 ? 4 : 16, 0); an++; } rrname(o, q, 5, r->cname); an++; break; } rrname(o, q, 5, r->cname); an++; } o = t->name; r = t; first = 0; continue; }
        int n = type == 1 ? r->n4 : type == 28 ? r->n6 : 0; for(int i = 0; i < n; i++) { rr(o, q, type, type == 1 ? (void*)r->a4[i] : (void*)r->a6[i], type == 1 ? 4 : 16, n > 12); an++; if(nz && dv_pct(20)) noise(q, &an, type); }
        break;
    }
    int tc = 0; struct rec *r0 = find(q); if(!tcp && (pn > 512 || (r0 && r0->tcp))) { tc = 1; int fit = 0; while(fit < nro && fit < an && roff[fit] <= 512) fit++; an = fit && dv_pct(50) ? 1 + (int)dv_below(fit) : 0; pn = an ? roff[an - 1] : qlen; if(an) dv_stat("partial", 1); if(pn > 512) pn = 512; }
    if(!tc && pn < 400 && dv_pct(25)) { int n = 1 + dv_below(2); while(n--) { rrname("dv.test", q, 2, "ns.dv.test"); au++; } }
    if(!tc && pn < 400 && dv_pct(25)) { unsigned char j[16]; memset(j, 0xEE, 16); rr("ns.dv.test", q, type, j, type == 1 ? 4 : 16, 0); ad++; }
    P[2] = 0x81 | (tc ? 2 : 0) | (dv_pct(30) ? 4 : 0); P[3] = 0x80 | (tc ? 0 : rc); P[6] = an >> 8; P[7] = an; P[8] = 0; P[9] = au; P[10] = 0; P[11] = ad; (void)first;
    if(tc) dv_stat("truncated", 1);
    return pn;
}
static int qparse(const unsigned char *b, int n, char *q, int *type) {
    CHECK(n >= 17, "query", "a query of %d bytes", n); CHECK(b[4] == 0 && b[5] == 1 && !b[6] && !b[7] && !(b[2] & 0xf8), "query", "malformed query header %02x%02x qd %d", b[2], b[3], b[5]);
    int i = 12, o = 0; while(1) { CHECK(i < n, "query", "the name in a query does not end"); int l = b[i++]; if(!l) break; CHECK(l < 64 && i + l < n, "query", "label of %d bytes in a query of %d", l, n); memcpy(q + o, b + i, l); o += l; i += l; q[o++] = '.'; CHECK(o < 256, "query", "name too long"); }
    if(o) o--; q[o] = 0; CHECK(i + 4 <= n, "query", "a query without type"); *type = b[i] << 8 | b[i + 1]; CHECK((*type == 1 || *type == 28) && b[i + 2] == 0 && b[i + 3] == 1, "query", "query of type %d class %d", *type, b[i + 3]);
    return i + 4;
}
static void garble(void) { /* makes a genuine looking reply malformed */
    int k = dv_below(7); badsent = 1; if(pn < 17) return;
    switch(k) {
    case 0: pn = 12 + dv_below(pn - 11); break;
    case 1: for(int i = 1 + dv_below(4); i--;) P[12 + dv_below(pn - 12)] = dv_rand(); break;
    case 2: P[4 + dv_below(8)] = dv_rand(); break;
    case 3: { int o = 12 + dv_below(pn - 13); P[o] = 0xc0 | dv_below(dv_pct(50) ? 1 : 64); P[o + 1] = dv_pct(50) ? o : (int)dv_rand(); break; }
    case 4: { int n = dv_below(400); for(int i = 0; i < n; i++) P[pn + i] = dv_rand(); pn += n; P[7] = dv_rand(); break; }
    case 6: { int o = dv_pct(60) ? 12 : 12 + (int)dv_below(pn - 16); P[o] = 1; P[o + 1] = 'a'; P[o + 2] = 0xc0 | o >> 8; P[o + 3] = o; break; } /* a loop with a label in it */
    default: P[3] = (P[3] & 0xf0) | dv_below(16); P[2] ^= 1 << dv_below(8); if(dv_pct(50)) P[6] = 0xff; break;
    }
    dv_stat("malformed", 1);
}
static int bndl, any;
static struct { uint64_t k; int n; } seen[4000]; static int nseen;
static int *seencnt(uint64_t k) { for(int i = 0; i < nseen; i++) if(seen[i].k == k) return &seen[i].n; CHECK(nseen < 4000, "flood", "too many different queries"); seen[nseen].k = k; return &seen[nseen++].n; }
struct rep { int s, len; struct sockaddr_in to; int64_t at; unsigned char b[900]; };
static coroutine void later(struct rep *r) { int rc = msleep(r->at); if(rc == 0) { note(r->b, r->len); ssize_t x = sendto(ufd[r->s], r->b, r->len, 0, (void*)&r->to, sizeof r->to); (void)x; } free(r); }
static int armed;
static void l_later(struct rep *r) { long fa = dv_failat; dv_failat = -1; CHECK(bundle_go(bndl, later(r)) == 0, "harness", "go"); if(armed) dv_failat = fa; }
static void forge(int s, const unsigned char *q, int ql, const struct sockaddr_in *to, int type) {
    /* packets which are not replies to the query */
    for(int n = 1 + dv_below(4); n--;) {
        unsigned char b[700]; int k = dv_below(7), l; unsigned char a[16]; memset(a, 0xF7, 16); memcpy(b, q, ql); b[2] = 0x81; b[3] = 0x80; b[7] = 1; l = ql; b[l++] = 0xc0; b[l++] = 12; b[l++] = 0; b[l++] = type; b[l++] = 0; b[l++] = 1; memset(b + l, 0, 4); l += 4; b[l++] = 0; b[l++] = type == 1 ? 4 : 16; memcpy(b + l, a, 16); l += type == 1 ? 4 : 16;
        int fd = ufd[s];
        if(k == 0) b[dv_below(2)] ^= 1 << dv_below(8); else if(k == 1) b[13] = b[13] == 'z' ? 'y' : 'z'; else if(k == 2) b[ql - 3] = type == 1 ? 28 : 1; else if(k == 3) l = dv_below(12); else if(k == 4) b[5] = 0, b[4] = 0; else if(k == 5) { fd = socket(AF_INET, SOCK_DGRAM, 0); } else { for(int i = 2; i < 60; i++) b[i] = dv_rand(); b[0] ^= 1; l = 60; }
        ssize_t x = sendto(fd, b, l, 0, (void*)to, sizeof *to); (void)x; if(k == 5) close(fd); dv_stat("forged", 1);
    }
}
static coroutine void userver(int s) {
    while(1) {
        int rc = fdin(ufd[s], -1); if(rc < 0 && errno == ECANCELED) break; CHECK(rc == 0, "harness", "fdin %d", errno);
        unsigned char b[2000]; struct sockaddr_in from; socklen_t fl = sizeof from; ssize_t n = recvfrom(ufd[s], b, sizeof b, 0, (void*)&from, &fl); if(n < 0) continue;
        char q[300]; int type, ql = qparse(b, n, q, &type); CHECK(ql == n, "query", "%zd bytes after the question", n - ql); asked++; CHECK(!tcponly, "query", "a datagram although the configuration says TCP only"); CHECK(asked < 200000, "flood", "too many queries");
        uint64_t h = kh(q, type, s); int *c = seencnt(h); int nth = (*c)++; dv_log("  server %d asked %s type %d (%d)", s, q, type, nth);
        if(kind[s] == SILENT) continue;
        if(nopt_drop && nth == 0 && h % 3 == 0) { dv_stat("dropped", 1); continue; }
        if(nopt_forge && dv_pct(50)) forge(s, b, ql, &from, type);
        answer(b, ql, q, type, 0); CHECK(pn <= 700, "harness", "%d", pn); if(nopt_bad && h / 3 % 2 == 0) garble();
        if(pn > 800) pn = 800;
        struct rep r; r.s = s; r.len = pn; r.to = from; memcpy(r.b, P, pn); r.at = now() + (nth == 0 && nopt_delay && h / 7 % 2 ? (int)(h / 14 % (tmo * 1500)) : 0);
        if(r.at > now()) { struct rep *z = malloc(sizeof *z); *z = r; l_later(z); dv_stat("delayed", 1); } else { note(r.b, r.len); ssize_t x = sendto(ufd[s], r.b, r.len, 0, (void*)&from, sizeof from); (void)x; }
    }
    fdclean(ufd[s]);
}
static uint64_t tdone[4000]; static int ntd;
static coroutine void tconn(int fd, int s) {
    unsigned char b[2000]; int have = 0;
    while(1) {
        int want = have < 2 ? 2 : 2 + (b[0] << 8 | b[1]); CHECK(want < 1900, "query", "a query of %d bytes over TCP", want);
        while(have < want) { int rc = fdin(fd, -1); if(rc < 0) goto out; ssize_t n = recv(fd, b + have, want - have, 0); if(n == 0 || (n < 0 && errno != EAGAIN)) goto out; if(n > 0) have += n; }
        if(have == 2) continue;
        char q[300]; int type, ql = qparse(b + 2, have - 2, q, &type); CHECK(ql == have - 2, "query", "%d bytes after the question", have - 2 - ql); tcpasked++; asked++; dv_log("  server %d asked over TCP %s type %d", s, q, type);
        if(kind[s] == SILENT) { have = 0; continue; }
        unsigned char *o = malloc(70000); answer(b + 2, ql, q, type, 1); uint64_t h = kh(q, type, s); if(nopt_bad && h / 3 % 2 == 0) garble(); int n = pn; memcpy(o + 2, pk, pn); o[0] = n >> 8; o[1] = n; note(o + 2, n); n += 2; int cut = nopt_bad && dv_pct(30) ? (int)dv_below(n) : -1; if(nopt_bad && dv_pct(15)) o[dv_below(2)] = dv_rand(), badsent = 1; if(cut >= 0) badsent = 1;
        /* the first reply may come when the client has given up waiting for it */
        int nt = 0; for(int i = 0; i < ntd; i++) nt += tdone[i] == h; if(!nt && ntd < 4000) tdone[ntd++] = h; if(!nt && nopt_delay && h / 11 % 2) { if(msleep(now() + (int)(h / 22 % (tmo * 1500))) < 0) { free(o); goto out; } dv_stat("late_tcp", 1); }
        int at = 0; while(at < n) {
            int k = dv_pct(50) ? n - at : 1 + (int)dv_below(n - at); if(cut >= 0 && at + k > cut) k = cut - at;
            ssize_t x = k ? send(fd, o + at, k, MSG_NOSIGNAL) : 0; if(x < 0) { if(errno != EAGAIN) break; if(fdout(fd, -1) < 0) break; continue; } at += x; if(cut >= 0 && at >= cut) { free(o); goto out; }
            if(at < n && !fast && dv_pct(30)) if(msleep(now() + dv_below(50)) < 0) break;
        }
        free(o); have = 0; if(!tcponly && dv_pct(50)) goto out; /* some servers close after each reply */
    }
out: fdclean(fd); close(fd);
}
static void l_tconn(int fd, int s) { long fa = dv_failat; dv_failat = -1; CHECK(bundle_go(bndl, tconn(fd, s)) == 0, "harness", "go"); if(armed) dv_failat = fa; }
static coroutine void tserver(int s) {
    while(1) {
        int rc = fdin(tfd[s], -1); if(rc < 0 && errno == ECANCELED) break; int fd = accept4(tfd[s], NULL, NULL, SOCK_NONBLOCK); if(fd < 0) continue; int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        l_tconn(fd, s);
    }
    fdclean(tfd[s]);
}
static void l_user(int s) { CHECK(bundle_go(bndl, userver(s)) == 0, "harness", "go"); }
static void l_tser(int s) { CHECK(bundle_go(bndl, tserver(s)) == 0, "harness", "go"); }
/* queries to port 53 of our servers go to the ports where they really are; nothing else may be contacted */
static int onconnect(int fd, const struct sockaddr *sa, socklen_t len, int *rc) {
    struct sockaddr_in a; CHECK(sa->sa_family == AF_INET && len >= sizeof a, "contact", "connecting to a family %d address", sa->sa_family); memcpy(&a, sa, sizeof a); uint32_t ip = ntohl(a.sin_addr.s_addr); int s = (int)(ip - 0x7f000001);
    CHECK(s >= 0 && s < ns, "contact", "contacting %08x which is no configured server", ip); CHECK(ntohs(a.sin_port) == 53 || ntohs(a.sin_port) == port[s], "contact", "contacting port %d", ntohs(a.sin_port));
    if(ntohs(a.sin_port) != 53) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return 0; }
    int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); a.sin_port = htons(port[s]); *rc = connect(fd, (void*)&a, sizeof a); return 1;
}
/* ---- reference ---- */
struct out { int n, fuzzy; unsigned char a[300][16]; };
static void hostsof(const char *fq, int v6, struct out *o) { for(int i = 0; i < nh; i++) if(H[i].v6 == v6 && !strcasecmp(H[i].name, fq)) memcpy(o->a[o->n++], H[i].a, 16); }
static void direct(const char *fq, int v6, struct out *o, int depth);
static void target(const char *fq, int v6, struct out *o, int depth) { /* target of an alias, not in the reply */
    for(char *w = order; *w && !o->n; w++) { if(*w == 'f') hostsof(fq, v6, o); else direct(fq, v6, o, depth); }
    if(!o->n) o->fuzzy = 1;
}
static void direct(const char *fq, int v6, struct out *o, int depth) {
    struct rec *r = find(fq); if(depth > 4) { o->fuzzy = 1; return; } if(!r) return;
    if(r->cname[0]) { struct rec *t = find(r->cname); if(r->glue && t) { direct(r->cname, v6, o, depth + 1); if(!o->n) o->fuzzy = 1; if(o->n) for(int i = 0; i < nh; i++) if(!strcasecmp(H[i].name, r->cname)) o->fuzzy = 1; } else target(r->cname, v6, o, depth + 1); return; }
    int n = v6 ? r->n6 : r->n4; for(int i = 0; i < n; i++) memcpy(o->a[o->n++], v6 ? r->a6[i] : r->a4[i], v6 ? 16 : 4);
}
static int cands(const char *name, char c[5][300]) {
    int nd = 0, n = 0; for(const char *p = name; *p; p++) nd += *p == '.'; if(nd >= ndots) strcpy(c[n++], name);
    for(int i = 0; i < ndom; i++) sprintf(c[n++], "%s%s%s", name, name[0] && name[strlen(name) - 1] == '.' ? "" : ".", dom[i]);
    if(nd < ndots) strcpy(c[n++], name);
    for(int i = 0; i < n; i++) { int l = strlen(c[i]); if(l && c[i][l - 1] == '.') c[i][l - 1] = 0; }
    return n;
}
static void resolve(const char *name, int v6, struct out *o) {
    char c[5][300]; int n = cands(name, c); o->n = o->fuzzy = 0; memset(o->a, 0, sizeof o->a);
    for(char *w = order; *w; w++) {
        for(int i = 0; i < n && !o->n; i++) { if(*w == 'f') hostsof(c[i], v6, o); else { struct rec *r = find(c[i]); int al = r && r->cname[0]; direct(c[i], v6, o, 0); if(al && !o->n) { o->fuzzy = 1; return; } } }
        if(o->n) return;
    }
}
static int known(const char *name, const void *a, int v6) { /* may this address come from anywhere at all? */
    for(int i = 0; i < nh; i++) if(H[i].v6 == v6 && !memcmp(H[i].a, a, v6 ? 16 : 4)) return 1;
    return nsent && memmem(sent, nsent, a, v6 ? 16 : 4) != NULL;
}
/* ---- one lookup ---- */
static int running, cleanservers;
static int64_t worst(void) { return (int64_t)(ns * attempts * (tmo + 1) + 4) * 1000 * 5 * 6; }
static void lookup(const char *name, int cancelable, int fault, int exact) {
    static const int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6}; int mode = modes[dv_below(5)], port_ = dv_below(65536), cap = dv_pct(30) ? 1 : 1 + (int)dv_below(dv_pct(80) ? 16 : 200), single = dv_pct(20); int64_t dl = dv_pct(40) ? -1 : dv_pct(10) ? 0 : dv_pct(20) ? now() + worst() + 1 : now() + (dv_pct(50) ? dv_below(100) : dv_below(tmo * 3000)), t0 = now(); if(fault && dl == 0) dl = -1;
    if(single) cap = 1; struct ipaddr *a = dv_galloc(cap * sizeof(struct ipaddr)); int bad0 = badsent;
    errno = 0; int rc = single ? ipaddr_remote(a, name, port_, mode, dl) : ipaddr_remotes(a, cap, name, port_, mode, dl), e = errno; int64_t t1 = now(); if(single && rc == 0) rc = 1; else if(single && rc == -1 && e == EADDRNOTAVAIL) rc = 0;
    dv_log("lookup '%.80s' mode %d cap %d deadline %lld -> %d %s after %lld", name, mode, cap, (long long)(dl < 0 ? dl : dl - t0), rc, rc < 0 ? strerror(e) : "", (long long)(t1 - t0)); dv_sig(dv_hash(name, strlen(name), rc * 16 + mode)); dv_stat("lookups", 1); running--;
    CHECK(rc >= -1 && rc <= cap, "count", "%d addresses for room for %d", rc, cap);
    if(dl >= 0) CHECK(t1 <= (dl > t0 ? dl : t0) + 1, "late", "lookup with deadline %lld ended after %lld ms", (long long)(dl - t0), (long long)(t1 - t0)); else CHECK(t1 - t0 <= worst(), "endless", "lookup without deadline took %lld ms", (long long)(t1 - t0));
    struct out *o4 = calloc(1, sizeof *o4), *o6 = calloc(1, sizeof *o6); resolve(name, 0, o4); resolve(name, 1, o6); int want4 = mode != IPADDR_IPV6, want6 = mode != IPADDR_IPV4, fz = (want4 && o4->fuzzy) || (want6 && o6->fuzzy) || nopt_bad || badsent || !exact, fuzzy = fz || fault; int n4 = 0, n6 = 0, sw = 0, lastf = 0;
    for(int i = 0; i < rc; i++) {
        int f = ipaddr_family(a + i), v6 = f == AF_INET6; CHECK(f == AF_INET || v6, "family", "family %d", f); CHECK(v6 ? want6 : want4, "mode", "an address of family %d for mode %d", f, mode); CHECK(ipaddr_port(a + i) == port_, "port", "port %d instead of %d", ipaddr_port(a + i), port_);
        if(i && lastf != v6) sw++; if(!i && rc > 1) {} lastf = v6; if(v6) n6++; else n4++; unsigned char raw[16] = {0}; if(v6) memcpy(raw, &((struct sockaddr_in6*)ipaddr_sockaddr(a + i))->sin6_addr, 16); else memcpy(raw, &((struct sockaddr_in*)ipaddr_sockaddr(a + i))->sin_addr, 4);
        CHECK(known(name, raw, v6), "invented", "address %d of %s is in no reply and not in the hosts file", i, name); CHECK(raw[0] != 0xF7 || raw[1] != 0xF7, "forged", "an address from a forged packet was returned for %s", name);
        if(!fuzzy) { struct out *o = v6 ? o6 : o4; int k; for(k = 0; k < o->n; k++) if(!memcmp(o->a[k], raw, v6 ? 16 : 4)) break; CHECK(k < o->n, "foreign", "%s: address %d (%02x%02x%02x%02x...) is not one of its addresses", name, i, raw[0], raw[1], raw[2], raw[3]); memset(o->a[k], 0xFD, 16); }
    }
    CHECK(sw <= 1, "order", "families alternate in the result"); if(sw) { int f0 = ipaddr_family(a); CHECK(f0 == (mode == IPADDR_PREF_IPV6 ? AF_INET6 : AF_INET), "preference", "the result of mode %d starts with family %d", mode, f0); }
    if(rc == -1) {
        if(e == ETIMEDOUT) { CHECK(dl >= 0 && t1 >= dl, "early-timeout", "ETIMEDOUT after %lld ms with deadline %lld", (long long)(t1 - t0), (long long)(dl < 0 ? dl : dl - t0)); CHECK(dl - t0 <= worst(), "gave-up", "%s timed out although the deadline is %lld ms away", name, (long long)(dl - t0)); CHECK(!(fast && !dv_short_pct && !fuzzy && !fault && !cancelable && cleanservers && dl > t0), "timeout", "%s timed out although the servers answer at once", name); dv_stat("timeouts", 1); }
        else if(e == ECANCELED) { CHECK(cancelable, "canceled", "ECANCELED in a coroutine not cancelled"); dv_stat("cancelled", 1); }
        else CHECK(fault || fuzzy, "error", "lookup of %.100s failed with errno %d", name, e);
    } else if(!fuzzy && !fault) {
        int w4 = want4 ? o4->n : 0, w6 = want6 ? o6->n : 0, e4, e6; if(mode == IPADDR_PREF_IPV6) { e6 = w6 < cap ? w6 : cap; e4 = w4 < cap - e6 ? w4 : cap - e6; } else { e4 = w4 < cap ? w4 : cap; e6 = w6 < cap - e4 ? w6 : cap - e4; }
        CHECK(n4 == e4 && n6 == e6, "incomplete", "%.100s mode %d: %d+%d addresses of %d+%d in an array of %d", name, mode, n4, n6, w4, w6, cap); dv_stat(rc ? "found" : "none", 1); if(n4 && n6) dv_stat("both_families", 1);
    } else if(fault) { int w = (want4 ? o4->n : 0) + (want6 ? o6->n : 0); if(!fz && rc == 0) CHECK(w == 0 || dv_failed_kind < 0, "swallowed", "a failure of %s was reported as no address of %s", dv_kindname[dv_failed_kind], name); dv_stat("fault_survived", 1); }
    (void)bad0; free(o4); free(o6); dv_gfree(a);
}
static const char *anyname(char *b) {
    if(dv_pct(70) && nr) { struct rec *r = &R[dv_below(nr)]; strcpy(b, r->name); if(dv_pct(40)) for(int i = 0; i < ndom; i++) { int l = strlen(b), d = strlen(dom[i]); if(l > d + 1 && !strcasecmp(b + l - d, dom[i])) { b[l - d - 1] = 0; break; } } }
    else if(dv_pct(60) && nh) strcpy(b, H[dv_below(nh)].name); else sprintf(b, "nope%d%s", (int)dv_below(5), dv_pct(50) ? ".dv.test" : "");
    for(char *p = b; *p; p++) if(*p >= 'a' && *p <= 'z' && dv_pct(10)) *p -= 32;
    return b;
}
static const char *oddname(char *b) {
    int n = 0, k = dv_below(6);
    switch(k) {
    case 0: n = dv_below(400); for(int i = 0; i < n; i++) b[i] = dv_pct(15) ? '.' : 'a' + dv_below(26); break;
    case 1: n = 1 + dv_below(80); for(int i = 0; i < n; i++) b[i] = 'x'; break;
    case 2: n = dv_below(30); for(int i = 0; i < n; i++) b[i] = '.'; break;
    case 3: n = dv_below(300); for(int i = 0; i < n; i++) b[i] = 1 + dv_below(255); break;
    case 4: n = 240 + dv_below(30); for(int i = 0; i < n; i++) b[i] = i % 50 == 49 ? '.' : 'q'; break;
    default: n = 0;
    }
    b[n] = 0; return b;
}
static coroutine void client(int n, int mine) { char b[500]; for(int i = 0; i < n; i++) lookup(anyname(b), 0, 0, any); }
static coroutine void victim(void) { char b[500]; lookup(anyname(b), 1, 0, any); }
static coroutine void idle(void) { msleep(now() + 10); }
static void l_idle(int b) { CHECK(bundle_go(b, idle()) == 0, "harness", "go"); }
static int l_victim(void) { return go(victim()); }
static void l_client(int b, int n) { CHECK(bundle_go(b, client(n, 0)) == 0, "harness", "go"); }
static int retry(void) { return 1; }
static void rname(char *o, int k) { sprintf(o, "h%d%s", k, (const char *[]){"", ".dv.test", ".x.dv.test", ".other"}[dv_below(4)]); }
static char cf[8000], hf[8000];
static void config(void) {
    seed0 = dv_rand(); char *p; ns = 1 + dv_below(3); for(int i = 0; i < 3; i++) kind[i] = dv_pct(60) ? OK_ : dv_pct(50) ? SILENT : CLOSED; kind[dv_below(ns)] = OK_; if(dv_pct(4)) for(int i = 0; i < 3; i++) kind[i] = 1 + dv_below(2);
    nopt_forge = dv_pct(40); nopt_bad = dv_pct(25); nopt_drop = dv_pct(30); nopt_delay = dv_pct(30); fast = !nopt_drop && !nopt_delay; tmo = 1 + dv_below(5); attempts = nopt_drop || nopt_delay ? 6 : 1 + dv_below(3); ndots = dv_below(3); tcponly = dv_pct(8); cleanservers = 1; for(int i = 0; i < ns; i++) cleanservers &= kind[i] != SILENT;
    if(dv_pct(25)) { for(int i = 0; i < 3; i++) kind[i] = OK_; cleanservers = 1; }
    strcpy(order, dv_pct(50) ? "fb" : dv_pct(60) ? "bf" : dv_pct(50) ? "b" : "f"); ndom = dv_below(4); for(int i = 0; i < ndom; i++) strcpy(dom[i], (const char *[]){"dv.test", "x.dv.test", "other"}[i]);
    for(int i = 0; i < ns; i++) {
        struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001 + i); socklen_t l = sizeof a;
        for(int t = 0; ; t++) {
            CHECK(t < 50, "harness", "no port"); ufd[i] = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); tfd[i] = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); a.sin_port = 0;
            if(bind(tfd[i], (void*)&a, sizeof a) == 0 && getsockname(tfd[i], (void*)&a, &l) == 0 && bind(ufd[i], (void*)&a, sizeof a) == 0) break;
            close(ufd[i]); close(tfd[i]);
        }
        port[i] = ntohs(a.sin_port); int z = 1 << 20; setsockopt(ufd[i], SOL_SOCKET, SO_RCVBUF, &z, sizeof z); if(kind[i] == CLOSED) { /* refuses, but nobody else gets the port */ struct sockaddr_in z; memset(&z, 0, sizeof z); z.sin_family = AF_INET; z.sin_addr.s_addr = htonl(0x7f000001); z.sin_port = htons(1); CHECK(connect(ufd[i], (void*)&z, sizeof z) == 0, "harness", "connect"); } else listen(tfd[i], 100);
    }
    p = cf; p += sprintf(p, "# resolver\n;options ndots:9\n"); if(dv_pct(30)) p += sprintf(p, "nonsense here\n\n   \n");
    for(int i = 0; i < ns; i++) p += sprintf(p, dv_pct(30) ? "nameserver\t[127.0.0.%d]:%d # main\n" : "nameserver [127.0.0.%d]:%d\n", i + 1, port[i]);
    if(dv_pct(25)) p += sprintf(p, "%s", (const char *[]){"search dv.test x.dv.test other\n", "domain other\n", "search other dv.test\n", "lookup bind file\nsearch other. x.dv.test.\n"}[dv_below(4)]); /* superseded by what follows, as resolv.conf(5) says */
    if(ndom) { p += sprintf(p, "search"); for(int i = 0; i < ndom; i++) p += sprintf(p, " %s%s", dom[i], dv_pct(30) ? "." : ""); p += sprintf(p, "\n"); } else p += sprintf(p, "search .\n");
    p += sprintf(p, "options ndots:%d timeout:%d attempts:%d%s\n", ndots, tmo, attempts, tcponly ? " tcp" : ""); int nss = dv_pct(40) && strlen(order) == 2; if(!nss) { p += sprintf(p, "lookup"); for(char *w = order; *w; w++) p += sprintf(p, " %s", *w == 'f' ? "file" : "bind"); p += sprintf(p, "\n"); }
    dv_etc("/etc/resolv.conf", cf); if(nss) dv_etc("/etc/nsswitch.conf", order[0] == 'f' ? "passwd: files\nhosts: files dns\n" : "hosts:  dns files\nshadow: files\n");
    nr = dv_below(20); for(int i = 0; i < nr; i++) {
        struct rec *r = &R[i]; do rname(r->name, i); while(0); memset(r->a4, 0, sizeof r->a4);
        int big = dv_pct(8); r->n4 = dv_pct(25) ? 0 : big ? 100 : 1 + (int)dv_below(dv_pct(70) ? 3 : 12); r->n6 = dv_pct(25) ? 0 : big ? 60 : 1 + (int)dv_below(dv_pct(70) ? 3 : 12); r->tcp = dv_pct(8);
        for(int k = 0; k < 120; k++) { for(int j = 0; j < 4; j++) r->a4[k][j] = dv_rand(); r->a4[k][0] &= 0x7f; for(int j = 0; j < 16; j++) r->a6[k][j] = dv_rand(); r->a6[k][0] = 0x20; }
        if(i && dv_pct(25)) { strcpy(r->cname, dv_pct(85) ? R[dv_below(i)].name : "nowhere.test"); r->glue = dv_pct(60); }
    }
    nh = 0; p = hf; int lines = dv_below(14); p += sprintf(p, "# hosts\n127.0.0.1 localhost\n"); strcpy(H[0].name, "localhost"); H[0].v6 = 0; memcpy(H[0].a, "\x7f\0\0\1", 4); nh = 1;
    for(int i = 0; i < lines; i++) {
        if(dv_pct(10)) { p += sprintf(p, "%s\n", (const char *[]){"", "  # comment", "1.2.3 h1", "zz h2", "1.2.3.4", ";x y"}[dv_below(6)]); continue; }
        int v6 = dv_pct(50), k = 1 + dv_below(4); unsigned char a[16] = {0}; for(int j = 0; j < (v6 ? 16 : 4); j++) a[j] = dv_rand(); a[0] = v6 ? 0x20 : a[0] & 0x7f; char t[80]; inet_ntop(v6 ? AF_INET6 : AF_INET, a, t, sizeof t); p += sprintf(p, "%s%s", dv_pct(10) ? " " : "", t);
        while(k-- && nh < 60) { char nmb[64]; rname(nmb, dv_pct(50) ? (int)dv_below(20) : 30 + (int)dv_below(3)); int dup = 0; for(int q = 0; q < nh; q++) dup += strcmp(H[q].name, nmb) || H[q].v6 != v6 ? 0 : memcmp(H[q].a, a, 16) ? 1 : 9; if(dup >= 8) continue; strcpy(H[nh].name, nmb); H[nh].v6 = v6; memcpy(H[nh].a, a, 16); nh++; p += sprintf(p, "%s%s", dv_pct(30) ? "\t " : " ", nmb); }
        p += sprintf(p, "%s\n", dv_pct(20) ? " # end" : "");
    }
    dv_etc("/etc/hosts", hf); dv_log("%s---\n%s---", cf, hf); for(int i = 0; i < nr; i++) dv_log("%s %d %d -> %s %s", R[i].name, R[i].n4, R[i].n6, R[i].cname, R[i].glue ? "glued" : ""); dv_log("servers %d%d%d drop %d delay %d forge %d bad %d", kind[0], kind[1], kind[2], nopt_drop, nopt_delay, nopt_forge, nopt_bad);
}
void dv_case(void) {
    dv_deadlock = retry; dv_grace = 1; dv_on_connect = onconnect; config(); any = 0; for(int i = 0; i < ns; i++) any |= kind[i] == OK_;
    bndl = bundle(); for(int i = 0; i < ns; i++) if(kind[i] != CLOSED) { l_user(i); l_tser(i); }
    char b[500]; now(); lookup("localhost", 0, 0, any); msleep(now() + 60000); int wb = bundle(); for(int i = 0; i < 80; i++) l_idle(wb); CHECK(bundle_wait(wb, -1) == 0, "harness", "wait"); hclose(wb); /* fills the cache of stacks */ int f0 = dv_fdcount(); long a0 = dv_live_allocs; if(dv_verbose) dv_dump_allocs("start");
    int n = 6 + dv_below(20); if(dv_pct(40)) { dv_short_pct = dv_below(100); dv_again_pct = dv_below(30); }
    while(n--) {
        int k = dv_below(10);
        if(k < 4) lookup(anyname(b), 0, 0, any);
        else if(k < 6) { int cb = bundle(); for(int i = 1 + dv_below(6); i--;) l_client(cb, 1 + dv_below(3)); CHECK(bundle_wait(cb, -1) == 0, "harness", "wait"); hclose(cb); dv_stat("concurrent", 1); }
        else if(k == 6) { int h = l_victim(); if(dv_pct(80)) msleep(now() + (dv_pct(50) ? 0 : dv_below(tmo * 2000))); hclose(h); }
        else if(k == 7) { int64_t t0 = now(); oddname(b); struct ipaddr ia[3]; int rc = ipaddr_remotes(ia, 3, b, 80, IPADDR_IPV4 + (int)dv_below(2), -1); CHECK(rc >= -1 && rc <= 3, "odd-name", "result %d for an odd name", rc); if(rc > 0) CHECK(find(b) || badsent || nh || 1, "odd-name", "?"); CHECK(now() - t0 <= worst(), "endless", "an odd name took %lld ms", (long long)(now() - t0)); dv_stat("odd_names", 1); }
        else if(any) { dv_failmask = 1u << DV_MALLOC | 1u << DV_SOCKET | (dv_pct(30) ? 1u << DV_BIND : 0) | 1u << DV_CONNECT; dv_failed_kind = -1; dv_failat = dv_below(25); armed = 1; int nf = dv_nfailed; lookup(anyname(b), 0, 1, any); armed = 0; dv_failat = -1; if(dv_nfailed > nf) dv_stat("faults", 1); }
        if(dv_pct(50)) msleep(now() + dv_below(10000));
        if(dv_pct(30) && !nopt_bad) { yield(); }
    }
    msleep(now() + 20000); int f1 = dv_fdcount(); for(int i = 0; i < 20 && f1 > f0; i++) { msleep(now() + 2000); f1 = dv_fdcount(); } CHECK(f1 <= f0, "fd-leak", "%d descriptors, %d before", f1, f0);
    long a1 = dv_live_allocs; if(dv_verbose) dv_dump_allocs("end"); CHECK(a1 <= a0 + 8, "leak", "%ld blocks, %ld before", a1, a0); dv_max("blocks_grown", a1 - a0);
    hclose(bndl); dv_nontrivial(); dv_stat("queries", asked); dv_stat("tcp_queries", tcpasked); dv_sig(asked); dv_sample("%d servers, %d names, %d hosts, %ld queries", ns, nr, nh, asked);
    for(int i = 0; i < ns; i++) if(ufd[i] >= 0) { close(ufd[i]); close(tfd[i]); }
    nsent = 0; badsent = 0;
}
