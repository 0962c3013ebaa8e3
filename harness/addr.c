/* A01: address literals (mode l); A02: local interfaces and wildcards (mode i). */
#include "net.h"
#include <arpa/inet.h>
#include <ifaddrs.h>
#include <limits.h>
#include <net/if.h>
#include <netinet/in.h>
static const int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6};
/* ---- reference text conversion ---- */
static int ref4(const char *s, unsigned char *o) {
    for(int i = 0; i < 4; i++) {
        int v = 0, d = 0; while(*s >= '0' && *s <= '9') { if(d && v == 0) return 0; v = v * 10 + *s++ - '0'; if(++d > 3 || v > 255) return 0; }
        if(!d) return 0;
        o[i] = v; if(i < 3 && *s++ != '.') return 0;
    }
    return !*s;
}
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int ref6(const char *s, unsigned char *o) {
    int w[8], n = 0, gap = -1; memset(o, 0, 16);
    if(s[0] == ':') { if(s[1] != ':') return 0; }
    if(s[0] == ':' && s[1] == ':') { gap = 0; s += 2; if(!*s) return 1; }
    while(1) {
        const char *t = s; int v = 0, d = 0; while(hex(*t) >= 0) { v = v * 16 + hex(*t++); if(++d > 4) break; }
        if(*t == '.') { unsigned char q[4]; if(n > 6 || !ref4(s, q)) return 0; w[n++] = q[0] << 8 | q[1]; w[n++] = q[2] << 8 | q[3]; s = ""; break; }
        if(!d || d > 4 || n == 8) return 0;
        w[n++] = v; s = t;
        if(!*s) break;
        if(*s++ != ':') return 0;
        if(*s == ':') { if(gap >= 0) return 0; gap = n; s++; if(!*s) break; }
        else if(!*s) return 0;
    }
    if(gap < 0 ? n != 8 : n > 7) return 0;
    for(int i = 0; i < n; i++) { int k = gap >= 0 && i >= gap ? 8 - n + i : i; o[2 * k] = w[i] >> 8; o[2 * k + 1] = w[i]; }
    return 1;
}
static void canon(int v6, const unsigned char *a, char *t) {
    if(!v6) { sprintf(t, "%d.%d.%d.%d", a[0], a[1], a[2], a[3]); return; }
    int w[8], best = -1, bl = 1; for(int i = 0; i < 8; i++) w[i] = a[2 * i] << 8 | a[2 * i + 1];
    for(int i = 0; i < 8; i++) { int l = 0; while(i + l < 8 && !w[i + l]) l++; if(l > bl) { bl = l; best = i; } if(l) i += l - 1; }
    for(int i = 0; i < 8; i++) { if(i == best) { t += sprintf(t, "::"); i += bl - 1; continue; } t += sprintf(t, "%s%x", i && i != best + bl ? ":" : "", w[i]); }
}
/* a random spelling of the address */
static void spell(int v6, const unsigned char *a, char *t) {
    if(!v6) { canon(0, a, t); return; }
    int w[8], g0 = -1, g1 = -1, i, dot = dv_pct(20), end = dot ? 6 : 8; for(i = 0; i < 8; i++) w[i] = a[2 * i] << 8 | a[2 * i + 1];
    if(dv_pct(70)) { int c = 0; for(i = 0; i < end; i++) if(!w[i] && dv_below(++c) == 0) g0 = i; if(g0 >= 0) { g1 = g0; while(g1 + 1 < end && !w[g1 + 1] && dv_pct(80)) g1++; } }
    for(i = 0; i < end; i++) {
        if(i == g0) { t += sprintf(t, "::"); i = g1; continue; }
        t += sprintf(t, dv_pct(15) ? "%s%04x" : dv_pct(30) ? "%s%X" : dv_pct(10) ? "%s%02x" : "%s%x", i && i != g1 + 1 ? ":" : "", w[i]);
    }
    if(dot) sprintf(t, "%s%d.%d.%d.%d", g1 == 5 ? "" : ":", a[12], a[13], a[14], a[15]);
}
static void rnd(int v6, unsigned char *a) {
    int z = dv_below(4); for(int i = 0; i < 16; i++) a[i] = dv_rand();
    if(v6) for(int i = 0; i < 8; i++) { if(dv_pct(z * 30)) a[2 * i] = a[2 * i + 1] = 0; else if(dv_pct(20)) a[2 * i] = 0; }
    else for(int i = 0; i < 4; i++) if(dv_pct(20)) a[i] = (int[]){0, 255, 127, 1}[dv_below(4)];
    if(v6 && dv_pct(10)) { memset(a, 0, 10); a[10] = a[11] = 255; }
}
static int rport(void) { return dv_pct(20) ? (int[]){0, 1, 255, 256, 65535}[dv_below(5)] : (int)dv_below(65536); }
struct box { char c[32]; struct ipaddr a; char d[32]; };
static void boxcheck(struct box *b) { for(int i = 0; i < 32; i++) CHECK(b->c[i] == 0x5a && b->d[i] == 0x5a, "overrun", "memory around the address was written"); }
static void verify(struct ipaddr *a, int v6, const unsigned char *raw, int port, const char *what) {
    CHECK(ipaddr_family(a) == (v6 ? AF_INET6 : AF_INET), "family", "%s: family %d", what, ipaddr_family(a));
    CHECK(ipaddr_len(a) == (int)(v6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in)), "len", "%s: length %d", what, ipaddr_len(a));
    CHECK(ipaddr_port(a) == port, "port", "%s: port %d instead of %d", what, ipaddr_port(a), port);
    const struct sockaddr *sa = ipaddr_sockaddr(a); CHECK((const void*)sa == (const void*)a || sa, "raw", "no raw form");
    if(v6) { struct sockaddr_in6 s; memcpy(&s, sa, sizeof s); CHECK(s.sin6_family == AF_INET6 && s.sin6_port == htons(port) && !memcmp(&s.sin6_addr, raw, 16) && !s.sin6_flowinfo, "raw", "%s: the raw form differs", what); }
    else { struct sockaddr_in s; memcpy(&s, sa, sizeof s); CHECK(s.sin_family == AF_INET && s.sin_port == htons(port) && !memcmp(&s.sin_addr, raw, 4), "raw", "%s: the raw form differs", what); }
    struct { char c[16]; char t[IPADDR_MAXSTRLEN]; char d[16]; } w; memset(&w, 0x5a, sizeof w); char ref[64]; unsigned char back[16]; canon(v6, raw, ref);
    const char *r = ipaddr_str(a, w.t); CHECK(r == w.t, "str", "%s: ipaddr_str returned another pointer", what); for(int i = 0; i < 16; i++) CHECK(w.c[i] == 0x5a && w.d[i] == 0x5a, "str-overrun", "ipaddr_str wrote outside its buffer");
    CHECK(memchr(w.t, 0, sizeof w.t), "str", "no terminator");
    if(v6 && strchr(w.t, '.')) CHECK(ref6(w.t, back) && !memcmp(back, raw, 16), "str", "%s: printed as %s", what, w.t); else CHECK(!strcmp(w.t, ref), "str", "%s: printed as %s instead of %s", what, w.t, ref);
}
static int conv(struct ipaddr *a, const char *t, int port, int mode, int remote) {
    if(!remote) return ipaddr_local(a, t, port, mode);
    if(dv_pct(50)) return ipaddr_remote(a, t, port, mode, dv_pct(50) ? -1 : now() + 10);
    int n = ipaddr_remotes(a, 1, t, port, mode, -1); if(n == 0) { errno = EADDRNOTAVAIL; return -1; } CHECK(n == 1 || n == -1, "remotes", "ipaddr_remotes gave %d addresses for a literal", n); return n > 0 ? 0 : -1;
}
static int sockets; static void onsock(int fd, int d, int t) { sockets++; }
static void lit(void) {
    int v6 = dv_pct(60), port = rport(), mode = modes[dv_below(5)], remote = dv_pct(50), rc, e; unsigned char raw[16], r2[16]; char t[100]; struct box b; memset(&b, 0x5a, sizeof b);
    rnd(v6, raw); spell(v6, raw, t); CHECK(v6 ? ref6(t, r2) && !memcmp(r2, raw, 16) : ref4(t, r2) && !memcmp(r2, raw, 4), "harness", "spelling %s", t);
    rc = conv(&b.a, t, port, mode, remote); e = errno; boxcheck(&b); dv_log("%s mode %d port %d remote %d -> %d %s", t, mode, port, remote, rc, rc ? strerror(e) : ""); dv_sig(dv_hash(raw, 16, mode)); dv_sig(port);
    if((mode == IPADDR_IPV4 && v6) || (mode == IPADDR_IPV6 && !v6)) { CHECK(rc == -1 && e == (remote ? EADDRNOTAVAIL : ENODEV), "wrong-family", "%s with mode %d gave %d errno %d", t, mode, rc, e); CHECK(!sockets, "query", "a literal was looked up on the network"); dv_stat("excluded", 1); return; }
    CHECK(rc == 0, "refused", "the literal %s was refused with errno %d (mode %d)", t, e, mode); verify(&b.a, v6, raw, port, t); dv_stat("literals", 1);
    struct box b2; memset(&b2, 0x5a, sizeof b2); spell(v6, raw, t); rc = conv(&b2.a, t, port, modes[v6 ? 2 : 1], dv_pct(50)); CHECK(rc == 0 && ipaddr_equal(&b.a, &b2.a, 0) && ipaddr_equal(&b2.a, &b.a, 1), "unequal", "two spellings of one address differ: %s", t);
    int p2 = rport(); struct ipaddr before = b2.a; ipaddr_setport(&b2.a, p2); boxcheck(&b2); verify(&b2.a, v6, raw, p2, "after setport"); ipaddr_setport(&b2.a, port); CHECK(!memcmp(&before, &b2.a, sizeof before), "setport", "setting the port changes something else");
    ipaddr_setport(&b2.a, p2); CHECK(ipaddr_equal(&b.a, &b2.a, 1) && ipaddr_equal(&b.a, &b2.a, 0) == (p2 == port), "equal-port", "comparison and ports %d %d", port, p2);
    memcpy(r2, raw, 16); int bit = dv_below(v6 ? 128 : 32); r2[bit / 8] ^= 1 << (bit % 8); canon(v6, r2, t); rc = conv(&b2.a, t, port, 0, 0); CHECK(rc == 0, "refused", "%s refused", t); CHECK(!ipaddr_equal(&b.a, &b2.a, 0) && !ipaddr_equal(&b.a, &b2.a, 1), "equal", "addresses differing in bit %d compare equal", bit);
    if(v6) { memset(r2, 0, 16); memcpy(r2, raw + (dv_pct(50) ? 12 : 4), 4); } canon(0, r2, t); rc = conv(&b2.a, t, port, 0, 0);
    if(v6) CHECK(rc == 0 && !ipaddr_equal(&b.a, &b2.a, 1) && !ipaddr_equal(&b2.a, &b.a, 0), "equal-family", "addresses of different families compare equal");
}
static void badtext(void) {
    unsigned char raw[16], o[16]; char t[120]; int v6 = dv_pct(60), n = 1 + dv_below(3), rc, e, mode = modes[dv_below(5)]; rnd(v6, raw); spell(v6, raw, t);
    while(n--) {
        int l = strlen(t), p = dv_below(l + 1), c = dv_pct(70) ? ":.:.0123456789abcdefgx %/-"[dv_below(25)] : 1 + (int)dv_below(127);
        switch(dv_below(4)) { case 0: memmove(t + p + 1, t + p, l - p + 1); t[p] = c; break; case 1: if(p < l) memmove(t + p, t + p + 1, l - p); break; case 2: if(p < l) t[p] = c; break; default: t[p] = 0; }
    }
    int ok4 = ref4(t, o) && mode != IPADDR_IPV6, ok6 = !ok4 && mode != IPADDR_IPV4 && ref6(t, o); struct box b; memset(&b, 0x5a, sizeof b); rc = ipaddr_local(&b.a, t, 80, mode); e = errno; boxcheck(&b); dv_sig(dv_hash(t, strlen(t), mode)); dv_log("'%s' mode %d -> %d", t, mode, rc);
    if(ok4 || ok6) { CHECK(rc == 0, "refused", "%s was refused", t); verify(&b.a, ok6, o, 80, t); dv_stat("still_good", 1); return; }
    CHECK(rc == -1 && e == ENODEV, "malformed", "the malformed literal '%s' gave %d errno %d (mode %d)", t, rc, e, mode); dv_stat("malformed", 1);
}
static void badargs(void) {
    struct box b; memset(&b, 0x5a, sizeof b); int r = dv_below(4), rc; int port = 80, mode = 0; const char *n = dv_pct(50) ? "127.0.0.1" : dv_pct(50) ? "::1" : dv_pct(50) ? "lo" : NULL;
    if(r & 1) port = dv_pct(50) ? -1 - (int)dv_below(dv_pct(50) ? 3 : INT_MAX) : 65536 + (int)dv_below(dv_pct(50) ? 3 : INT_MAX - 65536); else mode = dv_pct(50) ? 5 + (int)dv_below(1000) : -1 - (int)dv_below(1000);
    if(mode) { int k; for(k = 0; k < 5; k++) if(mode == modes[k]) return; }
    if(r < 2) { rc = ipaddr_local(&b.a, n, port, mode); CHECK(rc == -1 && errno == EINVAL, "bad-args", "ipaddr_local(%s, port %d, mode %d) gave %d errno %d", n ? n : "NULL", port, mode, rc, errno); }
    else { if(!n) n = "::1"; rc = ipaddr_remote(&b.a, n, port, mode, -1); CHECK(rc == -1 && errno == EINVAL, "bad-args", "ipaddr_remote(%s, port %d, mode %d) gave %d errno %d", n, port, mode, rc, errno);
        int w = dv_below(4); rc = ipaddr_remotes(w == 0 ? NULL : &b.a, w == 1 ? 0 : w == 2 ? -1 : 1, w == 3 ? NULL : "127.0.0.1", 80, 0, -1); CHECK(rc == -1 && errno == EINVAL, "bad-args", "ipaddr_remotes with a bad argument %d gave %d errno %d", w, rc, errno); }
    boxcheck(&b); dv_stat("bad_args", 1);
}
/* ---- interfaces ---- */
static struct ent { struct ifaddrs i; struct sockaddr_storage ss; char name[IF_NAMESIZE + 1]; } T[24]; static int nt;
static const char *names[] = {"eth0", "eth1", "eth", "eth01", "lo", "wlan0", "eth0:1", "a", "zz9", "ETH0"};
static void iface(void) {
    nt = dv_pct(8) ? 0 : dv_below(24); memset(T, 0, sizeof T); int k, nn = 1 + dv_below(10), i, rc, e;
    for(i = 0; i < nt; i++) {
        strcpy(T[i].name, names[dv_below(nn)]); T[i].i.ifa_name = T[i].name; T[i].i.ifa_flags = (dv_pct(80) ? IFF_UP : 0) | (dv_pct(50) ? IFF_RUNNING : 0); T[i].i.ifa_next = i + 1 < nt ? &T[i + 1].i : NULL; k = dv_below(10);
        if(k == 0) continue;
        T[i].i.ifa_addr = (void*)&T[i].ss; unsigned char raw[16]; rnd(k >= 6, raw);
        if(k == 1) T[i].ss.ss_family = AF_PACKET; else if(k < 6) { struct sockaddr_in *a = (void*)&T[i].ss; a->sin_family = AF_INET; memcpy(&a->sin_addr, raw, 4); a->sin_port = dv_below(65536); } else { struct sockaddr_in6 *a = (void*)&T[i].ss; a->sin6_family = AF_INET6; memcpy(&a->sin6_addr, raw, 16); a->sin6_port = dv_below(65536); a->sin6_scope_id = dv_pct(50) ? i + 1 : 0; }
    }
    dv_ifaddrs = nt ? &T[0].i : NULL; dv_ifaddrs_on = 1;
    for(int rep = 0; rep < 8; rep++) {
        const char *n = dv_pct(15) ? NULL : dv_pct(90) ? names[dv_below(nn)] : dv_pct(50) ? "nonesuch" : ""; int m = modes[dv_below(5)], port = rport(), has4 = 0, has6 = 0; struct box b; memset(&b, 0x5a, sizeof b);
        int inj = n && dv_pct(8); if(inj) { dv_failmask = 1u << DV_IFADDRS; dv_failat = 0; dv_fail_errno = (int[]){ENOMEM, EMFILE, ENOBUFS, EACCES}[dv_below(4)]; } int nf = dv_nfailed;
        rc = ipaddr_local(&b.a, n, port, m); e = errno; dv_failat = -1; boxcheck(&b); dv_log("%s mode %d -> %d %s", n ? n : "NULL", m, rc, rc ? strerror(e) : ""); dv_sig(dv_hash(T, sizeof T[0] * nt, m + rc)); dv_sig(port);
        CHECK(dv_ifaddrs_live == 0, "ifaddrs-leak", "%ld interface tables not freed", dv_ifaddrs_live);
        if(!n) { CHECK(rc == 0, "wildcard", "no wildcard address: errno %d", e); unsigned char z[16] = {0}; int v6 = m == IPADDR_IPV6 || m == IPADDR_PREF_IPV6; verify(&b.a, v6, z, port, "wildcard"); dv_stat("wildcards", 1); continue; }
        if(dv_nfailed > nf) { CHECK(rc == -1 && e == dv_fail_errno, "getifaddrs", "a failure of getifaddrs gave %d errno %d", rc, e); dv_stat("faults", 1); continue; }
        for(i = 0; i < nt; i++) if(T[i].i.ifa_addr && !strcmp(T[i].name, n)) { has4 += T[i].ss.ss_family == AF_INET; has6 += T[i].ss.ss_family == AF_INET6; }
        int want = m == IPADDR_IPV4 ? (has4 ? 4 : 0) : m == IPADDR_IPV6 ? (has6 ? 6 : 0) : m == IPADDR_PREF_IPV6 ? (has6 ? 6 : has4 ? 4 : 0) : has4 ? 4 : has6 ? 6 : 0;
        if(!want) { CHECK(rc == -1 && e == ENODEV, "no-device", "interface '%s' mode %d without address gave %d errno %d", n, m, rc, e); dv_stat("no_device", 1); continue; }
        CHECK(rc == 0, "interface", "interface %s mode %d: errno %d", n, m, e); CHECK(ipaddr_family(&b.a) == (want == 4 ? AF_INET : AF_INET6), "mode", "interface %s mode %d gave family %d", n, m, ipaddr_family(&b.a));
        int found = 0; for(i = 0; i < nt && !found; i++) if(T[i].i.ifa_addr && !strcmp(T[i].name, n)) { if(want == 4 && T[i].ss.ss_family == AF_INET) found = !memcmp(&((struct sockaddr_in*)&T[i].ss)->sin_addr, &((struct sockaddr_in*)ipaddr_sockaddr(&b.a))->sin_addr, 4); if(want == 6 && T[i].ss.ss_family == AF_INET6) { struct sockaddr_in6 *x = (void*)&T[i].ss, *y = (void*)ipaddr_sockaddr(&b.a); found = !memcmp(&x->sin6_addr, &y->sin6_addr, 16) && x->sin6_scope_id == y->sin6_scope_id; } }
        CHECK(found, "foreign", "the address found for %s mode %d is not one of that interface", n, m); CHECK(ipaddr_port(&b.a) == port, "port", "port %d instead of %d", ipaddr_port(&b.a), port); dv_stat("interfaces", 1); if(has4 + has6 > 2) dv_stat("several_addresses", 1);
    }
    dv_ifaddrs_on = 0; dv_nontrivial(); dv_sample("%d entries", nt);
}
void dv_case(void) {
    dv_etc("/etc/resolv.conf", "nameserver 127.0.0.1:9\nlookup file\n"); dv_etc("/etc/hosts", "127.0.0.1 localhost\n"); dv_on_socket = onsock; sockets = 0;
    if(dv_mode[0] == 'i') { iface(); return; }
    now(); int f0 = dv_fdcount(); dv_ifaddrs = NULL; dv_ifaddrs_on = 1;
    for(int i = 0; i < 10; i++) { int r = dv_below(10); if(r < 6) lit(); else if(r < 9) badtext(); else badargs(); }
    dv_ifaddrs_on = 0; dv_nontrivial(); int f = dv_fdcount(); CHECK(f == f0, "fd-leak", "%d descriptors, %d before", f, f0);
}
