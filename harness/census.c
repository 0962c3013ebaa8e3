/* R04: the stack size census (--enable-census). When a thread ends, the greatest stack use of the coroutines of each go() is
   written to the error output: once for each place, not less than what was used and not much more, and nothing is leaked. */
#include "dv.h"
#include "libdill.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <alloca.h>
enum { NP = 5, SLACK = 8000 };
static struct place { int line, n; long max; } P[NP]; static int first; static char *out; static size_t outn; static FILE *keep; static uint64_t seed;
static __attribute__((noinline)) int use(int k, long n) { if(n > P[k].max) P[k].max = n; P[k].n++; volatile char *p = alloca(n); for(long i = 0; i < n; i++) p[i] = (char)(i + 1); int r = dv_below(4); if(r == 0) msleep(now() + dv_below(5)); else if(r == 1) yield(); else if(r == 2) msleep(-1); return p[n / 2]; }
static coroutine void cr(int k, long n) { use(k, n); }
static coroutine void nested(int k, int j, long n);
static int l_at(int k, int b, char *m, size_t mn, long n) {
    switch(k) {
    case 0: P[0].line = __LINE__; return b >= 0 ? bundle_go(b, cr(k, n)) : -1;
    case 1: P[1].line = __LINE__; return go(cr(k, n));
    case 2: P[2].line = __LINE__; return go_mem(cr(k, n), m, mn);
    case 3: P[3].line = __LINE__; return b >= 0 ? bundle_go_mem(b, cr(k, n), m, mn) : -1;
    default: P[4].line = __LINE__; return b >= 0 ? bundle_go(b, nested(4, 1, n)) : -1;
    }
}
static coroutine void nested(int k, int j, long n) { use(k, n / 3 + 1); int h = l_at(j, -1, NULL, 0, n); if(h >= 0) { bundle_wait(h, now() + dv_below(6)); hclose(h); } }
static void *run(void *x) {
    (void)x; dv_thread_seed(seed); memset(P, 0, sizeof P); int n = 1 + dv_below(12), b = bundle(), h[12], nh = 0; void *mem[12]; int nm = 0;
    for(int i = 0; i < n; i++) {
        int k = dv_below(NP); long s = dv_pct(30) ? 1 + dv_below(64) : dv_pct(60) ? 1 + dv_below(3000) : 1 + dv_below(150000); size_t mn = s + 20000 + dv_below(20000); char *m = NULL;
        if(k == 2 || k == 3) mem[nm++] = m = malloc(mn);
        int r = l_at(k, b, m ? m + dv_below(16) : m, m ? mn - 16 : mn, s); CHECK(r >= 0, "go", "errno %d", errno); if(k == 1 || k == 2) h[nh++] = r; dv_stat("coroutines", 1);
        if(dv_pct(30)) msleep(now() + 3);
    }
    if(dv_pct(60)) bundle_wait(b, now() + dv_below(8));
    for(int i = 0; i < nh; i++) hclose(h[i]);
    hclose(b); for(int i = 0; i < nm; i++) free(mem[i]);
    keep = stderr; stderr = open_memstream(&out, &outn);   /* what the end of this thread writes */
    return NULL;
}
static coroutine void never(void) { }
static int l_never(void) { return go(never()); }
void dv_case(void) {
    pthread_t t; if(!first) { first = 1; int h = l_never(); hclose(h); }
    seed = dv_rand(); long a0 = dv_live_allocs; pthread_create(&t, NULL, run, NULL); pthread_join(t, NULL); fclose(stderr); stderr = keep;
    int seen[NP] = {0}, lines = 0; uint64_t sig = 0;
    for(char *s = out; *s;) {
        char *e = strchr(s, '\n'); CHECK(e, "output", "unterminated line: %s", s); *e = 0; char *c = strrchr(s, ':'); CHECK(c && !strncmp(c - strlen("census.c"), "census.c", 8), "output", "unexpected: %s", s);
        int line, pos = 0; unsigned long long sz; int r = sscanf(c, ":%d - maximum stack size %llu B%n", &line, &sz, &pos); CHECK(r == 2 && !c[pos], "output", "unexpected: %s", s);
        int k; for(k = 0; k < NP && !(P[k].n && P[k].line == line); k++); CHECK(k < NP, "place", "no coroutine was started at line %d: %s", line, s); CHECK(!seen[k], "twice", "line %d is reported twice", line); seen[k] = 1;
        CHECK((long long)sz >= P[k].max, "too-small", "line %d: %llu bytes reported, %ld bytes were used", line, sz, P[k].max); CHECK(sz <= (unsigned long long)P[k].max + SLACK, "too-large", "line %d: %llu bytes reported, about %ld bytes were used", line, sz, P[k].max);
        dv_max("slack", (long)(sz - P[k].max)); sig = sig * 31 + k * 7 + P[k].max; lines++; s = e + 1;
    }
    for(int k = 0; k < NP; k++) CHECK(seen[k] || !P[k].n, "missing", "the %d coroutines started at line %d are not reported", P[k].n, P[k].line);
    free(out); out = NULL;
    CHECK(dv_live_allocs == a0, "leak", "%ld blocks left by the thread", dv_live_allocs - a0);
    dv_stat("reports", lines); dv_sig(sig); if(lines > 1) dv_nontrivial(); dv_sample("%d lines", lines);
}
