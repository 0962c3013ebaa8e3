/* T02. Modes: v (simulated clock with coarse resolution and a cycle counter that may jump), r (the real clock, several threads). */
#include "dv.h"
#include "libdill.h"
#include <pthread.h>
#include <time.h>
static int64_t last;
static int64_t clk(void) { int64_t v = dv_vt; return v - v % dv_clockq; }
static int64_t lag; /* how much older than the clock the cached time may be, ms */
static int64_t look(void) {
    int64_t t = now();
    CHECK(t > 0, "nonpositive", "now() is %lld", (long long)t);
    CHECK(t >= last, "decreased", "now() went from %lld to %lld", (long long)last, (long long)t);
    CHECK(t <= clk(), "ahead", "now() is %lld ms ahead of the clock", (long long)(t - clk()));
    CHECK(t >= clk() - lag - dv_clockq, "behind", "now() is %lld ms behind the clock", (long long)(clk() - t));
    dv_max("behind_ms", clk() - t);
    last = t; dv_stat("readings", 1);
    return t;
}
static void pass(void) {
    int k = dv_below(10);
    if(k < 4) { dv_us += dv_below(700); if(dv_us >= 1000) { dv_us -= 1000; dv_vt++; } }
    else if(k < 6) dv_vt += dv_below(4);
    else if(k < 7) dv_vt += dv_below(3000);
}
static int stop;
static coroutine void other(void) { while(!stop) { pass(); look(); if(dv_pct(50)) { if(yield() < 0) return; } else if(msleep(now() + dv_below(30)) < 0) return; } }
static void virt(void) {
    static int64_t base;
    if(!base) base = dv_vt;
    dv_clockq = (int[]){1, 1, 4, 10}[dv_below(4)];
    dv_tsc_khz = (unsigned long[]){1000000, 2500000, 4000000, 10000000}[dv_below(4)];
    int jumps = dv_pct(30);
    lag = 1; last = 0;
    if(jumps) { dv_tsc_off += (int64_t)dv_range(-2000000000LL, 2000000000LL) + 5000000; }
    int h[6], n = dv_below(5); stop = 0;
    dv_vt += 20000; last = now();
    for(int i = 0; i < n; i++) { h[i] = go(other()); CHECK(h[i] >= 0, "go", "go"); }
    int ops = 60 + dv_below(100);
    for(int i = 0; i < ops; i++) {
        pass();
        if(jumps && dv_pct(5)) dv_tsc_off += dv_pct(50) ? dv_range(1200000, 1LL << 40) : -dv_range(1200000, 1LL << 40);
        int64_t t = look();
        if(dv_pct(30)) {
            int64_t dl = t + dv_below(20) , c = clk();
            int rc = msleep(dl); int64_t e = look();
            CHECK(rc == 0 && e >= dl, "early", "slept until %lld but the time reported is %lld", (long long)dl, (long long)e);
            CHECK(n || e <= (dl > c ? dl : c) + 2 * dv_clockq + 1, "oversleep", "slept %lld ms too long", (long long)(e - dl));
            dv_stat("sleeps", 1); dv_sig(e - dl);
        } else if(dv_pct(20)) {
            int ch[2]; char b; CHECK(chmake(ch) == 0, "chmake", "chmake");
            int64_t dl = t + dv_range(-3, 20);
            int rc = chrecv(ch[0], &b, 1, dl); int er = errno; int64_t e = look();
            CHECK(rc == -1 && er == ETIMEDOUT && e >= dl, "early", "timed out for deadline %lld but the time reported is %lld", (long long)dl, (long long)e);
            hclose(ch[0]); hclose(ch[1]); dv_stat("timeouts", 1); dv_sig(e - dl);
        }
    }
    stop = 1;
    for(int i = 0; i < n; i++) hclose(h[i]);
    dv_nontrivial();
    dv_sample("clock resolution %d ms, %lu kHz cycle counter%s, %d other coroutines", dv_clockq, dv_tsc_khz, jumps ? " with jumps" : "", n);
}
static int64_t mono(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (int64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000; }
static void *thr(void *arg) {
    uint64_t s = (uint64_t)(uintptr_t)arg; int64_t lst = 0, worst = 0; long n = 0;
    int64_t end = mono() + 250;
    while(mono() < end) {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        int64_t b = mono(), t = now(), a = mono();
        CHECK(t > 0 && t >= lst, "decreased", "now() went from %lld to %lld", (long long)lst, (long long)t);
        CHECK(t >= b - 15, "behind", "now() is %lld ms behind the monotonic clock", (long long)(b - t));
        CHECK(t <= a + 1, "ahead", "now() is %lld ms ahead of the monotonic clock", (long long)(t - a));
        if(b - t > worst) worst = b - t;
        lst = t; n++;
        int k = (s >> 33) % 40;
        if(k == 0) { struct timespec ts = {0, (long)((s >> 40) % 3000000)}; nanosleep(&ts, NULL); }
        if(k == 1) { int64_t dl = now() + (s >> 40) % 5; msleep(dl); CHECK(now() >= dl, "early", "sleep ended before its deadline"); lst = now(); }
        if(k == 2) for(volatile int i = 0; i < 100000; i++);
    }
    dv_stat("readings", n); dv_max("behind_ms", worst);
    return NULL;
}
static void real(void) {
    pthread_t t[6]; int n = 1 + dv_below(6);
    dv_virtual = 0;
    for(int i = 0; i < n; i++) if(pthread_create(&t[i], NULL, thr, (void*)(uintptr_t)dv_rand())) dv_fail("harness", "pthread_create");
    for(int i = 0; i < n; i++) pthread_join(t[i], NULL);
    dv_virtual = 1;
    dv_sig(dv_rand()); dv_nontrivial(); dv_stat("real_threads", n);
    dv_sample("%d threads reading the real clock for 250 ms", n);
}
void dv_case(void) { if(dv_mode[0] == 'r') real(); else virt(); }
