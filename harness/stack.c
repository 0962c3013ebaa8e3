/* Locals, registers, arguments and stacks of coroutines across context switches. */
#include "dv.h"
#include <libdill.h>
#include <fcntl.h>

#if defined __x86_64__
/* sets all callee-saved registers, calls fn(arg), reports the registers found afterwards */
void dv_regs(void (*fn)(void*), void *arg, const uint64_t in[6], uint64_t out[6]);
__asm__(".text\n.globl dv_regs\n.type dv_regs,@function\ndv_regs:\n"
    "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %rcx\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\n"
    "mov 0(%rdx),%rbx\nmov 8(%rdx),%rbp\nmov 16(%rdx),%r12\nmov 24(%rdx),%r13\nmov 32(%rdx),%r14\nmov 40(%rdx),%r15\n"
    "call *%rax\n"
    "pop %rcx\n"
    "mov %rbx,0(%rcx)\nmov %rbp,8(%rcx)\nmov %r12,16(%rcx)\nmov %r13,24(%rcx)\nmov %r14,32(%rcx)\nmov %r15,40(%rcx)\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n.size dv_regs,.-dv_regs\n");
#endif

#define MAXL 200
struct co { int live; char *top, *lo; char *mem; size_t len; uint64_t seed; int ch; size_t budget; int started; };
static struct co cs[MAXL]; static int n; static int chv[2]; static int pfd[2] = {-1, -1};
static size_t maxuse;

static int readable(void *p) { char c; ssize_t r = write(pfd[1], p, 1); if(r == 1) { (void)!read(pfd[0], &c, 1); return 1; } return 0; }

static void suspend(void *arg) {
    struct co *c = arg; int rc; int v = 5;
    switch(dv_below(5)) {
    case 0: rc = msleep(now() + dv_below(10)); break;
    case 1: rc = chsend(c->ch, &v, sizeof v, now() + 1 + dv_below(4)); break;
    case 2: rc = chrecv(c->ch, &v, sizeof v, now() + 1 + dv_below(4)); break;
    case 3: { struct chclause cl = {CHRECV, c->ch, &v, sizeof v}; rc = choose(&cl, 1, now() + 1 + dv_below(3)); break; }
    default: rc = yield();
    }
    (void)rc;
    dv_stat("suspensions", 1);
}
static void regcheck(struct co *c) {
#if defined __x86_64__
    uint64_t in[6], out[6];
    for(int i = 0; i < 6; i++) in[i] = dv_rand();
    dv_regs(suspend, c, in, out);
    for(int i = 0; i < 6; i++) CHECK(in[i] == out[i], "register", "callee-saved register %d changed from %llx to %llx", i, (unsigned long long)in[i], (unsigned long long)out[i]);
    dv_stat("register_checks", 1);
#else
    suspend(c);
#endif
}
static void __attribute__((noinline)) rec(struct co *c, uint64_t s, int depth, double f) {
    size_t sz = 16 + dv_below(dv_pct(20) ? 6000 : 300);
    volatile unsigned char a[sz];
    uint64_t x = s * 0x9e3779b97f4a7c15ULL + depth; long l1 = (long)x, l2 = (long)(x >> 7), l3 = (long)(x ^ 0x55); double g = f * 1.5 + depth;
    for(size_t i = 0; i < sz; i++) a[i] = (unsigned char)(x >> (i & 31));
    size_t used = c->top - (char*)__builtin_frame_address(0);
    if(used > maxuse) maxuse = used;
    if(c->mem) CHECK((char*)a >= c->mem && (char*)a + sz <= c->mem + c->len, "stack-place", "local outside of the supplied memory");
    /* every byte of this frame belongs to this coroutine alone */
    for(int i = 0; i < n; i++) if(&cs[i] != c && cs[i].live && cs[i].started)
        CHECK((char*)a + sz <= cs[i].lo || (char*)a >= cs[i].top, "stack-shared", "stacks of two live coroutines overlap");
    if(dv_pct(40)) regcheck(c);
    if(used + 12000 < c->budget) rec(c, s ^ x, depth + 1, g);
    if(dv_pct(20)) regcheck(c);
    CHECK(l1 == (long)x && l2 == (long)(x >> 7) && l3 == (long)(x ^ 0x55) && g == f * 1.5 + depth, "locals", "scalar local changed at depth %d", depth);
    for(size_t i = 0; i < sz; i++) CHECK(a[i] == (unsigned char)(x >> (i & 31)), "locals", "byte %zu of %zu of a local array changed at depth %d", i, sz, depth);
    CHECK(c->seed == s || depth, "arguments", "argument changed");
}
coroutine static void work(struct co *c, uint64_t a1, int a2, double a3, char *a4) {
    char here; (void)here;
    c->top = (char*)__builtin_frame_address(0) + 16; c->started = 1;
    c->lo = c->mem ? c->mem : c->top - 240 * 1024;
    CHECK(((uintptr_t)__builtin_frame_address(0) & 15) == 0, "stack-align", "stack frame not 16-byte aligned");
    CHECK(a1 == c->seed && a2 == (int)(c->seed >> 9) && a3 == (double)(c->seed >> 11) && a4 == (char*)c, "arguments", "arguments not passed");
    if(c->mem) CHECK((char*)__builtin_frame_address(0) > c->mem && (char*)__builtin_frame_address(0) < c->mem + c->len, "stack-place", "coroutine not on supplied memory");
    else {
        for(int i = 0; i < n; i++) if(&cs[i] != c && cs[i].live && cs[i].started) CHECK(c->top <= cs[i].lo || c->lo >= cs[i].top, "stack-shared", "stacks of two live coroutines overlap");
        if(dv_pct(15)) {
            char *p = (char*)((uintptr_t)c->top & ~4095ul); int ok = 1;
            char *lim = c->top - 240 * 1024;
            for(; p > lim; p -= 4096) if(!readable(p)) ok = 0;
            CHECK(ok, "stack-size", "less than 240 KB of stack accessible");
            int guard = 0; for(int i = 0; i < 12 && !guard; i++, p -= 4096) guard = !readable(p);
            CHECK(guard, "no-guard", "no inaccessible page below the stack");
            dv_stat("guards_seen", 1);
        }
    }
    rec(c, c->seed, 0, 1.25);
    CHECK(a1 == c->seed && a2 == (int)(c->seed >> 9) && a3 == (double)(c->seed >> 11) && a4 == (char*)c, "arguments", "arguments changed");
    c->live = 0; dv_stat("coroutines", 1);
}
static int hs[MAXL]; static int nh;
static int dl_(void) { return 0; }
/* a coroutine's results, stored through pointers to its caller's locals, must be seen by the caller */
struct pt { int x; double y; long z[3]; };
coroutine static void r_int(int *r) { yield(); *r = 7; }
coroutine static void r_late(int n, long *r, int *done) { msleep(now() + n); *r = n * 3L; *done = 1; }
coroutine static void r_struct(struct pt *p, int k) { p->x = k; msleep(now() + 3); p->y = k * 0.5; for(int i = 0; i < 3; i++) p->z[i] = k + i; }
coroutine static void r_count(int *c, int k) { while(k--) { ++*c; if(yield() < 0) return; } }
coroutine static void r_buf(char *b, int n) { for(int i = 0; i < n; i++) { b[i] = (char)(i * 5 + 1); if(i % 4 == 0) msleep(now() + 1); } }
coroutine static void r_read(const int *flag, int *seen) { while(!*flag) if(msleep(now() + 1) < 0) return; *seen = *flag; }
static void results(void) {
    int a = 0, done = 0, c = 0; long b = 0; struct pt p = {0}; char buf[40] = {0}; int k = 1 + dv_below(1000), n = dv_below(20);
    int h1 = go(r_int(&a)); bundle_wait(h1, -1); CHECK(a == 7, "result-lost", "int stored by a coroutine before the end of bundle_wait is not visible (%d)", a);
    int h2 = go(r_late(n, &b, &done)); bundle_wait(h2, -1); CHECK(done == 1 && b == n * 3L, "result-lost", "result stored late is not visible (%d %ld)", done, b);
    int h3 = go(r_struct(&p, k)); while(p.z[2] == 0) if(msleep(now() + 1) < 0 || now() > 100000000) break;
    CHECK(p.x == k && p.y == k * 0.5 && p.z[0] == k && p.z[2] == k + 2, "result-lost", "fields stored by a coroutine are not visible");
    int h4 = go(r_count(&c, 10)); int last = c; for(int i = 0; i < 9; i++) { yield(); CHECK(c == last + 1, "result-lost", "counter incremented by a coroutine is not visible: %d after %d", c, last); last = c; }
    int h5 = go(r_buf(buf, 40)); bundle_wait(h5, -1); for(int i = 0; i < 40; i++) CHECK(buf[i] == (char)(i * 5 + 1), "result-lost", "buffer filled by a coroutine is not visible");
    int flag = 0, seen = 0; int h6 = go(r_read(&flag, &seen)); msleep(now() + 3); flag = 5; msleep(now() + 3); CHECK(seen == 5, "result-lost", "a coroutine does not see its caller's change (%d)", seen);
    hclose(h1); hclose(h2); hclose(h3); hclose(h4); hclose(h5); hclose(h6); dv_stat("result_checks", 6);
}
void dv_case(void) {
    if(pfd[0] < 0) { (void)!pipe(pfd); }
    dv_deadlock = dl_;
    memset(cs, 0, sizeof cs); n = 0; nh = 0; maxuse = 0;
    CHECK(chmake(chv) == 0, "chmake", "chmake failed");
    int want = 2 + dv_below(dv_pct(10) ? 150 : 40);
    int pctmem = dv_pct(50) ? 30 : 0; int deep = 0;
    while(n < want) {
        struct co *c = &cs[n];
        c->seed = dv_rand(); c->ch = chv[dv_below(2)]; c->live = 1;
        c->budget = dv_pct(15) ? 225 * 1024 : 14000 + dv_below(30000); if(c->budget > 200000) deep++;
        void *mem = NULL; size_t len = 0; int r;
        if(dv_pct(pctmem)) {
            if(dv_pct(15)) {
                /* too small: refused, untouched */
                len = dv_below(140); mem = dv_galloc(len ? len : 1); n++;
                r = go_mem(work(c, c->seed, 0, 0, NULL), mem, len);
                if(r >= 0) { CHECK(0, "small-mem", "go_mem accepted a buffer of %zu bytes", len); }
                CHECK(errno == ENOMEM || errno == EINVAL, "small-mem", "go_mem of %zu bytes failed with %d", len, errno);
                c->live = 0; dv_gfree(mem); dv_stat("small_buffers", 1);
                continue;
            }
            len = (DV_ASAN ? 100000 : 40000) + dv_below(300000); len += dv_below(17);
            mem = dv_galloc(len); c->mem = mem; c->len = len;
            c->budget = len - (DV_ASAN ? 30000 : 8000); if(c->budget > 225 * 1024) c->budget = 225 * 1024;
        }
        n++;
        r = mem ? go_mem(work(c, c->seed, (int)(c->seed >> 9), (double)(c->seed >> 11), (char*)c), mem, len)
                : go(work(c, c->seed, (int)(c->seed >> 9), (double)(c->seed >> 11), (char*)c));
        CHECK(r >= 0, "go", "go failed with %d", errno);
        hs[nh++] = r;
        if(dv_pct(30)) suspend(c);
        if(dv_pct(10) && nh > 1) { /* close one at random: it runs to its end while being cancelled */
            int k = dv_below(nh); CHECK(hclose(hs[k]) == 0, "hclose", "hclose failed"); hs[k] = hs[--nh]; }
    }
    int rounds = dv_below(20); while(rounds--) suspend(&cs[0]);
    while(nh) { int k = dv_below(nh); if(dv_pct(50)) bundle_wait(hs[k], now() + 50); CHECK(hclose(hs[k]) == 0, "hclose", "hclose failed"); hs[k] = hs[--nh]; }
    for(int i = 0; i < n; i++) { CHECK(!cs[i].live, "not-finished", "coroutine %d not finished", i); if(cs[i].mem) dv_gfree(cs[i].mem); }
    hclose(chv[0]); hclose(chv[1]);
    if(dv_pct(25)) results();
    dv_sig(maxuse); dv_sig(want); dv_sig(dv_rand());
    if(want > 3) dv_nontrivial();
    dv_max("stack_bytes_used", maxuse); dv_max("live_coroutines", want);
    dv_sample("%d coroutines (%d deep), deepest stack %zu bytes, supplied memory in %d%% of launches", want, deep, maxuse, pctmem);
}
