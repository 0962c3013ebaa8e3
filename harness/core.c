/* Random programs over coroutines, bundles, handles, channels, choices and timers, watched by an online reference model.
   The model predicts the result of every call and the order in which coroutines run; virtual time makes it exact. */
#include "dv.h"
#include <libdillimpl.h>

#define MAXCO 512
#define MAXB 256
#define MAXCH 16
#define MAXOBJ 32
#define MAXCL 24
#define MAXMSG 320

enum st { S_NEW, S_RUN, S_READY, S_BLOCKED, S_DONE };
enum kind { K_NONE, K_GO, K_YIELD, K_SLEEP, K_SEND, K_RECV, K_CHOOSE, K_BWAIT, K_CLOSEB };
static const char *kn[] = {"none", "go", "yield", "sleep", "send", "recv", "choose", "bwait", "closeb"};

struct coro; struct chan; struct bundle;
struct ent {                     /* pending channel operation */
    struct coro *c; int idx; int send; int end; struct chan *ch;
    unsigned char *val; size_t len;
    struct ent *prev, *next; int linked;
};
struct q { struct ent *first, *last; };
struct chan { int live; int h[2]; int open[2]; int done[2]; struct q S[2], R[2]; void *mem; };
struct bundle { int live; int h; struct coro *owner; struct coro *m[MAXCO]; int nm; int closing; int loose; void *mem; void *stk; int id; };
struct coro {
    int id; enum st st; uint64_t rank; int64_t sub; int loose; int cancelled; int nbclose;
    struct bundle *b; enum kind k; int64_t dl;
    /* predicted outcome */
    int have; int rc; int err; uint64_t idxset;
    unsigned char rx[MAXMSG]; size_t rxlen; int rxok;      /* expected payload */
    struct ent e[MAXCL]; int ne;
    struct bundle *wb; int wempty; int64_t t0;
    struct bundle *cb; int cbpos; int cbfin; int deferred; int anyrc;
    int acts; int closers; void *stk; size_t stklen;
};
struct obj { struct hvfs vfs; int live; int h; int closed; int id; struct bundle *b; int expectclose; };

static struct coro *co[MAXCO]; static int nco; static struct coro *cur; static struct coro *starting;
static struct bundle *bs[MAXB]; static int nb; static struct chan chs[MAXCH]; static int nch; static struct obj objs[MAXOBJ]; static int nobj;
static uint64_t seq; static uint64_t msgid; static long budget; static long switches; static int liveco;
static int W[32];
enum { A_YIELD, A_SLEEP, A_GO, A_BUNDLE, A_BGO, A_SEND, A_RECV, A_CHOOSE, A_DONE, A_CHMAKE, A_CHCLOSE, A_BWAIT, A_BCLOSE, A_HOWN, A_OBJ,
    A_OBJCLOSE, A_STALE, A_QUERY, A_FCLOSE, A_NOW, A_PAST, A_BADCH, A_GROW, A_N };
static const int typA, typB;

/* ------------------------------------------------------------------ model: queues */
static void q_add(struct q *q, struct ent *e) { e->prev = q->last; e->next = NULL; if(q->last) q->last->next = e; else q->first = e; q->last = e; e->linked = 1; }
static struct q *entq(struct ent *e) { return e->send ? &e->ch->S[e->end] : &e->ch->R[e->end]; }
static void q_del(struct ent *e) {
    if(!e->linked) return;
    struct q *q = entq(e);
    if(e->prev) e->prev->next = e->next; else q->first = e->next;
    if(e->next) e->next->prev = e->prev; else q->last = e->prev;
    e->linked = 0;
}
static void unlink_all(struct coro *c) { for(int i = 0; i < c->ne; i++) q_del(&c->e[i]); }
static int closing_wait(struct coro *c) { return c->k == K_CLOSEB; }

static void wake(struct coro *c, uint64_t rank, int64_t sub, int rc, int err) {
    if(c->st != S_BLOCKED) dv_fail("harness", "model woke coroutine %d in state %d", c->id, c->st);
    dv_log("  wake %d (%s) rank %llu rc %d err %d", c->id, kn[c->k], (unsigned long long)rank, rc, err);
    unlink_all(c);
    c->st = S_READY; c->loose = 0; c->rank = rank; c->sub = sub; c->have = 1; c->rc = rc; c->err = err;
}
static void cancel_member(struct coro *m, uint64_t r) {
    m->cancelled = 1;
    if(m->st == S_BLOCKED && !closing_wait(m)) { wake(m, r, 0, -1, ECANCELED); }
}
/* the closer of bundle b goes on: cancels the next member, or is finished */
static void closer_step(struct coro *x) {
    struct bundle *b = x->cb;
    while(b->nm > 0) {
        struct coro *m = b->m[0];
        if(m->st == S_DONE) { memmove(b->m, b->m + 1, sizeof b->m[0] * (--b->nm)); continue; }
        m->deferred = 1;           /* marks the member as being waited for by the closer */
        cancel_member(m, ++seq);
        x->st = S_BLOCKED;
        return;
    }
    x->cbfin = 1;
    uint64_t r = ++seq;
    for(int i = 0; i < nco; i++) if(co[i]->k == K_BWAIT && co[i]->wb == b && co[i]->st == S_BLOCKED) { co[i]->anyrc = 1; co[i]->loose = 0; wake(co[i], r, 0, 0, 0); }
}
static void member_done(struct coro *c) {
    struct bundle *b = c->b;
    if(!b) return;
    for(int i = 0; i < b->nm; i++) if(b->m[i] == c) { memmove(b->m + i, b->m + i + 1, sizeof b->m[0] * (b->nm - i - 1)); b->nm--; break; }
    if(c->deferred) {
        /* somebody is closing the bundle and waits for this coroutine */
        for(int i = 0; i < nco; i++) if(co[i]->st == S_BLOCKED && co[i]->k == K_CLOSEB && co[i]->cb == b) {
            co[i]->st = S_READY; co[i]->rank = ++seq; co[i]->sub = 0;
        }
    }
    if(b->nm == 0 && !b->closing) {
        uint64_t r = ++seq;
        for(int i = 0; i < nco; i++) if(co[i]->k == K_BWAIT && co[i]->wb == b && co[i]->st == S_BLOCKED) {
            co[i]->wempty = 1; co[i]->loose = 0;
            wake(co[i], r, 0, 0, 0);
        }
    }
}
static void expire(void) {
    for(int i = 0; i < nco; i++) {
        struct coro *c = co[i];
        if(c->st != S_BLOCKED || c->loose || c->dl < 0 || c->dl > dv_vt) continue;
        if(c->k == K_SLEEP) wake(c, seq, c->dl, 0, 0);
        else if(c->k == K_SEND || c->k == K_RECV || c->k == K_CHOOSE || c->k == K_BWAIT) { wake(c, seq, c->dl, -1, ETIMEDOUT); dv_stat("timeouts", 1); }
    }
}
static int64_t min_deadline(void) {
    int64_t m = -1;
    for(int i = 0; i < nco; i++) if(co[i]->st == S_BLOCKED && co[i]->dl >= 0 && co[i]->k != K_CLOSEB && (m < 0 || co[i]->dl < m)) m = co[i]->dl;
    return m;
}
static long zerowaits;
static void step_closers(void);
static void onwait(int timeout) {
    if(timeout == 0) { if(++zerowaits > 20000) dv_fail("spin", "20000 consecutive non-blocking waits"); return; }
    zerowaits = 0;
    /* the thread is about to sleep: nothing may be runnable in the model */
    step_closers();
    for(int i = 0; i < nco; i++) {
        struct coro *c = co[i];
        if(c->st != S_READY && !(c->st == S_BLOCKED && c->loose == 1)) continue;
        dv_fail("lost-wakeup", "thread sleeps %d ms while coroutine %d (%s) is runnable", timeout, c->id, kn[c->k]);
    }
    int64_t m = min_deadline();
    if(m < 0) return;
    if(timeout < 0) dv_fail("lost-timer", "thread sleeps forever although a deadline is pending in %lld ms", (long long)(m - dv_vt));
    if(m - dv_vt < timeout) dv_fail("lost-timer", "thread sleeps %d ms although a deadline is due in %lld ms", timeout, (long long)(m - dv_vt));
}
/* lets closers of bundles that come first in the run order do their internal steps */
static void step_closers(void) {
    for(;;) {
        struct coro *m = NULL;
        for(int i = 0; i < nco; i++) {
            struct coro *o = co[i];
            if(o->st != S_READY || o->loose) continue;
            if(!m || o->rank < m->rank || (o->rank == m->rank && o->sub < m->sub)) m = o;
        }
        if(!m || m->k != K_CLOSEB || m->cbfin) return;
        closer_step(m);
    }
}
/* operations with past deadlines end at the next poll, which an otherwise idle thread makes when nothing is runnable */
static void expire_past(void) {
    uint64_t r = ++seq;
    for(int i = 0; i < nco; i++) {
        struct coro *o = co[i];
        if(o->st == S_BLOCKED && o->loose == 1) { o->loose = 0; wake(o, r, o->dl, o->k == K_SLEEP ? 0 : -1, o->k == K_SLEEP ? 0 : ETIMEDOUT); }
    }
}
/* called by c when it gets control */
static void enter(struct coro *c) {
    if(cur == c && c->st == S_RUN) return;
    switches++;
    dv_log("enter %d (%s) st %d rank %llu loose %d vt %lld", c->id, kn[c->k], c->st, (unsigned long long)c->rank, c->loose, (long long)dv_vt);
    if(starting) {
        CHECK(starting == c, "launch-order", "coroutine %d ran although %d was just launched", c->id, starting->id);
        starting = NULL;
        cur = c; c->st = S_RUN; return;
    }
    expire();
    step_closers();
    if(c->st == S_BLOCKED && c->loose == 1) expire_past();
    if(c->st == S_BLOCKED && c->loose == 2) { c->st = S_READY; c->have = 1; c->rc = 0; }
    CHECK(c->st == S_READY, "spurious-resume", "coroutine %d resumed from %s although nothing woke it (state %d)", c->id, kn[c->k], c->st);
    if(c->k == K_CLOSEB) CHECK(c->cbfin, "close-early", "hclose of a bundle returned while coroutines of it were running (%d left)", c->cb->nm);
    if(!c->loose) for(int i = 0; i < nco; i++) {
        struct coro *o = co[i];
        if(o == c || o->st != S_READY || o->loose) continue;
        if(o->rank < c->rank || (o->rank == c->rank && o->sub < c->sub))
            dv_fail("order", "coroutine %d (%s) resumed before %d (%s), which became runnable earlier", c->id, kn[c->k], o->id, kn[o->k]);
    }
    cur = c; c->st = S_RUN;
}
/* suspends c in the model before the library call */
static void block(struct coro *c, enum kind k, int64_t dl) {
    c->k = k; c->dl = dl; c->have = 0; c->st = S_BLOCKED; c->t0 = dv_vt; c->idxset = 0; c->loose = 0; c->anyrc = 0;
    dv_log("block %d (%s) dl %lld", c->id, kn[k], (long long)dl);
}
static int dead(struct coro *c) { return c->cancelled || c->nbclose; }

/* ------------------------------------------------------------------ channels */
static size_t pickl(void) { static const size_t L[] = {0, 1, 8, 16, 63, 300}; return dv_pct(85) ? 16 : L[dv_below(6)]; }
static void fillmsg(unsigned char *p, size_t n, uint64_t id) {
    for(size_t i = 0; i < n; i++) p[i] = (unsigned char)((id >> (8 * (i & 7))) + i / 8 * 37);
}
/* end e of channel ch as seen by an operation; finds the first pending counterpart */
static struct ent *counterpart(struct chan *ch, int end, int send) { return send ? ch->R[!end].first : ch->S[!end].first; }
static int isdone(struct chan *ch, int end, int send) { return send ? ch->done[end] : ch->done[!end]; }
/* counterpart o of coroutine o->c completes because of an operation of the running coroutine */
static void complete(struct ent *o, int err, unsigned char *payload, size_t len) {
    struct coro *oc = o->c;
    uint64_t set = 0;
    for(int i = 0; i < oc->ne; i++) if(oc->e[i].linked && entq(&oc->e[i]) == entq(o) && oc->e[i].len == o->len) set |= 1ull << oc->e[i].idx;
    int choose = oc->k == K_CHOOSE;
    if(!o->send && !err) { if(len) memcpy(oc->rx, payload, len); oc->rxlen = len; oc->rxok = 1; }
    wake(oc, ++seq, 0, choose ? o->idx : (err ? -1 : 0), err);
    oc->idxset = choose ? set : 0;
    dv_stat(err ? "failed_pairs" : "rendezvous", 1);
}
static void failq(struct q *q, uint64_t r) {
    while(q->first) {
        struct ent *e = q->first; struct coro *c = e->c;
        uint64_t set = 0;
        /* any clause of the same choice on the same channel may be the one reported */
        for(int i = 0; i < c->ne; i++) if(c->e[i].linked && c->e[i].ch == e->ch) set |= 1ull << c->e[i].idx;
        int choose = c->k == K_CHOOSE, idx = e->idx;
        wake(c, r, 0, choose ? idx : -1, EPIPE);
        if(choose) c->idxset = set;
        dv_stat("epipe_wakeups", 1);
    }
}
struct chanref { struct chan *ch; int end; };
static struct chanref anychan(int wantopen) {
    struct chanref r = {NULL, 0}; int n = 0;
    for(int i = 0; i < nch; i++) for(int e = 0; e < 2; e++) if(chs[i].live && chs[i].open[e] && dv_below(++n) == 0) { r.ch = &chs[i]; r.end = e; }
    return r;
}
static int64_t pickdl(void) {
    int k = dv_below(100);
    if(k < 15) return 0;
    if(k < 45) return -1;
    if(k < 90) return dv_vt + 1 + dv_below(20);
    if(k < 97) return dv_vt + 1 + dv_below(2000);
    return dv_vt + 1 + (1ll << (20 + dv_below(30)));
}
static void bufcheck(unsigned char *b, size_t n, const char *what) {
    for(size_t i = 0; i < n; i++) if(b[i] != 0xEE) dv_fail("recv-buffer", "%s changed byte %zu of the receive buffer", what, i);
}
static void act_sendrecv(struct coro *c, int send) {
    struct chanref r = anychan(1);
    if(!r.ch) return;
    size_t len = pickl(); int64_t dl = pickdl();
    unsigned char *buf = dv_galloc(len), copy[MAXMSG];
    uint64_t id = ++msgid;
    if(send) { fillmsg(buf, len, id); memcpy(copy, buf, len); } else memset(buf, 0xEE, len);
    int h = r.ch->h[r.end];
    int rc, er; long sw = switches;
    if(dead(c)) {
        rc = send ? chsend(h, buf, len, dl) : chrecv(h, buf, len, dl); er = errno; enter(c);
        CHECK(rc == -1 && er == ECANCELED, "not-cancelled", "%s of a cancelled coroutine returned %d errno %d", send ? "chsend" : "chrecv", rc, er);
        CHECK(sw == switches, "cancel-blocked", "cancelled coroutine blocked");
        dv_stat("cancelled_calls", 1);
        if(!send) bufcheck(buf, len, "cancelled chrecv");
        dv_gfree(buf); return;
    }
    struct ent *o;
    int exprc, experr = 0; unsigned char exp[MAXMSG]; int expdata = 0;
    c->rxok = 0;
    if(isdone(r.ch, r.end, send)) { exprc = -1; experr = EPIPE; }
    else if((o = counterpart(r.ch, r.end, send))) {
        if(o->len != len) { exprc = -1; experr = EMSGSIZE; complete(o, EMSGSIZE, NULL, 0); }
        else {
            exprc = 0;
            if(!send) { if(len) memcpy(exp, o->val, len); expdata = 1; }
            complete(o, 0, send ? buf : NULL, len);
        }
    }
    else if(dl == 0) { exprc = -1; experr = ETIMEDOUT; dv_stat("zero_deadline", 1); }
    else {
        c->ne = 1; c->e[0] = (struct ent){.c = c, .idx = 0, .send = send, .end = r.end, .ch = r.ch, .val = buf, .len = len};
        q_add(entq(&c->e[0]), &c->e[0]);
        block(c, send ? K_SEND : K_RECV, dl);
        rc = send ? chsend(h, buf, len, dl) : chrecv(h, buf, len, dl); er = errno; enter(c);
        c->ne = 0;
        CHECK(c->have, "spurious-resume", "%s returned %d without cause", kn[c->k], rc);
        CHECK(rc == c->rc && (rc == 0 || er == c->err), "chan-result", "%s returned %d errno %d, expected %d errno %d", kn[c->k], rc, er, c->rc, c->err);
        if(rc == -1 && er == ETIMEDOUT) CHECK(dv_vt == dl, "deadline", "timed out at %lld, deadline %lld", (long long)dv_vt, (long long)dl);
        if(send) CHECK(!memcmp(buf, copy, len), "send-buffer", "sender's buffer changed");
        else if(rc == 0) CHECK(c->rxok && c->rxlen == len && !memcmp(c->rx, buf, len), "message", "received bytes differ from those sent");
        else bufcheck(buf, len, "failed chrecv");
        dv_gfree(buf); return;
    }
    rc = send ? chsend(h, buf, len, dl) : chrecv(h, buf, len, dl); er = errno; enter(c);
    CHECK(sw == switches, "immediate", "%s that could complete at once let others run", send ? "chsend" : "chrecv");
    CHECK(rc == exprc && (rc == 0 || er == experr), "chan-result", "immediate %s returned %d errno %d, expected %d errno %d", send ? "chsend" : "chrecv", rc, er, exprc, experr);
    if(send) CHECK(!memcmp(buf, copy, len), "send-buffer", "sender's buffer changed");
    else if(expdata) CHECK(!memcmp(buf, exp, len), "message", "received bytes differ from those sent");
    else bufcheck(buf, len, "failed chrecv");
    dv_gfree(buf);
}
static int badhandle(void);
static void act_choose(struct coro *c) {
    int n = dv_below(dv_pct(90) ? 7 : MAXCL); if(dv_pct(6)) n = 0; if(n > 8) dv_stat("choose_long", 1);
    struct chclause cl[MAXCL]; struct chanref rf[MAXCL]; int bad[MAXCL]; unsigned char copy[MAXCL][MAXMSG];
    int64_t dl = pickdl();
    for(int i = 0; i < n; i++) {
        rf[i] = anychan(1); if(!rf[i].ch) { n = i; break; }
        cl[i].op = dv_pct(50) ? CHSEND : CHRECV; cl[i].ch = rf[i].ch->h[rf[i].end];
        cl[i].len = pickl(); cl[i].val = dv_galloc(cl[i].len); bad[i] = 0;
        if(cl[i].op == CHSEND) fillmsg(cl[i].val, cl[i].len, ++msgid); else memset(cl[i].val, 0xEE, cl[i].len);
        memcpy(copy[i], cl[i].val, cl[i].len);
        if(dv_pct(2)) {
            bad[i] = 1 + dv_below(3);
            if(bad[i] == 1) { cl[i].op = dv_pct(50) ? 0 : 77; bad[i] = EINVAL; }
            else if(bad[i] == 2) { cl[i].ch = badhandle(); bad[i] = EBADF; }
            else { dv_gfree(cl[i].val); cl[i].val = NULL; if(!cl[i].len) cl[i].len = 5; bad[i] = EINVAL; }
        }
    }
    struct chclause *clp = n || dv_pct(50) ? cl : NULL;
    int rc, er; long sw = switches; int exprc = -2, experr = 0, expdata = 0; unsigned char exp[MAXMSG];
    if(dead(c)) { exprc = -1; experr = ECANCELED; dv_stat("cancelled_calls", 1); goto now; }
    for(int i = 0; i < n; i++) {
        if(bad[i]) { exprc = i; experr = bad[i]; dv_stat("bad_clauses", 1); goto now; }
        int send = cl[i].op == CHSEND; struct ent *o;
        if(isdone(rf[i].ch, rf[i].end, send)) { exprc = i; experr = EPIPE; goto now; }
        if((o = counterpart(rf[i].ch, rf[i].end, send))) {
            exprc = i;
            if(o->len != cl[i].len) { experr = EMSGSIZE; complete(o, EMSGSIZE, NULL, 0); }
            else {
                if(!send) { if(o->len) memcpy(exp, o->val, o->len); expdata = 1; }
                complete(o, 0, send ? cl[i].val : NULL, o->len);
            }
            dv_stat("choose_immediate", 1);
            goto now;
        }
    }
    if(dl == 0) { exprc = -1; experr = ETIMEDOUT; goto now; }
    c->ne = n; c->rxok = 0;
    for(int i = 0; i < n; i++) {
        c->e[i] = (struct ent){.c = c, .idx = i, .send = cl[i].op == CHSEND, .end = rf[i].end, .ch = rf[i].ch, .val = cl[i].val, .len = cl[i].len};
        q_add(entq(&c->e[i]), &c->e[i]);
    }
    block(c, K_CHOOSE, dl);
    rc = choose(clp, n, dl); er = errno; enter(c);
    c->ne = 0;
    CHECK(c->have, "spurious-resume", "choose returned %d without cause", rc);
    if(c->idxset) CHECK(rc >= 0 && rc < n && ((c->idxset >> rc) & 1) && er == c->err, "choose-result", "choose returned %d errno %d, expected one of set %llx errno %d", rc, er, (unsigned long long)c->idxset, c->err);
    else CHECK(rc == c->rc && er == c->err, "choose-result", "choose returned %d errno %d, expected %d errno %d", rc, er, c->rc, c->err);
    if(rc == -1 && er == ETIMEDOUT) CHECK(dv_vt == dl, "deadline", "choose timed out at %lld, deadline %lld", (long long)dv_vt, (long long)dl);
    if(rc >= 0) dv_stat("choose_woken", 1);
    for(int i = 0; i < n; i++) {
        if(i == rc && er == 0 && cl[i].op == CHRECV) CHECK(c->rxok && c->rxlen == cl[i].len && !memcmp(c->rx, cl[i].val, c->rxlen), "message", "choose received bytes that differ from those sent");
        else if(cl[i].len) CHECK(!memcmp(cl[i].val, copy[i], cl[i].len), "choose-effect", "buffer of clause %d changed although %d fired", i, rc);
        dv_gfree(cl[i].val);
    }
    return;
now:
    rc = choose(clp, n, dl); er = errno; enter(c);
    CHECK(sw == switches, "immediate", "choose that could complete at once let others run");
    CHECK(rc == exprc && er == experr, "choose-result", "immediate choose returned %d errno %d, expected %d errno %d", rc, er, exprc, experr);
    for(int i = 0; i < n; i++) {
        if(!cl[i].val) continue;
        if(i == rc && expdata) CHECK(!memcmp(exp, cl[i].val, cl[i].len), "message", "choose received bytes that differ from those sent");
        else CHECK(!memcmp(cl[i].val, copy[i], cl[i].len), "choose-effect", "buffer of clause %d changed although %d fired", i, rc);
        dv_gfree(cl[i].val);
    }
}
static void act_done(struct coro *c) {
    struct chanref r = anychan(1); if(!r.ch) return;
    long sw = switches;
    int ex = r.ch->done[r.end];
    if(!ex) { r.ch->done[r.end] = 1; uint64_t k = ++seq; failq(&r.ch->R[!r.end], k); failq(&r.ch->S[r.end], k); }
    int rc = chdone(r.ch->h[r.end]), er = errno; enter(c);
    CHECK(sw == switches, "immediate", "chdone let others run");
    CHECK(ex ? rc == -1 && er == EPIPE : rc == 0, "chdone", "chdone returned %d errno %d, done before: %d", rc, er, ex);
    dv_stat("chdone", 1);
}
static void chan_close(struct coro *c, struct chan *ch, int e) {
    long sw = switches; int h = ch->h[e];
    ch->open[e] = 0;
    if(!ch->open[!e]) {
        uint64_t k = ++seq; failq(&ch->R[0], k); failq(&ch->R[1], k); failq(&ch->S[0], k); failq(&ch->S[1], k);
        ch->live = 0;
    }
    int rc = hclose(h); enter(c);
    CHECK(rc == 0, "hclose", "hclose of a channel returned %d errno %d", rc, errno);
    CHECK(sw == switches, "immediate", "hclose of a channel let others run");
    if(!ch->live && ch->mem) { dv_gfree(ch->mem); ch->mem = NULL; }
}
static struct chan *chan_make(struct coro *c) {
    struct chan *ch = NULL;
    for(int i = 0; i < nch; i++) if(!chs[i].live) ch = &chs[i];
    if(!ch && nch < MAXCH) ch = &chs[nch++];
    if(!ch) return NULL;
    void *mem = dv_pct(30) ? dv_galloc(sizeof(struct chstorage)) : NULL;
    int chv[2] = {-9, -9};
    int rc = mem ? chmake_mem(mem, chv) : chmake(chv), er = errno; enter(c);
    if(dead(c)) {
        CHECK(rc == -1 && er == ECANCELED, "not-cancelled", "chmake of a cancelled coroutine returned %d errno %d", rc, er);
        dv_gfree(mem); dv_stat("cancelled_calls", 1); return NULL;
    }
    CHECK(rc == 0, "chmake", "chmake failed with %d", er);
    memset(ch, 0, sizeof *ch); ch->live = 1; ch->h[0] = chv[0]; ch->h[1] = chv[1]; ch->open[0] = ch->open[1] = 1; ch->mem = mem;
    return ch;
}

/* ------------------------------------------------------------------ handles */
static int used(int h) {
    for(int i = 0; i < nch; i++) if(chs[i].live) for(int e = 0; e < 2; e++) if(chs[i].open[e] && chs[i].h[e] == h) return 1;
    for(int i = 0; i < nb; i++) if(bs[i]->live && bs[i]->h == h) return 1;
    for(int i = 0; i < nobj; i++) if(objs[i].live && objs[i].h == h) return 1;
    return 0;
}
#define MAXDUM 4000
static int dums[MAXDUM], ndum; static char dumlive[4 * MAXDUM]; static long ndumclosed;
static void checkfresh(int h) { CHECK(h >= 0 && !used(h) && !(h < 4 * MAXDUM && dumlive[h]), "handle-dup", "handle %d issued while it is live", h); }
static int badhandle(void) {
    int unknown = 0;
    for(int i = 0; i < nb; i++) if(bs[i]->live && bs[i]->h == -2) unknown = 2;
    switch(dv_below(4 - unknown)) {
    case 0: return -1 - (int)dv_below(3);
    case 1: return (int)dv_rand() | 0x40000000;
    default: for(int i = 0; i < 50; i++) { int h = dv_below(dv_pct(50) ? 40 : 700); if(!used(h) && !dumlive[h]) return h; }
    }
    return -1;
}
coroutine static void notreached(void) { dv_fail("stale-handle", "coroutine launched in a bundle that does not exist"); }
static void act_stale(struct coro *c) {
    int h = badhandle(); long sw = switches; char b[16]; int rc, er;
    if(dead(c)) return;
    int k = dv_below(9);
    errno = 0;
    switch(k) {
    case 0: rc = hclose(h); break;
    case 1: rc = hown(h); break;
    case 2: rc = hquery(h, &typA) ? 0 : -1; break;
    case 3: rc = chsend(h, b, 8, -1); break;
    case 4: rc = chrecv(h, b, 8, dv_vt + 5); break;
    case 5: rc = chdone(h); break;
    case 6: rc = bundle_wait(h, -1); break;
    case 7: rc = bundle_go(h, notreached()); break;
    default: { struct chclause cl = {CHRECV, h, b, 8}; rc = choose(&cl, 1, -1); rc = rc == 0 ? -1 : 0; break; }
    }
    er = errno; enter(c);
    CHECK(rc == -1 && er == EBADF, "stale-handle", "call %d on dead handle %d gave %d errno %d", k, h, rc, er);
    CHECK(sw == switches, "immediate", "call on a dead handle blocked");
    dv_stat("stale_calls", 1);
    /* a live handle of the wrong type */
    struct chanref r = anychan(1);
    if(r.ch && dv_pct(50)) { rc = bundle_wait(r.ch->h[r.end], -1); er = errno; enter(c); CHECK(rc == -1 && er == ENOTSUP, "wrong-type", "bundle_wait on a channel gave %d errno %d", rc, er); }
    for(int i = 0; i < nb; i++) if(bs[i]->live && !bs[i]->closing && bs[i]->h >= 0 && dv_pct(20)) {
        rc = chrecv(bs[i]->h, b, 8, -1); er = errno; enter(c); CHECK(rc == -1 && er == ENOTSUP, "wrong-type", "chrecv on a bundle gave %d errno %d", rc, er); break; }
}
static void *obj_query(struct hvfs *v, const void *t) {
    struct obj *o = (struct obj*)v;
    if(t == &typA) return o;
    if(t == &typB) return &o->id;
    errno = ENOTSUP; return NULL;
}
static void go_blocked(struct coro *c);
static void act_objclose(struct coro *c);
static struct bundle *ownb(struct coro *c, int any);
static void bundle_close(struct coro *c, struct bundle *b);
static void obj_close(struct hvfs *v) {
    struct obj *o = (struct obj*)v; struct coro *c = cur;
    CHECK(o->live && o->expectclose == 1, "close-twice", "close operation of object %d ran unexpectedly", o->id);
    o->closed++; o->expectclose = 2;
    int old = c->nbclose; c->nbclose = 1;
    int n = dv_below(4);
    for(int i = 0; i < n; i++) go_blocked(c);
    if(dv_pct(30)) { act_objclose(c); dv_stat("nested_closes", 1); go_blocked(c); }
    if(dv_pct(25)) { struct bundle *b = ownb(c, 1); if(b) { bundle_close(c, b); dv_stat("nested_closes", 1); go_blocked(c); } }
    if(dv_pct(50)) go_blocked(c);
    c->nbclose = old; o->expectclose = 0;
}
static struct hvfs badvfs[2];
static void act_obj(struct coro *c) {
    struct obj *o = NULL;
    for(int i = 0; i < nobj; i++) if(!objs[i].live) o = &objs[i];
    if(!o && nobj < MAXOBJ) o = &objs[nobj++];
    if(!o) return;
    memset(o, 0, sizeof *o); o->vfs.query = obj_query; o->vfs.close = obj_close; o->id = nobj;
    if(dv_pct(10)) {
        struct hvfs *v = NULL; struct hvfs x = {NULL, obj_close}, y = {obj_query, NULL};
        int k = dv_below(3); if(k == 1) v = &x; if(k == 2) v = &y;
        int rc = hmake(v), er = errno; enter(c);
        CHECK(rc == -1 && (er == EINVAL || (dead(c) && er == ECANCELED)), "hmake-invalid", "hmake of an incomplete table gave %d errno %d", rc, er);
    }
    int h = hmake(&o->vfs), er = errno; enter(c);
    if(dead(c)) { CHECK(h == -1 && er == ECANCELED, "not-cancelled", "hmake of a cancelled coroutine gave %d errno %d", h, er); dv_stat("cancelled_calls", 1); return; }
    CHECK(h >= 0, "hmake", "hmake failed with %d", er);
    checkfresh(h);
    o->live = 1; o->h = h;
}
/* many handles at once, so that the table of handles has to grow at any time */
static void dum_close(struct hvfs *v) { ndumclosed++; }
static struct hvfs dumvfs = {obj_query, dum_close};
static void act_grow(struct coro *c) {
    if(dead(c)) return;
    if(ndum && dv_pct(30)) {
        int n = dv_below(ndum) + 1;
        while(n--) { int i = dv_below(ndum), h = dums[i]; dums[i] = dums[--ndum]; dumlive[h] = 0; long k = ndumclosed;
            int rc = hclose(h); enter(c); CHECK(rc == 0 && ndumclosed == k + 1, "close-once", "hclose of handle %d returned %d, close operation ran %ld times", h, rc, ndumclosed - k); }
        return;
    }
    int n = dv_below(400);
    while(n-- && ndum < MAXDUM) { int h = hmake(&dumvfs); enter(c); CHECK(h >= 0, "hmake", "hmake failed"); checkfresh(h); CHECK(h < 4 * MAXDUM, "handle-value", "handle %d", h); dumlive[h] = 1; dums[ndum++] = h; }
    dv_max("handles", ndum);
}
static void act_query(struct coro *c) {
    for(int i = 0; i < nobj; i++) {
        struct obj *o = &objs[i]; if(!o->live || o->expectclose) continue;
        int k = dv_below(3); void *p = hquery(o->h, k == 0 ? (void*)&typA : k == 1 ? (void*)&typB : (void*)&seq); int er = errno;
        if(k == 2) CHECK(!p && er == ENOTSUP, "hquery", "hquery of a foreign type gave %p errno %d", p, er);
        else CHECK(p == (k ? (void*)&o->id : (void*)o), "hquery", "hquery returned another object");
    }
    dv_stat("queries", 1);
}
static void act_objclose(struct coro *c) {
    for(int i = 0; i < nobj; i++) {
        struct obj *o = &objs[i]; if(!o->live || o->expectclose || dv_pct(50)) continue;
        if(o->b && o->b->owner != c) continue;
        o->expectclose = 1; int old = o->closed;
        int rc = hclose(o->h); enter(c);
        CHECK(rc == 0 && o->closed == old + 1, "close-once", "hclose returned %d, close operation ran %d times", rc, o->closed - old);
        o->live = 0; return;
    }
}
static void act_hown(struct coro *c) {
    int *hp = NULL; struct bundle *b = NULL; struct obj *o = NULL;
    int k = dv_below(3);
    if(k == 0) { struct chanref r = anychan(1); if(r.ch) hp = &r.ch->h[r.end]; }
    else if(k == 1) { for(int i = 0; i < nb; i++) if(bs[i]->live && !bs[i]->closing && bs[i]->h >= 0 && dv_pct(30)) { b = bs[i]; hp = &b->h; } }
    else { for(int i = 0; i < nobj; i++) if(objs[i].live && !objs[i].expectclose && dv_pct(30)) { o = &objs[i]; hp = &o->h; } }
    if(!hp || dead(c)) return;
    int old = *hp, h = hown(old), er = errno; enter(c);
    CHECK(h >= 0, "hown", "hown failed with %d", er);
    CHECK(h != old, "hown-same", "hown returned the old handle");
    *hp = -1; checkfresh(h); *hp = h;
    int rc = hclose(old); er = errno;
    CHECK(rc == -1 && er == EBADF, "stale-handle", "old handle still usable after hown (%d, %d)", rc, er);
    dv_stat("hown", 1);
}

/* ------------------------------------------------------------------ coroutines */
static struct coro *newco(void) {
    if(nco >= MAXCO) return NULL;
    struct coro *n = calloc(1, sizeof *n); n->id = nco; n->dl = -1; co[nco++] = n; return n;
}
static void body(struct coro *c);
coroutine static void entry(struct coro *c, uint64_t check) {
    volatile uint64_t local[4]; for(int i = 0; i < 4; i++) local[i] = check + i;
    enter(c);
    CHECK(((uintptr_t)__builtin_frame_address(0) & 15) == 0, "stack-align", "stack frame not 16-byte aligned: %p", __builtin_frame_address(0));
    if(c->stk) { char *p = (char*)local; CHECK(p >= (char*)c->stk && p < (char*)c->stk + c->stklen, "stack-place", "coroutine does not run on the supplied memory"); }
    body(c);
    for(int i = 0; i < 4; i++) CHECK(local[i] == check + i, "locals", "local variable of coroutine %d changed", c->id);
    CHECK(cur == c, "harness", "wrong current coroutine");
    c->st = S_DONE; liveco--; cur = NULL;
    member_done(c);
    dv_stat("coroutines", 1);
}
static struct bundle *newb(struct coro *owner) {
    struct bundle *b = NULL;
    for(int i = 0; i < nb; i++) if(!bs[i]->live && !bs[i]->closing) { b = bs[i]; break; }
    if(!b) { if(nb >= MAXB) return NULL; b = calloc(1, sizeof *b); bs[nb++] = b; }
    memset(b, 0, sizeof *b); b->owner = owner; return b;
}
#define STK (DV_ASAN ? 131072 : 49152)
/* launches a coroutine; b NULL: go() makes its own bundle */
static void launch(struct coro *c, struct bundle *b) {
    if(liveco > 1 && nco >= MAXCO - 1) return;
    struct bundle *nbn = b ? b : newb(c);
    if(!nbn || nbn->nm >= MAXCO - 1) return;
    struct coro *n = newco(); if(!n) return;
    int mem = dv_pct(15);
    n->b = nbn;
    void *stk = NULL; size_t len = 0;
    if(mem) { len = STK + dv_below(64); stk = dv_galloc(len); n->stk = stk; n->stklen = len; }
    if(dead(c)) {
        int rc = b ? (mem ? bundle_go_mem(b->h, entry(n, 7), stk, len) : bundle_go(b->h, entry(n, 7))) : (mem ? go_mem(entry(n, 7), stk, len) : go(entry(n, 7)));
        int er = errno; enter(c);
        CHECK(rc == -1 && er == ECANCELED && n->st == S_NEW, "not-cancelled", "go of a cancelled coroutine gave %d errno %d state %d", rc, er, n->st);
        n->st = S_DONE; n->stk = NULL; dv_gfree(stk); dv_stat("cancelled_calls", 1);
        return;
    }
    nbn->m[nbn->nm++] = n; liveco++;
    c->k = K_GO; c->st = S_READY; c->rank = ++seq; c->sub = 0; c->loose = 0; starting = n; cur = NULL;
    uint64_t x = dv_rand();
    int rc;
    if(!b) nbn->live = 1, nbn->h = -2;      /* the handle is known only after go() returns */
    rc = b ? (mem ? bundle_go_mem(b->h, entry(n, x), stk, len) : bundle_go(b->h, entry(n, x))) : (mem ? go_mem(entry(n, x), stk, len) : go(entry(n, x)));
    int er = errno;
    CHECK(!starting, "launch-order", "go returned (%d errno %d) before the coroutine ran", rc, er);
    enter(c);
    CHECK(b ? rc == 0 : rc >= 0, "go", "go returned %d errno %d", rc, er);
    if(!b) { nbn->h = -1; checkfresh(rc); nbn->h = rc; }
}
static void freestk(void) {
    for(int i = 0; i < nco; i++) if(co[i]->stk && co[i]->st == S_DONE && co[i]->b && co[i]->k != K_NONE && 0) {}
}
static void bundle_close(struct coro *c, struct bundle *b) {
    struct coro *owner_save = b->owner;
    int h = b->h;
    CHECK(b->live && !b->closing, "harness", "closing a dead bundle");
    b->closing = 1;
    for(int i = 0; i < nobj; i++) if(objs[i].live && objs[i].b == b) objs[i].b = NULL;
    /* waiters of a bundle that is being closed are released at some point of the close, with any result */
    for(int i = 0; i < nco; i++) if(co[i]->k == K_BWAIT && co[i]->wb == b && co[i]->st == S_BLOCKED) { co[i]->loose = 2; dv_stat("closed_while_waited", 1); }
    (void)owner_save;
    c->k = K_CLOSEB; c->cb = b; c->cbfin = 0; c->dl = -1; c->loose = 0; c->have = 0;
    int had = b->nm;
    c->st = S_RUN;
    closer_step(c);
    long sw = switches;
    if(!c->cbfin) cur = NULL;
    int rc = hclose(h), er = errno; 
    enter(c);
    if(had) dv_stat("bundle_closes", 1);
    if(!had) CHECK(sw == switches, "immediate", "closing an empty bundle let others run");
    CHECK(rc == 0, "hclose", "hclose of a bundle returned %d errno %d", rc, er);
    CHECK(b->nm == 0, "close-early", "hclose returned with %d coroutines of the bundle running", b->nm);
    b->live = 0; b->closing = 0; c->k = K_NONE; c->cb = NULL;
    for(int i = 0; i < nco; i++) if(co[i]->b == b) { if(co[i]->stk) { dv_gfree(co[i]->stk); co[i]->stk = NULL; } co[i]->b = NULL; }
    if(b->mem) { dv_gfree(b->mem); b->mem = NULL; }
}
/* the waiters of a closed bundle must come back; checked at the end of the case */

static int isanc(struct coro *a, struct coro *c) {     /* a is a proper ancestor of c in the ownership tree */
    for(struct bundle *b = c->b; b; b = b->owner->b) { if(b->owner == a) return 1; if(b->owner->id == 0) break; }
    return 0;
}
static struct bundle *ownb(struct coro *c, int closeable) {
    struct bundle *r = NULL; int n = 0;
    for(int i = 0; i < nb; i++) if(bs[i]->live && !bs[i]->closing && bs[i]->owner == c && bs[i]->h >= 0 && dv_below(++n) == 0) r = bs[i];
    return r;
}
static void act_bundle(struct coro *c) {
    struct bundle *b = newb(c); if(!b) return;
    void *mem = dv_pct(30) ? dv_galloc(sizeof(struct bundle_storage)) : NULL;
    int h = mem ? bundle_mem(mem) : bundle(), er = errno; enter(c);
    if(dead(c)) { CHECK(h == -1 && er == ECANCELED, "not-cancelled", "bundle() of a cancelled coroutine gave %d errno %d", h, er); dv_gfree(mem); return; }
    CHECK(h >= 0, "bundle", "bundle failed with %d", er);
    checkfresh(h); b->live = 1; b->h = h; b->mem = mem;
}
static void act_yield(struct coro *c) {
    long sw = switches;
    if(dead(c)) { int rc = yield(), er = errno; enter(c); CHECK(rc == -1 && er == ECANCELED && sw == switches, "not-cancelled", "yield of a cancelled coroutine gave %d errno %d", rc, er); dv_stat("cancelled_calls", 1); return; }
    c->k = K_YIELD; c->st = S_READY; c->rank = ++seq; c->sub = 0; c->loose = 0; c->have = 1; c->rc = 0; cur = NULL;
    int rc = yield(), er = errno; enter(c);
    CHECK(rc == 0, "yield", "yield returned %d errno %d", rc, er);
    dv_stat("yields", 1);
}
static void act_sleep(struct coro *c) {
    int64_t dl; int k = dv_below(100);
    dl = k < 90 ? dv_vt + 1 + dv_below(dv_mode[0] == 't' ? 60 : 25) : k < 96 ? dv_vt + 1 + dv_below(100000) : k < 98 ? dv_vt + (3ll << (30 + dv_below(8))) : -1;
    long sw = switches;
    if(dead(c)) { int rc = msleep(dl), er = errno; enter(c); CHECK(rc == -1 && er == ECANCELED && sw == switches, "not-cancelled", "msleep of a cancelled coroutine gave %d errno %d", rc, er); dv_stat("cancelled_calls", 1); return; }
    if(c->id == 0 && dv_pct(2)) { dl = dv_vt + (1ll << 31) - 3 + dv_below(6) + ((int64_t)dv_below(3) << 32); dv_stat("far_deadlines", 1); }
    else if(c->id == 0 && (dl < 0 || dl > dv_vt + 200)) dl = dv_vt + 7;
    c->ne = 0; block(c, K_SLEEP, dl); cur = NULL;
    int rc = msleep(dl), er = errno; enter(c);
    CHECK(c->have && rc == c->rc && (rc == 0 || er == c->err), "sleep", "msleep returned %d errno %d, expected %d errno %d", rc, er, c->rc, c->err);
    if(rc == 0) { CHECK(dv_vt == dl, "deadline", "msleep ended at %lld, deadline %lld", (long long)dv_vt, (long long)dl); CHECK(now() >= dl, "now", "now() is below the deadline of a sleep that ended"); dv_stat("sleeps", 1); }
}
/* deadlines in the past and zero deadlines of sleeping and waiting: results and no passing of time */
static void act_past(struct coro *c) {
    if(dead(c)) return;
    int64_t dl = dv_pct(50) ? 0 : dv_pct(50) ? dv_vt : dv_vt - 1 - dv_below(1000);
    struct bundle *b = ownb(c, 0);
    if(b && dv_pct(60)) {
        if(b->nm == 0) { int rc = bundle_wait(b->h, dl); enter(c); CHECK(rc == 0, "bwait-empty", "bundle_wait on an empty bundle gave %d errno %d", rc, errno); return; }
        int empty = 0;
        block(c, K_BWAIT, dl); c->loose = 1; c->wb = b; c->wempty = empty; int64_t t = dv_vt; cur = NULL;
        int rc = bundle_wait(b->h, dl), er = errno; if(cur == NULL) cur = NULL; enter(c);
        CHECK(c->anyrc || (rc == 0 && c->wempty) || (rc == -1 && er == ETIMEDOUT && !empty) || (rc == -1 && er == ECANCELED && c->cancelled), "bwait-past", "bundle_wait with past deadline gave %d errno %d", rc, er);
        CHECK(dv_vt == t || dl > t, "past-waits", "bundle_wait with a past deadline waited");
        c->wb = NULL; c->loose = 0; c->k = K_NONE;
        return;
    }
    block(c, K_SLEEP, dl); c->loose = 1; int64_t t = dv_vt; cur = NULL;
    int rc = msleep(dl), er = errno; enter(c);
    CHECK(rc == 0 || (rc == -1 && er == ECANCELED && c->cancelled), "sleep-past", "msleep with a past deadline gave %d errno %d", rc, er);
    CHECK(dv_vt == t, "past-waits", "msleep with a past deadline waited %lld ms", (long long)(dv_vt - t));
    c->loose = 0; c->k = K_NONE; dv_stat("past_deadlines", 1);
}
static void act_bwait(struct coro *c) {
    /* any live bundle c is not part of, preferably its own */
    struct bundle *b = ownb(c, 0);
    if(!b || dv_pct(30)) for(int i = 0; i < nb; i++) {
        struct bundle *x = bs[i];
        if(!x->live || x->closing || x->h < 0) continue;
        int in = 0; for(struct coro *p = c; p && p->b; p = p->b->owner) { if(p->b == x) in = 1; if(p->b->owner->id == 0) break; }
        if(!in && dv_pct(30)) b = x;
    }
    if(!b || b->h < 0) return;
    int64_t dl = pickdl(); if(dl == 0) dl = dv_vt + 3;
    long sw = switches; int rc, er;
    if(dead(c)) { rc = bundle_wait(b->h, dl); er = errno; enter(c); CHECK(rc == -1 && er == ECANCELED && sw == switches, "not-cancelled", "bundle_wait of a cancelled coroutine gave %d errno %d", rc, er); dv_stat("cancelled_calls", 1); return; }
    if(b->nm == 0) {
        rc = bundle_wait(b->h, dl); er = errno; enter(c);
        CHECK(rc == 0 && sw == switches, "bwait-empty", "bundle_wait on an empty bundle gave %d errno %d", rc, er); return;
    }
    if(c->id == 0 && (dl < 0 || dl > dv_vt + 100)) dl = dv_vt + 11;
    c->ne = 0; block(c, K_BWAIT, dl); c->wb = b; c->wempty = 0; cur = NULL;
    rc = bundle_wait(b->h, dl); er = errno; enter(c);
    if(c->loose != 2 && !c->anyrc) {
        CHECK(c->have, "spurious-resume", "bundle_wait returned %d without cause", rc);
        CHECK(rc == c->rc && (rc == 0 || er == c->err), "bwait", "bundle_wait returned %d errno %d, expected %d errno %d", rc, er, c->rc, c->err);
        if(rc == -1 && er == ETIMEDOUT) CHECK(dv_vt == dl, "deadline", "bundle_wait timed out at %lld, deadline %lld", (long long)dv_vt, (long long)dl);
    }
    dv_stat(rc == 0 ? "bwait_ok" : "bwait_failed", 1);
    c->wb = NULL; c->loose = 0; c->k = K_NONE;
}
/* calls that would block, from a coroutine that must not block */
static void go_blocked(struct coro *c) {
    switch(dv_below(7)) {
    case 0: act_sendrecv(c, dv_pct(50)); break;
    case 1: act_sleep(c); break;
    case 2: act_yield(c); break;
    case 3: { struct bundle *b = dv_pct(50) ? ownb(c, 0) : NULL; launch(c, b); break; }
    case 4: act_choose(c); break;
    case 5: act_obj(c); break;
    default: chan_make(c); break;
    }
}
static void act(struct coro *c) {
    int tot = 0, i; for(i = 0; i < A_N; i++) tot += W[i];
    int k = dv_below(tot); for(i = 0; i < A_N; i++) { if(k < W[i]) break; k -= W[i]; }
    c->k = K_NONE;
    dv_log("act %d: %d", c->id, i);
    dv_sig(i * 1315423911u ^ (uint64_t)dv_vt);
    switch(i) {
    case A_YIELD: act_yield(c); break;
    case A_SLEEP: act_sleep(c); break;
    case A_GO: if(budget > 0) launch(c, NULL); break;
    case A_BUNDLE: act_bundle(c); break;
    case A_BGO: {
        struct bundle *b = ownb(c, 0);
        if(dv_pct(20)) for(int j = 0; j < nb; j++) if(bs[j]->live && !bs[j]->closing && bs[j]->h >= 0 && dv_pct(20)) b = bs[j];
        if(b && budget > 0) launch(c, b);
        break; }
    case A_SEND: act_sendrecv(c, 1); break;
    case A_RECV: act_sendrecv(c, 0); break;
    case A_CHOOSE: act_choose(c); break;
    case A_DONE: act_done(c); break;
    case A_CHMAKE: { struct chan *ch = chan_make(c); (void)ch; break; }
    case A_CHCLOSE: { struct chanref r = anychan(1); if(r.ch) chan_close(c, r.ch, r.end); break; }
    case A_BWAIT: act_bwait(c); break;
    case A_BCLOSE: { struct bundle *b = ownb(c, 1); if(b) bundle_close(c, b); break; }
    case A_FCLOSE:  /* close a bundle owned by a descendant */
        for(int j = 0; j < nb; j++) { struct bundle *b = bs[j];
            if(b->live && !b->closing && b->h >= 0 && b->owner != c && b->owner->st != S_DONE && isanc(c, b->owner) && dv_pct(40)) { dv_stat("foreign_closes", 1); bundle_close(c, b); break; } }
        break;
    case A_HOWN: act_hown(c); break;
    case A_OBJ: act_obj(c); break;
    case A_OBJCLOSE: act_objclose(c); break;
    case A_STALE: act_stale(c); break;
    case A_QUERY: act_query(c); break;
    case A_GROW: act_grow(c); break;
    case A_NOW: { int64_t n = now(); CHECK(n == dv_vt, "now", "now() is %lld, the clock says %lld", (long long)n, (long long)dv_vt); break; }
    case A_PAST: act_past(c); break;
    case A_BADCH: {
        int rc = choose(NULL, dv_pct(50) ? 3 : -2, -1), er = errno; enter(c);
        CHECK(rc == -1 && (er == EINVAL || (dead(c) && er == ECANCELED)), "choose-invalid", "choose of invalid list gave %d errno %d", rc, er);
        break; }
    }
    c->k = K_NONE;
}
static void wrapup(struct coro *c) {
    /* a coroutine closes the bundles it owns before it ends; some are hidden in objects */
    for(int i = 0; i < nb; i++) {
        struct bundle *b = bs[i];
        if(b->owner != c || !b->live || b->h < 0) continue;
        if(b->closing) continue;
        bundle_close(c, b); i = -1;
    }
}
static void body(struct coro *c) {
    int n = 1 + dv_below(dv_scale ? dv_scale : 12);
    int after = dv_below(4);
    while(n-- > 0 && budget-- > 0) {
        if(c->cancelled) { if(after-- <= 0) break; if(dv_pct(50)) go_blocked(c); else act(c); continue; }
        act(c);
    }
    wrapup(c);
}
static void weights(void) {
    static const int base[A_N] = {8, 10, 10, 4, 8, 14, 14, 8, 1, 2, 1, 4, 3, 2, 2, 2, 2, 2, 1, 1, 2, 1, 0};
    memcpy(W, base, sizeof base);
    switch(dv_mode[0]) {
    case 'g': W[A_GROW] = 10; W[A_BCLOSE] = 10; W[A_GO] = 20; W[A_BGO] = 16; W[A_OBJ] = 8; W[A_OBJCLOSE] = 8; W[A_HOWN] = 10; W[A_STALE] = 10; break;  /* growth */
    case 's': W[A_YIELD] = 40; W[A_GO] = 18; break;                                   /* sched */
    case 'x': W[A_BCLOSE] = 14; W[A_FCLOSE] = 8; W[A_GO] = 20; W[A_OBJCLOSE] = 6; W[A_OBJ] = 6; W[A_BGO] = 16; break; /* cancel */
    case 'w': W[A_BWAIT] = 30; W[A_BGO] = 20; W[A_BUNDLE] = 8; W[A_BCLOSE] = 5; W[A_FCLOSE] = 4; break;           /* wait */
    case 'h': W[A_HOWN] = 14; W[A_OBJ] = 14; W[A_OBJCLOSE] = 8; W[A_STALE] = 20; W[A_QUERY] = 10; W[A_CHMAKE] = 6; W[A_CHCLOSE] = 6; break;
    case 'c': W[A_SEND] = 40; W[A_RECV] = 40; W[A_CHOOSE] = 3; break;                 /* chan */
    case 'd': W[A_DONE] = 8; W[A_CHCLOSE] = 10; W[A_CHMAKE] = 8; W[A_SEND] = 24; W[A_RECV] = 24; break;
    case 'o': W[A_CHOOSE] = 50; W[A_DONE] = 2; W[A_CHMAKE] = 4; W[A_BADCH] = 2; break;
    case 't': W[A_SLEEP] = 60; W[A_GO] = 30; W[A_BGO] = 20; W[A_BCLOSE] = 6; W[A_SEND] = 6; W[A_RECV] = 6; break;
    }
}
void dv_case(void) {
    static struct coro *mainco;
    for(int i = 0; i < nco; i++) free(co[i]);
    for(int i = 0; i < nb; i++) free(bs[i]);
    nco = nb = nobj = nch = 0; memset(chs, 0, sizeof chs); memset(objs, 0, sizeof objs); seq = 0; switches = 0; starting = NULL; zerowaits = 0;
    dv_onwait = onwait; dv_eintr_pct = dv_pct(20) ? 30 : 0;
    weights();
    mainco = newco(); mainco->st = S_RUN; cur = mainco; liveco = 1;
    budget = 40 + dv_below(dv_scale > 12 ? 40 * dv_scale : 400);
    long b0 = budget; int64_t t0 = dv_vt;
    int n = 1 + dv_below(3); for(int i = 0; i < n; i++) chan_make(mainco);
    act_bundle(mainco);
    int steps = 3 + dv_below(25) * (dv_mode[0] == 't' ? 6 : 1);
    for(int i = 0; i < steps; i++) {
        int big = dv_pct(60);
        if(big) launch(mainco, dv_pct(50) ? ownb(mainco, 0) : NULL);
        int64_t save = -1; (void)save;
        /* the main coroutine never waits without end */
        int saveW[32]; memcpy(saveW, W, sizeof W); W[A_SEND] = W[A_RECV] = W[A_CHOOSE] = 0; act(mainco); memcpy(W, saveW, sizeof W);
        if(dv_pct(20)) act_sleep(mainco);
        if(budget <= 0) break;
    }
    wrapup(mainco);
    while(ndum) { int h = dums[--ndum]; dumlive[h] = 0; long k = ndumclosed; int rc = hclose(h); CHECK(rc == 0 && ndumclosed == k + 1, "close-once", "hclose of handle %d failed", h); }
    for(int i = 0; i < nobj; i++) if(objs[i].live) { objs[i].expectclose = 1; int rc = hclose(objs[i].h); enter(mainco); CHECK(rc == 0 && !objs[i].expectclose, "close-once", "hclose of an object failed"); objs[i].live = 0; }
    for(int i = 0; i < nch; i++) for(int e = 0; e < 2; e++) if(chs[i].live && chs[i].open[e]) chan_close(mainco, &chs[i], e);
    for(int i = 1; i < nco; i++) CHECK(co[i]->st == S_DONE, "not-finished", "coroutine %d is still in state %d (%s) after everything was closed", i, co[i]->st, kn[co[i]->k]);
    dv_stat("switches", switches); dv_stat("calls", b0 - budget); dv_stat("virtual_ms", dv_vt - t0 > 1000000 ? 1000000 : dv_vt - t0); dv_max("coroutines_in_a_case", nco);
    dv_stat("kernel_waits", dv_waits); dv_waits = 0;
    if(nco >= 4 && switches >= 20) dv_nontrivial();
    dv_sig(switches); dv_sig(seq);
    dv_sample("mode %s: %d coroutines, %ld switches, %llu wake-ups, %ld calls, %lld virtual ms", dv_mode, nco, switches, (unsigned long long)seq, b0 - budget, (long long)(dv_vt - t0));
    CHECK(dv_live_allocs < 64 + 8, "leak-blocks", "library holds %ld blocks (%ld bytes) after everything was closed", dv_live_allocs, dv_live_bytes);
}
