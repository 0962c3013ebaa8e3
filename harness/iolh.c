/* B05: the list helpers against byte-wise semantics. */
#include "net.h"
#include "iol.h"
static void flat(struct gl *g, unsigned char *p) { for(int i = 0; i < g->n; i++) { if(g->b[i]) memcpy(p, g->b[i], g->len[i]); else memset(p, 0, g->len[i]); p += g->len[i]; } }
void dv_case(void) {
    for(int rep = 0; rep < 20; rep++) {
        size_t total = dv_pct(20) ? 0 : dv_below(dv_pct(20) ? 5000 : 60), n, i; int nulls = dv_pct(30) ? GL_NULLS : 0; struct gl *g = gl_new(total, GL_MANY | nulls); gl_fill(g, dv_seed, 0);
        unsigned char *f = dv_galloc(total), *o = dv_galloc(total + 8); flat(g, f); int op = dv_below(5), rc; dv_sig(op * 1000 + g->n); dv_sig(total);
        switch(op) {
        case 0: { size_t nb = 77, by = 77; int w = dv_below(4); rc = dill_iolcheck(gl_first(g), gl_last(g), w & 1 ? &nb : NULL, w & 2 ? &by : NULL); CHECK(rc == 0, "check", "a well-formed list was refused"); CHECK(nb == (w & 1 ? (size_t)g->n : 77) && by == (w & 2 ? total : 77), "check", "wrong counts %zu %zu", nb, by); dv_stat("check", 1); break; }
        case 1: { struct iovec *v = dv_galloc(sizeof(struct iovec) * g->n); dill_ioltoiov(gl_first(g), v); for(int k = 0; k < g->n; k++) CHECK(v[k].iov_base == g->b[k] && v[k].iov_len == g->len[k], "toiov", "element %d", k); dv_gfree(v); dv_stat("toiov", 1); break; }
        case 2: { n = dv_pct(20) ? total + 1 + dv_below(20) : dv_below(total + 1); struct iolist r; memset(&r, 0x55, sizeof r); rc = dill_ioltrim(gl_first(g), n, &r);
            CHECK(rc == (n > total ? -1 : 0), "trim", "trimming %zu of %zu returned %d", n, total, rc);
            if(rc == 0) { size_t left = 0; int steps = 0; struct iolist *it; unsigned char *p = f + n; CHECK(r.iol_rsvd == 0, "trim", "reserved field set"); for(it = &r; it; it = it->iol_next) { CHECK(++steps < g->n + 2 && left + it->iol_len <= total - n, "trim", "too long"); if(it->iol_base && it->iol_len) CHECK(!memcmp(it->iol_base, p, it->iol_len), "trim", "wrong bytes after trimming %zu of %zu", n, total); p += it->iol_len; left += it->iol_len; }
                CHECK(left == total - n, "trim", "trimming %zu of %zu leaves %zu", n, total, left); } dv_stat("trim", 1); break; }
        case 3: { n = dv_pct(20) ? total + 1 + dv_below(20) : dv_below(total + 1); unsigned char *src = dv_galloc(n); for(i = 0; i < n; i++) src[i] = dv_rand(); gl_blank(g); rc = dill_iolto(src, n, gl_first(g)); CHECK(rc == (n > total ? -1 : 0), "to", "copying %zu into %zu returned %d", n, total, rc);
            size_t p = 0; for(int k = 0; k < g->n; k++) for(size_t z = 0; z < g->len[k]; z++, p++) if(g->b[k]) CHECK(((unsigned char*)g->b[k])[z] == (p < n ? src[p] : 0xEE), "to", "byte %zu of %zu", p, n); dv_gfree(src); dv_stat("to", 1); break; }
        default: if(nulls) break; n = dv_pct(30) ? dv_below(total + 1) : total + dv_below(8); memset(o, 0xDD, total + 8); rc = dill_iolfrom(o, n, gl_first(g)); CHECK(rc == (n < total ? -1 : 0), "from", "copying %zu into %zu returned %d", total, n, rc);
            for(i = 0; i < total + 8; i++) CHECK(i < total && (i < n) ? (rc ? (o[i] == 0xDD || o[i] == f[i]) : o[i] == f[i]) : o[i] == 0xDD, "from", "byte %zu of %zu/%zu", i, total, n); dv_stat("from", 1); break;
        }
        gl_same(g, "helper"); gl_free(g); dv_gfree(f); dv_gfree(o);
    }
    dv_nontrivial();
}
