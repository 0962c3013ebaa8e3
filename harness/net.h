/* Shared by the socket harnesses: scatter-gather lists in guarded memory with position-dependent content. */
#ifndef NET_H
#define NET_H
#include "dv.h"
#include "libdill.h"
static inline unsigned char pat(uint64_t seed, uint64_t pos) {
    uint64_t z = seed + pos * 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9ULL; return (unsigned char)(z >> 40);
}
static inline void patfill(void *p, size_t n, uint64_t seed, uint64_t pos) { for(size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = pat(seed, pos + i); }
#define GLMAX 1500
struct gl { int n; size_t total; struct iolist *e[GLMAX], copy[GLMAX]; void *b[GLMAX]; size_t len[GLMAX]; };
enum { GL_NULLS = 1, GL_MANY = 2 };
/* splits total bytes into a random list; NULL elements (bytes to be dropped) if allowed */
static inline struct gl *gl_new(size_t total, int flags) {
    struct gl *g = malloc(sizeof *g); size_t left = total; int want;
    g->total = total; g->n = 0;
    if((flags & GL_MANY) && dv_pct(3)) want = 1 + dv_below(GLMAX - 2); else want = dv_pct(40) ? 1 : 1 + dv_below(8);
    while(g->n < want - 1) {
        size_t k = dv_pct(15) ? 0 : dv_pct(50) ? dv_below(left + 1) : dv_below(left / (want - g->n) * 2 + 2);
        if(k > left) k = left;
        g->len[g->n++] = k; left -= k;
    }
    g->len[g->n++] = left;
    for(int i = 0; i < g->n; i++) {
        g->e[i] = dv_galloc(sizeof(struct iolist));
        g->b[i] = ((flags & GL_NULLS) && dv_pct(20)) ? NULL : dv_galloc(g->len[i]);
    }
    for(int i = 0; i < g->n; i++) {
        g->e[i]->iol_base = g->b[i]; g->e[i]->iol_len = g->len[i]; g->e[i]->iol_next = i + 1 < g->n ? g->e[i + 1] : NULL; g->e[i]->iol_rsvd = 0;
        g->copy[i] = *g->e[i];
    }
    return g;
}
static inline struct iolist *gl_first(struct gl *g) { return g->e[0]; }
static inline struct iolist *gl_last(struct gl *g) { return g->e[g->n - 1]; }
static inline void gl_fill(struct gl *g, uint64_t seed, uint64_t pos) {
    for(int i = 0; i < g->n; i++) { if(g->b[i]) patfill(g->b[i], g->len[i], seed, pos); pos += g->len[i]; }
}
static inline void gl_blank(struct gl *g) { for(int i = 0; i < g->n; i++) if(g->b[i]) memset(g->b[i], 0xEE, g->len[i]); }
/* the list itself must be as it was */
static inline void gl_same(struct gl *g, const char *what) {
    for(int i = 0; i < g->n; i++)
        CHECK(!memcmp(&g->copy[i].iol_base, &g->e[i]->iol_base, sizeof(void*)) && g->copy[i].iol_len == g->e[i]->iol_len && g->copy[i].iol_next == g->e[i]->iol_next && g->copy[i].iol_rsvd == g->e[i]->iol_rsvd,
            "list-modified", "%s: element %d of %d of the caller's list was changed (rsvd %d)", what, i, g->n, g->e[i]->iol_rsvd);
}
/* the first n bytes of the buffers must be the pattern; bytes dropped through NULL elements are not checked */
static inline void gl_check(struct gl *g, size_t n, uint64_t seed, uint64_t pos, const char *what) {
    for(int i = 0; i < g->n && n; i++) {
        size_t k = g->len[i] < n ? g->len[i] : n;
        if(g->b[i]) for(size_t j = 0; j < k; j++)
            CHECK(((unsigned char*)g->b[i])[j] == pat(seed, pos + j), "data", "%s: byte at stream position %llu is 0x%02x, expected 0x%02x", what, (unsigned long long)(pos + j), ((unsigned char*)g->b[i])[j], pat(seed, pos + j));
        pos += k; n -= k;
    }
}
/* bytes from offset n on must be untouched since gl_blank */
static inline void gl_tail(struct gl *g, size_t n, const char *what) {
    for(int i = 0; i < g->n; i++) {
        if(n >= g->len[i]) { n -= g->len[i]; continue; }
        if(g->b[i]) for(size_t j = n; j < g->len[i]; j++) CHECK(((unsigned char*)g->b[i])[j] == 0xEE, "tail", "%s: byte %zu past the received data was written", what, j - n);
        n = 0;
    }
}
static inline void gl_free(struct gl *g) {
    for(int i = 0; i < g->n; i++) { dv_gfree(g->b[i]); dv_gfree(g->e[i]); }
    free(g);
}
#endif
