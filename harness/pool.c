/* C25: memory pool and allocators */
#include "common.h"
#include <hob3lbase/pool.h>
#include <hob3lbase/alloc.h>
typedef struct { unsigned char *p; size_t nm, sz, n; unsigned char pat; } blk_t;
static blk_t B[16]; static int nB;
static void fill(blk_t *b) { memset(b->p, b->pat, b->n); }
static void chkblk(blk_t *b) { for (size_t i = 0; i < b->n; i++) if (b->p[i] != b->pat) { CHECK(0, "content of a live block changed"); return; } }
static void newblk(unsigned char *p, size_t nm, size_t sz, size_t align)
{
    size_t n = nm * sz;
    CHECK(p != NULL, "no memory returned");
    CHECK(((size_t)p & (align - 1)) == 0, "block is not aligned");
    for (size_t i = 0; i < n; i++) if (p[i] != 0) { CHECK(0, "block is not zeroed"); break; }
    for (int i = 0; i < nB; i++) CHECK(p + n <= B[i].p || B[i].p + B[i].n <= p, "block overlaps a live block");
    blk_t *b = &B[nB++]; b->p = p; b->nm = nm; b->sz = sz; b->n = n; b->pat = (unsigned char)(0x41 + nB); fill(b);
}
static size_t const SZ[] = { 1, 3, 8, 40, 100, 390, 1000, 4096 };
void h_pool(void)
{
    int K = (int)sx_param("ops", 3), S = (int)sx_param("sizes", 6); nB = 0;
    cp_pool_t pool; cp_pool_init(&pool); pool.block_size = 0x1000;
    for (int o = 0; o < K; o++) {
        int op = ch("op", 0, 4);
        if (op == 0) { /* plain allocation with any alignment */
            size_t nm = (size_t)ch("nm", 1, 3), sz = SZ[ch("size", 0, S - 1)], al = (size_t)1 << ch("align", 0, 6);
            newblk(cp_pool_calloc("f", 1, &pool, nm, sz, al), nm, sz, al); sx_reach("alloc");
        } else if (op == 1) { /* growth */
            if (nB == 0) continue;
            int at = ch("at", 0, nB - 1), z = ch("zero", 0, 1); blk_t *b = &B[at]; size_t nn = b->nm + (size_t)ch("more", 0, 2);
            chkblk(b);
            unsigned char *q = z ? cp_recalloc(pool.alloc, b->p, b->nm, nn, b->sz) : cp_remalloc(pool.alloc, b->p, b->nm, nn, b->sz);
            CHECK(q != NULL, "no memory returned");
            for (size_t i = 0; i < b->n; i++) if (q[i] != b->pat) { CHECK(0, "growing lost content"); break; }
            if (z) for (size_t i = b->n; i < nn * b->sz; i++) if (q[i] != 0) { CHECK(0, "grown part is not zeroed"); break; }
            for (int i = 0; i < nB; i++) if (i != at) CHECK(q + nn * b->sz <= B[i].p || B[i].p + B[i].n <= q, "grown block overlaps a live block");
            b->p = q; b->nm = nn; b->n = nn * b->sz; fill(b); sx_reach("grow");
        } else if (op == 2) { cp_pool_clear(&pool); nB = 0; sx_reach("clear"); }
        else if (op == 3) { /* allocator interface, fill the rest of a block */
            size_t nm = (size_t)ch("nm", 1, 2), sz = SZ[ch("size", 0, S - 1)]; int m = ch("m", 0, 1);
            newblk(m ? cp_malloc(pool.alloc, nm, sz) : cp_calloc(pool.alloc, nm, sz), nm, sz, (sz | 16) & -(sz | 16)); sx_reach("interface");
        } else { size_t sz = (size_t)ch("big", 0, 1) ? 9000 : 300; newblk(cp_pool_calloc("f", 1, &pool, 1, sz, 8), 1, sz, 8); sx_reach("big"); }
        for (int i = 0; i < nB; i++) chkblk(&B[i]);
    }
    CHECK(cp_pool_calloc("f", 1, &pool, 0, 8, 8) == NULL, "empty array is not NULL");
    for (int i = 0; i < nB; i++) chkblk(&B[i]);
    cp_pool_fini(&pool);
}
/* symbolic size and alignment of one allocation after another */
void h_pool_any(void)
{
    nB = 0; cp_pool_t pool; cp_pool_init(&pool); pool.block_size = 0x1000;
    size_t a = (size_t)ch("first", 1, (int)sx_param("first", 40));
    newblk(cp_pool_calloc("f", 1, &pool, 1, a, 1), 1, a, 1);
    size_t sz = (size_t)ch("size", 1, (int)sx_param("max", 400)), al = (size_t)1 << ch("align", 0, 7);
    newblk(cp_pool_calloc("f", 1, &pool, 1, sz, al), 1, sz, al);
    chkblk(&B[0]); sx_reach("second"); cp_pool_fini(&pool);
}
/* the global allocator's array interface: sizes beyond the address space are refused, growing keeps content */
void h_alloc(void)
{
    size_t n = (size_t)ch("n", 1, 6), s = (size_t)ch("s", 1, 5), m = (size_t)ch("m", 0, 9); int z = ch("zero", 0, 1);
    unsigned char *p = z ? cp_calloc(&cp_alloc_global, n, s) : cp_malloc(&cp_alloc_global, n, s);
    CHECK(p != NULL, "no memory");
    if (z) for (size_t i = 0; i < n * s; i++) CHECK(p[i] == 0, "not zeroed");
    memset(p, 7, n * s);
    unsigned char *q = z ? cp_recalloc(&cp_alloc_global, p, n, m, s) : cp_remalloc(&cp_alloc_global, p, n, m, s);
    for (size_t i = 0; i < n * s; i++) CHECK(q[i] == 7, "growing lost content");
    if (z) for (size_t i = n; i < m; i++) for (size_t k = 0; k < s; k++) CHECK(q[i * s + k] == 0, "grown part is not zeroed");
    if (m > n) memset(q, 9, m * s);
    cp_free(&cp_alloc_global, q); sx_reach("freed");
}

/* long histories with the real and with small blocks: many allocations, cleared and started again */
void h_pool_many(void)
{
    static struct { unsigned char *p; size_t n; unsigned char pat; } A[200]; cp_pool_t pool; cp_pool_init(&pool); int bs = ch("block", 0, 2); if (bs) pool.block_size = bs == 1 ? 0x1000 : 0x3000; int N = 20 + 90 * ch("count", 0, 2), rounds = ch("rounds", 1, 3), pat = ch("sizes", 0, 5); int sym = rounds == 2 && bs && ch("symbolic size", 0, 1);
    for (int r = 0; r < rounds; r++) { int n = 0; size_t rnd = (size_t)pat * 977 + 1;
        for (int i = 0; i < N; i++) { rnd = (rnd * 1103515245u + 12345u) & 0x7fffffff; size_t sz, al = (size_t)1 << (rnd >> 9) % 7;
            switch (pat) { case 0: sz = 24; al = 8; break; case 1: sz = 1 + (rnd >> 16) % 300; break; case 2: sz = i % 7 == 6 ? 5000 + (size_t)i * 16 : 40; break; case 3: sz = 4096 - 40 + (size_t)(i % 48); al = 1; break; case 4: sz = (size_t)1 << i % 13; break; default: sz = i & 1 ? 1 : 1000; }
            if (sym && i == N / 2) sz = (size_t)ch("size", 1, 3) * 8 - 1;
            unsigned char *p = cp_pool_calloc("f", 1, &pool, 1, sz, al); int bad = 0; CHECK(p != NULL, "no memory returned"); CHECK(((size_t)p & (al - 1)) == 0, "block is not aligned");
            for (size_t k = 0; k < sz; k++) bad |= p[k] != 0; CHECK(!bad, "block is not zeroed");
            A[n].p = p; A[n].n = sz; A[n].pat = (unsigned char)(i * 7 + r + 1); if (!A[n].pat) A[n].pat = 1; memset(p, A[n].pat, sz); n++; }
        int bad = 0; for (int i = 0; i < n; i++) for (size_t k = 0; k < A[i].n; k++) bad |= A[i].p[k] != A[i].pat; CHECK(!bad, "content of a live block changed");
        if (r + 1 < rounds) { cp_pool_clear(&pool); sx_reach("again"); } }
    cp_pool_fini(&pool); sx_reach("done");
}
