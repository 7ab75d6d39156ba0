/* C23: vectors and rings */
#include "common.h"
#include <hob3lbase/vec.h>
#include <hob3lbase/list.h>
#include <hob3lbase/alloc.h>
#define MAXE 400
typedef struct { unsigned char c[3]; } c3_t;
static uint64_t mk_u64(int i) { return sx_u64("v"); }
static c3_t mk_c3(int i) { c3_t r = { { sx_byte("v"), (unsigned char)i, (unsigned char)(i * 37) } }; return r; }
#define EQ_U(a,b) ((a) == (b))
#define EQ_C(a,b) ((a).c[0] == (b).c[0] && (a).c[1] == (b).c[1] && (a).c[2] == (b).c[2])
/* choices out of a large range: the ends and the middle */
static int chs(char const *nm, int lo, int hi) { if (hi - lo <= 6 || !sx_param("big", 0)) return ch(nm, lo, hi); int k = ch(nm, 0, 4); return k == 0 ? lo : k == 1 ? lo + 1 : k == 2 ? (lo + hi) / 2 : k == 3 ? hi - 1 : hi; }
static int const BIG[] = { 12, 16, 17, 31, 33, 64, 100, 128 };
#define NAME u
#define T uint64_t
#define MK mk_u64
#define EQ EQ_U
#include "vec_tmpl.h"
#define NAME c
#define T c3_t
#define MK mk_c3
#define EQ EQ_C
#include "vec_tmpl.h"
void h_vec_u64(void) { u_run((int)sx_param("ops", 2), (int)sx_param("n", 5)); }
void h_vec_c3(void) { c_run((int)sx_param("ops", 2), (int)sx_param("n", 5)); }

static int cmpi(int64_t const *a, int64_t const *b, void *u) { return *a < *b ? -1 : *a > *b; }
typedef CP_VEC_T(int64_t) iv_t;
void h_vec_sort(void)
{
    int n = ch("n", 0, (int)sx_param("n", 5)); iv_t v; memset(&v, 0, sizeof v); int64_t o[16];
    for (int i = 0; i < n; i++) { o[i] = sx_int("key", -1000000, 1000000); cp_v_push(&v, o[i]); }
    int from = ch("from", 0, n), cnt = ch("cnt", 0, n + 1);
    cp_v_qsort(&v, from, cnt == n + 1 ? CP_SIZE_MAX : (size_t)cnt, cmpi, (void*)NULL);
    if (cnt > n - from) cnt = n - from;
    CHECK(v.size == (size_t)n, "sorting changed the size");
    for (int i = 0; i < n; i++) if (i < from || i >= from + cnt) CHECK(v.data[i] == o[i], "sorting touched elements outside the range");
    for (int i = from; i + 1 < from + cnt; i++) CHECK(v.data[i] <= v.data[i + 1], "not sorted");
    int64_t q = sx_int("probe", -1000000, 1000000); int c1 = 0, c2 = 0;
    for (int i = 0; i < n; i++) { c1 += (o[i] == q); c2 += (v.data[i] == q); }
    CHECK(c1 == c2, "sorting is not a permutation"); sx_reach("sorted");
}
void h_vec_bsearch(void)
{
    int n = ch("n", 0, (int)sx_param("n", 9)); iv_t v; memset(&v, 0, sizeof v);
    for (int i = 0; i < n; i++) { int64_t x = sx_int("key", -1000000, 1000000); if (i) sx_assume(v.data[i - 1] <= x); cp_v_push(&v, x); }
    int64_t k = sx_int("probe", -1000000, 1000000);
    size_t r = cp_v_bsearch(&k, &v, cmpi, (void*)NULL); int there = 0;
    for (int i = 0; i < n; i++) there |= (v.data[i] == k);
    if (r == CP_SIZE_MAX) { CHECK(!there, "existing element not found"); sx_reach("absent"); }
    else { CHECK(r < (size_t)n && v.data[r] == k, "found a wrong element"); sx_reach("found"); }
}
/* bit vectors */
typedef CP_VEC_T(size_t) bv_t;
void h_vec_bits(void)
{
    bv_t v; memset(&v, 0, sizeof v); unsigned char sh[200]; memset(sh, 0, sizeof sh);
    cp_v_set_size(&v, 3);
    for (int i = 0, K = (int)sx_param("bits", 2); i < K; i++) { int p = ch("bit", 0, 191), b = (int)sx_int("val", 0, 1); cp_v_bit_set(&v, p, b); sh[p] = b; }
    for (int i = 0; i < 192; i++) CHECK(!!cp_v_bit_get(&v, i) == sh[i], "bit is wrong");
    sx_reach("bits");
}
/* rings */
typedef struct node node_t; struct node { node_t *next, *prev; };
void h_ring(void)
{
    static node_t N[8]; int n = (int)sx_param("n", 5), K = (int)sx_param("ops", 3);
    int nx[8]; /* reference: permutation */
    for (int i = 0; i < n; i++) { cp_list_init(&N[i]); nx[i] = i; }
    for (int o = 0; o < K; o++) {
        int op = ch("op", 0, 1), a = ch("a", 0, n - 1), b = op ? a : ch("b", 0, n - 1);
        if (op) { cp_list_remove(&N[a]); } else { cp_list_chain(&N[a], &N[b]); }
        /* reference: p->next = n, old p.next follows old n.prev */
        int pn = nx[a], np = 0; while (nx[np] != b) np++;
        if (a != np || 1) { int t = pn; nx[np] = t; nx[a] = b; if (np == a) nx[a] = b; }
        for (int i = 0; i < n; i++) {
            CHECK(N[i].next == &N[nx[i]], "next link is wrong");
            CHECK(N[i].next->prev == &N[i] && N[i].prev->next == &N[i], "links are not mutual");
            CHECK(cp_list_is_member(&N[i]) == (nx[i] != i), "membership is wrong");
        }
        int c = 0; for (cp_list_each(e, &N[a])) { c++; if (c > 20) break; } int d = 0; for (cp_list_each_rev(e, &N[a])) { d++; if (d > 20) break; }
        int l = 1, k = nx[a]; while (k != a) { l++; k = nx[k]; }
        CHECK(c == l - 1 && d == l - 1, "iteration length is wrong");
    }
    sx_reach("ring");
}

/* many elements, one of them symbolic at a time */
void h_vec_sort_many(void)
{
    int n = BIG[ch("n", 0, (int)sx_param("ns", 8) - 1)], kind = ch("kind", 0, 3), at = chs("at", 0, n - 1); iv_t v; memset(&v, 0, sizeof v); int64_t o[200];
    for (int i = 0; i < n; i++) { o[i] = kind == 0 ? i * 10 : kind == 1 ? (n - i) * 10 : kind == 2 ? i * 37 % n * 10 : i % 5 * 10; if (i == at) o[i] = sx_int("key", -1, 5) * (5 * n / 2) + 5; cp_v_push(&v, o[i]); }
    int from = chs("from", 0, n), cnt = chs("cnt", 0, n + 1); cp_v_qsort(&v, from, cnt == n + 1 ? CP_SIZE_MAX : (size_t)cnt, cmpi, (void*)NULL); if (cnt > n - from) cnt = n - from;
    CHECK(v.size == (size_t)n, "sorting changed the size"); int bad = 0, uns = 0; int64_t s1 = 0, s2 = 0;
    for (int i = 0; i < n; i++) { if (i < from || i >= from + cnt) bad |= v.data[i] != o[i]; s1 += o[i]; s2 += v.data[i]; } for (int i = from; i + 1 < from + cnt; i++) uns |= v.data[i] > v.data[i + 1];
    CHECK(!bad, "sorting touched elements outside the range"); CHECK(!uns, "not sorted"); CHECK(s1 == s2, "sorting is not a permutation"); sx_reach("sorted");
}
void h_vec_bsearch_many(void)
{
    int n = BIG[ch("n", 0, (int)sx_param("ns", 8) - 1)]; iv_t v; memset(&v, 0, sizeof v); for (int i = 0; i < n; i++) cp_v_push(&v, (int64_t)(i / 3 * 30 + i % 3));
    int64_t k = sx_int("probe", -2, 10 * n + 40); size_t r = cp_v_bsearch(&k, &v, cmpi, (void*)NULL); int there = 0; for (int i = 0; i < n; i++) there |= v.data[i] == k;
    if (r == CP_SIZE_MAX) { CHECK(!there, "existing element not found"); sx_reach("absent"); } else { CHECK(r < (size_t)n && v.data[r] == k, "found a wrong element"); sx_reach("found"); }
}
