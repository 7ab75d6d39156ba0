/* C24: priority queues (pointer heap with positions; value heap in a vector) */
#include "common.h"
#include <hob3lbase/heap.h>
#include <hob3lbase/vec.h>
typedef struct { size_t pos; int64_t key; int in; } el_t;
#define EL(p) ((el_t*)((char*)(size_t)(p) - offsetof(el_t, pos)))
static int cmpe(size_t const *a, size_t const *b, void *u) { int64_t x = EL(a)->key, y = EL(b)->key; return x < y ? -1 : x > y; }
static el_t P[140];
static void check(cp_heap_t *h, int n)
{
    int cnt = 0;
    for (int i = 0; i < n; i++) {
        if (P[i].in) {
            cnt++;
            CHECK(cp_heap_is_member(&P[i].pos), "member is marked as outside");
            CHECK(P[i].pos < h->size && h->data[P[i].pos] == &P[i].pos, "recorded position is wrong");
        } else CHECK(!cp_heap_is_member(&P[i].pos), "removed element is marked as a member");
    }
    CHECK(h->size == (size_t)cnt, "number of elements is wrong");
    size_t *m = cp_heap_min(h);
    if (cnt == 0) { CHECK(m == NULL, "minimum of an empty heap"); return; }
    CHECK(m != NULL, "no minimum");
    for (int i = 0; i < n; i++) if (P[i].in) CHECK(EL(m)->key <= P[i].key, "minimum is not minimal");
}
static void drain(cp_heap_t *h, int n)
{
    int64_t last = INT64_MIN; 
    for (int k = 0; k <= n; k++) {
        size_t *x = cp_heap_extract(h, cmpe, NULL);
        if (x == NULL) break;
        CHECK(EL(x)->in, "extracted a non-member"); CHECK(EL(x)->key >= last, "elements are not yielded in order");
        CHECK(!cp_heap_is_member(x), "extracted element still marked");
        EL(x)->in = 0; last = EL(x)->key;
    }
    for (int i = 0; i < n; i++) CHECK(!P[i].in, "element lost");
    CHECK(h->size == 0, "heap not empty after draining");
}
/* any heap-ordered array of n elements with symbolic keys, then operations */
void h_heap_ops(void)
{
    int n = ch("n", 0, (int)sx_param("n", 6)), K = (int)sx_param("ops", 1); int64_t R = sx_param("range", 1000);
    memset(P, 0, sizeof P);
    cp_heap_t h; memset(&h, 0, sizeof h);
    for (int i = 0; i < n; i++) {
        P[i].key = sx_int("key", 0, R); P[i].pos = i; P[i].in = 1;
        if (i > 0) sx_assume(P[(i - 1) / 2].key <= P[i].key);
        cp_v_push(&h, &P[i].pos);
    }
    int m = n;
    for (int o = 0; o < K; o++) {
        int op = ch("op", 0, 5), at = m ? ch("at", 0, m - 1) : 0;
        el_t *e = &P[at];
        if (op == 0 || m == 0) { el_t *x = &P[m]; x->key = sx_int("key", 0, R); x->pos = CP_HEAP_NO_IDX; x->in = 1; m++; cp_heap_insert(&h, cmpe, NULL, &x->pos); sx_reach("insert"); }
        else if (op == 1) { if (!e->in) continue; size_t *r = cp_heap_remove(&h, cmpe, NULL, e->pos); CHECK(r == &e->pos, "removed another element"); e->in = 0; sx_reach("remove"); }
        else if (op == 2) { if (!e->in) continue; e->key = sx_int("key", 0, R); cp_heap_update(&h, cmpe, NULL, e->pos); sx_reach("update"); }
        else if (op == 3) { /* replace by a new element */
            el_t *x = &P[m]; x->key = sx_int("key", 0, R); x->pos = CP_HEAP_NO_IDX; x->in = 1; m++;
            size_t *r = cp_heap_replace(&h, cmpe, NULL, e->pos, &x->pos);
            if (e->in) { CHECK(r == &e->pos, "replaced another element"); e->in = 0; } else CHECK(r == NULL, "insertion by replace returned an element");
            sx_reach("replace"); }
        else if (op == 4) { /* insert-or-update with the element itself, or removal with NULL */
            int nul = ch("null", 0, 1);
            if (nul) { if (!e->in) continue; size_t *r = cp_heap_replace(&h, cmpe, NULL, e->pos, NULL); CHECK(r == &e->pos, "removed another element"); e->in = 0; }
            else { e->key = sx_int("key", 0, R); size_t *r = cp_heap_replace(&h, cmpe, NULL, e->pos, &e->pos); CHECK(r == NULL, "insert-or-update returned an element"); e->in = 1; }
            sx_reach("replace self"); }
        else { size_t *x = cp_heap_extract(&h, cmpe, NULL); int any = 0; for (int i = 0; i < m; i++) any += P[i].in; CHECK((x == NULL) == (any == 0), "extraction and emptiness disagree"); if (x) { for (int i = 0; i < m; i++) if (P[i].in) CHECK(EL(x)->key <= P[i].key, "extracted element is not minimal"); EL(x)->in = 0; } sx_reach("extract"); }
        check(&h, m);
    }
    if (sx_param("drain", 1)) drain(&h, m);
}
/* larger heaps: one removal or priority change, then the next minima */
void h_heap_deep(void)
{
    int n = (int)sx_param("n", 7), K = (int)sx_param("mins", 4); int64_t R = 1000; memset(P, 0, sizeof P);
    cp_heap_t h; memset(&h, 0, sizeof h);
    for (int i = 0; i < n; i++) { P[i].key = sx_int("key", 0, R); P[i].pos = i; P[i].in = 1; if (i > 0) sx_assume(P[(i - 1) / 2].key <= P[i].key); cp_v_push(&h, &P[i].pos); }
    int at = ch("at", 1, n - 1);
    if (ch("op", 0, 1)) { cp_heap_remove(&h, cmpe, NULL, at); P[at].in = 0; sx_reach("remove"); } else { P[at].key = sx_int("key", 0, R); cp_heap_update(&h, cmpe, NULL, at); sx_reach("update"); }
    check(&h, n);
    for (int k = 0; k < K; k++) { size_t *x = cp_heap_extract(&h, cmpe, NULL); CHECK(x != NULL && EL(x)->in, "no member extracted"); for (int i = 0; i < n; i++) if (P[i].in) CHECK(EL(x)->key <= P[i].key, "extracted element is not minimal"); EL(x)->in = 0; }
}
void h_heap_make(void)
{
    int n = ch("n", 0, (int)sx_param("n", 5)); int64_t R = sx_param("range", 1000);
    memset(P, 0, sizeof P);
    cp_heap_t h; memset(&h, 0, sizeof h);
    for (int i = 0; i < n; i++) { P[i].key = sx_int("key", 0, R); P[i].pos = CP_HEAP_NO_IDX; P[i].in = 1; cp_v_push(&h, &P[i].pos); }
    cp_heap_make_(&h, cmpe, NULL);
    check(&h, n); sx_reach("made"); drain(&h, n);
}
/* value heap */
typedef struct { int64_t key; int id; } val_t;
typedef CP_VEC_T(val_t) vv_t;
static int cmpv(val_t const *a, val_t const *b, void *u) { return a->key < b->key ? -1 : a->key > b->key; }
void h_vheap(void)
{
    int n = ch("n", 0, (int)sx_param("n", 5)), mode = ch("mode", 0, 2); int64_t R = sx_param("range", 1000);
    int64_t key[16]; int in[16];
    vv_t v; memset(&v, 0, sizeof v);
    for (int i = 0; i < n; i++) {
        val_t x = { sx_int("key", 0, R), i }; key[i] = x.key; in[i] = 1;
        if (mode == 0) { cp_v_heap_insert(&v, cmpv, (void*)NULL, x); } else { cp_v_push(&v, x); }
    }
    if (mode) { cp_v_heap_make(&v, cmpv, (void*)NULL); sx_reach("made"); }
    CHECK(v.size == (size_t)n, "number of elements is wrong");
    if (mode == 2 && n > 0) { /* change the priority of an arbitrary element */
        int at = ch("at", 0, n - 1); v.data[at].key = sx_int("key", 0, R); key[v.data[at].id] = v.data[at].key;
        cp_v_heap_update(&v, cmpv, (void*)NULL, at); sx_reach("updated");
    }
    int64_t last = INT64_MIN;
    for (int k = 0; k < n; k++) {
        CHECK(v.size == (size_t)(n - k), "size is wrong while draining");
        val_t *m = cp_v_heap_min(&v); CHECK(m != NULL, "no minimum"); int64_t mk = m->key;
        val_t x = cp_v_heap_extract(&v, cmpv, (void*)NULL);
        CHECK(x.key == mk, "minimum differs from the extracted element");
        CHECK(x.key >= last, "elements are not yielded in order"); last = x.key;
        int id = (int)sx_concretize(x.id);
        CHECK(id >= 0 && id < n && in[id] && key[id] == x.key, "extracted element is not a member"); in[id] = 0;
    }
    CHECK(v.size == 0, "heap not empty after draining");
}

/* many elements: built by insertion or at once, one operation with a symbolic priority, then drained */
void h_heap_many(void)
{
    static int const SZ[] = { 8, 15, 16, 17, 32, 63, 100, 130 }; int n = SZ[ch("n", 0, (int)sx_param("ns", 8) - 1)], kind = ch("kind", 0, 2), mode = ch("mode", 0, 1), op = ch("op", 0, 4), q = ch("at", 0, 6), at = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? n / 4 : q == 3 ? n / 2 - 1 : q == 4 ? n / 2 : q == 5 ? n - 2 : n - 1; memset(P, 0, sizeof P); cp_heap_t h; memset(&h, 0, sizeof h);
    for (int i = 0; i < n; i++) { P[i].key = kind == 0 ? i * 10 : kind == 1 ? (n - i) * 10 : i * 37 % n / 2 * 10; P[i].pos = CP_HEAP_NO_IDX; P[i].in = 1; if (mode) cp_v_push(&h, &P[i].pos); else cp_heap_insert(&h, cmpe, NULL, &P[i].pos); }
    if (mode) cp_heap_make_(&h, cmpe, NULL); int m = n; el_t *e = mode ? &P[at] : EL(h.data[at]);
    int64_t k = sx_int("key", -1, 9) * (10 * n / 8) + (int)sx_param("off", 5);
    if (op == 0) { P[n].key = k; P[n].pos = CP_HEAP_NO_IDX; P[n].in = 1; m++; cp_heap_insert(&h, cmpe, NULL, &P[n].pos); }
    else if (op == 1) { size_t *r = cp_heap_remove(&h, cmpe, NULL, e->pos); CHECK(r == &e->pos, "removed another element"); e->in = 0; }
    else if (op == 2) { e->key = k; cp_heap_update(&h, cmpe, NULL, e->pos); }
    else if (op == 3) { P[n].key = k; P[n].pos = CP_HEAP_NO_IDX; P[n].in = 1; m++; size_t *r = cp_heap_replace(&h, cmpe, NULL, e->pos, &P[n].pos); CHECK(r == &e->pos, "replaced another element"); e->in = 0; }
    else { for (int i = 0; i < at && i < 9; i++) { size_t *x = cp_heap_extract(&h, cmpe, NULL); CHECK(x != NULL && EL(x)->in, "extracted a non-member"); EL(x)->in = 0; } }
    check(&h, m); drain(&h, m); sx_reach(op == 0 ? "insert" : op == 1 ? "remove" : op == 2 ? "update" : op == 3 ? "replace" : "extract");
}
