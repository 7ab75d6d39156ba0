/* C22: red-black dictionary */
#include "common.h"
#include <hob3lbase/dict.h>
#include <hob3lbase/panic.h>

typedef struct { cp_dict_t node; int64_t key; int64_t w; int64_t sum; int seen; } num_t;
#define NUM(n) ((num_t*)((char*)(n) - offsetof(num_t, node)))
#define MAXN 300

/* structure check: returns black height; appends to in-order list */
typedef struct { num_t *a[MAXN]; int n; } seq_t;
static int chk(cp_dict_t *n, cp_dict_t *parent, seq_t *s, int depth)
{
    if (n == NULL) return 0;
    CHECK(n->parent == parent, "parent link is wrong");
    CHECK(depth < 20, "tree too deep");
    int red = cp_dict_is_red(n) != 0;
    int a = chk(n->edge[0], n, s, depth + 1);
    if (s->n < MAXN) s->a[s->n++] = NUM(n);
    int b = chk(n->edge[1], n, s, depth + 1);
    CHECK(a == b, "black height differs between the sides");
    if (red) {
        CHECK(!(n->edge[0] && cp_dict_is_red(n->edge[0])), "red node with red child");
        CHECK(!(n->edge[1] && cp_dict_is_red(n->edge[1])), "red node with red child");
    }
    CHECK(cp_dict_black_height(n) == (size_t)(a + !red), "stored black height is wrong");
    return a + !red;
}
static int64_t chk_sum(cp_dict_t *n)
{
    if (n == NULL) return 0;
    int64_t s = NUM(n)->w + chk_sum(n->edge[0]) + chk_sum(n->edge[1]);
    CHECK(s == NUM(n)->sum, "subtree summary is wrong");
    return s;
}
/* full check against the expected sequence */
static void check_tree(cp_dict_t *root, num_t **exp, int n, int sum)
{
    seq_t s; s.n = 0;
    chk(root, NULL, &s, 0);
    CHECK(s.n == n, "number of elements is wrong");
    for (int i = 0; i < n && i < s.n; i++) CHECK(s.a[i] == exp[i], "in-order sequence is wrong");
    int i = 0;
    for (cp_dict_t *e = cp_dict_min(root); e != NULL; e = cp_dict_next(e)) { CHECK(i < n && NUM(e) == exp[i], "forward iteration is wrong"); i++; }
    CHECK(i == n, "forward iteration misses elements");
    for (cp_dict_t *e = cp_dict_max(root); e != NULL; e = cp_dict_prev(e)) { i--; CHECK(i >= 0 && NUM(e) == exp[i], "backward iteration is wrong"); }
    CHECK(i == 0, "backward iteration misses elements");
    for (i = 0; i < n; i++) CHECK(cp_dict_root(&exp[i]->node) == root, "root of a member is wrong");
    if (sum) chk_sum(root);
}
static int64_t gsum(cp_dict_t *n) { return n ? NUM(n)->sum : 0; }
static void upd(cp_dict_t *n) { if (n) NUM(n)->sum = NUM(n)->w + gsum(n->edge[0]) + gsum(n->edge[1]); }
static void aug_ev(cp_dict_aug_t *aug, cp_dict_t *a, cp_dict_t *b, cp_dict_aug_type_t c)
{
    switch (c) {
    case CP_DICT_AUG_LEFT: case CP_DICT_AUG_RIGHT: upd(b); upd(a); break;
    case CP_DICT_AUG_NOP: case CP_DICT_AUG_ADD: case CP_DICT_AUG_JOIN: case CP_DICT_AUG_CUT_LEAF: upd(a); break;
    case CP_DICT_AUG_NOP2: upd(a); upd(a->parent); break;
    case CP_DICT_AUG_FINI: while (a) { upd(a); a = a->parent; } break;
    case CP_DICT_AUG_CUT_SWAP: break;
    case CP_DICT_AUG_SPLIT: NUM(a)->sum = NUM(a)->w; break;
    }
}
static cp_dict_aug_t aug1 = { aug_ev };
static int cmpk(int64_t *k, cp_dict_t *n, void *user) { int64_t a = *k, b = NUM(n)->key; return a < b ? -1 : a > b ? +1 : 0; }

/* arbitrary valid tree of black height h from symbolic choices */
static num_t pool[MAXN]; static int npool;
static num_t *inord[MAXN + 2]; static int ninord;
static cp_dict_t *mk(int h, int red_ok, int max)
{
    int red = red_ok && (npool < max) && ch("red", 0, 1);
    if (!red && h == 0) return NULL;
    sx_assume(npool < max);
    num_t *x = &pool[npool++]; memset(x, 0, sizeof *x);
    cp_dict_t *l = mk(red ? h : h - 1, !red, max);
    inord[ninord++] = x;
    cp_dict_t *r = mk(red ? h : h - 1, !red, max);
    x->node.edge[0] = l; x->node.edge[1] = r;
    if (l) l->parent = &x->node;
    if (r) r->parent = &x->node;
    x->node.stat = (size_t)(red ? 2 * h + 1 : 2 * h);
    x->w = 1 + (x - pool) * 3; x->sum = x->w + gsum(l) + gsum(r);
    return &x->node;
}
static cp_dict_t *mktree(char const *n, int maxh, int max)
{
    int h = ch(n, 0, maxh);
    for (int i = 0; i <= maxh; i++) if (i == h) { h = i; break; }
    return mk(h, 1, max);
}
static void number(int from) { for (int i = from; i < ninord; i++) inord[i]->key = 2 * i; }

/* any valid tree, one insertion at a symbolic place */
void h_dict_insert(void)
{
    npool = ninord = 0;
    cp_dict_t *root = mktree("h", (int)sx_param("maxh", 2), (int)sx_param("maxn", 15));
    number(0);
    int n = ninord, aug = ch("aug", 0, 1);
    num_t *exp[MAXN]; for (int i = 0; i < n; i++) exp[i] = inord[i];
    num_t x; memset(&x, 0, sizeof x); x.w = x.sum = 1000; 
    int64_t k = sx_int("key", -1, 2 * n); x.key = k;
    int dup = ch("dup", -1, 1);
    cp_dict_t *mn = cp_dict_min(root), *mx = cp_dict_max(root);
    cp_dict_t *r = cp_dict_insert_update_by_aug(&x.node, &k, &root, &mn, &mx, cmpk, (void*)NULL, dup, aug ? &aug1 : NULL);
    /* reference: position */
    int p = 0; while (p < n && 2 * p < k) p++;
    if (p < n && 2 * p == k) {
        if (dup == 0) {
            sx_reach("duplicate rejected");
            CHECK(r == &exp[p]->node, "duplicate not reported");
            check_tree(root, exp, n, 1); return;
        }
        if (dup > 0) p++;
    }
    sx_reach("inserted");
    CHECK(r == NULL, "insertion rejected");
    for (int i = n; i > p; i--) exp[i] = exp[i - 1];
    exp[p] = &x; n++;
    check_tree(root, exp, n, aug || n == 1);
    CHECK(mn == &exp[0]->node, "cached minimum is wrong");
    CHECK(mx == &exp[n - 1]->node, "cached maximum is wrong");
}
/* any valid tree, insertion before/after a given node, or at an end */
void h_dict_insert_at(void)
{
    npool = ninord = 0;
    cp_dict_t *root = mktree("h", (int)sx_param("maxh", 2), (int)sx_param("maxn", 15));
    number(0);
    int n = ninord;
    num_t *exp[MAXN]; for (int i = 0; i < n; i++) exp[i] = inord[i];
    num_t x; memset(&x, 0, sizeof x); x.w = x.sum = 1000;
    int at = ch("at", -1, n - 1), dir = ch("dir", 0, 1), p;
    sx_assume(at >= 0 || n == 0 || dir <= 1);
    cp_dict_t *mn = cp_dict_min(root), *mx = cp_dict_max(root);
    int k; for (k = -1; k < n; k++) if (k == at) break;
    if (k < 0) {
        cp_dict_ref_t ref = { .parent = NULL, .child = dir };
        cp_dict_insert_ref_aug(&x.node, &ref, &root, &aug1);
        p = (n == 0) ? 0 : dir ? 0 : n;
        mn = mx = NULL;
    } else {
        cp_dict_insert_update_at_aug(&x.node, &exp[k]->node, dir, &root, &mn, &mx, &aug1);
        p = dir ? k + 1 : k;
    }
    for (int i = n; i > p; i--) exp[i] = exp[i - 1];
    exp[p] = &x; n++;
    sx_reach("inserted at");
    check_tree(root, exp, n, 1);
    if (mn) CHECK(mn == &exp[0]->node, "cached minimum is wrong");
    if (mx) CHECK(mx == &exp[n - 1]->node, "cached maximum is wrong");
}
/* any valid tree, removal of any node (or extraction of an extremum) */
void h_dict_remove(void)
{
    npool = ninord = 0;
    cp_dict_t *root = mktree("h", (int)sx_param("maxh", 2), (int)sx_param("maxn", 15));
    number(0);
    int n = ninord; sx_assume(n > 0);
    int aug = ch("aug", 0, 1), two = (int)sx_param("times", 1);
    num_t *exp[MAXN]; for (int i = 0; i < n; i++) exp[i] = inord[i];
    for (int t = 0; t < two && n > 0; t++) {
        int mode = ch("mode", 0, 3);
        int at = 0; cp_dict_t *got;
        if (mode == 0) {
            at = ch("at", 0, n - 1);
            for (int k = 0; k < n; k++) if (k == at) { at = k; break; }
            cp_dict_t *e = &exp[at]->node;
            cp_dict_remove_aug(e, &root, aug ? &aug1 : NULL); got = e;
        }
        else if (mode == 1) { at = 0; got = cp_dict_extract_min_aug(&root, aug ? &aug1 : NULL); }
        else if (mode == 2) { at = n - 1; got = cp_dict_extract_max_aug(&root, aug ? &aug1 : NULL); }
        else {
            int side = ch("side", 0, 1);
            cp_dict_t *ex = side ? &exp[n - 1]->node : &exp[0]->node;
            at = side ? n - 1 : 0;
            got = cp_dict_extract_update_start_aug(&root, &ex, side, aug ? &aug1 : NULL);
            CHECK(ex == (n > 1 ? &exp[side ? n - 2 : 1]->node : NULL), "cached extremum is wrong after extraction");
        }
        CHECK(got == &exp[at]->node, "wrong node removed");
        CHECK(got->parent == NULL && got->edge[0] == NULL && got->edge[1] == NULL, "removed node still linked");
        CHECK(!cp_dict_is_member(got), "removed node still a member");
        for (int i = at; i + 1 < n; i++) exp[i] = exp[i + 1];
        n--;
        if (n == 0) CHECK(root == NULL, "root not empty");
        check_tree(root, exp, n, aug);
        sx_reach("removed");
    }
}
/* join of two valid trees, with and without a middle element */
void h_dict_join(void)
{
    npool = ninord = 0;
    cp_dict_t *l = mktree("h", (int)sx_param("maxh", 2), (int)sx_param("maxn", 9));
    int nl = npool;
    num_t x; memset(&x, 0, sizeof x); x.w = x.sum = 1000;
    int with = ch("with", 0, 1);
    if (with) inord[ninord++] = &x;
    cp_dict_t *r = mktree("h", (int)sx_param("maxh", 2), nl + (int)sx_param("maxn2", 4));
    number(0);
    int swap = ch("swap", 0, 1), n = ninord;
    num_t *exp[MAXN]; 
    if (swap) { /* the second tree comes first */
        int k = 0, a = nl + with;
        for (int i = a; i < n; i++) exp[k++] = inord[i];
        if (with) exp[k++] = &x;
        for (int i = 0; i < nl; i++) exp[k++] = inord[i];
        cp_dict_t *t = l; l = r; r = t;
    }
    else for (int i = 0; i < n; i++) exp[i] = inord[i];
    cp_dict_t *root = with ? cp_dict_join3_aug(l, &x.node, r, &aug1) : cp_dict_join2_aug(l, r, &aug1);
    sx_reach(with ? "join3" : "join2");
    check_tree(root, exp, n, 1);
}
/* split of a valid tree at a symbolic key; join back */
void h_dict_split(void)
{
    npool = ninord = 0;
    cp_dict_t *root = mktree("h", (int)sx_param("maxh", 2), (int)sx_param("maxn", 15));
    number(0);
    int n = ninord;
    int64_t k = sx_int("key", -1, 2 * n);
    int leq = ch("leq", 0, 1);
    cp_dict_t *l, *r; 
    cp_dict_split_aug(&l, &r, root, &k, cmpk, (void*)NULL, leq, &aug1);
    /* equal elements: right if back=1, left if back=0 */
    int p = 0; while (p < n && (2 * p < k || (2 * p == k && !leq))) p++;
    sx_reach("split");
    check_tree(l, inord, p, 1);
    check_tree(r, inord + p, n - p, 1);
    cp_dict_t *j = cp_dict_join2_aug(l, r, &aug1);
    check_tree(j, inord, n, 1);
}
/* find in trees with runs of equal keys */
void h_dict_find(void)
{
    npool = ninord = 0;
    cp_dict_t *root = mktree("h", (int)sx_param("maxh", 2), (int)sx_param("maxn", 6));
    int n = ninord; int64_t k0 = 0;
    for (int i = 0; i < n; i++) { if (i) k0 += 2 * sx_int("step", 0, 1); inord[i]->key = k0; }
    int64_t k = sx_int("key", -1, 2 * n);
    int dup = ch("dup", -2, 2);
    cp_dict_ref_t ref;
    cp_dict_t *e = cp_dict_find_ref(&ref, &k, root, cmpk, (void*)NULL, dup);
    int lo = 0; while (lo < n && inord[lo]->key < k) lo++;
    int hi = lo; while (hi < n && inord[hi]->key == k) hi++;
    if (dup == 0) {
        if (lo == hi) CHECK(e == NULL, "found something that is not there");
        else { CHECK(e != NULL && NUM(e)->key == k, "equal element not found"); sx_reach("found"); return; }
    }
    if (dup == -2) CHECK(e == (lo < hi ? &inord[lo]->node : NULL), "leftmost equal element not found");
    if (dup == 2) CHECK(e == (lo < hi ? &inord[hi - 1]->node : NULL), "rightmost equal element not found");
    if (dup == 1 || dup == -1) CHECK(e == NULL, "insertion search returned an element");
    int p = dup > 0 ? hi : lo;
    num_t x; memset(&x, 0, sizeof x); x.key = k;
    cp_dict_insert_ref(&x.node, &ref, &root);
    num_t *exp[MAXN]; int m = 0;
    for (int i = 0; i < n; i++) { if (i == p) exp[m++] = &x; exp[m++] = inord[i]; }
    if (p == n) exp[m++] = &x;
    sx_reach("inserted by reference");
    check_tree(root, exp, m, 0);
}
/* swapping nodes inside a tree, between trees, and with outside nodes */
void h_dict_swap(void)
{
    npool = ninord = 0;
    cp_dict_t *r1 = mktree("h", (int)sx_param("maxh", 2), (int)sx_param("maxn", 7));
    int n1 = ninord;
    cp_dict_t *r2 = mktree("h", 1, n1 + 3);
    int n = ninord; sx_assume(n1 > 0);
    num_t x; memset(&x, 0, sizeof x); inord[n] = &x;
    int a = ch("a", 0, n1 - 1), b = ch("b", 0, n);
    for (int k = 0; k < n1; k++) if (k == a) { a = k; break; }
    for (int k = 0; k <= n; k++) if (k == b) { b = k; break; }
    int three = (b >= n1 && b < n);
    if (b < n1 || b == n) cp_dict_swap_update_root(&r1, &inord[a]->node, &inord[b]->node);
    else cp_dict_swap_update_root2(&r1, &r2, &inord[a]->node, &inord[b]->node);
    num_t *t = inord[a]; inord[a] = inord[b]; inord[b] = t;
    sx_reach(three ? "two trees" : b == n ? "outside node" : "same tree");
    check_tree(r1, inord, n1, 0);
    check_tree(r2, inord + n1, n - n1, 0);
    if (b == n) CHECK(!cp_dict_is_member(&inord[n]->node), "replaced node still linked");
}
static int cmpn(cp_dict_t *a, cp_dict_t *b, void *u) { int64_t p = NUM(a)->key, q = NUM(b)->key; return p < q ? -1 : p > q; }
/* histories through the public interface only, symbolic keys */
void h_dict_hist(void)
{
    int N = (int)sx_param("ops", 7), n = 0; int64_t R = sx_param("range", 100);
    static num_t P[32]; memset(P, 0, sizeof P);
    num_t *exp[MAXN]; cp_dict_t *root = NULL;
    for (int i = 0; i < N; i++) {
        int del = (n > 0 && i > 1) ? ch("del", 0, 1) : 0;
        int64_t k = sx_int("key", 0, R);
        if (!del) {
            num_t *x = &P[i]; x->key = k; x->w = x->sum = 1 + i;
            cp_dict_t *r = cp_dict_insert_aug(&x->node, &root, cmpn, (void*)NULL, 1, &aug1);
            CHECK(r == NULL, "insertion with duplicates rejected");
            int p = 0; while (p < n && exp[p]->key <= k) p++;
            for (int j = n; j > p; j--) exp[j] = exp[j - 1];
            exp[p] = x; n++;
        } else {
            cp_dict_t *e = cp_dict_find(&k, root, cmpk, (void*)NULL, -2);
            int p = 0; while (p < n && exp[p]->key < k) p++;
            if (p < n && exp[p]->key == k) {
                CHECK(e == &exp[p]->node, "first equal element not found");
                cp_dict_remove_aug(e, &root, &aug1);
                for (int j = p; j + 1 < n; j++) exp[j] = exp[j + 1];
                n--; sx_reach("removed");
            } else CHECK(e == NULL, "found an element that is not there");
        }
        check_tree(root, exp, n, 1);
    }
    sx_reach("history done");
}
/* large trees: grown by insertion in several orders, thinned by removals; then joined, split, inserted into, or removed from at a symbolic key */
static num_t bigp[2 * MAXN]; static int nbig;
static cp_dict_t *grow(int n, int order, int64_t base, int thin, num_t **seq, int *cnt)
{
    cp_dict_t *root = NULL; num_t *p = bigp + nbig; nbig += n;
    for (int i = 0; i < n; i++) { int j = order == 0 ? i : order == 1 ? n - 1 - i : i * 37 % n; p[j].key = base + 2 * j; p[j].w = 1 + 3 * j; p[j].sum = p[j].w; int64_t k = p[j].key; cp_dict_insert_by_aug(&p[j].node, &k, &root, cmpk, (void*)NULL, 0, &aug1); }
    *cnt = 0; for (int j = 0; j < n; j++) { if (thin && (thin == 1 ? j % 3 == 1 : j % 5 > 1)) cp_dict_remove_aug(&p[j].node, &root, &aug1); else seq[(*cnt)++] = &p[j]; }
    return root;
}
void h_dict_many(void)
{
    static int const SZ[] = { 0, 1, 2, 5, 17, 41, 101 }; num_t *l[MAXN], *r[MAXN], *e[MAXN]; int nl, nr, m = 0; memset(bigp, 0, sizeof bigp); nbig = 0;
    int op = ch("op", 0, 3), a = SZ[op < 2 ? ch("left", 0, 6) : ch("left", 4, 6)], ord = ch("order", 0, 2), th = ch("thinned", 0, 2); cp_dict_t *L = grow(a, ord, 0, th, l, &nl), *R = NULL;
    if (a <= 2 && (ord || th)) sx_end();
    if (op < 2) { /* join2, join3 */
        R = grow(SZ[ch("right", 0, 6)], 2 - ord, 10000, 2 - th, r, &nr); num_t x; memset(&x, 0, sizeof x); x.w = x.sum = 1000; x.key = 5000;
        int64_t k = sx_int("key", 0, 3) + (nl > 2 ? l[nl - 2]->key : -1); for (int i = 0; i < nl; i++) e[m++] = l[i]; if (op) e[m++] = &x; for (int i = 0; i < nr; i++) e[m++] = r[i];
        cp_dict_t *j = op ? cp_dict_join3_aug(L, &x.node, R, &aug1) : cp_dict_join2_aug(L, R, &aug1); check_tree(j, e, m, 1); sx_reach(op ? "join3" : "join2");
        cp_dict_ref_t ref; cp_dict_t *f = cp_dict_find_ref(&ref, &k, j, cmpk, (void*)NULL, 0); int there = 0; for (int i = 0; i < m; i++) there |= e[i]->key == k; CHECK((f != NULL) == there, "search in the joined tree is wrong");
        return;
    }
    int64_t k = sx_int("key", 0, 9) + ch("key base", 0, 5) * 2 * a / 6 - 1; int lo = 0; while (lo < nl && l[lo]->key < k) lo++; int eq = lo < nl && l[lo]->key == k;
    if (op == 2) { /* split and join again in the other order */
        int leq = ch("leq", 0, 1); cp_dict_t *x, *y; cp_dict_split_aug(&x, &y, L, &k, cmpk, (void*)NULL, leq, &aug1); int p = lo + (eq && !leq); check_tree(x, l, p, 1); check_tree(y, l + p, nl - p, 1); sx_reach("split");
        for (int i = p; i < nl; i++) e[m++] = l[i]; for (int i = 0; i < p; i++) e[m++] = l[i]; cp_dict_t *j = cp_dict_join2_aug(y, x, &aug1); check_tree(j, e, m, 1); return;
    }
    if (eq) { cp_dict_remove_aug(&l[lo]->node, &L, &aug1); for (int i = 0; i < nl; i++) if (i != lo) e[m++] = l[i]; check_tree(L, e, m, 1); sx_reach("removed"); }
    else { num_t x; memset(&x, 0, sizeof x); x.w = x.sum = 1000; x.key = k; cp_dict_insert_by_aug(&x.node, &k, &L, cmpk, (void*)NULL, 0, &aug1); for (int i = 0; i < nl; i++) { if (i == lo) e[m++] = &x; e[m++] = l[i]; } if (lo == nl) e[m++] = &x; check_tree(L, e, m, 1); sx_reach("inserted"); }
}
