/* C16: bounding boxes and layer ranges */
#include "cli.h"
#define EPS (1.0/32768)
/* ---- bounding box of expressions of boxes along one axis ---- */
static int axis, full; static int qx;
/* member: query is in the result; parts: hull of the objects that are not subtracted / of all objects */
typedef struct { int no, in, lo, hi, alo, ahi, plain; } V;
static V leaf(void)
{
    int sz = 2, d; put("translate(["); for (int k = 0; k < 3; k++) { if (k) put(","); if (k == axis) d = pdig(0, 9); else put("0"); }
    put("])cube(["); for (int k = 0; k < 3; k++) { if (k) put(","); pint(k == axis ? sz : 1); } put("]);");
    V v = { 1, (d <= qx) & (qx < d + sz), d, d + sz, d, d + sz, 1 }; return v;
}
static V ball(void)
{
    int d; put("translate(["); for (int k = 0; k < 3; k++) { if (k) put(","); if (k == axis) d = pdig(0, 9); else put("0"); } put("])scale([2,2,2])sphere(1);");
    V v = { 1, (d - 2 <= qx) & (qx < d + 2), d - 2, d + 2, d - 2, d + 2, 1 }; return v;
}
static V skip(void) { put("*cube(50);"); V v = { 0, 0, 1000, -1000, 1000, -1000, 1 }; return v; }
static int min_(int a, int b) { return a < b ? a : b; }
static int max_(int a, int b) { return a > b ? a : b; }
static V comb(int op, V *c, int n)
{
    V r = { 0, 0, 1000, -1000, 1000, -1000, op == 0 }; 
    for (int i = 0; i < n; i++) { if (!c[i].no) continue;
        if (!r.no) r.in = c[i].in; else if (op == 1) r.in &= !c[i].in; else if (op == 2) r.in &= c[i].in; else r.in |= c[i].in;
        if (!(op == 1 && r.no)) { r.lo = min_(r.lo, c[i].lo); r.hi = max_(r.hi, c[i].hi); }
        r.alo = min_(r.alo, c[i].alo); r.ahi = max_(r.ahi, c[i].ahi); r.plain &= c[i].plain; r.no = 1; }
    return r;
}
static V node(int depth);
static V item(int depth) { int k = ch("item", 0, depth > 1 ? 3 : 2); switch (k) { case 0: return leaf(); case 1: return skip(); case 2: return ball(); default: return node(depth - 1); } }
static V node(int depth)
{
    static char const *const OP[] = { "union(){", "difference(){", "intersection(){" }; V c[3]; int k = ch("op", 0, 2), n = ch("children", 1, (int)sx_param("maxn", 2)); put(OP[k]);
    for (int i = 0; i < n; i++) c[i] = item(depth);
    put("}"); return comb(k, c, n);
}
void h_bb_tree(void)
{
    sx_opt("fp", 2); axis = ch("axis", 0, 2); qx = (int)sx_int("query", -3, 13); full = ch("full", 0, 1);
    V e = node((int)sx_param("depth", 2)); int ok = scene(); CHECK(ok, "scene is rejected");
    cp_vec3_minmax_t bb = CP_VEC3_MINMAX_EMPTY; cp_csg3_tree_minmax(&bb, &t3, full); double lo = bb.min.v[axis], hi = bb.max.v[axis];
    if (!e.no) { CHECK(!(lo <= hi), "bounding box of nothing is not empty"); sx_reach("empty"); return; }
    int bad = 0, out = e.in; out &= !((lo <= qx + EPS) & (hi >= qx + 1 - EPS)); CHECK(!out, "a point of the model is outside of the bounding box");
    int has = lo <= hi; if (!has) { sx_reach("empty"); return; }
    int l = full ? e.alo : e.lo, h = full ? e.ahi : e.hi; bad = (lo < l - EPS) | (hi > h + EPS); CHECK(!bad, "bounding box is larger than the objects that count");
    if (full || e.plain) { bad = (lo > l + EPS) | (hi < h - EPS); CHECK(!bad, "bounding box does not contain all objects"); }
    sx_reach(full ? "all" : "result");
}
/* ---- ellipsoids and boxes under linear maps ---- */
void h_bb_shape(void)
{
    sx_opt("fp", 2); double m[3][3]; int w[3]; static double const Q[][9] = { {1,0,0, 0,1,0, 0,0,1}, {2,0,0, 0,3,0, 0,0,5}, {3,4,0, 0,2,0, 0,0,1}, {2,1,2, 0,-1,0, 12,0,5}, {-1,2,-2, 4,3,0, 0,0,-7}, {0,0,1, 1,0,0, 0,1,0} };
    int k = ch("matrix", 0, 5), ball_ = ch("ball", 0, 1); put("multmatrix(["); for (int i = 0; i < 3; i++) { put(i ? ",[" : "["); for (int j = 0; j < 3; j++) { m[i][j] = Q[k][3 * i + j]; if (j) put(","); pdbl(m[i][j]); } put(",-"); w[i] = -pdig(0, 9); put("]"); } put("])"); put(ball_ ? "sphere(1);" : "cube(2,center=true);");
    int ok = scene(); CHECK(ok, "scene is rejected"); cp_vec3_minmax_t bb = CP_VEC3_MINMAX_EMPTY; cp_csg3_tree_minmax(&bb, &t3, ch("full", 0, 1)); int bad = 0;
    for (int i = 0; i < 3; i++) { double r = ball_ ? sqrt(m[i][0]*m[i][0] + m[i][1]*m[i][1] + m[i][2]*m[i][2]) : fabs(m[i][0]) + fabs(m[i][1]) + fabs(m[i][2]); double a = bb.min.v[i] - (w[i] - r), b = bb.max.v[i] - (w[i] + r); bad |= (a > EPS) | (a < -EPS) | (b > EPS) | (b < -EPS); }
    CHECK(!bad, "bounding box is not that of the object"); sx_reach(ball_ ? "ball" : "box");
}
/* ---- layers of the tool ---- */
static char abuf[4][24];
static int which, nth;
/* a number; symbolic if it is the one that was chosen */
static int numput(char *b, int neg)
{
    int d; int n = 0; if (neg) b[n++] = '-'; if (nth++ == which) d = (int)sx_int("digit", 0, 9); else { static int const C[] = { 0, 3, 7 }; d = C[ch("number", 0, 2)]; } b[n++] = (char)('0' + d); b[n] = 0; return neg ? -d : d;
}
static char *numarg(int i, char const *pre, int neg, int *v) { char *b = abuf[i]; int n = (int)strlen(pre); memcpy(b, pre, (size_t)n); *v = numput(b + n, neg); return b; }
static double L_mn, L_mx, L_step; static int L_z, L_h, L_lim;
static void layers_end(int rc)
{
    int z = L_z, h = L_h, lim = L_lim; double mn = L_mn, mx = L_mx, step = L_step; CHECK(rc == 0 && got.count == 1 && got.kind == GOT_STL, "no output");
    cp_csg2_tree_t *t = got.tree; size_t n = t->z.size; cp_csg2_stack_t *s = cp_csg2_cast(cp_csg2_stack_t, t->root); CHECK(n > 0 && n == s->layer.size && n == t->flag.size, "layers and heights do not match"); int bad = 0;
    double th = t->thick - step; bad = (th > EPS) | (th < -EPS); CHECK(!bad, "layer thickness is not the step");
    int any = mn <= mx; if (!any) { sx_reach("empty range"); return; }
    for (size_t i = 0; i < n; i++) { double d = t->z.data[i] - (mn + step * (double)i); bad |= (d > EPS) | (d < -EPS);
        /* the box is in every layer that cuts it */
        double zz = t->z.data[i]; int in = (zz > z + EPS) & (zz < z + h - EPS), un = (zz < z - EPS) | (zz > z + h + EPS); cp_csg2_layer_t *l = &s->layer.data[i]; int have = l->root != NULL && l->root->add.size > 0; bad |= (in & !have) | (un & have); }
    CHECK(!bad, "layers are not where they belong"); double last = t->z.data[n - 1]; bad = (n > 1) & (last > mx + EPS); CHECK(!bad, "layers go beyond the end"); bad = last + step < mx - EPS; CHECK(!bad, "layers end too early"); sx_reach(lim ? "limits" : "whole");
}
void h_bb_layers(void)
{
    sx_opt("fp", 2); static char const *const ST[] = { "0.2", "0.25", "0.5", "1", "0.3", "3", "0.7" }; static double const SV[] = { 0.2, 0.25, 0.5, 1, 0.3, 3, 0.7 };
    int lim = ch("limits", 0, 4), k = ch("step", lim && lim < 4 ? 2 : 0, (int)sx_param("steps", 5)), h = ch("height", 1, 2), neg = ch("below", 0, 1), sub = ch("subtract", 0, 1); char st[16]; double step = SV[k];
    if (k || ch("explicit", 0, 1)) { snprintf(st, sizeof st, "--step=%s", ST[k]); arg(st); }
    int z; if (sub) put("difference(){"); which = ch("symbolic", 0, lim == 0 ? 0 : lim == 3 ? 2 : 1); put("translate([0,0,"); char zb[4]; z = numput(zb, neg); put(zb); put("])cube([1,1,"); pint(h); put("]);"); if (sub) put("translate([5,5,-50])cube(100);}");
    double lo = z + step / 2, hi = z + h; int a = 0, b = 0;
    if (lim == 1 || lim == 3) { arg(numarg(0, "--min=", 1, &a)); }
    if (lim == 2 || lim == 3) { arg(numarg(1, "--max=", 0, &b)); }
    if (lim == 4) { arg(numarg(2, "--z=", neg, &b)); }
    double mn = lo, mx = hi; if (lim == 1 || lim == 3) mn = a; if (lim == 2 || lim == 3) mx = b; if (lim == 4) mn = mx = b;
    arg("--dump-stl"); L_mn = mn; L_mx = mx; L_step = step; L_z = z; L_h = h; L_lim = lim; at_end = layers_end; tool("f.scad"); CHECK(0, "the program does not end");
}
