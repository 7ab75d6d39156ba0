/* C15: scene trees and the set expressions they denote */
#include "scene.h"
#include <hob3l/csg2-bool.h>
/* oracle value of a node: whether it counts as a child, and membership of the query point(s) */
typedef struct { int no; int in; } V;
static int qx;       /* query point is at qx + 0.5 */
static int shift;
static V none(void) { V v = { 0, 0 }; return v; }
/* ---- expressions over intervals along x ---- */
static int boxes;
static V box(int sh)
{
    boxes++; put("translate(["); int d = pdig(0, 9); put(",0,0])cube([2,1,1]);"); d += sh; V v = { 1, (d <= qx) & (qx < d + 2) }; return v;
}
static V item(int sh, int kinds)
{
    switch (ch("item", 0, kinds)) {
    case 0: return box(sh);
    case 1: put("*cube(9);"); return none();
    case 2: { put("cube(0);"); V v = { 1, 0 }; return v; }
    case 3: put("%"); box(sh); return none();
    case 4: put("#"); return box(sh);
    case 5: put("group();"); return none();
    case 6: put("translate([1,0,0]){}"); return none();
    case 7: put("linear_extrude(height=2)group();"); return none();
    case 8: { put("scale([0,1,1])"); V v = box(sh); v.in = 0; return v; }
    case 9: { put("scale([1,0,1])*"); box(sh); return none(); }
    case 10: put("union(){*cube(9);}"); return none();
    case 11: put("difference()intersection();"); return none();
    case 12: { put("linear_extrude(height=0)square(9);"); V v = { 1, 0 }; return v; }
    default: put(";"); return none();
    }
}
static V comb(int op, V *c, int n)
{
    V r = none(); int f = 0;
    for (int i = 0; i < n; i++) { if (!c[i].no) continue;
        if (!f) r.in = c[i].in; else if (op == 1) r.in &= !c[i].in; else if (op == 2) r.in &= c[i].in; else r.in |= c[i].in;
        f = 1; }
    r.no = f; return r;
}
static char const *const OP[] = { "union()", "difference()", "intersection()", "group()", "", "mirror([1,0,0])", "color([1,0,0])" };
static int op_begin(int lo, int hi) { int k = ch("op", lo, hi); put(OP[k]); put("{"); return k; }
static V node(int depth, int kinds, int maxn)
{
    V c[4]; int k = op_begin(0, 4), n = ch("children", 1, maxn);
    for (int i = 0; i < n; i++) { if (depth > 1 && ch("nested", 0, 1)) c[i] = node(depth - 1, kinds, maxn); else c[i] = item(shift, kinds); }
    put("}"); return comb(k, c, n);
}
static int in_v(cp_v_obj_p_t *v);
static int in_o(cp_csg_t *o)
{
    switch (o->type) {
    case CP_CSG3_POLY: { cp_csg3_poly_t *p = cp_csg3_cast(cp_csg3_poly_t, o); CHECK(p->point.size == 8, "not a box"); int k = 0; for (size_t i = 0; i < 8; i++) k += p->point.data[i].coord.x < qx + 0.5; return k == 4; }
    case CP_CSG_ADD: return in_v(&cp_csg_cast(cp_csg_add_t, o)->add);
    case CP_CSG_SUB: return in_v(&cp_csg_cast(cp_csg_sub_t, o)->add->add) & !in_v(&cp_csg_cast(cp_csg_sub_t, o)->sub->add);
    case CP_CSG_CUT: { cp_csg_cut_t *c = cp_csg_cast(cp_csg_cut_t, o); CHECK(c->cut.size > 0, "intersection of nothing"); int r = 1; for (size_t i = 0; i < c->cut.size; i++) r &= in_v(&c->cut.data[i]->add); return r; }
    default: CHECK(0, "unexpected object");
    }
    return 0;
}
static int in_v(cp_v_obj_p_t *v) { int r = 0; for (size_t i = 0; i < v->size; i++) r |= in_o((cp_csg_t*)v->data[i]); return r; }
static int in_tree(void) { return t3.root ? in_v(&t3.root->add) : 0; }
static void lenient(void) { co.err_empty = co.err_collapse = CP_ERR_IGNORE; }
/* a top operator over up to n children: items of any kind, or nested operators over items */
void h_csg_tree(void)
{
    sx_opt("fp", 2); lenient(); qx = (int)sx_int("query", -2, 12); int kinds = (int)sx_param("kinds", 2), maxn = (int)sx_param("maxn", 2);
    V c[4]; int n = ch("children", 1, maxn), k = op_begin(0, 4), nest = (int)sx_param("nest", 2), deep = (int)sx_param("deep", 1);
    for (int i = 0; i < n; i++) { if (nest && ch("nested", 0, 1)) { nest--; c[i] = node(deep, (int)sx_param("ikinds", 2), (int)sx_param("imaxn", 2)); } else c[i] = item(shift, kinds); }
    put("}"); V e = comb(k, c, n); int ok = scene(); CHECK(ok, "scene is rejected");
    int g = in_tree(); CHECK(g == e.in, "the tree denotes another set"); sx_reach(k == 1 ? "difference" : k == 2 ? "intersection" : "union");
}
/* every kind of child at every place of an operator */
void h_csg_kinds(void)
{
    sx_opt("fp", 2); lenient(); qx = (int)sx_int("query", -2, 12); V c[4]; int k = op_begin(1, (int)sx_param("ops", 2)), n = ch("children", 2, 3);
    for (int i = 0; i < n; i++) c[i] = i == 2 ? box(shift) : item(shift, 13);
    put("}"); V e = comb(k, c, n); int ok = scene(); CHECK(ok, "scene is rejected"); int g = in_tree(); CHECK(g == e.in, "the tree denotes another set"); sx_reach("kinds");
}
/* objects of the wrong dimension: refused by default, and as if they were not there if told to ignore them */
static char const *const WRONG[] = { "square(3);", "circle(3,$fn=5);", "polygon([[0,0],[3,0],[0,3]]);", "projection()cube(3);", "text(\"a\");", "hull()square(3);",
    "cube(3);", "sphere(3);", "cylinder(h=3,r=3);", "polyhedron(points=[[0,0,0],[3,0,0],[0,3,0],[0,0,3]],faces=[[0,1,2],[0,3,1],[1,3,2],[0,2,3]]);", "linear_extrude(height=3)square(3);", "rotate_extrude()square(3);" };
void h_csg_outside(void)
{
    sx_opt("fp", 2); int k = ch("wrong", 0, 11), two = k > 5, ign = ch("treatment", 0, 2), is3 = k >= 5; V e; qx = (int)sx_int("query", -2, 15);
    unsigned t = ign == 1 ? CP_ERR_IGNORE : CP_ERR_WARN; co.err_outside_2d = ign && !is3 ? t : CP_ERR_FAIL; co.err_outside_3d = ign && is3 ? t : CP_ERR_FAIL;
    int pos = ch("position", 0, 2);
    if (!two) { V c[3]; int op = op_begin(0, 3); for (int i = 0; i < 3; i++) if (i == pos) { put(WRONG[k]); c[i] = none(); } else c[i] = box(0); put("}"); e = comb(op, c, 3); }
    else { V c[3]; put("translate(["); int d = pdig(0, 9), j = 0; put(",0,0])linear_extrude(height=1)"); int op = op_begin(0, 3);
        for (int i = 0; i < 3; i++) if (i == pos) { put(WRONG[k]); c[i] = none(); } else { int w = j++ && op != 0 && op != 3 ? 2 : 4; put(w == 2 ? "square([2,1]);" : "square([4,1]);"); c[i].no = 1; c[i].in = (qx >= d) & (qx < d + w); } put("}"); e = comb(op, c, 3); }
    int ok = scene(); if (!ign) { CHECK(!ok, "an object of the wrong dimension is accepted"); sx_reach("refused"); return; }
    CHECK(ok, "scene is rejected"); int g = in_tree(); CHECK(g == e.in, "the tree denotes another set"); sx_reach(two ? "3D in 2D" : "2D in 3D");
}
/* ---- root and disable modifiers anywhere ---- */
static int root_no, root_found; static V root_v; static int keep; static int root_sh, root_seen;
/* writes modifiers before a node; returns 1 if the node is disabled */
static char const *const MD[] = { "", "*", "%", "!", "#", "*!", "!*", "#!", "!#", "##" };
static int mod_hi;
static V mnode(int depth, int dead, int sh);
static V mbody(int depth, int dead, int sh)
{
    if (depth == 0) return box(sh);
    V c[3]; int k = op_begin(0, 3), n = ch("children", 1, 2); int t = 0;
    if (k == 3) { /* a transformation instead of a plain group */ N -= 8; put("translate(["); t = (int)sx_int("digit", 0, 9); putc1('0' + t); put(",0,0]){"); }
    for (int i = 0; i < n; i++) c[i] = mnode(depth - 1, dead, sh + t);
    put("}"); return comb(k, c, n);
}
static V mnode(int depth, int dead, int sh)
{
    int m = ch("modifier", 0, mod_hi); put(MD[m]); int ast = m == 1 || m == 5 || m == 6, pct = m == 2, bang = m == 3 || m == 7 || m == 8;
    /* a node below '*' does not exist, and cannot be the root */
    int root = bang && !dead && !ast; if (root) root_no++;
    int save = shift; V v = mbody(depth, dead || ast, sh); shift = save;
    if (root) { root_found = 1; root_v = v; root_sh = sh; }
    return ast || pct ? none() : v;
}
void h_csg_root(void)
{
    sx_opt("fp", 2); qx = (int)sx_int("query", -2, 30); mod_hi = (int)sx_param("mods", 3);
    V c[2]; int n = ch("top", 1, 2); c[0] = mnode(ch("depth", 0, (int)sx_param("depth", 2)), 0, 0); if (n == 2) c[1] = mnode((int)sx_param("depth2", 0), 0, 0);
    T[N] = 0; file_ = calloc(1, sizeof *file_); sx_vfile("f.scad", T, (size_t)N); D("%s\n", T);
    bool ok = cp_syn_read(file_, &er, &in_, NULL, "f.scad", NULL) && cp_syn_parse(&er, &in_, &tree_, file_); CHECK(ok, "text does not parse"); st_.opt = &so_;
    ok = cp_scad_from_syn_tree(&st_, &in_, &er, &tree_);
    if (root_no > 1) { CHECK(!ok, "several roots are accepted"); sx_reach("several"); return; }
    CHECK(ok, "scene is rejected"); int ctxt = ch("keep context", 0, 1); co.keep_ctxt = ctxt; cp_pool_init(&pool); t3.opt = &co; ok = cp_csg3_from_scad_tree(&pool, &in_, &t3, &er, &st_); CHECK(ok, "scene is rejected");
    V e = comb(0, c, n); int g = in_tree(); int want = e.in;
    if (root_no) { /* the marked part alone, without the transformations around it: the query moves along */
        int q = qx; qx = q - root_sh; g = in_tree(); qx = q; want = root_v.in; }
    if (ctxt) { int r = t3.root_xform != NULL; if (r) { double d = t3.root_xform->n.w.v[0]; r = d == root_sh; } CHECK(r == root_no, "the place of the selected part is wrong"); }
    else CHECK(!t3.root_xform, "unexpected root transformation");
    CHECK(g == want, "the model is not the selected part"); sx_reach(root_no ? "root" : "no root");
}
/* ---- down to the polygons of the layers ---- */
/* box i: x from X0 (symbolic for box 0), fixed rest */
static int const BX[4][6] = { /* x w y d z h */ { 0,2, 0,2, 0,3 }, { 1,2, 0,1, 1,2 }, { 2,3, 1,1, 0,1 }, { 1,4, 0,3, 2,1 } };
static int bx[4]; static int lyr, px, py, symb = 1;
typedef struct { int no; unsigned char in[3][2][8]; } W; /* layers x rows x columns */
static void wbox(W *w, int i) { put("translate(["); if (i == 0) bx[0] = symb ? pdig(0, 4) : (pint(1), 1); else { bx[i] = BX[i][0]; pint(bx[i]); } put(","); pint(BX[i][2]); put(","); pint(BX[i][4]); put("])cube(["); pint(BX[i][1]); put(","); pint(BX[i][3]); put(","); pint(BX[i][5]); put("]);");
    w->no = 1; for (int z = 0; z < 3; z++) for (int y = 0; y < 2; y++) for (int x = 0; x < 8; x++) w->in[z][y][x] = (unsigned char)((bx[i] <= x) & (x < bx[i] + BX[i][1]) & (BX[i][2] <= y) & (y < BX[i][2] + BX[i][3]) & (BX[i][4] <= z) & (z < BX[i][4] + BX[i][5])); }
static void wcomb(W *r, int op, W *c, int n)
{
    memset(r, 0, sizeof *r); int f = 0;
    for (int i = 0; i < n; i++) { if (!c[i].no) continue;
        for (int z = 0; z < 3; z++) for (int y = 0; y < 2; y++) for (int x = 0; x < 8; x++) { unsigned char a = r->in[z][y][x], b = c[i].in[z][y][x]; r->in[z][y][x] = (unsigned char)(!f ? b : op == 1 ? a & !b : op == 2 ? a & b : a | b); }
        f = 1; }
    r->no = f;
}
static int nb;
/* a wedge: a single triangle in each layer */
static void wwedge(W *w)
{
    int d = 1; put("translate([1,0,1])linear_extrude(height=2)polygon([[0,0],[16,0],[0,16]]);"); memset(w, 0, sizeof *w); w->no = 1;
    for (int z = 1; z < 3; z++) for (int y = 0; y < 2; y++) for (int x = 0; x < 8; x++) w->in[z][y][x] = (unsigned char)(x >= d);
}
static void wnode(W *w, int depth)
{
    if (depth == 0 || (depth == 1 && ch("leaf", 0, 1))) { switch (ch("kind", 0, 2)) { case 0: wbox(w, nb++ & 3); break; case 1: put("*cube(3);"); memset(w, 0, sizeof *w); break; default: wwedge(w); } return; }
    static W c[3][3]; W *cc = c[depth]; int k = op_begin(0, 2); for (int i = 0; i < 2; i++) wnode(&cc[i], depth - 1); put("}"); wcomb(w, k, cc, 2);
}
static bool edge_crosses(cp_vec2_loc_t *a, cp_vec2_loc_t *b, double x, double y)
{
    /* a ray to the right from (x,y) */
    double s = (b->coord.x - a->coord.x) * (y - a->coord.y) - (x - a->coord.x) * (b->coord.y - a->coord.y);
    return ((a->coord.y > y) != (b->coord.y > y)) & (b->coord.y > a->coord.y ? s > 0 : s < 0);
}
/* even-odd rule over the sides of triangles that are marked as outline */
static int outline_in(cp_csg2_poly_t *p, double x, double y)
{
    int in = 0; static unsigned const F[] = { CP_CSG2_TRI_OUTLINE_01, CP_CSG2_TRI_OUTLINE_12, CP_CSG2_TRI_OUTLINE_20 };
    for (size_t i = 0; i < p->tri.size; i++) for (int j = 0; j < 3; j++) if (p->tri.data[i].flags & F[j]) { size_t u = p->tri.data[i].p[j], v = p->tri.data[i].p[(j + 1) % 3]; CHECK(u < p->point.size && v < p->point.size, "triangle refers to a point that does not exist"); in ^= edge_crosses(&p->point.data[u], &p->point.data[v], x, y); }
    return in;
}
static int tri_in(cp_csg2_poly_t *p, double x, double y)
{
    int n = 0;
    for (size_t i = 0; i < p->tri.size; i++) { int s = 0, in = 1; (void)s; double d[3];
        for (int j = 0; j < 3; j++) { size_t u = p->tri.data[i].p[j], v = p->tri.data[i].p[(j + 1) % 3]; CHECK(u < p->point.size && v < p->point.size, "triangle refers to a point that does not exist"); cp_vec2_t *a = &p->point.data[u].coord, *b = &p->point.data[v].coord; d[j] = (b->x - a->x) * (y - a->y) - (b->y - a->y) * (x - a->x); }
        in = ((d[0] > 0) & (d[1] > 0) & (d[2] > 0)) | ((d[0] < 0) & (d[1] < 0) & (d[2] < 0)); n += in; }
    return n;
}
static void layers_are(W *w)
{
    int ok;
    cp_range_t range; cp_range_init(&range, 0.5, 2.5, 1); range.cnt = 3; static cp_csg2_tree_t c2, c2b; cp_csg2_tree_from_csg3(&c2, &t3, &range, &co); cp_csg2_op_tree_init(&c2b, &c2);
    for (size_t z = 0; z < 3; z++) { cp_pool_clear(&pool); cp_csg2_tree_add_layer(&pool, &c2, z); ok = cp_csg2_op_flatten_layer(&er, &co, &pool, &c2b, &c2, z); CHECK(ok, "a layer cannot be computed"); }
    cp_csg2_stack_t *s = cp_csg2_cast(cp_csg2_stack_t, c2b.root); CHECK(s->layer.size == 3 && c2b.z.size == 3, "wrong number of layers"); int bad = 0;
    for (size_t z = 0; z < 3; z++) {
        cp_csg2_layer_t *l = cp_csg2_stack_get_layer(s, z); cp_csg2_poly_t *p = NULL; if (l && l->root && l->root->add.size) { CHECK(l->root->add.size == 1 && l->zi == z, "layer holds something unexpected"); p = cp_csg2_cast(cp_csg2_poly_t, l->root->add.data[0]); }
        bad |= c2b.z.data[z] != 0.5 + (double)z; CHECK(!(c2b.flag.data[z] & CP_CSG2_FLAG_NON_EMPTY) == !p, "layer is marked empty although it is not, or the other way round");
        for (int y = 0; y < 2; y++) for (int x = 0; x < 8; x++) { int g = p ? outline_in(p, x + 0.5, y + 0.5) : 0; bad |= g != w->in[z][y][x]; if (p) { int t = tri_in(p, x + 95.0 / 256, y + 151.0 / 256); bad |= (t == 1) != w->in[z][y][x]; if (t != g || g != w->in[z][y][x]) D("z %zu y %d x %d: path %d tri %d want %d\n", z, y, x, g, t, w->in[z][y][x]); } }
    }
    (void)0;
    CHECK(!bad, "a point is in a layer although it is not in the model, or the other way round"); sx_reach("layers");
}
void h_csg_layer(void)
{
    sx_opt("fp", 2); lenient(); W w; int opt = ch("options", 0, (int)sx_param("options", 2)); if (opt == 1) co.optimise = co.optimise & ~(unsigned)CP_CSG2_OPT_SKIP_EMPTY; if (opt == 2) co.max_simultaneous = 2;
    nb = (int)sx_param("first", 0); int depth = (int)sx_param("depth", 2); wnode(&w, depth); if (sx_param("more", 1) && ch("more", 0, 1)) { W c[2]; c[0] = w; wbox(&c[1], 3); wcomb(&w, 0, c, 2); }
    int ok = scene(); CHECK(ok, "scene is rejected"); layers_are(&w);
}
/* (a op b) op (c op d), and again with e: boxes of different heights, so that parts are missing in some layers */
static void wbin(W *w, W *a, W *b, int op) { W c[2]; c[0] = *a; c[1] = *b; wcomb(w, op, c, 2); }
void h_csg_nest(void)
{
    sx_opt("fp", 2); lenient(); symb = (int)sx_param("sym", 0); W w, a, b, x, y; int nest = (int)sx_param("nest", 2); int skip = ch("skip empty", 0, 1); if (!skip) co.optimise = co.optimise & ~(unsigned)CP_CSG2_OPT_SKIP_EMPTY;
    nb = ch("first", 0, 3); int side = ch("side", 0, 1), k0 = op_begin(0, 2);
    if (side) { wbox(&x, nb++ & 3); } int k1 = op_begin(0, 2);
    int k2 = op_begin(0, 2); wbox(&a, nb++ & 3); wbox(&b, nb++ & 3); put("}"); wbin(&y, &a, &b, k2);
    if (nest > 1) { int k3 = op_begin(0, 2); wbox(&a, nb++ & 3); wbox(&b, nb++ & 3); put("}"); wbin(&w, &a, &b, k3); } else wbox(&w, nb++ & 3);
    put("}"); wbin(&y, &y, &w, k1); if (!side) { wbox(&x, nb++ & 3); wbin(&w, &y, &x, k0); } else wbin(&w, &x, &y, k0); put("}");
    int ok = scene(); CHECK(ok, "scene is rejected"); layers_are(&w);
}
/* ---- expressions over plane shapes, extruded ---- */
static void wrect(W *w, int i)
{
    put("translate(["); if (i == 0) bx[0] = pdig(0, 4); else { bx[i] = BX[i][0]; pint(bx[i]); } put(","); pint(BX[i][2]); put("])square(["); pint(BX[i][1]); put(","); pint(BX[i][3]); put("]);");
    w->no = 1; for (int y = 0; y < 2; y++) for (int x = 0; x < 8; x++) w->in[0][y][x] = (unsigned char)((bx[i] <= x) & (x < bx[i] + BX[i][1]) & (BX[i][2] <= y) & (y < BX[i][2] + BX[i][3]));
}
/* plane shapes standing upright: the layers cut through the paths of the extrusion one after the other */
static void wupr(W *w, int i)
{
    put("translate(["); if (i == 0) bx[0] = pdig(0, 4); else { bx[i] = BX[i][0]; pint(bx[i]); } put(","); pint(BX[i][4]); put("])square(["); pint(BX[i][1]); put(","); pint(BX[i][5]); put("]);");
    memset(w, 0, sizeof *w); w->no = 1; for (int z = 0; z < 3; z++) for (int y = 0; y < 2; y++) for (int x = 0; x < 8; x++) w->in[z][y][x] = (unsigned char)((bx[i] <= x) & (x < bx[i] + BX[i][1]) & (BX[i][4] <= z) & (z < BX[i][4] + BX[i][5]));
}
static void unode(W *w, int depth)
{
    if (depth == 0 || (depth == 1 && ch("leaf", 0, 1))) { wupr(w, nb++ & 3); return; }
    static W c[3][3]; W *cc = c[depth]; int k = op_begin(0, 2); for (int i = 0; i < 2; i++) unode(&cc[i], depth - 1); put("}"); wcomb(w, k, cc, 2);
}
/* a frame with up to 3 holes, with a part inside of one of them, or the same as separate parts */
static void wframe(W *w)
{
    static int const H[4][4] = { { 0, 1, 1, 1 }, { 1, 3, 1, 2 }, { 5, 1, 2, 1 }, { 2, 1, 2, 1 } }; int fr = ch("frame", 0, 1), set = ch("holes", 1 - fr, 7), isle = (set & 2) && ch("isle", 0, 1); memset(w, 0, sizeof *w); w->no = 1;
    put(fr ? "union(){difference(){translate([-1,0])square([8,4]);union(){" : "difference(){union(){union(){");
    if (fr) for (int z = 0; z < 3; z++) for (int y = 0; y < 2; y++) for (int x = 0; x < 7; x++) w->in[z][y][x] = 1;
    for (int i = 0; i < 4; i++) if (i < 3 ? set >> i & 1 : isle) { int const *h = H[i]; if (i == 3) put("}}"); put("translate(["); pint(h[0]); put(","); pint(h[2]); put("])square(["); pint(h[1]); put(","); pint(h[3]); put("]);");
        for (int z = h[2]; z < h[2] + h[3] && z < 3; z++) for (int y = 0; y < 2; y++) for (int x = h[0]; x < h[0] + h[1]; x++) w->in[z][y][x] = (unsigned char)(i == 3 ? fr : !fr); }
    if (!isle) put("}}");
    put("}");
}
void h_csg_frame(void)
{
    sx_opt("fp", 2); lenient(); W w; int opt = ch("options", 0, 2); if (opt == 1) co.optimise = co.optimise & ~(unsigned)CP_CSG2_OPT_SKIP_EMPTY; if (opt == 2) co.max_simultaneous = 2;
    int more = ch("more", 0, 2); if (more == 2) put("difference(){"); put("translate([0,2,0])rotate([90,0,0])linear_extrude(height=2)"); wframe(&w);
    if (more) { W c[2]; c[0] = w; wbox(&c[1], 0); wcomb(&w, more - 1, c, 2); if (more == 2) put("}"); }
    int ok = scene(); CHECK(ok, "scene is rejected"); layers_are(&w);
}
void h_csg_upright(void)
{
    sx_opt("fp", 2); lenient(); W w; int opt = ch("options", 0, 2); if (opt == 1) co.optimise = co.optimise & ~(unsigned)CP_CSG2_OPT_SKIP_EMPTY; if (opt == 2) co.max_simultaneous = 2;
    int more = ch("more", 0, 2); if (more == 2) put("difference(){");
    put("translate([0,2,0])rotate([90,0,0])linear_extrude(height=2)union(){"); nb = ch("first", 0, 2); unode(&w, (int)sx_param("depth", 1));
    { W c[2]; c[0] = w; wupr(&c[1], nb++ & 3); wcomb(&w, 0, c, 2); } put("}");
    if (more) { W c[2]; c[0] = w; wbox(&c[1], 3); wcomb(&w, more - 1, c, 2); if (more == 2) put("}"); }
    int ok = scene(); CHECK(ok, "scene is rejected"); layers_are(&w);
}
static void pnode(W *w, int depth)
{
    memset(w, 0, sizeof *w);
    if (depth == 0 || (depth == 1 && ch("leaf", 0, 1))) { switch (ch("kind", 0, 2)) { case 0: wrect(w, nb++ & 3); break; case 1: put("*square(3);"); break; default: put("square(0);"); w->no = 1; } return; }
    static W c[3][3]; W *cc = c[depth]; int k = op_begin(0, 3); for (int i = 0; i < 2; i++) pnode(&cc[i], depth - 1); put("}"); wcomb(w, k, cc, 2);
}
void h_csg_plane(void)
{
    sx_opt("fp", 2); lenient(); W w; int opt = ch("options", 0, (int)sx_param("options", 1)); if (opt == 1) co.max_simultaneous = 2;
    put("linear_extrude(height=1){"); nb = 0; pnode(&w, (int)sx_param("depth", 2)); if (ch("more", 0, 1)) { W c[2]; c[0] = w; memset(&c[1], 0, sizeof c[1]); wrect(&c[1], 3); wcomb(&w, 0, c, 2); } put("}");
    int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *ps[9]; int np = 0;
    if (t3.root) for (size_t i = 0; i < t3.root->add.size; i++) { cp_csg_t *o = (cp_csg_t*)t3.root->add.data[i]; CHECK(t3.root->add.size == 1, "several objects from one extrusion");
        if (o->type == CP_CSG3_POLY) ps[np++] = cp_csg3_cast(cp_csg3_poly_t, o);
        else { cp_csg_xor_t *x = cp_csg_cast(cp_csg_xor_t, o); for (size_t j = 0; j < x->xor.size; j++) { CHECK(x->xor.data[j]->add.size == 1 && np < 9, "unexpected object"); ps[np++] = cp_csg3_cast(cp_csg3_poly_t, x->xor.data[j]->add.data[0]); } } }
    int bad = 0;
    for (int y = 0; y < 2; y++) for (int x = 0; x < 8; x++) { int in = 0; double px_ = x + 0.5, py_ = y + 0.5;
        for (int o = 0; o < np; o++) for (size_t f = 0; f < ps[o]->face.size; f++) { cp_a_vec3_loc_ref_t *q = &ps[o]->face.data[f].point; int lo = 0, hi = 0; for (size_t i = 0; i < q->size; i++) { double z = q->data[i].ref->coord.z; lo += z == 0; hi += z == 1; } CHECK((size_t)(lo + hi) == q->size, "a point is between the ends of the extrusion"); if (!lo || !hi) continue;
            for (size_t i = 0; i < q->size; i++) { cp_vec3_t *a = &q->data[i].ref->coord, *b = &q->data[i + 1 < q->size ? i + 1 : 0].ref->coord; if (a->z == 0 && b->z == 0) in ^= ((a->y > py_) != (b->y > py_)) & (a->x > px_); } }
        bad |= in != w.in[0][y][x]; }
    CHECK(!bad, "a point is in the extrusion although it is not in the shape, or the other way round"); sx_reach(np > 1 ? "several" : np ? "one" : "empty");
}
