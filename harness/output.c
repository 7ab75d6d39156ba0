/* C11, C12: output formats */
#include "cli.h"
#include "capture.h"
#define EPS (1.0/32768)
typedef struct { double v[3][3], n[3]; } tri_t;
static tri_t *TR; static int ntr, mtr;
/* ---- layers of the internal result ---- */
typedef struct { double z, z1; int npoly; cp_csg2_poly_t *p[16]; } lay_t;
static lay_t L[64]; static int nl, degen;
static void collect(int l, cp_v_obj_p_t *v)
{
    for (size_t i = 0; i < v->size; i++) { cp_csg2_t *o = cp_csg2_cast(cp_csg2_t, v->data[i]);
        switch (o->type) {
        case CP_CSG2_POLY: CHECK(L[l].npoly < 16, "too many polygons"); L[l].p[L[l].npoly++] = cp_csg2_cast(cp_csg2_poly_t, o); break;
        case CP_CSG2_ADD: collect(l, &cp_csg_cast(cp_csg_add_t, o)->add); break;
        default: CHECK(0, "unexpected object in a layer"); } }
}
static double gap, step_, thick;
static void layers(cp_csg2_tree_t *t, double dflt_gap)
{
    nl = 0; CHECK(t->root != NULL, "no layers"); cp_csg2_stack_t *s = cp_csg2_cast(cp_csg2_stack_t, t->root); double th = step_ - (gap < 0 ? dflt_gap : gap); if (th < 0) th = 0; degen = th < EPS; thick = th;
    for (size_t i = 0; i < s->layer.size; i++) { CHECK(nl < 64, "too many layers"); cp_csg2_layer_t *l = &s->layer.data[i]; if (!l->root || !l->root->add.size) continue; lay_t *q = &L[nl]; q->z = t->z.data[s->idx0 + i]; q->z1 = q->z + th; q->npoly = 0; collect(nl, &l->root->add); int has = 0; for (int k = 0; k < q->npoly; k++) has += q->p[k]->tri.size > 0; if (has) nl++; }
}
/* ---- scenes ---- */
static int sym; /* which coordinate is symbolic */
static void xl(int x, int y, int z) { int c[3] = { x, y, z }; put("translate(["); for (int i = 0; i < 3; i++) { if (i) put(","); if (i == sym) { sym = -1; pdig(0, 9); } else pint(c[i]); } put("])"); }
static void model(void)
{
    int k = ch("model", (int)sx_param("models0", 0), (int)sx_param("models", 8)); sym = ch("symbolic", 0, 2); if (k > 8 && (k != 11 || sym < 2)) { if (sym) sx_end(); sym = 3; } else if (k >= 2 && sym < 2) sym = ch("fixed", 0, 1) ? 3 : sym;
    switch (k) {
    case 0: xl(1, 2, 0); put("cube([2,1,1]);"); break;
    case 1: put("difference(){"); xl(2, 2, 0); put("cube([4,5,1]);translate([3,3,-5])cube([2,2,20]);}"); break;
    case 2: put("cube([2,2,1]);"); xl(0, 1, 4); put("cube([3,1,1]);"); break;
    case 3: put("cube([5,2,1]);"); xl(3, 1, 0); put("cube([1,6,1]);"); break;
    case 4: put("cube([2,2,1]);"); xl(2, 2, 0); put("cube([2,2,1]);"); break;
    case 5: xl(2, 2, 0); put("cylinder(h=1,r1=2,r2=1,$fn=5);"); break;
    case 6: xl(0, 0, 0); put("linear_extrude(height=1)polygon([[0,0],[9,0],[9,7],[6,7],[6,3],[3,3],[3,7],[0,7]]);"); break;
    case 7: put("difference(){cube([9,9,2]);"); xl(2, 2, 1); put("cube([3,3,9]);translate([6,6,-1])cube([1,1,9]);}"); break;
    case 9: { static char const *const FN[] = { "16", "17", "33", "64", "100" }; put("cylinder(h=1,r1=50,r2=40,$fn="); put(FN[ch("segments", 0, 4)]); put(");"); break; }
    case 10: for (int i = 0; i < 12; i++) { xl(i % 4 * 3, i / 4 * 3, i & 1); put(i & 2 ? "cube([2,2,1]);" : "difference(){cube([2,2,1]);translate([.5,.5,-1])cube([1,1,9]);}"); } break; /* open if it is shifted */
    case 11: xl(0, 0, 0); put("cube([2,3,"); pint(16 + ch("high", 0, 2)); put("]);"); break;
    default: put("difference(){cube([1,1,1]);"); xl(0, 0, 0); put("cube(9);}"); break;
    }
}
static void options(int maxgap, int maxgrid)
{
    static char const *const ST[] = { "--step=0.5", "--step=1", "--step=0.25" }; static double const SV[] = { 0.5, 1, 0.25 }; int k = ch("step", 0, (int)sx_param("steps", 1)); arg(ST[k]); step_ = SV[k];
    static char const *const GP[] = { "", "--layer-gap=0", "--layer-gap=0.125", "--layer-gap=3" }; static double const GV[] = { -1, 0, 0.125, 3 }; int g = ch("gap", 0, maxgap); gap = GV[g]; if (g) arg(GP[g]);
    int gr = ch("grid", 0, maxgrid); if (gr) arg(gr == 1 ? "--grid=64" : "--grid=1048576");
}
static double tol = EPS;
static int near_(double a, double b) { double d = a - b; return (d < tol) & (d > -tol); }
/* ---- the surfaces of the layers are closed, and what they enclose is right ---- */
static double area2(cp_csg2_poly_t *p) { double s = 0; for (size_t i = 0; i < p->tri.size; i++) { cp_vec2_t *a = &p->point.data[p->tri.data[i].p[0]].coord, *b = &p->point.data[p->tri.data[i].p[1]].coord, *c = &p->point.data[p->tri.data[i].p[2]].coord; double d = (b->x - a->x) * (c->y - a->y) - (b->y - a->y) * (c->x - a->x); s += d < 0 ? -d : d; } return s; }
static int *lay; static double (*V)[3], (*W)[3], *idx_;
static void room(int n) { mtr = n; TR = malloc((size_t)n * sizeof *TR); lay = malloc((size_t)n * sizeof *lay); V = malloc((size_t)n * sizeof *V); W = malloc((size_t)n * sizeof *W); idx_ = malloc((size_t)n * sizeof *idx_); }
static int solid(void)
{
    int bad = 0;
    for (int i = 0; i < ntr; i++) { tri_t *t = &TR[i]; double u[3], w[3], c[3]; for (int k = 0; k < 3; k++) { u[k] = t->v[1][k] - t->v[0][k]; w[k] = t->v[2][k] - t->v[0][k]; }
        c[0] = u[1]*w[2] - u[2]*w[1]; c[1] = u[2]*w[0] - u[0]*w[2]; c[2] = u[0]*w[1] - u[1]*w[0]; double *n = t->n;
        bad |= n[0]*c[0] + n[1]*c[1] + n[2]*c[2] <= 0; bad |= !near_(n[0]*n[0] + n[1]*n[1] + n[2]*n[2], 1); bad |= !near_(n[1]*c[2] - n[2]*c[1], 0) | !near_(n[2]*c[0] - n[0]*c[2], 0) | !near_(n[0]*c[1] - n[1]*c[0], 0); }
    CHECK(!bad, "normal does not agree with the order of the vertices");
    /* which layer is it? */
    for (int i = 0; i < ntr; i++) { tri_t *t = &TR[i]; int f = -1; 
        for (int l = 0; l < nl && f < 0; l++) { int ok = 1, lo = 0, hi = 0; for (int v = 0; v < 3; v++) { int a = near_(t->v[v][2], L[l].z), b = near_(t->v[v][2], L[l].z1); ok &= a | b; lo |= a; hi |= b; } int flat = !lo | !hi; ok &= !flat | (lo & (t->n[2] < 0)) | (hi & (t->n[2] > 0)); if (ok) f = l; }
        CHECK(f >= 0, "triangle is not at the height of a layer"); lay[i] = f; }
    for (int l = 0; l < nl; l++) {
        double vol = 0, full = 0; for (int k = 0; k < L[l].npoly; k++) full += area2(L[l].p[k]); int open = 0;
        for (int i = 0; i < ntr; i++) if (lay[i] == l) { double (*v)[3] = TR[i].v; vol += v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
            for (int e = 0; e < 3; e++) { double *a = v[e], *b = v[(e + 1) % 3]; int c = 0; for (int j = 0; j < ntr; j++) if (lay[j] == l) for (int g = 0; g < 3; g++) { double *p = TR[j].v[g], *q = TR[j].v[(g + 1) % 3]; int ap = (a[0] == p[0]) & (a[1] == p[1]) & near_(a[2], p[2]), aq = (a[0] == q[0]) & (a[1] == q[1]) & near_(a[2], q[2]), bp = (b[0] == p[0]) & (b[1] == p[1]) & near_(b[2], p[2]), bq = (b[0] == q[0]) & (b[1] == q[1]) & near_(b[2], q[2]); c += (ap & bq) - (aq & bp); } open |= c != 0; } }
        CHECK(!open, "surface is not closed"); bad |= !near_(vol / 6, full / 2 * thick); }
    return bad;
}
/* ---- STL ---- */
static void rd3(double *p) { for (int i = 0; i < 3; i++) p[i] = num(); }
static void stl_end(int rc)
{
    CHECK(rc == 0, "the program fails"); if (got.count == 0) { sx_reach("nothing"); return; } CHECK(got.kind == GOT_STL && !got.bin, "wrong output format"); cp_csg2_tree_t *t = got.tree; layers(t, 0.01);
    cap_reset(); cp_csg2_tree_put_stl(&cap, t, false); read_start(); need("solid"); if (!at("facet") && !at("endsolid")) rp++; ntr = 0;
    while (!rbad && opt_("facet")) { CHECK(ntr < mtr, "too many triangles"); tri_t *q = &TR[ntr++]; need("normal"); rd3(q->n); need("outer"); need("loop"); for (int i = 0; i < 3; i++) { need("vertex"); rd3(q->v[i]); } need("endloop"); need("endfacet"); }
    need("endsolid"); if (rp < ntk) rp++; CHECK(!rbad && rp == ntk, "text is not STL"); int low = 0; for (int i = 0; i < ntk; i++) low |= TK[i].num && TK[i].prec < 9; CHECK(!low, "numbers are written with too few digits");
    if (!nl) { CHECK(ntr == 0, "triangles without layers"); sx_reach("nothing"); return; }
    if (degen) { int n = 0; for (int l = 0; l < nl; l++) for (int k = 0; k < L[l].npoly; k++) n += (int)L[l].p[k]->tri.size; CHECK(n == ntr, "degenerate layers are incomplete"); sx_reach("degenerate"); }
    else { int bad = solid(); CHECK(!bad, "layer does not have its volume"); sx_reach("closed"); }
    /* the binary form */
    cap_reset(); cp_csg2_tree_put_stl(&cap, t, true); CHECK(ntk == 0 && ncur == 0, "text in a binary file"); CHECK(nbin == 84 + 50 * (size_t)ntr, "binary file has a wrong size"); unsigned cnt = bin_[80] | bin_[81] << 8 | bin_[82] << 16 | (unsigned)bin_[83] << 24; CHECK(cnt == (unsigned)ntr, "binary file has a wrong count"); int bad = !memcmp(bin_, "solid", 5);
    for (int i = 0; i < ntr; i++) { unsigned char *p = bin_ + 84 + 50 * i; tri_t *q = &TR[i]; for (int k = 0; k < 12; k++) { unsigned u = p[4*k] | p[4*k+1] << 8 | p[4*k+2] << 16 | (unsigned)p[4*k+3] << 24; float f = (float)(k < 3 ? q->n[k] : q->v[k / 3 - 1][k % 3]); unsigned w; memcpy(&w, &f, 4); bad |= u != w; } bad |= p[48] | p[49]; }
    CHECK(!bad, "binary and text differ"); sx_reach("binary");
}
void h_out_stl(void) { sx_opt("fp", 2); sx_opt("maxinstr", 2000000000); room(3000); options(3, 1); model(); arg("--dump-stl"); at_end = stl_end; tool("f.scad"); CHECK(0, "the program does not end"); }
/* ---- SCAD ---- */
static void csg2_end(int rc)
{
    CHECK(rc == 0, "the program fails"); if (got.count == 0) { sx_reach("nothing"); return; } CHECK(got.kind == GOT_CSG2, "wrong output format"); cp_csg2_tree_t *t = got.tree; layers(t, 0);
    cap_reset(); cp_csg2_tree_put_scad(&cap, t); read_start(); if (!nl && rp == ntk) { sx_reach("nothing"); return; }
    int l = 0, bad = 0; need("group"); need("("); need(")"); need("{");
    while (!rbad && opt_("translate")) {
        CHECK(l < nl, "too many layers"); need("("); need("["); bad |= (num() != 0); need(","); bad |= (num() != 0); need(","); bad |= !near_(num(), L[l].z); need("]"); need(")"); need("{"); int k = 0;
        while (!rbad && opt_("linear_extrude")) {
            while (k < L[l].npoly && !L[l].p[k]->tri.size) k++;
            CHECK(k < L[l].npoly, "too many polygons"); cp_csg2_poly_t *p = L[l].p[k++]; need("(");
            while (!rbad && !at(")")) { if (opt_("height")) { need("="); bad |= !near_(num(), thick); } else if (opt_("center")) { need("="); if (!opt_("false")) bad |= num() != 0; } else if (opt_("twist")) { need("="); bad |= num() != 0; } else if (opt_("convexity")) { need("="); num(); } else rbad = 1; if (!opt_(",")) break; }
            need(")"); need("polygon"); need("("); need("points"); need("="); need("["); size_t i = 0;
            while (!rbad && opt_("[")) { CHECK(i < p->point.size, "too many points"); double x = num(); need(","); double y = num(); need("]"); bad |= !near_(x, p->point.data[i].coord.x) | !near_(y, p->point.data[i].coord.y); i++; if (!opt_(",")) break; }
            CHECK(rbad || i == p->point.size, "points are missing"); need("]"); need(","); need("paths"); need("="); need("["); i = 0;
            while (!rbad && opt_("[")) { CHECK(i < p->tri.size, "too many paths"); for (int m = 0; m < 3; m++) { if (m) need(","); double x = num(); bad |= !(x == (double)p->tri.data[i].p[m]); bad |= !(x < (double)p->point.size); } need("]"); i++; if (!opt_(",")) break; }
            CHECK(rbad || i == p->tri.size, "triangles are missing"); need("]"); need(")"); need(";"); }
        need("}"); int rest = 0; for (; k < L[l].npoly; k++) rest |= L[l].p[k]->tri.size > 0; CHECK(rbad || !rest, "polygons are missing"); l++; }
    need("}"); CHECK(!rbad && rp == ntk, "text is not a scene"); CHECK(l == nl, "layers are missing"); CHECK(!bad, "layers are written wrongly"); int low = 0; for (int i = 0; i < ntk; i++) low |= TK[i].num && TK[i].prec < 15; CHECK(!low, "numbers are written with too few digits"); sx_reach("layers");
}
void h_out_csg2(void) { sx_opt("fp", 2); room(3000); options(2, 1); model(); arg("--dump-csg2"); at_end = csg2_end; tool("f.scad"); CHECK(0, "the program does not end"); }
/* ---- JavaScript ---- */
static int rooted;
static double xf[16] = { 1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1 };
/* a root inside of transformations that the viewer has to apply */
static void root(void)
{
    int k = ch("root", 0, 3); if (!k) return; if (k == 3) { put("scale(3)rotate(9)!"); return; } arg("--js-keep-ctxt"); rooted = 1; if (k == 1) { put("multmatrix([[1,0.123456789012,0,1.23456789012],[0,2.00000012345,0,-33.3333333333],[0.25,0,1,1234567.125]])!"); double const x[16] = { 1,0,0.25,0, 0.123456789012,2.00000012345,0,0, 0,0,1,0, 0.00123456789012,-0.0333333333333,1234.567125,1 }; memcpy(xf, x, sizeof xf); }
    else { put("scale(1048577)!"); xf[0] = xf[5] = xf[10] = 1048577; }
}
static void js_read(double scale)
{
    ntr = 0; int bad = 0; read_start();
    while (!rbad && opt_("scene.push")) {
        need("("); need("{"); int nv = 0, nn = 0, nc = 0, ni = 0, sc = 0, sx = 0; double shift = 0, last = 0; double *idx = idx_;
        while (!rbad && opt_("'")) {
            if (opt_("group")) { need("'"); need(":"); need("{"); while (!rbad && !at("}")) rp++; need("}"); }
            else if (opt_("scaleV")) { need("'"); need(":"); double s = num(), e = s - 1000 * scale; bad |= (e > 1e-9 * s) | (e < -1e-9 * s); sc = 1; }
            else if (opt_("scaleC")) { need("'"); need(":"); bad |= num() != 255; }
            else if (opt_("shiftI")) { need("'"); need(":"); shift = num(); }
            else if (opt_("xform")) { sx = 1; need("'"); need(":"); need("["); for (int i = 0; i < 16; i++) { if (i) need(","); double e = num() - xf[i]; bad |= (e > 1e-12) | (e < -1e-12); } need("]"); }
            else if (opt_("vertex")) { need("'"); need(":"); need("["); do { CHECK(nv < mtr, "too many vertices"); for (int i = 0; i < 3; i++) { if (i) need(","); V[nv][i] = num() / scale; } nv++; } while (!rbad && opt_(",")); need("]"); }
            else if (opt_("normal")) { need("'"); need(":"); need("["); do { CHECK(nn < mtr, "too many normals"); for (int i = 0; i < 3; i++) { if (i) need(","); W[nn][i] = num() / (1000 * scale); } nn++; } while (!rbad && opt_(",")); need("]"); }
            else if (opt_("color")) { need("'"); need(":"); need("["); do { for (int i = 0; i < 4; i++) { if (i) need(","); double c = num(); bad |= (c < 0) | (c > 255); } nc++; } while (!rbad && opt_(",")); need("]"); }
            else if (opt_("index")) { need("'"); need(":"); need("["); do { CHECK(ni < mtr, "too many indices"); last += num() - shift; idx[ni++] = last; } while (!rbad && opt_(",")); need("]"); }
            else rbad = 1;
            need(","); }
        need("}"); need(")"); need(";"); if (rbad) break; CHECK(sc && sx == rooted && nv == nn && nv == nc && ni % 3 == 0 && ni > 0 && nv <= 65535, "a group is not complete");
        for (int i = 0; i < ni; i += 3) { CHECK(ntr < mtr, "too many triangles"); for (int k = 0; k < 3; k++) { CHECK(idx[i + k] >= 0 && idx[i + k] < nv, "index of no vertex"); int v = (int)idx[i + k]; for (int c = 0; c < 3; c++) { TR[ntr].v[k][c] = V[v][c]; if (!k) TR[ntr].n[c] = W[v][c]; else bad |= TR[ntr].n[c] != W[v][c]; } } ntr++; } }
    CHECK(!rbad && rp == ntk, "text is not JavaScript of a scene"); CHECK(!bad, "scene is written wrongly");
}
static void js_end(int rc)
{
    CHECK(rc == 0, "the program fails"); if (got.count == 0) { sx_reach("nothing"); return; } CHECK(got.kind == GOT_JS, "wrong output format"); cp_csg2_tree_t *t = got.tree; layers(t, 0); cap_reset(); cp_csg2_tree_put_js(&cap, t); js_read(cq_dim_scale);
    if (!nl) { CHECK(ntr == 0, "triangles without layers"); sx_reach("nothing"); return; }
    tol = 2 / cq_dim_scale; if (tol < EPS) tol = EPS; int bad = solid(); CHECK(!bad, "layer does not have its volume"); sx_reach("closed");
}
void h_out_js(void) { sx_opt("fp", 2); room(3000); options(2, 2); root(); model(); arg("--dump-js"); at_end = js_end; tool("f.scad"); CHECK(0, "the program does not end"); }
/* many triangles: several groups */
void h_out_js_many(void)
{
    sx_opt("maxinstr", 3000000000ul);
    int n = ch("triangles", 0, 6), holes = ch("flat", 0, 1); static int const N_[] = { 1, 10921, 10922, 10923, 21845, 21846, 22000 }; int m = N_[n]; static cp_csg_opt_t o = CP_CSG_OPT_DEFAULT; if (holes) o.layer_gap = 100; cp_csg2_tree_t t = { .opt = &o, .thick = 1 }; cp_csg2_stack_t *s = cp_csg2_new(*s, (cp_loc_t)0); t.root = cp_csg2_cast(cp_csg2_t, s);
    static double z1[1] = { 5 }; static size_t f1[1] = { CP_CSG2_FLAG_NON_EMPTY }; t.z.data = z1; t.z.size = 1; t.flag.data = f1; t.flag.size = 1; s->layer.data = calloc(1, sizeof *s->layer.data); s->layer.size = 1; cp_csg_add_t *a = cp_csg_new(*a, (cp_loc_t)0); s->layer.data[0].root = a; cp_csg2_poly_t *p = cp_csg2_new(*p, (cp_loc_t)0); cp_v_push(&a->add, cp_obj(p));
    cp_v_init0(&p->point, (size_t)m + 2); for (int i = 0; i < m + 2; i++) { p->point.data[i].coord.x = i; p->point.data[i].coord.y = i & 1; } cp_v_init0(&p->tri, (size_t)m); for (int i = 0; i < m; i++) { size_t q[3] = { (size_t)i, (size_t)i + 1, (size_t)i + 2 }; memcpy(p->tri.data[i].p, q, sizeof q); }
    room(200000); cap_size(MAXTOK_BIG); cap_reset(); cp_csg2_tree_put_js(&cap, &t); js_read(cq_dim_scale); CHECK(ntr == (holes ? m : 2 * m), "wrong number of triangles"); int bad = 0; for (int i = 0; i < ntr; i++) { int k = i % m, top = !holes && i < m; for (int v = 0; v < 3; v++) { int id = k + (top && v < 2 ? 1 - v : v); bad |= (TR[i].v[v][0] != id) | (TR[i].v[v][1] != (id & 1)) | (TR[i].v[v][2] != (top ? 6 : 5)); } bad |= TR[i].n[2] != (top ? 1 : -1); }
    CHECK(!bad, "triangles are written wrongly"); sx_reach("many");
}
/* ---- PostScript ---- */
static int pmode; static double bbx[2][2], bbf[2][2];
static void ps_end(int rc)
{
    CHECK(rc == 0, "the program fails"); if (got.count == 0) { sx_reach("nothing"); return; } CHECK(got.kind == GOT_PS, "wrong output format"); cp_csg2_tree_t *t = got.tree; layers(t, 0); cap_reset(); cp_csg2_tree_put_ps(&cap, got.ps, t); read_start();
    int multi = !(pmode & 1), fit = pmode >> 1; double mx = 72 / 25.4, ax = 297, ay = 421, my; if (fit) { double (*b)[2] = fit == 1 ? bbx : bbf, w = b[1][0] - b[0][0], h = b[1][1] - b[0][1], p = 539 / w, q = 786 / h; mx = p < q ? p : q; ax = 297 - mx * (b[0][0] + b[1][0]) / 2; ay = 421 - mx * (b[0][1] + b[1][1]) / 2; } my = mx;
    int page = 0, open = 0, bad = 0, l = -1, k = 0; size_t i = 0, pts = 0; double st[64], cx[3], cy[3], x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9, bb[4]; int n = 0, m = 0, closed = 0, grs = 0, havebb = 0, pages = -1, npts = 0, wantpts = 0; int gs_m = 0;
    if (!multi) l = 0;
    while (rp < ntk && !rbad) {
        if (TK[rp].num) { CHECK(n < 64, "too many numbers"); st[n++] = TK[rp++].v; continue; }
        char const *w = words + TK[rp++].s;
        if (w[0] == '%') { 
            if (!strcmp(w, "%%Page")) { need(":"); double a = num(), b = num(); page++; bad |= (a != page) | (b != page); CHECK(!open, "page is not ended"); open = 1; if (multi) { l = page - 1; k = 0; i = 0; CHECK(l < nl, "too many pages"); } }
            else if (!strcmp(w, "%%Pages")) { need(":"); if (opt_("atend")) {} else pages = (int)num(); }
            else if (!strcmp(w, "%%BoundingBox")) { need(":"); if (opt_("atend")) {} else { for (int q = 0; q < 4; q++) bb[q] = num(); havebb = 1; } }
            else if (w[1] == '%' || w[1] == '!') { if (at(":")) while (rp < ntk && !TK[rp].num && words[TK[rp].s] != '%') rp++; }
            else { need(":"); num(); } n = 0; continue; }
        if (!strcmp(w, "newpath")) { m = 0; closed = 0; }
        else if (!strcmp(w, "moveto") || !strcmp(w, "lineto")) { CHECK(n >= 2 && m < 3, "wrong path"); cx[m] = st[n - 2]; cy[m++] = st[n - 1]; n = 0; }
        else if (!strcmp(w, "closepath")) closed = 1;
        else if (!strcmp(w, "arc")) { CHECK(n == 5, "wrong arc"); m = -1; cx[0] = st[0]; cy[0] = st[1]; bad |= (st[3] != 0) | (st[4] != 360); n = 0; }
        else if (!strcmp(w, "setrgbcolor")) { CHECK(n == 3, "wrong color"); for (int q = 0; q < 3; q++) bad |= (st[q] < 0) | (st[q] > 1); n = 0; }
        else if (!strcmp(w, "gsave")) gs_m = m;
        else if (!strcmp(w, "grestore")) { m = gs_m; grs++; }
        else if (!strcmp(w, "fill")) {
            CHECK(open, "drawing outside of a page"); if (m == -1) { npts++; m = 0; continue; } CHECK(m == 3 && closed, "not a triangle"); 
            for (;;) { CHECK(l < nl, "too many triangles"); if (k < L[l].npoly && i < L[l].p[k]->tri.size) break; i = 0; if (++k >= L[l].npoly) { k = 0; CHECK(!multi, "too many triangles"); l++; } }
            cp_csg2_poly_t *p = L[l].p[k]; for (int v = 0; v < 3; v++) { cp_vec2_t *c = &p->point.data[p->tri.data[i].p[v]].coord; double dx = cx[v] - (ax + mx * c->x), dy = cy[v] - (ay + my * c->y); bad |= (dx > 0.01) | (dx < -0.01) | (dy > 0.01) | (dy < -0.01); if (cx[v] < x0) x0 = cx[v]; if (cx[v] > x1) x1 = cx[v]; if (cy[v] < y0) y0 = cy[v]; if (cy[v] > y1) y1 = cy[v]; }
            i++; pts++; }
        else if (!strcmp(w, "stroke")) m = 0;
        else if (!strcmp(w, "showpage")) { CHECK(open, "page is not begun"); open = 0; }
        else if (!strcmp(w, "(")) { while (rp < ntk && !at(")")) rp++; need(")"); n = 0; }
        else if (!strcmp(w, "show")) m = 0;
        else n = 0; }
    CHECK(!rbad && !open, "text is not PostScript"); size_t all = 0; for (int q = 0; q < nl; q++) for (int z = 0; z < L[q].npoly; z++) { all += L[q].p[z]->tri.size; wantpts += (int)L[q].p[z]->point.size; }
    CHECK(pts == all, "triangles are missing"); CHECK(npts == wantpts || npts == 0, "points are missing"); CHECK(pages == page && page == (multi ? nl : 1), "wrong number of pages"); CHECK(!bad, "layers are written wrongly"); (void)grs;
    if (!all) { sx_reach("nothing"); return; } CHECK(havebb, "no bounding box"); bad = (bb[0] > x0 + 0.01) | (bb[1] > y0 + 0.01) | (bb[2] < x1 - 0.01) | (bb[3] < y1 - 0.01) | (bb[0] < x0 - 1.01) | (bb[1] < y0 - 1.01) | (bb[2] > x1 + 1.01) | (bb[3] > y1 + 1.01); CHECK(!bad, "bounding box is wrong"); 
    if (fit) { bad = (x0 < -0.01) | (y0 < -0.01) | (x1 > 595.01) | (y1 > 842.01); CHECK(!bad, "drawing is larger than the page"); } sx_reach("pages");
}
void h_out_ps(void)
{
    room(3000);     sx_opt("fp", 2); options(0, 1); pmode = ch("mode", 0, 5); if (pmode & 1) arg("--ps-single-page"); if (pmode >> 1 == 1) arg("--ps-scale-fit"); if (pmode >> 1 == 2) arg("--ps-scale-max"); model(); 
    if (pmode >> 1) { /* what the page is scaled for */ int ok = scene(); CHECK(ok, "scene"); cp_vec3_minmax_t b = CP_VEC3_MINMAX_EMPTY, f = CP_VEC3_MINMAX_EMPTY; cp_csg3_tree_minmax(&b, &t3, false); cp_csg3_tree_minmax(&f, &t3, true); for (int i = 0; i < 2; i++) { bbx[0][i] = b.min.v[i]; bbx[1][i] = b.max.v[i]; bbf[0][i] = f.min.v[i]; bbf[1][i] = f.max.v[i]; } memset(&t3, 0, sizeof t3); memset(&in_, 0, sizeof in_); memset(&tree_, 0, sizeof tree_); memset(&st_, 0, sizeof st_); }
    arg("--dump-ps"); at_end = ps_end; tool("f.scad"); CHECK(0, "the program does not end");
}
