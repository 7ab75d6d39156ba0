/* C13: transformations; C14: primitive solids */
#include "scene.h"
typedef struct { double m[3][4]; } M;
static M id(void) { M r = {{{1,0,0,0},{0,1,0,0},{0,0,1,0}}}; return r; }
static M mul(M a, M b) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) { double s = j == 3 ? a.m[i][3] : 0; for (int k = 0; k < 3; k++) s += a.m[i][k] * b.m[k][j]; r.m[i][j] = s; } return r; }
static double det(M a) { return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]); }
static M rot(int ax, double deg) { M r = id(); double c = cos(deg * 3.14159265358979323846 / 180), s = sin(deg * 3.14159265358979323846 / 180); if (fmod(deg, 90) == 0) { int q = ((int)(deg / 90) % 4 + 4) % 4; c = q == 0 ? 1 : q == 2 ? -1 : 0; s = q == 1 ? 1 : q == 3 ? -1 : 0; }
    int a = (ax + 1) % 3, b = (ax + 2) % 3; r.m[a][a] = c; r.m[b][b] = c; r.m[a][b] = -s; r.m[b][a] = s; return r; }
/* rotation about any axis (Rodrigues) */
static M rotv(double x, double y, double z, double deg)
{
    double l = sqrt(x*x + y*y + z*z); x /= l; y /= l; z /= l; M q = rot(2, deg); double c = q.m[0][0], s = q.m[1][0], t = 1 - c;
    M r = {{{ t*x*x + c, t*x*y - s*z, t*x*z + s*y, 0 }, { t*x*y + s*z, t*y*y + c, t*y*z - s*x, 0 }, { t*x*z - s*y, t*y*z + s*x, t*z*z + c, 0 }}}; return r;
}
static bool exact_only; /* only maps with exactly representable entries */
static bool axis_only; /* mirrors at axis planes only */
static M modifier_(int k0, int k1);
static M modifier(void) { return modifier_((int)sx_param("mod0", 0), (int)sx_param("mod1", 9)); }
static M modifier_(int k0, int k1)
{
    M r = id(); static double const ANG[] = { 90, -90, 180, 270, 30, 200, -37.5 }; int na = exact_only ? 4 : 7;
    switch (ch("mod", k0, k1)) {
    case 0: put("translate(["); r.m[0][3] = pdig(0, 9); put(",-"); r.m[1][3] = -pdig(0, 9); put(","); r.m[2][3] = pdig(0, 9); put("])"); break;
    case 1: { static double const S[][3] = { {2,3,5}, {-1,2,1}, {0.5,0.5,-0.25}, {1,1,-1}, {-2,-1,1}, {0.0625,-0.125,0.0625}, {-0.0625,-0.03125,-0.0625} }; int k = ch("scale", 0, 6); put("scale(["); for (int i = 0; i < 3; i++) { if (i) put(","); pdbl(S[k][i]); r.m[i][i] = S[k][i]; } put("])"); break; }
    case 2: { put("scale("); pint(3); put(")"); for (int i = 0; i < 3; i++) r.m[i][i] = 3; break; }
    case 3: { static int const V[][3] = { {1,0,0}, {0,-2,0}, {0,0,3}, {1,1,0}, {0,1,-1}, {1,2,2} }; int k = ch("mirror", 0, axis_only ? 2 : exact_only ? 4 : 5); put("mirror(["); int l = 0; for (int i = 0; i < 3; i++) { if (i) put(","); pint(V[k][i]); l += V[k][i] * V[k][i]; } put("])"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] -= 2. * V[k][i] * V[k][j] / l; break; }
    case 4: { double a = ANG[ch("angle", 0, na - 1)]; put("rotate("); pdbl(a); put(")"); r = rot(2, a); break; }
    case 5: { double a[3]; for (int i = 0; i < 3; i++) a[i] = 0; int k = ch("axes", 1, 7); put("rotate(["); for (int i = 0; i < 3; i++) { if (i) put(","); if (k >> i & 1) a[i] = ANG[i == 1 ? ch("angle", 0, na - 1) : exact_only ? i : 3 * i]; pdbl(a[i]); } put("])"); r = mul(rot(2, a[2]), mul(rot(1, a[1]), rot(0, a[0]))); break; }
    case 6: { static int const V[][3] = { {0,0,1}, {0,0,-1}, {0,1,0}, {1,0,0}, {-1,0,0}, {0,-3,0}, {1,2,3}, {0,1,1}, {0,0,0} }; int k = ch("axis", 0, exact_only ? 5 : 7); double a = ANG[ch("angle", 0, na - 1)]; put("rotate(a="); pdbl(a); put(",v=["); for (int i = 0; i < 3; i++) { if (i) put(","); pint(V[k][i]); } put("])"); r = rotv(V[k][0], V[k][1], V[k][2], a); if (exact_only) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = nearbyint(r.m[i][j]); break; }
    case 7: { static double const Q[][12] = { {1,0.5,0,0, 0,1,0,0, 0,0.25,1,0}, {0,1,0,0, 1,0,0,0, 0,0,1,0}, {2,0,1,0, 0,-1,0,0, 1,0,1,0} }; int k = ch("matrix", 0, 2), n4 = ch("rows", 0, 1); put("multmatrix(["); for (int i = 0; i < 3; i++) { put(i ? ",[" : "["); for (int j = 0; j < 3; j++) { if (j) put(","); pdbl(Q[k][i * 4 + j]); r.m[i][j] = Q[k][i * 4 + j]; } put(","); r.m[i][3] = pdig(0, 9); put("]"); } if (n4) put(",[0,0,0,1]"); put("])"); break; }
    case 8: put("color(\"red\")"); break;
    case 9: put("group()"); break;
    }
    return r;
}
/* ---- the resulting solid ---- */
static cp_csg3_poly_t *only(void)
{
    CHECK(t3.root && t3.root->add.size == 1 && t3.root->add.data[0]->type == CP_CSG3_POLY, "not one polyhedron");
    return cp_csg3_cast(cp_csg3_poly_t, t3.root->add.data[0]);
}
static size_t idx(cp_csg3_poly_t *p, cp_vec3_loc_ref_t *r) { size_t i = (size_t)(r->ref - p->point.data); CHECK(i < p->point.size, "face refers to a point that does not exist"); return i; }
/* closed: every directed edge has exactly one opposite; returns 6 times the volume, positive if faces are clockwise from outside */
static void edges(cp_csg3_poly_t *p)
{
    enum { MP = 1200 }; static unsigned char e_[MP * MP]; size_t n = p->point.size; CHECK(n <= MP, "too many points"); memset(e_, 0, n * n); int bad = 0;
    for (size_t f = 0; f < p->face.size; f++) { cp_a_vec3_loc_ref_t *q = &p->face.data[f].point; CHECK(q->size >= 3, "face with less than three points");
        for (size_t i = 0; i < q->size; i++) { size_t a = idx(p, &q->data[i]), b = idx(p, &q->data[i + 1 < q->size ? i + 1 : 0]); bad |= a == b || e_[a * n + b]; e_[a * n + b] = 1; } }
    for (size_t a = 0; a < p->point.size; a++) for (size_t b = 0; b < p->point.size; b++) bad |= e_[a * n + b] && !e_[b * n + a];
    CHECK(!bad, "solid is not closed or its faces are not consistently oriented");
}
static double closed(cp_csg3_poly_t *p)
{
    double vol = 0; edges(p);
    for (size_t f = 0; f < p->face.size; f++) { cp_a_vec3_loc_ref_t *q = &p->face.data[f].point;
        for (size_t i = 1; i + 1 < q->size; i++) { double *a = q->data[0].ref->coord.v, *b = q->data[i].ref->coord.v, *c = q->data[i + 1].ref->coord.v; double o[3]; for (int k = 0; k < 3; k++) o[k] = p->point.data[0].coord.v[k];
            double u[3], v[3], w[3]; for (int k = 0; k < 3; k++) { u[k] = a[k] - o[k]; v[k] = b[k] - o[k]; w[k] = c[k] - o[k]; }
            vol -= u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]); } }
    return vol;
}
#define TOL (1.0/1048576)
static double tol = TOL;
/* each expected point occurs exactly once and no other point does */
static void points(cp_csg3_poly_t *p, double (*x)[3], int n, M m)
{
    CHECK(p->point.size == (size_t)n, "wrong number of points"); int bad = 0; unsigned used = 0;
    for (int i = 0; i < n; i++) { double e[3]; for (int r = 0; r < 3; r++) e[r] = m.m[r][0] * x[i][0] + m.m[r][1] * x[i][1] + m.m[r][2] * x[i][2] + m.m[r][3];
        int hit = 0; for (int j = 0; j < n; j++) { double *c = p->point.data[j].coord.v; int h = 1; for (int r = 0; r < 3; r++) { double d = c[r] - e[r]; h &= (d < tol) & (d > -tol); } hit += h; }
        D("e %g %g %g hit %d\n", e[0], e[1], e[2], hit); bad |= hit != 1; }
    (void)used; CHECK(!bad, "a point is not where the transformations put it");
}
/* box under any chain of modifiers */
void h_xf_cube(void)
{
    sx_opt("fp", 2);
    int depth = ch("depth", 1, (int)sx_param("depth", 2)); exact_only = sx_param("exact", 1); M m = id();
    for (int i = 0; i < depth; i++) m = mul(m, modifier());
    put("cube([2,3,4]);"); int ok = scene(); CHECK(ok, "scene is rejected");
    static double c[8][3]; for (int i = 0; i < 8; i++) { c[i][0] = i & 1 ? 2 : 0; c[i][1] = i & 2 ? 3 : 0; c[i][2] = i & 4 ? 4 : 0; }
    cp_csg3_poly_t *p = only(); points(p, c, 8, m); double v = closed(p), w = 6 * 24 * fabs(det(m)); D("vol %g %g\n", v, w);
    CHECK(v > w * (1 - 1e-6) && v < w * (1 + 1e-6), "faces do not point outward"); sx_reach(det(m) < 0 ? "reversing" : "preserving");
}
/* polyhedron with symbolic points under one modifier */
void h_xf_poly(void)
{
    sx_opt("fp", 2);
    exact_only = axis_only = true; M m = modifier(); int f = ch("facedir", 0, 1), all = f ? ch("all", 0, 1) : 1, s = all ? 0 : ch("coordinate", 0, 11);
    static double c[4][3]; put("polyhedron(points=[");
    for (int i = 0; i < 4; i++) { put(i ? ",[" : "["); for (int k = 0; k < 3; k++) { if (k) put(","); c[i][k] = 10 * (i == k + 1); if (i == k + 1) put("1"); if (all || s == i * 3 + k) c[i][k] += pdig(0, 9); else put("0"); } put("]"); }
    put(f ? "],faces=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);" : "],faces=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]],convexity=4);");
    int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only(); points(p, c, 4, m); if (all) edges(p); else { double v = closed(p), g = 1000, w; for (int i = 1; i < 4; i++) if (s == i * 3 + i - 1) g = 100 * c[i][i - 1]; if (s < 3) g = 100 * (10 - c[0][s]); w = g * fabs(det(m)); D("vol %g %g\n", v, w); CHECK(v > w * (1 - 1e-6) && v < w * (1 + 1e-6), "faces do not point outward"); sx_reach("volume"); } sx_reach("tetrahedron");
}

/* ---- several objects under nested modifiers and operations: every leaf is where its own chain puts it ---- */
static cp_csg3_poly_t *leaf[8]; static cp_csg3_sphere_t *ball[8]; static int nleaf;
static void leaves(cp_v_obj_p_t *v);
static void leaves1(cp_csg_t *o)
{
    CHECK(nleaf < 8, "too many objects");
    switch (o->type) {
    case CP_CSG3_POLY: leaf[nleaf++] = cp_csg3_cast(cp_csg3_poly_t, o); break;
    case CP_CSG3_SPHERE: ball[nleaf++] = cp_csg3_cast(cp_csg3_sphere_t, o); break;
    case CP_CSG_ADD: leaves(&cp_csg_cast(cp_csg_add_t, o)->add); break;
    case CP_CSG_SUB: leaves(&cp_csg_cast(cp_csg_sub_t, o)->add->add); leaves(&cp_csg_cast(cp_csg_sub_t, o)->sub->add); break;
    case CP_CSG_CUT: { cp_csg_cut_t *c = cp_csg_cast(cp_csg_cut_t, o); for (size_t i = 0; i < c->cut.size; i++) leaves(&c->cut.data[i]->add); break; }
    case CP_CSG_XOR: { cp_csg_xor_t *c = cp_csg_cast(cp_csg_xor_t, o); for (size_t i = 0; i < c->xor.size; i++) leaves(&c->xor.data[i]->add); break; }
    default: CHECK(0, "unexpected object");
    }
}
static void leaves(cp_v_obj_p_t *v) { for (size_t i = 0; i < v->size; i++) leaves1((cp_csg_t*)v->data[i]); }
static M lm[8]; static int lk[8], ln;
/* one child: modifier or not, then a cube (kind 0), a sphere (1), or two cubes in braces */
static void child(M m, int lo, int hi)
{
    int w = ch("own", 0, 4); if (w == 1) m = mul(m, modifier_(0, 0)); if (w == 2) { put("mirror([1,0,0])"); m.m[0][0] = -m.m[0][0]; m.m[1][0] = -m.m[1][0]; m.m[2][0] = -m.m[2][0]; } if (w == 3) m = mul(m, modifier_(2, 2)); if (w == 4) { put("rotate([90,0,90])"); m = mul(m, mul(rot(2, 90), rot(0, 90))); }
    int k = ch("kind", lo, hi); if (k == 2) put("{cube([2,3,4]);"); if (k == 0) put("cube([2,3,4]);"); else put("sphere(2);");
    if (k == 2) { put("}"); lm[ln] = m; lk[ln++] = 0; k = 1; }
    lm[ln] = m; lk[ln++] = k;
}
void h_xf_ops(void)
{
    sx_opt("fp", 2);
    exact_only = true; axis_only = true; M m = modifier(); int op = ch("op", 0, 4); static char const *const OPN[] = { "union()", "difference()", "intersection()", "group()", "" };
    put(OPN[op]); put("{"); child(m, 0, 2); if ((op == 1 || op == 2) && ch("mid", 0, 1)) { put("*cube(9);"); } child(m, 0, 1); put("}"); if (op >= 3 && ch("more", 0, 1)) { put("sphere(2);"); lm[ln] = id(); lk[ln++] = 1; }
    int ok = scene(); CHECK(ok, "scene is rejected"); leaves(&t3.root->add); CHECK(nleaf == ln, "objects lost or invented");
    static double c[8][3]; for (int i = 0; i < 8; i++) { c[i][0] = i & 1 ? 2 : 0; c[i][1] = i & 2 ? 3 : 0; c[i][2] = i & 4 ? 4 : 0; }
    int bad = 0;
    for (int i = 0; i < ln; i++) {
        if (lk[i] == 0) { CHECK(leaf[i], "objects out of order"); points(leaf[i], c, 8, lm[i]); double v = closed(leaf[i]), w = 6 * 24 * fabs(det(lm[i])); CHECK(v > w * (1 - 1e-6) && v < w * (1 + 1e-6), "faces do not point outward"); }
        else { CHECK(ball[i], "objects out of order"); cp_mat3wi_t const *b = ball[i]->mat;
            for (int r = 0; r < 3; r++) for (int q = 0; q < 4; q++) { double g = q == 3 ? b->n.w.v[r] : b->n.b.m[r][q], e = lm[i].m[r][q] * (q == 3 ? 1 : 2), d = g - e; bad |= (d > TOL) | (d < -TOL); }
            double dd = b->d - 8 * det(lm[i]); bad |= (dd > TOL) | (dd < -TOL);
            /* the stored inverse undoes it */
            for (int r = 0; r < 3; r++) for (int q = 0; q < 4; q++) { double g = q == 3 ? b->i.w.v[r] : 0; for (int k = 0; k < 3; k++) g += b->i.b.m[r][k] * (q == 3 ? b->n.w.v[k] : b->n.b.m[k][q]); g -= r == q; bad |= (g > TOL) | (g < -TOL); } }
    }
    CHECK(!bad, "sphere is not where the transformations put it"); sx_reach(OPN[op][0] ? "operation" : "block");
}
/* ---- 2D shapes under plane modifiers, extruded under space modifiers ---- */
static int nplane;
/* one symbolic digit per scene keeps the sweep's products linear */
static int ydig(void) { if (nplane++ == 0) return pdig(0, 9); int d = ch("y", 0, 1); pint(d); return d; }
static M plane(void)
{
    M r = id(); static double const ANG[] = { 90, -90, 180, 30, -37.5 };
    switch (ch("plane", 0, 6)) {
    case 0: put("translate(["); { int d = ch("x", -2, 3); pint(d); r.m[0][3] = d; } put(","); r.m[1][3] = ydig(); put("])"); break;
    case 1: { static double const S[][2] = { {2,3}, {-1,2}, {0.5,-0.25}, {-2,-1} }; int k = ch("scale", 0, 3); put("scale(["); pdbl(S[k][0]); put(","); pdbl(S[k][1]); put("])"); r.m[0][0] = S[k][0]; r.m[1][1] = S[k][1]; break; }
    case 2: { static int const V[][2] = { {1,0}, {0,-2}, {1,1}, {1,2} }; int k = ch("mirror", 0, 3), l = V[k][0] * V[k][0] + V[k][1] * V[k][1]; put("mirror(["); pint(V[k][0]); put(","); pint(V[k][1]); put("])"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.m[i][j] -= 2. * V[k][i] * V[k][j] / l; break; }
    case 3: { double a = ANG[ch("angle", 0, 4)]; put("rotate("); pdbl(a); put(")"); r = rot(2, a); break; }
    case 4: { double a = ANG[ch("angle", 0, 4)]; put("rotate([0,0,"); pdbl(a); put("])"); r = rot(2, a); break; }
    case 5: { put("multmatrix([[1,0.5,0,"); r.m[0][1] = 0.5; { int d = ch("x", -2, 3); pint(d); r.m[0][3] = d; } put("],[0,2,0,"); r.m[1][1] = 2; r.m[1][3] = ydig(); put("],[0,0,1,0]])"); break; }
    case 6: put("color(\"blue\")"); break;
    }
    return r;
}
void h_xf_plane(void)
{
    nplane = 0;
    sx_opt("fp", 2);
    exact_only = axis_only = true; M o = id(); if (sx_param("anyouter", 0)) { if (ch("outer", 0, 1)) o = modifier_(1, 6); } else switch (ch("outer", 0, 3)) { case 1: put("mirror([0,0,2])"); o.m[2][2] = -1; break; case 2: put("rotate([90,0,-90])"); o = mul(rot(2, -90), rot(0, 90)); break; case 3: put("multmatrix([[2,0,0.5,1],[0,1,0,2],[0.25,0,1,3]])"); o.m[0][0] = 2; o.m[0][2] = 0.5; o.m[0][3] = 1; o.m[1][3] = 2; o.m[2][0] = 0.25; o.m[2][3] = 3; break; }
    put("linear_extrude(height=2)"); M m = id(); int depth = ch("depth", 1, (int)sx_param("depth", 1)); bool proj = false;
    for (int i = 0; i < depth; i++) m = mul(m, plane());
    int k = ch("shape", 0, 6); static double q[8][3]; int n = 4;
    static double const SQ[4][2] = { {0,0},{2,0},{2,3},{0,3} }, CE[4][2] = { {-1,-1.5},{1,-1.5},{1,1.5},{-1,1.5} }, CI[4][2] = { {2,0},{0,2},{-2,0},{0,-2} }, PG[4][2] = { {1,0},{4,1},{2,2},{1,4} };
    double const (*c)[2] = SQ;
    switch (k) {
    case 0: put("square([2,3]);"); break;
    case 1: put("square([2,3],center=true);"); c = CE; break;
    case 2: put("circle(2,$fn=4);"); c = CI; break;
    case 3: put("polygon([[1,0],[4,1],[2,2],[1,4]]);"); c = PG; break;
    case 4: { put("hull(){"); M h = id(); if (ch("in hull", 0, 1)) h = plane(); m = mul(m, h); put("{square([2,3]);translate([0.5,0.5])square(1);}}"); break; }
    case 5: put("projection(cut=true)translate([0,0,-1])cube([2,3,4]);"); proj = true; break;
    case 6: { put("projection(cut=true){"); M h = id(); if (ch("in projection", 0, 1)) h = plane(); m = mul(m, h); put("translate([0,0,-1])cube([2,3,4]);}"); proj = true; break; }
    }
    (void)proj; int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only();
    for (int i = 0; i < n; i++) for (int z = 0; z < 2; z++) { double *t = q[2 * i + z]; t[0] = m.m[0][0] * c[i][0] + m.m[0][1] * c[i][1] + m.m[0][3]; t[1] = m.m[1][0] * c[i][0] + m.m[1][1] * c[i][1] + m.m[1][3]; t[2] = 2 * z; }
    /* plane coordinates are on a grid of 1/8192 */
    tol = 1.0/512; points(p, q, 2 * n, o); double v = closed(p); CHECK(v > 0, "faces do not point outward"); sx_reach(proj ? "projection" : k == 4 ? "hull" : "shape");
}
