/* C14: primitive solids and extrusions */
#include "xform.c"
static double rad(double d) { return d * 3.14159265358979323846 / 180; }
static double X[1200][3]; static int nX;
static void want(double x, double y, double z) { X[nX][0] = x; X[nX][1] = y; X[nX][2] = z; nX++; }
static void size3(double v, double w, char const *msg) { D("volume*6 %g, expected %g\n", v, w); CHECK(v > w - w / 1024 && v < w + w / 1024, msg); }
/* number of segments; with many: larger numbers, and the symbolic size has only 3 values, fixed per path */
static int segs(int lo, int dflt) { static int const N[] = { 11, 12, 13, 16, 17, 24, 31, 32, 33, 45, 64, 100 }; if (sx_param("many", 0)) return N[ch("many segments", 0, (int)sx_param("many", 0) - 1)]; return ch("fn", lo, (int)sx_param("fn", dflt)); }
static int pd1(void) { if (!sx_param("many", 0)) return pdig(1, 9); int d = ch("size", 0, 1) ? 7 : 2; pint(d); return d; }
/* one symbolic size, the others structural */
static int sz(int sym, int alt) { if (sym) return pdig(1, 9); pint(alt); return alt; }
void h_pr_cube(void)
{
    sx_opt("fp", 2); int s = ch("form", 0, 5), c = ch("center", 0, 2), a[3];
    if (s == 3) { put("cube("); a[0] = a[1] = a[2] = pdig(1, 9); }
    else if (s == 4) { put("cube(size="); pint(4); a[0] = a[1] = a[2] = 4; }
    else { put("cube(["); for (int i = 0; i < 3; i++) { if (i) put(","); if (s == 5 && i == 1) { put("-"); a[i] = -sz(1, 0); } else a[i] = sz(i == s, i + 2); } put("]"); }
    put(c == 1 ? ",center=true);" : c == 2 ? ",center=false);" : ");");
    int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only(); double o = c == 1 ? 0.5 : 0;
    for (int i = 0; i < 8; i++) want(a[0] * ((i & 1) - o), a[1] * ((i >> 1 & 1) - o), a[2] * ((i >> 2 & 1) - o));
    points(p, X, nX, id()); double v = closed(p), w = 6. * a[0] * a[1] * a[2]; if (s == 5) w = -w; CHECK(v > w - 0.5 && v < w + 0.5, "faces do not point outward"); sx_reach(c == 1 ? "centred" : "corner");
}
void h_pr_cyl(void)
{
    sx_opt("fp", 2); static double const R[] = { 1, 2, 0, 0.5, 3 }; int fn = segs(3, 8), form = ch("form", 0, 4), c = ch("center", 0, 1), neg = ch("mirrored", 0, 1); double r1, r2, h;
    if (neg) put("scale([1,-1,1])");
    put("cylinder(h="); h = pd1(); put(",");
    switch (form) {
    case 0: r1 = r2 = R[ch("r", 0, 1)]; put("r="); pdbl(r1); break;
    case 1: r1 = r2 = R[ch("r", 3, 4)] / 2; put("d="); pdbl(r1 * 2); break;
    case 2: r1 = R[ch("r", 0, 4)]; r2 = R[ch("R", 0, 4)]; if (r1 == 0 && r2 == 0) sx_end(); put("r1="); pdbl(r1); put(",r2="); pdbl(r2); break;
    case 3: r1 = R[ch("r", 0, 4)] / 2; r2 = R[ch("R", 0, 4)] / 2; if (r1 == 0 && r2 == 0) sx_end(); put("d2="); pdbl(2 * r2); put(",d1="); pdbl(2 * r1); break;
    default: r1 = 2; r2 = R[ch("R", 0, 4)]; put("r1=2,d2="); pdbl(2 * r2); break;
    }
    put(c ? ",center=true,$fn=" : ",$fn="); pint(fn); put(");");
    int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only(); double z0 = c ? -h / 2 : 0, z1 = z0 + h;
    for (int k = 0; k < 2; k++) { double r = k ? r2 : r1, z = k ? z1 : z0; if (r == 0) want(0, 0, z); else for (int i = 0; i < fn; i++) want(r * cos(rad(360. * i / fn)), (neg ? -1 : 1) * r * sin(rad(360. * i / fn)), z); }
    points(p, X, nX, id()); double A = fn / 2. * sin(rad(360. / fn)); size3(closed(p), 2 * h * A * (r1 * r1 + r2 * r2 + r1 * r2), "faces do not point outward"); sx_reach(r1 == 0 || r2 == 0 ? "cone" : "cylinder");
}
void h_pr_sphere(void)
{
    sx_opt("fp", 2); int fn = segs(3, 8), dia = ch("diameter", 0, 1), neg = ch("mirrored", 0, 1), nz = (fn + 1) / 2; if (neg) put("mirror([0,0,1])");
    put(dia ? "sphere(d=" : "sphere("); double r = pd1(); if (dia) r /= 2; put(",$fn="); pint(fn); put(");"); int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only();
    double w = 0, A = fn / 2. * sin(rad(360. / fn));
    for (int k = 0; k < nz; k++) { double a = rad(180. / nz * (k + 0.5)), q = r * sin(a); for (int i = 0; i < fn; i++) want(q * cos(rad(360. * i / fn)), q * sin(rad(360. * i / fn)), (neg ? -1 : 1) * r * cos(a));
        if (k) { double b = rad(180. / nz * (k - 0.5)), q0 = r * sin(b); w += 2 * A * r * (cos(b) - cos(a)) * (q * q + q0 * q0 + q * q0); } }
    points(p, X, nX, id()); size3(closed(p), w, "faces do not point outward"); sx_reach("sphere");
}
/* $fn missing, below 3, 0 or above the limit */
void h_pr_fn(void)
{
    int k = ch("kind", 0, 2), f = ch("fn", 0, 6); if (f == 2 || f == 3) sx_end(); static char const *const FN[] = { "", ",$fn=0", ",$fn=1", ",$fn=2", ",$fn=3", ",$fn=12", ",$fn=13" }; static int const E[] = { 12, 12, 3, 3, 3, 12, 12 }; static int const S[] = { 0, 0, 3, 3, 3, 12, 0 };
    co.max_fn = 12; put(k == 0 ? "cylinder(h=1,r=1" : k == 1 ? "sphere(1" : "linear_extrude(1)circle(1"); put(FN[f]); put(");"); int ok = scene(); CHECK(ok, "scene is rejected");
    if (k == 1 && S[f] == 0) { CHECK(t3.root->add.size == 1 && t3.root->add.data[0]->type == CP_CSG3_SPHERE && cp_csg3_cast(cp_csg3_sphere_t, t3.root->add.data[0])->_fn == 12, "not a perfect sphere"); sx_reach("perfect"); return; }
    cp_csg3_poly_t *p = only(); CHECK(p->point.size == (size_t)(k == 1 ? S[f] * ((S[f] + 1) / 2) : 2 * E[f]), "wrong number of points"); edges(p); sx_reach("segments");
}
/* linear_extrude: shape x height x twist x slices x scale x center */
static double sh[128][2]; static int nsh; static double area;
static void shape(void)
{
    static double const S0[][2] = { {1,0}, {3,0}, {1,2} }, S1[][2] = { {0,0}, {2,0}, {2,1}, {0,1} }, S2[][2] = { {-1,-1}, {2,-1}, {0,0}, {0,2} };
    int k = sx_param("many", 0) ? 3 : ch("shape", 0, 3); double const (*c)[2]; nsh = 4;
    switch (k) {
    case 0: put("polygon([[1,0],[3,0],[1,2]]);"); c = S0; nsh = 3; area = 2; break;
    case 1: put("square([2,1]);"); c = S1; area = 2; break;
    case 2: put("polygon([[0,2],[0,0],[2,-1],[-1,-1]]);"); c = S2; area = 2.5; break;
    default: { int fn = sx_param("many", 0) ? segs(3, 6) : ch("cfn", 3, 6); put("circle(2,$fn="); pint(fn); put(");"); nsh = fn; for (int i = 0; i < fn; i++) { sh[i][0] = 2 * cos(rad(360. * i / fn)); sh[i][1] = 2 * sin(rad(360. * i / fn)); } area = 2 * fn * sin(rad(360. / fn)); return; }
    }
    for (int i = 0; i < nsh; i++) { sh[i][0] = c[i][0]; sh[i][1] = c[i][1]; }
}
void h_pr_linext(void)
{
    sx_opt("fp", 2); tol = 1. / 512; static double const TW[] = { 0, 30, -30, 90, -45 }, SC[][2] = { {1,1}, {2,2}, {0.5,2}, {0,0}, {0.25,0.25} };
    int t = ch("twist", 0, 4), s = sx_param("many", 0) ? 1 + 2 * ch("slices", 0, 3) : ch("slices", 1, 3), c = ch("center", 0, 1), k = ch("scale", 0, 4); double tw = TW[t], sx = SC[k][0], sy = SC[k][1];
    put("linear_extrude(height="); double h = pd1(); if (tw != 0) { put(",twist="); pdbl(tw); } if (s > 1 || tw != 0) { put(",slices="); pint(s); } else s = 1; if (k == 1) put(",scale=2"); else if (k) { put(",scale=["); pdbl(sx); put(","); pdbl(sy); put("]"); } put(c ? ",center=true)" : ")");
    shape(); int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only(); double w = 0;
    for (int i = 0; i <= s; i++) { double f = (double)i / s, a = rad(-tw * f), kx = 1 + (sx - 1) * f, ky = 1 + (sy - 1) * f, z = h * f - (c ? h / 2 : 0); if (kx == 0) { want(0, 0, z); } else for (int j = 0; j < nsh; j++) want(kx * (cos(a) * sh[j][0] - sin(a) * sh[j][1]), ky * (sin(a) * sh[j][0] + cos(a) * sh[j][1]), z);
        if (i) { double g = (double)(i - 1) / s, lx = 1 + (sx - 1) * g, ly = 1 + (sy - 1) * g; w += area * h / s * (2 * kx * ky + 2 * lx * ly + kx * ly + lx * ky); } }
    points(p, X, nX, id()); double v = closed(p); if (tw == 0 && sx == sy) size3(v, w, "faces do not point outward"); else if (tw != 90) CHECK(v > 0, "faces do not point outward"); if (tw != 0 && k == 0 && nsh != 4) CHECK(v < w, "twisted sides are not broken inward"); sx_reach(sx == 0 ? "pointed" : tw != 0 ? "twisted" : "straight");
}
/* shapes with a hole or several parts */
void h_pr_paths(void)
{
    sx_opt("fp", 2); tol = 1. / 512; int k = ch("kind", 0, 3), d; put("linear_extrude(height=2)"); double v[2]; static cp_csg3_poly_t *q[2];
    switch (k) {
    case 0: put("difference(){square(20);translate([3,"); d = pdig(1, 9); put("])square([4,5]);}"); v[0] = 400; v[1] = -20; break;
    case 1: put("polygon([[0,0],[20,0],[20,20],[0,20],[3,"); d = pdig(1, 9); put("],[7,9.5],[5,18]],paths=[[0,1,2,3],[4,5,6]]);"); v[0] = 400; v[1] = -(4 * (18 - d) - 2 * (9.5 - d)) / 2; break;
    case 2: put("{square([2,3]);translate([5,"); d = pdig(0, 9); put("])square([4,5]);}"); v[0] = 6; v[1] = 20; break;
    default: put("polygon([[0,0],[20,0],[20,20],[0,20],[22,"); d = pdig(1, 9); put("],[27,9.5],[25,18]],paths=[[3,2,1,0],[4,5,6]]);"); v[0] = 400; v[1] = (5 * (18 - d) - 3 * (9.5 - d)) / 2; break;
    }
    int ok = scene(); CHECK(ok, "scene is rejected"); CHECK(t3.root->add.size == 1 && t3.root->add.data[0]->type == CP_CSG_XOR, "not two paths"); cp_csg_xor_t *x = cp_csg_cast(cp_csg_xor_t, t3.root->add.data[0]); CHECK(x->xor.size == 2, "not two paths");
    double g[2]; for (int i = 0; i < 2; i++) { CHECK(x->xor.data[i]->add.size == 1 && x->xor.data[i]->add.data[0]->type == CP_CSG3_POLY, "not two paths"); q[i] = cp_csg3_cast(cp_csg3_poly_t, x->xor.data[i]->add.data[0]); g[i] = closed(q[i]); D("path %d: %g\n", i, g[i] / 12); }
    int hit = 0; for (int s = 0; s < 2; s++) { double a = g[s] / 12, b = g[!s] / 12; if (a < 0 && v[0] > 0) {} double e0 = v[0], e1 = v[1]; if (e1 < 0) { e1 = -e1; b = b < 0 ? -b : b; } hit |= (a > e0 - 0.25) & (a < e0 + 0.25) & (b > e1 - 0.25) & (b < e1 + 0.25); }
    CHECK(hit, "paths have the wrong area"); sx_reach(k < 2 ? "hole" : "parts");
}
/* rotate_extrude: shape on either side of or at the axis x angle x segments */
void h_pr_rotext(void)
{
    sx_opt("fp", 2); tol = 1. / 512; static double const AN[] = { 0, 360, 400, 90, 180, 200, 45 }; int a = ch("angle", 0, 6), left = ch("left", 0, 1), k = ch("shape", 0, 2), fn = segs(1, 6); double an = a == 0 || AN[a] > 360 ? 360 : AN[a], w; int sg = left ? -1 : 1, d, np;
    put("rotate_extrude("); if (a) { put("angle="); pdbl(AN[a]); put(","); } put("$fn="); pint(fn); put(")"); int lo = an >= 360 ? 3 : an >= 180 ? 2 : 1; if (fn < lo) fn = lo; static double q[4][2]; char const *m = left ? "-" : "";
    switch (k) { /* moment = integral of x over the shape */
    case 0: put("polygon([["); put(m); put("1,0],["); put(m); put("3,0],["); put(m); put("1,"); d = pd1(); put("]]);"); q[0][0] = 1; q[1][0] = 3; q[2][0] = 1; q[2][1] = d; np = 3; w = d * (5. / 3); break;
    case 1: put("polygon([[0,0],["); put(m); put("2,0],["); put(m); put("2,"); d = pd1(); put("],[0,9]]);"); q[1][0] = 2; q[2][0] = 2; q[2][1] = d; q[3][1] = 9; np = 4; w = 2. * d * 1 + (9 - d) * (2. / 3); break;
    default: put("polygon([[0,-"); d = pd1(); put("],["); put(m); put("2,0],[0,1]]);"); q[0][1] = -d; q[1][0] = 2; q[2][1] = 1; np = 3; w = (d + 1) * (2. / 3); break;
    }
    if (d == 9 && k == 1) {} int ok = scene(); CHECK(ok, "scene is rejected"); int parts = an == 360 ? 2 : 1; CHECK(t3.root->add.size == (size_t)parts, "wrong number of parts"); double v = 0, de = rad(an / fn); int bad = 0;
    for (int s = 0; s < parts; s++) { CHECK(t3.root->add.data[s]->type == CP_CSG3_POLY, "not a polyhedron"); cp_csg3_poly_t *p = cp_csg3_cast(cp_csg3_poly_t, t3.root->add.data[s]); double g = closed(p); D("part %d: %g\n", s, g); CHECK(g > 0, "faces do not point outward"); v += g;
        /* every point is a rotated corner */
        for (size_t i = 0; i < p->point.size; i++) { double *c = p->point.data[i].coord.v; int hit = 0;
            for (int f = 0; f <= fn; f++) for (int j = 0; j < np; j++) { double an0 = an == 360 ? rad(180) - de * f : de * f, x = q[j][0] * sg; double e[3] = { x * cos(an0), x * sin(an0), q[j][1] }; int h = 1; for (int r = 0; r < 3; r++) { double u = c[r] - e[r]; h &= (u < tol) & (u > -tol); } hit |= h; }
            bad |= !hit; } }
    CHECK(!bad, "point off the rotated shape"); size3(v, 6 * fn * sin(de) * w, "wrong volume"); sx_reach(parts == 2 ? "full turn" : "arc");
}
/* parameters that make an object empty: an error, or exactly that object is missing */
void h_pr_bad(void)
{
    sx_opt("fp", 2); static struct { char const *pre, *post; int lo; bool fatal; } const B[] = {
        { "cube([3,", ",1]);", -1 }, { "cube(", ");", -1 }, { "cylinder(h=-", ",r=1);" }, { "cylinder(h=2,r1=-", ",r2=0);" }, { "cylinder(h=2,r2=-", ",r1=3);", 1 }, { "cylinder(h=2,r1=-", ",r2=3,$fn=5);", 1 }, { "sphere(-", ");" }, { "sphere(d=-", ",$fn=7);" },
        { "linear_extrude(-", ")square(2);" }, { "linear_extrude(height=3,slices=", ")square(2);", -1 }, { "linear_extrude(height=3,scale=[0,", "])square(2);", 1, true }, { "linear_extrude(height=3)circle(", ");", -1 }, { "linear_extrude(height=3)square([", ",4]);", -1 }, { "rotate_extrude(angle=-", ")square(2);" },
        { "linear_extrude(2)polygon([[0,", "],[1,1]]);" }, { "linear_extrude(2)polygon([[0,0],[2,", "],[0,4],[2,3],[5,5]]);", -2, true }, { "polyhedron(points=[[0,0,", "],[1,0,0],[0,1,0]],faces=[[0,1,2],[0,1,2],[0,1,2],[0,1,2]]);" }, { "scale([2,0,", "])cube(1);" }, { "scale(", ")cube(1);", -1 }, { "multmatrix([[1,0,0,0],[1,0,0,", "],[0,0,1,0]])cube(1);" }, { "mirror([0,0,", "])cube(1);", -1, true },
        { "rotate_extrude($fn=5){translate([-", ",0])square(9.5);}", 1, true },
    };
    int k = ch("object", 0, (int)(sizeof B / sizeof *B) - 1), mode = ch("mode", 0, 2); co.err_empty = co.err_collapse = (unsigned)mode; int first = ch("first", 0, 1); if (first) put("cube([2,3,4]);"); put(B[k].pre); int d;
    if (B[k].lo == -1) { putc1('0'); d = 0; } else if (B[k].lo == -2) { putc1('3'); d = 3; } else d = pdig(B[k].lo, 9); (void)d; put(B[k].post); if (!first) put("cube([2,3,4]);");
    int ok = scene(); if (mode == 0 || B[k].fatal) { CHECK(!ok && er.msg.size > 0, "bad parameter is accepted"); sx_reach("rejected"); return; }
    CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only(); CHECK(p->point.size == 8 && closed(p) == 144, "wrong object"); sx_reach("empty");
}
/* a negative scale that is not an error means 0 */
void h_pr_negscale(void)
{
    sx_opt("fp", 2); tol = 1. / 512; co.err_empty = (unsigned)ch("mode", 1, 2); int s = ch("slices", 1, 4); put("linear_extrude(height=8,slices="); pint(s); put(",scale=-"); pdig(1, 9); put(")square([2,1]);"); int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only();
    for (int i = 0; i < s; i++) { double f = 1 - (double)i / s; for (int j = 0; j < 4; j++) want(f * (j == 1 || j == 2 ? 2 : 0), f * (j > 1), 8. * i / s); } want(0, 0, 8); points(p, X, nX, id()); size3(closed(p), 32, "wrong volume"); sx_reach("pointed");
}
/* tiny and huge objects are like all others */
void h_pr_size(void)
{
    sx_opt("fp", 2); static double const F[] = { 0x1p-13, 0x1p-10, 0.001, 0.0625, 0.1, 0.5, 1, 64, 1000, 65536 }; double f = F[ch("size", 0, 9)], g = F[ch("height", 0, 9)], w = 0, h = 3 * g, A; int k = ch("object", 0, 9), fn = 5, c = ch("center", 0, 1); tol = (f > g ? f : g) * 0x1p-34; A = fn / 2. * sin(rad(360. / fn)); double z0 = c ? -h / 2 : 0;
    double r1 = 2 * f, r2 = 2 * f;
    switch (k) {
    case 0: { put("cube(["); pdbl(2 * f); put(","); pdbl(f); put(","); pdbl(h); put(c ? "],center=true);" : "]);"); for (int i = 0; i < 8; i++) want(2 * f * ((i & 1) - (c ? 0.5 : 0)), f * ((i >> 1 & 1) - (c ? 0.5 : 0)), h * (i >> 2) + z0); w = 12 * f * f * h; break; }
    case 1: case 2: case 3: case 4: if (k >= 3) { *(k == 3 ? &r1 : &r2) = k == 3 ? f / 2 : 0; } put("cylinder(h="); pdbl(h); put(k == 1 ? ",d=" : k == 2 ? ",r=" : ",r1="); pdbl(k == 1 ? 2 * r1 : r1); if (k >= 3) { put(",r2="); pdbl(r2); } put(c ? ",center=true,$fn=5);" : ",$fn=5);");
        for (int e = 0; e < 2; e++) { double r = e ? r2 : r1; if (r == 0) want(0, 0, z0 + h * e); else for (int i = 0; i < fn; i++) want(r * cos(rad(72. * i)), r * sin(rad(72. * i)), z0 + h * e); } w = 2 * h * A * (r1 * r1 + r2 * r2 + r1 * r2); break;
    case 5: if (g != 1 || c) sx_end(); put("sphere("); pdbl(r1); put(",$fn=4);"); A = 2; for (int e = 0; e < 2; e++) for (int i = 0; i < 4; i++) { double q = r1 * sqrt(0.5), z = e ? -q : q; static double const C[] = { 1, 0, -1, 0, 1 }; want(q * C[i], q * C[(i + 3) & 3], z); } w = 6 * 2 * (r1 * r1 / 2) * (r1 * sqrt(2.)); break;
    case 6: case 7: if (f < 0.0625 || f > 10000 || g < 0.0625) sx_end(); put("linear_extrude(height="); pdbl(h); put(c ? ",center=true" : ""); put(k == 7 ? ",scale=0)" : ")"); put("square(["); pdbl(2 * f); put(","); pdbl(f); put("]);"); tol = 1. / 512 + tol; for (int e = 0; e < 2; e++) { if (e && k == 7) want(0, 0, z0 + h); else for (int i = 0; i < 4; i++) want(2 * f * (i == 1 || i == 2), f * (i > 1), z0 + h * e); } w = (k == 7 ? 4 : 12) * f * f * h; break;
    case 8: put("polyhedron(points=[[0,0,"); pdbl(z0); put("],["); pdbl(f); put(",0,"); pdbl(z0); put("],[0,"); pdbl(2 * f); put(","); pdbl(z0); put("],[0,0,"); pdbl(z0 + h); put("]],faces=[[0,1,2],[0,3,1],[1,3,2],[0,2,3]]);"); want(0, 0, z0); want(f, 0, z0); want(0, 2 * f, z0); want(0, 0, z0 + h); w = 2 * f * f * h; break;
    default: put("scale(["); pdbl(f); put(","); pdbl(2 * f); put(","); pdbl(h); put(c ? "])cube(1,center=true);" : "])cube(1);"); for (int i = 0; i < 8; i++) want(f * ((i & 1) - (c ? 0.5 : 0)), 2 * f * ((i >> 1 & 1) - (c ? 0.5 : 0)), h * (i >> 2) + z0); w = 12 * f * f * h; break;
    }
    int ok = scene(); CHECK(ok, "scene is rejected"); cp_csg3_poly_t *p = only(); points(p, X, nX, id()); double v = closed(p); CHECK(v > 0, "faces do not point outward"); v /= w; CHECK((v > 0.9) & (v < 1.1), "wrong volume"); sx_reach(k == 5 ? "sphere" : k < 5 ? "solid" : "other");
}
