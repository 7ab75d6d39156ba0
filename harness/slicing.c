/* C10: cross-sections of solids */
#include "scene.h"
#include <stdarg.h>
#include <hob3lop/gon.h>
#include <hob3lop/op-slice.h>
#define EPS (1.0/32768)
/* ---- catalogue of solids: vertices and faces ---- */
static int nv, P[40][3], nf, F[40][12], fl[40];
static void vert(int x, int y, int z) { P[nv][0] = x; P[nv][1] = y; P[nv][2] = z; nv++; }
static void face(int n, ...) { va_list a; va_start(a, n); for (int i = 0; i < n; i++) F[nf][i] = va_arg(a, int); va_end(a); fl[nf++] = n; }
/* prism (or pyramid if tip) over a counter-clockwise polygon; faces clockwise seen from outside */
static void prism(int n, int (*b)[2], int z0, int z1, int tip)
{
    int v = nv; for (int i = 0; i < n; i++) vert(b[i][0], b[i][1], z0);
    if (tip) vert(b[0][0] / 2 + b[n / 2][0] / 2, b[0][1] / 2 + b[n / 2][1] / 2, z1); else for (int i = 0; i < n; i++) vert(b[i][0], b[i][1], z1);
    for (int i = 0; i < n; i++) F[nf][i] = v + i; 
    fl[nf++] = n; if (!tip) { for (int i = 0; i < n; i++) F[nf][i] = v + n + (n - 1 - i); fl[nf++] = n; }
    for (int i = 0; i < n; i++) { int j = (i + 1) % n; if (tip) face(3, v + j, v + i, v + n); else face(4, v + j, v + i, v + n + i, v + n + j); }
}
static int SQ[][2] = { {0,0}, {60,0}, {60,40}, {0,40} }, LL[][2] = { {0,0}, {80,0}, {80,20}, {30,20}, {30,60}, {0,60} }, UU[][2] = { {0,0}, {90,0}, {90,70}, {60,70}, {60,30}, {30,30}, {30,70}, {0,70} }, WW[][2] = { {0,0}, {100,0}, {100,60}, {75,24}, {50,60}, {25,24}, {0,60} }, TR[][2] = { {5,3}, {87,20}, {21,66} };
static void solid(int k)
{
    switch (k) {
    case 0: prism(4, SQ, 0, 50, 0); break;
    case 1: prism(3, TR, 7, 80, 1); break;
    case 2: prism(6, LL, 0, 40, 0); break;
    case 3: prism(8, UU, 0, 30, 0); break;
    case 4: prism(7, WW, 10, 50, 0); break;
    case 5: /* frame: box with a hole through it */
        for (int o = 0; o < 2; o++) for (int z = 0; z < 2; z++) { int a = o ? 25 : 0, b = o ? 65 : 90; vert(a, a, z * 40); vert(b, a, z * 40); vert(b, b, z * 40); vert(a, b, z * 40); }
        for (int i = 0; i < 4; i++) { int j = (i + 1) % 4; face(4, i, j, 8 + j, 8 + i); face(4, 4 + j, 4 + i, 12 + i, 12 + j); face(4, j, i, 4 + i, 4 + j); face(4, 8 + i, 8 + j, 12 + j, 12 + i); }
        break;
    case 6: /* octahedron with uneven corners */
        vert(50, 50, 0); vert(0, 50, 40); vert(50, 0, 40); vert(100, 50, 44); vert(50, 100, 36); vert(45, 55, 90);
        for (int i = 0; i < 4; i++) { int j = (i + 1) % 4; face(3, 0, 1 + j, 1 + i); face(3, 5, 1 + i, 1 + j); }
        break;
    case 7: /* two separate solids at different heights, one above a hole between */
        prism(4, SQ, 0, 30, 0); { static int S2[][2] = { {10,10}, {95,10}, {95,90}, {10,90} }; prism(4, S2, 38, 78, 1); } break;
    case 8: prism(3, TR, 0, 60, 0); break;
    default: /* steps: L shape standing up with a horizontal face in the middle */
        vert(0,0,0); vert(80,0,0); vert(80,50,0); vert(0,50,0); vert(80,0,30); vert(80,50,30); vert(40,0,30); vert(40,50,30); vert(40,0,70); vert(40,50,70); vert(0,0,70); vert(0,50,70);
        face(4, 0, 1, 2, 3); face(4, 5, 4, 1, 2); face(4, 4, 5, 7, 6); face(4, 6, 7, 9, 8); face(4, 8, 9, 11, 10); face(4, 10, 11, 3, 0); face(6, 0, 10, 8, 6, 4, 1); face(6, 2, 5, 7, 9, 11, 3);
    }
}
static int const A[][9] = { {1,0,0, 0,1,0, 0,0,1}, {0,0,1, 1,0,0, 0,1,0}, {0,1,0, 0,0,1, 1,0,0}, {1,0,1, 0,1,-1, 0,0,1}, {1,0,0, 0,1,0, 1,1,1}, {-1,0,0, 0,1,0, 0,0,1}, {1,0,0, 0,1,1, 1,0,-1}, {1,1,0, 0,1,2, 2,0,1} };
/* is the point (q, just above z) inside? ray upwards, all in integers */
static int inside(ll q0, ll q1, int z)
{
    int in = 0;
    for (int f = 0; f < nf; f++) {
        /* 4 * q are odd: never on an edge's projection with small integer slopes is not needed: half-open rule */
        int c = 0, n = fl[f]; for (int i = 0; i < n; i++) { int *a = P[F[f][i]], *b = P[F[f][(i + 1) % n]]; ll ax = 4 * a[0], ay = 4 * a[1], bx = 4 * b[0], by = 4 * b[1];
            if ((ay > q1) != (by > q1)) { ll s = (bx - ax) * (q1 - ay) - (q0 - ax) * (by - ay); if ((s > 0) == (by > ay)) c ^= 1; } }
        if (!c) continue;
        /* height of the plane at q: from the normal */
        ll nx = 0, ny = 0, nz = 0; for (int i = 0; i < n; i++) { int *a = P[F[f][i]], *b = P[F[f][(i + 1) % n]]; nx += (ll)(a[1] - b[1]) * (a[2] + b[2]); ny += (ll)(a[2] - b[2]) * (a[0] + b[0]); nz += (ll)(a[0] - b[0]) * (a[1] + b[1]); }
        int *a = P[F[f][0]]; ll h = nz * 4 * a[2] - nx * (q0 - 4 * a[0]) - ny * (q1 - 4 * a[1]); /* height * 4 * nz */
        if (nz < 0) { nz = -nz; h = -h; }
        in ^= h > nz * 4 * z;
    }
    return in;
}
static cp_csg2_tree_t t2; static cp_pool_t pool2;
static cq_v_line2_t *cut(double z)
{
    cp_range_t r = { .min = z, .step = 1, .cnt = 1 }; cp_csg2_tree_from_csg3(&t2, &t3, &r, &co); cp_csg2_tree_add_layer(&pool2, &t2, 0); static cq_v_line2_t all; 
    cp_csg_add_t *root = cp_csg_cast(cp_csg_add_t, t2.root);
    for (size_t i = 0; i < root->add.size; i++) { cp_csg2_stack_t *s = cp_csg2_cast(cp_csg2_stack_t, root->add.data[i]); cp_csg2_layer_t *l = cp_csg2_stack_get_layer(s, 0); if (!l || !l->root) continue;
        for (size_t k = 0; k < l->root->add.size; k++) { cp_csg2_vline2_t *v = cp_csg2_cast(cp_csg2_vline2_t, l->root->add.data[k]); for (size_t m = 0; m < v->q.size; m++) cp_v_push(&all, v->q.data[m]); } }
    return &all;
}
/* every cut point is the grid point next to where an edge of the solid crosses the plane */
static void exact(cq_v_line2_t *v, int z)
{
    int bad = 0;
    for (size_t i = 0; i < 2 * v->size; i++) { cq_vec2_t q = i & 1 ? v->data[i / 2].b : v->data[i / 2].a; int ok = 0;
        for (int f = 0; f < nf; f++) for (int k = 0, m = fl[f]; k < m; k++) { int *a = P[F[f][k]], *b = P[F[f][(k + 1) % m]]; if (a[2] > b[2]) { int *c = a; a = b; b = c; }
            ll dz = b[2] - a[2], ex = 2 * (((ll)q.x - a[0]) * dz - (ll)(b[0] - a[0]) * (z - a[2])), ey = 2 * (((ll)q.y - a[1]) * dz - (ll)(b[1] - a[1]) * (z - a[2]));
            ok |= (z >= a[2]) & (z < b[2]) & (ex <= dz) & (ex >= -dz) & (ey <= dz) & (ey >= -dz); }
        bad |= !ok; }
    CHECK(!bad, "cut point is not the rounded crossing of an edge");
}
void h_sl_poly(void)
{
    sx_opt("fp", 2); cq_dim_scale = 1; int k = ch("solid", 0, 9), m = ch("matrix", 0, 7), zlo = 1000, zhi = -1000; solid(k); 
    put("multmatrix(["); for (int i = 0; i < 3; i++) { put(i ? ",[" : "["); for (int j = 0; j < 3; j++) { if (j) put(","); pint(A[m][3 * i + j]); } put("]"); } put("])polyhedron(points=[");
    for (int i = 0; i < nv; i++) { put(i ? ",[" : "["); for (int j = 0; j < 3; j++) { if (j) put(","); pint(P[i][j]); } put("]"); } put("],faces=["); for (int i = 0; i < nf; i++) { put(i ? ",[" : "["); for (int j = 0; j < fl[i]; j++) { if (j) put(","); pint(F[i][j]); } put("]"); } put("]);");
    int bb[2][2] = { {1000,1000}, {-1000,-1000} };
    for (int i = 0; i < nv; i++) { int q[3]; for (int j = 0; j < 3; j++) q[j] = A[m][3*j] * P[i][0] + A[m][3*j+1] * P[i][1] + A[m][3*j+2] * P[i][2]; memcpy(P[i], q, sizeof q); if (q[2] < zlo) zlo = q[2]; if (q[2] > zhi) zhi = q[2]; for (int j = 0; j < 2; j++) { if (q[j] < bb[0][j]) bb[0][j] = q[j]; if (q[j] > bb[1][j]) bb[1][j] = q[j]; } }
    int ok = scene(); CHECK(ok, "scene is rejected");
    int zr = ch("range", 0, (zhi - zlo + 2) / 200), z0 = zlo - 1 + 200 * zr, z1 = z0 + 199; if (z1 > zhi + 1) z1 = zhi + 1; int z = (int)sx_int("z", z0, z1);
    cq_v_line2_t *v = cut(z); size_t n = v->size; int bad = 0; 
    for (size_t i = 0; i < 2 * n; i++) { cq_vec2_t a = i & 1 ? v->data[i / 2].b : v->data[i / 2].a; int c = 0; for (size_t j = 0; j < 2 * n; j++) { cq_vec2_t b = j & 1 ? v->data[j / 2].b : v->data[j / 2].a; c += (a.x == b.x) & (a.y == b.y); } bad |= c & 1; }
    CHECK(!bad, "outline is open"); bad = z < zlo; bad = (bad | (z >= zhi)) & (n > 0); CHECK(!bad, "something is outside of the solid");
    exact(v, z);
    int g = (int)sx_param("grid", 5), thin = 0, near = 0; bad = 0; for (int i = 0; i < nv; i++) { int c = (z > P[i][2] - 6) & (z < P[i][2] + 6); near |= c; thin |= c & (z != P[i][2]); }
    for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) {
        int q0 = 4 * bb[0][0] + 4 * (bb[1][0] - bb[0][0]) * (2 * i + 1) / (2 * g) | 1, q1 = 4 * bb[0][1] + 4 * (bb[1][1] - bb[0][1]) * (2 * j + 1) / (2 * g) | 1, in = inside(q0, q1, z), sure = !thin;
        for (int a = -2; a <= 2; a += 2) for (int b = -2; b <= 2; b += 2) if (a || b) sure &= inside(q0 + 4 * a, q1 + 4 * b, z) == in;
        int c = 0; for (size_t l = 0; l < n; l++) { cq_vec2_t a = v->data[l].a, b = v->data[l].b; sure &= !((4 * a.x > q0 - 32) & (4 * a.x < q0 + 32) & (4 * a.y > q1 - 32) & (4 * a.y < q1 + 32)); ll ax = 4 * (ll)a.x, ay = 4 * (ll)a.y, bx = 4 * (ll)b.x, by = 4 * (ll)b.y; int up = by > ay; ll s = (bx - ax) * (q1 - ay) - (q0 - ax) * (by - ay); c ^= ((ay > q1) != (by > q1)) & ((s > 0) == up); }
#ifdef DBG
        if (sure & (c != in)) D("query %g,%g c %d in %d\n", q0 / 4.0, q1 / 4.0, c, in);
#endif
        bad |= sure & (c != in); }
#ifdef DBG
    for (size_t l = 0; l < n; l++) D("line %d,%d %d,%d\n", v->data[l].a.x, v->data[l].a.y, v->data[l].b.x, v->data[l].b.y);
#endif
    CHECK(!bad, "cut does not have the points of the solid"); bad = 0;
    /* every line is on the surface */
    for (size_t l = 0; l < n; l++) { int m0 = (int)(2 * ((ll)v->data[l].a.x + v->data[l].b.x)) + 1, m1 = (int)(2 * ((ll)v->data[l].a.y + v->data[l].b.y)) + 1, o = 0, in = inside(m0, m1, z); for (int a = -2; a <= 2; a += 2) for (int b = -2; b <= 2; b += 2) o |= inside(m0 + 4 * a, m1 + 4 * b, z) != in; 
#ifdef DBG
        if (!o & !near) D("line %d not on surface\n", (int)l);
#endif
        int dx = v->data[l].a.x - v->data[l].b.x, dy = v->data[l].a.y - v->data[l].b.y; o |= (dx > -16) & (dx < 16) & (dy > -16) & (dy < 16); bad |= !o & !near; }
    CHECK(!bad, "line is not on the surface"); sx_reach(n ? "cut" : "outside");
}

/* ellipsoids */
static double det3(double const *m) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
void h_sl_sphere(void)
{
    sx_opt("fp", 2); static double const Q[][9] = { {1,0,0, 0,1,0, 0,0,1}, {2,0,0, 0,3,0, 0,0,5}, {3,4,0, 0,2,0, 0,0,1}, {2,1,2, 0,-1,0, 12,0,5}, {-1,2,-2, 4,3,0, 0,0,-7}, {0,0,1, 1,0,0, 0,1,0}, {0.5,0.25,0, 0,0.5,0.125, 3,0,0.5}, {256,0,0, 0,128,-256, 0,256,256}, {300,100,0, -100,500,-250, 64,0,128}, {0.25,0,0, 0,0.25,0.125, 0,0,0.25} };
    cq_dim_scale = 8192; int k = ch("matrix", 0, 9), many = (int)sx_param("many", 0), fn = many ? 0 : ch("fn", 3, (int)sx_param("fn", 7)), w = ch("offset", -1, 1); if (many) { static int const FN[] = { 8, 12, 13, 31, 64, 100 }; fn = FN[ch("segments", 0, 5)]; } double const *m = Q[k]; put("multmatrix(["); for (int i = 0; i < 3; i++) { put(i ? ",[" : "["); for (int j = 0; j < 3; j++) { if (j) put(","); pdbl(m[3*i+j]); } put(","); pint(w * (i + 1)); put("]"); } put("])sphere(1);"); co.max_fn = (size_t)fn;
    int ok = scene(); CHECK(ok, "scene is rejected"); double h = sqrt(m[6]*m[6] + m[7]*m[7] + m[8]*m[8]); double st = h > 100 ? 16 : 0.125; int Z = (int)(h / st) + 12; if (Z > 120) Z = 120; double zz = many ? ch("z", -4, 4) * h * 0.2625 : (double)sx_int("z", -Z, Z) * st, z = zz + 3 * w, t = zz / h; 
    cq_v_line2_t *v = cut(z); int n = (int)v->size, bad = 0; if (!n) { bad = (t < 1 - 0.0001) & (t > -1 + 0.0001); CHECK(!bad, "no cut of an ellipsoid"); sx_reach("outside"); return; }
    bad = (t >= 1) | (t <= -1); CHECK(!bad, "cut of an ellipsoid in the wrong place"); CHECK(n == fn, "wrong number of segments"); double area = 0, s = 1.0 / 8192; int fwd = 0, bwd = 0;
    for (int i = 0; i < n; i++) { cq_line2_t *l = &v->data[i], *q = &v->data[(i + 1) % n]; fwd |= (l->b.x != q->a.x) | (l->b.y != q->a.y); bwd |= (l->a.x != q->b.x) | (l->a.y != q->b.y); double ax = l->a.x * s, ay = l->a.y * s, bx = l->b.x * s, by = l->b.y * s; area += (ax * by - ay * bx) / 2;
        /* on the ellipsoid: solve M p = (ax, ay, z) by Cramer's rule */
        double r[3] = { ax - w, ay - 2 * w, zz }, d = det3(m), sum = 0; for (int c = 0; c < 3; c++) { double x[9]; memcpy(x, m, sizeof x); for (int e = 0; e < 3; e++) x[3*e+c] = r[e]; double u = det3(x) / d; sum += u * u; }
        D("%g,%g sum %g\n", ax, ay, sum);
        bad |= (sum > 1.002) | (sum < 0.998); }
    bad |= fwd & bwd; CHECK(!bad, "cut is not a closed line on the ellipsoid"); double rr = 1 - t * t, full = fn * sin(2 * 3.14159265358979323846 / fn) / 2 * rr * det3(m) / h; if (full < 0) full = -full; if (area < 0) area = -area; double e = area - full; double tol = 0.002 + full * 0.002; bad = (e > tol) | (e < -tol); CHECK(!bad, "cut of an ellipsoid has the wrong area"); sx_reach("cut");
}
/* a tetrahedron, one coordinate of any value */
void h_sl_tet(void)
{
    sx_opt("fp", 2); cq_dim_scale = 64; static int const B[][4][3] = { { {0,0,0}, {9,1,0}, {2,8,1}, {3,2,9} }, { {1,1,2}, {8,2,2}, {3,9,2}, {4,4,2} }, { {0,0,3}, {9,9,3}, {8,0,6}, {1,9,6} }, { {5,5,9}, {0,2,4}, {9,1,4}, {4,9,0} } };
    int k = ch("shape", 0, 3), w = ch("which", 0, 11), lo = 1000, hi = -1000; nv = 4; put("polyhedron(points=["); for (int i = 0; i < 4; i++) { put(i ? ",[" : "["); for (int j = 0; j < 3; j++) { if (j) put(","); int d; if (3 * i + j == w) d = pdig(0, 9); else pint(d = B[k][i][j]); P[i][j] = 64 * d; } put("]"); }
    ll s = 0; { ll a[3], b[3], c[3]; for (int j = 0; j < 3; j++) { a[j] = (P[1][j] - P[0][j]) / 64; b[j] = (P[2][j] - P[0][j]) / 64; c[j] = (P[3][j] - P[0][j]) / 64; } s = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
    /* thick enough for the sampling */
    sx_assume((s > 20) | (s < -20)); int neg = (int)sx_concretize(s < 0); nf = 0; if (neg) { face(3, 0, 1, 2); face(3, 0, 3, 1); face(3, 1, 3, 2); face(3, 2, 3, 0); } else { face(3, 2, 1, 0); face(3, 1, 3, 0); face(3, 2, 3, 1); face(3, 0, 3, 2); }
    put("],faces=["); for (int i = 0; i < 4; i++) { put(i ? ",[" : "["); for (int j = 0; j < 3; j++) { if (j) put(","); pint(F[i][j]); } put("]"); } put("]);"); int ok = scene(); CHECK(ok, "scene is rejected");
    for (int i = 0; i < 4; i++) { lo = P[i][2] < lo ? P[i][2] : lo; hi = P[i][2] > hi ? P[i][2] : hi; }
    int z2 = ch("z", -1, 19), z = 32 * z2; cq_v_line2_t *v = cut(z2 / 2.0); size_t n = v->size; int bad = 0, thin = 0; for (int i = 0; i < 4; i++) thin |= (z != P[i][2]) & (z > P[i][2] - 6) & (z < P[i][2] + 6);
    for (size_t i = 0; i < 2 * n; i++) { cq_vec2_t a = i & 1 ? v->data[i / 2].b : v->data[i / 2].a; int c = 0; for (size_t j = 0; j < 2 * n; j++) { cq_vec2_t b = j & 1 ? v->data[j / 2].b : v->data[j / 2].a; c += (a.x == b.x) & (a.y == b.y); } bad |= c & 1; }
    CHECK(!bad, "outline is open"); bad = z < lo; bad = (bad | (z >= hi)) & (n > 0); CHECK(!bad, "something is outside of the solid"); bad = 0; exact(v, z);
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { int q0 = 4 * 64 * 9 * (2 * i + 1) / 12 | 1, q1 = (4 * 64 * 9 * (2 * j + 1) / 12 + 58) | 1, in = inside(q0, q1, z), sure = !thin; for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (a || b) sure &= inside(q0 + 12 * a, q1 + 12 * b, z) == in;
        int c = 0; for (size_t l = 0; l < n; l++) { cq_vec2_t a = v->data[l].a, b = v->data[l].b; sure &= !((4 * a.x > q0 - 64) & (4 * a.x < q0 + 64) & (4 * a.y > q1 - 64) & (4 * a.y < q1 + 64)); ll ax = 4 * (ll)a.x, ay = 4 * (ll)a.y, bx = 4 * (ll)b.x, by = 4 * (ll)b.y; int up = by > ay; ll t = (bx - ax) * (q1 - ay) - (q0 - ax) * (by - ay); c ^= ((ay > q1) != (by > q1)) & ((t > 0) == up); }
        bad |= sure & (c != in); }
    CHECK(!bad, "cut does not have the points of the solid"); sx_reach(n ? "cut" : "outside");
}
