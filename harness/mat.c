/* C30: matrices and their stored inverses */
#include "common.h"
#include <math.h>
#include <hob3lmat/mat.h>
#include <hob3lmat/algo.h>
#include <hob3l/csg2.h>
#ifdef DBG
#include <stdio.h>
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) ((void)0)
#endif
/* every matrix is seen as an n x (n+1) affine map: linear part and offset */
typedef struct { int n; double m[4][4], w[4]; } aff_t;
static double num(char const *s, int lo, int hi) { return (double)sx_int(s, lo, hi); }
#define LIN(K, T) \
static void put_##T(cp_##T##_t *r, aff_t const *a) { for (int y = 0; y < K; y++) for (int x = 0; x < K; x++) r->m[y][x] = a->m[y][x]; } \
static void get_##T(aff_t *r, cp_##T##_t const *a) { memset(r, 0, sizeof *r); r->n = K; for (int y = 0; y < K; y++) for (int x = 0; x < K; x++) r->m[y][x] = a->m[y][x]; }
#define AFF(K, T) \
static void put_##T(cp_##T##_t *r, aff_t const *a) { for (int y = 0; y < K; y++) { for (int x = 0; x < K; x++) r->b.m[y][x] = a->m[y][x]; r->w.v[y] = a->w[y]; } } \
static void get_##T(aff_t *r, cp_##T##_t const *a) { memset(r, 0, sizeof *r); r->n = K; for (int y = 0; y < K; y++) { for (int x = 0; x < K; x++) r->m[y][x] = a->b.m[y][x]; r->w[y] = a->w.v[y]; } }
LIN(2, mat2) LIN(3, mat3) LIN(4, mat4) AFF(2, mat2w) AFF(3, mat3w)
static void ident(aff_t *a, int n) { memset(a, 0, sizeof *a); a->n = n; for (int i = 0; i < n; i++) a->m[i][i] = 1; }
static void amul(aff_t *r, aff_t const *a, aff_t const *b)
{
    memset(r, 0, sizeof *r); r->n = a->n;
    for (int y = 0; y < a->n; y++) { for (int x = 0; x < a->n; x++) { double s = 0; for (int k = 0; k < a->n; k++) s += a->m[y][k] * b->m[k][x]; r->m[y][x] = s; }
        double s = a->w[y]; for (int k = 0; k < a->n; k++) s += a->m[y][k] * b->w[k]; r->w[y] = s; }
}
static double minor2(aff_t const *a, int r0, int r1, int c0, int c1) { return a->m[r0][c0] * a->m[r1][c1] - a->m[r0][c1] * a->m[r1][c0]; }
static double det3(aff_t const *a, int const *r, int const *c) { return a->m[r[0]][c[0]] * minor2(a, r[1], r[2], c[1], c[2]) - a->m[r[0]][c[1]] * minor2(a, r[1], r[2], c[0], c[2]) + a->m[r[0]][c[2]] * minor2(a, r[1], r[2], c[0], c[1]); }
static double adet(aff_t const *a)
{
    static int const R[] = { 1, 2, 3 }, I[] = { 0, 1, 2 }, C[4][3] = { { 1, 2, 3 }, { 0, 2, 3 }, { 0, 1, 3 }, { 0, 1, 2 } };
    if (a->n == 2) return minor2(a, 0, 1, 0, 1); if (a->n == 3) return det3(a, I, I);
    double s = 0; for (int c = 0; c < 4; c++) { double d = a->m[0][c] * det3(a, R, C[c]); s += c & 1 ? -d : d; } return s;
}
static int neq(double a, double b, double eps) { return eps == 0 ? a != b : !(a - b <= eps && b - a <= eps); }
static int adiff(aff_t const *a, aff_t const *b, double eps)
{
    int bad = a->n != b->n;
    for (int y = 0; y < a->n; y++) { for (int x = 0; x < a->n; x++) bad |= neq(a->m[y][x], b->m[y][x], eps); bad |= neq(a->w[y], b->w[y], eps); }
    return bad;
}
/* n, i, d of one "matrix with inverse" */
static void consistent(aff_t const *n, aff_t const *i, double d, double eps, char const *m1, char const *m2)
{
    aff_t p, q, e; ident(&e, n->n); amul(&p, n, i); amul(&q, i, n);
    CHECK(!(adiff(&p, &e, eps) | adiff(&q, &e, eps)), m1); CHECK(!neq(adet(n), d, eps), m2);
}
static void rnd(aff_t *a, int n, int lo, int hi, int w) { memset(a, 0, sizeof *a); a->n = n; for (int y = 0; y < n; y++) { for (int x = 0; x < n; x++) a->m[y][x] = num("m", lo, hi); if (w) a->w[y] = num("w", -w, w); } }
/* ---- products, application, transposition ---- */
#define MUL(T) { cp_##T##_t A, B, X; put_##T(&A, &a); put_##T(&B, &b); cp_##T##_t *r = al == 0 ? &X : al == 1 ? &A : &B; \
    if (al == 3) { b = a; r = &A; cp_##T##_mul(r, &A, &A); } else cp_##T##_mul(r, &A, &B); get_##T(&g, r); }
void h_mat_mul(void)
{
    int R = (int)sx_param("R", 3), t = ch("type", 0, 4), al = ch("alias", 0, 3); static int const N[] = { 2, 3, 4, 2, 3 };
    aff_t a, b, g, e; rnd(&a, N[t], -R, R, t >= 3 ? R : 0); rnd(&b, N[t], -R, R, t >= 3 ? R : 0); if (al == 3) b = a;
    switch (t) { case 0: MUL(mat2) break; case 1: MUL(mat3) break; case 2: MUL(mat4) break; case 3: MUL(mat2w) break; case 4: MUL(mat3w) break; }
    amul(&e, &a, &b); CHECK(!adiff(&g, &e, 0), "product of two matrices is wrong"); sx_reach("product");
}
#define XF(T, V, K, F) { cp_##T##_t A; put_##T(&A, &a); cp_##V##_t P, Q; for (int i = 0; i < K; i++) P.v[i] = p[i]; cp_##V##_t *r = al ? &P : &Q; F(r, &A, &P); for (int i = 0; i < K; i++) q[i] = r->v[i]; }
void h_mat_xform(void)
{
    int R = (int)sx_param("R", 50), t = ch("type", 0, 4), al = ch("alias", 0, 1); static int const N[] = { 2, 3, 4, 2, 3 };
    aff_t a; rnd(&a, N[t], -R, R, t >= 3 ? R : 0); double p[4], q[4]; for (int i = 0; i < N[t]; i++) p[i] = num("p", -R, R);
    switch (t) { case 0: XF(mat2, vec2, 2, cp_vec2_xform) break; case 1: XF(mat3, vec3, 3, cp_vec3_xform) break; case 2: XF(mat4, vec4, 4, cp_vec4_xform) break; case 3: XF(mat2w, vec2, 2, cp_vec2w_xform) break; case 4: XF(mat3w, vec3, 3, cp_vec3w_xform) break; }
    int bad = 0; for (int y = 0; y < N[t]; y++) { double s = a.w[y]; for (int x = 0; x < N[t]; x++) s += a.m[y][x] * p[x]; bad |= s != q[y]; }
    CHECK(!bad, "matrix applied to a point gives a wrong point"); sx_reach("applied");
}
#define TR(T) { cp_##T##_t A, X; put_##T(&A, &a); cp_##T##_t *r = al ? &A : &X; cp_##T##_trans(r, &A); get_##T(&g, r); }
void h_mat_trans(void)
{
    int t = ch("type", 0, 4), al = ch("alias", 0, 1); static int const N[] = { 2, 3, 4, 2, 3 };
    aff_t a, g; rnd(&a, N[t], -99, 99, 0);
    switch (t) { case 0: TR(mat2) break; case 1: TR(mat3) break; case 2: TR(mat4) break; case 3: TR(mat2w) break; case 4: TR(mat3w) break; }
    int bad = 0; for (int y = 0; y < N[t]; y++) for (int x = 0; x < N[t]; x++) bad |= g.m[y][x] != a.m[x][y];
    CHECK(!bad, "transposed matrix is wrong"); sx_reach("transposed");
}
/* ---- determinants and inverses ---- */
#define DET(T) { cp_##T##_t A; put_##T(&A, &a); d = cp_##T##_det(&A); }
void h_mat_det(void)
{
    int t = ch("type", 0, 4), lo = ch("lo", -1, 0); static int const N[] = { 2, 3, 4, 2, 3 }; aff_t a; rnd(&a, N[t], lo, 1, t >= 3 ? 1 : 0); double d = 0;
    switch (t) { case 0: DET(mat2) break; case 1: DET(mat3) break; case 2: DET(mat4) break; case 3: DET(mat2w) break; case 4: DET(mat3w) break; }
    CHECK(d == adet(&a), "determinant is wrong"); sx_reach("determinant");
}
#define INV(T, TI) { cp_##T##_t A, X; put_##T(&A, &a); cp_##T##_t *r = al ? &A : &X; if (al < 2) d = cp_##T##_inv(r, &A); \
    else { cp_##TI##_t Y; memset(&Y, 0, sizeof Y); bool ok = cp_##TI##_from_##T(&Y, &A); d = Y.d; get_##T(&g, &Y.n); CHECK(ok == (want != 0), "invertibility is reported wrongly"); CHECK(!adiff(&g, &a, 0), "matrix changed"); X = Y.i; r = &X; } get_##T(&g, r); }
void h_mat_inv(void)
{
    static int const N[] = { 2, 3, 4, 2, 3 }, DV[] = { 0, 1, -1, 2, -2, 4 };
    int t = ch("type", (int)sx_param("t0", 0), (int)sx_param("t1", 4)), al = ch("alias", 0, 2), want = DV[ch("det", 0, 5)], k = N[t]; aff_t a, g, p, q, e; int R = (int)sx_param("R", 1); rnd(&a, k, k == 4 ? 0 : -R, R, t >= 3 ? 2 : 0); double d = 0;
    if (k == 4) { int z = ch("z", 0, 3); for (int i = 0; i < 4; i++) { a.m[i][z] = i == z; } } /* 4x4: one unit column anywhere */
    if (t == 4) { int j = ch("j", 0, 2); for (int i = 0; i < 3; i++) a.w[i] = i == j; }
    if (k >= 3) for (int i = 0; i < k; i++) a.m[0][i] = (double)sx_concretize((int64_t)a.m[0][i]);
    sx_assume(adet(&a) == want);
    switch (t) { case 0: INV(mat2, mat2i) break; case 1: INV(mat3, mat3i) break; case 2: INV(mat4, mat4i) break; case 3: INV(mat2w, mat2wi) break; case 4: INV(mat3w, mat3wi) break; }
    CHECK(d == want, "determinant of the inverted matrix is wrong"); if (!want) { sx_reach("singular"); return; }
    ident(&e, k); amul(&p, &a, &g); amul(&q, &g, &a); CHECK(!(adiff(&p, &e, 0) | adiff(&q, &e, 0)), "inverse does not undo the matrix"); sx_reach("inverse");
}
/* ---- matrices with inverse: composition ---- */
#define MI(T, TI) { cp_##TI##_t A, B, X; put_##T(&A.n, &a); put_##T(&A.i, &ai); A.d = da; put_##T(&B.n, &b); put_##T(&B.i, &bi); B.d = db; cp_##TI##_t *r = al == 0 ? &X : al == 1 ? &A : &B; \
    if (op == 0) { cp_##TI##_mul(r, &A, &B); } else if (op == 1) { r = al & 1 ? &A : &X; cp_##TI##_inv(r, &A); } else { r = al & 1 ? &A : &X; cp_##TI##_trans(r, &A); } get_##T(&gn, &r->n); get_##T(&gi, &r->i); gd = r->d; }
void h_mati_ops(void)
{
    static int const N[] = { 2, 3, 4, 2, 3 }; static double const DD[] = { 1, -1, 2, -4, 0.5 };
    int t = ch("type", 0, 4), al = ch("alias", 0, 2), op = ch("op", 0, 2), R = (int)sx_param("R", 2), w = t >= 3 && op != 2 ? R : 0; aff_t a, ai, b, bi, gn, gi, en, ei; rnd(&a, N[t], -R, R, w); rnd(&ai, N[t], -R, R, w); rnd(&b, N[t], -R, R, w); rnd(&bi, N[t], -R, R, w); double da = DD[ch("da", 0, 4)], db = DD[ch("db", 0, 4)], gd = 0, ed;
    switch (t) { case 0: MI(mat2, mat2i) break; case 1: MI(mat3, mat3i) break; case 2: MI(mat4, mat4i) break; case 3: MI(mat2w, mat2wi) break; case 4: MI(mat3w, mat3wi) break; }
    if (op == 0) { amul(&en, &a, &b); amul(&ei, &bi, &ai); ed = da * db; } else if (op == 1) { en = ai; ei = a; ed = 1 / da; }
    else { en = a; ei = ai; for (int y = 0; y < en.n; y++) for (int x = 0; x < en.n; x++) { en.m[y][x] = a.m[x][y]; ei.m[y][x] = ai.m[x][y]; } ed = da; }
    CHECK(!adiff(&gn, &en, 0), "operation on a matrix with inverse gives a wrong matrix"); CHECK(!adiff(&gi, &ei, 0), "operation on a matrix with inverse gives a wrong inverse"); CHECK(gd == ed, "operation on a matrix with inverse gives a wrong determinant");
    sx_reach(op == 0 ? "composed" : op == 1 ? "inverted" : "transposed");
}
/* ---- constructors: n, i, d and the map they denote ---- */
#define GETI(T, X) { get_##T(&n, &(X).n); get_##T(&i, &(X).i); d = (X).d; }
#define ALL3(CALL) switch (t) { case 0: { cp_mat3i_t X; memset(&X, 85, sizeof X); cp_mat3i_##CALL; GETI(mat3, X) } break; case 1: { cp_mat3wi_t X; memset(&X, 85, sizeof X); cp_mat3wi_##CALL; GETI(mat3w, X) } break; case 2: { cp_mat4i_t X; memset(&X, 85, sizeof X); cp_mat4i_##CALL; GETI(mat4, X) } break; }
#define ALL2(CALL) switch (t) { case 0: { cp_mat2i_t X; memset(&X, 85, sizeof X); cp_mat2i_##CALL; GETI(mat2, X) } break; case 1: { cp_mat2wi_t X; memset(&X, 85, sizeof X); cp_mat2wi_##CALL; GETI(mat2w, X) } break; }
static void sub3(aff_t *e, aff_t const *n) { ident(e, n->n); }
void h_scale(void)
{
    static double const SV[] = { 1, -1, 2, -4, 0.25, 0 }; int t = ch("type", 0, 4), f = ch("form", 0, 2), k = t < 3 ? 3 : 2; double s[3], d = 0; int z = 0; aff_t n, i, e, ei;
    for (int j = 0; j < 3; j++) { s[j] = j < k && (f == 0 || j == 0) ? SV[ch("s", 0, 5)] : s[0]; if (j < k && s[j] == 0) z = 1; }
    if (f == 1) s[1] = s[2] = s[0]; if (f == 2) { s[1] = ch("neg", 0, 1) ? -s[0] : s[0]; s[2] = s[0]; }
    cp_vec3_t v3 = CP_VEC3(s[0], s[1], s[2]); cp_vec2_t v2 = CP_VEC2(s[0], s[1]);
    if (k == 3) { if (f == 0) ALL3(scale(&X, s[0], s[1], s[2])) else if (f == 1) ALL3(scale1(&X, s[0])) else ALL3(scale_v(&X, &v3)) }
    else { t -= 3; if (f == 0) ALL2(scale(&X, s[0], s[1])) else if (f == 1) ALL2(scale1(&X, s[0])) else ALL2(scale_v(&X, &v2)) }
    sub3(&e, &n); sub3(&ei, &n); double dd = 1; for (int j = 0; j < k; j++) { e.m[j][j] = s[j]; ei.m[j][j] = s[j] == 0 ? 0 : 1 / s[j]; dd *= s[j]; }
    CHECK(!adiff(&n, &e, 0), "scaling matrix is wrong"); CHECK(!adiff(&i, &ei, 0), "inverse of a scaling matrix is wrong"); CHECK(d == dd, "determinant of a scaling matrix is wrong");
    sx_reach(z ? "singular" : "scaled");
}
void h_xlat(void)
{
    int t = ch("type", 0, 4), f = ch("form", 0, 1), k = t < 3 ? 3 : 2; double v[3] = { num("x", -1000, 1000), num("y", -1000, 1000), num("z", -1000, 1000) }, d = 0; aff_t n, i, e, ei; cp_vec3_t v3 = CP_VEC3(v[0], v[1], v[2]); cp_vec2_t v2 = CP_VEC2(v[0], v[1]);
    if (t == 0) { cp_mat3i_t X; memset(&X, 85, sizeof X); if (f) cp_mat3i_xlat_v(&X, &v2); else cp_mat3i_xlat(&X, v[0], v[1]); GETI(mat3, X) }
    else if (t == 1) { cp_mat3wi_t X; memset(&X, 85, sizeof X); if (f) cp_mat3wi_xlat_v(&X, &v3); else cp_mat3wi_xlat(&X, v[0], v[1], v[2]); GETI(mat3w, X) }
    else if (t == 2) { cp_mat4i_t X; memset(&X, 85, sizeof X); if (f) cp_mat4i_xlat_v(&X, &v3); else cp_mat4i_xlat(&X, v[0], v[1], v[2]); GETI(mat4, X) }
    else if (t == 3) { cp_mat2wi_t X; memset(&X, 85, sizeof X); if (f) cp_mat2wi_xlat_v(&X, &v2); else cp_mat2wi_xlat(&X, v[0], v[1]); GETI(mat2w, X) }
    else return;
    ident(&e, n.n); ident(&ei, n.n); for (int j = 0; j < k; j++) { if (t == 0) { if (j < 2) { e.m[j][2] = v[j]; ei.m[j][2] = -v[j]; } } else if (t == 2) { e.m[j][3] = v[j]; ei.m[j][3] = -v[j]; } else { e.w[j] = v[j]; ei.w[j] = -v[j]; } }
    CHECK(!adiff(&n, &e, 0), "translation matrix is wrong"); CHECK(!adiff(&i, &ei, 0), "inverse of a translation matrix is wrong"); CHECK(d == 1, "determinant of a translation is not 1"); sx_reach("moved");
}
/* rotations about an axis: right-handed, exact at multiples of 90 degrees */
static void axis_rot(aff_t *e, int nn, int ax, double s, double c) { ident(e, nn); int u = (ax + 1) % 3, v = (ax + 2) % 3; e->m[u][u] = c; e->m[v][v] = c; e->m[v][u] = s; e->m[u][v] = -s; }
void h_rot(void)
{
    static double const S4[] = { 0, 1, 0, -1 }; int t = ch("type", 0, 2), f = ch("form", 0, 4), right = ch("right", 0, 1); double d = 0; aff_t n, i, e; int ax = ch("axis", 0, 2), neg = 0;
    int q = right ? ch("quarter", -9, 9) : ch("deg", -72, 72), an = right ? q * 90 : q * 5; cp_vec2_t sc = CP_SINCOS_DEG(an);
    double s, c; if (right) { s = S4[q & 3]; c = S4[(q + 1) & 3]; } else { s = sin(an * (3.14159265358979323846 / 180)); c = cos(an * (3.14159265358979323846 / 180)); }
    double L = 1; if (f >= 2) { neg = ch("neg", 0, 1); static double const LL[] = { 1, 4, 0.25, 3 }; L = LL[ch("len", 0, f == 2 ? 0 : 3)]; } cp_vec3_t u = CP_VEC3(0, 0, 0); u.v[ax] = neg ? -L : L;
    if (f == 0) { if (ax == 0) ALL3(rot_x(&X, &sc)) else if (ax == 1) ALL3(rot_y(&X, &sc)) else ALL3(rot_z(&X, &sc)) }
    else if (f == 1) ALL3(rot_ij(&X, (size_t)((ax + 1) % 3), (size_t)((ax + 2) % 3), &sc))
    else if (f == 2) ALL3(rot_unit(&X, &u, &sc))
    else if (f == 3) ALL3(rot_v(&X, &u, &sc))
    else { if (ax != 2) return; neg = 0; t = t > 1 ? 1 : t; ALL2(rot(&X, &sc)) ident(&e, 2); e.m[0][0] = e.m[1][1] = c; e.m[1][0] = s; e.m[0][1] = -s; }
    double eps = right ? 0 : 1e-14; if (f < 4) axis_rot(&e, n.n, ax, neg ? -s : s, c);
    CHECK(!adiff(&n, &e, eps), right ? "right-angle rotation is not exact" : "rotation is wrong"); consistent(&n, &i, d, right ? 0 : 1e-13, "inverse of a rotation does not undo it", "determinant of a rotation is wrong"); sx_reach(right ? "right angle" : "rotated");
}
/* rotation about any axis: Rodrigues' formula */
void h_rot_v(void)
{
    int t = ch("type", 0, 2), an = ch("deg", -13, 13) * 30, x = ch("x", -2, 2), y = ch("y", -2, 2), z = ch("z", -2, 2); if (!x && !y && !z) return; cp_vec3_t u = CP_VEC3(x, y, z); cp_vec2_t sc = CP_SINCOS_DEG(an); double d = 0, l = sqrt(x * x + y * y + z * z), k[3] = { x / l, y / l, z / l }, a = an * (3.14159265358979323846 / 180), s = sin(a), c = cos(a); aff_t n, i, e;
    ALL3(rot_v(&X, &u, &sc)) ident(&e, n.n);
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) e.m[p][q] = k[p] * k[q] * (1 - c) + (p == q ? c : (q == (p + 1) % 3 ? -s * k[(p + 2) % 3] : s * k[(p + 1) % 3]));
    CHECK(!adiff(&n, &e, 1e-12), "rotation about an axis is wrong"); consistent(&n, &i, d, 1e-12, "inverse of a rotation does not undo it", "determinant of a rotation is wrong"); sx_reach("rotated");
}
void h_mirror(void)
{
    int t = ch("type", 0, 4), x = ch("x", -3, 3), y = ch("y", -3, 3), z = t < 3 ? ch("z", -3, 3) : 0; if (!x && !y && !z) return; double d = 0, l2 = x * x + y * y + z * z, k[3] = { x, y, z }; aff_t n, i, e; cp_vec3_t v3 = CP_VEC3(x, y, z); cp_vec2_t v2 = CP_VEC2(x, y); int two = t >= 3;
    if (!two) ALL3(mirror_v(&X, &v3)) else { t -= 3; ALL2(mirror_v(&X, &v2)) }
    ident(&e, n.n); for (int p = 0; p < (two ? 2 : 3); p++) for (int q = 0; q < (two ? 2 : 3); q++) e.m[p][q] -= 2 * k[p] * k[q] / l2;
    bool axis = !!x + !!y + !!z == 1; CHECK(!adiff(&n, &e, axis ? 0 : 1e-12), "mirror matrix is wrong"); consistent(&n, &i, d, axis ? 0 : 1e-12, "a mirror does not undo itself", "determinant of a mirror is wrong"); sx_reach("mirrored");
}
/* rotations into the Z axis */
void h_into_z(void)
{
    int t = ch("type", 0, 2), x = ch("x", -3, 3), y = ch("y", -3, 3), z = ch("z", -3, 3), ok = 0; double d = 0; aff_t n, i; cp_vec3_t v = CP_VEC3(x, y, z);
    ALL3(rot_into_z(&X, &v); ok = cp_mat3wi_rot_into_z(&(cp_mat3wi_t){ 0 }, &v)) double l = sqrt(x * x + y * y + z * z);
    CHECK(ok == (l > 0), "rotatability is reported wrongly"); consistent(&n, &i, d, 1e-12, "inverse of a rotation does not undo it", "determinant of a rotation is wrong");
    if (l > 0) { double r[3]; for (int p = 0; p < 3; p++) r[p] = n.m[p][0] * x + n.m[p][1] * y + n.m[p][2] * z; CHECK(!(neq(r[0], 0, 1e-12) | neq(r[1], 0, 1e-12) | neq(r[2], l, 1e-12)), "vector is not rotated into the Z axis"); sx_reach("rotated"); } else sx_reach("no direction");
}
void h_into_zx(void)
{
    int ox = ch("ox", -1, 1), x = ch("x", -2, 2), y = ch("y", -2, 2), z = ch("z", -2, 2), bx = ch("bx", -2, 2), by = ch("by", -2, 2), bz = ch("bz", -1, 1), m = ch("m", 0, 2); cp_vec3_t o = CP_VEC3(ox, 2 * ox, -ox), a = CP_VEC3(ox + x, 2 * ox + y, -ox + z), b = CP_VEC3(ox + bx, 2 * ox + by, -ox + bz), r;
    if (m == 0 && ox) return; cp_mat3wi_t X; memset(&X, 0, sizeof X); cp_mat3w_t only; bool ok = cp_mat3wi_xform_into_zx(&X, m == 0 ? NULL : &o, &a, m == 2 ? NULL : &b); cp_mat3w_xform_into_zx_2(&only, NULL, m == 0 ? NULL : &o, &a, m == 2 ? NULL : &b);
    aff_t n, i, k; get_mat3w(&n, &X.n); get_mat3w(&i, &X.i); get_mat3w(&k, &only); CHECK(!adiff(&n, &k, 0), "result depends on the inverse being requested"); consistent(&n, &i, X.d, 1e-12, "inverse does not undo the transformation", "determinant is not 1");
    bool par = !(y * bz - z * by) && !(z * bx - x * bz) && !(x * by - y * bx), no = !x && !y && !z; double l = sqrt(x * x + y * y + z * z);
    cp_vec3w_xform(&r, &X.n, &o); CHECK(!(neq(r.x, 0, 1e-12) | neq(r.y, 0, 1e-12) | neq(r.z, 0, 1e-12)), "origin is not moved to the origin");
    if (!no) { cp_vec3w_xform(&r, &X.n, &a); CHECK(!(neq(r.x, 0, 1e-12) | neq(r.y, 0, 1e-12) | neq(r.z, l, 1e-12)), "axis is not rotated into the Z axis"); }
    if (m != 2 && !no && !par && (bx || by)) { cp_vec3w_xform(&r, &X.n, &b); CHECK(!neq(r.y, 0, 1e-12), "second vector is not rotated into the XZ plane"); sx_reach("second vector"); }
    if (no) CHECK(!ok, "no direction is reported as success"); else if (m == 2 || !par) { if (m == 2 || bx || by) CHECK(ok, "success is reported as failure"); sx_reach("rotated"); }
}
/* angles */
void h_sincos(void)
{
    static double const S12[] = { 0, 0.5, 9, 1, 9, 0.5, 0, -0.5, 9, -1, 9, -0.5 };
    static double const B[] = { 0, 1e6, -1e9, 1e12 }; int64_t k = sx_int("turns", -100, 100) + (int64_t)B[ch("base", 0, 3)]; int q = ch("q", 0, 11); double a = (double)(k * 360 + q * 30); if (S12[q] != 9) CHECK(cp_sin_deg(a) == S12[q], "sine is not exact"); if (S12[(q + 3) % 12] != 9) CHECK(cp_cos_deg(a) == S12[(q + 3) % 12], "cosine is not exact"); sx_reach("exact");
}
void h_sincos_any(void)
{
    int m = ch("m", -95, 95) * 97 + ch("l", 0, 96); double a = m / 8.0, r = a * (3.14159265358979323846 / 180); CHECK(!(neq(cp_sin_deg(a), sin(r), 1e-14) | neq(cp_cos_deg(a), cos(r), 1e-14)), "sine or cosine is wrong"); sx_reach("angle");
}
void h_get_int(void)
{
    uint64_t u = sx_u64("f"); double f; memcpy(&f, &u, 8); sx_opt("fp", 1); long long v = 77; bool ok = cp_f_get_int(&v, f);
    /* oracle on the bits */
    int e = (int)(u >> 52 & 2047) - 1023; uint64_t m = (u & 0xfffffffffffffull) | 1ull << 52; bool want = e >= 0 && e <= 52 && (m & ((1ull << (52 - (e < 0 || e > 52 ? 0 : e))) - 1)) == 0; 
    CHECK(ok == want, "integer value is not recognised"); if (ok) { long long w = (long long)(m >> (52 - e)); if (u >> 63) w = -w; CHECK(v == w, "integer value is wrong"); sx_reach("integer"); } else sx_reach("other");
}
/* vectors */
void h_vec(void)
{
    int R = (int)sx_param("R", 40); double a[3], b[3], o[3]; for (int i = 0; i < 3; i++) { a[i] = num("a", -R, R); b[i] = num("b", -R, R); o[i] = num("o", -R, R); } int al = ch("alias", 0, 2);
    cp_vec3_t A = CP_VEC3(a[0], a[1], a[2]), B = CP_VEC3(b[0], b[1], b[2]), O = CP_VEC3(o[0], o[1], o[2]), X, *r = al == 0 ? &X : al == 1 ? &A : &B; int bad = 0;
    cp_vec3_cross(r, &A, &B); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; bad |= r->v[i] != a[j] * b[k] - a[k] * b[j]; } CHECK(!bad, "cross product is wrong"); bad = 0;
    A = CP_VEC3(a[0], a[1], a[2]); B = CP_VEC3(b[0], b[1], b[2]); cp_vec3_right_cross3(r, &A, &O, &B); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; bad |= r->v[i] != (a[j] - o[j]) * (b[k] - o[k]) - (a[k] - o[k]) * (b[j] - o[j]); } CHECK(!bad, "cross product of three points is wrong"); bad = 0;
    A = CP_VEC3(a[0], a[1], a[2]); B = CP_VEC3(b[0], b[1], b[2]);
    bad |= cp_vec3_dot(&A, &B) != a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; bad |= cp_vec2_dot(&A.b, &B.b) != a[0] * b[0] + a[1] * b[1]; bad |= cp_vec2_cross_z(&A.b, &B.b) != a[0] * b[1] - a[1] * b[0]; bad |= cp_vec3_sqr_len(&A) != a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
    bad |= cp_vec2_right_cross3_z(&A.b, &O.b, &B.b) != (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]); CHECK(!bad, "vector product is wrong"); sx_reach("products");
}
/* all vectors, coordinate by coordinate; result may be one of the operands */
static double dabs(double a) { return a < 0 ? -a : a; }
static double len_of(double const *a, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * a[i]; return sqrt(s); }
#define VEC(N) static void vec##N(void) \
{ \
    int R = (int)sx_param("R", 50), al = ch("alias", 0, 2), k = ch("op", 0, 13), bad = 0; double a[N], b[N], q = 0; static double const C[] = { 0, 1, -1, 2, 4 }; int dv = k == 4 || k == 5, a0 = dv ? ch("a", -2, 2) : 0; \
    for (int i = 0; i < N; i++) { a[i] = dv ? a0 * (i + 1) + i : num("a", -R, R); b[i] = num("b", -R, R); } cp_vec##N##_t A, B, X, *r = al == 0 ? &X : al == 1 ? &A : &B; memset(&X, 0, sizeof X); \
    if (k == 4) for (int i = 0; i < N; i++) b[i] = C[ch("c", 0, 4)]; \
    if (k == 3 || k == 5 || k == 6) q = C[ch("c", 0, 4)]; \
    for (int i = 0; i < N; i++) { A.v[i] = a[i]; B.v[i] = b[i]; } \
    switch (k) { \
    case 0: cp_vec##N##_add(r, &A, &B); for (int i = 0; i < N; i++) bad |= r->v[i] != a[i] + b[i]; break; \
    case 1: cp_vec##N##_sub(r, &A, &B); for (int i = 0; i < N; i++) bad |= r->v[i] != a[i] - b[i]; break; \
    case 2: cp_vec##N##_neg(r, &A); for (int i = 0; i < N; i++) bad |= r->v[i] != -a[i]; break; \
    case 3: cp_vec##N##_mul(r, &A, q); for (int i = 0; i < N; i++) bad |= r->v[i] != a[i] * q; break; \
    case 4: cp_vec##N##_divc(r, &A, &B); for (int i = 0; i < N; i++) bad |= r->v[i] != (b[i] == 0 ? 0 : a[i] / (b[i] == 0 ? 1 : b[i])); break; \
    case 5: cp_vec##N##_div(r, &A, q); for (int i = 0; i < N; i++) bad |= r->v[i] != (q == 0 ? 0 : a[i] / (q == 0 ? 1 : q)); break; \
    case 6: cp_vec##N##_lerp(r, &A, &B, q); for (int i = 0; i < N; i++) bad |= r->v[i] != a[i] + (b[i] - a[i]) * q; break; \
    case 7: cp_vec##N##_rev(r, &A); for (int i = 0; i < N; i++) bad |= r->v[i] != a[N - 1 - i]; break; \
    case 8: cp_vec##N##_min(r, &A, &B); for (int i = 0; i < N; i++) bad |= r->v[i] != (a[i] < b[i] ? a[i] : b[i]); break; \
    case 9: cp_vec##N##_max(r, &A, &B); for (int i = 0; i < N; i++) bad |= r->v[i] != (a[i] > b[i] ? a[i] : b[i]); break; \
    case 10: { double m = cp_vec##N##_max_abs_coord(&A), w = 0; for (int i = 0; i < N; i++) w = dabs(a[i]) > w ? dabs(a[i]) : w; bad |= m != w; bool z = true; for (int i = 0; i < N; i++) z &= a[i] == 0; bad |= cp_vec##N##_has_len0(&A) != z; break; } \
    case 11: { double d = 0, s = 0, t = 0; for (int i = 0; i < N; i++) { d += a[i] * b[i]; s += a[i] * a[i]; t += (a[i] - b[i]) * (a[i] - b[i]); } bad |= cp_vec##N##_dot(&A, &B) != d; bad |= cp_vec##N##_sqr_len(&A) != s; bad |= cp_vec##N##_sqr_dist(&A, &B) != t; break; } \
    case 12: { bool e = true; int c = 0; for (int i = 0; i < N; i++) { e &= a[i] == b[i]; int l = (a[i] > b[i]) - (a[i] < b[i]); c = c ? c : l; } bad |= cp_vec##N##_eq(&A, &B) != e; bad |= cp_vec##N##_lex_cmp(&A, &B) != c; break; } \
    case 13: { static double const S[] = { 1, 0x1p-12, 0x1p-14, 0x1p-20, 0x1p-29, 0x1p-40, 0x1p12 }; double f = S[ch("size", 0, 6)]; for (int i = 0; i < N; i++) A.v[i] = a[i] = ch("u", -2, 2) * f; bool ok = cp_vec##N##_unit(r, &A); double l = len_of(a, N); int z = 1; for (int i = 0; i < N; i++) z &= r->v[i] == 0; bad |= ok != !z; if (l >= 0x1p-14) bad |= z; if (l < 0x1p-30) bad |= !z; if (!z) for (int i = 0; i < N; i++) bad |= neq(r->v[i], a[i] / l, 1e-12); break; } \
    } \
    CHECK(!bad, "vector operation is wrong"); sx_reach("computed"); \
} \
static void box##N(void) \
{ \
    int R = (int)sx_param("R", 50), al = ch("alias", 0, 2), bad = 0; double al_[N], ah[N], bl[N], bh[N], p[N]; int va = 1, vb = 1, ina = 1, inb = 1, vi = 1; cp_vec##N##_minmax_t A, B, X, Y, *r = al == 0 ? &X : al == 1 ? &A : &B; cp_vec##N##_t P; \
    for (int i = 0; i < N; i++) { A.min.v[i] = al_[i] = num("a", -R, R); A.max.v[i] = ah[i] = num("A", -R, R); B.min.v[i] = bl[i] = num("b", -R, R); B.max.v[i] = bh[i] = num("B", -R, R); P.v[i] = p[i] = num("p", -R, R); va &= al_[i] <= ah[i]; vb &= bl[i] <= bh[i]; ina &= (al_[i] <= p[i]) & (p[i] <= ah[i]); inb &= (bl[i] <= p[i]) & (p[i] <= bh[i]); } \
    CHECK(cp_vec##N##_minmax_valid(&A) == va, "validity of a bounding box is wrong"); Y = A; cp_vec##N##_minmax(&Y, &P); for (int i = 0; i < N; i++) { bad |= Y.min.v[i] != (p[i] < al_[i] ? p[i] : al_[i]); bad |= Y.max.v[i] != (p[i] > ah[i] ? p[i] : ah[i]); } CHECK(!bad, "bounding box does not grow by a point"); \
    if (ch("or", 0, 1)) { cp_vec##N##_minmax_or(r, &A, &B); for (int i = 0; i < N; i++) { double l = !va ? bl[i] : !vb ? al_[i] : al_[i] < bl[i] ? al_[i] : bl[i], h = !va ? bh[i] : !vb ? ah[i] : ah[i] > bh[i] ? ah[i] : bh[i]; bad |= r->min.v[i] != l; bad |= r->max.v[i] != h; } CHECK(!bad, "union of bounding boxes is wrong"); } \
    else { cp_vec##N##_minmax_and(r, &A, &B); for (int i = 0; i < N; i++) { vi &= (r->min.v[i] <= p[i]) & (p[i] <= r->max.v[i]); } CHECK(vi == (ina & inb), "intersection of bounding boxes is wrong"); } \
    sx_reach("boxes"); \
}
VEC(2) VEC(3) VEC(4)
/* normals of short and of long vectors */
void h_normal(void)
{
    static double const S[] = { 1, 0x1p-7, 0x1p-10, 0x1p-14, 0x1p10 }; double f = S[ch("size", 0, 4)], g = S[ch("other", 0, 4)], a[3], b[3], c[3], l = 0; for (int i = 0; i < 3; i++) a[i] = ch("a", -1, 1) * f; for (int i = 0; i < 3; i++) b[i] = ch("b", -1, 1) * g; static double const O[][3] = { { 0, 0, 0 }, { 8, -4, 16 } }; int oo = ch("origin", 0, 1);
    for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; c[i] = (a[j] * b[k] - a[k] * b[j]) / (f * g); l += c[i] * c[i]; } l = sqrt(l);
    cp_vec3_t A = CP_VEC3(a[0] + O[oo][0], a[1] + O[oo][1], a[2] + O[oo][2]), B = CP_VEC3(b[0] + O[oo][0], b[1] + O[oo][1], b[2] + O[oo][2]), P = CP_VEC3(O[oo][0], O[oo][1], O[oo][2]), N; bool ok = oo ? cp_vec3_right_normal3(&N, &A, &P, &B) : cp_vec3_normal(&N, &A, &B);
    int bad = 0; CHECK(ok == (l > 0), "vectors in one line are not noticed, or others are taken as such"); if (ok) for (int i = 0; i < 3; i++) bad |= neq(N.v[i], c[i] / l, 1e-12); CHECK(!bad, "normal is wrong"); sx_reach(ok ? "normal" : "in line");
}
void h_vecs(void) { int n = ch("n", 2, 4); if (n == 2) vec2(); else if (n == 3) vec3(); else vec4(); }
void h_boxes(void) { int n = ch("n", 2, (int)sx_param("nmax", 3)); if (n == 2) box2(); else if (n == 3) box3(); else box4(); }
void h_nearest(void)
{
    static double const U[][2] = { { 1, 0 }, { 0, -1 }, { 0.6, 0.8 }, { -0.8, 0.6 } }; int k = ch("dir", 0, 3); cp_vec2_t u = CP_VEC2(U[k][0], U[k][1]), a = CP_VEC2(ch("ax", -2, 2), ch("ay", -2, 2)), p = CP_VEC2(ch("px", -3, 3), ch("py", -3, 3)), r; cp_vec2_nearest(&r, &a, &u, &p);
    double t = (p.x - a.x) * u.x + (p.y - a.y) * u.y; CHECK(!(neq(r.x, a.x + t * u.x, 1e-9) | neq(r.y, a.y + t * u.y, 1e-9)), "nearest point of a line is wrong"); sx_reach("nearest");
    if (p.x != a.x || p.y != a.y || k) return; int ax = ch("bx", -2, 2), ay = ch("by", -2, 2), bx = ch("cx", -2, 2), by = ch("cy", -2, 2); if ((!ax && !ay) || (!bx && !by)) return; cp_vec2_t o = CP_VEC2(3, -1), A = CP_VEC2(3 + ax, -1 + ay), B = CP_VEC2(3 + bx, -1 + by);
    double w = cp_vec2_angle3(&A, &o, &B), c = ax * bx + ay * by, s = ax * by - ay * bx, l = sqrt(c * c + s * s); CHECK(!(neq(cos(w), c / l, 1e-9) | neq(sin(w), s / l, 1e-9)) && w > -3.1415926535898 && w < 3.1415926535898, "angle between vectors is wrong"); sx_reach("angle");
}
void h_in_line(void)
{
    int R = (int)sx_param("R", 8); double p[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p[i][j] = num("p", -R, R); cp_vec3_t A = CP_VEC3(p[0][0], p[0][1], p[0][2]), B = CP_VEC3(p[1][0], p[1][1], p[1][2]), C = CP_VEC3(p[2][0], p[2][1], p[2][2]);
    double c[3]; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; c[i] = (p[1][j] - p[0][j]) * (p[2][k] - p[1][k]) - (p[1][k] - p[0][k]) * (p[2][j] - p[1][j]); }
    CHECK(cp_vec2_in_line(&A.b, &B.b, &C.b) == (c[2] == 0), "collinearity in 2D is wrong"); CHECK(cp_vec3_in_line(&A, &B, &C) == ((c[0] == 0) & (c[1] == 0) & (c[2] == 0)), "collinearity in 3D is wrong"); sx_reach("line");
}
/* conversions between matrix kinds */
void h_conv(void)
{
    int k = ch("kind", 0, 5), R = 9; aff_t a, g, e; cp_mat2w_t m2; cp_mat3w_t m3; cp_mat3_t l3; cp_mat4_t m4; bool ok = true, want = true;
    switch (k) {
    case 0: rnd(&a, 3, -R, R, R); put_mat3w(&m3, &a); cp_mat4_from_mat3w(&m4, &m3); get_mat4(&g, &m4); ident(&e, 4); for (int y = 0; y < 3; y++) { for (int x = 0; x < 3; x++) e.m[y][x] = a.m[y][x]; e.m[y][3] = a.w[y]; } break;
    case 1: rnd(&a, 4, -1, 1, 0); put_mat4(&m4, &a); ok = cp_mat3w_from_mat4(&m3, &m4); get_mat3w(&g, &m3); ident(&e, 3); for (int y = 0; y < 3; y++) { for (int x = 0; x < 3; x++) e.m[y][x] = a.m[y][x]; e.w[y] = a.m[y][3]; } want = (a.m[3][0] == 0) & (a.m[3][1] == 0) & (a.m[3][2] == 0) & (a.m[3][3] == 1); break;
    case 2: rnd(&a, 2, -R, R, R); put_mat2w(&m2, &a); cp_mat3_from_mat2w(&l3, &m2); get_mat3(&g, &l3); ident(&e, 3); for (int y = 0; y < 2; y++) { for (int x = 0; x < 2; x++) e.m[y][x] = a.m[y][x]; e.m[y][2] = a.w[y]; } break;
    case 3: rnd(&a, 3, -1, 1, 0); put_mat3(&l3, &a); ok = cp_mat2w_from_mat3(&m2, &l3); get_mat2w(&g, &m2); ident(&e, 2); for (int y = 0; y < 2; y++) { for (int x = 0; x < 2; x++) e.m[y][x] = a.m[y][x]; e.w[y] = a.m[y][2]; } want = (a.m[2][0] == 0) & (a.m[2][1] == 0) & (a.m[2][2] == 1); break;
    case 4: rnd(&a, 3, -1, 1, 1); put_mat3w(&m3, &a); ok = cp_mat2w_from_mat3w(&m2, &m3); get_mat2w(&g, &m2); ident(&e, 2); for (int y = 0; y < 2; y++) { for (int x = 0; x < 2; x++) e.m[y][x] = a.m[y][x]; e.w[y] = a.w[y]; } want = (a.m[2][0] == 0) & (a.m[2][1] == 0) & (a.m[0][2] == 0) & (a.m[1][2] == 0) & (a.m[2][2] == 1) & (a.w[2] == 0); break;
    case 5: rnd(&a, 2, -R, R, R); put_mat2w(&m2, &a); cp_mat3w_from_mat2w(&m3, &m2); get_mat3w(&g, &m3); ident(&e, 3); for (int y = 0; y < 2; y++) { for (int x = 0; x < 2; x++) e.m[y][x] = a.m[y][x]; e.w[y] = a.w[y]; } break;
    }
    CHECK(!adiff(&g, &e, 0), "converted matrix is wrong"); CHECK(ok == want, "convertibility is reported wrongly"); sx_reach(ok ? "converted" : "not convertible");
}
/* conversions of matrices with inverse */
void h_convi(void)
{
    int k = ch("kind", 0, 4), ok = 1, want = 1, dim; aff_t a, b, e, f, g, h; double d = num("d", -9, 9), gd, wd = d; cp_mat2wi_t m2; cp_mat3wi_t m3; cp_mat3i_t l3; cp_mat4i_t m4; memset(&m2, 0, sizeof m2); memset(&m3, 0, sizeof m3); memset(&l3, 0, sizeof l3); memset(&m4, 0, sizeof m4);
    int R = k <= 2 ? 1 : 5, flat = k == 2;
    switch (k) {
    case 0: rnd(&a, 4, -R, R, 0); rnd(&b, 4, -R, R, 0); for (int i = 0; i < 3; i++) b.m[3][i] = 0; b.m[3][3] = 1; put_mat4(&m4.n, &a); put_mat4(&m4.i, &b); m4.d = d; ok = cp_mat3wi_from_mat4i(&m3, &m4); want = (a.m[3][0] == 0) & (a.m[3][1] == 0) & (a.m[3][2] == 0) & (a.m[3][3] == 1); dim = 3; break;
    case 1: rnd(&a, 3, -R, R, 0); rnd(&b, 3, -R, R, 0); put_mat3(&l3.n, &a); put_mat3(&l3.i, &b); l3.d = d; ok = cp_mat2wi_from_mat3i(&m2, &l3); want = (a.m[2][0] == 0) & (a.m[2][1] == 0) & (a.m[2][2] == 1) & (b.m[2][0] == 0) & (b.m[2][1] == 0) & (b.m[2][2] == 1); dim = 2; break;
    case 2: rnd(&a, 3, -R, R, R); ident(&b, 3); put_mat3w(&m3.n, &a); put_mat3w(&m3.i, &b); m3.d = d; ok = cp_mat2wi_from_mat3wi(&m2, &m3); want = (a.m[2][0] == 0) & (a.m[2][1] == 0) & (a.m[0][2] == 0) & (a.m[1][2] == 0) & (a.m[2][2] == 1) & (a.w[2] == 0); dim = 2; break;
    case 3: rnd(&a, 3, -R, R, R); rnd(&b, 3, -R, R, R); put_mat3w(&m3.n, &a); put_mat3w(&m3.i, &b); m3.d = d; cp_mat4i_from_mat3wi(&m4, &m3); dim = 4; break;
    default: rnd(&a, 2, -R, R, R); rnd(&b, 2, -R, R, R); put_mat2w(&m2.n, &a); put_mat2w(&m2.i, &b); m2.d = d; cp_mat3i_from_mat2wi(&l3, &m2); dim = 3; break;
    }
    for (int z = 0; z < 2; z++) { aff_t *s = z ? &b : &a, *t = z ? &f : &e; int n = k == 4 ? 2 : k == 1 || k == 2 ? 2 : 3; ident(t, dim); if (k >= 3) { for (int y = 0; y < n; y++) { for (int x = 0; x < n; x++) t->m[y][x] = s->m[y][x]; t->m[y][n] = s->w[y]; } } else for (int y = 0; y < n; y++) { for (int x = 0; x < n; x++) t->m[y][x] = s->m[y][x]; t->w[y] = flat ? s->w[y] : s->m[y][n]; } }
    if (k == 0) { get_mat3w(&g, &m3.n); get_mat3w(&h, &m3.i); gd = m3.d; } else if (k <= 2) { get_mat2w(&g, &m2.n); get_mat2w(&h, &m2.i); gd = m2.d; } else if (k == 3) { get_mat4(&g, &m4.n); get_mat4(&h, &m4.i); gd = m4.d; } else { get_mat3(&g, &l3.n); get_mat3(&h, &l3.i); gd = l3.d; }
    if (k <= 2) wd = adet(&e);
    CHECK(ok == want, "convertibility is reported wrongly"); if (want) { CHECK(!adiff(&g, &e, 0) && !adiff(&h, &f, 0), "converted matrix is wrong"); CHECK(gd == wd, "determinant of a converted matrix is wrong"); } sx_reach(want ? "converted" : "not convertible");
}
void h_rect(void)
{
    aff_t a; rnd(&a, 3, -1, 1, 0); cp_mat3_t m; put_mat3(&m, &a); int bad = 0;
    for (int i = 0; i < 3; i++) { int r = 0, c = 0; for (int j = 0; j < 3; j++) { r += a.m[i][j] != 0; c += a.m[j][i] != 0; } bad |= r > 1; bad |= c > 1; }
    sx_assume(adet(&a) != 0); CHECK(cp_mat3_is_rect_rot(&m) == !bad, "rectangular rotation is recognised wrongly"); sx_reach(bad ? "other" : "rectangular");
}
/* point arrays seen through references to two of their coordinates */
void h_refs(void)
{
    enum { K = 4 }; int k = ch("kind", 0, 3), n = ch("n", 1, K), i = ch("i", 0, n - 1); double c[K][3]; cp_vec2_arr_ref_t a; memset(&a, 0, sizeof a);
    cp_v_vec2_loc_t v2; cp_vec3_loc_t d3[K]; cp_vec3_loc_ref_t dr[K]; memset(&v2, 0, sizeof v2); memset(d3, 0, sizeof d3); memset(dr, 0, sizeof dr); cp_a_vec3_loc_t v3 = { .data = d3, .size = (size_t)n }; cp_a_vec3_loc_ref_t r3 = { .data = dr, .size = (size_t)n };
    for (int j = 0; j < n; j++) { for (int l = 0; l < 3; l++) c[j][l] = num("c", -99, 99); cp_vec2_loc_t p; memset(&p, 0, sizeof p); p.coord.x = c[j][0]; p.coord.y = c[j][1]; cp_v_push(&v2, p); for (int l = 0; l < 3; l++) d3[j].coord.v[l] = c[j][l]; dr[j].ref = d3 + (j * 3 + 1) % n; }
    cp_csg2_poly_t poly; memset(&poly, 0, sizeof poly); poly.point = v2; cp_vec2_minmax_t b = CP_VEC2_MINMAX_EMPTY; cp_csg2_poly_minmax(&b, &poly); int bad = 0;
    for (int l = 0; l < 2; l++) { double lo = c[0][l], hi = c[0][l]; for (int j = 1; j < n; j++) { lo = c[j][l] < lo ? c[j][l] : lo; hi = c[j][l] > hi ? c[j][l] : hi; } bad |= b.min.v[l] != lo; bad |= b.max.v[l] != hi; } CHECK(!bad, "bounding box of a polygon is wrong");
    int ix = i; if (k == 0) cp_vec2_arr_ref_from_v_vec2_loc(&a, &v2); else if (k == 1) cp_vec2_arr_ref_from_a_vec3_loc_xy(&a, &v3); else { cp_vec2_arr_ref_from_a_vec3_loc_ref(&a, &v3, &r3, k == 3); ix = (int)(dr[i].ref - d3); }
    cp_vec2_t *p = a.nth(&a, (size_t)i); bad |= p->x != c[ix][k == 3]; bad |= p->y != c[ix][1 + (k == 3)]; CHECK(!bad, "reference to a point is wrong"); CHECK(a.idx(&a, p) == (size_t)ix, "index of a point is wrong"); sx_reach("reference");
}
