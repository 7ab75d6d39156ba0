/* C02 segment intersection, C03 pixel predicate, C04 import/export */
#include "common.h"
#include <limits.h>
#include <math.h>
#include <hob3lop/matq.h>
#include <hob3lop/gon.h>
#include <hob3lop/hedron.h>
#include <hob3lop/op-sweep.h>
typedef __int128 i128; typedef long long ll;
static int sgn(i128 x) { return x < 0 ? -1 : x > 0; }
/* reference: classification from orientations only */
static int ref_class(ll x1, ll y1, ll x2, ll y2, ll x3, ll y3, ll x4, ll y4, i128 *D, i128 *T, i128 *U)
{
    i128 d = (i128)(x2 - x1) * (y4 - y3) - (i128)(y2 - y1) * (x4 - x3);
    i128 t = (i128)(x3 - x1) * (y4 - y3) - (i128)(y3 - y1) * (x4 - x3), u = (i128)(x3 - x1) * (y2 - y1) - (i128)(y3 - y1) * (x2 - x1);
    if (d < 0) { d = -d; t = -t; u = -u; }
    *D = d; *T = t; *U = u;
    if (d == 0) return -1;
    if (t < 0 || t > d || u < 0 || u > d) return 0;
    return 1 | 2 * (t == 0) | 4 * (t == d) | 8 * (u == 0) | 16 * (u == d);
}
static void exact(cq_dimif_t const *v, i128 num, i128 den) /* v == num/den, den > 0 */
{
    CHECK(v->d > 0 && v->n < v->d, "fraction is not normalised");
    CHECK(((i128)v->i * v->d + v->n) * den == num * (i128)v->d, "intersection point is not exact");
}
static void isect(cq_vec2_t a, cq_vec2_t b, cq_vec2_t c, cq_vec2_t d)
{
    i128 D, T, U; cq_vec2if_t i; memset(&i, 0, sizeof i); cq_vec2_t r;
    int w = ref_class(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, &D, &T, &U);
    int g = cq_vec2if_intersect(&i, a, b, c, d);
    CHECK(g == w, "segments are classified wrongly");
    if (w > 0) {
        exact(&i.x, (i128)a.x * D + (i128)(b.x - a.x) * T, D); exact(&i.y, (i128)a.y * D + (i128)(b.y - a.y) * T, D);
        int h = cq_vec2_intersect(&r, a, b, c, d); CHECK(h == w, "rounded intersection is classified differently");
        CHECK(r.x == cq_round(&i.x) && r.y == cq_round(&i.y), "rounded intersection point");
        cq_line2_t l = { .a = a, .b = b }, m = { .a = c, .b = d }; cq_vec2if_t j;
        CHECK(cq_line2if_intersect(&j, &l, &m) == w && cq_vec2if_eq(&i, &j), "line intersection differs");
        sx_reach(w == 1 ? "crossing" : "touching");
    } else sx_reach(w == 0 ? "apart" : "parallel");
}
static cq_vec2_t pt(ll x, ll y) { return (cq_vec2_t){ .x = (int)x, .y = (int)y }; }
static ll const SC[] = { 1, 3, 1 << 14, (1 << 24) + 3 };
/* both directions fixed per path (any of a grid, at several scales), the second segment anywhere */
void h_isect_class(void)
{
    int R = (int)sx_param("R", 2), B = (1 << (int)sx_param("bits", 10)) - 1; int m = ch("scale", 0, (int)sx_param("scales", 1)); ll s = SC[m & 3], t = SC[m >> 2];
    int dx = ch("dx", 0, R), dy = ch("dy", -R, R), ex = ch("ex", -R, R), ey = ch("ey", -R, R);
    ll x = sx_int("x", -B, B), y = sx_int("y", -B, B), o = sx_param("off", 1000000);
    i128 D, T, U; cq_vec2_t a = pt(o, -o), b = pt(o + dx * s, -o + dy * s), p = pt(o + x, -o + y), q = pt(o + x + ex * t, -o + y + ey * t);
    int w = ref_class(a.x, a.y, b.x, b.y, p.x, p.y, q.x, q.y, &D, &T, &U); cq_vec2if_t i;
    int g = cq_vec2if_intersect(&i, a, b, p, q);
    CHECK(g == w, "segments are classified wrongly");
    if (w > 1) { cq_vec2_t r = w & 2 ? a : w & 4 ? b : w & 8 ? p : q; CHECK(i.x.i == r.x && i.y.i == r.y && i.x.n == 0 && i.y.n == 0 && i.x.d > 0 && i.y.d > 0, "touching point is not the end point"); sx_reach("touching"); }
    else sx_reach(w == 1 ? "crossing" : w == 0 ? "apart" : "parallel");
}
/* exact point: as before, small second range */
void h_isect_point(void)
{
    int R = (int)sx_param("R", 2), B = (int)sx_param("B", 6), m = ch("scale", 0, (int)sx_param("scales", 1)); ll s = SC[m & 3];
    int dx = ch("dx", 0, R), dy = ch("dy", -R, R), ex = ch("ex", -R, R), ey = ch("ey", -R, R);
    ll x = sx_int("x", -B, B), y = sx_int("y", -B, B), o = sx_param("off", 1000000);
    isect(pt(o, -o), pt(o + dx * s, -o + dy * s), pt(o + x * s, -o + y * s), pt(o + (x + ex) * s, -o + (y + ey) * s));
}
/* large coordinates: nearly axis-parallel or nearly parallel segments */
void h_isect_large(void)
{
    static int const B[] = { 1, 1 << 10, 1 << 20, (1 << 29) - 1, 1 << 29 };
    ll w = B[ch("w", 0, 4)], h = B[ch("h", 0, 4)], u = B[ch("u", 1, 4)], v = B[ch("v", 0, 4)]; int e = (int)sx_param("e", 1);
    ll a = ch("a", -e, e), b = sx_int("b", -e, e);
    isect(pt(-w + a, -h), pt(w, h + b), pt(-v, u), pt(v, -u));
}
/* the verdict does not depend on order or direction */
void h_isect_sym(void)
{
    int R = (int)sx_param("R", 2), B = (int)sx_param("B", 4); int dx = ch("dx", 0, R), dy = ch("dy", -R, R), ex = ch("ex", 0, R), ey = ch("ey", -R, R);
    ll x = sx_int("x", -B, B), y = sx_int("y", -B, B);
    cq_vec2_t a = pt(0, 0), b = pt(dx, dy), p = pt(x, y), q = pt(x + ex, y + ey); cq_vec2if_t i, j, k, l;
    int g = cq_vec2if_intersect(&i, a, b, p, q), h = cq_vec2if_intersect(&j, b, a, p, q), m = cq_vec2if_intersect(&k, p, q, a, b), n = cq_vec2if_intersect(&l, a, b, q, p);
    CHECK((g < 0) == (h < 0) && (g < 0) == (m < 0) && (g < 0) == (n < 0) && (g > 0) == (h > 0) && (g > 0) == (m > 0) && (g > 0) == (n > 0), "verdict depends on the order");
    if (g > 0) {
        CHECK((h & 1) == (g & 1) && ((h >> 1 & 1) == (g >> 2 & 1)) && ((h >> 2 & 1) == (g >> 1 & 1)) && (h >> 3) == (g >> 3), "verdict depends on the direction");
        CHECK((m >> 1 & 3) == (g >> 3 & 3) && (m >> 3 & 3) == (g >> 1 & 3), "verdict depends on the order of the segments");
        CHECK((n >> 1 & 3) == (g >> 1 & 3) && (n >> 3 & 1) == (g >> 4 & 1) && (n >> 4 & 1) == (g >> 3 & 1), "verdict depends on the direction of the second segment");
        CHECK(cq_vec2if_eq(&i, &j) && cq_vec2if_eq(&i, &k) && cq_vec2if_eq(&i, &l), "point depends on the order"); sx_reach("meet"); }
}
/* any-pair query on up to 3 segments */
static int between(ll a, ll b, ll c) { return (a <= b && b <= c) || (c <= b && b <= a); }
static int on_seg(ll px, ll py, ll ax, ll ay, ll bx, ll by) { return (bx - ax) * (py - ay) == (by - ay) * (px - ax) && between(ax, px, bx) && between(ay, py, by); }
void h_isect_any(void)
{
    int n = (int)sx_param("n", 2), R = (int)sx_param("R", 2); ll c[16]; cq_v_line2_t g; memset(&g, 0, sizeof g);
    for (int k = 0; k < n; k++) { int sym = k == 0; for (int j = 0; j < 4; j++) c[4 * k + j] = sym && j < 2 ? sx_int("c", 0, R) : ch("c", 0, R); if (k == 0) { c[2] += c[0] - (R + 1) / 2; c[3] += c[1] - (R + 1) / 2; } sx_assume(c[4 * k] != c[4 * k + 2] || c[4 * k + 1] != c[4 * k + 3]); cq_line2_t l = { .a = pt(c[4*k], c[4*k+1]), .b = pt(c[4*k+2], c[4*k+3]) }; cp_v_push(&g, l); }
    int over = 0, cross = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        ll *p = c + 4 * i, *q = c + 4 * j; i128 D, T, U; int w = ref_class(p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], &D, &T, &U);
        int same = (p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3]) || (p[0] == q[2] && p[1] == q[3] && p[2] == q[0] && p[3] == q[1]);
        if (w < 0 && !same) { int in = 0; for (int e = 0; e < 2; e++) { in |= on_seg(q[2*e], q[2*e+1], p[0], p[1], p[2], p[3]) && !(q[2*e] == p[0] && q[2*e+1] == p[1]) && !(q[2*e] == p[2] && q[2*e+1] == p[3]); in |= on_seg(p[2*e], p[2*e+1], q[0], q[1], q[2], q[3]) && !(p[2*e] == q[0] && p[2*e+1] == q[1]) && !(p[2*e] == q[2] && p[2*e+1] == q[3]); } over |= in; }
        if (w > 0 && !((w & 6) && (w & 24))) cross = 1;
    }
    cq_vec2if_t ip; cq_line2_t const *ap = NULL, *bp = NULL; int r = cq_has_intersect(&ip, &ap, &bp, &g);
    CHECK((r != 0) == (over || cross), "crossing segments not found, or found where there are none");
    if (r != 0) { CHECK(ap && bp && ap != bp && ap >= g.data && ap < g.data + n && bp >= g.data && bp < g.data + n, "wrong pair reported");
        if (r < 0) CHECK(over, "overlap reported where there is none"); else CHECK(cross, "crossing reported where there is none");
        CHECK(ip.x.d > 0 && ip.x.n < ip.x.d && ip.y.d > 0 && ip.y.n < ip.y.d, "reported point is malformed"); sx_reach(r < 0 ? "overlap" : "cross");
        if (r < 0 && ip.x.n == 0 && ip.y.n == 0) { CHECK(on_seg(ip.x.i, ip.y.i, ap->a.x, ap->a.y, ap->b.x, ap->b.y) && on_seg(ip.x.i, ip.y.i, bp->a.x, bp->a.y, bp->b.x, bp->b.y), "reported point is not common"); } }
    else sx_reach("free");
}
/* ---------------- C03 */
/* does the segment k--l meet the half-open unit square around v: exact geometry on doubled coordinates */
static int ref_pixel(i128 vx, i128 vy, i128 lx, i128 ly, i128 kx, i128 ky, i128 bb)
{
    i128 dx = kx - lx, dy = ky - ly;
    /* f(p) = cross(p, l, k) for the doubled corners p = 2v + (+-1, +-1): linear in p, f(2v) = 2 bb */
    i128 bl = 2 * bb - dy + dx, br = 2 * bb + dy + dx, tl = 2 * bb - dy - dx, tr = 2 * bb + dy - dx;
    int neg = bl < 0 || br < 0 || tl < 0 || tr < 0, pos = bl > 0 || br > 0 || tl > 0 || tr > 0;
    int hits = (neg && pos) || bl == 0; /* the corner bl (and the edges at it) belongs to the square, the others do not */
    int xo = !((vx < lx && vx < kx) || (vx > lx && vx > kx)), yo = !((vy < ly && vy < ky) || (vy > ly && vy > ky));
    return hits && xo && yo;
}
static int lex(i128 ax, i128 ay, i128 bx, i128 by) { return ax < bx ? -1 : ax > bx ? 1 : ay < by ? -1 : ay > by; }
static void pixel(int vx, int vy, int lx, int ly, int kx, int ky, i128 bb)
{
    int r = cq_cmp_edge_rnd(vx, vy, lx, ly, kx, ky);
    int hit = ref_pixel(vx, vy, lx, ly, kx, ky, bb);
    CHECK((r == 0) == hit, "edge passes through a pixel: wrong verdict");
    if (!hit) { int w = bb ? sgn(bb) : lex(vx, vy, kx, ky); CHECK(r == w, "edge passes the pixel on the wrong side"); sx_reach(bb ? "beside" : "in line"); } else sx_reach("through");
}
void h_pixel_all(void)
{
    int B = (1 << (int)sx_param("bits", 28)) - 1, R = (int)sx_param("R", 2); static int const S[] = { 1, 1000, 1 << 20, (1 << 27) - 1 }; int m = ch("s", 0, (int)sx_param("scales", 3));
    int dx = ch("dx", 0, R) * S[m] + ch("px", -1, 1), dy = ch("dy", -R, R) * S[m & 3] + ch("py", -1, 1); sx_assume(dx > 0 || (dx == 0 && dy > 0));
    int kx = (int)sx_int("kx", -B, B), ky = (int)sx_int("ky", -B, B), vx = (int)sx_int("vx", -B, B), vy = (int)sx_int("vy", -B, B), lx = kx + dx, ly = ky + dy;
    ll bb = (ll)(vx - lx) * -(ll)dy - (ll)(vy - ly) * -(ll)dx;
    pixel(vx, vy, lx, ly, kx, ky, bb);
}
/* direct oracle: position of the segment along the column of the pixel, small grid */
void h_pixel_grid(void)
{
    int R = (int)sx_param("R", 4); int dx = ch("dx", 0, R), dy = ch("dy", -R, R); sx_assume(dx > 0 || dy > 0);
    ll vx = sx_int("vx", -R, R), vy = sx_int("vy", -R, R), o = ch("o", 0, 1) * 500000000;
    /* segment k=(0,0) -> l=(dx,dy); points P(t) = t(dx,dy)/Q for t=0..Q, all constraints rational in t: intersect intervals */
    ll Q = 2; /* doubled coordinates: 2v-1 <= 2 t d < 2v+1, 0<=t<=1 */
    int hit = 0;
    if (dx == 0 || dy == 0) { ll m = dx ? dx : dy; ll along = dx ? vx : vy, across = dx ? vy : vx; ll lo = m > 0 ? 0 : m, hi = m > 0 ? m : 0; hit = across == 0 && along >= lo && along <= hi; }
    else { /* t in [ (2vx-1)/(2dx), (2vx+1)/(2dx) )  and for y, orientation by sign of dy; compare over the common denominator 2 dx |dy| */
        ll ay = dy < 0 ? -dy : dy, den = Q * dx * ay; ll xl = (2 * vx - 1) * ay, xh = (2 * vx + 1) * ay; ll sy = dy < 0 ? -vy : vy; ll yl = (2 * sy - 1) * dx, yh = (2 * sy + 1) * dx;
        /* x: [xl, xh)  y: [yl, yh) if dy>0, (yl, yh] if dy<0  t: [0, den] */
        ll lo = xl > 0 ? xl : 0; int lo_open = 0; if (yl > lo) { lo = yl; lo_open = dy < 0; } else if (yl == lo && dy < 0) lo_open = 1;
        ll hi = den; int hi_open = 0; if (xh <= hi) { hi = xh; hi_open = 1; } if (yh < hi) { hi = yh; hi_open = dy > 0; } else if (yh == hi && dy > 0) hi_open = 1;
        hit = lo < hi || (lo == hi && !lo_open && !hi_open);
    }
    int r = cq_cmp_edge_rnd((int)(vx + o), (int)(vy - o), (int)(dx + o), (int)(dy - o), (int)o, (int)-o);
    CHECK((r == 0) == hit, "edge passes through a pixel: wrong verdict (direct oracle)"); sx_reach(hit ? "through" : "beside");
    if (!hit) { ll bb = (vx - dx) * -(ll)dy - (vy - dy) * -(ll)dx; CHECK(r == (bb ? sgn(bb) : lex(vx, vy, 0, 0) < 0 ? -1 : 1), "wrong side (direct oracle)"); }
}
/* ---------------- C04 */
static double dbl(unsigned long long u) { double d; memcpy(&d, &u, 8); return d; }
void h_coord_trip(void)
{
    static double const SC[] = { 8192, 1, 1024, 1 << 20, 0.25, 10, 1000, 65536 }; int k = ch("scale", 0, 7); cq_dim_scale = SC[k];
    if (k < 5 || k == 7) sx_opt("fp", 1);
    cq_dim_t v = (k == 5 || k == 6) ? (cq_dim_t)(ch("hi", -4, 4) * 500000000ll / 2 + ch("lo", -30, 30)) : (cq_dim_t)sx_u64("v"); sx_assume(v != INT_MIN);
    CHECK(cq_import_dim(cq_export_dim(v)) == v, "coordinate changed by export and import"); sx_reach("trip");
}
void h_coord_import(void)
{
    static double const SC[] = { 8192, 1, 1024, 1 << 20, 0.25 }; sx_opt("fp", 1); cq_dim_scale = SC[ch("scale", 0, (int)sx_param("scales", 4))];
    int k = ch("k", 0, 3), b = 1 << (int)sx_param("bits", 16); double x = ldexp((double)sx_int("m", -b, b), k == 0 ? 0 : k == 1 ? -10 : k == 2 ? -14 : -20) + (k == 3 ? 0 : ch("o", -1, 1) * 0.5 * 2147000000. / cq_dim_scale); double s = x * cq_dim_scale; sx_assume(s >= -2147483646.0 && s <= 2147483646.0);
    double r = cq_import_dim(x);
    CHECK(r - s <= 0.5000011 && s - r <= 0.5, "not the nearest grid coordinate"); sx_reach("import");
}
void h_coord_mono(void)
{
    sx_opt("fp", 1); int k = ch("k", 0, 2), b = 1 << (int)sx_param("bits", 16); double x = ldexp((double)sx_int("x", -b, b), -8 * k - 3), y = ldexp((double)sx_int("y", -b, b), -8 * k - 3); sx_assume(x <= y);
    CHECK(cq_import_dim(x) <= cq_import_dim(y), "import is not monotone"); sx_reach("mono");
}
void h_coord_range(void)
{
    sx_opt("fp", 1); int m = ch("m", 0, 1); double x = dbl(sx_u64("x"));
    if (m) { sx_assume(!(x * cq_dim_scale >= -2147483648.5 && x * cq_dim_scale <= 2147483648.0)); sx_opt("expectfail", 1); int r = cq_import_dim(x); CHECK(0, "coordinate outside the range accepted"); (void)r; }
    else { sx_assume(x * cq_dim_scale >= -2147483647.0 && x * cq_dim_scale <= 2147483647.0); (void)cq_import_dim(x); sx_reach("in range"); }
}
/* scale names: 2^k for powers of two */
void h_coord_scale(void)
{
    int e = ch("e", -20, 30), m = ch("m", 0, 2); cq_dim_scale = ldexp(m == 0 ? 1 : m == 1 ? 3 : 1.25, e); char b[40]; char const *s = cq_dim_scale_str_(b, sizeof b); char *end; double v;
    if (s[0] == '2' && s[1] == '^') v = ldexp(1, (int)strtol(s + 2, &end, 10)); else v = strtod(s, &end);
    CHECK(*end == 0 && fabs(v - cq_dim_scale) <= cq_dim_scale * 1e-14, "scale is named wrongly"); CHECK((s[1] == '^') == (m == 0), "power of two is not named as such"); if (m == 0) CHECK(v == cq_dim_scale, "power of two is named wrongly"); sx_reach("name");
}
/* boxes: smallest box around the points */
void h_coord_box(void)
{
    int n = ch("n", 1, 3); cq_dim_t c[9], o[9]; cq_vec2_minmax_t b2 = { .min = { .x = INT_MAX, .y = INT_MAX }, .max = { .x = INT_MIN, .y = INT_MIN } }, bl = b2, p2 = b2; cq_vec3_minmax_t b3 = { .min = { .x = INT_MAX, .y = INT_MAX, .z = INT_MAX }, .max = { .x = INT_MIN, .y = INT_MIN, .z = INT_MIN } };
    cq_v_vec2_t v2; cq_v_vec3_t v3; cq_v_line2_t l2; memset(&v2, 0, sizeof v2); memset(&v3, 0, sizeof v3); memset(&l2, 0, sizeof l2);
    for (int i = 0; i < 3 * n; i++) { c[i] = (int)sx_u64("c"); o[i] = c[i]; }
    for (int i = 0; i < n; i++) { cq_vec2_t a = { .x = c[3*i], .y = c[3*i+1] }; cq_vec3_t b = { .x = c[3*i], .y = c[3*i+1], .z = c[3*i+2] }; cp_v_push(&v2, a); cp_v_push(&v3, b); if (i + 1 < n) { cq_line2_t l = { .a = a, .b = { .x = c[3*i+3], .y = c[3*i+4] } }; cp_v_push(&l2, l); } }
    cq_v_vec2_minmax(&b2, &v2); cq_v_vec3_minmax(&b3, &v3); cq_v_line2_minmax(&bl, &l2);
    { cq_v_v_vec3_t vv; memset(&vv, 0, sizeof vv); cq_v_vec3_t u; memset(&u, 0, sizeof u); cq_vec3_minmax_t b = CQ_VEC3_MINMAX_INIT; int sp = (n + 1) / 2; for (int i = sp; i < n; i++) cp_v_push(&u, v3.data[i]); cq_v_vec3_t w = v3; w.size = (size_t)sp; cp_v_push(&vv, w); cp_v_push(&vv, u); cq_v_v_vec3_minmax(&b, &vv);
      int bad = 0; for (int j = 0; j < 3; j++) { bad |= b.min.v[j] != b3.min.v[j]; bad |= b.max.v[j] != b3.max.v[j]; } CHECK(!bad, "box of several point sets is wrong"); }
    for (int j = 0; j < 3; j++) { int lo = INT_MAX, hi = INT_MIN; for (int i = 0; i < n; i++) { if (o[3*i+j] < lo) lo = o[3*i+j]; if (o[3*i+j] > hi) hi = o[3*i+j]; }
        CHECK(b3.min.v[j] == lo && b3.max.v[j] == hi, "3D box is wrong");
        if (j < 2) { CHECK((j ? b2.min.y : b2.min.x) == lo && (j ? b2.max.y : b2.max.x) == hi, "2D box is wrong"); if (n > 1) CHECK((j ? bl.min.y : bl.min.x) == lo && (j ? bl.max.y : bl.max.x) == hi, "box of segments is wrong"); } }
    int a = ch("a", 0, 2), b = ch("b", 0, 2); cq_vec3_minmax_minmax2(&p2, &b3, a, b);
    CHECK(p2.min.x == b3.min.v[a] && p2.max.x == b3.max.v[a] && p2.min.y == b3.min.v[b] && p2.max.y == b3.max.v[b], "projected box is wrong");
    cp_vec2_t ev = cq_export_vec2(&v2.data[0]); CHECK(ev.x == cq_export_dim(c[0]) && ev.y == cq_export_dim(c[1]), "vector export"); sx_reach("box");
}
void h_coord_vec(void)
{
    cp_vec2_t v = { .x = ch("x", -9, 9) / 64.0, .y = ch("y", -9, 9) / 8192.0 }; cq_vec2_t w = cq_import_vec2(&v);
    CHECK(w.x == cq_import_dim(v.x) && w.y == cq_import_dim(v.y), "vector import"); sx_reach("vector");
}
