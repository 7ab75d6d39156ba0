/* C05 arrangement, C06 boolean results, C08 triangulation, C09 paths */
#include "common.h"
#include <hob3lbase/pool.h>
#include <hob3lbase/bool-bitmap.h>
#include <hob3lop/matq.h>
#include <hob3lop/gon.h>
#include <hob3lop/op-sweep.h>
#include <hob3lop/op-poly.h>
#include <hob3lop/op-trianglify.h>
typedef long long ll; typedef __int128 i128;
#define MAXE 200
#ifdef DBG
#include <stdio.h>
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) (void)0
#endif
typedef struct { ll ax, ay, bx, by; int m; } E;
static E in[MAXE]; static int nin;
/* shapes: loops of points in units, -99 ends a loop, -100 ends the shape */
static signed char const SH[][26] = {
    { 0,0, 4,0, 4,4, 0,4, -100 },                        /* square */
    { 0,0, 5,1, 2,4, -100 },                             /* triangle */
    { 0,0, 6,0, 6,6, 0,6, -99, 2,1, 4,3, 2,4, -100 },    /* square with triangular hole */
    { 0,0, 5,4, 5,0, 0,4, -100 },                        /* bow tie */
    { 0,0, 6,0, 6,2, 2,2, 2,5, 0,5, -100 },              /* L */
    { 0,1, 7,0, 7,1, -100 },                             /* sliver */
    { 3,0, 5,3, 3,6, 1,3, -100 },                        /* diamond */
    { 0,0, 6,0, 3,2, 6,4, 0,4, 3,2, -100 },              /* two triangles sharing a vertex with itself (touching) */
    { 0,0, 4,0, 4,4, 0,4, -99, 4,1, 6,1, 6,3, 4,3, -100 }, /* two boxes sharing part of an edge */
    { 0,0, 2,4, 4,0, 4,5, 0,5, -100 },                   /* notch */
};
#define NSH ((int)(sizeof SH / sizeof SH[0]))
static void put(int s, ll ox, ll oy, ll u, int fl, int m)
{
    signed char const *p = SH[s]; int b = 0;
    for (int i = 0;; i += 2) {
        if (p[i] <= -99) { b = i + 1; if (p[i] == -100) return; i--; continue; }
        int j = p[i+2] <= -99 ? b : i + 2; ll px = p[i] * u, py = p[i+1] * u, qx = p[j] * u, qy = p[j+1] * u;
        if (fl & 1) { ll t = px; px = py; py = t; t = qx; qx = qy; qy = t; }
        if (fl & 2) { px = -px; qx = -qx; }
        in[nin++] = (E){ ox + px, oy + py, ox + qx, oy + qy, m };
    }
}
static ll ab(ll x) { return x < 0 ? -x : x; }
/* all in half units: is q within about a pixel and a half of the edge? */
static int near(E const *e, ll qx, ll qy)
{
    ll ax = 2 * e->ax, ay = 2 * e->ay, bx = 2 * e->bx, by = 2 * e->by, lx = ax < bx ? ax : bx, hx = ax < bx ? bx : ax, ly = ay < by ? ay : by, hy = ay < by ? by : ay;
    if (qx < lx - 3 || qx > hx + 3 || qy < ly - 3 || qy > hy + 3) return 0;
    ll c = (bx - ax) * (qy - ay) - (by - ay) * (qx - ax);
    return ab(c) <= 3 * (ab(bx - ax) + ab(by - ay));
}
/* does the ray from q towards +x meet the edge */
static int ray(ll ax, ll ay, ll bx, ll by, ll qx, ll qy)
{
    ax *= 2; ay *= 2; bx *= 2; by *= 2;
    int u = ay > qy, v = by > qy; if (u == v) return 0;
    ll c = (bx - ax) * (qy - ay) - (by - ay) * (qx - ax);
    return v ? c > 0 : c < 0;
}
typedef struct { ll ax, ay, bx, by; } G;
static G out[1000]; static int nout;
static void get(cq_sweep_t *s)
{
    cq_v_line2_t r; memset(&r, 0, sizeof r); cq_sweep_get_v_line2(&r, s); CHECK(r.size < 1000, "too many output edges"); nout = 0;
    for (size_t i = 0; i < r.size; i++) out[nout++] = (G){ r.data[i].a.x, r.data[i].a.y, r.data[i].b.x, r.data[i].b.y };
}
/* output edges meet in common end points only, none degenerate, none double */
static void planar(void)
{
    int bad = 0, dbl = 0, deg = 0;
    for (int i = 0; i < nout; i++) { G *a = out + i; deg |= a->ax == a->bx && a->ay == a->by;
        for (int j = i + 1; j < nout; j++) { G *b = out + j;
            dbl |= (a->ax == b->ax && a->ay == b->ay && a->bx == b->bx && a->by == b->by) || (a->ax == b->bx && a->ay == b->by && a->bx == b->ax && a->by == b->ay);
            ll dx = a->bx - a->ax, dy = a->by - a->ay, ex = b->bx - b->ax, ey = b->by - b->ay;
            ll o1 = dx * (b->ay - a->ay) - dy * (b->ax - a->ax), o2 = dx * (b->by - a->ay) - dy * (b->bx - a->ax), o3 = ex * (a->ay - b->ay) - ey * (a->ax - b->ax), o4 = ex * (a->by - b->ay) - ey * (a->bx - b->ax);
            bad |= ((o1 < 0 && o2 > 0) || (o1 > 0 && o2 < 0)) && ((o3 < 0 && o4 > 0) || (o3 > 0 && o4 < 0));
            /* end point strictly inside the other edge */
#define IN(o, px, py, e) ((o) == 0 && ((e)->ax < (px) || (e)->bx < (px) || (e)->ay < (py) || (e)->by < (py)) && ((e)->ax > (px) || (e)->bx > (px) || (e)->ay > (py) || (e)->by > (py)) && (((e)->ax <= (px) && (px) <= (e)->bx) || ((e)->bx <= (px) && (px) <= (e)->ax)) && (((e)->ay <= (py) && (py) <= (e)->by) || ((e)->by <= (py) && (py) <= (e)->ay)) && !((e)->ax == (px) && (e)->ay == (py)) && !((e)->bx == (px) && (e)->by == (py)))
            bad |= IN(o1, b->ax, b->ay, a) || IN(o2, b->bx, b->by, a) || IN(o3, a->ax, a->ay, b) || IN(o4, a->bx, a->by, b);
        } }
    CHECK(!deg, "output contains a degenerate edge"); CHECK(!dbl, "output contains an edge twice"); CHECK(!bad, "output edges cross or touch outside their end points");
}
/* every vertex has an even number of edges */
static void even(void)
{
    int odd = 0;
    for (int i = 0; i < nout; i++) for (int e = 0; e < 2; e++) { ll x = e ? out[i].bx : out[i].ax, y = e ? out[i].by : out[i].ay; int n = 0; for (int j = 0; j < nout; j++) n += (out[j].ax == x && out[j].ay == y) + (out[j].bx == x && out[j].by == y); odd |= n & 1; }
    CHECK(!odd, "output outline is not closed");
}
/* every output edge runs along an input edge, within a pixel */
static void along(void)
{
    int bad = 0;
    for (int i = 0; i < nout; i++) { int ok = 0;
        for (int j = 0; j < nin; j++) { int o = 1; for (int e = 0; e < 2; e++) { ll x = 2 * (e ? out[i].bx : out[i].ax), y = 2 * (e ? out[i].by : out[i].ay); E t = in[j]; ll ax = 2 * t.ax, ay = 2 * t.ay, bx = 2 * t.bx, by = 2 * t.by, lx = ax < bx ? ax : bx, hx = ax < bx ? bx : ax, ly = ay < by ? ay : by, hy = ay < by ? by : ay;
                ll c = (bx - ax) * (y - ay) - (by - ay) * (x - ax); o &= x >= lx - 1 && x <= hx + 1 && y >= ly - 1 && y <= hy + 1 && ab(c) <= (ab(bx - ax) + ab(by - ay)); }
            ok |= o; }
        bad |= !ok; }
    CHECK(!bad, "output edge does not follow an input edge");
}
/* every input edge is covered by output edges, within a pixel, all along */
static void cover(void)
{
    int bad = 0;
    for (int i = 0; i < nin; i++) { E t = in[i]; int sw = ab(t.bx - t.ax) < ab(t.by - t.ay); if (sw) t = (E){ t.ay, t.ax, t.by, t.bx, 0 };
        if (t.bx < t.ax) t = (E){ t.bx, t.by, t.ax, t.ay, 0 };
        ll dx = t.bx - t.ax, dy = t.by - t.ay;
        for (ll k = t.ax; k < t.bx; k += (int)sx_param("cstep", 2)) { ll X = 2 * k + 1; int ok = 0; /* edge at X (half units): ay + dy*(X-2ax)/(2dx) */
            for (int j = 0; j < nout; j++) { G o = out[j]; if (sw) o = (G){ o.ay, o.ax, o.by, o.bx }; if (o.bx < o.ax) o = (G){ o.bx, o.by, o.ax, o.ay };
                ll ex = o.bx - o.ax, ey = o.by - o.ay; if (2 * o.ax > X || 2 * o.bx < X) continue;
                /* |(o.ay + ey*(X-2 o.ax)/(2ex)) - (t.ay + dy*(X-2 t.ax)/(2dx))| <= 1 */
                ll d = (2 * o.ay * ex + ey * (X - 2 * o.ax)) * dx - (2 * t.ay * dx + dy * (X - 2 * t.ax)) * ex; ok |= ab(d) <= 2 * ex * dx; }
            bad |= !ok; } }
    CHECK(!bad, "part of an input edge is not in the output");
}
static int Q0, Q1, QS;
static int comb_of(int op, int b) { int x = b & 1, y = b >> 1 & 1, z = b >> 2 & 1; switch (op) { case 0: return x | y | z; case 1: return x & y & !z; case 2: return x & !y & !z; case 3: return x ^ y ^ z; default: return (x & y) | (y & z) | (z & x); } }
/* membership of sample points away from every edge */
static void members(int op)
{
    int bad = 0;
    for (ll qx = Q0; qx < Q1; qx += QS) for (ll qy = Q0; qy < Q1; qy += QS) { ll x = 2 * qx + 1, y = 2 * qy + 1; int nr = 0, m = 0, o = 0;
        for (int i = 0; i < nin; i++) { nr |= near(in + i, x, y); m ^= ray(in[i].ax, in[i].ay, in[i].bx, in[i].by, x, y) ? in[i].m : 0; }
        for (int i = 0; i < nout; i++) o ^= ray(out[i].ax, out[i].ay, out[i].bx, out[i].by, x, y);
        if (op < 0) { int par = 0; for (int b = 0; b < 3; b++) par ^= m >> b & 1; bad |= !nr && o != par; }
        else { bad |= !nr && o != comb_of(op, m); } }
    CHECK(!bad, "a point away from all edges is on the wrong side of the result");
}
static cp_pool_t pool;
/* sets up the edges: shapes A, B (and C) with B at a symbolic place */
static int what;
static void setup_big(void);
static void setup(void)
{
    if (sx_param("big", 0)) { setup_big(); return; }
    int u = (int)sx_param("u", 3), R = (int)sx_param("R", 20), shapes = (int)sx_param("shapes", NSH), n3 = (int)sx_param("third", 0);
    nin = 0; int a = ch("A", 0, shapes - 1), b = ch("B", 0, shapes - 1);
    int sy = (int)sx_param("symy", 0), mode = ch("mode", 0, (int)sx_param("modes", 0)); ll ox = sx_int("x", -R, R), oy = sy ? sx_int("y", -R, R) : ch("y", -(int)sx_param("Y", 3), (int)sx_param("Y", 3)) * (ll)sx_param("ystep", 5) + (ll)sx_param("y0", 0);
    put(a, 0, 0, u, 0, 1);
    if (mode == 1) { in[1].ax += ox; in[0].bx += ox; in[1].ay += oy; in[0].by += oy; ox = 1; oy = 1; } /* one vertex of A anywhere */
    put(b, ox, oy, u, ch("flip", 0, (int)sx_param("flips", 1)), what ? 1 : 2);
    if (n3) put(ch("C", 0, shapes - 1), 2, 1, u, 0, what ? 1 : 4);
    Q0 = -(int)sx_param("Q", 2) * u; Q1 = 8 * u; QS = (int)sx_param("QS", 2);
}
/* larger arrangements: stars, gratings, nested rings, chains, fans, saws, with a wedge at a symbolic place */
static void ln(ll ax, ll ay, ll bx, ll by, int m) { CHECK(nin < MAXE, "harness limit"); in[nin++] = (E){ ax, ay, bx, by, m }; }
static void quad(ll x, ll y, ll w, ll h, int m) { ln(x, y, x + w, y, m); ln(x + w, y, x + w, y + h, m); ln(x + w, y + h, x, y + h, m); ln(x, y + h, x, y, m); }
static void setup_big(void)
{
    static signed char const CI[17][2] = { {30,0},{28,11},{22,20},{13,27},{3,30},{-8,29},{-18,24},{-26,16},{-30,6},{-30,-5},{-26,-15},{-18,-24},{-8,-29},{3,-30},{13,-27},{22,-20},{28,-11} };
    nin = 0; int k = ch("scene", (int)sx_param("s0", 0), (int)sx_param("s1", 7)), R = (int)sx_param("R", 12), m2 = what ? 1 : 2, n = ch("n", 0, (int)sx_param("ns", 1)); ll x = sx_int("x", -R, R); int wy = 3;
    if (k == 0) { int st = n ? 7 : 5; for (int i = 0; i < 17; i++) { int a = i * st % 17, b = (i + 1) * st % 17; ln(CI[a][0], CI[a][1], CI[b][0], CI[b][1], 1); } }
    if (k == 1) { for (int i = 0; i < 4 + n; i++) { quad(-20 + 9 * i, -22, 4, 44, 1); quad(-22, -20 + 9 * i, 44, 4, m2); } }
    if (k == 2) for (int i = 0; i < 6 + n; i++) quad(-30 + 4 * i, -30 + 4 * i, 60 - 8 * i, 60 - 8 * i, 1);
    if (k == 3) for (int i = 0; i < 9 + n; i++) { int d = i % 3; quad(-30 + 6 * i, -10 + (d == 0 ? 0 : d == 1 ? 6 : 3), 6, d == 2 ? 12 : 6, i % 2 ? m2 : 1); }
    if (k == 4) for (int i = 0; i < 16; i += 2) { int j = (i + 1 + n) % 17; ln(0, 0, CI[i][0], CI[i][1], 1); ln(CI[i][0], CI[i][1], CI[j][0], CI[j][1], 1); ln(CI[j][0], CI[j][1], 0, 0, 1); }
    if (k == 5) { for (int s = 0; s < 2; s++) { int o = s ? 2 : 0, h = s ? -9 : 12, c = 10 + n; for (int i = 0; i < c; i++) { ln(-30 + 6 * i + o, i % 2 ? h : -2 + 3 * s, -24 + 6 * i + o, i % 2 ? -2 + 3 * s : h, s ? m2 : 1); } ll ya = -2 + 3 * s, yb = c % 2 ? h : ya; ln(-30 + o, ya, -30 + o, 20 * (s ? 1 : -1), s ? m2 : 1); ln(-30 + o, 20 * (s ? 1 : -1), -30 + 6 * c + o, 20 * (s ? 1 : -1), s ? m2 : 1); ln(-30 + 6 * c + o, 20 * (s ? 1 : -1), -30 + 6 * c + o, yb, s ? m2 : 1); } }
    if (k == 6) for (int i = 0; i < 17; i++) { int j = (i + 1) % 17; ln(CI[i][0], CI[i][1], CI[j][0], CI[j][1], 1); int p = n ? (16 - i) : i, q = n ? (15 - i + 17) % 17 : j; ln(-CI[p][0] + 1, CI[p][1], -CI[q][0] + 1, CI[q][1], m2); }
    if (k == 7) for (int i = 0; i < 12; i++) { ll a = -30 + 5 * i; ln(a, -25, a + 4, 25 - n, 1); ln(a + 4, 25 - n, a + 2, -25, 1); ln(a + 2, -25, a, -25, 1); }
    int f = ch("wedge", 0, (int)sx_param("wedges", 1)); ll u = f ? 0 : x, v = f ? x : 0;
    ln(-35 + u, -wy + v, 33 + u, 2 + v, what ? 1 : 4); ln(33 + u, 2 + v, 5 + u, 9 + v, what ? 1 : 4); ln(5 + u, 9 + v, -35 + u, -wy + v, what ? 1 : 4);
    Q0 = -34; Q1 = 36; QS = (int)sx_param("QS", 5);
}
/* triangles A and B with overlapping edges along one line, C crosses that line at a symbolic place */
static void tri(ll ax, ll ay, ll bx, ll by, ll cx, ll cy, int m) { in[nin++] = (E){ ax, ay, bx, by, m }; in[nin++] = (E){ bx, by, cx, cy, m }; in[nin++] = (E){ cx, cy, ax, ay, m }; }
static void setup_col(void)
{
    static signed char const DD[][4] = { { 1,0, 0,1 }, { 2,1, -1,2 }, { 1,-2, 2,1 }, { 0,1, -1,0 } };
    nin = 0; int u = (int)sx_param("u", 6), q = ch("dir", (int)sx_param("dir0", 0), (int)sx_param("dirs", 3)); ll dx = DD[q][0] * u, dy = DD[q][1] * u, nx = DD[q][2] * u, ny = DD[q][3] * u;
    static signed char const OV[][3] = { { 0,3,0 }, { 1,3,0 }, { 1,5,0 }, { 1,2,0 }, { 0,1,0 }, { 0,5,0 }, { 0,1,1 }, { 0,5,1 }, { 0,3,1 }, { 2,4,1 }, { 3,5,0 } };
    int ov = ch("ov", 0, (int)sx_param("ovs", 10)), b = OV[ov][0], c = OV[ov][1], sw = OV[ov][2], s = ch("side", 0, (int)sx_param("sides", 1)) ? -1 : 1;
    if (!sw) tri(0, 0, 3 * dx, 3 * dy, 2 * nx, 2 * ny, 1);
    tri(b * dx, b * dy, c * dx, c * dy, 2 * dx + s * nx, 2 * dy + s * ny, what ? 1 : 2);
    if (sw) tri(0, 0, 3 * dx, 3 * dy, 2 * nx, 2 * ny, 1);
    ll x = sx_int("x", -(int)sx_param("R", 40), (int)sx_param("R", 40)), ox = ab(dx) >= ab(dy) ? x : 0, oy = ab(dx) >= ab(dy) ? 0 : x;
    int k = ch("cut", 0, (int)sx_param("cuts", 1)); /* a triangle that lies across the line, from one side or pointing along it */
    if (k == 0) tri(ox - 3 * dx - nx, oy - 3 * dy - ny, ox + 2 * dx + nx, oy + 2 * dy + ny, ox + dx + 2 * nx, oy + dy + 2 * ny, what ? 1 : 4);
    else tri(ox - dx + nx, oy - dy + ny, ox + 2 * dx - nx, oy + 2 * dy - ny, ox + dx - 2 * nx, oy + dy - 2 * ny, what ? 1 : 4);
    if (sx_param("open", 0)) { E a = in[sw ? 3 : 0], b = in[sw ? 0 : 3], t = in[6]; nin = 0; in[nin++] = a; in[nin++] = b; if (s < 0) t = (E){ t.ax + 2 * nx, t.ay + 2 * ny, t.bx - 2 * nx, t.by - 2 * ny, t.m }; in[nin++] = t; }
    Q0 = -2 * u; Q1 = 7 * u; QS = (int)sx_param("QS", 3);
}
static cq_sweep_t *sweep(void)
{
    cp_pool_init(&pool); cq_sweep_t *s = cq_sweep_new(&pool, NULL, 0);
    int dir = (int)sx_param("dir", 0);
    for (int i = 0; i < nin; i++) { cq_vec2_t a = { .x = (cq_dim_t)in[i].ax, .y = (cq_dim_t)in[i].ay }, b = { .x = (cq_dim_t)in[i].bx, .y = (cq_dim_t)in[i].by }; if (dir && (i & 1)) cq_sweep_add_edge(s, &b, &a, (size_t)in[i].m); else cq_sweep_add_edge(s, &a, &b, (size_t)in[i].m); }
    cq_sweep_intersect(s); return s;
}
static int op; static cp_bool_bitmap_t comb;
static void reduce(cq_sweep_t *s)
{
    op = ch("op", (int)sx_param("op0", 0), (int)sx_param("ops", 3)); memset(&comb, 0, sizeof comb); for (int i = 0; i < 8; i++) cp_bool_bitmap_set(&comb, (size_t)i, comb_of(op, i));
    cq_sweep_reduce(s, &comb, 8);
}
/* the box of the arrangement, and the same arrangement of a plain list of segments (with the input of the original kept) */
static void boxed(cq_sweep_t *s)
{
    cq_vec2_minmax_t b = CQ_VEC2_MINMAX_INIT; cq_sweep_minmax(&b, s); ll x0 = 1 << 30, y0 = 1 << 30, x1 = -x0, y1 = -y0;
    for (int i = 0; i < nout; i++) { G *e = out + i; ll u = e->ax < e->bx ? e->ax : e->bx, v = e->ax < e->bx ? e->bx : e->ax; x0 = u < x0 ? u : x0; x1 = v > x1 ? v : x1; u = e->ay < e->by ? e->ay : e->by; v = e->ay < e->by ? e->by : e->ay; y0 = u < y0 ? u : y0; y1 = v > y1 ? v : y1; }
    int bad = nout > 0; bad &= (b.min.x != x0) | (b.min.y != y0) | (b.max.x != x1) | (b.max.y != y1); CHECK(!bad, "bounding box of the arrangement is wrong");
}
static void copied(void)
{
    cq_v_line2_t g; memset(&g, 0, sizeof g); int dir = (int)sx_param("dir", 0);
    for (int i = 0; i < nin; i++) { cq_vec2_t a = { .x = (cq_dim_t)in[i].ax, .y = (cq_dim_t)in[i].ay }, b = { .x = (cq_dim_t)in[i].bx, .y = (cq_dim_t)in[i].by }; cq_line2_t l = { .a = a, .b = b }; if (dir && (i & 1)) { l.a = b; l.b = a; } cp_v_push(&g, l); }
    cq_v_line2_t *r = cq_sweep_copy(&pool, &g); CHECK(r != NULL && (nin >= 3 || r->size == 0) && g.size == (size_t)nin, "copy of the segments is wrong");
    int bad = nin >= 3 && r->size != (size_t)nout;
    if (!bad) for (size_t i = 0; i < r->size; i++) bad |= (r->data[i].a.x != out[i].ax) | (r->data[i].a.y != out[i].ay) | (r->data[i].b.x != out[i].bx) | (r->data[i].b.y != out[i].by);
    CHECK(!bad, "arrangement of a list of segments differs from the one of the same edges");
}
void h_sw_arr(void)
{
    setup(); if (sx_param("copy", 0)) for (int i = 0; i < nin; i++) in[i].m = 1; cq_sweep_t *s = sweep(); get(s); boxed(s); if (sx_param("copy", 0)) { copied(); sx_reach("copied"); cq_sweep_delete(s); return; } planar(); along(); cover();
    sx_reach(nout > nin ? "split" : nout < nin ? "merged" : "as is"); cq_sweep_delete(s); cp_pool_fini(&pool);
}
void h_sw_bool(void)
{
    setup(); cq_sweep_t *s = sweep(); reduce(s); get(s); CHECK((nout == 0) == cq_sweep_empty(s), "emptiness is reported wrongly"); even(); members(op);
    sx_reach(nout ? "some" : "nothing"); cq_sweep_delete(s); cp_pool_fini(&pool);
}
void h_sw_col(void)
{
    setup_col(); cq_sweep_t *s = sweep();
    if (sx_param("bool", 0)) { reduce(s); get(s); even(); members(op); sx_reach(nout ? "some" : "nothing"); }
    else { get(s); planar(); along(); cover(); sx_reach("arranged"); }
    cq_sweep_delete(s); cp_pool_fini(&pool);
}
static ll fx(double d) { return (ll)d; }
static ll area_out(void) /* twice the area of the result, from the edges: every edge directed so that the inside is on its left */
{
    ll sum = 0;
    for (int i = 0; i < nout; i++) { G *e = out + i; /* parity just above the middle of the edge: count edges above */
        int up = 0; ll mx = e->ax + e->bx, my = e->ay + e->by; int vert = e->ax == e->bx;
        for (int j = 0; j < nout; j++) if (j != i) { G *f = out + j; ll ax = 2 * f->ax, ay = 2 * f->ay, bx = 2 * f->bx, by = 2 * f->by; ll px = mx, py = my; if (vert) { ll t = ax; ax = ay; ay = t; t = bx; bx = by; by = t; t = px; px = py; py = t; }
            int u = ax > px, v = bx > px; if (u == v) continue; ll c = (bx - ax) * (py - ay) - (by - ay) * (px - ax); if (v ? c < 0 : c > 0) up ^= 1; }
        /* up == 1: inside is above (or right of, for vertical edges) */
        ll ax = e->ax, ay = e->ay, bx = e->bx, by = e->by; ll c = ax * by - ay * bx; int fwd = vert ? by < ay : bx > ax; /* forward: inside-above is left */
        sum += (up == fwd) ? c : -c; }
    return sum;
}
void h_sw_poly(void)
{
    cq_dim_scale = 1;
    setup(); cq_sweep_t *s = sweep(); reduce(s); get(s); cp_err_t err; memset(&err, 0, sizeof err); cq_csg2_poly_t r; memset(&r, 0, sizeof r);
    bool ok = cq_sweep_poly(&err, s, &r); CHECK(ok, "closed outline rejected");
    int n = 0, bad = 0, dup = 0, rng = 0, wind = 0, miss = 0; ll ar = 0;
    for (size_t i = 0; i < r.path.size; i++) { cp_v_size_t *p = &r.path.data[i].point_idx; CHECK(p->size >= 3, "path with fewer than three points");
        for (size_t k = 0; k < p->size; k++) { size_t a = p->data[k], b = p->data[k + 1 < p->size ? k + 1 : 0]; rng |= a >= r.point.size || b >= r.point.size; CHECK(!rng, "path refers to a point that does not exist"); for (size_t l = k + 1; l < p->size; l++) dup |= p->data[l] == a;
            ll ax = fx(r.point.data[a].coord.x), ay = fx(r.point.data[a].coord.y), bx = fx(r.point.data[b].coord.x), by = fx(r.point.data[b].coord.y); ar += ax * by - ay * bx; n++;
            int hit = 0; for (int j = 0; j < nout; j++) hit += (out[j].ax == ax && out[j].ay == ay && out[j].bx == bx && out[j].by == by) || (out[j].bx == ax && out[j].by == ay && out[j].ax == bx && out[j].ay == by); miss |= hit != 1; } }
    for (size_t i = 0; i < r.point.size; i++) for (size_t j = i + 1; j < r.point.size; j++) bad |= r.point.data[i].coord.x == r.point.data[j].coord.x && r.point.data[i].coord.y == r.point.data[j].coord.y;
    CHECK(!dup, "point appears twice in a path"); CHECK(!bad, "point listed twice"); CHECK(!miss && n == nout, "paths and outline edges do not correspond");
    CHECK(-ar == area_out(), "paths are oriented wrongly");
    for (ll qx = Q0; qx < Q1; qx += QS) for (ll qy = Q0; qy < Q1; qy += QS) { ll x = 2 * qx + 1, y = 2 * qy + 1; int w = 0, o = 0;
        for (int i = 0; i < nout; i++) o ^= ray(out[i].ax, out[i].ay, out[i].bx, out[i].by, x, y);
        for (size_t i = 0; i < r.path.size; i++) { cp_v_size_t *p = &r.path.data[i].point_idx; for (size_t k = 0; k < p->size; k++) { cp_vec2_t *a = &r.point.data[p->data[k]].coord, *b = &r.point.data[p->data[k + 1 < p->size ? k + 1 : 0]].coord; if (ray(fx(a->x), fx(a->y), fx(b->x), fx(b->y), x, y)) w += fx(b->y) > fx(a->y) ? 1 : -1; } }
        wind |= w != -o; }
    CHECK(!wind, "winding number of the paths is wrong"); sx_reach(r.path.size > 1 ? "several paths" : r.path.size ? "one path" : "empty");
    cq_sweep_delete(s); cp_pool_fini(&pool);
}
void h_sw_tri(void)
{
    cq_dim_scale = 1;
    setup(); cq_sweep_t *s = sweep(); reduce(s); get(s); cp_err_t err; memset(&err, 0, sizeof err); cq_csg2_poly_t r; memset(&r, 0, sizeof r);
    if (sx_param("both", 0)) { bool ok = cq_sweep_poly(&err, s, &r); CHECK(ok, "closed outline rejected"); memset(&r, 0, sizeof r); }
    bool ok = cq_sweep_trianglify(&err, s, &r); CHECK(ok, "closed outline rejected");
    int wrong = 0, flag = 0, cov = 0, flags = 0; ll ar = 0;
    for (size_t i = 0; i < r.tri.size; i++) { cp_csg2_tri_t *t = &r.tri.data[i]; ll x[3], y[3]; for (int k = 0; k < 3; k++) { CHECK(t->p[k] < r.point.size, "triangle refers to a point that does not exist"); x[k] = fx(r.point.data[t->p[k]].coord.x); y[k] = fx(r.point.data[t->p[k]].coord.y); }
        ll a = (x[1] - x[0]) * (y[2] - y[0]) - (y[1] - y[0]) * (x[2] - x[0]); wrong |= a >= 0; ar += a;
        for (int k = 0; k < 3; k++) { int l = (k + 1) % 3, hit = 0; for (int j = 0; j < nout; j++) hit |= (out[j].ax == x[k] && out[j].ay == y[k] && out[j].bx == x[l] && out[j].by == y[l]) || (out[j].bx == x[k] && out[j].by == y[k] && out[j].ax == x[l] && out[j].ay == y[l]);
            int f = !!(t->flags & (k == 0 ? CP_CSG2_TRI_OUTLINE_01 : k == 1 ? CP_CSG2_TRI_OUTLINE_12 : CP_CSG2_TRI_OUTLINE_20)); flag |= f != hit; flags += f; } }
#ifdef DBG
    for (int i = 0; i < nin; i++) D("in %lld %lld  %lld %lld m%d\n", in[i].ax, in[i].ay, in[i].bx, in[i].by, in[i].m);
    for (int i = 0; i < nout; i++) D("out %lld %lld  %lld %lld\n", out[i].ax, out[i].ay, out[i].bx, out[i].by);
    for (size_t i = 0; i < r.tri.size; i++) { for (int k = 0; k < 3; k++) D("(%g %g) ", r.point.data[r.tri.data[i].p[k]].coord.x, r.point.data[r.tri.data[i].p[k]].coord.y); D("fl %d\n", r.tri.data[i].flags); }
    D("wrong %d flag %d flags %d nout %d ar %lld %lld\n", wrong, flag, flags, nout, -ar, area_out());
#endif
    CHECK(!wrong, "triangle is degenerate or not clockwise"); CHECK(!flag && flags == nout, "outline flags are wrong"); CHECK(-ar == area_out(), "triangles do not cover the area of the polygon");
    for (ll qx = Q0; qx < Q1; qx += QS) for (ll qy = Q0; qy < Q1; qy += QS) { ll x = 2 * qx + 1, y = 2 * qy + 1; int w = 0, o = 0;
        for (int i = 0; i < nout; i++) o ^= ray(out[i].ax, out[i].ay, out[i].bx, out[i].by, x, y);
        for (size_t i = 0; i < r.tri.size; i++) { int p = 0; for (int k = 0; k < 3; k++) { cp_vec2_t *a = &r.point.data[r.tri.data[i].p[k]].coord, *b = &r.point.data[r.tri.data[i].p[(k + 1) % 3]].coord; p ^= ray(fx(a->x), fx(a->y), fx(b->x), fx(b->y), x, y); } w += p; }
        cov |= w != o; }
    CHECK(!cov, "point covered by the wrong number of triangles"); sx_reach(r.tri.size ? "triangles" : "empty");
    cq_sweep_delete(s); cp_pool_fini(&pool);
}
