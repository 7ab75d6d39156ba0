/* C27: convex hull */
#include "common.h"
#include <hob3lbase/vec.h>
#include <hob3l/csg2-hull.h>
#ifdef DBG
#include <stdio.h>
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) (void)0
#endif
typedef long long ll;
enum { MAXP = 132 };
static ll X[MAXP], Y[MAXP]; static int n;
static ll HX[MAXP], HY[MAXP]; static int hn;
/* > 0: b is right of the ray a -> o (y up) */
static ll right(ll ax, ll ay, ll ox, ll oy, ll bx, ll by) { return (bx - ox) * (oy - ay) - (ox - ax) * (by - oy); }
static void run(double sc)
{
    cp_v_vec2_loc_t v = {0}; static char L[MAXP];
    for (int i = 0; i < n; i++) { cp_vec2_loc_t p = { .coord = {{ (double)X[i] * sc, (double)Y[i] * sc }}, .loc = L + i, .aux1 = (unsigned)i + 7 }; cp_v_push(&v, p); }
    cp_csg2_hull(&v);
    CHECK(v.size <= (size_t)n, "hull has more points than the input"); hn = (int)v.size; int own = 0;
    for (int i = 0; i < hn; i++) { cp_vec2_loc_t *p = &v.data[i]; int k = (int)((char const *)p->loc - L); CHECK(k >= 0 && k < n, "hull point is not an input point");
        own |= p->coord.x != (double)X[k] * sc || p->coord.y != (double)Y[k] * sc || p->aux1 != (unsigned)k + 7; HX[i] = X[k]; HY[i] = Y[k]; D("h %lld %lld\n", HX[i], HY[i]); }
    CHECK(!own, "hull point is not an input point");
    cp_v_fini(&v);
}
static void judge(void)
{
    int same = 1, line = 1, dup = 0, out = 0;
    for (int i = 1; i < n; i++) same &= X[i] == X[0] && Y[i] == Y[0];
    sx_assume(!same);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) for (int k = 0; k < j; k++) line &= right(X[k], Y[k], X[j], Y[j], X[i], Y[i]) == 0;
    for (int i = 0; i < hn; i++) for (int j = 0; j < i; j++) dup |= HX[i] == HX[j] && HY[i] == HY[j];
    if (n < 3) { CHECK(hn == n, "points lost"); sx_reach("few"); return; }
    CHECK(!dup, "hull lists a point twice");
    if (hn < 3) { /* only if everything is on one line */
        CHECK(line, "hull of points with an area is flat"); CHECK(hn == 2, "hull of a line is not its two ends");
        for (int i = 0; i < n; i++) { ll s = (X[i] - HX[0]) * (HX[1] - HX[0]) + (Y[i] - HY[0]) * (HY[1] - HY[0]), t = (HX[1] - HX[0]) * (HX[1] - HX[0]) + (HY[1] - HY[0]) * (HY[1] - HY[0]); out |= s < 0 || s > t; }
        CHECK(!out, "point outside of the hull"); sx_reach("line"); return;
    }
    int flat = 0;
    for (int i = 0; i < hn; i++) { int a = i, b = (i + 1) % hn, c = (i + 2) % hn;
        flat |= right(HX[a], HY[a], HX[b], HY[b], HX[c], HY[c]) <= 0;
        for (int k = 0; k < n; k++) out |= right(HX[a], HY[a], HX[b], HY[b], X[k], Y[k]) < 0; }
    CHECK(!flat, "hull is not clockwise, not convex or has a superfluous vertex"); CHECK(!out, "point outside of the hull");
    sx_reach(hn == n ? "all" : "some");
}
/* the first points fixed per path, the last ones anywhere */
void h_hull(void)
{
    int nf = (int)sx_param("fixed", 3), ns = (int)sx_param("sym", 1), R = (int)sx_param("R", 2), B = (int)sx_param("B", 20);
    n = ch("n", 1, nf) + ns; static double const SC[] = { 1, 64, 0.25, 1 / 32. };
    for (int i = 0; i < n - ns; i++) { X[i] = ch("fx", -R, R) * 4; Y[i] = ch("fy", -R, R) * 4; if (i) sx_assume(X[i] > X[i-1] || (X[i] == X[i-1] && Y[i] >= Y[i-1])); }
    for (int i = n - ns; i < n; i++) { X[i] = sx_int("x", -B, B); Y[i] = ch("y", -(int)sx_param("Y", 5), (int)sx_param("Y", 5)); }
    /* the symbolic points first? */
    if (ch("rot", 0, 1)) for (int i = 0, j = n - 1; i < j; i++, j--) { ll t = X[i]; X[i] = X[j]; X[j] = t; t = Y[i]; Y[i] = Y[j]; Y[j] = t; }
    run(SC[ch("scale", 0, (int)sx_param("scales", 1))]); judge();
}
/* all points on a small grid, any order */
void h_hull_grid(void)
{
    int R = (int)sx_param("R", 2); n = ch("n", 3, (int)sx_param("n", 4));
    for (int i = 0; i < n; i++) { X[i] = ch("x", 0, R); Y[i] = ch("y", 0, R); }
    run(1); judge();
}
/* many points: runs of points behind the outline, in line, or in a star; some left out, one anywhere */
void h_hull_many(void)
{
    static signed char const C[][10][2] = {
        { {-16,0}, {16,16}, {12,10}, {9,6}, {7,2}, {6,0}, {7,-2}, {9,-6}, {12,-10}, {16,-16} },
        { {0,0}, {0,4}, {0,8}, {4,8}, {8,8}, {8,4}, {8,0}, {6,0}, {4,0}, {2,0} },
        { {-15,-1}, {-4,3}, {0,15}, {3,4}, {14,2}, {5,-3}, {1,-14}, {-3,-5}, {2,1}, {-1,0} },
        { {-10,-9}, {-9,-1}, {-8,4}, {-6,8}, {-3,10}, {1,11}, {5,9}, {8,5}, {10,-1}, {11,-9} } };
    int k = ch("set", 0, 3), gone = ch("gone", -1, 9), also = gone < 0 ? -1 : ch("also", gone, 9), sym = (int)sx_param("sym", 1); n = 0;
    for (int i = 0; i < 10; i++) if (i != gone && i != also) { X[n] = C[k][i][0]; Y[n] = C[k][i][1]; n++; }
    if (sym) { X[n] = sx_int("x", -20, 20); Y[n] = ch("y", -3, 3) * 5; n++; }
    switch (ch("order", 0, 2)) { case 0: break; case 1: for (int i = 0, j = n - 1; i < j; i++, j--) { ll t = X[i]; X[i] = X[j]; X[j] = t; t = Y[i]; Y[i] = Y[j]; Y[j] = t; } break;
    default: for (int i = 0; i < n; i++) { int j = i * 7 % n; ll t = X[i]; X[i] = X[j]; X[j] = t; t = Y[i]; Y[i] = Y[j]; Y[j] = t; } }
    run(1); judge();
}

/* many points: scattered ones, parabolas (all of them corners), grids (long rows), nearly all on one line, with one more point anywhere in a range */
void h_hull_large(void)
{
    static int const N[] = { 13, 16, 17, 31, 33, 64, 65, 100, 129 }; int k = ch("set", 0, 5), m = N[ch("count", 0, 8)], ord = ch("order", 0, 3); unsigned r = (unsigned)(ch("seed", 0, k == 0 || ord == 3 ? 1 : 0) + 1) * 7919u;
    for (int i = 0; i < m; i++) { ll x = 0, y = 0; int h = i - m / 2;
        switch (k) {
        case 0: r = r * 1664525u + 1013904223u; x = (r >> 8) % 61; r = r * 1664525u + 1013904223u; y = (r >> 8) % 61; break;
        case 1: x = h; y = h * h; break;
        case 2: x = -h * h; y = h; break;
        case 3: x = i % 11; y = i / 11; break;
        case 4: x = 3 * i; y = 2 * i + (i == m / 3); break;
        default: { int q = i & 3, a = i / 4; x = q == 0 ? a : q == 1 ? 40 : q == 2 ? 40 - a : 0; y = q == 0 ? 0 : q == 1 ? a : q == 2 ? 40 : 40 - a; }
        }
        X[i] = x; Y[i] = y; }
    n = m; if (ord == 1) for (int i = 0, j = n - 1; i < j; i++, j--) { ll t = X[i]; X[i] = X[j]; X[j] = t; t = Y[i]; Y[i] = Y[j]; Y[j] = t; }
    if (ord == 2) for (int i = 0; i < n; i++) { ll t = X[i]; X[i] = -Y[i]; Y[i] = -t; }
    if (ord == 3) for (int i = n - 1; i > 0; i--) { r = r * 1664525u + 1013904223u; int j = (int)((r >> 8) % (unsigned)(i + 1)); ll t = X[i]; X[i] = X[j]; X[j] = t; t = Y[i]; Y[i] = Y[j]; Y[j] = t; }
    if (ch("one more", 0, 1)) { X[n] = 13 * ch("x", -1, 3); Y[n] = 25 * ch("y", -1, 2); n++; }
    run(1); judge();
}
