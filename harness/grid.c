/* C04: the grid the tool chooses (options --grid, --gran, --auto-grid...) */
#include "cli.h"
static double G_, M_; static int D_, pow2_;
static void num(char const *sg, int sym, int d0, int e, double *v)
{
    static double const P[] = { 1, 10, 100, 1000, 10000, 100000, 1000000 }; put(sg); int d = sym ? pdig(0, 9) : (pint(d0), d0); put("e"); pint(e); *v = (sg[0] ? -d : d) * P[e];
}
static double ab(double x) { return x < 0 ? -x : x; }
static void grid_end(int rc)
{
    CHECK(rc == 0 && got.count == 1 && got.kind == GOT_STL, "no output"); double s = cq_dim_scale, lim = (double)(1 << D_); D("scale %g, asked for %g, size %g\n", s, G_, M_);
    if (D_ == 0) { CHECK(s == G_, "the grid is not the one that was asked for"); sx_reach("fixed"); return; }
    int bad = !(s > 0); if (G_ != 0) bad |= s > G_; CHECK(!bad, "the grid is finer than it was asked for");
    if (s == G_) { bad = M_ * s >= (pow2_ ? 1 : 2) * lim; sx_reach("kept"); } else { int e; bad = (M_ * s >= lim) | (M_ * s < lim / 2) | (frexp(s, &e) != 0.5); sx_reach(G_ == 0 ? "chosen" : "reduced"); }
    CHECK(!bad, "the grid is too fine or too coarse for the size of the model");
}
void h_grid(void)
{
    static struct { char const *s; double v; int p2; } const O[] = { { "", 8192, 1 }, { "--grid=0", 0, 1 }, { "--grid=2^13", 8192, 1 }, { "--grid=1048576", 1048576, 1 }, { "--grid=1/4", 0.25, 1 }, { "--gran=1/64", 64, 1 }, { "--gran=2^-20", 1048576, 1 }, { "--grid=3000", 3000, 0 }, { "--grid=2^0.5", 1.4142135623730951, 0 }, { "--gran=0x1p-4", 16, 1 } };
    sx_opt("fp", 2); int o = ch("grid", 0, 9), m = ch("mode", 0, 3); if (o) arg(O[o].s); static char const *const MO[] = { "", "--auto-grid", "--auto-grid-max", "--no-auto-grid" }; if (m) arg(MO[m]); G_ = O[o].v; pow2_ = O[o].p2; D_ = m == 2 ? 30 : m == 3 ? 0 : 24;
    int ex = ch("x size", 0, (int)sx_param("ex", 6)), ey = 4 * ch("y size", 0, 1), sg = ch("signs", 0, 3), big = ch("extent", 0, 1), sy = ch("symbolic", 0, 1); double x, y, w = big ? 3000 : 4;
    if (m == 3) { if (G_ == 0 || G_ > 10000 || ex > 4 || ey > 4) sx_end(); }
    put("translate(["); num(sg & 1 ? "-" : "", sy == 0, 5, ex, &x); put(","); num(sg & 2 ? "-" : "", sy == 1, 3, ey, &y); put(",0])cube(["); pint(big ? 3000 : 4); put(big ? ",3000,1]);" : ",4,1]);");
    double c[4] = { ab(x), ab(y), ab(x + w), ab(y + w) }; M_ = 0; for (int i = 0; i < 4; i++) if (c[i] > M_) M_ = c[i];
    arg("--z=0.5"); arg("--dump-stl"); at_end = grid_end; tool("f.scad"); CHECK(0, "the program does not end");
}
/* numbers on the command line */
static int bad_; static double v_;
static void num_end(int rc)
{
    if (bad_) { CHECK(rc != 0 && got.count == 0, "a number that is none is accepted"); sx_reach("refused"); return; }
    CHECK(rc == 0 && got.count == 1, "no output"); double d = cq_dim_scale - v_; CHECK(d <= v_ * 0x1p-50 && d >= -v_ * 0x1p-50, "the number is not the one that was given"); sx_reach("accepted");
}
void h_grid_num(void)
{
    sx_opt("fp", 2); static char b[64]; static char const *const S[] = { "", "/", "^", "//", "x", "^2/", " ", "/0", "." }; int k = ch("separator", 0, 8), d1 = k == 2 ? ch("first", 1, 9) : (int)sx_int("first", 1, 9), two = ch("two digits", 0, 1), d2 = k == 8 ? (int)sx_int("second", 1, 9) : ch("second", 1, 9), tail = ch("tail", 0, 4), n = 0; static char const *const TL[] = { "", "x", " ", "e", "/" };
    memcpy(b, "--grid=", 7); n = 7; if (two) b[n++] = '1'; b[n++] = (char)('0' + d1); double a = two ? 10 + d1 : d1; for (char const *p = S[k]; *p; p++) b[n++] = *p; int none = k == 0 || k == 7; if (!none) b[n++] = (char)('0' + d2); for (char const *p = TL[tail]; *p; p++) b[n++] = *p; b[n] = 0;
    bad_ = tail != 0 || (k > 2 && k != 8); v_ = a; if (k == 1) v_ = a / d2; if (k == 2) { v_ = 1; for (int i = 0; i < 9; i++) if (i < d2) v_ *= a; } if (k == 8) v_ = a + d2 / 10.; if (k == 2 && d2 > 4) sx_end();
    arg(b); arg("--no-auto-grid"); arg("--z=0.5"); arg("--dump-stl"); put("cube([1,1,1]);"); at_end = num_end; tool("f.scad"); CHECK(0, "the program does not end");
}
