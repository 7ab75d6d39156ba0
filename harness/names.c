/* C29: names */
typedef unsigned long long u64;
#include "cli.h"
#include <hob3l/xml-parse.h>
#include <hob3l/svg-parse.h>
/* a name of n bytes, all of which are symbolic */
static char NM[40]; static int nn;
static void name_(int lo, int hi, int first) { nn = ch("length", lo, hi); for (int i = 0; i < nn; i++) { int c = sx_byte("byte"); sx_assume(c != 0); if (i == 0 && first >= 0) sx_assume(c != first); NM[i] = (char)c; } NM[nn] = 0; }
static int is(char const *s) { int n = (int)strlen(s); if (n != nn) return 0; int bad = 0; for (int i = 0; i < n; i++) bad |= NM[i] != s[i]; return !bad; }
/* ---- colours ---- */
static struct { char const *n; unsigned v; } const CSS[] = { /* CSS3 */
    {"aliceblue",0xf0f8ff}, {"antiquewhite",0xfaebd7}, {"aqua",0x00ffff}, {"aquamarine",0x7fffd4}, {"azure",0xf0ffff}, {"beige",0xf5f5dc}, {"bisque",0xffe4c4}, {"black",0x000000},
    {"blanchedalmond",0xffebcd}, {"blue",0x0000ff}, {"blueviolet",0x8a2be2}, {"brown",0xa52a2a}, {"burlywood",0xdeb887}, {"cadetblue",0x5f9ea0}, {"chartreuse",0x7fff00}, {"chocolate",0xd2691e},
    {"coral",0xff7f50}, {"cornflowerblue",0x6495ed}, {"cornsilk",0xfff8dc}, {"crimson",0xdc143c}, {"cyan",0x00ffff}, {"darkblue",0x00008b}, {"darkcyan",0x008b8b}, {"darkgoldenrod",0xb8860b},
    {"darkgray",0xa9a9a9}, {"darkgreen",0x006400}, {"darkgrey",0xa9a9a9}, {"darkkhaki",0xbdb76b}, {"darkmagenta",0x8b008b}, {"darkolivegreen",0x556b2f}, {"darkorange",0xff8c00}, {"darkorchid",0x9932cc},
    {"darkred",0x8b0000}, {"darksalmon",0xe9967a}, {"darkseagreen",0x8fbc8f}, {"darkslateblue",0x483d8b}, {"darkslategray",0x2f4f4f}, {"darkslategrey",0x2f4f4f}, {"darkturquoise",0x00ced1}, {"darkviolet",0x9400d3},
    {"deeppink",0xff1493}, {"deepskyblue",0x00bfff}, {"dimgray",0x696969}, {"dimgrey",0x696969}, {"dodgerblue",0x1e90ff}, {"firebrick",0xb22222}, {"floralwhite",0xfffaf0}, {"forestgreen",0x228b22},
    {"fuchsia",0xff00ff}, {"gainsboro",0xdcdcdc}, {"ghostwhite",0xf8f8ff}, {"gold",0xffd700}, {"goldenrod",0xdaa520}, {"gray",0x808080}, {"green",0x008000}, {"greenyellow",0xadff2f},
    {"grey",0x808080}, {"honeydew",0xf0fff0}, {"hotpink",0xff69b4}, {"indianred",0xcd5c5c}, {"indigo",0x4b0082}, {"ivory",0xfffff0}, {"khaki",0xf0e68c}, {"lavender",0xe6e6fa},
    {"lavenderblush",0xfff0f5}, {"lawngreen",0x7cfc00}, {"lemonchiffon",0xfffacd}, {"lightblue",0xadd8e6}, {"lightcoral",0xf08080}, {"lightcyan",0xe0ffff}, {"lightgoldenrodyellow",0xfafad2}, {"lightgray",0xd3d3d3},
    {"lightgreen",0x90ee90}, {"lightgrey",0xd3d3d3}, {"lightpink",0xffb6c1}, {"lightsalmon",0xffa07a}, {"lightseagreen",0x20b2aa}, {"lightskyblue",0x87cefa}, {"lightslategray",0x778899}, {"lightslategrey",0x778899},
    {"lightsteelblue",0xb0c4de}, {"lightyellow",0xffffe0}, {"lime",0x00ff00}, {"limegreen",0x32cd32}, {"linen",0xfaf0e6}, {"magenta",0xff00ff}, {"maroon",0x800000}, {"mediumaquamarine",0x66cdaa},
    {"mediumblue",0x0000cd}, {"mediumorchid",0xba55d3}, {"mediumpurple",0x9370db}, {"mediumseagreen",0x3cb371}, {"mediumslateblue",0x7b68ee}, {"mediumspringgreen",0x00fa9a}, {"mediumturquoise",0x48d1cc}, {"mediumvioletred",0xc71585},
    {"midnightblue",0x191970}, {"mintcream",0xf5fffa}, {"mistyrose",0xffe4e1}, {"moccasin",0xffe4b5}, {"navajowhite",0xffdead}, {"navy",0x000080}, {"oldlace",0xfdf5e6}, {"olive",0x808000},
    {"olivedrab",0x6b8e23}, {"orange",0xffa500}, {"orangered",0xff4500}, {"orchid",0xda70d6}, {"palegoldenrod",0xeee8aa}, {"palegreen",0x98fb98}, {"paleturquoise",0xafeeee}, {"palevioletred",0xdb7093},
    {"papayawhip",0xffefd5}, {"peachpuff",0xffdab9}, {"peru",0xcd853f}, {"pink",0xffc0cb}, {"plum",0xdda0dd}, {"powderblue",0xb0e0e6}, {"purple",0x800080}, {"red",0xff0000},
    {"rosybrown",0xbc8f8f}, {"royalblue",0x4169e1}, {"saddlebrown",0x8b4513}, {"salmon",0xfa8072}, {"sandybrown",0xf4a460}, {"seagreen",0x2e8b57}, {"seashell",0xfff5ee}, {"sienna",0xa0522d},
    {"silver",0xc0c0c0}, {"skyblue",0x87ceeb}, {"slateblue",0x6a5acd}, {"slategray",0x708090}, {"slategrey",0x708090}, {"snow",0xfffafa}, {"springgreen",0x00ff7f}, {"steelblue",0x4682b4},
    {"tan",0xd2b48c}, {"teal",0x008080}, {"thistle",0xd8bfd8}, {"tomato",0xff6347}, {"turquoise",0x40e0d0}, {"violet",0xee82ee}, {"wheat",0xf5deb3}, {"white",0xffffff},
    {"whitesmoke",0xf5f5f5}, {"yellow",0xffff00}, {"yellowgreen",0x9acd32} };
void h_nm_color(void)
{
    name_(0, (int)sx_param("len", 21), '#'); int idx = -1; for (int i = 0; i < 147; i++) if ((int)strlen(CSS[i].n) == nn) idx = is(CSS[i].n) ? i : idx;
    cp_color_rgb_t c = { .r = 1, .g = 2, .b = 3 }; bool ok = cp_color_by_name(&c, NM); sx_assert(ok == (idx >= 0), "name of a color");
    if (ok) { CHECK(idx >= 0, "name of a color"); unsigned v = CSS[idx].v; CHECK(c.r == (v >> 16) && c.g == (v >> 8 & 255) && c.b == (v & 255), "value of a color"); sx_reach("color"); } else { CHECK(c.r == 1 && c.g == 2 && c.b == 3, "color is changed"); sx_reach("no color"); }
}
static int hexv(int c) { int v = -1; v = (c >= '0') & (c <= '9') ? c - '0' : v; v = (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : v; v = (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : v; return v; }
void h_nm_hex(void)
{
    name_(0, (int)sx_param("len", 8), -1); for (int i = nn; i > 0; i--) NM[i] = NM[i - 1]; NM[0] = '#'; NM[++nn] = 0; int h[10], ok = (nn == 4) | (nn == 7); for (int i = 1; i < nn; i++) { h[i] = hexv((unsigned char)NM[i]); ok &= h[i] >= 0; }
    cp_color_rgb_t c = { .r = 1, .g = 2, .b = 3 }; bool r = cp_color_by_name(&c, NM); sx_assert(r == ok, "hexadecimal color"); if (!r) { CHECK(c.r == 1 && c.g == 2 && c.b == 3, "color is changed"); return; }
    int bad; if (nn == 4) bad = (c.r != h[1] * 17) | (c.g != h[2] * 17) | (c.b != h[3] * 17); else bad = (c.r != h[1] * 16 + h[2]) | (c.g != h[3] * 16 + h[4]) | (c.b != h[5] * 16 + h[6]); CHECK(!bad, "value of a hexadecimal color"); sx_reach(nn == 4 ? "3 digits" : "6 digits");
}
/* ---- functors ---- */
static struct { char const *n; cp_scad_type_t t; } const FN[] = { {"circle",CP_SCAD_CIRCLE},{"color",CP_SCAD_COLOR},{"cube",CP_SCAD_CUBE},{"cylinder",CP_SCAD_CYLINDER},{"difference",CP_SCAD_DIFFERENCE},{"group",CP_SCAD_UNION},{"hull",CP_SCAD_HULL},{"import",CP_SCAD_IMPORT},{"import_stl",CP_SCAD_IMPORT},{"intersection",CP_SCAD_INTERSECTION},{"linear_extrude",CP_SCAD_LINEXT},{"mirror",CP_SCAD_MIRROR},{"multmatrix",CP_SCAD_MULTMATRIX},{"polygon",CP_SCAD_POLYGON},{"polyhedron",CP_SCAD_POLYHEDRON},{"projection",CP_SCAD_PROJECTION},{"render",CP_SCAD_UNION},{"rotate",CP_SCAD_ROTATE},{"rotate_extrude",CP_SCAD_ROTEXT},{"scale",CP_SCAD_SCALE},{"sphere",CP_SCAD_SPHERE},{"square",CP_SCAD_SQUARE},{"surface",CP_SCAD_SURFACE},{"text",CP_SCAD_TEXT},{"translate",CP_SCAD_TRANSLATE},{"union",CP_SCAD_UNION},{"{",CP_SCAD_UNION} };
static char const *const NYI[] = { "assert", "assign", "children", "echo", "for", "if", "intersection_for", "let", "minkowski", "offset", "resize" };
void h_nm_functor(void)
{
    name_(0, (int)sx_param("len", 18), -1); int idx = -1, nyi = 0; for (int i = 0; i < (int)(sizeof FN / sizeof *FN); i++) if ((int)strlen(FN[i].n) == nn) idx = is(FN[i].n) ? i : idx; for (int i = 0; i < (int)(sizeof NYI / sizeof *NYI); i++) nyi |= is(NYI[i]);
    int e = ch("unknown is an error", 0, 1); so_.err_unknown_functor = e ? CP_ERR_FAIL : CP_ERR_IGNORE; so_.err_unsupported_functor = e ? CP_ERR_IGNORE : CP_ERR_FAIL; so_.err_unknown_param = CP_ERR_FAIL; st_.opt = &so_;
    static cp_syn_stmt_item_t it; it.type = CP_SYN_STMT_ITEM; it.functor = NM; static cp_syn_stmt_t *one[1] = { (cp_syn_stmt_t*)&it }; tree_.toplevel.data = one; tree_.toplevel.size = 1; bool ok = cp_scad_from_syn_tree(&st_, &in_, &er, &tree_); size_t n = st_.toplevel.size;
    sx_assert((n == 1) == (idx >= 0), "name of a functor"); CHECK(n < 2, "too many objects"); if (n == 0) { int want = nyi ? e : !e; sx_assert(ok == want, "treatment of unknown and unsupported functors"); sx_reach(ok ? "ignored" : "refused"); return; }
    CHECK(idx >= 0 && st_.toplevel.data[0]->type == FN[idx].t, "functor gives the wrong kind of object"); sx_reach("functor");
}
/* ---- SVG elements ---- */
static cp_xml_t *xml(char const *t)
{
    cp_xml_t *top = NULL; N = 0; put(t); T[N] = 0; file_ = calloc(1, sizeof *file_); sx_vfile("f.svg", T, (size_t)N); cp_pool_init(&pool); bool ok = cp_syn_read(file_, &er, &in_, NULL, "f.svg", NULL) && cp_xml_parse(&top, &pool, &er, file_, CP_XML_OPT_CHOMP); CHECK(ok, "text is not XML"); return top;
}
static struct { char const *n; int min; /* left end of what is drawn */ } const EL[] = { {"svg",101},{"g",100},{"circle",15},{"ellipse",18},{"line",-1},{"rect",1},{"path",60},{"polygon",40},{"polyline",40},{"title",-1},{"desc",-1},{"metadata",-1},{"style",-1},{"defs",-1},{"use",-1},{"symbol",-1},{"switch",-1},{"marker",-1},{"image",-1},{"foreignObject",-1} };
void h_nm_svg(void)
{
    sx_opt("fp", 2); name_(1, (int)sx_param("len", 14), -1); char b[500]; char ph[40]; memset(ph, 'q', sizeof ph); ph[nn] = 0;
    snprintf(b, sizeof b, "<svg xmlns='http://www.w3.org/2000/svg'><%s x='1' y='1' width='2' height='2' cx='20' cy='20' r='5' rx='2' ry='2' points='40 0 41 0 40 1' d='M60 0 61 0 60 1z'><rect x='100' y='100' width='1' height='1'/></%s></svg>", ph, ph);
    cp_xml_t *top = xml(b); top = cp_xml_find(top->child, CP_XML_ELEM, CP_XML_ANY, CP_XML_ANY); cp_xml_set_ns(top, NULL, CP_SVG_NS); cp_xml_t *e = cp_xml_skip_attr(top->child); while (e && (e->type != CP_XML_ELEM)) e = e->next; CHECK(e != NULL, "no element"); e->data = NM;
    static cp_mat3wi_t unit; cp_mat3wi_unit(&unit); static cp_csg3_ctxt_t cx3; static cp_csg3_local_t loc3; static cp_v_obj_p_t out; cx3.tmp = &pool; cx3.syn = &in_; cx3.opt = &co; cx3.err = &er; loc3.mat = &unit; loc3.tmp = &pool; cp_detail_t det = CP_DETAIL_INIT; det._fn = 8;
    bool ok = cp_svg_parse(&out, &cx3, &loc3, &det, NULL, 72, false, top); CHECK(ok, "import fails");
    int want = 100; for (int i = 0; i < (int)(sizeof EL / sizeof *EL); i++) if ((int)strlen(EL[i].n) == nn) want = is(EL[i].n) ? EL[i].min : want;
    CHECK(out.size < 2, "too many shapes"); int have = -1; if (out.size) { cp_csg2_poly_t *p = cp_csg2_cast(cp_csg2_poly_t, out.data[0]); double m = 1e9; for (size_t i = 0; i < p->point.size; i++) if (p->point.data[i].coord.x < m) m = p->point.data[i].coord.x; have = (int)floor(m + 0.5); }
    sx_assert(have == want, "element is not treated as its name says"); sx_reach(have == 100 ? "group" : have < 0 ? "nothing" : "shape");
}
/* ---- options ---- */
#ifdef PSTRACE
#define DB 1
#else
#define DB 3
#endif
/* bits: 1: accepts '=1', 2: accepts '=ignore' */
static struct { char const *n; int a; } const OP[] = { {"h",3},{"?",3},{"help",3},{"q",3},{"quiet",3},{"v",3},{"verbose",3},{"o",0},{"stl-bin",3},{"stl-txt",3},{"layer-gap",1},{"min",1},{"max",1},{"step",1},{"z",1},{"max-fn",1},{"opt-no-skip-empty",1},{"opt-skip-empty",1},{"opt-no-drop-collinear",1},{"opt-drop-collinear",1},{"max-simultaneous",0},{"grid",1},{"no-auto-grid",3},{"auto-grid",3},{"auto-grid-max",3},{"gran",1},{"eps",1},{"eps2",1},{"empty",2},{"collapse",2},{"outside-3d",2},{"outside-2d",2},{"unsupported-functor",2},{"unknown-functor",2},{"unknown-param",2},{"dump-syn",3},{"dump-scad",3},{"dump-csg3",3},{"dump-csg2",3},{"dump-ps",3},{"dump-stl",3},{"dump-stlb",3},{"dump-js",3},{"no-csg",1},{"csg",1},{"no-tri",1},{"tri",1},{"no-diff",1},{"diff",1},{"no-path",1},{"path",1},{"js-color-rand",1},{"js-group",3},{"js-no-keep-ctxt",1},{"js-keep-ctxt",1},{"ps-scale-fit",3},{"ps-scale-max",3},{"ps-no-single-page",1},{"ps-single-page",1},{"ps-no-tri",1},{"ps-tri",1},{"ps-no-path",1},{"ps-path",1},{"ps-no-mark",1},{"ps-mark",1},{"ps-no-wire",3},{"ps-rot-x",1},{"ps-rot-y",1},{"ps-rot-z",1},{"ps-scale",1},{"ps-persp",1},{"ps-color-path",1},{"ps-color-tri",1},{"ps-color-fill",1},{"ps-color-vertex",1},{"ps-color-mark",1},{"ps-line-width",1},
/* a normal build accepts the options of the tracing build and ignores them */
    {"debug-ps",3},{"debug-ps-page-skip",DB},{"debug-ps-page-count",DB},{"debug-ps-scale-x",DB},{"debug-ps-scale-y",DB},{"debug-ps-scale",DB},{"debug-ps-xlat-x",DB},{"debug-ps-xlat-y",DB},{"debug-ps-dots",DB},{"debug-ps-no-dots",DB}
};
static int oidx, oform;
static void opt_end(int rc)
{
    int want = oidx >= 0 && (OP[oidx].a & (oform ? 2 : 1)); int ok = rc == 0; CHECK(ok == want, "option is recognised exactly if it is documented");
    if (!ok) { CHECK(got.count == 0 && (nopened == 0 || is("o")), "something is written after a wrong option"); sx_reach("refused"); return; }
    static struct { char const *n; int k; } const DU[] = { {"dump-syn",GOT_SYN},{"dump-scad",GOT_SCAD},{"dump-csg3",GOT_CSG3},{"dump-csg2",GOT_CSG2},{"dump-ps",GOT_PS},{"dump-stl",GOT_STL},{"dump-stlb",GOT_STL},{"dump-js",GOT_JS} };
    for (int i = 0; i < 8; i++) if (is(DU[i].n)) { CHECK(got.kind == DU[i].k && got.count == 1, "option selects the wrong output"); CHECK(i != 6 || got.bin, "option selects the wrong output"); CHECK(i != 5 || !got.bin, "option selects the wrong output"); sx_reach("dump"); }
    sx_reach("accepted");
}
void h_nm_option(void)
{
    name_(1, (int)sx_param("len", 22), '-'); int eq = 0; for (int i = 0; i < nn; i++) eq |= NM[i] == '='; sx_assume(!eq); oform = ch("argument", 0, 1); oidx = -1; for (int i = 0; i < (int)(sizeof OP / sizeof *OP); i++) if ((int)strlen(OP[i].n) == nn) oidx = is(OP[i].n) ? i : oidx;
    if (oidx >= 0) oidx = (int)sx_concretize((u64)oidx); static char a[64]; a[0] = a[1] = '-'; memcpy(a + 2, NM, (size_t)nn); strcpy(a + 2 + nn, oform ? "=ignore" : "=1"); put("translate([0,0,0.5])cube(2);"); arg(a); at_end = opt_end; tool("f.scad"); CHECK(0, "the program does not end");
}
