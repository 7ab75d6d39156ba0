/* the command line tool itself (src/hob3l/main.c), with its outputs intercepted:
 * the writers of the output formats and the end of the program are ours */
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <float.h>
#include <string.h>
#include <hob3lbase/stream.h>
#include "scene.h"
#include <hob3l/ps.h>
#include <hob3l/csg2-bool.h>
static struct { int kind; void *tree; int bin; cp_ps_opt_t const *ps; int count; } got;
enum { GOT_NONE, GOT_STL, GOT_JS, GOT_PS, GOT_CSG2, GOT_CSG3, GOT_SCAD, GOT_SYN };
static void got_(int k, void *t) { got.kind = k; got.tree = t; got.count++; }
static void cap_stl(cp_stream_t *s, cp_csg2_tree_t *t, bool bin) { (void)s; got_(GOT_STL, t); got.bin = bin; }
static void cap_js(cp_stream_t *s, cp_csg2_tree_t *t) { (void)s; got_(GOT_JS, t); }
static void cap_ps(cp_stream_t *s, cp_ps_opt_t const *o, cp_csg2_tree_t *t) { static cp_ps_opt_t ps; static cp_ps_xform_t xf1; (void)s; got_(GOT_PS, t); ps = *o; if (o->xform1) { xf1 = *o->xform1; ps.xform1 = &xf1; } got.ps = &ps; }
static void cap_csg2(cp_stream_t *s, cp_csg2_tree_t *t) { (void)s; got_(GOT_CSG2, t); }
static void cap_csg3(cp_stream_t *s, cp_csg3_tree_t *t) { (void)s; got_(GOT_CSG3, t); }
static void cap_scad(cp_stream_t *s, cp_scad_tree_t *t) { (void)s; got_(GOT_SCAD, t); }
static void cap_syn(cp_stream_t *s, cp_syn_tree_t *t) { (void)s; got_(GOT_SYN, t); }
static void (*at_end)(int code);
static _Noreturn void cli_exit(int code) { if (at_end) at_end(code); sx_end(); abort(); }
static char opened[64]; static int nopened;
static FILE *cli_fopen(char const *n, char const *m) { snprintf(opened, sizeof opened, "%s", n); (void)m; nopened++; static char dummy[64]; return (FILE*)dummy; }
static int cli_fclose(FILE *f) { (void)f; return 0; }
#define cp_csg2_tree_put_stl cap_stl
#define cp_csg2_tree_put_js cap_js
#define cp_csg2_tree_put_ps cap_ps
#define cp_csg2_tree_put_scad cap_csg2
#define cp_csg3_tree_put_scad cap_csg3
#define cp_scad_tree_put_scad cap_scad
#define cp_syn_tree_put_scad cap_syn
#define exit cli_exit
#define atexit(x) 0
#define fopen cli_fopen
#define fclose cli_fclose
#define main hob3l_main
#include <hob3l/main.c>
#undef main
#undef exit
#undef atexit
#undef fopen
#undef fclose
#undef cp_csg2_tree_put_stl
#undef cp_csg2_tree_put_js
#undef cp_csg2_tree_put_ps
#undef cp_csg2_tree_put_scad
#undef cp_csg3_tree_put_scad
#undef cp_scad_tree_put_scad
#undef cp_syn_tree_put_scad
static char *args_[16]; static int nargs;
static void arg(char const *s) { if (!nargs) args_[nargs++] = "hob3l"; args_[nargs++] = (char*)s; }
/* T holds the scene */
static int tool(char const *file) { T[N] = 0; D("%s\n", T); for (int i = 1; i < nargs; i++) D(" arg %s\n", args_[i]); sx_vfile(file, T, (size_t)N); arg(file); args_[nargs] = NULL; return hob3l_main(nargs, args_); }
