/* builds a scene text with symbolic numbers and evaluates it with the real parser */
#pragma once
#include "common.h"
#include <stdio.h>
#include <math.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/pool.h>
#include <hob3lbase/base-mat.h>
#include <hob3lbase/arith.h>
#include <hob3l/syn.h>
#include <hob3l/syn-msg.h>
#include <hob3l/scad.h>
#include <hob3l/csg.h>
#include <hob3l/csg2.h>
#include <hob3l/csg3.h>
#include <hob3l/gc.h>
#ifdef DBG
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) ((void)0)
#endif
typedef long long ll;
#ifndef TMAX
#define TMAX 4096
#endif
static char T[TMAX]; static int N;
static void put(char const *s) { int n = (int)strlen(s); memcpy(T + N, s, (size_t)n); N += n; }
static void putc1(int c) { T[N++] = (char)c; }
/* a number whose digits are symbolic: lo..hi within 0..9 or 0..99; written in decimal */
static int pdig(int lo, int hi) { int d = (int)sx_int("digit", lo, hi); putc1('0' + d); return d; }
static int pdig2(void) { int a = (int)sx_int("digit", 0, 9), b = (int)sx_int("digit", 0, 9); putc1('0' + a); putc1('0' + b); return 10 * a + b; }
/* fixed per path */
static void pint(int v) { char b[24]; snprintf(b, sizeof b, "%d", v); put(b); }
static void pdbl(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); put(b); }
static cp_syn_input_t in_; static cp_syn_tree_t tree_; static cp_err_t er; static cp_syn_file_t *file_; static cp_scad_tree_t st_; static cp_scad_opt_t so_; static cp_pool_t pool; static cp_csg_opt_t co = CP_CSG_OPT_DEFAULT; static cp_csg3_tree_t t3;
static bool scene(void)
{
    T[N] = 0; D("%s\n", T); file_ = calloc(1, sizeof *file_); sx_vfile("f.scad", T, (size_t)N);
    bool ok = cp_syn_read(file_, &er, &in_, NULL, "f.scad", NULL) && cp_syn_parse(&er, &in_, &tree_, file_); CHECK(ok, "text does not parse");
    so_.err_unknown_functor = CP_ERR_FAIL; st_.opt = &so_;
    ok = cp_scad_from_syn_tree(&st_, &in_, &er, &tree_); D("scad %d %s\n", ok, er.msg.size ? er.msg.data : ""); CHECK(ok, "scene is rejected");
    cp_pool_init(&pool); t3.opt = &co; ok = cp_csg3_from_scad_tree(&pool, &in_, &t3, &er, &st_); D("csg3 %d %s\n", ok, er.msg.size ? er.msg.data : "");
    return ok;
}
