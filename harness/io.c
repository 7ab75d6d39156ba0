/* C31: output failures, C32: input files */
#include "scene.h"
#include <errno.h>
#include <hob3lbase/stream.h>
#include <hob3lbase/panic.h>
#define main hob3l_main
#include <hob3l/main.c>
#undef main
/* ---- outputs: every call may fail ---- */
static struct { int open; long pend, written; int lost; unsigned char const *more; size_t nmore; int eh; } O; /* the output (a file or stdout) */
static char ofile_[64]; static int nfault, maxfault, io_on; static int nopen, maxopen, openfail;
static int fault(char const *n) { if (nfault >= maxfault) return 0; int f = (int)sx_int(n, 0, 1); if (f) { nfault++; errno = ENOSPC; } return f; }
static int is_out(FILE *f) { return io_on && (f == stdout || f == (FILE*)ofile_); }
static void delivered(void) { O.pend = 0; }
size_t sxio_fwrite(void const *d, size_t s, size_t n, FILE *f)
{
    size_t z = s * n; if (!is_out(f) || z == 0) return z == 0 ? 0 : n; CHECK(O.open, "write to a closed file");
    if (O.nmore) { if (O.more != d || z != O.nmore) O.lost = 1; O.nmore = 0; }
    if (fault("short write")) { size_t w = (size_t)sx_concretize(sx_int("written", 0, (int64_t)n - 1)); O.more = (unsigned char const *)d + w * s; O.nmore = z - w * s; if (w) { O.pend++; O.written += (long)(w * s); } O.eh = 1; return w; }
    O.pend++; O.written += (long)z; return n;
}
int sxio_vfprintf(FILE *f, char const *t, va_list v) { (void)t; (void)v; if (!is_out(f)) return 0; CHECK(O.open, "write to a closed file"); if (O.nmore) { O.lost = 1; O.nmore = 0; } if (fault("print fails")) { O.lost = 1; O.eh = 1; return -1; } O.pend++; O.written++; return 1; }
int sxio_fprintf(FILE *f, char const *t, ...) { va_list v; va_start(v, t); int r = sxio_vfprintf(f, t, v); va_end(v); return r; }
int sxio_fputs(char const *t, FILE *f) { if (!is_out(f)) return 0; size_t n = strlen(t); return n && sxio_fwrite(t, 1, n, f) != n ? EOF : 0; }
int sxio_fputc(int c, FILE *f) { if (!is_out(f)) return c; char b = (char)c; return sxio_fwrite(&b, 1, 1, f) != 1 ? EOF : c; }
int sxio_fflush(FILE *f) { if (f && !is_out(f)) return 0; if (O.pend && fault("flush fails")) { O.eh = 1; return EOF; } delivered(); return 0; }
/* ---- inputs ---- */
typedef struct { int used; unsigned char const *d; size_t n, pos; int eof, err; } IN; static IN ins[64]; static struct { char const *name; unsigned char const *d; size_t n; } vf[8]; static int nvf; static int chunked, inputs, chunks_left;
static void file(char const *name, void const *d, size_t n) { vf[nvf].name = name; vf[nvf].d = d; vf[nvf].n = n; nvf++; }
static IN *is_in(FILE *f) { return (char*)f >= (char*)ins && (char*)f < (char*)(ins + 64) ? (IN*)(void*)f : NULL; }
FILE *sxio_fopen(char const *n, char const *m)
{
    if (m[0] != 'r') { if (openfail && fault("open fails")) return NULL; CHECK(!O.open, "output is opened twice"); memset(&O, 0, sizeof O); O.open = 1; return (FILE*)ofile_; }
    for (int i = 0; i < nvf; i++) if (!strcmp(vf[i].name, n)) { if (inputs && fault("open of an input fails")) return NULL; for (int k = 0; k < 64; k++) if (!ins[k].used) { ins[k] = (IN){ 1, vf[i].d, vf[i].n, 0, 0, 0 }; nopen++; if (nopen > maxopen) maxopen = nopen; return (FILE*)(void*)&ins[k]; } CHECK(0, "too many open files"); }
    errno = ENOENT; return NULL;
}
size_t sxio_fread(void *d, size_t s, size_t n, FILE *f)
{
    IN *i = is_in(f); CHECK(i && i->used && s == 1, "read from a file that is not open"); if (inputs && !i->eof && fault("read fails")) { i->err = 1; errno = EIO; return 0; }
    size_t w = n; if (w > i->n - i->pos) { w = i->n - i->pos; i->eof = 1; }
    if (chunked && w > 1 && chunks_left-- > 0) { static int const part[] = { 0, 1, 2 }; int p = part[ch("chunk", 0, 2)]; size_t q = p == 0 ? w : p == 1 ? 1 : w - 1; if (q < w) { w = q; i->eof = 0; } }
    memcpy(d, i->d + i->pos, w); i->pos += w; return w;
}
int sxio_feof(FILE *f) { IN *i = is_in(f); return i ? i->eof : 0; }
int sxio_ferror(FILE *f) { IN *i = is_in(f); return i ? i->err : is_out(f) ? O.eh : 0; }
int sxio_fclose(FILE *f)
{
    IN *i = is_in(f); if (i) { CHECK(i->used, "file is closed twice"); i->used = 0; nopen--; return 0; }
    if (!is_out(f)) return 0; CHECK(O.open, "file is closed twice"); O.open = 0; if (O.pend && fault("close fails")) { O.eh = 1; return EOF; } delivered(); return 0;
}
/* ---- the end ---- */
static void (*at_end_)(int code);
void sxio_exit(int c) { if (at_end_) { void (*e)(int) = at_end_; at_end_ = NULL; e(c); } sx_end(); }
void sxio_abort(void) { sxio_exit(134); }
static char *args_[16]; static int nargs; static void arg(char const *s) { if (!nargs) args_[nargs++] = "hob3l"; args_[nargs++] = (char*)s; }
static void tool(void) { args_[nargs] = NULL; int r = hob3l_main(nargs, args_); sxio_exit(r); }
/* ---- C31 ---- */
static void written_end(int code)
{
    if (code != 0) { sx_assert(nfault > 0, "failure without a reason"); sx_reach("reported"); return; }
    CHECK(!O.lost && !O.nmore, "output is incomplete, but the program reports success"); CHECK(O.pend == 0, "output is not known to be written, but the program reports success"); CHECK(O.written > 0, "no output"); sx_reach("written");
}
static char const *const FMT[] = { "--dump-stl", "--dump-stlb", "--dump-js", "--dump-ps", "--dump-csg2", "--dump-csg3", "--dump-scad", "--dump-syn" };
static char const *const EXT[] = { "o.stl", "o.stlb", "o.js", "o.ps", "o.scad" };
void h_io_out(void)
{
    static char const S[] = "cube(1);\n"; file("a.scad", S, sizeof S - 1); maxfault = (int)sx_param("faults", 1); at_end_ = written_end; openfail = 1;
    int k = ch("output", (int)sx_param("lo", 0), (int)sx_param("hi", 12)); if (k < 8) { arg(FMT[k]); O.open = 1; if (ch("to a file", 0, 1)) { O.open = 0; arg("-o"); arg("o.out"); } } else { arg("-o"); arg(EXT[k - 8]); }
    arg("-q"); arg("--z=0.5"); arg("a.scad"); io_on = 1; tool();
}
/* the stream functions alone: every size, every number of bytes written */
static void stream_end(int code) { (void)code; sx_assert(nfault > 0, "failure without a reason"); sx_reach("reported"); }
void h_io_stream(void)
{
    static char B[64]; int n = ch("size", 1, (int)sx_param("size", 12)); maxfault = 2; O.open = 1; io_on = 1; at_end_ = stream_end; cp_stream_t *s = CP_STREAM_FROM_FILE(stdout);
    int c = ch("calls", 1, 2); for (int i = 0; i < c; i++) { if (ch("print", 0, 1)) cp_printf(s, "%d", n); else s->write(s->data, B, (size_t)n); }
    CHECK(!O.lost && !O.nmore, "output is incomplete, but the writer returns"); sx_reach("written");
}
/* ---- C32 ---- */
static cp_syn_file_t rf_;
void h_io_read(void)
{
    static int const SZ[] = { 0, 1, 2, 3, 5, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12289 }; int k = ch("size", 0, (int)sizeof SZ / (int)sizeof *SZ - 1), n = SZ[k]; static unsigned char B[13000];
    for (int i = 0; i < n; i++) B[i] = (unsigned char)(i % 61 == 60 ? '\n' : 'a' + i % 23);
    int pos[6] = { 0, 1, n / 2, n - 2, n - 1, 4095 }; for (int i = 0; i < 6; i++) if (pos[i] >= 0 && pos[i] < n) B[pos[i]] = sx_byte("byte");
    static unsigned char R[13000]; memcpy(R, B, sizeof R); file("a.scad", B, (size_t)n); maxfault = 1; inputs = 1; chunked = 1; chunks_left = (int)sx_param("chunks", 3); 
    bool ok = cp_syn_read(&rf_, &er, &in_, NULL, "a.scad", NULL); CHECK(nopen == 0, "file stays open"); sx_assert(ok == (nfault == 0), "failure of reading is not reported"); if (!ok) { CHECK(er.msg.size > 0, "failure without a message"); sx_reach("failed"); return; }
    CHECK(rf_.content.size == (size_t)n && rf_.content_orig.size == (size_t)n, "size of what is read"); int bad = rf_.content.data[n] != 0; for (int i = 0; i < n; i++) { bad |= (unsigned char)rf_.content.data[i] != R[i]; bad |= (unsigned char)rf_.content_orig.data[i] != R[i]; } CHECK(!bad, "bytes of what is read"); sx_reach("read");
}
/* the location of every byte of a text */
void h_io_loc(void)
{
    int n = ch("size", 1, (int)sx_param("size", 7)); static char B[16]; for (int i = 0; i < n; i++) { int c = sx_byte("byte"); sx_assume((c == '\n') | (c == '\r') | (c == 'a')); B[i] = (char)c; } file("a.scad", B, (size_t)n); file("b.scad", "x\ny", 3); static cp_syn_file_t f2;
    bool sec = ch("second file", 0, 1); if (sec) CHECK(cp_syn_read(&f2, &er, &in_, NULL, "b.scad", NULL), "cannot read"); CHECK(cp_syn_read(&rf_, &er, &in_, NULL, "a.scad", NULL), "cannot read"); if (!sec) CHECK(cp_syn_read(&f2, &er, &in_, NULL, "b.scad", NULL), "cannot read");
    int p = ch("position", 0, n - 1), line = 0, ls = 0; for (int i = 0; i < p; i++) if (B[i] == '\n') { line++; ls = i + 1; } cp_syn_loc_t l; memset(&l, 0, sizeof l); CHECK(cp_syn_get_loc(&l, &in_, rf_.content.data + p), "location is not found");
    CHECK(l.file == &rf_, "location is in another file"); CHECK(l.line == (size_t)line, "line of a location"); CHECK(l.loc == rf_.content.data + p, "position of a location");
    CHECK(l.orig == rf_.content_orig.data + ls, "start of the line of a location"); int le = ls; while (le < n && B[le] != '\n') le++; if (le < n) le++; CHECK(l.orig_end == rf_.content_orig.data + le, "end of the line of a location"); sx_reach("located");
}
/* any number of files one after another */
static char const STLF[] = "solid x\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 0 1 0\nvertex 1 0 0\nendloop\nendfacet\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 0 1\nendloop\nendfacet\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 0 0 1\nvertex 0 1 0\nendloop\nendfacet\nfacet normal 0 0 1\nouter loop\nvertex 1 0 0\nvertex 0 1 0\nvertex 0 0 1\nendloop\nendfacet\nendsolid x\n";
static char const SVGF[] = "<svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"M0 0 H9 V9 Z\"/></svg>";
static int wantok;
static void in_end(int code) { if (!wantok) { sx_assert(code != 0, "unreadable input is not reported"); sx_reach("refused"); return; } sx_assert((code == 0) == (nfault == 0), nfault ? "failure of reading is not reported" : "failure without a reason"); CHECK(code || nopen == 0, "files stay open"); sx_reach(code ? "failed" : "done"); }
static void many_end(int code) { in_end(code); CHECK(maxopen <= 3, "files read one after another are open at the same time"); }
static char const *const IT[] = { "include <c.scad>\n", "import(\"t.stl\");\n", "linear_extrude(2) import(\"s.svg\");\n" };
static void items(int m) { N = 0; put("cube(1);\n"); for (int i = 0; i < m; i++) put(IT[ch("item", 0, 2)]); T[N] = 0; D("%s\n", T); file("a.scad", T, (size_t)N); file("c.scad", "cube(2);", 8); file("t.stl", STLF, sizeof STLF - 1); file("s.svg", SVGF, sizeof SVGF - 1); arg("--dump-csg3"); arg("a.scad"); }
void h_io_many(void) { wantok = 1; items((int)sx_param("items", 5)); at_end_ = many_end; tool(); }
void h_io_fail(void) { wantok = 1; items((int)sx_param("items", 2)); maxfault = 1; inputs = 1; at_end_ = in_end; tool(); }
/* files that include themselves */
void h_io_cycle(void)
{
    static char const *const F[] = { "a.scad", "b.scad", "c.scad" }; static char const *const S[] = { "include <a.scad>\n", "cube(1); include <b.scad>\n", "union(){ include <c.scad>\n}" , "include <d.scad>" }; int n = ch("files", 1, 3); for (int i = 0; i < n; i++) { int t = ch("text", 0, 3); file(F[i], S[t], strlen(S[t])); if (t < 3 && t >= n) return; }
    file("d.scad", "cube(3);", 8); /* follow */ int seen = 0, c = 0; for (;;) { if (seen >> c & 1) break; seen |= 1 << c; char const *s = (char const *)vf[c].d; char const *q = strchr(s, '<'); int to = q[1] - 'a'; if (to == 3) { wantok = 1; break; } c = to; }
    arg("--dump-csg3"); arg("a.scad"); at_end_ = in_end; tool();
}
/* names of files are relative to the file they are in */
static char want_[3][64]; static int nwant;
static void rel(char *d, char const *base, char const *n) { if (n[0] == '/') { strcpy(d, n); return; } strcpy(d, base); char *s = strrchr(d, '/'); strcpy(s ? s + 1 : d, n); }
void h_io_path(void)
{
    static char const *const A[] = { "a.scad", "x/a.scad", "/y/a.scad", "../p/q/a.scad", "./a.scad" }, *const B[] = { "b.scad", "s/b.scad", "/z/b.scad", "../b.scad" }, *const C[] = { "t.stl", "u/t.stl", "/w/t.stl", "../v/t.stl" };
    char const *a = A[ch("model", 0, 4)], *b = B[ch("include", 0, 3)], *c = C[ch("import", 0, 3)]; static char T1[99], T2[99]; sprintf(T1, "include <%s>\n", b); sprintf(T2, "import(\"%s\");\n", c); rel(want_[0], a, b); rel(want_[1], want_[0], c);
    file(a, T1, strlen(T1)); file(want_[0], T2, strlen(T2)); int present = ch("present", 0, 1); if (present) file(want_[1], STLF, sizeof STLF - 1); wantok = present; (void)nwant;
    arg("--dump-csg3"); arg(a); at_end_ = in_end; tool();
}
#undef malloc
#undef calloc
#undef realloc
extern void *malloc(size_t), *calloc(size_t, size_t), *realloc(void *, size_t);
/* ---- memory: any allocation may fail ---- */
static int mem_on, mem_at, mem_n;
static int no_mem(void) { if (!mem_on) return 0; int f = mem_n++ == mem_at; if (f) nfault++; return f; }
void *sxio_malloc(size_t n) { return no_mem() ? NULL : malloc(n); }
void *sxio_calloc(size_t n, size_t s) { return no_mem() ? NULL : calloc(n, s); }
void *sxio_realloc(void *p, size_t n) { return no_mem() ? NULL : realloc(p, n); }
static void mem_end(int code) { mem_on = 0; sx_assert((code != 0) == (nfault > 0), nfault ? "lack of memory is not reported" : "failure without a reason"); sx_reach(code ? "reported" : "done"); }
void h_io_mem(void)
{
    items(1); static char const *const F[] = { "--dump-stl", "--dump-js", "--dump-syn" }; args_[1] = (char*)F[ch("output", 0, 2)]; arg("--z=0.5"); at_end_ = mem_end; mem_at = ch("fails", 0, (int)sx_param("allocs", 400)); mem_on = 1; tool();
}
