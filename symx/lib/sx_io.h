/* forced into every source of the code under test and into every harness: the input and
 * output functions of the C library and the ends of the program can be replaced by a harness
 * (default: symx/lib/libc.c for symbolic runs, the C library for replays) */
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
extern FILE *sxio_fopen(char const *, char const *);
extern int sxio_fclose(FILE *);
extern size_t sxio_fread(void *, size_t, size_t, FILE *);
extern size_t sxio_fwrite(void const *, size_t, size_t, FILE *);
extern int sxio_feof(FILE *);
extern int sxio_ferror(FILE *);
extern int sxio_fflush(FILE *);
extern int sxio_vfprintf(FILE *, char const *, va_list);
extern int sxio_fprintf(FILE *, char const *, ...);
extern int sxio_fputs(char const *, FILE *);
extern int sxio_fputc(int, FILE *);
extern void sxio_exit(int) __attribute__((noreturn));
extern void sxio_abort(void) __attribute__((noreturn));
extern void *sxio_malloc(size_t);
extern void *sxio_calloc(size_t, size_t);
extern void *sxio_realloc(void *, size_t);
#ifndef SXIO_IMPL
#undef putc
#define fopen sxio_fopen
#define fclose sxio_fclose
#define fread sxio_fread
#define fwrite sxio_fwrite
#define feof sxio_feof
#define ferror sxio_ferror
#define fflush sxio_fflush
#define vfprintf sxio_vfprintf
#define fprintf sxio_fprintf
#define fputs sxio_fputs
#define fputc sxio_fputc
#define putc sxio_fputc
#define exit sxio_exit
#define malloc sxio_malloc
#define calloc sxio_calloc
#define realloc sxio_realloc
#define abort sxio_abort
#endif
