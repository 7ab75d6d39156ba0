/* Harness API.  Under symx these are intercepted; natively (replay) they
 * are provided by sx_native.c and read a recorded assignment. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
/* symbolic integer in [lo,hi] */
extern int64_t sx_int(char const *name, int64_t lo, int64_t hi);
extern uint8_t sx_byte(char const *name);
extern uint64_t sx_u64(char const *name);
extern void sx_assume(int cond);
/* decided by the solver for all values on the path */
extern void sx_assert(int cond, char const *msg);
extern void sx_reach(char const *label);
extern int64_t sx_param(char const *name, int64_t dflt);
extern int64_t sx_concretize(int64_t v);
extern double sx_concretize_d(double v);
extern void sx_opt(char const *name, int64_t v);
extern int sx_is_symbolic(int64_t v);
extern void sx_end(void) __attribute__((noreturn));
extern void sx_note(char const *name, int64_t v);
extern void sx_mute(int64_t v);
extern void sx_vfile(char const *name, void const *data, size_t n);
#ifdef __cplusplus
}
#endif
