#pragma once
#include "sx.h"
#include <stdlib.h>
#include <string.h>
#include <hob3lbase/base-def.h>
#define CHECK(c, m) sx_assert(!!(c), m)
/* structural choice: symbolic, but fixed to one value per path */
static inline int ch(char const *n, int lo, int hi) { return (int)sx_concretize(sx_int(n, lo, hi)); }
