// ops.h - interface between the explorations and a build variant (library + ops.c in one shared object)
#pragma once
#include <stddef.h>
enum { OK_INT = 0, OK_REAL = 1, OK_STRUCT = 2, OK_RO = 3 };
typedef struct OpCtx {
  int pat;                 // garbage pattern 0..3
  double *val, *sc; unsigned char *kind; long n, max;
  void (*before)(struct OpCtx *), (*after)(struct OpCtx *);
  void *user;
  void *fixed[3];          // when set: where the 2D, 3D and 4D object under test lives
} OpCtx;
typedef struct { int (*count)(void); void (*name)(int, char *, int); int (*dims)(int); void (*run)(int, int, OpCtx *); int maxverts, realsize; } OpTable;
#define OPS_SYMBOL "ops_table"
