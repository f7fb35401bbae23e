#ifndef GLUE_H
#define GLUE_H
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
/* type: 0 real range, 1 integer range, 2 MA type list (0..9) */
typedef struct { int type; double min, max, def; const char *name; } OptD;
enum { FL_CDL = 1, FL_UNST = 2, FL_OVER = 4 };
typedef struct Fn {
  const char *name, *camel, *group, *hint;
  int nIn; const char *kinds;         /* O H L C V r s p per input array */
  int nOpt; OptD opt[8];
  int nOut; int outInt[3]; const char *outName[3];
  int flags;
  int (*lookback)(const double *o);
  int (*batch)(int s, int e, const double *const *in, const double *o, int *b, int *n, void *const *out);
  int (*batchf)(int s, int e, const float *const *in, const double *o, int *b, int *n, void *const *out);
  int (*sinit)(void **st, const double *o);
  int (*sstep)(void *st, const double *in, void *const *out);
  int (*sbatch)(void *st, int s, int e, const double *const *in, int *b, int *n, void *const *out);
  int (*sfree)(void **st);
  int (*ssave)(void *st, FILE *f);
  int (*sload)(void **st, FILE *f);
} Fn;
extern const Fn FNS[];
extern const int NFN;
#ifdef __cplusplus
}
#endif
#endif
