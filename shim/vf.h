/* Flat call interface between the Python generators/oracles and the library under test. */
#ifndef VF_H
#define VF_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
typedef struct vf_ctx vf_ctx;
struct vf_ctx {
  const int *ip; long nip, ipos;
  const double *dp; long ndp, dpos;
  double *out; long nout, cap;
  struct { double *p, *orig; long n; } ro[64]; int nro;
  void *owned[256]; int nowned;
};
typedef void (*vf_fn)(vf_ctx *);
void vf_register(const char *name, vf_fn fn);
int vf_i(vf_ctx *c);                 /* next int argument */
double vf_d(vf_ctx *c);              /* next double argument */
double *vf_in(vf_ctx *c, long n);    /* next n doubles, exact-size block, checked unmodified after the call */
double *vf_mut(vf_ctx *c, long n);   /* next n doubles, exact-size block the callee may change */
double *vf_buf(vf_ctx *c, long n);   /* output block of n doubles filled with NaN */
int *vf_ibuf(vf_ctx *c, long n);
void vf_o(vf_ctx *c, double v);
void vf_ov(vf_ctx *c, const double *p, long n);
char *vf_stdout(void);               /* what the library printed during this call */
#define VF(name) static void f_##name(vf_ctx *c); \
  __attribute__((constructor)) static void reg_##name(void){ vf_register(#name, f_##name);} \
  static void f_##name(vf_ctx *c)
#define I() vf_i(c)
#define D() vf_d(c)
#define IN(n) vf_in(c,(n))
#define MUT(n) vf_mut(c,(n))
#define BUF(n) vf_buf(c,(n))
#define IBUF(n) vf_ibuf(c,(n))
#define O(v) vf_o(c,(double)(v))
#define OV(p,n) vf_ov(c,(p),(n))
#endif
