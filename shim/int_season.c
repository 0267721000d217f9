#include "vf.h"
#include "seastest.h"
VF(ocsb){ int n=I(),f=I(),ml=I(),me=I(); double *x=IN(n),s=NAN,cr=NAN; OCSBtest(x,n,f,ml,me==0?"aic":me==1?"bic":me==2?"aicc":"fixed",&s,&cr); O(s); O(cr); }
VF(shtest){ int n=I(),k=I(); int *f=IBUF(k); for(int i=0;i<k;i++) f[i]=I(); double *x=IN(n),*s=BUF(k); SHtest(x,n,f,k,s); OV(s,k); }
/* n f periodic sw sdeg tdeg ldeg tw lw sj tj lj robust inner outer ; -1 = default */
VF(stl){ int n=I(),f=I(),per=I(); int a[12]; for(int i=0;i<12;i++) a[i]=I(); double *x=IN(n),*se=BUF(n),*tr=BUF(n),*re=BUF(n);
#define P(k) (a[k]<0?NULL:&a[k])
  stl(x,n,f,per?"period":"null",P(0),P(1),P(4),P(2),P(5),P(3),P(6),P(7),P(8),P(9),P(10),P(11),se,tr,re); OV(se,n); OV(tr,n); OV(re,n); }
VF(modstl){ int n=I(),f=I(),sw=I(),hl=I(); double l=D(),*x=IN(n),*se=BUF(n),*tr=BUF(n),*re=BUF(n); modstl(x,n,f,sw<0?NULL:&sw,hl?&l:NULL,se,tr,re); OV(se,n); OV(tr,n); OV(re,n); }
VF(mstl){ int n=I(),k=I(),sw=I(),it=I(),hl=I(); int *f=IBUF(k); for(int i=0;i<k;i++) f[i]=I(); double l=D(),*x=IN(n),*tr=BUF(n),*re=BUF(n); double **se=malloc(sizeof(double*)*(k+1)); for(int i=0;i<k;i++) se[i]=BUF(n); int ns=k; mstl(x,n,f,&ns,sw<0?NULL:&sw,hl?&l:NULL,it<0?NULL:&it,se,tr,re); O(ns); OV(tr,n); OV(re,n); for(int i=0;i<ns&&i<k;i++){ O(f[i]); OV(se[i],n);} free(se); }
