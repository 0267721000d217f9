#include "vf.h"
#include REPO_PUBLIC
/* mode: -1 acvf, 0/1 acvf_opt method */
VF(acvf){ int m=I(), N=I(), M=I(); double *x=IN(N), *o=BUF(M);
  if(m<0) acvf(x,N,o,M); else acvf_opt(x,N,m,o,M); OV(o,M); }
VF(acf){ int m=I(), N=I(), M=I(); double *x=IN(N), *o=BUF(M);
  if(m<0) acvf(x,N,o,M); else acvf_opt(x,N,m,o,M); acvf2acf(o,M); OV(o,M); }
VF(pacf){ int m=I(), N=I(), M=I(); double *x=IN(N), *o=BUF(M);
  if(m<0) pacf(x,N,o,M); else pacf_opt(x,N,m,o,M); OV(o,M); }
VF(yw){ int N=I(),p=I(); double *x=IN(N),*phi=BUF(p),*v=BUF(1); yw(x,N,p,phi,v); OV(phi,p); O(*v); }
VF(burg){ int N=I(),p=I(); double *x=IN(N),*phi=BUF(p),*v=BUF(1); burg(x,N,p,phi,v); OV(phi,p); O(*v); }
VF(hr){ int N=I(),p=I(),q=I(); double *x=IN(N),*phi=BUF(p),*th=BUF(q),*v=BUF(1); hr(x,N,p,q,phi,th,v); OV(phi,p); OV(th,q); O(*v); }
VF(ar_fn){ int N=I(),p=I(),m=I(); double *x=IN(N),*phi=BUF(p),*v=BUF(1); ar(x,N,p,m,phi,v); OV(phi,p); O(*v); }
VF(ar_estimate){ int N=I(),m=I(); double *x=IN(N); O(ar_estimate(x,N,m)); }
/* orders selected: parsed from the three report lines, the function's only output */
VF(model_estimate){ int N=I(),d=I(),pm=I(),h=I(); double *x=IN(N); model_estimate(x,N,d,pm,h);
  char *t=vf_stdout(); const char *k[3]={"AIC Estimate","SC Estimate","HQ Estimate"};
  for(int i=0;i<3;i++){ char *q=strstr(t,k[i]); int a=-1,b=-1; if(q) q=strchr(q,':'); if(q) sscanf(q,": p = %d q = %d",&a,&b); O(a); O(b);} }
/* method N L | x -> p order ordermax retval mean var aic phi[p] res[N] xpred[L] amse[L] */
VF(ar_obj){ int m=I(),N=I(),L=I(); double *x=IN(N); ar_object o=ar_init(m,N); ar_exec(o,x);
  O(o->p);O(o->order);O(o->ordermax);O(o->retval);O(o->mean);O(o->var);O(o->aic);OV(o->phi,o->p);
  if(m==2) OV(o->res,N); 
  double *xp=BUF(L),*am=BUF(L); if(L>0){ ar_predict(o,x,L,xp,am); OV(xp,L); OV(am,L);} ar_free(o); }
