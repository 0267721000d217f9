#include "vf.h"
#include REPO_PUBLIC
/* exported by the library, not declared in the public header */
extern void arima_setCSSML(arima_object,int);
extern void sarima_setCSSML(sarima_object,int);
/* not declared in the public header, defined by the library */
extern void sarimax_setParams(sarimax_object obj, double *phi, double *theta, double *PHI, double *THETA);
/* Common report layout (Python side: vf/models.py):
   retval p d q s P D Q M ncoeff lvcov Nused mean var loglik aic | phi theta PHI THETA exog(r) | vcov(lvcov) | res(Nused) | xpred(L) amse(L) */
#define HEAD(o,s_,P_,D_,Q_) O(o->retval);O(o->p);O(o->d);O(o->q);O(s_);O(P_);O(D_);O(Q_);O(o->M);O(o->ncoeff);O(o->lvcov);O(o->Nused);O(o->mean);O(o->var);O(o->loglik);O(o->aic)
/* p d q N method optmethod cssml L nexec | x */
VF(arima){ int p=I(),d=I(),q=I(),N=I(),m=I(),om=I(),cm=I(),L=I(),ne=I(); double *x=IN(N);
  arima_object o=arima_init(p,d,q,N); arima_setMethod(o,m); if(om>=0) arima_setOptMethod(o,om); if(cm>=0) arima_setCSSML(o,cm);
  for(int k=0;k<ne;k++) arima_exec(o,x);
  HEAD(o,0,0,0,0); OV(o->phi,p); OV(o->theta,q);
  double *v=BUF(o->lvcov); arima_vcov(o,v); OV(v,o->lvcov); OV(o->res,o->Nused);
  if(L>0){ double *xp=BUF(L),*am=BUF(L); arima_predict(o,x,L,xp,am); OV(xp,L); OV(am,L);} arima_free(o); }
/* p d q s P D Q N method optmethod cssml L nexec | x */
VF(sarima){ int p=I(),d=I(),q=I(),s=I(),P=I(),DD=I(),Q=I(),N=I(),m=I(),om=I(),cm=I(),L=I(),ne=I(); double *x=IN(N);
  sarima_object o=sarima_init(p,d,q,s,P,DD,Q,N); sarima_setMethod(o,m); if(om>=0) sarima_setOptMethod(o,om); if(cm>=0) sarima_setCSSML(o,cm);
  for(int k=0;k<ne;k++) sarima_exec(o,x);
  HEAD(o,o->s,o->P,o->D,o->Q); OV(o->phi,p); OV(o->theta,q); OV(o->PHI,P); OV(o->THETA,Q);
  double *v=BUF(o->lvcov); sarima_vcov(o,v); OV(v,o->lvcov); OV(o->res,o->Nused);
  if(L>0){ double *xp=BUF(L),*am=BUF(L); sarima_predict(o,x,L,xp,am); OV(xp,L); OV(am,L);} sarima_free(o); }
/* p d q P D Q s r imean N method optmethod L nexec start | x xreg(N*r) newxreg(L*r) [phi theta PHI THETA if start] */
VF(sarimax){ int p=I(),d=I(),q=I(),P=I(),DD=I(),Q=I(),s=I(),r=I(),im=I(),N=I(),m=I(),om=I(),L=I(),ne=I(),start=I();
  double *x=IN(N),*xr=IN((long)N*r),*nx=IN((long)L*r);
  sarimax_object o=sarimax_init(p,d,q,P,DD,Q,s,r,im,N); sarimax_setMethod(o,m); if(om>=0) sarimax_setOptMethod(o,om);
  if(start){ double *a=IN(p),*b=IN(q),*c1=IN(P),*c2=IN(Q); sarimax_setParams(o,a,b,c1,c2); }
  for(int k=0;k<ne;k++) sarimax_exec(o,x,r?xr:NULL);
  HEAD(o,o->s,o->P,o->D,o->Q); OV(o->phi,p); OV(o->theta,q); OV(o->PHI,P); OV(o->THETA,Q); OV(o->exog,r);
  double *v=BUF(o->lvcov); sarimax_vcov(o,v); OV(v,o->lvcov); OV(o->res,o->Nused);
  if(L>0){ double *xp=BUF(L),*am=BUF(L); sarimax_predict(o,x,r?xr:NULL,L,r?nx:NULL,xp,am); OV(xp,L); OV(am,L);} sarimax_free(o); }
