#include "vf.h"
#include REPO_PUBLIC
/* exported by the library, not declared in the public header */
extern void auto_arima_allowMean(auto_arima_object,int);
extern void auto_arima_allowDrift(auto_arima_object,int);
/* pm dm qm Pm Dm Qm s r N | ordmax stepwise nmodels approx stationary seasonal drift mean ic test type seas st0 st1 st2 st3 method (-1: default)
   | L nexec fill | alpha_test alpha_seas x xreg(N*r) newx(L*r).  fill: execute on another series first. */
static const char *ICS[] = {"aic","bic","aicc"}, *TESTS[] = {"kpss","df","pp"}, *TYPES[] = {"level","trend"}, *SEAS[] = {"seas","ocsb"};
VF(auto_arima){
  int a[3],b[3]; for(int i=0;i<3;i++) a[i]=I(); for(int i=0;i<3;i++) b[i]=I();
  int s=I(),r=I(),N=I(); int g[17]; for(int i=0;i<17;i++) g[i]=I();
  int L=I(),ne=I(),fill=I(); double at=D(),as=D(); double *x=IN(N),*xr=IN((long)N*r),*nx=IN((long)L*r);
  auto_arima_object o=auto_arima_init(a,b,s,r,N);
  if(g[0]>=0) o->Order_max=g[0];
  if(g[1]>=0) auto_arima_setStepwise(o,g[1]);
  if(g[2]>=0) o->num_models=g[2];
  if(g[3]>=0) auto_arima_setApproximation(o,g[3]);
  if(g[4]>=0) auto_arima_setStationary(o,g[4]);
  if(g[5]>=0) auto_arima_setSeasonal(o,g[5]);
  if(g[6]>=0) auto_arima_allowDrift(o,g[6]);
  if(g[7]>=0) auto_arima_allowMean(o,g[7]);
  if(g[8]>=0) strcpy(o->information_criteria,ICS[g[8]]);
  if(g[9]>=0) auto_arima_setStationarityParameters(o,TESTS[g[9]],at,TYPES[g[10]>=0?g[10]:0]);
  if(g[11]>=0) auto_arima_setSeasonalParameters(o,SEAS[g[11]],as);
  if(g[12]>=0) o->p_start=g[12]; if(g[13]>=0) o->q_start=g[13]; if(g[14]>=0) o->P_start=g[14]; if(g[15]>=0) o->Q_start=g[15];
  if(g[16]>=0) auto_arima_setMethod(o,g[16]);
  if(fill){ double *z=malloc(sizeof(double)*N); unsigned h=12345; double w=0; for(int i=0;i<N;i++){ h=h*1103515245u+12345u; w+=((h>>8)&65535)/65536.0-0.5; z[i]=fill==1?w:fill==2?((h>>8)&65535)/65536.0:0.3*i+w; } auto_arima_exec(o,z,r?xr:NULL); free(z); }
  for(int k=0;k<ne;k++) auto_arima_exec(o,x,r?xr:NULL);
  O(o->retval);O(o->p);O(o->d);O(o->q);O(o->s);O(o->P);O(o->D);O(o->Q);O(o->M);O(o->ncoeff);O(o->lvcov);O(o->Nused);
  O(o->mean);O(o->var);O(o->loglik);O(o->aic);O(o->bic);O(o->aicc);O(o->sigma2);O(o->idrift);
  int nx2=o->r+(o->idrift==1);
  OV(o->phi,o->p);OV(o->theta,o->q);OV(o->PHI,o->P);OV(o->THETA,o->Q);OV(o->exog,nx2);OV(o->vcov,o->lvcov);OV(o->res,o->Nused);
  if(L>0){ double *xp=BUF(L),*am=BUF(L); auto_arima_predict(o,x,r?xr:NULL,L,r?nx:NULL,xp,am); OV(xp,L);OV(am,L);} auto_arima_free(o); }
