#include "vf.h"
#include "regression.h"
static void outreg(vf_ctx *c, reg_object o, int p, double *V, double *res, int n){
  for(int i=0;i<p;i++){ bparam b=o->beta[i]; O(b.value); O(b.lower); O(b.upper); O(b.stdErr); }
  O(o->sigma); O(o->sigma_lower); O(o->sigma_upper); O(o->r2); O(o->r2adj); O(o->TSS); O(o->ESS); O(o->RSS); O(o->df_ESS); O(o->df_RSS); O(o->df); O(o->FStat); O(o->PVal); O(o->loglik); O(o->aic); O(o->bic); O(o->aicc); O(o->R2[0]); O(o->R2[1]);
  OV(V,p*p); OV(res,n); }
/* n p intercept lls poly times | alpha x y newx */
VF(regress){ int n=I(),p=I(),ic=I(),m=I(),poly=I(),times=I(); double al=D(); int k=poly?1:ic?p-1:p; double *x=IN(k*n>0?k*n:0),*y=IN(n),*z=IN(p>0?p-ic:0),*res=BUF(n),*V=BUF(p*p),vv[2]={NAN,NAN};
  reg_object o=reg_init(n,p); if(p>0) setIntercept(o,ic); if(m) setLLSMethod(o,m==1?"normal":"svd");
  for(int t=0;t<times;t++){ if(poly) regress_poly(o,x,y,res,V,al); else regress(o,p-ic>0?x:NULL,y,res,V,al); }
  outreg(c,o,p,V,res,n); O(m==0?o->rank:-1); if(p>0&&!poly){ O(fitted(o,z,V,vv)); O(vv[0]); O(vv[1]); } 
  if(p>0&&n>p){ double *t=calloc(p,8),*pv=calloc(p,8); zerohyp_val(o,t,pv); OV(t,p); OV(pv,p); zerohyp_multi(n,&o->beta[0].value,0,V,t,pv); free(t); free(pv);} free_reg(o); }
VF(linreg_clrm){ int n=I(); double al=D(),*x=IN(n),*y=IN(n),b[2],v[5],*res=BUF(n),an[7],lo[3],hi[3]; linreg_clrm(x,y,n,b,v,res,al,an,lo,hi); OV(b,2); OV(v,5); OV(an,7); OV(lo,3); OV(hi,3); OV(res,n); }
