#include "vf.h"
#include "boxcox.h"
#include "errors.h"
VF(boxcox){ int n=I(),hl=I(); double l=D(),*x=IN(n),*y=BUF(n); O(boxcox(x,n,hl?&l:NULL,y)); OV(y,n); }
VF(boxcox_eval){ int n=I(),inv=I(); double l=D(),*x=IN(n),*y=BUF(n); if(inv) inv_boxcox_eval(x,n,l,y); else boxcox_eval(x,n,l,y); OV(y,n); }
VF(boxcox_loglik){ int n=I(); double l=D(),*x=IN(n),*p=BUF(n+1); p[0]=n; for(int i=0;i<n;i++) p[i+1]=x[i]; O(boxcox_loglik(l,p)); }
VF(errors){ int n=I(),m=I(); double *p=IN(n),*a=IN(n),*t=IN(m); O(me(p,a,n)); O(mse(p,a,n)); O(rmse(p,a,n)); O(mae(p,a,n)); O(mape(p,a,n)); O(mpe(p,a,n)); O(mase(p,a,n,t,m)); }
