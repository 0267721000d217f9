#include "vf.h"
#include "dist.h"
#include "pdist.h"
#include "erfunc.h"
VF(dist){ int w=I(),n=I(); double *v=IN(3L*n),*r=BUF(n); int i;
 for(i=0;i<n;i++){ double x=v[3*i],a=v[3*i+1],b=v[3*i+2]; int p=(int)a,q=(int)b; double y=0;
  switch(w){
   case 0:y=erf(x);break; case 1:y=erfc(x);break; case 2:y=erfcx(x);break; case 3:y=erfinv(x);break; case 4:y=erfcinv(x);break;
   case 5:y=log1p(x);break; case 6:y=gamma(x);break; case 7:y=gamma_log(x);break; case 8:y=beta(x,a);break; case 9:y=beta_log(x,a);break;
   case 10:y=pgamma(x,a);break; case 11:y=qgamma(x,a);break; case 12:y=ibeta(x,a,b);break; case 13:y=ibetac(x,a,b);break; case 14:y=ibetad(x,a,b);break;
   case 15:y=betapdf(x,a,b);break; case 16:y=betacdf(x,a,b);break; case 17:y=betainv(x,a,b);break;
   case 18:y=normalpdf(x,a,b);break; case 19:y=normalcdf(x,a,b);break; case 20:y=normalinv(x,a,b);break;
   case 21:y=tpdf(x,p);break; case 22:y=tcdf(x,p);break; case 23:y=tinv(x,p);break; case 24:y=tinv_appx(x,p);break;
   case 25:y=fpdf(x,p,q);break; case 26:y=fcdf(x,p,q);break; case 27:y=finv(x,p,q);break;
   case 28:y=gammapdf(x,a,b);break; case 29:y=gammacdf(x,a,b);break; case 30:y=gammainv(x,a,b);break;
   case 31:y=chipdf(x,p);break; case 32:y=chicdf(x,p);break; case 33:y=chiinv(x,p);break;
   case 34:y=factorial((int)x);break; case 35:y=fix(x);break; }
  r[i]=y; }
 OV(r,n); }
