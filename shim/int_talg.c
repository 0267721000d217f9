#include "vf.h"
#include "talg.h"
#include "polyroot.h"
VF(poly){ int a=I(),b=I(); double *A=IN(a),*B=IN(b),*C=BUF(a+b-1); int r=poly(A,B,C,a,b); O(r); OV(C,a+b-1); }
VF(updown){ int n=I(),M=I(),up=I(),no=I(); double *x=IN(n),*y=BUF(no); int r=up?upsample(x,n,M,y):downsample(x,n,M,y); O(r); OV(y,no); }
VF(delpoly){ int d=I(),s=I(); double *C=BUF(d*(s?s:1)+1); if(s) delds(d,s,C); else deld(d,C); OV(C,d*(s?s:1)+1); }
VF(diff){ int n=I(),d=I(),s=I(); double *x=IN(n),*y=BUF(n-d*(s?s:1)); int r=s?diffs(x,n,d,s,y):diff(x,n,d,y); O(r); OV(y,n-d*(s?s:1)); }
VF(deseason_ma){ int n=I(),s=I(); double *x=IN(n),*y=BUF(n); deseason_ma(x,n,s,y); OV(y,n); }
VF(psipi){ int p=I(),q=I(),j=I(); double *a=IN(p),*b=IN(q),*u=BUF(j),*v=BUF(j); psiweight(a,b,u,p,q,j); piweight(a,b,v,p,q,j); OV(u,j); OV(v,j); }
VF(arma_autocovar){ int p=I(),q=I(),lag=I(); double v=D(),*a=IN(p),*b=IN(q),*o=BUF(lag); arma_autocovar(a,b,p,q,v,o,lag); OV(o,lag); }
VF(twacf){ int p=I(),q=I(),ma=I(); int m=p>q?p:q; double *a=IN(p),*b=IN(q),*acf=BUF(ma),*cv=BUF(m+1),*al=BUF(m); int r=twacf(a,p,b,q,acf,ma,cv,m+1,al,m); O(r); OV(acf,ma); OV(cv,m+1); }
VF(artrans){ int p=I(),inv=I(); double *a=IN(p),*b=BUF(p); if(inv) arinvtrans(p,a,b); else artrans(p,a,b); OV(b,p); }
VF(transall){ int p=I(),q=I(),P=I(),Q=I(),inv=I(); int n=p+q+P+Q; double *a=IN(n),*b=BUF(n); if(inv) invtransall(p,q,P,Q,a,b); else transall(p,q,P,Q,a,b); OV(b,n); }
VF(archeck){ int p=I(); double *a=IN(p); O(archeck(p,a)); }
VF(invertroot){ int q=I(); double *a=MUT(q); int r=invertroot(q,a); O(r); OV(a,q); }
VF(polyroot){ int d=I(); double *a=IN(d+1),*r=BUF(d),*i=BUF(d); int f=polyroot(a,d,r,i); O(f); OV(r,d); OV(i,d); }
VF(cpolyroot){ int d=I(); double *a=IN(d+1),*b=IN(d+1),*r=BUF(d),*i=BUF(d); int f=cpolyroot(a,b,d,r,i); O(f); OV(r,d); OV(i,d); }
VF(interp){ int n=I(),m=I(); double *x=IN(n),*y=IN(n),*z=IN(m); for(int k=0;k<m;k++) O(interpolate_linear(x,y,n,z[k])); }
VF(approx){ int n=I(),m=I(); double *x=IN(n),*y=IN(n),*z=IN(m),*o=BUF(m); approx(x,y,n,z,o,m); OV(o,m); }
VF(linspace){ int n=I(); double a=D(),b=D(),*x=BUF(n); linspace(x,n,a,b); OV(x,n); }
VF(minmaxcum){ int n=I(); double *x=IN(n),*cs=BUF(n),a=NAN,b=NAN; arrayminmax(x,n,&a,&b); cumsum(x,n,cs); O(a); O(b); OV(cs,n); }
VF(ppsum){ int n=I(),l=I(); double s=D(),*x=IN(n); ppsum(x,n,l,&s); O(s); }
VF(supsmu){ int n=I(),per=I(),hasw=I(); double span=D(),al=D(),*x=IN(n),*y=IN(n),*w=hasw?IN(n):NULL,*o=BUF(n); supsmu(x,n,y,w,per,span,al,o); OV(o,n); }
