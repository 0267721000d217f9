#include "vf.h"
#include "autoutils.h"
/* kind params | y */
VF(ur_kpss){ int n=I(),trend=I(),ls=I(),kl=I(); double *y=IN(n),s=NAN,p=NAN; int l=kl; ur_kpss(y,n,trend?"trend":"level",ls,kl==-9?NULL:&l,&s,&p); O(s); O(p); O(l); }
VF(ur_df){ int n=I(),ex=I(),kl=I(); double *y=IN(n),s=NAN,p=NAN; int l=kl; ur_df(y,n,ex?"explosive":"stationary",kl==-9?NULL:&l,&s,&p); O(s); O(p); O(l); }
VF(ur_df2){ int n=I(),t=I(),kl=I(),sel=I(); double *y=IN(n),cv[9],cp[3],ts[3]; for(int i=0;i<9;i++) cv[i]=NAN; for(int i=0;i<3;i++) cp[i]=ts[i]=NAN; int l=kl,r=-1,co=-1,lt=-1; ur_df2(y,n,t==0?"none":t==1?"drift":"trend",kl==-9?NULL:&l,sel==0?"fixed":sel==1?"aic":"bic",cv,&r,&co,cp,ts,&lt); O(r); O(co); O(lt); OV(cv,9); OV(cp,3); OV(ts,3); }
VF(ur_pp){ int n=I(),ex=I(),ty=I(),ls=I(),kl=I(); double *y=IN(n),s=NAN,p=NAN; int l=kl; ur_pp(y,n,ex?"explosive":"stationary",ty?"Z(t_alpha)":"Z(alpha)",ls,kl==-9?NULL:&l,&s,&p); O(s); O(p); O(l); }
VF(ur_pp2){ int n=I(),ty=I(),mo=I(),ls=I(),kl=I(); double *y=IN(n),cv[3]={NAN,NAN,NAN},cp[3]={NAN,NAN,NAN},aux[2]={NAN,NAN},s=NAN; int l=kl,la=-1; ur_pp2(y,n,ty?"Z-tau":"Z-alpha",mo?"trend":"constant",ls,kl==-9?NULL:&l,cv,cp,aux,&la,&s); O(s); OV(cv,3); OV(cp,3); O(la); OV(aux,2); }
VF(ndiffs){ int n=I(),t=I(),ty=I(),mx=I(),ha=I(); double a=D(),*x=IN(n); int m=mx; O(ndiffs(x,n,ha?&a:NULL,t==0?"kpss":t==1?"df":t==2?"adf":"pp",ty?"trend":"level",mx<0?NULL:&m)); }
VF(nsdiffs){ int n=I(),f=I(),t=I(),mx=I(),ha=I(); double a=D(),*x=IN(n); int m=mx; O(nsdiffs(x,n,f,ha?&a:NULL,t?"ocsb":"seas",mx<0?NULL:&m)); }
VF(is_constant){ int n=I(); double *x=IN(n); O(is_constant(x,n)); O(checkConstant(x,n)); }
