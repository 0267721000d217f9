#include "vf.h"
#include "wavelib.h"
#include "regression.h"
#include "optimc.h"
/* printed text between two points of a call: length, characters */
static size_t mark(void){ return strlen(vf_stdout()); }
static void put(vf_ctx *c,size_t from){ char *t=vf_stdout(); size_t n=strlen(t)-from; O(n); for(size_t i=0;i<n;i++) O((unsigned char)t[from+i]); }
static void chars(vf_ctx *c,const char *s){ O(strlen(s)); for(;*s;s++) O((unsigned char)*s); }
/* nm n ; per model p ic ; alpha X(kmax x n) y : fields, then the printed text of each function, then anova_list of the models */
VF(sum_reg){ int nm=I(),n=I(),kx=I(); int p[4],ic[4]; for(int i=0;i<nm;i++){ p[i]=I(); ic[i]=I(); } double al=D(),*x=IN(kx*n),*y=IN(n); reg_object l[4];
 for(int i=0;i<nm;i++){ double *res=BUF(n),*V=BUF(p[i]*p[i]); reg_object o=l[i]=reg_init(n,p[i]); setIntercept(o,ic[i]); regress(o,p[i]>ic[i]?x:NULL,y,res,V,al);
  for(int j=0;j<p[i];j++){ bparam b=o->beta[j]; O(b.value); O(b.stdErr); O(b.lower); O(b.upper); } O(o->sigma); O(o->sigma_lower); O(o->sigma_upper); O(o->R2[0]); O(o->R2[1]); O(o->TSS); O(o->ESS); O(o->RSS); O(o->df_ESS); O(o->df_RSS); O(o->FStat); O(o->PVal);
  size_t m=mark(); summary(o); put(c,m); m=mark(); anova(o); put(c,m); m=mark(); confint(o); put(c,m); double *t=BUF(p[i]),*q=BUF(p[i]); m=mark(); zerohyp_val(o,t,q); put(c,m); OV(t,p[i]); OV(q,p[i]); }
 size_t m=mark(); anova_list(l,nm); put(c,m); for(int i=0;i<nm;i++) free_reg(l[i]); }
/* name, kind 0 dwt 1 swt 2 modwt 3 wtree 4 dwpt, ext, conv, J, N, entropy, run */
VF(sum_wave){ char s[64]; int k=I(); for(int i=0;i<k;i++) s[i]=(char)I(); s[k]=0; int m=I(),ext=I(),cv=I(),J=I(),N=I(),e=I(); const char *mn[]={"dwt","swt","modwt"},*en[]={"shannon","threshold","norm","logenergy"}; double *x=IN(N); wave_object w=wave_init(s); size_t at;
 OV(w->lpd,w->filtlength); OV(w->hpd,w->filtlength); OV(w->lpr,w->filtlength); OV(w->hpr,w->filtlength); at=mark(); wave_summary(w); put(c,at);
 if(m<3){ wt_object t=wt_init(w,mn[m],N,J); if(m!=1) setDWTExtension(t,ext?"sym":"per"); setWTConv(t,cv?"fft":"direct"); if(m==0) dwt(t,x); else if(m==1) swt(t,x); else modwt(t,x); O(t->outlength); OV(t->output,t->outlength); at=mark(); wt_summary(t); put(c,at); wt_free(t); }
 else if(m==3){ wtree_object t=wtree_init(w,N,J); setWTREEExtension(t,ext?"sym":"per"); wtree(t,x); O(t->outlength); OV(t->output,t->outlength); at=mark(); wtree_summary(t); put(c,at); for(int l=1;l<=J;l++){ int n=getWTREENodelength(t,l); O(n); for(int y=0;y<1<<l;y++){ double *b=BUF(n); getWTREECoeffs(t,l,y,b,n); OV(b,n); } } wtree_free(t); }
 else { wpt_object t=wpt_init(w,N,J); setDWPTExtension(t,ext?"sym":"per"); setDWPTEntropy(t,en[e],1.0); dwpt(t,x); O(t->outlength); OV(t->output,t->outlength); at=mark(); wpt_summary(t); put(c,at); O(t->nodes); for(int i=0;i<t->nodes;i++){ int l=t->nodeindex[2*i],y=t->nodeindex[2*i+1]; O(l); O(y); int n=l?getDWPTNodelength(t,l):N; O(n); double *b=BUF(n); if(l) getDWPTCoeffs(t,l,y,b,n); else memcpy(b,t->output,8*n); OV(b,n); } wpt_free(t); }
 wave_free(w); }
/* optimiser: N method maxiter ; x0 centre ; nls: M N maxfev */
typedef struct { int N; double *c; } qp;
static double qf(double *x,int N,void *v){ qp *p=v; double s=0,t=0; for(int i=0;i<N;i++){ s+=(i+1)*(x[i]-p->c[i])*(x[i]-p->c[i]); t+=x[i]-p->c[i]; } return s+t*t+1; }
static void ql(double *x,int M,int N,double *f,void *v){ qp *p=v; for(int i=0;i<M;i++) f[i]= i<N? x[i]-p->c[i] : exp(.3*x[i%N])-1.2; }
VF(sum_opt){ int N=I(),m=I(),mi=I(),M=I(),mf=I(); double *x0=IN(N),*ce=IN(N); qp P={N,ce}; custom_function F={qf,&P}; custom_funcmult G={ql,&P}; size_t at;
 opt_object o=opt_init(N); if(mi>0) setMaxIter(o,mi); optimize(o,&F,NULL,N,x0,m); O(o->retval); O(o->Method); O(o->Iter); O(o->objfunc); OV(o->xopt,N); chars(c,o->MethodName); at=mark(); optsummary(o); put(c,at); free_opt(o);
 nls_object l=nls_init(M,N); if(mf>0) l->Maxfev=mf; nls(l,&G,NULL,x0); O(l->retval); O(l->Iter); OV(l->xopt,N); at=mark(); nlssummary(l); put(c,at); free_nls(l); }
VF(sum_mat){ int r=I(),k=I(); double *A=IN(r*k); size_t at=mark(); mdisplay(A,r,k); put(c,at); }
