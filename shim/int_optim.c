#include "vf.h"
#include <math.h>
#include "optimc.h"
#include "brent.h"
/* objective families in N variables, data d:
   0 quadratic 1/2 (x-c)'A(x-c)+k   d = c[N],A[N*N],k
   1 chained Rosenbrock             d = a
   2 sum of log cosh(B(x-c)) + k    d = c[N],B[N*N],k
   3 sum a_i (x-c)_i^4 + quadratic  d = c[N],A[N*N],k,a[N]
   4 sum exp(u)-u, u=B(x-c)         d = c[N],B[N*N],k */
typedef struct { int kind; double *d; long nf, ng; double best; double *xb; int N; } prob;
static double flogcosh(double u){ u=fabs(u); return u+log1p(exp(-2*u))-log(2.0); }
static double pf0(double *x,int N,void *pp){ prob *p=pp; double *d=p->d,s=0,t,k=0; int i,j; p->nf++;
 if(p->kind==1){ for(i=0;i+1<N;i++){ t=x[i+1]-x[i]*x[i]; s+=d[0]*t*t+(1-x[i])*(1-x[i]); } if(N==1) s=(1-x[0])*(1-x[0]); return s; }
 double *c=d,*A=d+N; k=d[N+N*N];
 for(i=0;i<N;i++){ t=0; for(j=0;j<N;j++) t+=A[i*N+j]*(x[j]-c[j]);
  if(p->kind==0||p->kind==3) s+=.5*t*(x[i]-c[i]); else if(p->kind==2) s+=flogcosh(t); else s+=exp(t)-t; }
 if(p->kind==3) for(i=0;i<N;i++){ t=x[i]-c[i]; s+=d[N+N*N+1+i]*t*t*t*t; }
 return s+k; }
static double pf(double *x,int N,void *pp){ prob *p=pp; double f=pf0(x,N,pp); if(p->nf==1||f<p->best) p->best=f; return f; }
static void pg(double *x,int N,double *g,void *pp){ prob *p=pp; double *d=p->d,t; int i,j; p->ng++;
 for(i=0;i<N;i++) g[i]=0;
 if(p->kind==1){ if(N==1){ g[0]=-2*(1-x[0]); return; } for(i=0;i+1<N;i++){ t=x[i+1]-x[i]*x[i]; g[i]+=-4*d[0]*t*x[i]-2*(1-x[i]); g[i+1]+=2*d[0]*t; } return; }
 double *c=d,*A=d+N;
 for(i=0;i<N;i++){ t=0; for(j=0;j<N;j++) t+=A[i*N+j]*(x[j]-c[j]);
  if(p->kind==0||p->kind==3) g[i]+=t; else { t=p->kind==2?tanh(t):exp(t)-1; for(j=0;j<N;j++) g[j]+=t*A[i*N+j]; } }
 if(p->kind==3) for(i=0;i<N;i++){ t=x[i]-c[i]; g[i]+=4*d[N+N*N+1+i]*t*t*t; } }
/* call 0 optimize, 1 fminunc, 2 fminsearch, 3 fminnewt; I: kind N method usegrad call maxiter ; D maxstep ; IN d x0 */
VF(optim){ int kind=I(),N=I(),m=I(),ug=I(),w=I(),mi=I(),nd=I(); double ms=D(); double *d=IN(nd),*x0=IN(N),*xf=BUF(N); prob P={kind,d,0,0,0,0,N};
 custom_function F={pf,&P}; custom_gradient G={pg,&P}; int r=0,it=0; double obj=0,best=0;
 if(w==0){ opt_object o=opt_init(N); if(mi>0) setMaxIter(o,mi); if(ms>0) setMaxStep(o,ms); optimize(o,&F,ug?&G:NULL,N,x0,m); r=o->retval; it=o->Iter; obj=o->objfunc; for(int i=0;i<N;i++) xf[i]=o->xopt[i]; free_opt(o); }
 else { if(w==1) r=fminunc(&F,ug?&G:NULL,N,x0,ms>0?ms:-1.0,m,xf); else if(w==2) r=fminsearch(&F,N,x0,xf); else { double *dx=BUF(N); for(int i=0;i<N;i++) dx[i]=1.0; r=fminnewt(&F,ug?&G:NULL,N,x0,-1.0,dx,1.0,ms>0?ms:-1.0,m,xf); } obj=pf(xf,N,&P); }
 best=P.best; O(r); O(it); O(obj); O(best); O(P.nf); O(P.ng); O(pf(xf,N,&P)); O(pf(x0,N,&P)); OV(xf,N); double *g=BUF(N); pg(xf,N,g,&P); OV(g,N); }
/* one variable: kind 0 sum of shifted squares/abs powers: a (x-c)^2 + b |x-c|^p ; 1 cosh(a(x-c)) ; zero: cubic/exp */
typedef struct { int kind; double a,b,c,p; long n; } uni;
static double uf(double x,void *v){ uni *u=v; double t=x-u->c; u->n++; switch(u->kind){ case 0: return u->a*t*t+u->b*pow(fabs(t),u->p); case 1: return cosh(u->a*t)+u->b; case 2: return exp(u->a*t)-u->a*t;
  case 3: return u->a*t+u->b*t*t*t; case 4: return exp(u->a*t)-1; case 5: return atan(u->a*t)+u->b*t; case 6: return t<0?-pow(-t,u->p):u->a*pow(t,u->p); default: return t>0?u->a:-u->b; } }
VF(brentmin){ int k=I(); double a=D(),b=D(),cc=D(),p=D(),lo=D(),hi=D(),t=D(),e=D(); uni u={k,a,b,cc,p,0}; custom_funcuni F={uf,&u}; double x; double f; if(t>0) f=brent_local_min(&F,lo,hi,t,e,&x); else { x=fminbnd(&F,lo,hi); f=uf(x,&u); } O(x); O(f); O(u.n); O(uf(x,&u)); O(uf(cc,&u)); }
VF(brentzero){ int k=I(); double a=D(),b=D(),cc=D(),p=D(),lo=D(),hi=D(),t=D(),e=D(); uni u={k,a,b,cc,p,0}; custom_funcuni F={uf,&u}; O(brent_zero(&F,lo,hi,t,e)); O(u.n); }
/* least squares families: 0 linear r=Ax-b  1 y-a exp(bx)(+c) 2 Rosenbrock residuals chained 3 y - a/(1+exp(b-cx)) ; I kind M N ujac call maxfev */
typedef struct { int kind; double *d; int M,N; long n; } ls;
static void lf(double *x,int M,int N,double *f,void *v){ ls *p=v; double *d=p->d; int i,j; p->n++;
 if(p->kind==0) for(i=0;i<M;i++){ double s=-d[M*N+i]; for(j=0;j<N;j++) s+=d[i*N+j]*x[j]; f[i]=s; }
 else if(p->kind==1) for(i=0;i<M;i++) f[i]=x[0]*exp(x[1]*d[i])+(N>2?x[2]:0)-d[M+i];
 else if(p->kind==2) for(i=0;i<M;i++) f[i]= i<N-1? 10*(x[i+1]-x[i]*x[i]) : i<2*(N-1)? 1-x[i-N+1] : 0;
 else for(i=0;i<M;i++) f[i]=x[0]/(1+exp(x[1]-x[2]*d[i]))-d[M+i]; }
static void lj(double *x,int M,int N,double *J,void *v){ ls *p=v; double *d=p->d; int i,j; memset(J,0,sizeof(double)*M*N);
 if(p->kind==0) for(i=0;i<M*N;i++) J[i]=d[i];
 else if(p->kind==1) for(i=0;i<M;i++){ double e=exp(x[1]*d[i]); J[i*N]=e; J[i*N+1]=x[0]*d[i]*e; if(N>2) J[i*N+2]=1; }
 else if(p->kind==2) for(i=0;i<M;i++){ if(i<N-1){ J[i*N+i]=-20*x[i]; J[i*N+i+1]=10; } else if(i<2*(N-1)) J[i*N+i-N+1]=-1; }
 else for(i=0;i<M;i++){ double e=exp(x[1]-x[2]*d[i]),q=1+e; J[i*N]=1/q; J[i*N+1]=-x[0]*e/q/q; J[i*N+2]=x[0]*e*d[i]/q/q; } }
VF(lsq){ int kind=I(),M=I(),N=I(),uj=I(),w=I(),mf=I(),nd=I(); double *d=IN(nd),*x0=IN(N),*xf=BUF(N); ls P={kind,d,M,N,0}; custom_funcmult F={lf,&P}; custom_jacobian J={lj,&P}; int r,nf=0;
 if(w==0) r=levmar(&F,uj?&J:NULL,x0,M,N,xf);
 else { nls_object o=nls_init(M,N); if(mf>0) o->Maxfev=mf; if(w==1) nls(o,&F,uj?&J:NULL,x0); else { double *dg=BUF(N); for(int i=0;i<N;i++) dg[i]=1+.5*i; nls_scale(o,&F,uj?&J:NULL,dg,x0); } r=o->retval; nf=o->nfev; for(int i=0;i<N;i++) xf[i]=o->xopt[i]; free_nls(o); }
 double *f=BUF(M),*g=BUF(M),*jac=BUF((long)M*N); long made=P.n; lf(xf,M,N,f,&P); lf(x0,M,N,g,&P); lj(xf,M,N,jac,&P); O(r); O(nf); O(made); OV(xf,N); OV(f,M); OV(g,M); OV(jac,(long)M*N); }
