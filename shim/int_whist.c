#include "vf.h"
#include <math.h>
#include "wavelib.h"
#include "conv.h"
#include "stats.h"
#include "optimc.h"
#include "regression.h"
#include "spectrum.h"
/* A history of operations on up to 6 live work objects.
   ints: nd | ops ... -1     doubles: nd arrays of 512
   0 slot kind a b e g   create      1 slot which val   setting      2 slot data   run (output -5 len ...)     3 slot free
   kinds 0 wt(name, method, N, J) 1 wtree(name,N,J) 2 wpt(name,N,J) 3 fft(N,sgn) 4 real fft(N,sgn) 5 conv(N,L) 6 auto_fft(N) 7 opt(N,method) 8 reg(N,p) 9 spectrum(N,Nfft) 10 nls(M,N) */
typedef struct { int k,a,b,e,g; void *o; wave_object w; } slot;
static const char *NM[]={"haar","db2","db3","db4","coif1","sym4","bior2.2","bior3.1","db6"};
static void drop(slot *s){ if(!s->o) return; switch(s->k){ case 0: wt_free(s->o); break; case 1: wtree_free(s->o); break; case 2: wpt_free(s->o); break; case 3: free_fft(s->o); break; case 4: free_real_fft(s->o); break;
  case 5: free_conv(s->o); break; case 6: free_auto(s->o); break; case 7: free_opt(s->o); break; case 8: free_reg(s->o); break; case 10: free_nls(s->o); break; default: free_spectrum(s->o); } s->o=NULL; if(s->w) wave_free(s->w); s->w=NULL; }
static double fo(double *x,int N,void *p){ double *d=p,s=0; for(int i=0;i<N;i++){ double t=x[i]-d[i]; s+=(1+i)*t*t+.1*t*t*t*t; if(i) s+=.3*t*(x[i-1]-d[i-1]); } return s; }
static void nf(double *x,int M,int N,double *f,void *p){ double *d=p; for(int i=0;i<M;i++){ double t=(i+.5)/M,v=x[0]; if(N>1) v+=x[1]*t; if(N>2) v+=x[2]*sin(3*t+.2*x[0]); if(N>3) v+=exp(-.3*x[3]*x[3]*t); f[i]=v-d[i]; } }
static void nj(double *x,int M,int N,double *J,void *p){ for(int i=0;i<M;i++){ double t=(i+.5)/M,*g=J+i*N; g[0]=1; if(N>1) g[1]=t; if(N>2){ g[0]+=.2*x[2]*cos(3*t+.2*x[0]); g[2]=sin(3*t+.2*x[0]); } if(N>3) g[3]=-.6*x[3]*t*exp(-.3*x[3]*x[3]*t); } }
VF(whist){
  int nd=I(); double *y[6]; for(int i=0;i<nd;i++) y[i]=IN(512); slot sl[6]; memset(sl,0,sizeof sl);
  for(int op;(op=I())>=0;){
    slot *s=&sl[I()];
    if(op==0){ drop(s); s->k=I(); s->a=I(); s->b=I(); s->e=I(); s->g=I(); s->w=NULL; int a=s->a,b=s->b,e=s->e,g=s->g;
      switch(s->k){ case 0: s->w=wave_init(NM[a]); s->o=wt_init(s->w,b==0?"dwt":b==1?"swt":"modwt",e,g); break; case 1: s->w=wave_init(NM[a]); s->o=wtree_init(s->w,e,g); break; case 2: s->w=wave_init(NM[a]); s->o=wpt_init(s->w,e,g); break;
        case 3: s->o=fft_init(a,b); break; case 4: s->o=fft_real_init(a,b); break; case 5: s->o=conv_init(a,b); break; case 6: s->o=auto_fft_init(a); break; case 7: s->o=opt_init(a); break; case 8: s->o=reg_init(a,b); break; case 10: s->o=nls_init(a,b); s->e=0; break; default: s->o=spectrum_fft_init(a,b); }
      continue; }
    if(op==3){ drop(s); continue; }
    if(op==1){ int w=I(),v=I(); if(!s->o) continue;
      if(s->k==0){ if(w==0) setDWTExtension(s->o,v?"sym":"per"); else setWTConv(s->o,v?"fft":"direct"); }
      else if(s->k==1) setWTREEExtension(s->o,v?"sym":"per");
      else if(s->k==2){ if(w==0) setDWPTExtension(s->o,v?"sym":"per"); else setDWPTEntropy(s->o,v==0?"shannon":v==1?"threshold":v==2?"norm":"logenergy",1.5); }
      else if(s->k==7){ if(w==0) setMaxIter(s->o,v); else if(w==1) setMaxStep(s->o,v); else setTOL(s->o,pow(10.,-v),pow(10.,-v),pow(10.,-2.*v),pow(10.,-v)); }
      else if(s->k==8){ if(w==0) setIntercept(s->o,v); else setLLSMethod(s->o,v?(v==1?"normal":"svd"):"qr"); }
      else if(s->k==10){ if(w==0) setnlsTOL(s->o,pow(10.,-v),pow(10.,-v-1),pow(10.,-v-2)); else s->e=v; }
      continue; }
    double *x=y[I()]; if(!s->o) continue; O(-5); int at=c->nout; O(0); int a=s->a,b=s->b,e=s->e;
    if(s->k==0){ wt_object t=s->o; if(b==0) dwt(t,x); else if(b==1) swt(t,x); else modwt(t,x); O(t->outlength); OV(t->output,t->outlength); O(t->lenlength); for(int i=0;i<t->lenlength;i++) O(t->length[i]); double *r=malloc(sizeof(double)*e); if(b==0) idwt(t,r); else if(b==1) iswt(t,r); else imodwt(t,r); OV(r,e); free(r); }
    else if(s->k==1){ wtree_object t=s->o; wtree(t,x); O(t->outlength); OV(t->output,t->outlength); }
    else if(s->k==2){ wpt_object t=s->o; dwpt(t,x); O(t->outlength); OV(t->output,t->outlength); O(t->nodes); double *r=malloc(sizeof(double)*e); idwpt(t,r); OV(r,e); free(r); }
    else if(s->k==3){ fft_data *in=malloc(sizeof(fft_data)*a),*out=malloc(sizeof(fft_data)*a); for(int i=0;i<a;i++){ in[i].re=x[i]; in[i].im=x[511-i]; } fft_exec(s->o,in,out); for(int i=0;i<a;i++){ O(out[i].re); O(out[i].im); } free(in); free(out); }
    else if(s->k==4){ fft_data *z=malloc(sizeof(fft_data)*a); if(b==1){ fft_r2c_exec(s->o,x,z); for(int i=0;i<a;i++){ O(z[i].re); O(z[i].im); } } else { double *r=malloc(sizeof(double)*a); for(int i=0;i<a;i++){ z[i].re=x[i<=a/2?i:a-i]; z[i].im=(i==0||2*i==a)?0:i<=a/2?x[511-i]:-x[511-(a-i)]; } fft_c2r_exec(s->o,z,r); OV(r,a); free(r); } free(z); }
    else if(s->k==5){ double *r=malloc(sizeof(double)*(a+b-1)); conv_fft(s->o,x,x+200,r); OV(r,a+b-1); free(r); }
    else if(s->k==6){ int m=a<8?a:8; double *r=malloc(sizeof(double)*a); autocovar_fft(s->o,x,r,m); OV(r,m); autocorr_fft(s->o,x,r,m); OV(r,m); free(r); }
    else if(s->k==7){ opt_object o=s->o; custom_function F={fo,x}; double xi[8]; for(int i=0;i<a;i++) xi[i]=x[100+i]*3; optimize(o,&F,NULL,a,xi,b); O(o->retval); O(o->Iter); O(o->objfunc); OV(o->xopt,a); O(o->Method); }
    else if(s->k==8){ reg_object o=s->o; double *res=malloc(sizeof(double)*a),*V=malloc(sizeof(double)*b*b),*z=malloc(sizeof(double)*a*b); int k=b-o->intercept; for(int i=0;i<a*k;i++) z[i]=x[150+i%300]+.2*(i%7); regress(o,k>0?z:NULL,x,res,V,.05);
      for(int i=0;i<b;i++){ O(o->beta[i].value); O(o->beta[i].lower); O(o->beta[i].upper); O(o->beta[i].stdErr); } O(o->sigma); O(o->r2); O(o->r2adj); O(o->TSS); O(o->ESS); O(o->RSS); O(o->df_ESS); O(o->df_RSS); O(o->df); O(o->FStat); O(o->PVal); O(o->loglik); O(o->aic); O(o->bic); O(o->aicc); OV(res,a); OV(V,b*b); free(res); free(V); free(z); }
    else if(s->k==10){ nls_object o=s->o; custom_funcmult F={nf,x}; custom_jacobian C={nj,x}; double xi[4],dg[4]; for(int i=0;i<b;i++){ xi[i]=x[100+i]*2; dg[i]=.5+i; }
      if(e&1) nls_scale(o,&F,e&2?&C:NULL,dg,xi); else nls(o,&F,e&2?&C:NULL,xi); O(o->retval); O(o->nfev); O(o->njev); O(o->Iter); OV(o->xopt,b); }
    else { double *p=malloc(sizeof(double)*b),*f=malloc(sizeof(double)*b); for(int k=0;k<2;k++){ int n=(k?b:a)/2+1; if(k) psd(s->o,x,p,f,1); else periodogram(s->o,x,p,f,1); OV(p,n); OV(f,n); } free(p); free(f); }
    c->out[at]=c->nout-at-1;
  }
  for(int i=0;i<6;i++) drop(&sl[i]);
}
