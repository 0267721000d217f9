#include "vf.h"
#include REPO_PUBLIC
extern void arima_setCSSML(arima_object,int);
extern void sarima_setCSSML(sarima_object,int);
/* A history of operations on up to 6 live objects.
   ints: nd N | ops ... -1      doubles: nd series of N, nd regressors of N, future regressor of 40
   0 slot kind p d q P D Q s r m   create (kind 0 arima 1 sarima 2 sarimax 3 auto 4 ar; m: imean / ar method)
   1 slot v  method    2 slot v  optimiser    3 slot v  conditional start    4 slot data  execute
   5 slot L  predict from the data of the last execution (output)    6 slot  state (output)    7 slot  summary text (output)
   8 slot  free    9 slot v stepwise   10 slot v approximation   11 slot v seasonal   12 slot v stationary   13 slot v method (kind 3) */
typedef struct { int k, r, data, m; void *o; } slot;
#define A ((arima_object)s->o)
#define S ((sarima_object)s->o)
#define X ((sarimax_object)s->o)
#define T ((auto_arima_object)s->o)
#define R ((ar_object)s->o)
#define HD(o) O(o->retval);O(o->p);O(o->d);O(o->q);O(o->M);O(o->ncoeff);O(o->Nused);O(o->mean);O(o->var);O(o->loglik);O(o->aic)
static void drop(slot *s){ if(!s->o) return;
  switch(s->k){ case 0: arima_free(A); break; case 1: sarima_free(S); break; case 2: sarimax_free(X); break; case 3: auto_arima_free(T); break; default: ar_free(R); } s->o=NULL; }
VF(hist){
  int nd=I(),N=I(); double *y[6],*z[6]; for(int i=0;i<nd;i++) y[i]=IN(N); for(int i=0;i<nd;i++) z[i]=IN(N); double *nx=IN(40);
  slot sl[6]; memset(sl,0,sizeof sl); size_t txt=0;
  for(int op;(op=I())>=0;){
    slot *s=&sl[I()];
    if(op==0){ int kk=I(),p=I(),d=I(),q=I(),P=I(),D_=I(),Q=I(),se=I(),r=I(),m=I(); drop(s); s->k=kk; s->r=r; s->data=0; s->m=m;
      if(kk==0) s->o=arima_init(p,d,q,N); else if(kk==1) s->o=sarima_init(p,d,q,se,P,D_,Q,N); else if(kk==2) s->o=sarimax_init(p,d,q,P,D_,Q,se,r,m,N);
      else if(kk==3){ int a[3]={p,d,q},b[3]={P,D_,Q}; s->o=auto_arima_init(a,b,se,r,N); auto_arima_setVerbose(T,0); } else s->o=ar_init(m,N); continue; }
    if(op==8){ drop(s); continue; }
    int v=(op==6||op==7)?0:I(); if(!s->o) continue;
    if(op==1){ if(s->k==0) arima_setMethod(A,v); else if(s->k==1) sarima_setMethod(S,v); else if(s->k==2) sarimax_setMethod(X,v); }
    else if(op==2){ if(s->k==0) arima_setOptMethod(A,v); else if(s->k==1) sarima_setOptMethod(S,v); else if(s->k==2) sarimax_setOptMethod(X,v); else if(s->k==3) auto_arima_setOptMethod(T,v); }
    else if(op==3){ if(s->k==0) arima_setCSSML(A,v); else if(s->k==1) sarima_setCSSML(S,v); }
    else if(op==9&&s->k==3) auto_arima_setStepwise(T,v);
    else if(op==10&&s->k==3) auto_arima_setApproximation(T,v);
    else if(op==11&&s->k==3) auto_arima_setSeasonal(T,v);
    else if(op==12&&s->k==3) auto_arima_setStationary(T,v);
    else if(op==13&&s->k==3) auto_arima_setMethod(T,v);
    else if(op==4){ s->data=v; double *x=s->r?z[v]:NULL;
      if(s->k==0) arima_exec(A,y[v]); else if(s->k==1) sarima_exec(S,y[v]); else if(s->k==2) sarimax_exec(X,y[v],x); else if(s->k==3) auto_arima_exec(T,y[v],x); else ar_exec(R,y[v]); }
    else if(op==5){ int L=v; double *xp=malloc(sizeof(double)*L),*am=malloc(sizeof(double)*L),*x=s->r?z[s->data]:NULL,*w=s->r?nx:NULL; v=s->data;
      if(s->k==0) arima_predict(A,y[v],L,xp,am); else if(s->k==1) sarima_predict(S,y[v],L,xp,am); else if(s->k==2) sarimax_predict(X,y[v],x,L,w,xp,am);
      else if(s->k==3) auto_arima_predict(T,y[v],x,L,w,xp,am); else ar_predict(R,y[v],L,xp,am);
      O(-5); O(2*L); OV(xp,L); OV(am,L); free(xp); free(am); }
    else if(op==6){ O(-6); int at=c->nout; O(0);
      if(s->k==0){ HD(A); OV(A->phi,A->p); OV(A->theta,A->q); double *t=malloc(sizeof(double)*(A->lvcov+1)); arima_vcov(A,t); OV(t,A->lvcov); free(t); OV(A->res,A->Nused); }
      else if(s->k==1){ HD(S); O(S->s);O(S->P);O(S->D);O(S->Q); OV(S->phi,S->p); OV(S->theta,S->q); OV(S->PHI,S->P); OV(S->THETA,S->Q); double *t=malloc(sizeof(double)*(S->lvcov+1)); sarima_vcov(S,t); OV(t,S->lvcov); free(t); OV(S->res,S->Nused); }
      else if(s->k==2){ HD(X); O(X->s);O(X->P);O(X->D);O(X->Q);O(X->r); OV(X->phi,X->p); OV(X->theta,X->q); OV(X->PHI,X->P); OV(X->THETA,X->Q); OV(X->exog,X->r); double *t=malloc(sizeof(double)*(X->lvcov+1)); sarimax_vcov(X,t); OV(t,X->lvcov); free(t); OV(X->res,X->Nused); }
      else if(s->k==3){ HD(T); O(T->s);O(T->P);O(T->D);O(T->Q);O(T->r);O(T->idrift);O(T->bic);O(T->aicc);O(T->sigma2); OV(T->phi,T->p); OV(T->theta,T->q); OV(T->PHI,T->P); OV(T->THETA,T->Q); OV(T->exog,T->r+(T->idrift==1)); OV(T->vcov,T->lvcov); OV(T->res,T->Nused); }
      else { O(R->retval);O(R->p);O(R->order);O(R->ordermax);O(R->mean);O(R->var);O(R->aic); OV(R->phi,R->p); OV(R->res,N); }
      c->out[at]=c->nout-at-1; }
    else if(op==7){ char *t=vf_stdout(); txt=strlen(t);
      if(s->k==0) arima_summary(A); else if(s->k==1) sarima_summary(S); else if(s->k==2) sarimax_summary(X); else if(s->k==3) auto_arima_summary(T); else ar_summary(R);
      t=vf_stdout(); size_t n=strlen(t)-txt; O(-7); O(n); for(size_t i=0;i<n;i++) O((unsigned char)t[txt+i]); }
  }
  for(int i=0;i<6;i++) drop(&sl[i]);
}
