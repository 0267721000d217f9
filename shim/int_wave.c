#include "vf.h"
#include "wavelib.h"
/* a wavelet is named by its characters: I count, I chars */
static char *wname(vf_ctx *c,char *s){ int n=vf_i(c); for(int i=0;i<n;i++) s[i]=(char)vf_i(c); s[n]=0; return s; }
VF(wavefilt){ char s[64]; wave_object w=wave_init(wname(c,s)); O(w->filtlength); O(w->lpd_len); O(w->hpd_len); O(w->lpr_len); O(w->hpr_len); OV(w->lpd,w->filtlength); OV(w->hpd,w->filtlength); OV(w->lpr,w->filtlength); OV(w->hpr,w->filtlength); wave_free(w); }
/* I name, method 0 dwt 1 swt 2 modwt, ext 0 per 1 sym, conv 0 direct 1 fft, J, N, change ; IN x, y(outlength) when change: reconstruct from y instead */
VF(wave){ char s[64]; wname(c,s); int m=I(),ext=I(),cv=I(),J=I(),N=I(),ch=I(); const char *mn[]={"dwt","swt","modwt"}; double *x=IN(N); wave_object w=wave_init(s); wt_object t=wt_init(w,mn[m],N,J);
 if(m!=1) setDWTExtension(t,ext?"sym":"per"); setWTConv(t,cv?"fft":"direct");
 int reps=1+(ch>1); for(int r=0;r<reps;r++) if(m==0) dwt(t,x); else if(m==1) swt(t,x); else modwt(t,x);
 int n=t->outlength; O(n); O(t->MaxIter); for(int i=0;i<J+2;i++) O(t->length[i]); OV(t->output,n);
 double *y=BUF(n); for(int i=0;i<n;i++) y[i]=ch==1?sin(1.0+i*.7)*(1+i%3):t->output[i]; double *mra=m==0?getDWTmra(t,y):m==1?getSWTmra(t,y):getMODWTmra(t,y); OV(mra,(long)N*(J+1)); free(mra);
 if(ch==1) memcpy(t->output,y,8*n);
 double *r=BUF(N); if(m==0) idwt(t,r); else if(m==1) iswt(t,r); else imodwt(t,r); OV(r,N); wt_free(t); wave_free(w); }
/* full packet tree: per level lengths, then every node */
VF(wtree){ char s[64]; wname(c,s); int ext=I(),J=I(),N=I(); double *x=IN(N); wave_object w=wave_init(s); wtree_object t=wtree_init(w,N,J); setWTREEExtension(t,ext?"sym":"per"); wtree(t,x);
 O(t->outlength); O(t->nodes); for(int l=1;l<=J;l++){ int n=getWTREENodelength(t,l); O(n); O(t->coeflength[l]); for(int y=0;y<1<<l;y++){ double *b=BUF(n); getWTREECoeffs(t,l,y,b,n); OV(b,n); } } wtree_free(t); wave_free(w); }
/* best basis */
VF(dwpt){ char s[64]; wname(c,s); int ext=I(),J=I(),N=I(),e=I(); double p=D(); const char *en[]={"shannon","threshold","norm","logenergy"}; double *x=IN(N); wave_object w=wave_init(s); wpt_object t=wpt_init(w,N,J); setDWPTExtension(t,ext?"sym":"per"); setDWPTEntropy(t,en[e],p); dwpt(t,x);
 O(t->outlength); O(t->nodes); O(t->costvalues[0]); for(int i=0;i<t->nodes;i++){ int l=t->nodeindex[2*i],y=t->nodeindex[2*i+1]; O(l); O(y); if(l>0){ int n=getDWPTNodelength(t,l); double *b=BUF(n); O(n); getDWPTCoeffs(t,l,y,b,n); OV(b,n); } }
 double *r=BUF(N); idwpt(t,r); OV(t->output,t->outlength); OV(r,N); wpt_free(t); wave_free(w); }
