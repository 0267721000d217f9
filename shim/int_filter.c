#include "vf.h"
#include "filter.h"
/* kind n m | sig filt */
VF(conv){ int k=I(),n=I(),m=I(); double *a=IN(n),*b=IN(m),*o=BUF(n+m-1);
  if(k==0) conv(a,n,b,m,o); else if(k==1) convx(a,n,b,m,o); else if(k==2) conv_direct(a,n,b,m,o); else if(k==3) conv_directx(a,n,b,m,o);
  else { conv_object c=conv_init(n,m); conv_fft(c,a,b,o); if(k==5) conv_fft(c,a,b,o); free_conv(c); } OV(o,n+m-1); }
VF(filter){ int n=I(),m=I(); double *a=IN(n),*b=IN(m),*o=BUF(n); filter(a,n,b,m,o); OV(o,n); }
VF(convolve){ int t=I(),f=I(),n=I(),m=I(),no=I(); double *a=IN(n),*b=IN(m),*o=BUF(no); int r=convolve(t==0?"full":t==1?"same":"valid",f?"fft":"direct",a,n,b,m,o); O(r); OV(o,no); }
VF(mafilter){ int k=I(),n=I(),w=I(); double *a=IN(n),*o=BUF(n); if(k==0) mafilter(a,n,w,o); else mafilter2(a,n,w,o); OV(o,n); }
VF(mafilter_wt){ int n=I(),w=I(); double *a=IN(n),*ww=IN(w),*o=BUF(n); mafilter_wt(a,n,ww,w,o); OV(o,n); }
VF(expfilter){ int n=I(); double al=D(),*a=IN(n),*o=BUF(n); expfilter(a,n,al,o); OV(o,n); }
VF(norm2){ int n=I(); double *a=IN(n); O(norm2(a,n)); }
VF(findnext){ int k=I(),n=I(); extern int findnext2(int); O(k==0?findnext(n):findnexte(n)); }
VF(fft){ int n=I(),sgn=I(),times=I(); double *a=IN(2*n),*o=BUF(2*n); fft_object f=fft_init(n,sgn); for(int t=0;t<times;t++) fft_exec(f,(fft_data*)a,(fft_data*)o); free_fft(f); OV(o,2*n); }
VF(rfft){ int n=I(),inv=I(); fft_real_object f=fft_real_init(n,inv?-1:1); if(!inv){ double *a=IN(n),*o=BUF(2*n); fft_r2c_exec(f,a,(fft_data*)o); OV(o,2*n);} else { double *a=IN(2*n),*o=BUF(n); fft_c2r_exec(f,(fft_data*)a,o); OV(o,n);} free_real_fft(f); }
