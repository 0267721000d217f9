#include "vf.h"
#include "spectrum.h"
spectrum_fft_object spectrum_fft_init(int N,int Nfft);
VF(periodogram){ int n=I(),side=I(); double *a=IN(n); int no=side==2?n:n/2+1; double *s=BUF(no),*f=BUF(no); spectrum_fft_object o=spectrum_fft_init(n,n); periodogram(o,a,s,f,side); free_spectrum(o); OV(s,no); OV(f,no); }
VF(psd){ int n=I(),nf=I(),side=I(); double *a=IN(n); int no=side==2?nf:nf/2+1; double *s=BUF(no),*f=BUF(no); spectrum_fft_object o=spectrum_fft_init(n,nf); psd(o,a,s,f,side); free_spectrum(o); OV(s,no); OV(f,no); }
VF(spectrum_shift){ int n=I(); double *a=MUT(n); spectrum_shift(a,n); OV(a,n); }
