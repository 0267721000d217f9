#include "vf.h"
#include "matrix.h"
#include "lls.h"
#include "stats.h"
/* products: method 0 mmult 1 nmult 2 tmult 3 rmult 4 smult */
VF(matmul){ int w=I(),m=I(),n=I(),p=I(); double *A=IN((long)m*n),*B=IN((long)n*p),*C=BUF((long)m*p); if(w==0) mmult(A,B,C,m,n,p); else if(w==1) nmult(A,B,C,m,n,p); else if(w==2) tmult(A,B,C,m,n,p); else if(w==3) rmult(A,B,C,m,n,p); else smult(A,B,C,m,n,p); OV(C,(long)m*p); }
VF(transp){ int w=I(),m=I(),n=I(); double *A=w==3?MUT((long)m*n):IN((long)m*n),*B=BUF((long)m*n); if(w==0) mtranspose(A,m,n,B); else if(w==1) stranspose(A,m,n,B); else if(w==2) ctranspose(A,m,n,B); else { itranspose(A,m,n); memcpy(B,A,sizeof(double)*m*n);} OV(B,(long)m*n); }
VF(sortidx){ int n=I(),as=I(); double *v=IN(n); int *p=IBUF(n); if(as) sort1d_ascending(v,n,p); else sort1d(v,n,p); for(int i=0;i<n;i++) O(p[i]); }
VF(vecmisc){ int n=I(); double *v=IN(n); O(l2norm(v,n)); O(array_max_abs(v,n)); O(array_max(v,n)); O(array_min(v,n)); O(mean(v,n)); O(var(v,n)); }
VF(lusolve){ int n=I(); double *A=MUT((long)n*n),*b=IN(n),*x=BUF(n),*inv=BUF((long)n*n); int *ip=IBUF(n); ludecomp(A,n,ip); linsolve(A,n,b,ip,x); minverse(A,n,ip,inv); OV(x,n); OV(inv,(long)n*n); }
VF(plu){ int m=I(),n=I(); int k=m<n?m:n; double *A=MUT((long)m*n),*P=BUF((long)m*m),*L=BUF((long)m*k),*U=BUF((long)k*n),*PL=BUF((long)m*k),*U2=BUF((long)k*n); int *ip=IBUF(m); rludecomp(A,m,n,ip); getPLU(A,m,n,ip,P,L,U); getPU(A,m,n,ip,PL,U2); OV(P,(long)m*m); OV(L,(long)m*k); OV(U,(long)k*n); OV(PL,(long)m*k); OV(U2,(long)k*n); }
VF(qr){ int m=I(),n=I(); double *A=MUT((long)m*n),*b=BUF(n),*Q=BUF((long)m*n),*R=BUF((long)n*n); qrdecomp(A,m,n,b); getQR(A,m,n,b,Q,R); OV(Q,(long)m*n); OV(R,(long)n*n); }
VF(house){ int n=I(); double *x=IN(n),*v=BUF(n),*H=BUF((long)n*n); double be=house(x,n,v); housemat(v,n,be,H); O(be); OV(v,n); OV(H,(long)n*n); }
VF(hess){ int n=I(); double *A=MUT((long)n*n); hessenberg(A,n); OV(A,(long)n*n); }
VF(eig){ int n=I(); double *A=IN((long)n*n),*r=BUF(n),*i=BUF(n); eig(A,n,r,i); OV(r,n); OV(i,n); }
VF(eigsym){ int n=I(); double *A=IN((long)n*n),*r=BUF(n),*V=BUF((long)n*n); eigensystem(A,n,r,V); OV(r,n); OV(V,(long)n*n); }
VF(chol){ int w=I(),n=I(); double *A=MUT((long)n*n); int r=w==0?chol(A,n):w==1?cholu(A,n):bcholu(A,n); O(r); OV(A,(long)n*n); }
VF(chold){ int n=I(); double *A=MUT((long)n*n); chold(A,n); OV(A,(long)n*n); }
VF(svd){ int w=I(),m=I(),n=I(); double *A=IN((long)m*n); if(m<n){ double *U=BUF((long)m*m),*V=BUF((long)n*m),*q=BUF(m); int r=svd_transpose(A,m,n,U,V,q); O(r); OV(U,(long)m*m); OV(V,(long)n*m); OV(q,m); return; }
  double *U=BUF((long)m*n),*V=BUF((long)n*n),*q=BUF(n); int r=w==0?svd(A,m,n,U,V,q):w==1?svd_gr(A,m,n,U,V,q):svd_gr2(A,m,n,U,V,q); O(r); OV(U,(long)m*n); OV(V,(long)n*n); OV(q,n); }
VF(rank){ int m=I(),n=I(); double *A=IN((long)m*n); O(rank(A,m,n)); }
VF(rsvd){ int m=I(),n=I(),K=I(),ov=I(),it=I(); double *A=IN((long)m*n),*U=BUF((long)m*K),*V=BUF((long)n*K),*S=BUF(K); rsvd(A,m,n,K,ov,it,U,V,S); OV(U,(long)m*K); OV(V,(long)n*K); OV(S,K); }
VF(lls){ int w=I(),m=I(),n=I(); double *A=IN((long)m*n),*b=IN(m),*x=BUF(n); int r=w==0?lls_qr(A,b,m,n,x):w==1?lls_normal(A,b,m,n,x):w==2?lls_svd(A,b,m,n,x):lls_svd2(A,b,m,n,x); O(r); OV(x,n); }
