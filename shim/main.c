/* Worker: executes one library call per request.  stdout of the library goes to /dev/null. */
#define _GNU_SOURCE
#include "vf.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <stdint.h>
size_t __sanitizer_get_current_allocated_bytes(void); size_t __sanitizer_get_allocated_size(const volatile void *);
#define MAXF 1024
static struct { const char *n; vf_fn f; } tab[MAXF]; static int ntab;
void vf_register(const char *n, vf_fn f){ if(ntab<MAXF){tab[ntab].n=n;tab[ntab].f=f;ntab++;} }
static void die(const char *m){ fprintf(stderr,"VF-PROTOCOL %s\n",m); _exit(90); }
static long bal; /* bytes the harness itself holds at the end of a call */
static void own(vf_ctx *c, void *p){ bal+=__sanitizer_get_allocated_size(p); if(c->nowned>=256) die("owned"); c->owned[c->nowned++]=p; }
int vf_i(vf_ctx *c){ if(c->ipos>=c->nip) die("ints"); return c->ip[c->ipos++]; }
double vf_d(vf_ctx *c){ if(c->dpos>=c->ndp) die("doubles"); return c->dp[c->dpos++]; }
static double *take(vf_ctx *c,long n){ if(n<0||c->dpos+n>c->ndp) die("array"); double *p=malloc(sizeof(double)*(n?n:1)); memcpy(p,c->dp+c->dpos,sizeof(double)*n); c->dpos+=n; own(c,p); return p; }
double *vf_mut(vf_ctx *c,long n){ return take(c,n); }
double *vf_in(vf_ctx *c,long n){ const double *o=c->dp+c->dpos; double *p=take(c,n); if(c->nro>=64) die("ro"); c->ro[c->nro].p=p; c->ro[c->nro].orig=(double*)o; c->ro[c->nro].n=n; c->nro++; return p; }
double *vf_buf(vf_ctx *c,long n){ double *p=malloc(sizeof(double)*(n?n:1)); for(long i=0;i<n;i++) p[i]=NAN; own(c,p); return p; }
int *vf_ibuf(vf_ctx *c,long n){ int *p=malloc(sizeof(int)*(n?n:1)); for(long i=0;i<n;i++) p[i]=-777; own(c,p); return p; }
void vf_o(vf_ctx *c,double v){ if(c->nout>=c->cap){ if(c->out) bal-=__sanitizer_get_allocated_size(c->out); c->cap=c->cap?2*c->cap:256; c->out=realloc(c->out,sizeof(double)*c->cap); bal+=__sanitizer_get_allocated_size(c->out);} c->out[c->nout++]=v; }
void vf_ov(vf_ctx *c,const double *p,long n){ for(long i=0;i<n;i++) vf_o(c,p[i]); }
static void rd(int fd,void *b,size_t n){ char *p=b; while(n){ ssize_t k=read(fd,p,n); if(k<=0){ if(getenv("VF_LSAN")) exit(0); _exit(0);} p+=k;n-=k; } }
static void wr(int fd,const void *b,size_t n){ const char *p=b; while(n){ ssize_t k=write(fd,p,n); if(k<=0) _exit(0); p+=k;n-=k; } }
static char *txt;
char *vf_stdout(void){ fflush(stdout); long n=lseek(1,0,SEEK_CUR); if(txt) bal-=__sanitizer_get_allocated_size(txt); free(txt); txt=calloc(n+1,1); bal+=__sanitizer_get_allocated_size(txt); if(n>0 && pread(1,txt,n,0)<0) txt[0]=0; return txt; }
int main(int argc,char **argv){
  int cpu = argc>1?atoi(argv[1]):60;
  int in=dup(0), out=dup(1);
  int nul=open("/dev/null",O_RDWR); dup2(nul,0); int cap=memfd_create("out",0); if(cap<0) die("memfd"); dup2(cap,1);
  for(;;){
    int32_t h[3]; char name[128]; rd(in,h,sizeof h);
    if(h[0]<=0||h[0]>120) die("name"); rd(in,name,h[0]); name[h[0]]=0;
    vf_ctx *c=calloc(1,sizeof *c);
    int *ip=malloc(sizeof(int)*(h[1]?h[1]:1)); double *dp=malloc(sizeof(double)*(h[2]?h[2]:1));
    rd(in,ip,sizeof(int)*h[1]); rd(in,dp,sizeof(double)*h[2]);
    c->ip=ip;c->nip=h[1];c->dp=dp;c->ndp=h[2];
    vf_fn f=NULL; for(int i=0;i<ntab;i++) if(!strcmp(tab[i].n,name)) f=tab[i].f;
    if(!f){ fprintf(stderr,"VF-PROTOCOL unknown %s\n",name); _exit(90); }
    struct itimerval tv={{0,0},{cpu,0}}; setitimer(ITIMER_VIRTUAL,&tv,NULL);   /* CPU time, not wall clock */
    if(ftruncate(1,0)||lseek(1,0,SEEK_SET)) die("cap");
    size_t before=__sanitizer_get_current_allocated_bytes(); bal=0;
    f(c);
    struct itimerval t0={{0,0},{0,0}}; setitimer(ITIMER_VIRTUAL,&t0,NULL);
    fflush(stdout);
    int32_t mod=0; for(int i=0;i<c->nro;i++) if(memcmp(c->ro[i].p,c->ro[i].orig,sizeof(double)*c->ro[i].n)) mod|=1<<(i<31?i:30);
    long leak=(long)__sanitizer_get_current_allocated_bytes()-(long)before-bal; if(leak>1000000000) leak=1000000000; if(leak<0) leak=0;
    int32_t r[3]={mod,(int32_t)c->nout,(int32_t)leak}; wr(out,r,sizeof r); wr(out,c->out,sizeof(double)*c->nout);
    for(int i=0;i<c->nowned;i++) free(c->owned[i]);
    free(c->out); free(ip); free(dp); free(c);
  }
}
