/* replay runtime: feeds the solver's values to the natively compiled harness */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <malloc.h>
#include <fenv.h>
#include "rs.h"
static FILE *f; static int nfail;
static double nextv(const char *nm){ char k; char name[200]; double v; char buf[400];
  if(!f){ f=fopen(getenv("RS_VALUES"),"r"); if(!f){ printf("RS-NOVALUES\n"); _Exit(9);} }
  if(!fgets(buf,400,f)){ printf("RS-EXHAUSTED at %s\n",nm); _Exit(5); }
  if(sscanf(buf,"%c %199s %lf",&k,name,&v)!=3){ printf("RS-BAD %s\n",buf); _Exit(9);} return v; }
double rs_real(const char*n){ return nextv(n); }
double rs_fin(const char*n){ return nextv(n); }
double rs_pos(const char*n){ return nextv(n); }
long rs_int(long lo,long hi,const char*n){ long v=(long)nextv(n); if(v<lo||v>hi){ printf("RS-RANGE %s\n",n); _Exit(5);} return v; }
void rs_havoc(double*p,long n,const char*nm){ long i; for(i=0;i<n;i++) p[i]=nextv(nm); }
void rs_assume(int c){ if(!c){ printf("RS-ASSUME-FAILED\n"); fflush(stdout); _Exit(nfail?3:6);} }
void rs_assert(int c,const char*m){ if(!c){ printf("RS-FAIL %s\n",m); fflush(stdout); nfail++; _Exit(3);} }
void rs_assert_eq(double a,double b,const char*m){ double s=1+fabs(a)+fabs(b);
  if(isnan(a)&&isnan(b)) return; if(a==b) return;
  if(isnan(a)||isnan(b)||fabs(a-b)>1e-7*s){ printf("RS-FAIL %s: %.17g vs %.17g\n",m,a,b); fflush(stdout); nfail++; _Exit(3);} }
void rs_assert_same(double a,double b,const char*m){ if(!(a==b||(isnan(a)&&isnan(b)))){ printf("RS-FAIL %s: %.17g vs %.17g\n",m,a,b); fflush(stdout); nfail++; _Exit(3);} }
int rs_is_nan(double a){ return isnan(a); }
void rs_reach(const char*n){ (void)n; }
void rs_end(void){ printf("RS-END\n"); fflush(stdout); _Exit(nfail?3:0); }
static long live_; static int fill_(void){ static int f_=-2; if(f_==-2){ char*e=getenv("RS_FILL"); f_=e?atoi(e):-1; } return f_; }
void *__real_malloc(size_t n); void *__real_calloc(size_t a,size_t b); void __real_free(void*p); void *__real_realloc(void*p,size_t n);
void *__wrap_malloc(size_t n){ void *p=__real_malloc(n); if(p){ live_++; if(fill_()>=0) memset(p,fill_(),n); } return p; }
void *__wrap_calloc(size_t a,size_t b){ void *p=__real_calloc(a,b); if(p) live_++; return p; }
void __wrap_free(void*p){ if(p) live_--; __real_free(p); }
void *__wrap_realloc(void*p,size_t n){ if(!p) live_++; return __real_realloc(p,n); }
long rs_leaks(void){ return live_; }
int rs_depends_uninit(double a){ printf("RS-OBS %.17g\n",a); return 0; }
int rs_symbolic(double a){ (void)a; return 0; }
long rs_try_size(const void*p){ return p? (long)malloc_usable_size((void*)p):-1; }
double rs_uf1(const char*n,double a){ double w; int i; if(!strcmp(n,"mx")) return 1+(a<0?-a:a); if(strcmp(n,"omega")) return a; if(a<0) return -1; w=a>1.5?a-log(a):exp(a-1)/(1+0.2*exp(a-1)); if(w<1e-9) w=1e-9; for(i=0;i<60;i++){ double v=w-(w+log(w)-a)/(1+1/w); w=v>w*0.1?v:w*0.1; } return w; }
double rs_diff(double f_,double v){ (void)f_; (void)v; printf("RS-NODIFF\n"); _Exit(7); }
extern void harness(void);
int main(void){ { char *r=getenv("RS_ROUND"); int m=r?atoi(r):0; if(m) fesetround(m==1?FE_UPWARD:m==2?FE_DOWNWARD:FE_TOWARDZERO); } harness(); printf("RS-END\n"); return nfail?3:0; }
