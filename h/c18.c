/* C18: the real sparse and dense kernels (spla.c, splamm.c): every pattern within the bounds, all values symbolic. */
#include "common.h"
#include "splamm.h"
#ifndef RM
#define RM 3
#endif
#ifndef CN
#define CN 3
#endif
#ifndef CE
#define CE 2
#endif
#define NZ (CN*CE)
static idxint jc[CN+1],*ir; static double *pr; static idxint nnz;
/* any column structure: up to CE entries per column, rows in any order, duplicates allowed (DUP) */
static spmat *anymat(int rows){ int j,k,c; idxint t[NZ+1]; double v[NZ+1]; nnz=0;
  for(j=0;j<CN;j++){ jc[j]=nnz; c=(int)rs_int(0,CE,"count"); for(k=0;k<c;k++){ t[nnz]=rs_int(0,rows-1,"row"); v[nnz]=rs_real("a"); nnz++; } } jc[CN]=nnz;
  ir=malloc(nnz*sizeof(idxint)); pr=malloc(nnz*sizeof(double)); for(k=0;k<nnz;k++){ ir[k]=t[k]; pr[k]=v[k]; }
  return ecoscreateSparseMatrix(rows,CN,nnz,jc,ir,pr); }
static void harness_mv(void){ spmat *A=anymat(RM); double x[CN],*y=malloc((RM+1)*sizeof(double)),y0[RM+1]; int i,j,k; idxint a=rs_int(0,1,"sign")?1:-1,nw=rs_int(0,1,"new");
  for(j=0;j<CN;j++) x[j]=rs_real("x"); for(i=0;i<=RM;i++){ y0[i]=0; if(!nw||i==RM){ y0[i]=rs_real("y"); y[i]=y0[i]; } }
  sparseMV(A,x,y,a,nw);
  for(i=0;i<RM;i++){ double e=nw?0:y0[i]; for(j=0;j<CN;j++) for(k=jc[j];k<jc[j+1];k++) if(ir[k]==i) e+=a*pr[k]*x[j]; rs_assert_eq(y[i],e,"sparse product y (+/-)= A x"); }
  rs_assert_eq(y[RM],y0[RM],"the product writes nothing else"); rs_reach("mv"); }
static void harness_mtv(void){ spmat *A=anymat(RM); double x[RM],*y=malloc((CN+1)*sizeof(double)),y0[CN+1]; int i,j,k; idxint sk=rs_int(0,1,"skip"),nw=rs_int(0,1,"new");
  for(i=0;i<RM;i++) x[i]=rs_real("x"); for(j=0;j<=CN;j++){ y0[j]=0; if(!nw||j==CN){ y0[j]=rs_real("y"); y[j]=y0[j]; } }
  sparseMtVm(A,x,y,nw,sk);
  for(j=0;j<CN;j++){ double e=nw?0:y0[j]; for(k=jc[j];k<jc[j+1];k++) if(!(sk&&ir[k]==j)) e-=pr[k]*x[ir[k]]; rs_assert_eq(y[j],e,"transposed sparse product y (-)= A' x"); }
  rs_assert_eq(y[CN],y0[CN],"the product writes nothing else"); rs_reach("mtv"); }
static void harness_tr(void){ spmat *A=anymat(RM),*T; idxint *map=malloc(nnz*sizeof(idxint)); int i,j,k,seen[NZ+1]; idxint lv=rs_leaks();
  T=transposeSparseMatrix(A,map);
  rs_assert(T->m==CN && T->n==RM && T->nnz==nnz,"transposed dimensions");
  rs_assert(T->jc[0]==0 && T->jc[RM]==nnz,"transposed column pointers run from 0 to the number of entries");
  for(i=0;i<RM;i++) rs_assert(T->jc[i]<=T->jc[i+1],"transposed column pointers do not decrease");
  for(k=0;k<nnz;k++) seen[k]=0;
  for(j=0;j<CN;j++) for(k=jc[j];k<jc[j+1];k++){ idxint q=map[k]; rs_assert(q>=0&&q<nnz,"index map within the transposed matrix"); if(q<0||q>=nnz) return; seen[q]++; rs_assert_eq(T->pr[q],pr[k],"index map points to the same value"); rs_assert(T->ir[q]==j,"transposed entry in row j"); rs_assert(q>=T->jc[ir[k]]&&q<T->jc[ir[k]+1],"transposed entry in column i"); }
  for(k=0;k<nnz;k++) rs_assert(seen[k]==1,"the index map is one to one");
  freeSparseMatrix(T); rs_assert(rs_leaks()==lv,"no memory is kept"); rs_reach("transposed"); }
static void harness_cp(void){ spmat *A=anymat(RM),*T=copySparseMatrix(A); int j,k;
  rs_assert(T->m==RM&&T->n==CN&&T->nnz==nnz,"copied dimensions"); for(j=0;j<=CN;j++) rs_assert(T->jc[j]==jc[j],"copied column pointers"); for(k=0;k<nnz;k++){ rs_assert(T->ir[k]==ir[k],"copied rows"); rs_assert_eq(T->pr[k],pr[k],"copied values"); rs_assert(&T->pr[k]!=&pr[k],"the copy owns its memory"); } rs_reach("copied"); }
/* symmetric permutation: upper triangular pattern with optional ignored lower entries */
static void harness_pm(void){ int i,j,k,up=0; idxint p[CN],pv[CN],*PK; spmat A,*C; idxint t[CN*CN]; int seen[CN*CN]; 
  ir=t; pr=malloc(CN*CN*sizeof(double)); nnz=0;
  for(j=0;j<CN;j++){ jc[j]=nnz; for(i=0;i<(LOWER?CN:j+1);i++) if(rs_int(0,1,"nz")){ ir[nnz]=i; pr[nnz]=rs_real("a"); nnz++; if(i<=j) up++; } } jc[CN]=nnz;
  for(i=0;i<CN;i++){ p[i]=rs_int(0,CN-1,"perm"); for(k=0;k<i;k++) rs_assume(p[k]!=p[i]); }
  for(i=0;i<CN;i++) pv[i]=-1; pinv(CN,p,pv); for(i=0;i<CN;i++) rs_assert(pv[p[i]]==i,"inverse permutation");
  A.m=A.n=CN; A.nnz=nnz; A.jc=jc; A.ir=ir; A.pr=pr; C=newSparseMatrix(CN,CN,up); PK=malloc((nnz+1)*sizeof(idxint)); for(k=0;k<=nnz;k++) PK[k]=-1;
  idxint lv=rs_leaks(); int withmap=(int)rs_int(0,1,"map");
  permuteSparseSymmetricMatrix(&A,pv,C,withmap?PK:0);
  rs_assert(rs_leaks()==lv,"no memory is kept");
  rs_assert(C->jc[0]==0&&C->jc[CN]==up,"column pointers of the permuted matrix"); for(j=0;j<CN;j++){ rs_assert(C->jc[j]<=C->jc[j+1],"column pointers do not decrease"); for(k=C->jc[j];k<C->jc[j+1];k++) rs_assert(C->ir[k]>=0&&C->ir[k]<=j,"the permuted matrix is upper triangular"); }
  for(k=0;k<up;k++) seen[k]=0;
  for(j=0;j<CN;j++) for(k=jc[j];k<jc[j+1];k++) if(ir[k]<=j){ idxint a=pv[ir[k]],b=pv[j],lo=a<b?a:b,hi=a<b?b:a,q; double v=0; int n=0; 
     for(q=C->jc[hi];q<C->jc[hi+1];q++) if(C->ir[q]==lo){ v+=C->pr[q]; n++; } rs_assert(n==1,"each entry appears once, at its permuted position"); rs_assert_eq(v,pr[k],"permuted entry keeps its value");
     if(withmap){ q=PK[k]; rs_assert(q>=C->jc[hi]&&q<C->jc[hi+1],"index map points into the right column"); if(q<0||q>=up) return; rs_assert(C->ir[q]==lo,"index map points to the permuted row"); seen[q]++; rs_assert(seen[q]==1,"the index map is one to one"); } }
  rs_reach("permuted"); }
#ifndef N
#define N 4
#endif
static void harness_vec(void){ double x[N+1],y[N+1],y0[N+1],a=rs_real("a"),e,r; int i,n=(int)rs_int(0,N,"n"); double ss=0; for(i=0;i<=N;i++){ x[i]=rs_real("x"); y0[i]=y[i]=rs_real("y"); }
  switch(PART2){
  case 0: vadd(n,x,y); for(i=0;i<=N;i++) rs_assert_eq(y[i],i<n?y0[i]+x[i]:y0[i],"vector addition"); break;
  case 1: vsubscale(n,a,x,y); for(i=0;i<=N;i++) rs_assert_eq(y[i],i<n?y0[i]-a*x[i]:y0[i],"scaled subtraction"); break;
  case 2: for(i=0;i<n;i++) ss+=x[i]*x[i]; r=norm2(x,n); rs_assert(r>=0,"2-norm is not negative"); rs_assert_eq(r*r,ss,"2-norm squared"); break;
  case 3: r=norminf(x,n); e=0; { int hit=r==0&&n==0; for(i=0;i<n;i++){ rs_assert(r>=x[i]&&r>=-x[i],"maximum norm bounds every entry"); hit=hit|(r==x[i])|(r==-x[i]); } rs_assert(hit,"maximum norm is attained"); } break;
  case 4: for(i=0,e=0;i<n;i++) e+=x[i]*y[i]; rs_assert_eq(eddot(n,x,y),e,"inner product"); break; }
  for(i=0;i<=N && PART2>1;i++) rs_assert_eq(y[i],y0[i],"arguments untouched"); rs_reach("vector"); }
void harness(void){
#if PART==0
  harness_mv();
#elif PART==1
  harness_mtv();
#elif PART==2
  harness_tr();
#elif PART==3
  harness_cp();
#elif PART==4
  harness_pm();
#else
  harness_vec();
#endif
}
