/* C14: the real LDL_symbolic2, LDL_numeric2, LDL_lsolve2, LDL_dsolve, LDL_ltsolve: every upper triangular pattern with
 * diagonal (n = NN), rows in any order (ORD), all values, signs, regularisation eps < delta. */
#include "common.h"
#include "ldl.h"
#ifndef ORD
#define ORD 0
#endif
static idxint Ap[NN+1],Ai[NN*NN],Lp[NN+2],Par[NN],Lnz[NN],Flag[NN],Pat[NN],Sg[NN],*Li; static double Ax[NN*NN],*Lx,D[NN],Y[NN],A[NN][NN],L[NN][NN];
#define STATIC_PAT(i,j) ((PATT>>((j)*((j)-1)/2+(i)))&1)
void harness(void){ idxint i,j,k,l,nz=0,r; double eps,del; 
  for(j=0;j<NN;j++){ idxint rows[NN],c=0; Ap[j]=nz; 
#ifdef PATT
    for(i=0;i<j;i++) if(STATIC_PAT(i,j)) rows[c++]=i; rows[c++]=j;
#else
    for(i=0;i<j;i++) if(rs_int(0,1,"nz")) rows[c++]=i; rows[c++]=j;
#endif
    if(ORD&&c>1){ r=rs_int(0,c-1,"first"); for(i=0;i<c;i++){ Ai[nz+i]=rows[(i+r)%c]; } } else for(i=0;i<c;i++) Ai[nz+i]=rows[i];
    for(i=0;i<NN;i++) A[i][j]=0; for(i=0;i<c;i++){ Ax[nz+i]=rs_real("a"); A[Ai[nz+i]][j]=Ax[nz+i]; } nz+=c; } Ap[NN]=nz;
  for(i=0;i<NN;i++) for(j=0;j<i;j++) A[i][j]=A[j][i];
  for(i=0;i<=NN+1;i++) Lp[i]=-7;
  LDL_symbolic2(NN,Ap,Ai,Lp,Par,Lnz,Flag);
  rs_assert(Lp[0]==0 && Lp[NN+1]==-7,"column pointers of L"); 
  { idxint S[NN][NN]; /* symbolic elimination */ for(i=0;i<NN;i++) for(j=0;j<NN;j++) S[i][j]=0; for(j=0;j<NN;j++) for(k=Ap[j];k<Ap[j+1];k++) S[j][Ai[k]]=S[Ai[k]][j]=1;
    for(k=0;k<NN;k++) for(i=k+1;i<NN;i++) for(j=k+1;j<NN;j++) if(S[i][k]&&S[k][j]) S[i][j]=1;
    for(k=0;k<NN;k++){ idxint c=0,par=-1; for(i=NN-1;i>k;i--) if(S[i][k]){ c++; par=i; } rs_assert(Lp[k+1]-Lp[k]==c,"the symbolic analysis predicts the fill of every column"); rs_assert(Par[k]==par,"elimination tree parent is the first filled row"); } }
#if PART==0
  Li=malloc(Lp[NN]*sizeof(idxint)); Lx=malloc(Lp[NN]*sizeof(double));
  eps=rs_pos("eps"); del=rs_pos("delta"); rs_assume(del>eps);
#ifdef ALLPOS
  for(i=0;i<NN;i++) Sg[i]=(ALLPOS>>i)&1?1:-1;
#else
  for(i=0;i<NN;i++) Sg[i]=rs_int(0,1,"sign")?1:-1;
#endif
  r=LDL_numeric2(NN,Ap,Ai,Ax,Lp,Par,Sg,eps,del,Lnz,Li,Lx,D,Y,Pat,Flag
#if PROFILING > 1
   ,Y,Y
#endif
  );
  rs_assert(r==NN,"the factorisation completes");
  for(i=0;i<NN;i++) for(j=0;j<NN;j++) L[i][j]=i==j;
  for(j=0;j<NN;j++){ rs_assert(Lnz[j]==Lp[j+1]-Lp[j],"every predicted entry of L is filled"); for(k=Lp[j];k<Lp[j+1];k++){ rs_assert(Li[k]>j&&Li[k]<NN,"L is strictly lower triangular"); if(k>Lp[j]) rs_assert(Li[k]>Li[k-1],"rows of L are distinct"); L[Li[k]][j]=Lx[k]; } }
  for(k=0;k<NN;k++){ rs_assert(Sg[k]*D[k]>eps,"every pivot has the prescribed sign and magnitude above the threshold");
    for(i=0;i<=k;i++){ double v=0; for(j=0;j<=i;j++) v+=L[i][j]*L[k][j]*D[j];
      if(i<k) rs_assert_eq(v,A[i][k],"L D L' reproduces the matrix off the diagonal");
      else { double u=A[k][k]; for(j=0;j<k;j++) u-=L[k][j]*L[k][j]*D[j]; if(Sg[k]*u<=eps){ rs_assert_eq(D[k],Sg[k]*del,"a pivot below the threshold is replaced by the regularisation value"); rs_reach("regularised"); } else { rs_assert_eq(D[k],u,"L D L' reproduces the diagonal where no regularisation acts"); } } } }
  for(i=0;i<nz;i++) ; rs_reach("factored");
#else /* triangular and diagonal solves for any L on the predicted pattern */
  Li=malloc(Lp[NN]*sizeof(idxint)); Lx=malloc(Lp[NN]*sizeof(double)); 
  for(i=0;i<NN;i++) for(j=0;j<NN;j++) L[i][j]=i==j;
  { idxint S[NN][NN]; for(i=0;i<NN;i++) for(j=0;j<NN;j++) S[i][j]=0; for(j=0;j<NN;j++) for(k=Ap[j];k<Ap[j+1];k++) S[j][Ai[k]]=S[Ai[k]][j]=1;
    for(k=0;k<NN;k++) for(i=k+1;i<NN;i++) for(j=k+1;j<NN;j++) if(S[i][k]&&S[k][j]) S[i][j]=1;
    for(j=0;j<NN;j++){ idxint c=Lp[j]; for(i=j+1;i<NN;i++) if(S[i][j]){ Li[c]=i; Lx[c]=rs_real("l"); L[i][j]=Lx[c]; c++; } } }
  { double b[NN],b0[NN],*x=malloc(NN*sizeof(double)),x0[NN]; for(i=0;i<NN;i++) b0[i]=b[i]=rs_real("b"); 
    LDL_lsolve2(NN,b,Lp,Li,Lx,x); for(i=0;i<NN;i++){ double v=0; for(j=0;j<NN;j++) v+=L[i][j]*x[j]; rs_assert_eq(v,b0[i],"forward solve inverts multiplication by L"); rs_assert_eq(b[i],b0[i],"the right-hand side is not changed"); }
    for(i=0;i<NN;i++) x0[i]=x[i]; for(i=0;i<NN;i++){ D[i]=rs_real("d"); rs_assume(D[i]>0||D[i]<0); } LDL_dsolve(NN,x,D); for(i=0;i<NN;i++) rs_assert_eq(x[i]*D[i],x0[i],"diagonal solve inverts multiplication by D");
    for(i=0;i<NN;i++) x[i]=b0[i]; LDL_ltsolve(NN,x,Lp,Li,Lx); for(i=0;i<NN;i++){ double v=0; for(j=0;j<NN;j++) v+=L[j][i]*x[j]; rs_assert_eq(v,b0[i],"backward solve inverts multiplication by L transposed"); }
    for(i=0;i<NN;i++) x[i]=b0[i]; LDL_lsolve(NN,x,Lp,Li,Lx); for(i=0;i<NN;i++){ double v=0; for(j=0;j<NN;j++) v+=L[i][j]*x[j]; rs_assert_eq(v,b0[i],"in-place forward solve inverts multiplication by L"); } }
  rs_reach("solved");
#endif
}
