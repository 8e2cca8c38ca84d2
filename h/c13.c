/* C13: the real AMD (amd_l_order) on symbolic patterns. PART 0: any sorted pattern in the bounds; PART 1: unsorted / duplicate entries; PART 2: malformed input. */
#include <stdlib.h>
#include "amd.h"
#include "rs.h"
typedef SuiteSparse_long I;
#ifdef GCB   /* columns of a fixed pattern whose ordering needs the workspace compacted */
static const I gcb[]={GCB};
#define BASE(i,j) ((gcb[j]>>(i))&1)
#endif
#ifndef SYMP
#define SYMP(i,j) 1
#endif
#ifndef BASE
#define BASE(i,j) 0
#endif
#define XB 32
static void checkperm(I n,const I *P){ I i,seen[64]; for(i=0;i<n;i++) seen[i]=0; for(i=0;i<n;i++){ rs_assert(P[i]>=0&&P[i]<n,"every entry of the ordering is an index"); if(P[i]<0||P[i]>=n) return; seen[P[i]]++; } for(i=0;i<n;i++) rs_assert(seen[i]==1,"the ordering is a permutation"); }
static double *control(double *C){ I k=rs_int(0,CTL,"control"); int i; for(i=0;i<AMD_CONTROL;i++) C[i]=0; if(k==0) return 0; amd_l_defaults(C); if(k==2) C[AMD_AGGRESSIVE]=0; if(k==3) C[AMD_DENSE]=-1; if(k==4) C[AMD_DENSE]=0; if(k==5){ C[AMD_DENSE]=0; C[AMD_AGGRESSIVE]=0; } return C; }
void harness(void){ I i,j,k,n,nz,st; I *Ap,*Ai,*P; double C[AMD_CONTROL],Info[AMD_INFO],*ctl; long l0;
#if PART==0 || PART==1
  I jumbled=0,diag=0,aat=0,both=0,off=0; static char pat[64][64]; static I ap0[65],ai0[4096];
  n=NN; Ap=malloc((n+1)*sizeof(I)); k=0;
#if PART==0
  for(j=0;j<n;j++){ ap0[j]=k; for(i=0;i<n;i++){ pat[i][j]=(SYMP(i,j))?rs_int(0,1,"p"):((BASE(i,j))?1:0); if(pat[i][j]) ai0[k++]=i; } }
#else
  for(j=0;j<n;j++){ I c=rs_int(0,CE,"len"),e,last=-1; ap0[j]=k; for(e=0;e<c;e++){ i=rs_int(0,n-1,"row"); if(i<=last) jumbled=1; last=i; pat[i][j]=1; ai0[k++]=i; } }
#endif
  ap0[n]=nz=k; Ai=malloc(nz?nz*sizeof(I):1); for(j=0;j<=n;j++) Ap[j]=ap0[j]; for(k=0;k<nz;k++) Ai[k]=ai0[k];
  P=malloc(n*sizeof(I)); for(i=0;i<n;i++) P[i]=-7; ctl=control(C); l0=rs_leaks();
  st=amd_l_order(n,Ap,Ai,P,ctl,Info);
  rs_assert(st==(jumbled?AMD_OK_BUT_JUMBLED:AMD_OK),"the status tells sorted from unsorted or duplicate entries"); if(st!=AMD_OK&&st!=AMD_OK_BUT_JUMBLED) return;
  checkperm(n,P); rs_assert(rs_leaks()==l0,"all working memory is freed");
  for(j=0;j<=n;j++) rs_assert(Ap[j]==ap0[j],"the input is not modified"); for(k=0;k<nz;k++) rs_assert(Ai[k]==ai0[k],"the input is not modified");
  for(i=0;i<n;i++) for(j=0;j<n;j++){ if(i==j) diag+=pat[i][j]; else { off+=pat[i][j]; aat+=(pat[i][j]|pat[j][i]); both+=(pat[i][j]&pat[j][i]); } }
  rs_assert(Info[AMD_STATUS]==st&&Info[AMD_N]==n&&(Info[AMD_NZ]==nz||(jumbled&&Info[AMD_NZ]==off+diag)),"statistics: status and sizes"); rs_assert(Info[AMD_NZDIAG]==diag&&Info[AMD_NZ_A_PLUS_AT]==aat,"statistics: nonzeros"); 
  rs_assert(off==0?Info[AMD_SYMMETRY]==1:Info[AMD_SYMMETRY]==(double)both/(double)off,"statistics: symmetry");
  { I *P2=malloc(n*sizeof(I)); st=amd_l_order(n,Ap,Ai,P2,ctl,0); for(i=0;i<n;i++) rs_assert(P2[i]==P[i],"the same ordering without statistics"); free(P2); }
  rs_reach(jumbled?"jumbled":"ordered"); if(Info[AMD_NCMPA]>0) rs_reach("workspace compacted"); if(Info[AMD_NDENSE]>0) rs_reach("dense rows");
#else
  { I ok=1,jum=0,last,cap=MXZ,np=rs_int(0,4,"null"); 
    n=rs_int(-1,NN,"n"); { I m=n<0?0:n; Ap=malloc((m+1)*sizeof(I)); for(j=0;j<=m;j++) Ap[j]=rs_int(-1,MXZ,"ap"); nz=Ap[m]; if(nz<0) nz=0; P=malloc(m?m*sizeof(I):1); }
    Ai=malloc(nz?nz*sizeof(I):1); for(k=0;k<nz;k++) Ai[k]=rs_int(-1,n<1?0:n,"ai");
    if(n<0||np==1||np==2||np==3) ok=0; else if(n>0){ if(Ap[0]!=0||Ap[n]<0) ok=0; for(j=0;j<n;j++) if(Ap[j]>Ap[j+1]) ok=0; if(ok) for(k=0;k<nz;k++) if(Ai[k]<0||Ai[k]>=n) ok=0; if(ok) for(j=0;j<n;j++) for(last=-1,k=Ap[j];k<Ap[j+1];k++){ if(Ai[k]<=last) jum=1; last=Ai[k]; } }
    l0=rs_leaks(); st=amd_l_order(n,np==1?0:Ap,np==2?0:Ai,np==3?0:P,0,np==4?0:Info);
    rs_assert(st==(!ok?AMD_INVALID:jum?AMD_OK_BUT_JUMBLED:AMD_OK),"malformed input is rejected with the documented status, well-formed input is not"); rs_assert(rs_leaks()==l0,"all working memory is freed");
    if(np!=4) rs_assert(Info[AMD_STATUS]==st,"statistics: status"); if(st==AMD_OK&&n>0) checkperm(n,P);
    if(ok) rs_reach("well-formed"); else rs_reach("rejected"); }
#endif
}
