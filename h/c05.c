/* C05 (local limits): trials of the real backtracking line search, corrections of the real kkt_solve */
#include "common.h"
#include "expcone.h"
#include "ldl.h"
#if PART==0
pfloat expConeLineSearch(pwork* w, pfloat dtau, pfloat dkappa, idxint affine);
static int np_,nd_;
idxint evalExpPrimalFeas(pfloat *s, idxint n){ np_++; return rs_int(0,1,"primal"); }
idxint evalExpDualFeas(pfloat *s, idxint n){ nd_++; return rs_int(0,1,"dual"); }
pfloat evalBarrierValue(pfloat* a, pfloat* b, idxint f, idxint n){ return rs_real("barrier"); }
pfloat evalSymmetricBarrierValue(pfloat* a, pfloat *b, pfloat t, pfloat k, cone* C, pfloat D){ return rs_real("barrier"); }
void harness(void){ idxint i,M=M_(),bki; pwork *w=calloc(1,sizeof(pwork)); int aff=(int)rs_int(0,1,"affine"); double r,a0,bk; 
  w->C=mkcone(); w->m=M; w->D=LP+3*NEXC; w->KKT=calloc(1,sizeof(kkt)); w->stgs=calloc(1,sizeof(settings)); w->info=calloc(1,sizeof(stats));
  w->KKT->work1=calloc(M,8); w->KKT->work2=calloc(M,8); w->KKT->dz2=calloc(M,8); w->dsaff=calloc(M,8); w->s=calloc(M,8); w->z=calloc(M,8);
  for(i=0;i<M;i++){ w->s[i]=1; w->z[i]=2; w->dsaff[i]=0.25; w->KKT->dz2[i]=-0.125; } w->tau=w->kap=1;
  w->stgs->gamma=0.875; bki=rs_int(0,BKI,"limit"); w->stgs->max_bk_iter=bki; w->stgs->centrality=1; w->stgs->bk_scale=bk=0.5; w->info->step_aff=w->info->step=a0=0.75;
  w->info->pob=w->info->cb=w->info->cob=w->info->pb=w->info->db=50;
  r=expConeLineSearch(w,0.5,-0.25,aff); idxint nb=w->info->pob+w->info->cb+w->info->cob+w->info->pb+w->info->db;
  rs_assert(np_<=bki && nd_<=bki,"no more trial points than the backtracking limit allows"); rs_assert(nb>=0&&nb<=bki,"no more backtracks counted than the limit");
  if(r==-1) rs_reach("gave up"); else { rs_assert(nb<bki,"an accepted trial is one of those allowed"); for(i=0;i<nb;i++) a0*=bk; rs_assert_eq(r,0.875*a0,"the accepted step has one factor per counted backtrack"); rs_reach("accepted"); } }
#else
static int ns_; static idxint nK_;
void LDL_lsolve2(LDL_int n,double b[],LDL_int Lp[],LDL_int Li[],double Lx[],double x[]){ idxint i; ns_++; for(i=0;i<n;i++) x[i]=i?0.0:rs_real("x"); }
void LDL_dsolve(LDL_int n,double X[],double D[]){ }
void LDL_ltsolve(LDL_int n,double X[],LDL_int Lp[],LDL_int Li[],double Lx[]){ }
void harness(void){ pwork *w; double Pb[4*MMAX],*dx,*dy,*dz; idxint i,r,nit; mkdata(0); w=mksetup(); rs_assume(w!=0); dx=calloc(NV,8); dy=calloc(PEQ+1,8); dz=calloc(M_()+1,8);
  for(i=0;i<w->KKT->PKPt->n;i++) Pb[i]=i?1.0:rs_real("b"); nit=rs_int(0,BKI,"limit"); ns_=0;
  r=kkt_solve(w->KKT,w->A,w->G,Pb,dx,dy,dz,NV,PEQ,M_(),w->C,1,nit);
  rs_assert(ns_<=1+nit,"no more corrections than the refinement limit allows"); rs_assert(r>=0&&r<=nit,"reported corrections within the refinement limit"); rs_assert(r<=ns_-1,"no more corrections reported than made"); if(r>0) rs_reach("refined"); else rs_reach("not refined"); }
#endif
