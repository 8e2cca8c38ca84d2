/* C06: the real lineSearch: symbolic direction, tau, kappa; scaled point symbolic (LSYM) or from a table of
 * points whose cone norm is rational. BND: the first second-order cone is exactly on its boundary. */
#include "common.h"
#ifndef LSYM
#define LSYM 0
#endif
#ifndef BND
#define BND 0
#endif
#ifndef DT0
#define DT0 0
#endif
pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dtau, pfloat kap, pfloat dkap, cone* C, kkt* KKT);
#ifndef LTAB
#define LTAB 0
#endif
static const double T1[3][1]={{2},{1},{0.5}}, T2[3][2]={{5,3},{13,-5},{1.25,0.75}}, T3[3][3]={{3,2,1},{9,-4,8},{1.5,1,0.5}}, T4[3][4]={{5,2,-2,4},{2,1,1,1},{7,-4,4,4}};
static double tab(int q,int i){ return q==1?T1[LTAB][i]:q==2?T2[LTAB][i]:q==3?T3[LTAB][i]:T4[LTAB][i]; }
void harness(void){
  cone *C=mkcone(); idxint M=M_(),i,l,k=0; double lam[MMAX],ds[MMAX],dz[MMAX],w1[MMAX],w2[MMAX]; kkt K; K.work1=w1; K.work2=w2;
  double tau=rs_pos("tau"),kap=rs_pos("kap"),dtau=DT0?0.0:rs_real("dtau"),dkap=DT0>1?0.0:rs_real("dkap"),al; int blk=0;
  for(i=0;i<LP;i++) lam[k++]=rs_pos("lam");
  for(l=0;l<NSOC;l++){ double ss=0; idxint k0=k;
    for(i=0;i<qdim_[l];i++){ if(BND && l==0) lam[k]=i<2?1.0:0.0; else if(LSYM) lam[k]=i?rs_real("lam"):rs_pos("lam"); else lam[k]=tab(qdim_[l],i); if(i) ss+=lam[k]*lam[k]; k++; }
    if(LSYM && !(BND&&l==0) && qdim_[l]>1) rs_assume(lam[k0]*lam[k0]>ss); }
#ifdef DSSYM   /* symbolic directions; otherwise only the components selected by DSMASK are symbolic */
  for(i=0;i<M;i++){ ds[i]=rs_real("ds"); dz[i]=rs_real("dz"); }
#else
  for(i=0;i<M;i++){ ds[i]=(DSMASK>>i)&1?rs_real("ds"):0.25-0.5*(i%2); dz[i]=(DZMASK>>i)&1?rs_real("dz"):-0.125+0.25*(i%3); }
#endif
  al=lineSearch(lam,ds,dz,tau,dtau,kap,dkap,C,&K);
  rs_assert(al>=STEPMIN && al<=STEPMAX,"the step lies between the documented minimum and maximum");
  rs_reach("returned");
  int above=al>STEPMIN, below=al<STEPMAX;
  if(above){ rs_reach("above the minimum");
    if(!DT0) rs_assert(tau+al*dtau>=0,"tau stays non-negative"); if(DT0<2) rs_assert(kap+al*dkap>=0,"kappa stays non-negative");
    for(i=0;i<LP;i++){ rs_assert(lam[i]+al*ds[i]>=0,"scaled slack stays in the linear cone"); rs_assert(lam[i]+al*dz[i]>=0,"scaled multiplier stays in the linear cone"); } }
  k=LP;
  for(l=0;l<NSOC;l++){ double u0=lam[k]+al*ds[k],v0=lam[k]+al*dz[k],ju=u0*u0,jv=v0*v0; int b_=BND&&l==0;
    for(i=1;i<qdim_[l];i++){ double u=lam[k+i]+al*ds[k+i],v=lam[k+i]+al*dz[k+i]; ju-=u*u; jv-=v*v; }
    if(above && !b_){ rs_assert(u0>=0,"scaled slack stays in the second-order cone (first entry)"); rs_assert(ju>=0,"scaled slack stays in the second-order cone");
      rs_assert(v0>=0,"scaled multiplier stays in the second-order cone (first entry)"); rs_assert(jv>=0,"scaled multiplier stays in the second-order cone"); }
    blk=blk|(ju<=0)|(jv<=0)|(u0<=0)|(v0<=0); k+=qdim_[l]; }
  if(below){ rs_reach("below the maximum");
    blk=blk|(tau+al*dtau<=0)|(kap+al*dkap<=0);
    for(i=0;i<LP;i++) blk=blk|(lam[i]+al*ds[i]<=0)|(lam[i]+al*dz[i]<=0);
    if(!BND) rs_assert(blk,"a step below the maximum is blocked by some cone, tau or kappa"); }
}
