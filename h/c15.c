/* C15: the real kkt_solve (and unstretch, RHS layout) behind a real ECOS_setup with identity equilibration.
 * PART 0: factor solves return arbitrary vectors, norms are made to ask for refinement: components land in place and every correction is
 *   solved for with the residual of the unpermuted system;  PART 1: real norms: undo/limit/count logic;  PART 2: real LDL too: K*solution = rhs */
#include "common.h"
#include "equil.h"
#include "ldl.h"
void kkt_init(spmat* PKP, idxint* P, cone *C); void kkt_update(spmat* PKP, idxint* P, cone *C);
void set_equilibration(pwork *w){ idxint i; for(i=0;i<w->n;i++) w->xequil[i]=1; for(i=0;i<w->p;i++) w->Aequil[i]=1; for(i=0;i<w->m;i++) w->Gequil[i]=1; }
#define KM 24
#ifndef XMASK
#define XMASK (~0) /* which components of the solutions are arbitrary; the others are numbers */
#endif
#ifndef NIT
#define NIT 0
#endif
#if PROFILING > 1
static pfloat t1_,t2_;
#define KF(k,e,d) kkt_factor(k,e,d,&t1_,&t2_)
#else
#define KF(k,e,d) kkt_factor(k,e,d)
#endif
static double K[KM][KM], B[KM], X[6][KM], E[6][KM]; static idxint nK, zrow[MMAX]; static int isu[KM]; static pwork *w; static int ns; static idxint nit;
static double *v_of(idxint i,double *dx,double *dy,double *dz){ idxint r; if(i<NV) return dx+i; if(i<NV+PEQ) return dy+i-NV; for(r=0;r<M_();r++) if(zrow[r]==i) return dz+r; return 0; }
#if PART<2
void LDL_lsolve2(LDL_int n,double b[],LDL_int Lp[],LDL_int Li[],double Lx[],double x[]){ idxint i,j; 
  if(ns>0) for(i=0;i<nK;i++) E[ns][i]=b[w->KKT->Pinv[i]]; else for(i=0;i<nK;i++) rs_assert_eq(b[w->KKT->Pinv[i]],B[i],"the first solve is for the given right-hand side");
  for(i=0;i<nK;i++) { X[ns][i]=(ISINIT&&isu[i])?0.0:((XMASK>>i)&1)?rs_real("x"):(ns?0.0:0.25*i); x[w->KKT->Pinv[i]]=X[ns][i]; } if(ns<5) ns++; }
void LDL_dsolve(LDL_int n,double x[],double D[]){ }
void LDL_ltsolve(LDL_int n,double x[],LDL_int Lp[],LDL_int Li[],double Lx[]){ }
#endif
#if PART==0||PART==2
pfloat norminf(pfloat *v, idxint n){ idxint i; double t=1; for(i=0;i<ns;i++) t/=8; return t; }
#endif
static double resid(idxint i,int upto){ idxint j; int k; double r=B[i]; for(j=0;j<nK;j++){ double s=0; for(k=0;k<=upto;k++) s+=X[k][j]; r-=(i<=j?K[i][j]:K[j][i])*s; } return r; }
static double xsum(idxint i,int upto){ int k; double s=0; for(k=0;k<=upto;k++) s+=X[k][i]; return s; }
void harness(void){ idxint i,j,k,l,e,r,q,M; double RHS[KM],dx[9],dy[9],dz[MMAX]; int isinit=(ISINIT); M=M_();
  mkdata(PART!=1); w=mksetup(); if(!w) return; nK=w->KKT->PKPt->n; rs_assert(nK==NV+PEQ+M+2*NSOC,"size of the KKT system"); if(nK!=NV+PEQ+M+2*NSOC) return;
  e=NV+PEQ; k=0; for(i=0;i<LP;i++) zrow[k++]=e++; for(l=0;l<NSOC;l++){ for(i=0;i<qdim_[l];i++) zrow[k++]=e++; isu[e]=1; isu[e+1]=2; e+=2; } for(i=0;i<3*NEXC;i++) zrow[k++]=e++;
  for(i=0;i<NV;i++){ for(j=0;j<M;j++) K[i][zrow[j]]=Gd[j][i]; for(j=0;j<PEQ;j++) K[i][NV+j]=Ad[j][i]; }
  if(isinit){ kkt_init(w->KKT->PKPt,w->KKT->PK,w->C); for(i=0;i<M-3*NEXC;i++) K[zrow[i]][zrow[i]]=-1; k=LP; for(l=0;l<NSOC;l++){ e=zrow[k]+qdim_[l]; K[e][e]=-1; K[e+1][e+1]=1; k+=qdim_[l]; } for(i=M-3*NEXC;i<M;i++) K[zrow[i]][zrow[i]]=-1; }
  else {
#if PART==1
#define SC(n) (1.5)
#else
#define SC(n) rs_real(n)
#endif
  for(i=0;i<LP;i++){ w->C->lpc->v[i]=PART==2?rs_pos("v"):SC("v"); K[zrow[i]][zrow[i]]=-w->C->lpc->v[i]; }
  k=LP; for(l=0;l<NSOC;l++){ socone *s=&w->C->soc[l]; idxint z=zrow[k]; q=qdim_[l]; s->eta_square=SC("eta2"); s->d1=SC("d1"); s->u0=SC("u0"); s->u1=SC("u1"); s->v1=SC("v1"); for(i=0;i<q-1;i++) s->q[i]=SC("q");
    K[z][z]=-s->eta_square*s->d1; for(i=1;i<q;i++) K[z+i][z+i]=-s->eta_square;
    K[z+q][z+q]=-s->eta_square; K[z+q+1][z+q+1]=s->eta_square; for(i=1;i<q;i++){ K[z+i][z+q]=-s->eta_square*s->v1*s->q[i-1]; K[z+i][z+q+1]=-s->eta_square*s->u1*s->q[i-1]; } K[z][z+q+1]=-s->eta_square*s->u0; k+=q; }
  for(l=0;l<NEXC;l++){ idxint z=zrow[k]; double *v=w->C->expc[l].v; for(i=0;i<6;i++) v[i]=SC("H"); for(i=0,r=0;i<3;i++) for(j=0;j<=i;j++,r++) K[z+j][z+i]=-v[r]; k+=3; }
  kkt_update(w->KKT->PKPt,w->KKT->PK,w->C); }
  for(i=0;i<nK;i++){ B[i]=isu[i]?0.0:(PART==1?1.0+i:rs_real("b")); RHS[w->KKT->Pinv[i]]=B[i]; }
#if PART==2
  { double eps=EPS,delta=DELTA; idxint rc; 
    rc=KF(w->KKT,eps,delta); rs_assume(rc==KKT_OK); for(i=0;i<nK;i++) rs_assume(w->KKT->Sign[i]*w->KKT->D[i]>eps&&w->KKT->Sign[i]*w->KKT->D[i]!=delta); }
#endif
  nit=(PART==2)?0:rs_int(0,NIT,"limit"); ns=0;
  for(i=0;i<8;i++) dx[i]=dy[i]=77; for(i=0;i<MMAX;i++) dz[i]=77;
  r=kkt_solve(w->KKT,w->A,w->G,RHS,dx,dy,dz,NV,PEQ,M,w->C,isinit,nit);
  for(i=NV;i<8;i++) rs_assert(dx[i]==77,"nothing written behind the x part"); for(i=PEQ;i<8;i++) rs_assert(dy[i]==77,"nothing written behind the y part"); for(i=M;i<MMAX;i++) rs_assert(dz[i]==77,"nothing written behind the z part");
#if PART==2
  for(i=0;i<NV+PEQ;i++){ double t=B[i]; for(j=0;j<nK;j++){ double *p=v_of(j,dx,dy,dz); if(p) t-=(i<=j?K[i][j]:K[j][i])**p; } t-=(i<NV?1:-1)*DELTASTAT**v_of(i,dx,dy,dz); rs_assert_eq(t,0.0,"the returned direction solves the equality and dual rows"); }
  for(i=NV+PEQ;i<nK;i++) if(!NSOC||isinit){ double t=B[i]; double *p; if(isu[i]) continue; for(j=0;j<nK;j++){ p=v_of(j,dx,dy,dz); if(p) t-=(i<=j?K[i][j]:K[j][i])**p; } if(!isinit) t+=DELTASTAT**v_of(i,dx,dy,dz); rs_assert_eq(t,0.0,"the returned direction solves the conic rows"); }
  rs_reach("solved");
#else
  rs_assert(r>=0&&r<=nit,"corrections kept are within the refinement limit"); rs_assert(ns<=1+nit,"corrections made are within the refinement limit"); rs_assert(r==ns-1||r==ns-2,"at most the last correction is undone");
  for(i=0;i<nK;i++){ double *p=v_of(i,dx,dy,dz); if(p) rs_assert_eq(*p,xsum(i,r),"the result is the first solution plus the corrections kept, each component in its place"); }
#if PART==0
  for(k=1;k<ns;k++) for(i=0;i<nK;i++){ double d=E[k][i]-resid(i,k-1),t=DELTASTAT*xsum(i,k-1); if(isu[i]==0||!isinit||1) rs_assert((d==0)|(d==t)|(d==-t)|(d==2*t)|(d==-2*t),"a correction is computed from the residual of the unpermuted system, up to the static regularisation"); }
  rs_assert(r==nit,"refinement goes on while it pays"); rs_reach("refined");
#else
  { double R[6][KM]; for(k=0;k<ns;k++) for(i=0;i<nK;i++) R[k][i]=resid(i,k)+(i<NV?-1:1)*DELTASTAT*xsum(i,k);
    for(k=1;k<ns;k++){ int all=1; for(i=0;i<nK;i++){ int some=0; for(j=0;j<nK;j++){ double a=R[k][i],c=R[k-1][j]; some=some|(((a<=c)&(-a<=c))|((a<=-c)&(-a<=-c))); } all=all&some; }
      if(k<=r) rs_assert(all,"no kept correction increases the residual"); else rs_assert(!all,"a correction is only undone if it increases the residual"); }
    if(ns-2==r) rs_reach("undone"); else rs_reach("kept"); }
#endif
#endif
}
