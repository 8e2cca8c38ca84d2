/* C02: real computeResiduals + updateStatistics against the documented measures */
#include "common.h"
void computeResiduals(pwork *w); void updateStatistics(pwork *w);
static double nrm(const double *v,idxint n){ double s=0; idxint i; if(n==0) return 0; for(i=0;i<n;i++) s+=v[i]*v[i]; return sqrt(s); }
static double mx(double a,double b){ return a<b?b:a; }
static spmat *mat(idxint m,idxint n,idxint *jc,idxint *ir,double *pr){ spmat *M=malloc(sizeof(spmat)); M->m=m; M->n=n; M->jc=jc; M->ir=ir; M->pr=pr; M->nnz=jc[n]; return M; }
void harness(void){ idxint i,j,M=M_(); pwork *w=calloc(1,sizeof(pwork)); double ax[8],aty[8],gx[MMAX],t[MMAX];
#ifndef SYM
#define SYM 1
#endif
  mkdata(SYM); w->n=NV; w->m=M; w->p=PEQ; w->D=LP+NSOC+3*NEXC; w->C=mkcone(); w->stgs=calloc(1,sizeof(settings)); w->info=calloc(1,sizeof(stats)); w->KKT=calloc(1,sizeof(kkt));
  w->G=mat(M,NV,Gjc_,Gir_,Gpr_); w->A=PEQ?mat(PEQ,NV,Ajc_,Air_,Apr_):0; w->c=c_; w->h=h_; w->b=b_;
  w->x=malloc(NV*8); w->y=PEQ?malloc(PEQ*8):0; w->s=malloc(M*8); w->z=malloc(M*8); w->rx=malloc(NV*8); w->ry=PEQ?malloc(PEQ*8):0; w->rz=malloc(M*8);
#ifdef CITER  /* numbers for iterate and matrices, data vectors symbolic; norms of the iterate are integers */
  { static const double X[4]={3,4,12,0},Y[4]={-2,0,0,0},S[8]={4,4,2,0,0,0,0,0},Z[8]={1,2,-2,0,0,0,0,0}; for(j=0;j<NV;j++) w->x[j]=X[j]; for(i=0;i<PEQ;i++) w->y[i]=Y[i]; for(i=0;i<M;i++){ w->s[i]=S[i]; w->z[i]=Z[i]; } symvec(c_,NV,"c"); symvec(h_,M,"h"); if(PEQ) symvec(b_,PEQ,"b"); }
#else
  symvec(w->x,NV,"x"); if(PEQ) symvec(w->y,PEQ,"y"); symvec(w->s,M,"s"); symvec(w->z,M,"z");
#endif
  w->tau=rs_pos("tau"); w->kap=rs_pos("kap");
  w->resx0=rs_pos("resx0"); w->resy0=rs_pos("resy0"); w->resz0=rs_pos("resz0"); w->stgs->reltol=rs_pos("reltol");
#ifdef BIGN   /* norms of the data at least one, as the solver sets them: fewer case splits */
  rs_assume(w->resx0>=1); rs_assume(w->resy0>=1); rs_assume(w->resz0>=1);
#endif
  double tau=w->tau,kap=w->kap,*x=w->x,*y=w->y,*s=w->s,*z=w->z;
  computeResiduals(w); updateStatistics(w);
  stats *I=w->info; double cx=0,by=0,hz=0,gap=0;
  for(j=0;j<NV;j++) cx+=c_[j]*x[j]; for(i=0;i<PEQ;i++) by+=b_[i]*y[i]; for(i=0;i<M;i++){ hz+=h_[i]*z[i]; gap+=s[i]*z[i]; }
  rs_assert_eq(I->gap,gap,"gap = s'z"); rs_assert_eq(I->mu,(gap+kap*tau)/(w->D+1),"mu = (s'z + kappa tau)/(D+1)"); rs_assert_eq(I->kapovert,kap/tau,"kappa/tau");
  rs_assert_eq(I->pcost,cx/tau,"primal objective c'x/tau"); rs_assert_eq(I->dcost,-(by+hz)/tau,"dual objective -(b'y+h'z)/tau");
#if CHK & 1
  if(cx/tau<0) rs_assert_eq(I->relgap,gap/(-(cx/tau)),"relative gap (negative primal objective)"); else if(-(hz+by)/tau>0) rs_assert_eq(I->relgap,gap/(-(hz+by)/tau),"relative gap (positive dual objective)"); else rs_assert(rs_is_nan(I->relgap),"undefined relative gap is NaN");
#endif
  for(j=0;j<NV;j++){ aty[j]=0; for(i=0;i<PEQ;i++) aty[j]+=Ad[i][j]*y[i]; for(i=0;i<M;i++) aty[j]+=Gd[i][j]*z[i]; }
  for(i=0;i<PEQ;i++){ ax[i]=0; for(j=0;j<NV;j++) ax[i]+=Ad[i][j]*x[j]; }
  for(i=0;i<M;i++){ gx[i]=s[i]; for(j=0;j<NV;j++) gx[i]+=Gd[i][j]*x[j]; }
  double nx=nrm(x,NV),ny=PEQ?nrm(y,PEQ):0,ns=nrm(s,M),nz=nrm(z,M),py,pz,px;
#if CHK & 2
  for(i=0;i<PEQ;i++) t[i]=ax[i]-b_[i]*tau; py=PEQ?nrm(t,PEQ)/mx(w->resy0+nx,1):0;
  for(i=0;i<M;i++) t[i]=gx[i]-h_[i]*tau; pz=nrm(t,M)/mx(w->resz0+nx+ns,1);
  rs_assert_eq(I->pres,mx(py,pz)/tau,"primal residual");
  for(j=0;j<NV;j++) t[j]=aty[j]+c_[j]*tau; px=nrm(t,NV)/mx(w->resx0+ny+nz,1); rs_assert_eq(I->dres,px/tau,"dual residual");
#endif
#if CHK & 4
  double nyz=mx(ny+nz,1);
  if((hz+by)/nyz < -w->stgs->reltol){ rs_assert_eq(I->pinfres,nrm(aty,NV)/nyz,"primal infeasibility measure"); rs_reach("pinf"); } else rs_assert(rs_is_nan(I->pinfres),"undefined primal infeasibility measure is NaN");
#endif
#if CHK & 8
  double mxx=mx(nx,1);
  if(cx/mxx < -w->stgs->reltol){ rs_assert_eq(I->dinfres,mx((PEQ?nrm(ax,PEQ):0)/mxx,nrm(gx,M)/mx(nx+ns,1)),"dual infeasibility measure"); rs_reach("dinf"); } else rs_assert(rs_is_nan(I->dinfres),"undefined dual infeasibility measure is NaN");
#endif
  /* the residuals the steps are built from */
  for(j=0;j<NV;j++) rs_assert_eq(w->rx[j],-aty[j]-c_[j]*tau,"rx = -A'y - G'z - c tau"); for(i=0;i<PEQ;i++) rs_assert_eq(w->ry[i],ax[i]-b_[i]*tau,"ry = Ax - b tau"); for(i=0;i<M;i++) rs_assert_eq(w->rz[i],gx[i]-h_[i]*tau,"rz = s + Gx - h tau");
  rs_assert_eq(w->rt,kap+cx+by+hz,"rt = kappa + c'x + b'y + h'z");
  rs_reach("measured"); }
