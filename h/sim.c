/* C01/C03/C04/C05: the real ECOS_solve (with the real checkExitConditions, compareStatistics, save/restoreBestIterate,
 * backscale, init and ctrlc.c) driven by arbitrary results of the numeric kernels.
 *   PROP   which property's assertions are compiled in (1,3,4,5)
 *   NEXC   0 or 1 exponential cone      PEQ  0 or 1 equality row     SMAX  largest iteration limit
 * Each iterate k carries labels in x,y,s,z and power-of-two tau/equilibration so that unscaling is exact. */
#include <stdlib.h>
#include <signal.h>
#include "ecos.h"
#include "ctrlc.h"
#include "timer.h"
#include "rs.h"
#ifndef SMAX
#define SMAX 2
#endif
#ifndef NEXC
#define NEXC 0
#endif
#ifndef PEQ
#define PEQ 1
#endif
#define MM (1+3*NEXC)
#define KMAX (SMAX+2)
static pwork W; static pwork *w=&W; static settings ST; static stats INFO, BEST; static cone CC; static lpcone LPC; static kkt KK; static spmat PK,GG,AA;
static double x[1],y[1],s[MM],z[MM],bx[1],by_[1],bs[MM],bz[MM],lam[MM],dsaff[MM],dzaff[MM],Wdz[MM],dsW[MM],saff[MM],zaff[MM],cc[1],bb[1],hh[MM],xe[1],Ae[1],Ge[MM],rx[1],ry[1],rz[MM],lw[1],lv[1];
static double R1[8],R2[8],dx1[1],dx2[1],dy1[1],dy2[1],dz1[MM],dz2[MM],wk1[8],wk2[8],wk3[8],wk4[8],wk5[8],wk6[8]; static long Pinv[8]={0,1,2,3,4,5,6,7},P_[8]={0,1,2,3,4,5,6,7},PK_[8];
#if NEXC
static expcone EX[1];
#endif
static long lk[1];
/* snapshots of the iterates */
static int nsnap, nstep, in_init, loopsolves, nback_calls;
static struct { double tau,kap,cx,by,hz; stats i; double step; int intr; } SN[KMAX];
static struct sigaction cur, old0; static int sig_calls; static int intr_sent, nosig; static int after_intr_steps, intr_seen_at=-1;
static void usr_handler(int a){ (void)a; }
#define XL(k) (3.0+16*(k))
#define YL(k) (5.0+16*(k))
#define SL(k,i) (7.0+16*(k)+i)
#define ZL(k,i) (11.0+16*(k)+i)
/* ------------------------------------------------ stand-ins for the kernels */
int sigaction(int sig, const struct sigaction *act, struct sigaction *oact){ sig_calls++; if(oact) *oact=cur; if(act) cur=*act; return 0; }
int sigemptyset(sigset_t *s_){ (void)s_; return 0; }
void tic(timer *t){ (void)t; }
pfloat toc(timer *t){ (void)t; return 0.25; }
static void maybe_signal(void){
#if PROP==5 || PROP==1 || PROP==3 || PROP==4
  if(!nosig && !intr_sent && rs_int(0,1,"sig")){ intr_sent=1; if(cur.sa_handler && cur.sa_handler!=usr_handler) cur.sa_handler(SIGINT); }
#endif
}
pfloat norm2(pfloat *v, idxint n){ (void)v; (void)n; return 1.0; }
void kkt_init(spmat *a, idxint *b, cone *c){ (void)a;(void)b;(void)c; in_init=1; }
void kkt_update(spmat *a, idxint *b, cone *c){ (void)a;(void)b;(void)c; }
idxint kkt_factor(kkt *k, pfloat eps, pfloat delta){ (void)k;(void)eps;(void)delta;
  if(nsnap>0){ nstep++; if(intr_seen_at>=0) after_intr_steps++; }
  return rs_int(0,1,"factor")? KKT_OK : KKT_PROBLEM; }
idxint kkt_solve(kkt *k, spmat *A, spmat *G, pfloat *Pb, pfloat *dx, pfloat *dy, pfloat *dz, idxint n, idxint p, idxint m, cone *C, idxint isinit, idxint nitref){
  idxint i; (void)k;(void)A;(void)G;(void)Pb;(void)C; for(i=0;i<n;i++) dx[i]=0; for(i=0;i<p;i++) dy[i]=0; for(i=0;i<m;i++) dz[i]=0; if(!isinit) loopsolves++;
#if PROP==5
  rs_assert(nitref<=w->stgs->nitref,"every linear solve is given the user's refinement limit");
#endif
  return nitref>0; }
void bring2cone(cone *C, pfloat *r, pfloat *s_){ idxint i; (void)C;(void)r; for(i=0;i<MM;i++) s_[i]=1; }
void computeResiduals(pwork *q){ idxint i; int k=nsnap;
  rs_assert(k<=SMAX,"no iterate is produced beyond the iteration limit"); rs_assume(k<=SMAX);
  if(k<KMAX){ q->x[0]=XL(k); if(PEQ) q->y[0]=YL(k); for(i=0;i<MM;i++){ q->s[i]=SL(k,i); q->z[i]=ZL(k,i); } 
  
#if PROP==1
  q->tau=rs_pos("tau");
#elif PROP==5
  q->tau=1;
#else
  q->tau=rs_int(0,1,"tau")?1.0:2.0;
#endif
  q->kap=rs_fin("kap"); q->cx=rs_real("cx"); q->by=PEQ?rs_real("by"):0; q->hz=rs_real("hz"); q->rt=0;
  SN[k].tau=q->tau; SN[k].kap=q->kap; SN[k].cx=q->cx; SN[k].by=q->by; SN[k].hz=q->hz; SN[k].step=q->info->step; SN[k].intr=intr_sent; } }
void updateStatistics(pwork *q){ stats *i=q->info; int k=nsnap;
  i->gap=rs_real("gap"); i->mu=rs_real("mu"); i->kapovert=rs_real("kot"); i->pcost=rs_real("pcost"); i->dcost=rs_real("dcost"); i->relgap=rs_real("relgap"); i->pres=rs_real("pres"); i->dres=rs_real("dres"); i->pinfres=rs_real("pinfres"); i->dinfres=rs_real("dinfres");
  rs_assume(!(i->pres<0) && !(i->dres<0) && !(i->pinfres<0) && !(i->dinfres<0)); /* norms (or undefined) */
  if(k<KMAX) SN[k].i=*i; nsnap++; maybe_signal(); }
idxint updateScalings(cone *C, pfloat *s_, pfloat *z_, pfloat *l, pfloat mu){ (void)C;(void)s_;(void)z_;(void)l;(void)mu; 
  if(SN[nsnap-1].intr || intr_sent) intr_seen_at=nsnap-1;
  return rs_int(0,1,"outcone")?OUTSIDE_CONE:INSIDE_CONE; }
void RHS_affine(pwork *q){ (void)q; }
void RHS_combined(pwork *q){ (void)q; }
void scale(pfloat *z_, cone *C, pfloat *l){ idxint i; (void)z_;(void)C; for(i=0;i<MM;i++) l[i]=0; }
void scaleToAddExpcone(pfloat *y_, pfloat *x_, expcone *e, idxint n, idxint fc){ (void)y_;(void)x_;(void)e;(void)n;(void)fc; }
pfloat eddot(idxint n, pfloat *a, pfloat *b){ (void)n;(void)a;(void)b; return 0.0; }
pfloat lineSearch(pfloat *l, pfloat *ds, pfloat *dz, pfloat tau, pfloat dtau, pfloat kap, pfloat dkap, cone *C, kkt *K){ (void)l;(void)ds;(void)dz;(void)tau;(void)dtau;(void)kap;(void)dkap;(void)C;(void)K; return rs_int(0,1,"ls")?0.5:STEPMIN; }
#if PROP==1 || PROP==5
void backscale(pwork *q){ (void)q; }
#endif
#if NEXC
pfloat expConeLineSearch(pwork *q, pfloat dtau, pfloat dk, idxint aff){ (void)dtau;(void)dk; q->info->pob=0;q->info->cb=0;q->info->cob=0;q->info->pb=0;q->info->db=0; if(rs_int(0,1,"xls")) return 0.5; (void)aff; return -1; }
#endif
/* ------------------------------------------------ oracle helpers */
static int tol_opt(stats *i,double f,double a,double r){ return i->pres<f && i->dres<f && (i->gap<a || i->relgap<r); }
static void setup(void){ idxint i;
  w->n=1; w->m=MM; w->p=PEQ; w->D=1; w->x=x;w->y=y;w->s=s;w->z=z;w->lambda=lam; w->best_x=bx;w->best_y=by_;w->best_s=bs;w->best_z=bz; w->best_info=&BEST; w->info=&INFO; w->stgs=&ST;
  w->dsaff=dsaff;w->dzaff=dzaff;w->W_times_dzaff=Wdz;w->dsaff_by_W=dsW;w->saff=saff;w->zaff=zaff; w->C=&CC; w->A=PEQ?&AA:(spmat*)0; w->G=&GG; w->c=cc;w->b=PEQ?bb:(double*)0;w->h=hh; w->xequil=xe;w->Aequil=Ae;w->Gequil=Ge; w->rx=rx;w->ry=ry;w->rz=rz; w->KKT=&KK;
  CC.lpc=&LPC; LPC.p=1; LPC.w=lw; LPC.v=lv; LPC.kkt_idx=lk; CC.nsoc=0; CC.nexc=NEXC; CC.fexv=1;
#if NEXC
  CC.expc=EX;
#endif
  KK.RHS1=R1;KK.RHS2=R2;KK.dx1=dx1;KK.dx2=dx2;KK.dy1=dy1;KK.dy2=dy2;KK.dz1=dz1;KK.dz2=dz2;KK.P=P_;KK.Pinv=Pinv;KK.PK=PK_;KK.work1=wk1;KK.work2=wk2;KK.work3=wk3;KK.work4=wk4;KK.work5=wk5;KK.work6=wk6;KK.PKPt=&PK; PK.n=1+PEQ+MM;
  /* arbitrary leftovers of an earlier solve */
  bx[0]=rs_real("bx"); by_[0]=rs_real("by"); for(i=0;i<MM;i++){ bs[i]=rs_real("bs"); bz[i]=rs_real("bz"); }
  w->best_kap=rs_real("bk"); w->best_tau=rs_int(0,1,"bt")?1.0:4.0; w->best_cx=rs_real("bcx"); w->best_by=rs_real("bby"); w->best_hz=rs_real("bhz");
  BEST.pcost=rs_real("b");BEST.dcost=rs_real("b");BEST.pres=rs_real("b");BEST.dres=rs_real("b");BEST.pinfres=rs_real("b");BEST.dinfres=rs_real("b");BEST.gap=rs_real("b");BEST.relgap=rs_real("b");BEST.mu=rs_real("b");BEST.kapovert=rs_real("b");BEST.iter=rs_int(0,5,"b");
  INFO.pinf=rs_int(0,1,"pinf"); INFO.dinf=rs_int(0,1,"dinf"); INFO.step=rs_int(0,1,"step")?STEPMIN*GAMMA:0.5; INFO.iter=rs_int(0,5,"it");
  INFO.tsolve=-1; INFO.tsetup=0;
  ST.feastol=rs_fin("feastol");ST.abstol=rs_fin("abstol");ST.reltol=rs_fin("reltol");ST.feastol_inacc=rs_fin("feastoli");ST.abstol_inacc=rs_fin("abstoli");ST.reltol_inacc=rs_fin("reltoli");
  rs_assume(ST.feastol<=ST.feastol_inacc && ST.abstol<=ST.abstol_inacc && ST.reltol<=ST.reltol_inacc);
  ST.maxit=SMAX; ST.nitref=9; ST.gamma=GAMMA; ST.delta=DELTA; ST.eps=EPS; ST.verbose=0; ST.max_bk_iter=MAX_BK; ST.bk_scale=BK_SCALE; ST.centrality=1;
#if PROP==1 || PROP==5
  xe[0]=Ae[0]=1; for(i=0;i<MM;i++) Ge[i]=1;
#else
  xe[0]=rs_int(0,1,"xe")?2.0:0.5; Ae[0]=rs_int(0,1,"Ae")?4.0:1.0; for(i=0;i<MM;i++) Ge[i]=i>1?Ge[1]:(rs_int(0,1,"Ge")?8.0:0.25);
#endif
  cc[0]=3.0; bb[0]=5.0; for(i=0;i<MM;i++) hh[i]=7.0+i;
  cur.sa_handler=usr_handler; cur.sa_flags=0; intr_sent=0; }
#define IDXB (idx)
void harness(void){ idxint i,ec; int k,best,last; setup();
#if PROP==5 && defined(TWICE)
  ec=ECOS_solve(w); nsnap=0;nstep=0;loopsolves=0;nosig=1;intr_sent=0; intr_seen_at=-1; after_intr_steps=0; /* a signal may have been delivered in the first solve; none in the second */
#endif
  ec=ECOS_solve(w);
  last=nsnap-1;
  rs_assert(ec==0||ec==1||ec==2||ec==10||ec==11||ec==12||ec==-1||ec==-2||ec==-3||ec==-4||ec==-7,"only documented exit codes are returned");
#if PROP==1
  if(ec==0) rs_assert(tol_opt(&INFO,ST.feastol,ST.abstol,ST.reltol),"optimal: reported residuals and gap meet the tolerances");
  if(ec==10) rs_assert(tol_opt(&INFO,ST.feastol_inacc,ST.abstol_inacc,ST.reltol_inacc),"close to optimal: reported residuals and gap meet the reduced tolerances");
  if(ec==1) rs_assert(INFO.pinfres<ST.feastol,"primal infeasible: the reported certificate residual meets the tolerance");
  if(ec==11) rs_assert(INFO.pinfres<ST.feastol_inacc,"close to primal infeasible: the reported certificate residual meets the reduced tolerance");
  if(ec==2) rs_assert(INFO.dinfres<ST.feastol,"dual infeasible: the reported certificate residual meets the tolerance");
  if(ec==12) rs_assert(INFO.dinfres<ST.feastol_inacc,"close to dual infeasible: the reported certificate residual meets the reduced tolerance");
  if(ec!=-7) rs_assert(INFO.pinf==(ec==1||ec==11) && INFO.dinf==(ec==2||ec==12),"the infeasibility flags match the status");
  if(ec==1||ec==11) rs_assert((w->tau<w->kap) || (w->tau<ST.feastol && w->kap<ST.feastol),"a certificate of primal infeasibility needs tau below kappa (or both vanishing)");
  if(ec==2||ec==12) rs_assert(w->tau<w->kap,"a certificate of unboundedness needs tau below kappa");
  if(ec==-1||ec==-2||ec==-3||ec==-4){
    rs_assert(!(w->cx<0 && tol_opt(&INFO,ST.feastol_inacc,ST.abstol_inacc,ST.reltol_inacc)),"failure status although the returned point is optimal to reduced accuracy");
    rs_assert(!(w->tau<w->kap && INFO.dinfres<ST.feastol_inacc),"failure status although the returned point is a reduced-accuracy certificate of unboundedness");
    rs_assert(!(w->tau<w->kap && INFO.pinfres<ST.feastol_inacc),"failure status although the returned point is a reduced-accuracy certificate of infeasibility"); }
  /* first iterate that meets the full tolerances ends the solve (unless the safeguard rejected that iterate) */
  for(k=0;k<KMAX;k++) if(k<last){
    rs_assert(!(SN[k].cx<0 && tol_opt(&SN[k].i,ST.feastol,ST.abstol,ST.reltol)),"the solve continued past an optimal iterate");
    rs_assert(!(SN[k].tau<SN[k].kap && SN[k].i.dinfres<ST.feastol),"the solve continued past an iterate that certifies unboundedness");
    rs_assert(!(SN[k].tau<SN[k].kap && SN[k].i.pinfres<ST.feastol),"the solve continued past an iterate that certifies infeasibility"); }
  for(k=0;k<KMAX;k++) if(k==last && ec<0 && ec!=-7 && !(k>0 && (SN[k].i.gap<0 || !(SN[k].i.pres<=SN[k?k-1:0].i.pres))))
    rs_assert(!(SN[k].cx<0 && tol_opt(&SN[k].i,ST.feastol,ST.abstol,ST.reltol)),"failure status although the last iterate is optimal");
  if(ec==-1) rs_assert(nsnap==ST.maxit+1,"iteration limit reported although it was not reached");
  if(ec==-4) rs_assert(intr_sent,"interruption reported without an interrupt");
  if(ec==0) rs_reach("optimal"); if(ec==1) rs_reach("pinf"); if(ec==2) rs_reach("dinf"); if(ec==10) rs_reach("close to optimal"); if(ec==11) rs_reach("close to pinf"); if(ec==12) rs_reach("close to dinf");
  if(ec==-1) rs_reach("maxit"); if(ec==-2) rs_reach("numerics"); if(ec==-3) rs_reach("outcone"); if(ec==-4) rs_reach("sigint"); if(ec==-7) rs_reach("fatal");
#endif
#if PROP==3
  if(ec!=-7 && last>=0 && last<KMAX){ int ok=0, which=-1, hit=0;
    best=0; 
    for(k=1;k<KMAX;k++) if(k<=last-1 || (k==last && ec==-3)){ if(compareStatistics(&SN[k].i,&SN[best].i)) best=k; }
    /* the last iterate is compared too when the solve ends before saving it; both outcomes are covered by "last or best" */
    for(k=0;k<KMAX;k++) if(k<=last){ int e=(w->x[0]==XL(k)/(SN[k].tau*xe[0])) && w->tau==SN[k].tau && w->kap==SN[k].kap;
      if(PEQ) e=e && w->y[0]==YL(k)/(SN[k].tau*Ae[0]);
      for(i=0;i<MM;i++) e=e && w->s[i]==SL(k,i)*Ge[i]/SN[k].tau && w->z[i]==ZL(k,i)/(Ge[i]*SN[k].tau);
      if(e){ hit++; which=k; ok=rs_same(INFO.pcost,SN[k].i.pcost)&&rs_same(INFO.dcost,SN[k].i.dcost)&&rs_same(INFO.pres,SN[k].i.pres)&&rs_same(INFO.dres,SN[k].i.dres)&&rs_same(INFO.pinfres,SN[k].i.pinfres)&&rs_same(INFO.dinfres,SN[k].i.dinfres)&&rs_same(INFO.gap,SN[k].i.gap)&&rs_same(INFO.relgap,SN[k].i.relgap)&&rs_same(INFO.mu,SN[k].i.mu)&&rs_same(INFO.kapovert,SN[k].i.kapovert)&&rs_same(w->cx,SN[k].cx)&&rs_same(w->by,SN[k].by)&&rs_same(w->hz,SN[k].hz); } }
    rs_assert(hit==1,"the returned point is one iterate of this solve (all of x,y,s,z,tau,kappa from the same one)");
    if(hit==1){ rs_assert(ok,"the reported statistics are those of the returned point");
      rs_assert(which==last || which==best || (which<last && compareStatistics(&SN[last].i,&SN[best].i)==0 && which==best) || (ec==-2 && compareStatistics(&SN[last].i,&SN[best].i) && which==last),"a fallback returns the best recorded iterate");
      if(which==last && last>0 && (ec==-1||ec==-4||ec==-3)) rs_assert(best==last || compareStatistics(&SN[last].i,&SN[best].i),"the best recorded iterate is returned when it is not worse than the last one");
      if(which<last) rs_reach("fallback to an earlier iterate"); if(which==last && last==SMAX) rs_reach("last iterate"); if(which>0 && which<last) rs_reach("fallback to a later best"); if(last==0) rs_reach("first iterate"); } }
  rs_reach("end");
#endif
#if PROP==4
  rs_assert_same(w->c[0],3.0,"the cost vector is back to the caller's");
  if(PEQ) rs_assert_same(w->b[0],5.0,"right-hand side b is unchanged");
  for(i=0;i<MM;i++) rs_assert_same(w->h[i],7.0+i,"right-hand side h is unchanged");
  rs_assert(cur.sa_handler==usr_handler,"the caller's interrupt handler is back in force");
  rs_assert_same(INFO.tsolve,0.25,"the solve time has been recorded");
  rs_assert(w->c==cc && w->h==hh && w->xequil==xe,"data pointers unchanged");
  if(last>=0 && last<KMAX && ec!=-7){ int e=0; for(k=0;k<KMAX;k++) if(k<=last) e=e||(w->x[0]*(SN[k].tau*xe[0])==XL(k) && (!PEQ || w->y[0]*(SN[k].tau*Ae[0])==YL(k)) && w->s[0]*SN[k].tau==SL(k,0)*Ge[0] && w->z[0]*(Ge[0]*SN[k].tau)==ZL(k,0) && w->s[MM-1]*SN[k].tau==SL(k,MM-1)*Ge[MM-1] && w->z[MM-1]*(Ge[MM-1]*SN[k].tau)==ZL(k,MM-1));
    if(ec==0) e=e && w->x[0]*(SN[last].tau*xe[0])==XL(last);
    rs_assert(e,"the returned point is expressed in the caller's variables"); }
  if(ec==0) rs_reach("optimal"); if(ec==-1) rs_reach("maxit"); if(ec==-2) rs_reach("numerics"); if(ec==-3) rs_reach("outcone"); if(ec==-4) rs_reach("sigint"); if(ec==-7&&nsnap==0) rs_reach("fatal in init"); if(ec==-7&&nsnap>0) rs_reach("fatal in loop");
#endif
#if PROP==5
  rs_assert(nstep<=ST.maxit,"at most maxit search directions are computed");
  rs_assert(loopsolves<=3*ST.maxit || 0,"at most three linear solves per iteration");
  rs_assert(ec==-7&&nsnap==0 || INFO.iter==nsnap-1,"the reported iteration count is the number of iterates produced");
  rs_assert(nsnap<=ST.maxit+1,"no iterate beyond the limit");
  rs_assert(after_intr_steps==0,"no step is taken once the interrupt has been delivered");
#ifdef TWICE
  rs_assert(ec!=-4,"an interrupt of an earlier solve does not affect this one");
#endif
  if(ec==-4) rs_assert(intr_sent,"interrupted status only after an interrupt");
  for(k=0;k<KMAX;k++) if(k==last && intr_sent && !(k>0 && (SN[k].i.gap<0 || !(SN[k].i.pres<=SN[k?k-1:0].i.pres) || SN[k].step<=STEPMIN || SN[k].step==-1)) && k<ST.maxit && nstep==k) rs_assert(ec==-4 || ec>=0,"an interrupted solve reports so, or a better status");
  if(ec==-4) rs_reach("sigint"); if(nstep==SMAX) rs_reach("limit"); 
#endif
}
