/* C24: two real ECOS_solve runs on one workspace, numbers in IEEE arithmetic, everything the first run leaves behind replaced by arbitrary values (symbolic reals, poisoned integers);
 * freshly allocated memory is arbitrary as well (the engine stops on any use of it). The second run must give the same numbers, none of them depending on the leftovers.
 * Equilibration factors are powers of two, so that scaling c and back is exact; c is put back besides (leaving it as it was is C04's business). */
#include "common.h"
#include "splamm.h"
#include "equil.h"
void max_rows(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[m->ir[k]]=16; }
void max_cols(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[j]=4; }
#ifndef AMASK
#define AMASK 0
#endif
#ifndef SEED
#define SEED 0
#endif
#ifndef SEQ
#define SEQ 0
#endif
static int seed=SEED;
static const double tab[]={1,-1,2,0.5,-1.5,3,-0.25,-2};
static double val(int a){ return tab[(a*5+seed*3)%8]; }
typedef struct { double x[NV],y[PEQ+1],z[MMAX],s[MMAX],kap,tau; stats i; idxint code; } res;
static pwork *w; static idxint M;
static void take(res *r,idxint code){ idxint i; for(i=0;i<NV;i++) r->x[i]=w->x[i]; for(i=0;i<PEQ;i++) r->y[i]=w->y[i]; for(i=0;i<M;i++){ r->z[i]=w->z[i]; r->s[i]=w->s[i]; } r->kap=w->kap; r->tau=w->tau; r->i=*w->info; r->code=code; }
static const char *D="the result of a solve does not depend on leftovers of an earlier one";
static void eq(double a,double b){ rs_assert(!rs_symbolic(a)&&!rs_symbolic(b)&&!rs_depends_uninit(a),D); rs_assert_same(a,b,D); }
static void same(const res *a,const res *b){ idxint i; rs_assert(a->code==b->code,D); for(i=0;i<NV;i++) eq(a->x[i],b->x[i]); for(i=0;i<PEQ;i++) eq(a->y[i],b->y[i]); for(i=0;i<M;i++){ eq(a->z[i],b->z[i]); eq(a->s[i],b->s[i]); } eq(a->kap,b->kap); eq(a->tau,b->tau);
  eq(a->i.pcost,b->i.pcost); eq(a->i.dcost,b->i.dcost); eq(a->i.pres,b->i.pres); eq(a->i.dres,b->i.dres); eq(a->i.gap,b->i.gap); eq(a->i.relgap,b->i.relgap); eq(a->i.mu,b->i.mu); eq(a->i.kapovert,b->i.kapovert); eq(a->i.pinf,b->i.pinf); eq(a->i.dinf,b->i.dinf); if(!isnan(a->i.pinfres)||!isnan(b->i.pinfres)) eq(a->i.pinfres,b->i.pinfres); if(!isnan(a->i.dinfres)||!isnan(b->i.dinfres)) eq(a->i.dinfres,b->i.dinfres); rs_assert(a->i.iter==b->i.iter,D);
  if(a->i.iter>0){ eq(a->i.sigma,b->i.sigma); eq(a->i.step,b->i.step); eq(a->i.step_aff,b->i.step_aff); rs_assert(a->i.nitref1==b->i.nitref1&&a->i.nitref2==b->i.nitref2&&a->i.nitref3==b->i.nitref3,D); } }
static void hv(double *p,idxint n){ if(p&&n>0) rs_havoc(p,n,"left"); }
static void hi(idxint *p,idxint n){ idxint i; for(i=0;i<n;i++) p[i]=-12345; }
static void hst(stats *t){ double *p=&t->pcost; hv(p,15); hi(&t->iter,4); t->tsolve=rs_real("left"); t->pob=t->cb=t->cob=-12345; }
static void havoc(void){ idxint i,k,nK=w->KKT->PKPt->n,l; kkt *K=w->KKT; char *mine;
  hv(w->x,NV); hv(w->y,PEQ); hv(w->z,M); hv(w->s,M); hv(w->lambda,M); hv(&w->kap,1); hv(&w->tau,1); hv(w->best_x,NV); hv(w->best_y,PEQ); hv(w->best_z,M); hv(w->best_s,M); hv(&w->best_kap,5); hst(w->best_info); hst(w->info);
  hv(w->dsaff,M); hv(w->dzaff,M); hv(w->W_times_dzaff,M); hv(w->dsaff_by_W,M); hv(w->saff,M); hv(w->zaff,M); hv(&w->resx0,3); hv(w->rx,NV); hv(w->ry,PEQ); hv(w->rz,M); hv(&w->rt,1); hv(&w->hresx,3); hv(&w->nx,4); hv(&w->cx,4);
  hv(K->L->pr,K->L->nnz); hi(K->L->ir,K->L->nnz); hv(K->D,nK); hv(K->work1,nK); hv(K->work2,nK); hv(K->work3,nK); hv(K->work4,nK); hv(K->work5,nK); hv(K->work6,nK); hv(K->RHS1,nK); hv(K->RHS2,nK); hv(K->dx1,NV); hv(K->dx2,NV); hv(K->dy1,PEQ); hv(K->dy2,PEQ); hv(K->dz1,M); hv(K->dz2,M); hi(K->Pattern,nK); hi(K->Flag,nK); hi(K->Lnz,nK); hv(&K->delta,1);
  /* the scaling entries of the KKT matrix: cone rows among themselves */
  for(k=0;k<nK;k++) for(i=K->PKPt->jc[k];i<K->PKPt->jc[k+1];i++){ idxint a=K->P[k],b=K->P[K->PKPt->ir[i]]; if(a>=NV+PEQ&&b>=NV+PEQ) hv(&K->PKPt->pr[i],1); }
  hv(w->C->lpc->w,LP); hv(w->C->lpc->v,LP); for(l=0;l<NSOC;l++){ socone *s=&w->C->soc[l]; hv(s->skbar,s->p); hv(s->zkbar,s->p); hv(s->q,s->p-1); hv(&s->a,5); hv(&s->u0,3); } for(l=0;l<NEXC;l++){ expcone *e=&w->C->expc[l]; hv(e->v,6); hv(e->g,3); } }
static double *Gv,*Av,*cv,*hv0,*bv;
static void problem(double *G,double *A,double *c,double *h,double *b){ idxint i,j,k=0; for(i=0;i<Gjc_[NV];i++) G[i]=val(i+1); for(i=0;i<(PEQ?Ajc_[NV]:0);i++) A[i]=val(i+4); for(i=0;i<NV;i++) c[i]=val(i+2); for(i=0;i<M;i++) h[i]=val(i*3+6); for(i=0;i<PEQ;i++) b[i]=val(i+7);
#ifdef BOXED
  /* a bounded feasible problem: slack interior at x=0 */
  k=LP; for(i=0;i<LP;i++) h[i]=1+fabs(h[i]); for(j=0;j<NSOC;j++){ h[k]=6; k+=qdim_[j]; } for(j=0;j<NEXC;j++){ h[k]=-1; h[k+1]=2; h[k+2]=1; k+=3; } for(i=0;i<PEQ;i++) b[i]=0;
#endif
}
void harness(void){ idxint i,j,k; res r1,r2; M=M_(); Gjc_=malloc((NV+1)*sizeof(idxint)); Gir_=malloc((M*NV+1)*sizeof(idxint)); k=0; for(j=0;j<NV;j++){ Gjc_[j]=k; for(i=0;i<M;i++) if((GMASK>>(i*NV+j))&1) Gir_[k++]=i; } Gjc_[NV]=k; Gv=malloc((k+1)*8);
  Ajc_=Air_=0; Av=0; bv=0; if(PEQ){ Ajc_=malloc((NV+1)*sizeof(idxint)); Air_=malloc((PEQ*NV+1)*sizeof(idxint)); k=0; for(j=0;j<NV;j++){ Ajc_[j]=k; for(i=0;i<PEQ;i++) if((AMASK>>(i*NV+j))&1) Air_[k++]=i; } Ajc_[NV]=k; Av=malloc((k+1)*8); bv=malloc(PEQ*8); }
  cv=malloc(NV*8); hv0=malloc((M+1)*8); problem(Gv,Av,cv,hv0,bv);
  w=ECOS_setup(NV,M,PEQ,LP,NSOC,NSOC?qdim_:0,NEXC,Gv,Gjc_,Gir_,Av,Ajc_,Air_,cv,hv0,bv); if(!w) return; w->stgs->verbose=0; w->stgs->maxit=ITER;
  take(&r1,ECOS_solve(w)); rs_reach(r1.code==ECOS_OPTIMAL?"optimal":r1.code==ECOS_PINF?"infeasible":r1.code==ECOS_DINF?"unbounded":r1.code==ECOS_MAXIT?"limit":r1.code==ECOS_NUMERICS?"numerics":r1.code==ECOS_OUTCONE?"outcone":"inaccurate");
  rs_assert(!rs_depends_uninit(r1.x[0]),"nothing depends on uninitialised memory");
#if SEQ==1
  { static double G2[64],A2[64],c2[8],h2[MMAX],b2[8]; static double G3[64],A3[64],c3[8],h3[MMAX],b3[8]; seed=SEED+1; problem(G2,A2,c2,h2,b2); seed=SEED; problem(G3,A3,c3,h3,b3); ECOS_updateData(w,G2,PEQ?A2:0,c2,h2,PEQ?b2:0); w->stgs->maxit=3; ECOS_solve(w); w->stgs->maxit=ITER; havoc(); ECOS_updateData(w,G3,PEQ?A3:0,c3,h3,PEQ?b3:0); }
#else
  havoc(); { static double g0[64],a0[64],c0[8],h0[MMAX],b0[8]; problem(g0,a0,c0,h0,b0); for(i=0;i<NV;i++) w->c[i]=c0[i]; }
#endif
  take(&r2,ECOS_solve(w)); same(&r1,&r2); rs_reach("repeated"); ECOS_cleanup(w,0); }
