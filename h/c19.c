/* C19-C21: the real branch and bound (ecos_bb.c, ecos_bb_preproc.c, ECOS_setup) on top of an honest relaxation oracle in place of ECOS_solve.
 * NB booleans in columns BCOL, NI integers in columns ICOL, objective value in column TCOL (c picks it), integers range over ILO..IHI.
 * The oracle answers any box with: infeasible (no grid point in it is feasible), an integral point (feasible, its objective), or a fractional point
 * with any objective that bounds every grid point of the box from below and is not below the bound of a larger box. */
#include <stdlib.h>
#include <math.h>
#include "ecos_bb.h"
#include "rs.h"
#ifdef MEMONLY /* C22: memory only, what branch and bound answers is C19-C21's business */
#define MEM_ASSERT(c,m) (rs_assert)(c,m)
#define rs_assert(c,m) ((void)0)
#define rs_assert_eq(a,b,m) ((void)0)
#define rs_assert_same(a,b,m) ((void)0)
#else
#define MEM_ASSERT rs_assert
#endif
#ifndef NB
#define NB 1
#endif
#ifndef NI
#define NI 1
#endif
#define NQ (NB+NI)
#define NVAR (NQ+1)
#ifndef ILO
#define ILO 0
#endif
#ifndef IHI
#define IHI 2
#endif
#ifndef UROW
#define UROW 2
#endif
#ifndef STAT
#define STAT 0
#endif
#define MAXC 64
#ifndef ONEPT
#define ONEPT 0
#endif
#ifndef REP
#define REP 1
#endif
#define TOL 1e-4
#define BIGB 8388608
static idxint bcol[]={BCOL -1}, icol[]={ICOL -1};
static idxint Gjc[NVAR+1],Gir[NVAR*UROW+1]; static double Gpr[NVAR*UROW+1],cc[NVAR],hh[UROW]; static double Gden[UROW][NVAR],hnow[UROW],horig[UROW],cnow[NVAR];
static int col(int v){ return v<NB?bcol[v]:icol[v-NB]; }
static int lo(int v){ return v<NB?0:ILO; } static int hi(int v){ return v<NB?1:IHI; }
#ifdef SYMD
#define SAME(a,b) ((a)==(b))
#define EQA(a,b,m) rs_assert_eq(a,b,m)
#else
#define SAME(a,b) (fabs((a)-(b))<=1e-9*(1+fabs(b)))
#define EQA(a,b,m) rs_assert(SAME(a,b),m)
#endif
#ifndef EQ
/* one norm per row and column: no equilibration */
void max_rows(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[m->ir[k]]=1; }
void max_cols(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[j]=1; }
#endif
#ifdef SYMD
#define DATA(v) rs_real("data")
#else
#define DATA(v) (v)
#endif
static int rsel=-1,rstep;
int rand(void){
  if(rsel<0) rsel=rs_int(0,NQ-1,"random");
#ifdef RNDSTRAT
  return (int)(rsel+rstep++);
#else
  return rsel==0?0:(rsel==1?RAND_MAX/2+1:RAND_MAX);
#endif
}
#define G_ 81
static int state[G_];            /* 0 unknown, 1 feasible, 2 infeasible */
static double f[G_];
static int ngrid;
static void pt(int g,int *x){ int v; for(v=0;v<NQ;v++){ int r=hi(v)-lo(v)+1; x[v]=lo(v)+g%r; g/=r; } }
static int idx(const int *x){ int v,g=0; for(v=NQ-1;v>=0;v--) g=g*(hi(v)-lo(v)+1)+(x[v]-lo(v)); return g; }
static struct { int lb[NQ],ub[NQ],kind; double x[NQ],t; int g; idxint code; int lab; } C[MAXC];
#ifndef FMAX
#define FMAX 99
#endif
static int nfrac=0,scall=0,unb=0; static int ncall=0,nans=0; static int lastans=-1;
static pwork *W; static idxint nrow;
static int inbox(int g,const int *lb,const int *ub){ int x[NQ],v; pt(g,x); for(v=0;v<NQ;v++) if(x[v]<lb[v]||x[v]>ub[v]) return 0; return 1; }
static int sub(int a,const int *lb,const int *ub){ int v; for(v=0;v<NQ;v++) if(C[a].lb[v]>lb[v]||C[a].ub[v]<ub[v]) return 0; return 1; }   /* box a contains (lb,ub) */
static int sup(int a,const int *lb,const int *ub){ int v; for(v=0;v<NQ;v++) if(lb[v]>C[a].lb[v]||ub[v]<C[a].ub[v]) return 0; return 1; }
static int empty(const int *lb,const int *ub){ int v; for(v=0;v<NQ;v++) if(lb[v]>ub[v]) return 1; return 0; }
/* read the box out of the problem handed to the solver; everything else must be the user's problem */
static void readbox(pwork *w,int *lb,int *ub){ idxint i,j,k,v,cnt; double D[2*NQ+UROW][NVAR],H[2*NQ+UROW]; static const char *M="the relaxation is the user's problem plus bounds on exactly the named variables";
  rs_assert(w->n==NVAR&&w->m==2*NQ+UROW&&w->p==0&&w->C->lpc->p==2*NQ+UROW,M);
  for(i=0;i<2*NQ+UROW;i++) for(j=0;j<NVAR;j++) D[i][j]=0; for(j=0;j<NVAR;j++) for(k=w->G->jc[j];k<w->G->jc[j+1];k++) D[w->G->ir[k]][j]=w->G->pr[k]*w->Gequil[w->G->ir[k]]*w->xequil[j];
  for(i=0;i<2*NQ+UROW;i++) H[i]=w->h[i]*w->Gequil[i];
  for(i=0;i<UROW;i++){ for(j=0;j<NVAR;j++) EQA(D[2*NQ+i][j],Gden[i][j],M); EQA(H[2*NQ+i],hnow[i],M); } for(j=0;j<NVAR;j++) EQA(w->c[j],cnow[j],M);
  for(v=0;v<NQ;v++){ int L=0,U=0; for(i=0;i<2*NQ;i++){ double a=D[i][col(v)]; if(SAME(a,-1)){ L++; lb[v]=(int)floor(0.5-H[i]); if(!SAME(H[i],-(double)lb[v])) rs_assert(0,M); } else if(SAME(a,1)){ U++; ub[v]=(int)floor(H[i]+0.5); if(!SAME(H[i],(double)ub[v])) rs_assert(0,M); } else if(!SAME(a,0)) rs_assert(0,M); } rs_assert(L==1&&U==1,M); }
  for(i=0;i<2*NQ;i++){ cnt=0; for(j=0;j<NVAR;j++) cnt+=!SAME(D[i][j],0); rs_assert(cnt==1,M); } }
#ifndef FRAC
#define FRAC 0
#endif
#if FRAC
static const double FR[4]={0.3125,0.75,0.625,0.125}; static double frac(int v){ return FR[(v+ncall+FRAC-1)%4]; }
#else
static double frac(int v){ double p=rs_real("frac"); rs_assume(p>TOL); rs_assume(p<1-TOL); return p; }
#endif
static void answer(pwork *w,int a){ int v; for(v=0;v<NQ;v++) w->x[col(v)]=C[a].x[v]; w->x[TCOL]=C[a].t; }
idxint ECOS_solve(pwork *w){ int lb[NQ],ub[NQ],lb0[NQ],ub0[NQ],v,a,g,any,k; idxint i; static const char *B="every relaxation solved carries the bounds of its node only, each on its own variable";
  W=w; readbox(w,lb0,ub0); rs_assert(ncall<MAXC,"the search ends"); if(ncall>=MAXC) rs_end(); ncall++; scall++;
  for(v=0;v<NQ;v++){ lb[v]=lb0[v]<lo(v)?lo(v):lb0[v]; ub[v]=ub0[v]>hi(v)?hi(v):ub0[v]; if(v<NB) rs_assert(lb0[v]>=0&&ub0[v]<=1,B); }
  if(scall==1) for(v=0;v<NQ;v++) rs_assert(v<NB?(lb0[v]==0&&ub0[v]==1):(lb0[v]==-BIGB&&ub0[v]==BIGB),"the first relaxation has no bounds beyond those of the integer variables");
#ifdef CHKBOX
  else { int ok=0,r=1; /* a known box; the rounded last answer; or one bound of an earlier fractional answer's box tightened to the integer next to its solution */
    for(a=0;a<nans;a++){ int same=1,d=0,dv; for(v=0;v<NQ;v++){ if(lb[v]!=C[a].lb[v]||ub[v]!=C[a].ub[v]){ same=0; d++; } } if(same) ok=1;
      else if(C[a].kind==2&&(d==1||STRAT==1||STRAT==3)){ int w=1; for(dv=0;dv<NQ;dv++){ double x=C[a].x[dv]; if(lb[dv]!=C[a].lb[dv]&&!(x<lb[dv]&&x>lb[dv]-1)) w=0; if(ub[dv]!=C[a].ub[dv]&&!(x>ub[dv]&&x<ub[dv]+1)) w=0; } if(w) ok=1; } }
    for(a=0,r=0;a<nans&&!r;a++) if(a==lastans||STRAT==1||STRAT==3){ r=1; for(v=0;v<NQ&&r;v++) if(C[a].kind!=2||lb[v]!=ub[v]||!(C[a].x[v]>=lb[v]-0.5&&C[a].x[v]<=lb[v]+0.5)) r=0; }
    rs_assert(ok||r,B); }
#endif
#ifdef UNB
  if(scall==1&&ncall==1&&rs_int(0,1,"unbounded")){ for(v=0;v<NQ;v++) w->x[col(v)]=0.5; w->x[TCOL]=-9; unb=1; return ECOS_DINF+(rs_int(0,1,"inacc")?ECOS_INACC_OFFSET:0); }
#endif
  rs_assert(!unb,"'unbounded' ends the search");
  i=0; for(a=0;a<nans;a++){ int same=1; for(v=0;v<NQ;v++) if(C[a].lb[v]!=lb[v]||C[a].ub[v]!=ub[v]) same=0; if(same){ i=1; break; } }
  if(!i){ if(nans>=MAXC) rs_end(); a=nans++; any=0; for(v=0;v<NQ;v++){ C[a].lb[v]=lb[v]; C[a].ub[v]=ub[v]; } C[a].lab=ncall;
    { int cand[G_+2],nc=0,fix=1,fe=0,forb=0; if(!empty(lb,ub)){ for(g=0;g<ngrid;g++) if(inbox(g,lb,ub)){ if(state[g]==1) fe=1; if(state[g]!=2) cand[nc++]=g; } }
      for(v=0;v<NQ;v++) if(lb[v]<ub[v]) fix=0;
      for(k=0;k<a;k++){ if(C[k].kind==0&&sub(k,lb,ub)) forb=1; if(C[k].kind!=0&&sup(k,lb,ub)) fe=1; }
      if(empty(lb,ub)||forb) C[a].kind=0;
      else { /* kinds: 0 infeasible, 1 integral, 2 fractional */
        int can0=!fe,can1=nc>0,can2=!fix&&nfrac<FMAX; int opt[3],no=0; if(can2) opt[no++]=2; if(can1) opt[no++]=1; if(can0) opt[no++]=0; if(!no) rs_end();
        C[a].kind=opt[rs_int(0,no-1,"answer")]; }
      if(C[a].kind==0){ C[a].t=7; for(v=0;v<NQ;v++) C[a].x[v]=lo(v)+0.5; if(!empty(lb,ub)) for(g=0;g<ngrid;g++) if(inbox(g,lb,ub)) state[g]=2; }
      else { if(C[a].kind==1){ int x[NQ]; g=cand[ONEPT?(ncall*7)%nc:rs_int(0,nc-1,"point")]; state[g]=1; C[a].g=g; pt(g,x); for(v=0;v<NQ;v++) C[a].x[v]=x[v]; C[a].t=f[g]; }
        else { int nf=0; for(v=0;v<NQ;v++){ int r=rs_int(0,2*(ub[v]-lb[v]),"where"); if(r%2){ C[a].x[v]=lb[v]+(r-1)/2+frac(v); nf++; } else C[a].x[v]=lb[v]+r/2; } if(!nf) rs_end(); nfrac++; C[a].t=rs_real("t"); }
        for(g=0;g<ngrid;g++) if(state[g]!=2&&inbox(g,lb,ub)&&!(C[a].kind==1&&g==C[a].g)) rs_assume(C[a].t<=f[g]);
        for(k=0;k<a;k++) if(C[k].kind!=0){ if(sub(k,lb,ub)) rs_assume(C[k].t<=C[a].t); if(sup(k,lb,ub)) rs_assume(C[a].t<=C[k].t); } }
#if STAT
      C[a].code=(C[a].kind==0?ECOS_PINF:ECOS_OPTIMAL)+(rs_int(0,1,"inacc")?ECOS_INACC_OFFSET:0);
#else
      C[a].code=C[a].kind==0?ECOS_PINF:ECOS_OPTIMAL;
#endif
    } }
  lastans=a; answer(w,a); for(i=0;i<w->m;i++){ w->z[i]=a; w->s[i]=a; } w->kap=a; w->tau=a; w->info->pcost=C[a].t; w->info->iter=a; 
  return C[a].code; }
static void finish(ecos_bb_pwork *P,idxint rc,idxint maxit){ int g,k; if(unb){ rs_reach("unbounded"); rs_assert(rc==(maxit>1?MI_UNBOUNDED:MI_MAXITER_UNBOUNDED),"an unbounded relaxation is reported as unbounded"); unb=0; return; }
  double U=P->global_U,L=P->global_L; int have=0; static const char *F="the point returned with a solution status is one that was found";
  for(k=0;k<nans;k++) if(C[k].kind==1) have=1;
  if(rc==MI_OPTIMAL_SOLN||rc==MI_MAXITER_FEASIBLE_SOLN){ int x[NQ],v,ok=0; rs_reach(rc==MI_OPTIMAL_SOLN?"optimal":"limit with solution");
    for(k=0;k<nans;k++) if(C[k].kind==1&&P->kap==k){ ok=1; rs_assert_same(U,C[k].t,F); for(v=0;v<NQ;v++){ rs_assert_same(P->x[col(v)],C[k].x[v],F); rs_assert_same(P->ecos_prob->x[col(v)],C[k].x[v],F); } rs_assert_same(P->x[TCOL],C[k].t,F); rs_assert_same(P->ecos_prob->x[TCOL],C[k].t,F);
      rs_assert(P->info->iter==k&&P->ecos_prob->info->iter==k&&P->tau==k&&P->ecos_prob->kap==k&&P->ecos_prob->tau==k,F); rs_assert_same(P->info->pcost,C[k].t,F); for(v=0;v<2*NQ+UROW;v++) rs_assert(P->z[v]==k&&P->s[v]==k&&P->ecos_prob->z[v]==k&&P->ecos_prob->s[v]==k,F); }
    rs_assert(ok,F);
    for(k=0;k<nans;k++) if(STRAT!=1&&STRAT!=3&&C[k].kind==1&&C[k].code==ECOS_OPTIMAL) rs_assert(U<=C[k].t,"the point returned is the best of those found"); }
  if(rc==MI_OPTIMAL_SOLN) for(g=0;g<ngrid;g++) if(state[g]!=2){ int close=(U-L<=P->stgs->abs_tol_gap)|(((U-L)<=P->stgs->rel_tol_gap*L)&(L>0))|(((U-L)<=-P->stgs->rel_tol_gap*L)&(L<0)); rs_assert((f[g]>=U)|((f[g]>=L)&close),"'optimal' is within the gap tolerances of the best integer-feasible objective"); }
  if(rc==MI_INFEASIBLE){ rs_reach("infeasible"); for(g=0;g<ngrid;g++) rs_assert(state[g]==2,"'infeasible' only when no integer point is feasible"); }
  if(rc==MI_MAXITER_NO_SOLN){ rs_reach("limit without solution"); rs_assert(STRAT==1||STRAT==3?isinf(U)!=0:!have,"'maximum nodes' without solution only if no integral point was found"); }
  rs_assert(rc==MI_OPTIMAL_SOLN||rc==MI_INFEASIBLE||rc==MI_MAXITER_NO_SOLN||rc==MI_MAXITER_FEASIBLE_SOLN,"the status is one of the documented ones and no relaxation was unbounded");
  rs_assert(P->iter+1<=maxit,"at most the permitted number of nodes is explored");
  if(P->iter<maxit-1) rs_assert(rc==MI_OPTIMAL_SOLN||rc==MI_INFEASIBLE,"below the node limit the search ends with a verdict"); else rs_assert(rc==MI_MAXITER_NO_SOLN||rc==MI_MAXITER_FEASIBLE_SOLN,"at the node limit the status says so"); }
void harness(void){ idxint i,j,k=0,rc,maxit; int g; ecos_bb_pwork *P; settings_bb st,*sp;
  ngrid=1; for(i=0;i<NQ;i++) ngrid*=hi(i)-lo(i)+1;
  for(j=0;j<NVAR;j++){ Gjc[j]=k; for(i=0;i<UROW;i++) if((i+j)%2==0||j==TCOL){ Gir[k]=i; Gden[i][j]=Gpr[k]=DATA(1+i*NVAR+j); k++; } } Gjc[NVAR]=k; for(i=0;i<UROW;i++) hh[i]=hnow[i]=horig[i]=DATA(100+i); for(j=0;j<NVAR;j++) cc[j]=cnow[j]=(j==TCOL);
  for(g=0;g<ngrid;g++){ state[g]=0; f[g]=rs_real("f"); 
#ifdef FPOS
   rs_assume(f[g]>FPOS);
#endif
  }
#ifdef NULLSTG
  sp=0; maxit=MI_MAXITER;
#else
  sp=get_default_ECOS_BB_settings(); st=*sp; free(sp); sp=&st; st.verbose=0; st.branching_strategy=STRAT; st.reliable_eta=ETA;
#ifdef SEL
  st.node_selection_method=SEL;
#else
  st.node_selection_method=rs_int(0,2,"selection");
#endif
#ifdef MAXN
  st.maxit=maxit=rs_int(1,MAXN,"maxit");
#else
  st.maxit=maxit=30;
#endif
#ifdef NOREL
  st.rel_tol_gap=0;
#endif
#endif
  P=ECOS_BB_setup(NVAR,UROW,0,UROW,0,0,0,Gpr,Gjc,Gir,0,0,0,cc,hh,0,NB,NB?bcol:0,NI,NI?icol:0,sp);
#ifdef NULLSTG
  P->stgs->verbose=0;
#endif
#ifdef UPD
  { static const char *M="single-entry updates change exactly the user's entry"; pwork *w=P->ecos_prob; double u=DATA(50); i=rs_int(0,UROW-1,"row"); hnow[i]=u; updateDataEntry_h(P,i,u); EQA(P->h[i]*w->Gequil[2*NQ+i],u,M);
    u=DATA(3); j=rs_int(0,NVAR-1,"col"); updateDataEntry_c(P,j,u); for(k=0;k<NVAR;k++) EQA(P->c[k],k==j?u:cnow[k],M); updateDataEntry_c(P,j,cnow[j]); }
#endif
  for(i=0;i<REP;i++){ scall=0; rc=ECOS_BB_solve(P); rs_assert(scall>0,"a solve looks at the problem"); finish(P,rc,maxit); if(P->iter>0) rs_reach("branched"); if(i) rs_reach("solved again"); }
  { static const char *M="the caller's arrays are not modified"; idxint k2=0; for(j=0;j<NVAR;j++){ rs_assert(Gjc[j]==k2,M); for(i=0;i<UROW;i++) if((i+j)%2==0||j==TCOL){ rs_assert(Gir[k2]==i,M); EQA(Gpr[k2],Gden[i][j],M); k2++; } } rs_assert(Gjc[NVAR]==k2,M); for(i=0;i<UROW;i++) EQA(hh[i],horig[i],M); { static const idxint b0[]={BCOL -1},i0[]={ICOL -1}; for(i=0;i<=NB;i++) rs_assert(bcol[i]==b0[i],M); for(i=0;i<=NI;i++) rs_assert(icol[i]==i0[i],M); } }
  ECOS_BB_cleanup(P,0);
  MEM_ASSERT(rs_leaks()==0,"everything is freed exactly once");
}
