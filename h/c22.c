/* C22: real ECOS_setup / ECOS_solve / ECOS_updateData / ecos_updateDataEntry_* / ECOS_cleanup and the branch-and-bound ones: every access stays in its block (checked by the engine),
 * nothing uninitialised is read, everything is freed once, the caller's arrays stay his. Caller's blocks have exactly the documented sizes.
 * PART 0: setup, updates, cleanup on symbolic data, forked patterns; 1: inconsistent dimensions; 2: duplicate entries; 3: branch-and-bound workspaces; 4: real solves on numbers (IEEE) */
#include "common.h"
#include "ecos_bb.h"
#include "splamm.h"
#if PART!=4
static double mx(double a){ double u=rs_uf1("mx",a); rs_assume(u>=1); return u; }
void max_rows(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[m->ir[k]]+=mx(m->pr[k]); }
void max_cols(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[j]+=mx(m->pr[k]); }
#endif
#ifndef CMAX
#define CMAX 1
#endif
#ifndef KEEP
#define KEEP rs_int(0,4,"keepvars")
#endif
static idxint M,gn,an; static idxint *Gj,*Gi,*Aj,*Ai,*Q;
typedef struct { double *G,*A,*c,*h,*b; } set_;
static set_ s0,s1,cp;
static int dup;
static double val(const char *nm,idxint k){
#if PART==4
  static const double t[]={1.25,-0.75,2,0.5,-1.5,3,0.0625,-2.25}; return t[(k*5+nm[0]+SEED)%8];
#else
  return rs_real(nm);
#endif
}
static void alloc(set_ *d){ d->G=malloc(gn*8); d->A=PEQ?malloc(an*8):0; d->c=malloc(NV*8); d->h=malloc(M*8); d->b=PEQ?malloc(PEQ*8):0; }
static void fill(set_ *d){ idxint i; for(i=0;i<gn;i++) d->G[i]=val("G",i); for(i=0;i<an;i++) d->A[i]=val("A",i); for(i=0;i<NV;i++) d->c[i]=val("c",i); for(i=0;i<M;i++) d->h[i]=val("h",i); for(i=0;i<PEQ;i++) d->b[i]=val("b",i); }
static void copy(set_ *d,const set_ *s){ idxint i; for(i=0;i<gn;i++) d->G[i]=s->G[i]; for(i=0;i<an;i++) d->A[i]=s->A[i]; for(i=0;i<NV;i++) d->c[i]=s->c[i]; for(i=0;i<M;i++) d->h[i]=s->h[i]; for(i=0;i<PEQ;i++) d->b[i]=s->b[i]; }
static void given(const set_ *d,const char *msg){ idxint k; for(k=0;k<gn;k++) rs_assert_eq(d->G[k],cp.G[k],msg); for(k=0;k<an;k++) rs_assert_eq(d->A[k],cp.A[k],msg); for(k=0;k<NV;k++) rs_assert_eq(d->c[k],cp.c[k],msg); for(k=0;k<M;k++) rs_assert_eq(d->h[k],cp.h[k],msg); for(k=0;k<PEQ;k++) rs_assert_eq(d->b[k],cp.b[k],msg); }
static void release(set_ *d){ free(d->G); free(d->A); free(d->c); free(d->h); free(d->b); }
static idxint pattern(idxint r,idxint *jc,idxint **ir,unsigned long mask,int forked,const char *nm){ idxint i,j,k=0,cnt[MMAX][8],t; for(j=0;j<NV;j++) for(i=0;i<r;i++){ cnt[i][j]=forked?rs_int(0,CMAX,nm):(idxint)((mask>>(i*NV+j))&1); k+=cnt[i][j]; if(cnt[i][j]>1) dup=1; }
  *ir=malloc(k*sizeof(idxint)); k=0; for(j=0;j<NV;j++){ jc[j]=k; for(i=0;i<r;i++) for(t=0;t<cnt[i][j];t++) (*ir)[k++]=i; } jc[NV]=k; return k; }
static void problem(void){ idxint i; M=M_(); dup=0; Q=NSOC?malloc(NSOC*sizeof(idxint)):0; for(i=0;i<NSOC;i++) Q[i]=qdim_[i];
  Gj=malloc((NV+1)*sizeof(idxint)); 
#ifdef GMASK
  gn=pattern(M,Gj,&Gi,GMASK,0,"Gpat");
#else
  gn=pattern(M,Gj,&Gi,0,1,"Gpat");
#endif
  Aj=Ai=0; an=0; if(PEQ){ Aj=malloc((NV+1)*sizeof(idxint));
#ifdef AMASK
  an=pattern(PEQ,Aj,&Ai,AMASK,0,"Apat");
#else
  an=pattern(PEQ,Aj,&Ai,0,1,"Apat");
#endif
  } alloc(&s0); fill(&s0); alloc(&cp); copy(&cp,&s0); }
static void done(void){ release(&s0); release(&cp); free(Gj); free(Gi); free(Aj); free(Ai); free(Q); }
#ifdef GNULL
#define GARG 0,0,0
#else
#define GARG s0.G,Gj,Gi
#endif
static pwork *setup(void){ return ECOS_setup(NV,M,PEQ,LP,NSOC,Q,NEXC,GARG,s0.A,Aj,Ai,s0.c,s0.h,s0.b); }
static const char *L="everything is freed exactly once, except the vectors to keep";
static const char *U="a rejected problem leaves the caller's data unchanged";
#if PART==1
void harness(void){ idxint i,l,n,e,m,z=0; long l0; pwork *w; problem(); for(i=0;i<NSOC;i++) Q[i]=rs_int(1,3,"q"); l=rs_int(0,LP+2,"l"); n=rs_int(0,NSOC,"ncones"); e=rs_int(0,NEXC+1,"nexc"); m=M; z=l+3*e; for(i=0;i<n;i++) z+=Q[i]; l0=rs_leaks();
  if(z==m) return; w=ECOS_setup(NV,m,PEQ,l,n,Q,e,s0.G,Gj,Gi,s0.A,Aj,Ai,s0.c,s0.h,s0.b); rs_assert(w==0,"inconsistent dimensions are rejected"); if(w) return; rs_assert(rs_leaks()==l0,"a rejected problem leaks nothing"); given(&s0,U); rs_reach("rejected"); done(); rs_assert(rs_leaks()==0,L); }
#elif PART==2
void harness(void){ long l0; pwork *w; problem(); l0=rs_leaks(); w=setup(); if(dup){ rs_assert(w==0,"duplicate entries are rejected"); if(w) return; rs_assert(rs_leaks()==l0,"a rejected problem leaks nothing"); given(&s0,U); rs_reach("rejected"); } else { rs_assert(w!=0,"well-formed problems are accepted"); if(!w) return; ECOS_cleanup(w,0); rs_assert(rs_leaks()==l0,L); given(&s0,"cleanup gives the caller's data back unscaled"); rs_reach("accepted"); } done(); rs_assert(rs_leaks()==0,L); }
#elif PART==3
static idxint bi[]={BCOL -1},ii[]={ICOL -1};
void harness(void){ idxint keep,bad,i; long l0; ecos_bb_pwork *P; settings_bb *st=0; idxint *B,*I; pfloat *x,*y,*s,*z; problem(); B=NB?malloc(NB*sizeof(idxint)):0; for(i=0;i<NB;i++) B[i]=bi[i]; I=NI?malloc(NI*sizeof(idxint)):0; for(i=0;i<NI;i++) I[i]=ii[i]; if(rs_int(0,1,"settings")){ st=get_default_ECOS_BB_settings(); st->maxit=rs_int(1,3,"maxit"); } bad=rs_int(0,1,"bad"); l0=rs_leaks();
  P=ECOS_BB_setup(NV,M,PEQ,LP+bad,NSOC,Q,NEXC,s0.G,Gj,Gi,s0.A,Aj,Ai,s0.c,s0.h,s0.b,NB,B,NI,I,st);
  if(bad||dup){ rs_assert(P==0,"rejected problems give a null workspace"); if(P) return; rs_assert(rs_leaks()==l0,"a rejected problem leaks nothing"); given(&s0,U); rs_reach("rejected"); }
  else { rs_assert(P!=0,"well-formed problems are accepted"); if(!P) return; for(i=0;i<M;i++) updateDataEntry_h(P,i,rs_real("hn")); for(i=0;i<NV;i++){ double v=rs_real("cn"); updateDataEntry_c(P,i,v); cp.c[i]=v; } keep=KEEP; x=P->ecos_prob->x; y=P->ecos_prob->y; s=P->ecos_prob->s; z=P->ecos_prob->z; for(i=0;i<NV;i++) x[i]=i; for(i=0;i<M+2*NB+2*NI;i++) s[i]=z[i]=i;
    ECOS_BB_cleanup(P,keep); rs_assert(rs_leaks()==l0+keep,L); given(&s0,"cleanup gives the caller's data back unscaled"); if(keep>0){ for(i=0;i<NV;i++) rs_assert(x[i]==i,"kept vectors survive"); free(x); } if(keep>1) free(y); if(keep>2){ for(i=0;i<M+2*NB+2*NI;i++) rs_assert(s[i]==i,"kept vectors survive"); free(s); } if(keep>3) free(z); rs_assert(rs_leaks()==l0,L); rs_reach("accepted"); }
  free(B); free(I); free(st); done(); rs_assert(rs_leaks()==0,L); }
#else
void harness(void){ idxint i,keep; long l0; pwork *w; pfloat *x,*y,*s,*z; double vx[NV],vz[MMAX]; problem(); alloc(&s1); fill(&s1); l0=rs_leaks(); w=setup(); rs_assert(w!=0,"well-formed problems are accepted"); if(!w) return; w->stgs->verbose=0; 
#if PART==4
  w->stgs->maxit=ITER; ECOS_solve(w); rs_reach("solved");
#endif
#ifndef GNULL
  { set_ t; alloc(&t); copy(&t,&s1); ECOS_updateData(w,s1.G,s1.A,s1.c,s1.h,s1.b);
#if PART!=4
  given(&s0,"data that are no longer in use are given back unscaled");
#else
  ECOS_solve(w); rs_reach("solved again");
#endif
  copy(&cp,&t); release(&t); } for(i=0;i<M;i++) ecos_updateDataEntry_h(w,i,cp.h[i]=val("h",i+1)); for(i=0;i<NV;i++) ecos_updateDataEntry_c(w,i,cp.c[i]=val("c",i+1));
#endif
  keep=KEEP; x=w->x; y=w->y; s=w->s; z=w->z; 
#if PART!=4
  for(i=0;i<NV;i++) x[i]=i; for(i=0;i<PEQ;i++) y[i]=i; for(i=0;i<M;i++) s[i]=z[i]=i;
#endif
  for(i=0;i<NV;i++) vx[i]=x[i]; for(i=0;i<M;i++) vz[i]=z[i];
  ECOS_cleanup(w,keep); rs_assert(rs_leaks()==l0+keep,L);
#if PART!=4
  given(
#ifdef GNULL
  &s0
#else
  &s1
#endif
  ,"cleanup gives the caller's data back unscaled");
#endif
  if(keep>0){ for(i=0;i<NV;i++) rs_assert_same(x[i],vx[i],"kept vectors survive"); free(x); } if(keep>1) free(y); if(keep>2) free(s); if(keep>3){ for(i=0;i<M;i++) rs_assert_same(z[i],vz[i],"kept vectors survive"); free(z); } rs_assert(rs_leaks()==l0,L); rs_reach("cleaned up");
  release(&s1); done(); rs_assert(rs_leaks()==0,L); }
#endif
