/* C17: ECOS_updateData, ecos_updateDataEntry_h/_c leave exactly the workspace a fresh setup with the new data makes. Norms: see c16.c.
 * SEQ 0: new arrays, then back to the first ones; 1: in place; 2: single entries; 3: new arrays, entries, in place, old ones; ADJ: the two sets of arrays lie back to back */
#include "common.h"
#include "equil.h"
#include "splamm.h"
static double mx(double a){ double u=rs_uf1("mx",a); rs_assume(u>=1); return u; }
void max_rows(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[m->ir[k]]+=mx(m->pr[k]); }
void max_cols(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[j]+=mx(m->pr[k]); }
idxint init(pwork *w){ idxint i; for(i=0;i<NV;i++) w->x[i]=1; for(i=0;i<PEQ;i++) w->y[i]=1; for(i=0;i<M_();i++){ w->z[i]=1; w->s[i]=1; } w->tau=2; w->kap=1; return 0; }
void computeResiduals(pwork *w){ }
void updateStatistics(pwork *w){ }
idxint checkExitConditions(pwork *w, idxint mode){ return ECOS_OPTIMAL; }
static idxint gn,an,M; static const idxint BIG=64;
typedef struct { double *G,*A,*c,*h,*b; } set_;
static set_ raw[2], arr[2];      /* original values; the caller's arrays */
static void copy(set_ *d,const set_ *s){ idxint i; for(i=0;i<gn;i++) d->G[i]=s->G[i]; for(i=0;i<an;i++) d->A[i]=s->A[i]; for(i=0;i<NV;i++) d->c[i]=s->c[i]; for(i=0;i<M;i++) d->h[i]=s->h[i]; for(i=0;i<PEQ;i++) d->b[i]=s->b[i]; }
static void alloc(set_ *d){ d->G=malloc((gn+1)*8); d->A=PEQ?malloc((an+1)*8):0; d->c=malloc((NV+1)*8); d->h=malloc((M+1)*8); d->b=PEQ?malloc((PEQ+1)*8):0; }
static void sym(set_ *d){ symvec(d->G,gn,"G"); symvec(d->A,an,"A"); symvec(d->c,NV,"c"); symvec(d->h,M,"h"); symvec(d->b,PEQ,"b"); }
static pwork *setup(set_ *d){ return ECOS_setup(NV,M,PEQ,LP,NSOC,NSOC?(idxint*)qdim_:(idxint*)0,NEXC,d->G,Gjc_,Gir_,d->A,Ajc_,Air_,d->c,d->h,d->b); }
static void same(pwork *w,const set_ *data,const char *msg){ set_ f; pwork *v; idxint i; alloc(&f); copy(&f,data); v=setup(&f); 
  for(i=0;i<gn;i++) rs_assert_eq(w->G->pr[i],v->G->pr[i],msg); for(i=0;i<an;i++) rs_assert_eq(w->A->pr[i],v->A->pr[i],msg); for(i=0;i<NV;i++){ rs_assert_eq(w->c[i],v->c[i],msg); rs_assert_eq(w->xequil[i],v->xequil[i],msg); } for(i=0;i<M;i++){ rs_assert_eq(w->h[i],v->h[i],msg); rs_assert_eq(w->Gequil[i],v->Gequil[i],msg); } for(i=0;i<PEQ;i++){ rs_assert_eq(w->b[i],v->b[i],msg); rs_assert_eq(w->Aequil[i],v->Aequil[i],msg); }
  rs_assert(w->KKT->PKPt->nnz==v->KKT->PKPt->nnz,msg); for(i=0;i<w->KKT->PKPt->nnz;i++){ rs_assert(w->KKT->PKPt->ir[i]==v->KKT->PKPt->ir[i],msg); rs_assert_eq(w->KKT->PKPt->pr[i],v->KKT->PKPt->pr[i],"the KKT entries are those of a fresh setup"); }
  ECOS_cleanup(v,0); }
static void given(int i,const char *msg){ idxint k; for(k=0;k<gn;k++) rs_assert_eq(arr[i].G[k],raw[i].G[k],msg); for(k=0;k<an;k++) rs_assert_eq(arr[i].A[k],raw[i].A[k],msg); for(k=0;k<NV;k++) rs_assert_eq(arr[i].c[k],raw[i].c[k],msg); for(k=0;k<M;k++) rs_assert_eq(arr[i].h[k],raw[i].h[k],msg); for(k=0;k<PEQ;k++) rs_assert_eq(arr[i].b[k],raw[i].b[k],msg); }
static void solve(pwork *w){ w->stgs->verbose=0; ECOS_solve(w); }
static void upd(pwork *w,set_ *d){ ECOS_updateData(w,d->G,d->A,d->c,d->h,d->b); }
void harness(void){ idxint i,j,k; pwork *w; M=M_();
  Gjc_=malloc((NV+1)*sizeof(idxint)); Gir_=malloc((M*NV+1)*sizeof(idxint)); k=0; for(j=0;j<NV;j++){ Gjc_[j]=k; for(i=0;i<M;i++)
#ifdef GMASK
   if((GMASK>>(i*NV+j))&1)
#else
   if(rs_int(0,1,"Gpat"))
#endif
     Gir_[k++]=i; } Gjc_[NV]=gn=k;
  Ajc_=Air_=0; an=0; if(PEQ){ Ajc_=malloc((NV+1)*sizeof(idxint)); Air_=malloc((PEQ*NV+1)*sizeof(idxint)); k=0; for(j=0;j<NV;j++){ Ajc_[j]=k; for(i=0;i<PEQ;i++)
#ifdef AMASK
   if((AMASK>>(i*NV+j))&1)
#else
   if(rs_int(0,1,"Apat"))
#endif
     Air_[k++]=i; } Ajc_[NV]=an=k; }
  for(i=0;i<2;i++){ alloc(&raw[i]); sym(&raw[i]); }
#if ADJ
  { double *G=malloc((2*gn+1)*8),*A=malloc((2*an+1)*8),*c=malloc((2*NV+1)*8),*h=malloc((2*M+1)*8),*b=malloc((2*PEQ+1)*8); int f=ADJ==2; for(i=0;i<2;i++,f=!f){ arr[i].G=G+f*gn; arr[i].A=PEQ?A+f*an:0; arr[i].c=c+f*NV; arr[i].h=h+f*M; arr[i].b=PEQ?b+f*PEQ:0; } }
#else
  alloc(&arr[0]); alloc(&arr[1]);
#endif
  copy(&arr[0],&raw[0]); copy(&arr[1],&raw[1]);
  w=setup(&arr[0]); if(!w) return; same(w,&raw[0],"setup depends on the data only");
#if SEQ==0
  upd(w,&arr[1]); same(w,&raw[1],"after an update with new arrays the workspace is that of a fresh setup"); given(0,"the arrays supplied before are given back unscaled"); rs_reach("updated");
#ifdef SOLVE
  solve(w);
#endif
  upd(w,&arr[0]); same(w,&raw[0],"after switching back the workspace is that of a fresh setup"); given(1,"the arrays supplied before are given back unscaled"); rs_reach("back");
#elif SEQ==1
  copy(&arr[0],&raw[1]); upd(w,&arr[0]); same(w,&raw[1],"after an update in place the workspace is that of a fresh setup"); rs_reach("in place"); copy(&raw[0],&raw[1]);
#elif SEQ==2
  i=rs_int(0,M-1,"i"); j=rs_int(0,NV-1,"j"); raw[0].h[i]=rs_real("hnew"); ecos_updateDataEntry_h(w,i,raw[0].h[i]); same(w,&raw[0],"after updating an entry of h the workspace is that of a fresh setup"); raw[0].c[j]=rs_real("cnew"); ecos_updateDataEntry_c(w,j,raw[0].c[j]); same(w,&raw[0],"after updating an entry of c the workspace is that of a fresh setup"); rs_reach("entries");
#ifdef SOLVE
  solve(w); same(w,&raw[0],"a solve leaves the problem data as they were"); i=rs_int(0,M-1,"i"); raw[0].h[i]=rs_real("hnew"); ecos_updateDataEntry_h(w,i,raw[0].h[i]); same(w,&raw[0],"after updating an entry of h the workspace is that of a fresh setup");
#endif
#else
  upd(w,&arr[1]); raw[1].h[0]=rs_real("hnew"); ecos_updateDataEntry_h(w,0,raw[1].h[0]); same(w,&raw[1],"after an update and a single entry the workspace is that of a fresh setup"); 
  sym(&raw[1]); copy(&arr[1],&raw[1]); upd(w,&arr[1]); same(w,&raw[1],"after an update in place the workspace is that of a fresh setup"); upd(w,&arr[0]); same(w,&raw[0],"after switching back the workspace is that of a fresh setup"); given(1,"the arrays supplied before are given back unscaled"); rs_reach("sequence");
#endif
  ECOS_cleanup(w,0); given(0,"cleanup gives the current arrays back unscaled"); }
