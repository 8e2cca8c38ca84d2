/* C16: equilibration. PART 0: real ECOS_setup, set_/unset_equilibration, ECOS_cleanup with every norm arbitrary (a positive, deterministic
 * function of the entries); PART 2: the real norms too, small; PART 3: real ECOS_solve scaling of c and backscale. */
#include "common.h"
#include "equil.h"
#include "splamm.h"

#if PART==0 || PART==3
static double mx(double a){ double u=rs_uf1("mx",a); rs_assume(u>=1); return u; }
void max_rows(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[m->ir[k]]+=mx(m->pr[k]); }
void max_cols(pfloat *E, const spmat *m){ idxint j,k; for(j=0;j<m->n;j++) for(k=m->jc[j];k<m->jc[j+1];k++) E[j]+=mx(m->pr[k]); }
#endif
#if PART==3
static pwork *W; static double X[8],Y[8],Z[MMAX],SS[MMAX],TAU,C0[8];

idxint init(pwork *w){ idxint j; for(j=0;j<NV;j++) rs_assert_eq(w->c[j]*w->xequil[j],C0[j],"the cost vector is divided by the column factors while solving");
  for(j=0;j<NV;j++) w->x[j]=X[j]=rs_real("x"); for(j=0;j<PEQ;j++) w->y[j]=Y[j]=rs_real("y"); for(j=0;j<M_();j++){ w->z[j]=Z[j]=rs_real("z"); w->s[j]=SS[j]=rs_real("s"); } w->tau=TAU=rs_pos("tau"); w->kap=1; return 0; }
void computeResiduals(pwork *w){ }
void updateStatistics(pwork *w){ }
idxint checkExitConditions(pwork *w, idxint mode){ return ECOS_OPTIMAL; }
#endif
static double G0[64],A0[64],c0[8],h0[MMAX],b0[8]; static idxint gj[9],gi[64],aj[9],ai[64];
void harness(void){ idxint i,j,k,l,M=M_(),gn,an=0; pwork *w; idxint pat[MMAX][8];
  for(i=0;i<M;i++) for(j=0;j<NV;j++) pat[i][j]=
#ifdef GMASK
   (GMASK>>(i*NV+j))&1;
#else
   rs_int(0,1,"Gpat");
#endif
  Gjc_=malloc((NV+1)*sizeof(idxint)); Gir_=malloc((M*NV+1)*sizeof(idxint)); Gpr_=malloc((M*NV+1)*8); k=0; for(j=0;j<NV;j++){ Gjc_[j]=k; for(i=0;i<M;i++){ Gd[i][j]=0; if(pat[i][j]){ Gir_[k]=i; Gpr_[k]=Gd[i][j]=rs_real("G"); k++; } } } Gjc_[NV]=gn=k;
  Ajc_=Air_=0; Apr_=0; if(PEQ){ Ajc_=malloc((NV+1)*sizeof(idxint)); Air_=malloc((PEQ*NV+1)*sizeof(idxint)); Apr_=malloc((PEQ*NV+1)*8); k=0; for(j=0;j<NV;j++){ Ajc_[j]=k; for(i=0;i<PEQ;i++){ Ad[i][j]=0; 
#ifdef AMASK
   if((AMASK>>(i*NV+j))&1)
#else
   if(rs_int(0,1,"Apat"))
#endif
   { Air_[k]=i; Apr_[k]=Ad[i][j]=rs_real("A"); k++; } } } Ajc_[NV]=an=k; }
  c_=malloc((NV+1)*8); h_=malloc((M+1)*8); b_=malloc((PEQ+1)*8); symvec(c_,NV,"c"); symvec(h_,M,"h"); symvec(b_,PEQ,"b"); c_[NV]=h_[M]=b_[PEQ]=7;
#ifdef NONNEG
  for(k=0;k<gn;k++) rs_assume(Gpr_[k]>=0); for(k=0;k<an;k++) rs_assume(Apr_[k]>=0);
#endif
  for(k=0;k<gn;k++){ G0[k]=Gpr_[k]; gi[k]=Gir_[k]; } for(j=0;j<=NV;j++) gj[j]=Gjc_[j]; for(k=0;k<an;k++){ A0[k]=Apr_[k]; ai[k]=Air_[k]; } if(PEQ) for(j=0;j<=NV;j++) aj[j]=Ajc_[j];
  for(j=0;j<NV;j++) c0[j]=c_[j]; for(i=0;i<M;i++) h0[i]=h_[i]; for(i=0;i<PEQ;i++) b0[i]=b_[i];
  w=mksetup(); if(!w) return;
  for(j=0;j<NV;j++) rs_assert(w->xequil[j]>0,"column factors are positive"); for(i=0;i<M;i++) rs_assert(w->Gequil[i]>0,"row factors of G are positive"); for(i=0;i<PEQ;i++) rs_assert(w->Aequil[i]>0,"row factors of A are positive");
  for(j=0;j<NV;j++) for(k=gj[j];k<gj[j+1];k++) rs_assert_eq(w->G->pr[k]*(w->Gequil[gi[k]]*w->xequil[j]),G0[k],"G is divided by its row and column factors");
  for(j=0;j<NV;j++) for(k=PEQ?aj[j]:0;k<(PEQ?aj[j+1]:0);k++) rs_assert_eq(w->A->pr[k]*(w->Aequil[ai[k]]*w->xequil[j]),A0[k],"A is divided by its row and column factors");
  for(i=0;i<M;i++) rs_assert_eq(w->h[i]*w->Gequil[i],h0[i],"h is divided by the row factors"); for(i=0;i<PEQ;i++) rs_assert_eq(w->b[i]*w->Aequil[i],b0[i],"b is divided by the row factors"); for(j=0;j<NV;j++) rs_assert_eq(w->c[j],c0[j],"the cost vector is not touched at setup");
  k=LP; for(l=0;l<NSOC;l++){ for(i=1;i<qdim_[l];i++) rs_assert_eq(w->Gequil[k+i],w->Gequil[k],"one factor for all rows of a second-order cone"); k+=qdim_[l]; } for(l=0;l<NEXC;l++){ for(i=1;i<3;i++) rs_assert_eq(w->Gequil[k+i],w->Gequil[k],"one factor for all rows of an exponential cone"); k+=3; }
  for(j=0;j<=NV;j++) rs_assert(w->G->jc[j]==gj[j],"pattern of G untouched"); for(k=0;k<gn;k++) rs_assert(w->G->ir[k]==gi[k],"pattern of G untouched"); if(PEQ){ for(j=0;j<=NV;j++) rs_assert(w->A->jc[j]==aj[j],"pattern of A untouched"); for(k=0;k<an;k++) rs_assert(w->A->ir[k]==ai[k],"pattern of A untouched"); }
  rs_reach("equilibrated");
#if PART==3
  { double r,q; idxint kk; for(j=0;j<NV;j++) C0[j]=c0[j]; w->stgs->verbose=0; k=ECOS_solve(w); rs_assert(k==ECOS_OPTIMAL,"solve ends with the status found");
    for(j=0;j<NV;j++) rs_assert_eq(w->c[j],c0[j],"the cost vector is restored after the solve");
    for(i=0;i<M;i++){ r=w->s[i]-h0[i]; q=SS[i]-TAU*w->h[i]; for(j=0;j<NV;j++) for(kk=gj[j];kk<gj[j+1];kk++) if(gi[kk]==i){ r+=G0[kk]*w->x[j]; q+=w->G->pr[kk]*X[j]; } rs_assert_eq(r*TAU,q*w->Gequil[i],"the unscaled point satisfies the caller's conic constraints as the scaled one does the scaled"); }
    for(i=0;i<PEQ;i++){ r=-b0[i]; q=-TAU*w->b[i]; for(j=0;j<NV;j++) for(kk=aj[j];kk<aj[j+1];kk++) if(ai[kk]==i){ r+=A0[kk]*w->x[j]; q+=w->A->pr[kk]*X[j]; } rs_assert_eq(r*TAU,q*w->Aequil[i],"the unscaled point satisfies the caller's equalities as the scaled one does the scaled"); }
    for(j=0;j<NV;j++){ r=c0[j]; q=TAU*c0[j]/w->xequil[j]; for(kk=gj[j];kk<gj[j+1];kk++){ r+=G0[kk]*w->z[gi[kk]]; q+=w->G->pr[kk]*Z[gi[kk]]; } if(PEQ) for(kk=aj[j];kk<aj[j+1];kk++){ r+=A0[kk]*w->y[ai[kk]]; q+=w->A->pr[kk]*Y[ai[kk]]; } rs_assert_eq(r*TAU,q*w->xequil[j],"the unscaled multipliers satisfy the caller's dual constraints as the scaled ones do the scaled"); }
    r=q=0; for(j=0;j<NV;j++){ r+=c0[j]*w->x[j]; q+=c0[j]/w->xequil[j]*X[j]; } rs_assert_eq(r*TAU,q,"same primal objective");
    r=q=0; for(i=0;i<M;i++){ r+=h0[i]*w->z[i]; q+=w->h[i]*Z[i]; } for(i=0;i<PEQ;i++){ r+=b0[i]*w->y[i]; q+=w->b[i]*Y[i]; } rs_assert_eq(r*TAU,q,"same dual objective");
    for(i=0;i<M;i++) rs_assert_eq(w->s[i]*w->z[i]*TAU*TAU,SS[i]*Z[i],"same complementarity products");
    k=LP; for(l=0;l<NSOC;l++){ for(i=1;i<qdim_[l];i++){ rs_assert_eq(w->s[k+i]*SS[k],w->s[k]*SS[k+i],"slack of a second-order cone scaled by one factor"); rs_assert_eq(w->z[k+i]*Z[k],w->z[k]*Z[k+i],"multiplier of a second-order cone scaled by one factor"); } k+=qdim_[l]; } for(l=0;l<NEXC;l++){ for(i=1;i<3;i++){ rs_assert_eq(w->s[k+i]*SS[k],w->s[k]*SS[k+i],"slack of an exponential cone scaled by one factor"); rs_assert_eq(w->z[k+i]*Z[k],w->z[k]*Z[k+i],"multiplier of an exponential cone scaled by one factor"); } k+=3; }
    rs_reach("unscaled"); }
#endif
  ECOS_cleanup(w,0);
  for(k=0;k<gn;k++) rs_assert_eq(Gpr_[k],G0[k],"cleanup gives back G unscaled"); for(k=0;k<an;k++) rs_assert_eq(Apr_[k],A0[k],"cleanup gives back A unscaled"); for(i=0;i<M;i++) rs_assert_eq(h_[i],h0[i],"cleanup gives back h unscaled"); for(i=0;i<PEQ;i++) rs_assert_eq(b_[i],b0[i],"cleanup gives back b unscaled"); for(j=0;j<NV;j++) rs_assert_eq(c_[j],c0[j],"cleanup leaves c");
  for(j=0;j<=NV;j++) rs_assert(Gjc_[j]==gj[j],"pattern of G untouched"); for(k=0;k<gn;k++) rs_assert(Gir_[k]==gi[k],"pattern of G untouched"); rs_assert(c_[NV]==7&&h_[M]==7&&b_[PEQ]==7,"nothing is written behind the vectors");
  rs_reach("undone"); }
