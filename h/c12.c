/* C12: real ECOS_setup (createKKT_U, transposition, AMD, permutation) and kkt_init / kkt_update; every sparsity pattern of
 * the listed dimensions, symbolic data and scalings. Equilibration is replaced by the identity (it is C16's subject). */
#include "common.h"
#include "equil.h"
#include "splamm.h"
void kkt_init(spmat* PKP, idxint* P, cone *C); void kkt_update(spmat* PKP, idxint* P, cone *C);
void set_equilibration(pwork *w){ idxint i; for(i=0;i<w->n;i++) w->xequil[i]=1; for(i=0;i<w->p;i++) w->Aequil[i]=1; for(i=0;i<w->m;i++) w->Gequil[i]=1; }
void unset_equilibration(pwork *w){ }
#define KM 24
static double K[KM][KM], B0[400]; static idxint nK, zrow[MMAX];
static pwork *w;
static int nent; static double get(idxint i,idxint j){ idxint a=w->KKT->Pinv[i],b=w->KKT->Pinv[j],lo=a<b?a:b,hi=a<b?b:a,k; double v=0; spmat *S=w->KKT->PKPt; nent=0; for(k=S->jc[hi];k<S->jc[hi+1];k++) if(S->ir[k]==lo){ v+=S->pr[k]; nent++; } return v; }
static void compare(const char *msg,const char *msg0){ idxint i,j; for(i=0;i<nK;i++) for(j=i;j<nK;j++){ double v=get(i,j); rs_assert(nent<=1,"no entry is stored twice"); if(nent==0) rs_assert_eq(0.0,K[i][j],msg0); else rs_assert_eq(v,K[i][j],msg); } }
void harness(void){ idxint i,j,k,l,M=M_(),r,e; spmat *S; idxint pat[MMAX][8], pa[8][8];
  for(i=0;i<M;i++) for(j=0;j<NV;j++) pat[i][j]=
#ifdef GMASK
   (GMASK>>(i*NV+j))&1;
#else
   rs_int(0,1,"Gpat");
#endif
  for(i=0;i<PEQ;i++) for(j=0;j<NV;j++) pa[i][j]=
#ifdef AMASK
   (AMASK>>(i*NV+j))&1;
#else
   rs_int(0,1,"Apat");
#endif
#undef GPAT
#undef APAT
  Gjc_=malloc((NV+1)*sizeof(idxint)); Gir_=malloc((M*NV+1)*sizeof(idxint)); Gpr_=malloc((M*NV+1)*8); k=0; for(j=0;j<NV;j++){ Gjc_[j]=k; for(i=0;i<M;i++) if(pat[i][j]){ Gir_[k]=i; Gpos[i][j]=k; Gpr_[k]=rs_real("G"); Gd[i][j]=Gpr_[k]; k++; } else { Gd[i][j]=0; Gpos[i][j]=-1; } } Gjc_[NV]=k;
  Ajc_=Air_=0; Apr_=0; if(PEQ){ Ajc_=malloc((NV+1)*sizeof(idxint)); Air_=malloc((PEQ*NV+1)*sizeof(idxint)); Apr_=malloc((PEQ*NV+1)*8); k=0; for(j=0;j<NV;j++){ Ajc_[j]=k; for(i=0;i<PEQ;i++) if(pa[i][j]){ Air_[k]=i; Apos[i][j]=k; Apr_[k]=rs_real("A"); Ad[i][j]=Apr_[k]; k++; } else { Ad[i][j]=0; Apos[i][j]=-1; } } Ajc_[NV]=k; }
  c_=calloc(NV,8); h_=calloc(M+1,8); b_=PEQ?calloc(PEQ,8):0;
  w=mksetup(); rs_assert(w!=0,"setup accepts every sparsity pattern"); if(!w) return;
  S=w->KKT->PKPt; nK=NV+PEQ+M+2*NSOC;
  rs_assert(S->n==nK&&S->m==nK,"size of the KKT matrix"); if(S->n!=nK) return;
  { idxint seen[KM]; for(i=0;i<nK;i++) seen[i]=0; for(i=0;i<nK;i++){ rs_assert(w->KKT->Pinv[i]>=0&&w->KKT->Pinv[i]<nK,"the ordering is a permutation"); seen[w->KKT->Pinv[i]]++; } for(i=0;i<nK;i++) rs_assert(seen[i]==1,"the ordering is a permutation"); }
  rs_assert(S->jc[0]==0&&S->jc[nK]==S->nnz,"column pointers cover all entries"); for(j=0;j<nK;j++){ rs_assert(S->jc[j]<=S->jc[j+1],"column pointers do not decrease"); for(k=S->jc[j];k<S->jc[j+1];k++) rs_assert(S->ir[k]>=0&&S->ir[k]<=j,"upper triangular"); }
  /* positions of the cone rows in the expanded matrix */
  e=NV+PEQ; k=0; for(i=0;i<LP;i++) zrow[k++]=e++; for(l=0;l<NSOC;l++){ for(i=0;i<qdim_[l];i++) zrow[k++]=e++; e+=2; } for(i=0;i<3*NEXC;i++) zrow[k++]=e++;
  for(i=0;i<nK;i++) for(j=0;j<nK;j++) K[i][j]=0;
  for(i=0;i<NV;i++) K[i][i]=DELTASTAT; for(i=0;i<PEQ;i++){ K[NV+i][NV+i]=-DELTASTAT; for(j=0;j<NV;j++) K[j][NV+i]=Ad[i][j]; }
  for(i=0;i<M;i++) for(j=0;j<NV;j++) K[j][zrow[i]]=Gd[i][j];
  for(i=0;i<M;i++) K[zrow[i]][zrow[i]]=-1;
  k=LP; for(l=0;l<NSOC;l++){ e=zrow[k]+qdim_[l]; K[e][e]=-1; K[e+1][e+1]=1; k+=qdim_[l]; }
  compare("the KKT matrix after setup is the documented one","no entry of the KKT matrix is missing after setup");
  for(i=0;i<nK;i++){ idxint sg=i<NV?1:-1; k=LP; for(l=0;l<NSOC;l++){ if(i==zrow[k]+qdim_[l]+1) sg=1; k+=qdim_[l]; } rs_assert(w->KKT->Sign[w->KKT->Pinv[i]]==sg,"prescribed pivot sign"); }
  for(i=0;i<M;i++) for(j=0;j<NV;j++) if(Gpos[i][j]>=0){ idxint q=w->KKT->PK[w->GtoK[Gpos[i][j]]],a=w->KKT->Pinv[j],b=w->KKT->Pinv[zrow[i]],lo=a<b?a:b,hi=a<b?b:a; rs_assert(q>=S->jc[hi]&&q<S->jc[hi+1],"recorded position of a G entry"); if(!(q>=0&&q<S->nnz)) return; rs_assert(S->ir[q]==lo,"recorded position of a G entry"); }
  for(i=0;i<PEQ;i++) for(j=0;j<NV;j++) if(Apos[i][j]>=0){ idxint q=w->KKT->PK[w->AtoK[Apos[i][j]]],a=w->KKT->Pinv[j],b=w->KKT->Pinv[NV+i],lo=a<b?a:b,hi=a<b?b:a; rs_assert(q>=S->jc[hi]&&q<S->jc[hi+1],"recorded position of an A entry"); if(!(q>=0&&q<S->nnz)) return; rs_assert(S->ir[q]==lo,"recorded position of an A entry"); }
  rs_reach("assembled");
  /* arbitrary scalings */
  for(i=0;i<LP;i++){ w->C->lpc->v[i]=rs_real("v"); double v=w->C->lpc->v[i]; K[zrow[i]][zrow[i]]=-v-DELTASTAT; }
  k=LP; for(l=0;l<NSOC;l++){ socone *s=&w->C->soc[l]; idxint q=qdim_[l],z=zrow[k]; s->eta_square=rs_real("eta2"); s->d1=rs_real("d1"); s->u0=rs_real("u0"); s->u1=rs_real("u1"); s->v1=rs_real("v1"); for(i=0;i<q-1;i++) s->q[i]=rs_real("q");
    K[z][z]=-s->eta_square*s->d1-DELTASTAT; for(i=1;i<q;i++) K[z+i][z+i]=-s->eta_square-DELTASTAT;
    K[z+q][z+q]=-s->eta_square; K[z+q+1][z+q+1]=s->eta_square+DELTASTAT; for(i=1;i<q;i++){ K[z+i][z+q]=-s->eta_square*s->v1*s->q[i-1]; K[z+i][z+q+1]=-s->eta_square*s->u1*s->q[i-1]; } K[z][z+q+1]=-s->eta_square*s->u0; k+=q; }
  for(l=0;l<NEXC;l++){ idxint z=zrow[k]; double *v=w->C->expc[l].v; for(i=0;i<6;i++) v[i]=rs_real("H"); for(i=0,r=0;i<3;i++) for(j=0;j<=i;j++,r++) K[z+j][z+i]=-v[r]-(i==j?DELTASTAT:0); k+=3; }
  kkt_update(S,w->KKT->PK,w->C);
  compare("after a scaling update the KKT matrix is the documented one","every scaling entry has a place in the KKT matrix");
  /* the squared scaling used by the solves' residual is the same block */
  { double x[KM],y[KM]; idxint mt=M+2*NSOC,o=NV+PEQ; for(i=0;i<mt;i++){ x[i]=rs_real("x"); y[i]=0; } scale2add(x,y,w->C);
    for(i=0;i<mt;i++){ double t=0,reg=-DELTASTAT*x[i]; for(j=0;j<mt;j++) t+=(i<=j?K[o+i][o+j]:K[o+j][o+i])*x[j]; k=LP; for(l=0;l<NSOC;l++){ idxint z=zrow[k]-o; if(i==z+qdim_[l]) reg=0; if(i==z+qdim_[l]+1) reg=DELTASTAT*x[i]; k+=qdim_[l]; } rs_assert_eq(t,reg-y[i],"the scaling block is minus the squared scaling, up to the static regularisation"); } }
  /* back to the identity scaling; G, A parts untouched */
  kkt_init(S,w->KKT->PK,w->C);
  for(i=0;i<NV+PEQ;i++) ; k=0; for(i=0;i<M-3*NEXC;i++) K[zrow[i]][zrow[i]]=-1;
  k=LP; for(l=0;l<NSOC;l++){ idxint q=qdim_[l],z=zrow[k]; for(i=0;i<q;i++){ K[z+i][z+q]=K[z+i][z+q+1]=0; } K[z+q][z+q]=-1; K[z+q+1][z+q+1]=1; k+=q; }
  compare("initialising the scaling block restores the identity scaling and changes nothing else","no entry vanishes");
  rs_reach("updated"); }
