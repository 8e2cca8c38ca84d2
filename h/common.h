/* Shared harness helpers: builds real workspaces/cones for a structure given by macros.
 *   NV   primal variables      PEQ  equality rows      LP  linear-cone rows
 *   SOCS comma list of second-order cone dimensions (may be empty -> define NSOC 0)
 *   NSOC number of SOCs        NEXC number of exponential cones
 *   GPAT(i,j) / APAT(i,j)  nonzero pattern (default dense) */
#ifndef COMMON_H
#define COMMON_H
#include <stdlib.h>
#include <math.h>
#include "ecos.h"
#include "rs.h"
#ifndef NV
#define NV 2
#endif
#ifndef PEQ
#define PEQ 0
#endif
#ifndef LP
#define LP 0
#endif
#ifndef NSOC
#define NSOC 0
#endif
#ifndef NEXC
#define NEXC 0
#endif
#ifndef SOCS
#define SOCS 0
#endif
#ifndef GPAT
#define GPAT(i,j) 1
#endif
#ifndef APAT
#define APAT(i,j) 1
#endif
static idxint qdim_[] = { SOCS };
static idxint sumq_(void){ idxint i,k=0; for(i=0;i<NSOC;i++) k+=qdim_[i]; return k; }
static idxint M_(void){ return LP + sumq_() + 3*NEXC; }
#define MMAX 24
/* symbolic vector */
static void symvec(double *v, idxint n, const char *nm){ idxint i; for(i=0;i<n;i++) v[i]=rs_real(nm); }
static void posvec(double *v, idxint n, const char *nm){ idxint i; for(i=0;i<n;i++) v[i]=rs_pos(nm); }
/* strictly interior vector for the symmetric cones (exponential part arbitrary) */
static void intvec(double *v, const char *nm){ idxint i,k=0,l; 
  for(i=0;i<LP;i++) v[k++]=rs_pos(nm);
  for(l=0;l<NSOC;l++){ double ss=0; idxint k0=k; v[k++]=rs_pos(nm); for(i=1;i<qdim_[l];i++){ v[k]=rs_real(nm); ss+=v[k]*v[k]; k++; } 
    if(qdim_[l]>1) rs_assume(v[k0]*v[k0]>ss); }
  for(i=0;i<3*NEXC;i++) v[k++]=rs_real(nm); }
static void assert_interior(const double *v, const char *msg){ idxint i,k=0,l;
  for(i=0;i<LP;i++) rs_assert(v[k++]>0,msg);
  for(l=0;l<NSOC;l++){ double ss=0; idxint k0=k; k++; for(i=1;i<qdim_[l];i++){ ss+=v[k]*v[k]; k++; } rs_assert(v[k0]>0,msg); if(qdim_[l]>1) rs_assert(v[k0]*v[k0]>ss,msg); } }
/* a cone structure on its own (no KKT) */
static cone *mkcone(void){ cone *C=malloc(sizeof(cone)); idxint l; 
  C->lpc=malloc(sizeof(lpcone)); C->lpc->p=LP; C->lpc->w=LP?malloc(LP*sizeof(pfloat)):0; C->lpc->v=LP?malloc(LP*sizeof(pfloat)):0; C->lpc->kkt_idx=LP?malloc(LP*sizeof(idxint)):0;
  C->nsoc=NSOC; C->soc=NSOC?malloc(NSOC*sizeof(socone)):0;
  for(l=0;l<NSOC;l++){ C->soc[l].p=qdim_[l]; C->soc[l].a=0; C->soc[l].eta=0; C->soc[l].skbar=malloc(qdim_[l]*sizeof(pfloat)); C->soc[l].zkbar=malloc(qdim_[l]*sizeof(pfloat)); C->soc[l].q=qdim_[l]>1?malloc((qdim_[l]-1)*sizeof(pfloat)):0; C->soc[l].Didx=malloc(qdim_[l]*sizeof(idxint)); }
  C->nexc=NEXC; C->expc=NEXC?malloc(NEXC*sizeof(expcone)):0; C->fexv=LP+sumq_(); return C; }
/* dense copies of the data the workspace was set up with */
static pfloat *Gpr_,*Apr_,*c_,*h_,*b_; static idxint *Gjc_,*Gir_,*Ajc_,*Air_;
static double Gd[MMAX][8], Ad[8][8];
static idxint Gpos[MMAX][8], Apos[8][8];
#ifndef DATAVAL
#define DATAVAL(k) (1.0+((k)*7%5))
#endif
static void mkdata(int symbolic){ idxint i,j,k,M=M_();
  for(i=0;i<M;i++) for(j=0;j<NV;j++){ Gd[i][j]=0; Gpos[i][j]=-1; }
  for(i=0;i<PEQ;i++) for(j=0;j<NV;j++){ Ad[i][j]=0; Apos[i][j]=-1; }
  Gjc_=malloc((NV+1)*sizeof(idxint)); k=0; for(j=0;j<NV;j++) for(i=0;i<M;i++) if(GPAT(i,j)) k++;
  Gir_=malloc((k?k:1)*sizeof(idxint)); Gpr_=malloc((k?k:1)*sizeof(pfloat)); k=0;
  for(j=0;j<NV;j++){ Gjc_[j]=k; for(i=0;i<M;i++) if(GPAT(i,j)){ Gir_[k]=i; Gd[i][j]=symbolic?rs_real("G"):DATAVAL(i+3*j); Gpos[i][j]=k; Gpr_[k++]=Gd[i][j]; } } Gjc_[NV]=k;
  Ajc_=Air_=0; Apr_=0;
  if(PEQ>0){ Ajc_=malloc((NV+1)*sizeof(idxint)); k=0; for(j=0;j<NV;j++) for(i=0;i<PEQ;i++) if(APAT(i,j)) k++;
    Air_=malloc((k?k:1)*sizeof(idxint)); Apr_=malloc((k?k:1)*sizeof(pfloat)); k=0;
    for(j=0;j<NV;j++){ Ajc_[j]=k; for(i=0;i<PEQ;i++) if(APAT(i,j)){ Air_[k]=i; Ad[i][j]=symbolic?rs_real("A"):DATAVAL(2*i+j+1); Apos[i][j]=k; Apr_[k++]=Ad[i][j]; } } Ajc_[NV]=k; }
  c_=malloc(NV*sizeof(pfloat)); h_=malloc((M?M:1)*sizeof(pfloat)); b_=PEQ?malloc(PEQ*sizeof(pfloat)):0;
  for(j=0;j<NV;j++) c_[j]=symbolic?rs_real("c"):1.0+j; for(i=0;i<M;i++) h_[i]=symbolic?rs_real("h"):1.0+i; for(i=0;i<PEQ;i++) b_[i]=symbolic?rs_real("b"):2.0+i; }
static pwork *mksetup(void){ return ECOS_setup(NV,M_(),PEQ,LP,NSOC,NSOC?(idxint*)qdim_:(idxint*)0,NEXC,Gpr_,Gjc_,Gir_,Apr_,Ajc_,Air_,c_,h_,b_); }
/* replace the (equilibrated) numbers inside a workspace by fresh symbolic reals and record dense copies */
static void symdata(pwork *w){ idxint i,j,M=M_();
  for(j=0;j<NV;j++) for(i=0;i<M;i++) if(Gpos[i][j]>=0){ Gd[i][j]=rs_real("G"); w->G->pr[Gpos[i][j]]=Gd[i][j]; }
  for(j=0;j<NV;j++) for(i=0;i<PEQ;i++) if(Apos[i][j]>=0){ Ad[i][j]=rs_real("A"); w->A->pr[Apos[i][j]]=Ad[i][j]; }
  symvec(w->c,NV,"c"); symvec(w->h,M,"h"); if(PEQ) symvec(w->b,PEQ,"b"); }
#endif
