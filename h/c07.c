/* C07: exponential-cone membership tests and the backtracking line search */
#include "common.h"
#include "expcone.h"
pfloat expConeLineSearch(pwork* w, pfloat dtau, pfloat dkappa, idxint affine);
#ifndef MEMB
static double om_(double x){ double o; if(x<0) return -1; o=rs_uf1("omega",x); rs_assume(!(x>1)|(o>1)); rs_assume(o>0); return o; }
pfloat wrightOmega(pfloat x){ return om_(x); }
#endif
#define BITS ((int)(sizeof(int)))
/* spec: 1 strictly inside, 0 outside the closed cone or on its boundary; *out = outside the closed cone.  Only for nonzero x3 / x1 where a logarithm is needed */
static int prim(const double *x,int *out){ double psi; if(x[2]<0){ *out=1; return 0; } if(x[1]<0){ *out=1; return 0; }
  if(x[2]==0){ *out=x[0]>0; return 0; } if(x[1]==0){ *out=1; return 0; }
  psi=x[2]*log(x[1]/x[2])-x[0]; *out=psi<0; return psi>0; }
static int dual(const double *x,int *out){ double psi; if(x[0]>0){ *out=1; return 0; } if(x[1]<0){ *out=1; return 0; }
  if(x[0]==0){ *out=x[2]<0; return 0; } if(x[1]==0){ *out=1; return 0; }
  psi=-x[0]-x[0]*log(-x[1]/x[0])+x[2]; *out=psi<0; return psi>0; }
#ifdef MEMB
#define NE NEXC
void harness(void){ double x[3*NE]; int l,i,r,in=1,anyout=0,o; static const char*nm="x"; 
  for(l=0;l<NE;l++) for(i=0;i<3;i++){ int k=(int)rs_int(0,l==NE-1?2:0,"kind"); x[3*l+i]=k==0?rs_real(nm):k==1?0.0:NAN; }
  r=(int)(MEMB==0?evalExpPrimalFeas(x,NE):evalExpDualFeas(x,NE));
  for(i=0;i<3*NE;i++) if(x[i]!=x[i]){ rs_assert(r!=1,"an undefined coordinate is never accepted as inside"); rs_reach("undefined"); return; }
  for(l=0;l<NE;l++){ o=0; int s=MEMB==0?prim(x+3*l,&o):dual(x+3*l,&o); in=in&s; anyout=anyout|o; }
  if(r==1){ rs_assert(!anyout,"a point outside the documented cone is rejected"); rs_reach("accepted"); }
  else { rs_assert(r==0,"the test returns 0 or 1"); rs_assert(!in,"a point strictly inside is accepted"); rs_reach("rejected"); } }
#else
void harness(void){ idxint i,l,k,M=M_(); cone *C=mkcone(); pwork *w=calloc(1,sizeof(pwork)); double a0,bk,dt,dk,ret,alpha,mu,bar,cen,ts[MMAX],tz[MMAX]; idxint D=LP+NSOC+3*NEXC; int aff,ok=1,in=1,o;
  double s0[MMAX],z0[MMAX];
  w->C=C; w->m=M; w->D=D; w->KKT=calloc(1,sizeof(kkt)); w->stgs=calloc(1,sizeof(settings)); w->info=calloc(1,sizeof(stats));
  w->KKT->work1=calloc(M+2*NSOC,8); w->KKT->work2=calloc(M+2*NSOC,8); w->KKT->dz2=calloc(M,8); w->dsaff=calloc(M,8); w->s=calloc(M,8); w->z=calloc(M,8);
  
#ifdef AFF
  aff=AFF;
#else
  aff=(int)rs_int(0,1,"affine");
#endif
 w->stgs->gamma=0.875; w->stgs->max_bk_iter=BKI; w->stgs->centrality=rs_real("centrality bound"); bk=rs_pos("bk_scale"); w->stgs->bk_scale=bk; rs_assume(bk<1);
  a0=rs_pos("step"); w->info->step_aff=aff?a0:rs_real("other"); w->info->step=aff?rs_real("other"):a0;
  w->info->pob=w->info->cb=w->info->cob=w->info->pb=w->info->db=77;
  w->tau=rs_pos("tau"); w->kap=rs_pos("kap"); dt=rs_real("dtau"); dk=rs_real("dkap");
  for(i=0;i<M;i++){ w->s[i]=s0[i]=rs_real("s"); w->z[i]=z0[i]=rs_real("z"); 
#ifdef DCON
    w->dsaff[i]=0.25*(i%3)-0.25; w->KKT->dz2[i]=0.25-0.5*(i%2);
#else
    w->dsaff[i]=rs_real("ds"); w->KKT->dz2[i]=rs_real("dz");
#endif
    }
#ifndef ANYSTART   /* the iterate and the step handed over keep the symmetric cones */
  { double S[2][MMAX],Z[2][MMAX]; for(i=0;i<M;i++){ S[0][i]=s0[i]; Z[0][i]=z0[i]; S[1][i]=s0[i]+a0*w->dsaff[i]; Z[1][i]=z0[i]+a0*w->KKT->dz2[i]; }
    rs_assume(w->tau+a0*dt>0); rs_assume(w->kap+a0*dk>0);
    for(int t=0;t<2;t++){ for(i=0;i<LP;i++){ rs_assume(S[t][i]>0); rs_assume(Z[t][i]>0); }
      for(l=0,k=LP;l<NSOC;l++){ double rs=S[t][k]*S[t][k],rz=Z[t][k]*Z[t][k]; for(i=1;i<qdim_[l];i++){ rs-=S[t][k+i]*S[t][k+i]; rz-=Z[t][k+i]*Z[t][k+i]; } rs_assume(S[t][k]>0); rs_assume(Z[t][k]>0); if(qdim_[l]>1){ rs_assume(rs>0); rs_assume(rz>0); } k+=qdim_[l]; } } }
#endif
  ret=expConeLineSearch(w,dt,dk,aff);
  for(i=0;i<M;i++) rs_assert(w->s[i]==s0[i] && w->z[i]==z0[i],"the iterate itself is not moved");
  idxint nb=w->info->pob+w->info->cb+w->info->cob+w->info->pb+w->info->db;
  rs_assert(nb>=0 && nb<=BKI,"backtracking trials within the limit");
  if(ret==-1.0){ rs_assert(nb==BKI,"failure only after all trials allowed"); if(BKI>1){ rs_reach("failed"); return; } alpha=a0; }
  else { alpha=ret/0.875; double e=a0; for(i=0;i<nb;i++) e*=bk; rs_assert_eq(alpha,e,"accepted step is the given step times one factor per backtrack"); alpha=e; }
  mu=0; for(i=0;i<M;i++){ ts[i]=s0[i]+alpha*w->dsaff[i]; tz[i]=z0[i]+alpha*w->KKT->dz2[i]; mu+=ts[i]*tz[i]; } mu+=(w->tau+alpha*dt)*(w->kap+alpha*dk); mu=mu/(D+1);
  double tt=w->tau+alpha*dt,tk=w->kap+alpha*dk;
  int acc=ret!=-1.0;
  int minf=w->info->centrality==-INFINITY;
#define COND(c,m) do{ if(acc){ if(minf) rs_assert((c),m " (accepted because the symmetric barrier is minus infinity there)"); else rs_assert((c),m); } else if(!(c)) return; }while(0)
  for(i=0;i<LP;i++) COND((ts[i]>0)&(tz[i]>0),"trial point strictly inside the linear cone");
  COND((tt>0)&(tk>0),"trial tau and kappa positive");
  k=LP; for(l=0;l<NSOC;l++){ double rs=ts[k]*ts[k],rz=tz[k]*tz[k]; for(i=1;i<qdim_[l];i++){ rs-=ts[k+i]*ts[k+i]; rz-=tz[k+i]*tz[k+i]; } COND((rs>0)&(rz>0),"trial point strictly inside the second-order cones or their negatives"); COND((ts[k]>0)&(tz[k]>0),"trial point not in a negated second-order cone"); k+=qdim_[l]; }
  for(l=0;l<NEXC;l++){ o=0; int p=prim(ts+C->fexv+3*l,&o); if(acc) rs_assert(!o,"trial slack in every exponential cone"); else if(!p) return; o=0; p=dual(tz+C->fexv+3*l,&o); if(acc) rs_assert(!o,"trial multiplier in every dual exponential cone"); else if(!p) return; }
  for(l=0;l<NEXC;l++){ idxint f=C->fexv+3*l; double mi=ts[f]*tz[f]+ts[f+1]*tz[f+1]+ts[f+2]*tz[f+2]; mi=mi/3.0; if(acc) rs_assert(mi>=0.1*mu,"no exponential cone's complementarity below a tenth of the average"); else if(!(mi>0.1*mu)) return; }
  if(!acc && !(mu>0)) return;
  bar=0; for(i=0;i<LP;i++) bar-=log(ts[i])+log(tz[i]);
  k=LP; for(l=0;l<NSOC;l++){ double rs=ts[k]*ts[k],rz=tz[k]*tz[k]; for(i=1;i<qdim_[l];i++){ rs-=ts[k+i]*ts[k+i]; rz-=tz[k+i]*tz[k+i]; } bar-=0.5*log(rs)+0.5*log(rz); k+=qdim_[l]; }
  bar-=log(tt)+log(tk);
  for(l=0;l<NEXC;l++){ double *x=ts+C->fexv+3*l,*d=tz+C->fexv+3*l,om=om_(1-x[0]/x[2]-log(x[2])+log(x[1])); 
    bar+=-log((om-1)*(om-1)/om)-2*log(x[2])-log(x[1])-3; bar+=-log(d[2]-d[0]-d[0]*log(-d[1]/d[0]))-log(-d[0])-log(d[1]); }
  cen=bar-D-1+(D+1)*log(mu)+(D+1);
  if(acc){ rs_assert_eq(w->info->centrality,cen,"reported centrality is the documented one of the trial point"); rs_assert(cen<w->stgs->centrality,"the centrality bound holds"); rs_reach(aff?"accepted affine":"accepted combined"); }
  else { rs_assert(!(cen<w->stgs->centrality),"a trial point meeting every condition is accepted"); rs_reach("rejected"); }
}
#endif
