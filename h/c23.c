/* C23: one iteration of the real ECOS_solve (RHS_affine, RHS_combined, conicProduct, conicDivision, scale, scaleToAddExpcone and the
 * loop body real) with exact linear solves: matrices and scaling concrete, iterate, residuals, mu, step lengths (and with SYMD c, b, h) symbolic. */
#include "common.h"
#include "equil.h"
#define KM 24
void set_equilibration(pwork *w){ idxint i; for(i=0;i<w->n;i++) w->xequil[i]=1; for(i=0;i<w->p;i++) w->Aequil[i]=1; for(i=0;i<w->m;i++) w->Gequil[i]=1; }
void unset_equilibration(pwork *w){ }
static double W[MMAX][MMAX],Wi[MMAX][MMAX],H[MMAX][MMAX],W2[MMAX][MMAX]; /* scaling of the symmetric part, its inverse, mu*Hessian, squared scaling incl. exponential part */
static double xo[8],yo[8],s0[MMAX],z0[MMAX],la[MMAX],tau0,kap0,mu,g0[MMAX],rx[8],ry[8],rz[MMAX],rt,s_aff,s_cmb,stepfac,xs_aff,xs_cmb,sig;
static int ncr,nls,nxs,done; static double dsWa[MMAX],dzWa[MMAX],dta,dka; static pwork *W_;
/* documented squared scaling times a vector: the conic block of the KKT system */
static void mul(double A[MMAX][MMAX],const double *v,double *r,idxint a,idxint b){ idxint i,j; for(i=a;i<b;i++){ r[i]=0; for(j=a;j<b;j++) r[i]+=A[i][j]*v[j]; } }
static void mkscal(pwork *w){ idxint i,j,k,l,q; cone *C=w->C; static const double QA[3][4]={{1.25,0.75,0,0},{1.5,1.0,0.5,0},{1.5,1.0,0.5,0.0}};
  for(i=0;i<LP;i++){ double t=i%2?0.5:4.0; C->lpc->w[i]=t; C->lpc->v[i]=t*t; W[i][i]=t; Wi[i][i]=1/t; }
  k=LP; for(l=0;l<NSOC;l++){ socone *c=&C->soc[l]; double a,eta=l%2?2.0:0.5,ww=0; const double *t; q=qdim_[l]; 
    static double one[4]={1,0,0,0}; t=q==1?one:QA[q-2]; a=t[0];
    c->a=a; c->eta=eta; c->eta_square=eta*eta; for(i=1;i<q;i++){ c->q[i-1]=t[i]; ww+=t[i]*t[i]; } c->w=ww; 
    for(i=0;i<q;i++) for(j=0;j<q;j++){ double e=i==j?1.0:0.0,v; if(i==0||j==0) v=t[i+j]; else v=e+t[i]*t[j]/(1+a); W[k+i][k+j]=eta*v; Wi[k+i][k+j]=((i==0)!=(j==0)?-v:v)/eta; } k+=q; }
  for(i=0;i<k;i++) for(j=0;j<k;j++){ double v=0; idxint r; for(r=0;r<k;r++) v+=W[i][r]*W[r][j]; W2[i][j]=v; }
  for(l=0;l<NEXC;l++){ static const double hv[6]={4,1,5,-1,2,6}; idxint r=0; for(i=0;i<3;i++) for(j=0;j<=i;j++,r++){ double v=hv[r]+l*(i==j); H[k+i][k+j]=H[k+j][k+i]=W2[k+i][k+j]=W2[k+j][k+i]=v; C->expc[l].v[r]=v; } k+=3; } }
#if PROFILING > 1
idxint kkt_factor(kkt *k, pfloat e, pfloat d, pfloat *t1, pfloat *t2){ return KKT_OK; }
#else
idxint kkt_factor(kkt *k, pfloat e, pfloat d){ return KKT_OK; }
#endif
void kkt_update(spmat* PKP, idxint* P, cone *C){ }
idxint kkt_solve(kkt *K, spmat *A, spmat *G, pfloat *Pb, pfloat *dx, pfloat *dy, pfloat *dz, idxint n, idxint p, idxint m, cone *C, idxint isinit, idxint nit){
  static double M[KM][KM+1]; idxint i,j,k,l,N=NV+PEQ+M_(),e=0; double *R;
  rs_assert(!isinit,"the search directions use the current scaling");
  for(i=0;i<N;i++) for(j=0;j<N;j++) M[i][j]=0;
  for(i=0;i<NV;i++){ for(j=0;j<PEQ;j++) M[i][NV+j]=M[NV+j][i]=Ad[j][i]; for(j=0;j<M_();j++) M[i][NV+PEQ+j]=M[NV+PEQ+j][i]=Gd[j][i]; }
  for(i=0;i<M_();i++) for(j=0;j<M_();j++) M[NV+PEQ+i][NV+PEQ+j]=-W2[i][j];
  k=0; for(i=0;i<NV+PEQ+LP;i++) M[k++][N]=Pb[K->Pinv[e++]]; for(l=0;l<NSOC;l++){ for(i=0;i<qdim_[l];i++) M[k++][N]=Pb[K->Pinv[e++]]; for(i=0;i<2;i++) rs_assert_eq(Pb[K->Pinv[e++]],0.0,"nothing is demanded of the auxiliary rows"); } for(i=0;i<3*NEXC;i++) M[k++][N]=Pb[K->Pinv[e++]];
  for(k=0;k<N;k++){ idxint pv=-1; for(i=k;i<N;i++) if(M[i][k]!=0){ pv=i; break; } if(pv<0){ rs_assume(0); return 0; }
    if(pv!=k) for(j=k;j<=N;j++){ double t=M[k][j]; M[k][j]=M[pv][j]; M[pv][j]=t; }
    for(i=0;i<N;i++) if(i!=k && M[i][k]!=0){ double f=M[i][k]/M[k][k]; for(j=k+1;j<=N;j++) M[i][j]-=f*M[k][j]; } }
  for(i=0;i<N;i++){ double v=M[i][N]/M[i][i]; if(i<NV) dx[i]=v; else if(i<NV+PEQ) dy[i-NV]=v; else dz[i-NV-PEQ]=v; }
  return 0; }
/* the start of the iteration */
idxint init(pwork *w){ idxint i,j=0,k=0,l,M=M_(); double *R=w->KKT->RHS1,u[MMAX]; idxint *P=w->KKT->Pinv; mkscal(w);
  symvec(xo,NV,"x"); symvec(yo,PEQ,"y"); 
#ifdef CLAM
  { idxint q; for(i=0;i<LP;i++) la[i]=1.5+i; k=LP; for(l=0;l<NSOC;l++){ q=qdim_[l]; for(i=0;i<q;i++) la[k++]=i?0.5*i*(i%2?1:-1):3.0+l; } }
#else
  intvec(la,"lambda");
#endif
   k=LP+sumq_(); mul(W,la,s0,0,k); mul(Wi,la,z0,0,k); for(i=k;i<M;i++){ s0[i]=rs_real("s"); z0[i]=rs_real("z"); g0[i]=rs_real("g"); la[i]=0; }
  tau0=rs_pos("tau"); kap0=rs_pos("kap"); mu=rs_pos("mu");
  for(i=0;i<NV;i++) w->x[i]=xo[i]; for(i=0;i<PEQ;i++) w->y[i]=yo[i]; for(i=0;i<M;i++){ w->s[i]=s0[i]; w->z[i]=z0[i]; } w->tau=tau0; w->kap=kap0;
  for(i=0;i<NV;i++) R[P[j++]]=-w->c[i]; for(i=0;i<PEQ;i++) R[P[j++]]=w->b[i]; k=0; for(i=0;i<LP;i++) R[P[j++]]=w->h[k++]; for(l=0;l<NSOC;l++){ for(i=0;i<qdim_[l];i++) R[P[j++]]=w->h[k++]; R[P[j++]]=0; R[P[j++]]=0; } for(i=0;i<3*NEXC;i++) R[P[j++]]=w->h[k++];
  w->info->pinf=w->info->dinf=0; return 0; }
/* documented Jordan product on the symmetric part */
static void jprod(const double *u,const double *v,double *r){ idxint i,k=0,l; for(i=0;i<LP;i++,k++) r[k]=u[k]*v[k]; for(l=0;l<NSOC;l++){ r[k]=0; for(i=0;i<qdim_[l];i++) r[k]+=u[k+i]*v[k+i]; for(i=1;i<qdim_[l];i++) r[k+i]=u[k]*v[k+i]+v[k]*u[k+i]; k+=qdim_[l]; } }
void computeResiduals(pwork *w){ idxint i,j,l,k,M=M_(),S=LP+sumq_(); double Dx[8],Dy[8],Dz[MMAX],Ds[MMAX],Dt,Dk,a,r,u[MMAX],v[MMAX],l1[MMAX],l2[MMAX],l3[MMAX],os;
  if(ncr++==0){ symvec(rx,NV,"rx"); symvec(ry,PEQ,"ry"); symvec(rz,M,"rz"); rt=rs_real("rt"); for(i=0;i<NV;i++) w->rx[i]=rx[i]; for(i=0;i<PEQ;i++) w->ry[i]=ry[i]; for(i=0;i<M;i++) w->rz[i]=rz[i]; w->rt=rt; return; }
  done=1; a=w->info->step; os=1-sig;
  for(i=0;i<NV;i++) Dx[i]=w->x[i]-xo[i]; for(i=0;i<PEQ;i++) Dy[i]=w->y[i]-yo[i]; for(i=0;i<M;i++){ Dz[i]=w->z[i]-z0[i]; Ds[i]=w->s[i]-s0[i]; } Dt=w->tau-tau0; Dk=w->kap-kap0;
#if PART&1
  if(NEXC) rs_assert_same(a,xs_cmb,"the step is the one accepted by the exponential-cone line search"); else rs_assert_eq(a,s_cmb*w->stgs->gamma,"the step is the damped step of the line search");
  for(i=0;i<NV;i++){ r=w->c[i]*Dt-a*os*rx[i]; for(j=0;j<PEQ;j++) r+=Ad[j][i]*Dy[j]; for(j=0;j<M;j++) r+=Gd[j][i]*Dz[j]; rs_assert_eq(r,0.0,"the dual residual shrinks by exactly 1-step*(1-sigma)"); }
  for(i=0;i<PEQ;i++){ r=-w->b[i]*Dt+a*os*ry[i]; for(j=0;j<NV;j++) r+=Ad[i][j]*Dx[j]; rs_assert_eq(r,0.0,"the equality residual shrinks by exactly 1-step*(1-sigma)"); }
  for(i=0;i<M;i++){ r=Ds[i]-w->h[i]*Dt+a*os*rz[i]; for(j=0;j<NV;j++) r+=Gd[i][j]*Dx[j]; rs_assert_eq(r,0.0,"the conic residual shrinks by exactly 1-step*(1-sigma)"); }
#endif
#if PART&2
  r=Dk+a*os*rt; for(i=0;i<NV;i++) r+=w->c[i]*Dx[i]; for(i=0;i<PEQ;i++) r+=w->b[i]*Dy[i]; for(i=0;i<M;i++) r+=w->h[i]*Dz[i]; rs_assert_eq(r,0.0,"the residual of the tau-kappa equation shrinks by exactly 1-step*(1-sigma)");
  rs_assert_eq(tau0*Dk+kap0*Dt,a*(sig*mu-kap0*tau0-dta*dka),"linearised complementarity of tau and kappa with second-order correction");
#endif
#if PART&4
  mul(Wi,Ds,u,0,S); mul(W,Dz,v,0,S); for(i=0;i<S;i++) u[i]+=v[i]; jprod(la,u,l1); jprod(la,la,l2); jprod(dsWa,dzWa,l3);
  k=0; for(i=0;i<LP;i++,k++) rs_assert_eq(l1[k],a*(sig*mu-l2[k]-l3[k]),"linearised complementarity with second-order correction (linear cone)");
  for(l=0;l<NSOC;l++) for(i=0;i<qdim_[l];i++,k++) rs_assert_eq(l1[k],a*((i==0?sig*mu:0.0)-l2[k]-l3[k]),"linearised complementarity with second-order correction (second-order cone)");
  mul(H,Dz,u,S,M); for(i=S;i<M;i++) rs_assert_eq(Ds[i]+u[i],a*(-s0[i]-sig*mu*g0[i]),"linearised complementarity (exponential cone)");
#endif
  rs_reach("one step"); }
void updateStatistics(pwork *w){ w->info->mu=mu; w->info->pres=1; w->info->gap=1; w->info->pcost=1; }
idxint checkExitConditions(pwork *w, idxint mode){ return done?ECOS_OPTIMAL:(mode?ECOS_OPTIMAL:(-87)); }
idxint compareStatistics(stats *a, stats *b){ return 0; }
void saveIterateAsBest(pwork *w){ }
void restoreBestIterate(pwork *w){ }
void backscale(pwork *w){ }
idxint updateScalings(cone *C, pfloat *s, pfloat *z, pfloat *lambda, pfloat m){ idxint i,l,k=LP+sumq_(); rs_assert_eq(m,mu,"scaling computed for the current mu"); for(i=0;i<k;i++) lambda[i]=la[i]; for(;i<M_();i++) lambda[i]=rs_real("lambdaX"); for(l=0;l<NEXC;l++) for(i=0;i<3;i++) C->expc[l].g[i]=g0[k++]; return INSIDE_CONE; }
static void affine_direction(pwork *w,double dt,double dk,const double *dz){ /* the affine direction solves the documented system with sigma=0 and no correction */
  idxint i,j,M=M_(),S=LP+sumq_(); double r,t[MMAX],q[MMAX],v[MMAX],dx[8],dy[8]; 
#if PART&8
  for(i=0;i<NV;i++) dx[i]=w->KKT->dx2[i]+dt*w->KKT->dx1[i]; for(i=0;i<PEQ;i++) dy[i]=w->KKT->dy2[i]+dt*w->KKT->dy1[i];
  rs_assert_eq(tau0*dk+kap0*dt,-kap0*tau0,"affine direction: linearised tau-kappa complementarity");
  r=dk+rt; for(i=0;i<NV;i++) r+=w->c[i]*dx[i]; for(i=0;i<PEQ;i++) r+=w->b[i]*dy[i]; for(i=0;i<M;i++) r+=w->h[i]*dz[i]; rs_assert_eq(r,0.0,"affine direction: tau-kappa equation");
  for(i=0;i<NV;i++){ r=w->c[i]*dt-rx[i]; for(j=0;j<PEQ;j++) r+=Ad[j][i]*dy[j]; for(j=0;j<M;j++) r+=Gd[j][i]*dz[j]; rs_assert_eq(r,0.0,"affine direction: dual rows"); }
  for(i=0;i<PEQ;i++){ r=-w->b[i]*dt+ry[i]; for(j=0;j<NV;j++) r+=Ad[i][j]*dx[j]; rs_assert_eq(r,0.0,"affine direction: equality rows"); }
  mul(W,dsWa,q,0,S); mul(W,dz,t,0,S); for(i=0;i<S;i++){ rs_assert_eq(dzWa[i],t[i],"affine direction: scaled multiplier step"); rs_assert_eq(dsWa[i]+t[i],-la[i],"affine direction: linearised complementarity"); }
  for(i=0;i<S;i++){ r=q[i]-w->h[i]*dt+rz[i]; for(j=0;j<NV;j++) r+=Gd[i][j]*dx[j]; rs_assert_eq(r,0.0,"affine direction: conic rows"); }
#endif
}
/* sigma is recorded when the combined direction is solved for */
static void check_sigma(pwork *w){ double t=1-xs_aff; t=t*t*t; sig=w->info->sigma; 
#if PART&1
  rs_assert((sig==t)|((sig==SIGMAMAX)&(t>=SIGMAMAX))|((sig==SIGMAMIN)&(t<=SIGMAMIN)),"centering is (1-affine step)^3 clipped to its bounds");
  rs_assert(sig>=SIGMAMIN,"centering not below its minimum"); rs_assert(sig<=SIGMAMAX,"centering not above its maximum");
#endif
}
pfloat lineSearch(pfloat *lambda, pfloat *ds, pfloat *dz, pfloat tau, pfloat dtau, pfloat kap, pfloat dkap, cone *C, kkt *K){ idxint i,S=LP+sumq_(); double v;
  for(i=0;i<S;i++) rs_assert_eq(lambda[i],la[i],"the line search starts from the scaled point"); rs_assert(tau==tau0&&kap==kap0,"the line search starts from the current tau, kappa");
  v=rs_real("step"); rs_assume(v>=STEPMIN); rs_assume(v<=STEPMAX);
  if(nls++==0){ for(i=0;i<S;i++){ dsWa[i]=ds[i]; dzWa[i]=dz[i]; } dta=dtau; dka=dkap; s_aff=v; if(!NEXC) xs_aff=v; affine_direction(W_,dtau,dkap,W_->KKT->dz2); } else { s_cmb=v; check_sigma(W_); }
  return v; }
pfloat expConeLineSearch(pwork *w, pfloat dtau, pfloat dkap, idxint affine){ idxint i,S=LP+sumq_(); double u[MMAX],v; (void)u;
#if PART&8
  if(affine){ mul(H,w->KKT->dz2,u,S,M_()); for(i=S;i<M_();i++) rs_assert_eq(w->dsaff[i]+u[i],-s0[i],"affine direction: exponential cone"); mul(W,dsWa,u,0,S); for(i=0;i<S;i++) rs_assert_eq(w->dsaff[i],u[i],"affine direction: unscaled slack step"); rs_assert(nls==1&&nxs==0&&dtau==dta&&dkap==dka,"affine line search is given the affine direction"); }
  else rs_assert(nls==2&&nxs==1,"combined line search follows the affine one");
#endif
  rs_assert_eq(affine?w->info->step_aff:w->info->step,affine?s_aff:s_cmb*w->stgs->gamma,"backtracking starts from the symmetric cones' step");
  nxs++; w->info->pob=w->info->cb=w->info->cob=w->info->pb=w->info->db=0;
  if(affine){ if(rs_int(0,1,"afail")){ xs_aff=0; return -1; } }
  v=rs_real("xstep"); rs_assume(v>=STEPMIN*0.5); rs_assume(v<=STEPMAX); if(affine) xs_aff=v; else xs_cmb=v; return v; }
void harness(void){ idxint ec; pwork *w; mkdata(0); 
#ifdef SYMD
  symvec(c_,NV,"c"); symvec(h_,M_(),"h"); if(PEQ) symvec(b_,PEQ,"b");
#endif
  w=mksetup(); rs_assume(w!=0); W_=w; w->stgs->verbose=0; ncr=nls=nxs=done=0;
  ec=ECOS_solve(w); rs_assert(ec==ECOS_OPTIMAL&&done==1,"one step is taken"); }
