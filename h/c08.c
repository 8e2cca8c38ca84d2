/* C08: the real init() with the linear solves replaced by arbitrary results */
#include "common.h"
static double norm2_(const double *v,idxint n){ double s=0; idxint i; for(i=0;i<n;i++) s+=v[i]*v[i]; return sqrt(s); }
#define norm2 norm2_
static int nsolve; static double D1[3][MMAX], D2[MMAX]; static pwork *W0;
void kkt_init(spmat *a, idxint *b, cone *c){ (void)a;(void)b;(void)c; }
idxint kkt_factor(kkt *k, pfloat e, pfloat d){ (void)k;(void)e;(void)d; return KKT_OK; }
idxint kkt_solve(kkt *K, spmat *A, spmat *G, pfloat *Pb, pfloat *dx, pfloat *dy, pfloat *dz, idxint n, idxint p, idxint m, cone *C, idxint isinit, idxint nit){
  (void)A;(void)G;(void)nit;
  { idxint i,l,j=0,k=0,f=nsolve==0; pwork *w=W0; for(i=0;i<n;i++) rs_assert_eq(Pb[K->Pinv[j++]],f?0.0:-w->c[i],"right-hand side of the starting solves"); for(i=0;i<p;i++) rs_assert_eq(Pb[K->Pinv[j++]],f?w->b[i]:0.0,"right-hand side of the starting solves");
    for(i=0;i<C->lpc->p;i++) rs_assert_eq(Pb[K->Pinv[j++]],f?w->h[k++]:0.0,"right-hand side of the starting solves");
    for(l=0;l<C->nsoc;l++){ for(i=0;i<C->soc[l].p;i++) rs_assert_eq(Pb[K->Pinv[j++]],f?w->h[k++]:0.0,"right-hand side of the starting solves"); for(i=0;i<2;i++) rs_assert_eq(Pb[K->Pinv[j++]],0.0,"right-hand side of the starting solves (expansion rows)"); } } rs_assert(isinit==1,"the start is computed with the identity scaling");
  symvec(dx,n,"dx"); symvec(dy,p,"dy"); symvec(dz,m,"dz"); for(idxint i=0;i<m;i++) D1[nsolve][i]=dz[i]; nsolve++; return 0; }
idxint init(pwork *w);
void harness(void){ pwork *w; idxint i,l,k,M=M_();
  mkdata(0); w=mksetup(); rs_assume(w!=0); nsolve=0; W0=w; w->stgs->verbose=0;
  /* leftovers of an earlier solve */
  w->tau=rs_real("tau"); w->kap=rs_real("kap"); symvec(w->s,M,"s0"); symvec(w->z,M,"z0"); symvec(w->x,NV,"x0"); symvec(w->y,PEQ,"y0");
  w->info->pinf=1; w->info->dinf=1;
  if(init(w)!=0){ rs_assert(0,"initialisation succeeds when the factorisation does"); return; }
  { double t; t=norm2(w->c,NV); rs_assert(w->resx0==(t<1?1:t),"residuals are measured against max(1,|c|)"); t=PEQ?norm2(w->b,PEQ):0; rs_assert(w->resy0==(t<1?1:t),"residuals are measured against max(1,|b|)"); t=norm2(w->h,M); rs_assert(w->resz0==(t<1?1:t),"residuals are measured against max(1,|h|)"); }
  rs_assert(w->tau==1 && w->kap==1,"tau and kappa start at one");
  rs_assert(w->info->pinf==0 && w->info->dinf==0,"infeasibility flags start cleared");
  { idxint j=0,*P=w->KKT->Pinv; double *R=w->KKT->RHS1; k=0; for(i=0;i<NV;i++) rs_assert_eq(R[P[j++]],-w->c[i],"the constant right-hand side of the search directions is (-c,b,h)"); for(i=0;i<PEQ;i++) rs_assert_eq(R[P[j++]],w->b[i],"the constant right-hand side of the search directions is (-c,b,h)");
    for(i=0;i<LP;i++) rs_assert_eq(R[P[j++]],w->h[k++],"the constant right-hand side of the search directions is (-c,b,h)"); for(l=0;l<NSOC;l++){ for(i=0;i<qdim_[l];i++) rs_assert_eq(R[P[j++]],w->h[k++],"the constant right-hand side of the search directions is (-c,b,h)"); for(i=0;i<2;i++) rs_assert_eq(R[P[j++]],0.0,"the constant right-hand side is zero in the expansion rows"); } for(i=0;i<3*NEXC;i++) rs_assert_eq(R[P[j++]],w->h[k++],"the constant right-hand side of the search directions is (-c,b,h)"); }
  if(NEXC>0){ static const double E0[3]={-1.051383945322714,1.258967884768947,0.556409619469370};
    for(i=0;i<LP;i++) rs_assert(w->s[i]==1 && w->z[i]==1,"fixed central start (linear cone)");
    k=LP; for(l=0;l<NSOC;l++){ rs_assert(w->s[k]==1 && w->z[k]==1,"fixed central start (second-order cone)"); for(i=1;i<qdim_[l];i++) rs_assert(w->s[k+i]==0 && w->z[k+i]==0,"fixed central start (second-order cone)"); k+=qdim_[l]; }
    for(l=0;l<NEXC;l++) for(i=0;i<3;i++){ double e=E0[i]; rs_assert_eq(w->s[k],e,"fixed central start (exponential cone)"); rs_assert_eq(w->z[k],e,"fixed central start (exponential cone)"); k++; }
    for(i=0;i<NV;i++) rs_assert(w->x[i]==0,"x starts at zero"); for(i=0;i<PEQ;i++) rs_assert(w->y[i]==0,"y starts at zero");
    rs_reach("exponential start"); return; }
  rs_assert(nsolve==2,"two least-squares solves");
  for(int t=0;t<2;t++){ double *v=t?w->z:w->s, r[MMAX]; for(i=0;i<M;i++) r[i]=t?D1[1][i]:-D1[0][i];
    double a; idxint first=LP>0?0:LP; a=v[first]-r[first];
    /* v = r + a e */
    k=0; for(i=0;i<LP;i++){ rs_assert_eq(v[k]-r[k],a,"start is the least-squares residual shifted by a multiple of the identity"); k++; }
    for(l=0;l<NSOC;l++){ rs_assert_eq(v[k]-r[k],a,"start is the least-squares residual shifted by a multiple of the identity"); for(i=1;i<qdim_[l];i++) rs_assert_eq(v[k+i],r[k+i],"the shift only touches the cone's identity direction"); k+=qdim_[l]; }
    rs_assert(a>=0,"the shift is not negative");
    /* strictly interior */
    k=0; for(i=0;i<LP;i++) rs_assert(v[k++]>0,"start strictly inside the linear cone");
    for(l=0;l<NSOC;l++){ double ss=0; for(i=1;i<qdim_[l];i++) ss+=v[k+i]*v[k+i]; rs_assert(v[k]>0,"start strictly inside the second-order cone (first entry)"); rs_assert(v[k]*v[k]>ss,"start strictly inside the second-order cone"); k+=qdim_[l]; }
    /* no more than one plus the worst violation: a-1 is the violation of some cone or a<=1 */
    int ok=a<=1.0; double b=a-1.0; k=0;
    for(i=0;i<LP;i++) ok=ok|(r[k++]+b<=0);
    for(l=0;l<NSOC;l++){ double ss=0; for(i=1;i<qdim_[l];i++) ss+=r[k+i]*r[k+i]; ok=ok|(r[k]+b<=0)|((r[k]+b)*(r[k]+b)<=ss); k+=qdim_[l]; }
    rs_assert(ok,"the shift is no more than one plus the worst violation"); 
    rs_reach(t?"multiplier start":"slack start"); }
}
