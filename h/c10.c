/* C10: cone product / division */
#include "common.h"
void harness(void){
  cone *C=mkcone(); idxint M=M_(),i,l,k; double u[MMAX],v[MMAX],w[MMAX],r[MMAX],r2[MMAX],ref[MMAX],e;
  for(i=0;i<MMAX;i++) w[i]=r[i]=r2[i]=0;
  intvec(u,"u"); symvec(v,M,"v");
  double mu=conicProduct(u,v,C,w); (void)mu;
  /* reference */
  k=0; for(i=0;i<LP;i++){ ref[k]=u[k]*v[k]; k++; }
  for(l=0;l<NSOC;l++){ idxint k0=k; double s=0; for(i=0;i<qdim_[l];i++) s+=u[k0+i]*v[k0+i]; ref[k0]=s; for(i=1;i<qdim_[l];i++) ref[k0+i]=u[k0]*v[k0+i]+v[k0]*u[k0+i]; k+=qdim_[l]; }
  for(i=0;i<k;i++) rs_assert_eq(w[i],ref[i],"cone product equals the Jordan product");
  rs_reach("product");
  conicDivision(u,w,C,r);
  for(i=0;i<k;i++) rs_assert_eq(r[i],v[i],"u \\ (u o v) = v");
  conicDivision(u,v,C,r);
  conicProduct(u,r,C,r2);
  for(i=0;i<k;i++) rs_assert_eq(r2[i],v[i],"u o (u \\ v) = v");
  rs_reach("division");
}
