/* C11: real exponential-cone derivative and barrier code against symbolic derivatives of the documented barrier */
#include "common.h"
#include "expcone.h"
pfloat wrightOmega(pfloat x){ return rs_uf1("omega",x); }
pfloat evalSymmetricBarrierValue(pfloat*,pfloat*,pfloat,pfloat,cone*,pfloat);
static double fstar(double u,double v,double w){ double l=log(-v/u); return -log(w-u-u*l)-log(-u)-log(v); }
void harness(void){
#if PART==0
  double z[3],H[6],g[3],mu=rs_real("mu"),f,gd[3];
  double u=rs_real("z0"),v=rs_real("z1"),w=rs_real("z2"); int i; rs_assume(u<0 && v>0); rs_assume(w-u-u*log(-v/u)>0);
  z[0]=u; z[1]=v; z[2]=w; f=fstar(u,v,w); 
  evalExpGradient(z,g); evalExpHessian(z,H,mu);
  double x[3],l=log(-v/u),r=w-u-u*l,cg[3],ch[6]; x[0]=u;x[1]=v;x[2]=w;
  cg[0]=l/r-1/u; cg[1]=u/(v*r)-1/v; cg[2]=-1/r;
  ch[0]=1/(u*u)-1/(u*r)+l*l/(r*r); ch[1]=1/(v*r)+l*u/(v*r*r); ch[2]=1/(v*v)-u/(v*v*r)+u*u/(v*v*r*r); ch[3]=-l/(r*r); ch[4]=-u/(v*r*r); ch[5]=1/(r*r);
#ifndef RS_NATIVE   /* the closed forms used as oracle are the symbolic derivatives of the documented barrier */
  { static const int hi[6]={0,0,1,0,1,2},hj[6]={0,1,1,2,2,2}; for(i=0;i<3;i++){ gd[i]=rs_diff(f,x[i]); rs_assert_eq(cg[i],gd[i],"oracle: closed-form gradient is the derivative of the documented barrier"); } for(i=0;i<6;i++) rs_assert_eq(ch[i],rs_diff(gd[hi[i]],x[hj[i]]),"oracle: closed-form Hessian is the second derivative of the documented barrier"); }
#endif
  for(i=0;i<3;i++) rs_assert_eq(g[i],cg[i],"gradient is the derivative of the dual barrier");
  for(i=0;i<6;i++) rs_assert_eq(H[i],mu*ch[i],"Hessian is mu times the second derivative of the dual barrier");
  rs_assert_eq(g[0]*u+g[1]*v+g[2]*w,-3.0,"logarithmic homogeneity: g'z = -3");
  rs_reach("derivatives");
#elif PART==1   /* multiplication: every cone, its own matrix, y += */
  expcone E[NEXC]; double x[LP+3*NEXC],y[LP+3*NEXC],y0[LP+3*NEXC]; int l,i; static const int ix[3][3]={{0,1,3},{1,2,4},{3,4,5}};
  for(l=0;l<NEXC;l++) symvec(E[l].v,6,"H"); symvec(x,LP+3*NEXC,"x"); symvec(y,LP+3*NEXC,"y"); for(i=0;i<LP+3*NEXC;i++) y0[i]=y[i];
  scaleToAddExpcone(y,x,E,NEXC,LP);
  for(i=0;i<LP;i++) rs_assert_eq(y[i],y0[i],"only the exponential part is touched");
  for(l=0;l<NEXC;l++) for(i=0;i<3;i++){ double r=y0[LP+3*l+i]; for(int j=0;j<3;j++) r+=E[l].v[ix[i][j]]*x[LP+3*l+j]; rs_assert_eq(y[LP+3*l+i],r,"adds the Hessian times the vector, cone by cone"); }
  rs_reach("multiplied");
#elif PART==2   /* barrier value */
  double s[LP+3*NEXC],z[LP+3*NEXC],ref=0,b; int l; symvec(s,LP+3*NEXC,"s"); symvec(z,LP+3*NEXC,"z");
  for(l=0;l<NEXC;l++){ double *a=s+LP+3*l,*d=z+LP+3*l,o; rs_assume(a[1]>0 && a[2]>0); rs_assume(a[2]*log(a[1]/a[2])-a[0]>0); rs_assume(d[0]<0 && d[1]>0); rs_assume(-d[0]-d[0]*log(-d[1]/d[0])+d[2]>0);
    o=rs_uf1("omega",1-a[0]/a[2]-log(a[2])+log(a[1])); rs_assume(o>1);
    ref+=-log((o-1)*(o-1)/o)-2*log(a[2])-log(a[1])-3; ref+=fstar(d[0],d[1],d[2]); }
  b=evalBarrierValue(s,z,LP,NEXC); rs_assert_eq(b,ref,"barrier value is the sum of the documented primal and dual barriers"); rs_reach("barrier");
#elif PART==3  /* updateScalings fills g and mu*H of every cone from its own part of z */
  cone *C=mkcone(); double s[MMAX],z[MMAX],lam[MMAX],mu=rs_pos("mu"),H[6],g[3]; int l,i,M=M_(); for(i=0;i<MMAX;i++) lam[i]=0; for(i=0;i<M;i++){ s[i]=i<LP?2.0:rs_real("s"); z[i]=i<LP?0.5:rs_real("z"); } i=LP; for(l=0;l<NSOC;l++){ for(int q=0;q<qdim_[l];q++,i++){ s[i]=q?0.0:4.0; z[i]=q?0.0:1.0; } }
  for(l=0;l<NEXC;l++){ double *d=z+C->fexv+3*l; rs_assume(d[0]<0 && d[1]>0); rs_assume(-d[0]-d[0]*log(-d[1]/d[0])+d[2]>0); }
  updateScalings(C,s,z,lam,mu);
  for(l=0;l<NEXC;l++){ evalExpHessian(z+C->fexv+3*l,H,mu); evalExpGradient(z+C->fexv+3*l,g); for(i=0;i<6;i++) rs_assert_eq(C->expc[l].v[i],H[i],"each cone's Hessian is taken at its own multiplier, scaled by mu"); for(i=0;i<3;i++) rs_assert_eq(C->expc[l].g[i],g[i],"each cone's gradient is taken at its own multiplier"); }
  rs_reach("scalings");
#endif
}
