/* C09: real updateScalings/scale/unscale/scale2add.
 *  PART 0: pair given by MODE (symbolic, scaled concrete, or rational parametrisation of arbitrary scaling points) */
#include "common.h"
#ifndef MODE
#define MODE 0
#endif
static void nt(double *s,double *z){ idxint i,l,k=0;
  for(i=0;i<LP;i++){ s[k]=rs_pos("s"); z[k]=rs_pos("z"); k++; }
  for(l=0;l<NSOC;l++){ idxint q=qdim_[l];
#if MODE==0  /* arbitrary */
    double a=0,b=0; idxint k0=k; for(i=0;i<q;i++){ s[k]=i?rs_real("s"):rs_pos("s"); z[k]=i?rs_real("z"):rs_pos("z"); if(i){ a+=s[k]*s[k]; b+=z[k]*z[k]; } k++; }
    if(q>1) rs_assume(s[k0]*s[k0]>a && z[k0]*z[k0]>b);
#elif MODE==1 /* s=(a,v), z=(a,-v), a^2-|v|^2=1: every normalised scaling point arises */
    double t=rs_pos("t"),r=q>2?rs_real("r"):0,sh=(1-t*t)/(2*t); s[k]=z[k]=(1+t*t)/(2*t);
    if(q>1){ s[k+1]=q>2?sh*(1-r*r)/(1+r*r):sh; z[k+1]=-s[k+1]; } if(q>2){ s[k+2]=sh*2*r/(1+r*r); z[k+2]=-s[k+2]; } for(i=3;i<q;i++){ s[k+i]=z[k+i]=0; } k+=q;
#elif MODE==2 /* concrete directions with symbolic magnitudes */
    static const double S[4][4]={{2,0,0,0},{5,3,0,0},{3,2,1,0},{5,2,-2,4}}, Z[4][4]={{1,0,0,0},{5,-4,0,0},{9,-4,8,0},{2,1,1,1}};
    double x=rs_pos("mag"); for(i=0;i<q;i++){ s[k]=x*x*S[q-1][i]; z[k]=Z[q-1][i]; k++; }
#else /* concrete */
    static const double S[6][6]={{2},{5,3},{3,2,1},{5,2,-2,4},{4,1,-1,3,2},{3,1,-1,1,1,-1}}, Z[6][6]={{1},{5,-4},{9,-4,8},{2,1,1,1},{5,2,2,-2,2},{7,1,-1,1,-1,6}};
    for(i=0;i<q;i++){ s[k]=S[q-1][i]; z[k]=Z[q-1][i]; k++; }
#endif
  } }
void harness(void){ cone *C=mkcone(); idxint M=M_(),i,l,k; double s[MMAX],z[MMAX],lam[MMAX],u[MMAX],v[MMAX],x[MMAX];
  for(i=0;i<MMAX;i++) lam[i]=u[i]=v[i]=x[i]=0;
  nt(s,z); idxint rc=updateScalings(C,s,z,lam,1.0);
  rs_assert(rc==INSIDE_CONE,"a strictly interior pair is accepted"); if(rc!=INSIDE_CONE) return;
  rs_reach("scaled");
#if CHK & 1
  scale(z,C,u); for(i=0;i<M;i++) rs_assert_eq(u[i],lam[i],"lambda = W z");
  unscale(s,C,v); for(i=0;i<M;i++) rs_assert_eq(v[i],lam[i],"W z = W^-1 s");
#endif
#if CHK & 2
  symvec(x,M,"x"); scale(x,C,u); unscale(u,C,v); for(i=0;i<M;i++) rs_assert_eq(v[i],x[i],"un-applying the scaling undoes applying it");
  unscale(x,C,u); scale(u,C,v); for(i=0;i<M;i++) rs_assert_eq(v[i],x[i],"applying the scaling undoes un-applying it");
#endif
#if CHK & 4
  { double X[2*MMAX],Y[2*MMAX],Y0[2*MMAX]; idxint e=0,j=0; symvec(x,M,"x"); scale(x,C,u); scale(u,C,v);
    for(i=0;i<2*MMAX;i++) X[i]=Y[i]=0;
    for(i=0;i<LP;i++) X[e++]=x[j++];
    for(l=0;l<NSOC;l++){ double qx=0; idxint q=qdim_[l]; for(i=1;i<q;i++) qx+=C->soc[l].q[i-1]*x[j+i]; for(i=0;i<q;i++) X[e+i]=x[j+i]; X[e+q]=-C->soc[l].v1*qx; X[e+q+1]=C->soc[l].u0*x[j]+C->soc[l].u1*qx; e+=q+2; j+=q; }
    for(i=0;i<e;i++) Y0[i]=Y[i]=rs_real("y");
    scale2add(X,Y,C);
    e=j=0; for(i=0;i<LP;i++){ rs_assert_eq(Y[e]-Y0[e],v[j],"the squared scaling is the scaling applied twice (linear cone)"); e++; j++; }
    for(l=0;l<NSOC;l++){ idxint q=qdim_[l]; for(i=0;i<q;i++) rs_assert_eq(Y[e+i]-Y0[e+i],v[j+i],"the squared scaling in expanded form is the scaling applied twice (second-order cone)");
      rs_assert_eq(Y[e+q],Y0[e+q],"the expansion rows vanish at the eliminated auxiliaries"); rs_assert_eq(Y[e+q+1],Y0[e+q+1],"the expansion rows vanish at the eliminated auxiliaries"); e+=q+2; j+=q; } }
#endif
#if CHK & 8   /* a pair outside a second-order cone is reported */
  { k=LP; int out=(int)rs_int(0,NSOC-1,"which"); int sz=(int)rs_int(0,1,"sz"); for(l=0;l<NSOC;l++){ if(l==out){ double *p=(sz?z:s)+k, ss=0; for(i=0;i<qdim_[l];i++){ p[i]=rs_real("o"); if(i) ss+=p[i]*p[i]; } rs_assume((p[0]<0)|(p[0]*p[0]<=ss)); } k+=qdim_[l]; }
    rs_assert(updateScalings(C,s,z,lam,1.0)==OUTSIDE_CONE,"a pair outside a second-order cone is reported as outside"); rs_reach("outside"); }
#endif
}
