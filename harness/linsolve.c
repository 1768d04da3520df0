#include "orc.h"
#include <vl/mathop.h>
static double ent(int k){ switch(k){ case 0: return rndi(-3,3); case 1: return rnd(3)?0:rndi(-2,2); default: return 4*rndu()-2; } }
static double det3(double const*A){ return A[0]*(A[4]*A[8]-A[7]*A[5])-A[3]*(A[1]*A[8]-A[7]*A[2])+A[6]*(A[1]*A[5]-A[4]*A[2]); }
static void system_(int n){ double A[9],b[3],x[3]={7,7,7}; int k=rnd(3); for(int i=0;i<n*n;++i) A[i]=ent(k); for(int i=0;i<n;++i) b[i]=ent(rnd(3)); if(rnd(6)==0) for(int i=0;i<n;++i) A[i+n*(n-1)]=(rnd(2)?2:0)*A[i];
  CTX("vl_solve_linear_system_%d A",n); for(int i=0;i<n*n;++i) ctx_add(" %.17g",A[i]); ctx_add(" b"); for(int i=0;i<n;++i) ctx_add(" %.17g",b[i]);
  int e=n==3?vl_solve_linear_system_3(x,A,b):vl_solve_linear_system_2(x,A,b); double d=n==3?det3(A):A[0]*A[3]-A[1]*A[2]; CHECK(e==0||e==VL_ERR_OVERFLOW,"status %d",e);
  if(e) CHECK(fabs(d)<1e-8,"reports failure for determinant %.9g",d); if(fabs(d)<1e-14) return;
  if(!e){ double m=0; for(int i=0;i<n;++i) m=fmax(m,fabs(x[i])); for(int i=0;i<n;++i){ double s=-b[i]; for(int j=0;j<n;++j) s+=A[i+n*j]*x[j]; CHECK(fabs(s)<=1e-9*(1+m),"equation %d is off by %.9g",i,s); } } CASE(); }
static void general(void){ int n=1+rnd(6),m=n+rnd(4); double A[6*9],A0[6*9]; int k=rnd(3); for(int i=0;i<n*m;++i) A0[i]=A[i]=ent(k); CTX("vl_gaussian_elimination %dx%d kind %d",n,m,k); for(int i=0;i<n*m;++i) ctx_add(" %.9g",A[i]);
  int e=vl_gaussian_elimination(A,n,m); CHECK(e==0||e==VL_ERR_OVERFLOW,"status %d",e); if(!e) for(int q=n;q<m;++q){ double mx=0; for(int i=0;i<n;++i) mx=fmax(mx,fabs(A[i+n*q])); for(int i=0;i<n;++i){ double s=-A0[i+n*q]; for(int j=0;j<n;++j) s+=A0[i+n*j]*A[j+n*q]; CHECK(!(mx<1e6)||fabs(s)<=1e-8*(1+mx),"column %d equation %d is off by %.9g",q,i,s); } } CASE(); }
static double wide(void){ switch(rnd(7)){ case 0: return 0; case 1: return rndi(-2,2); case 2: return ldexp(2*rndu()-1,rndi(-60,60)); case 3: return rndi(-2,2)*ldexp(1,rndi(-70,70)); default: return 4*rndu()-2; } }
static void svd(void){ double M[4],S[4],U[4],V[4],e=0,mx=0; for(int i=0;i<4;++i){ M[i]=wide(); mx=fmax(mx,fabs(M[i])); } CTX("vl_svd2 M %.17g %.17g %.17g %.17g",M[0],M[1],M[2],M[3]); int ou=rnd(8)==0,ov=rnd(8)==0; vl_svd2(S,U,V,M); double S2[4],U2[4],V2[4]; vl_svd2(S2,ou?0:U2,ov?0:V2,M); CHECK(!memcmp(S,S2,sizeof S),"values depend on the requested factors");
  for(int i=0;i<2;++i) for(int j=0;j<2;++j){ double r=U[i]*S[0]*V[j]+U[i+2]*S[3]*V[j+2]; CHECK(fabs(r-M[i+2*j])<=1e-10*mx,"the factors multiply to %.9g, not %.9g",r,M[i+2*j]); }
  double*F[2]={U,V}; for(int f=0;f<2;++f){ double*Q=F[f]; CHECK(fabs(Q[0]*Q[0]+Q[1]*Q[1]-1)<1e-9&&fabs(Q[2]*Q[2]+Q[3]*Q[3]-1)<1e-9&&fabs(Q[0]*Q[2]+Q[1]*Q[3])<1e-9,"factor %d is not orthogonal",f); }
  CHECK(fabs(S[0])>=fabs(S[3])-1e-12*mx&&S[1]==0&&S[2]==0,"singular values %.9g %.9g",S[0],S[3]); CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ system_(2); system_(3); general(); svd(); } return orc_end(); }
