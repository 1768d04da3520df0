#include "orc.h"
#include <vl/rodrigues.h>
#include <vl/mathop.h>
static double N3(double const*v){ return sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); }
static void ref(double R[9],double const*n,double th){ double s=sin(th),m=2*sin(th/2)*sin(th/2),x=n[0],y=n[1],z=n[2]; double K[9]={0,z,-y,-z,0,x,y,-x,0}; for(int j=0;j<3;++j) for(int i=0;i<3;++i){ double k2=0; for(int l=0;l<3;++l) k2+=K[i+3*l]*K[l+3*j]; R[i+3*j]=(i==j)+s*K[i+3*j]+m*k2; } }
static double diff(double const*a,double const*b,int n){ double d=0; for(int i=0;i<n;++i){ if(!(fabs(a[i]-b[i])<1e300)) return INFINITY; d=fmax(d,fabs(a[i]-b[i])); } return d; }
static void vec(double*v){ switch(rnd(5)){ case 0: for(int i=0;i<3;++i) v[i]=rndi(-2,2); break; case 1: for(int i=0;i<3;++i) v[i]=rnd(3)?2*rndu()-1:0; break; default: for(int i=0;i<3;++i) v[i]=2*rndu()-1; } }
static void forward(double const*w){ double R[10],D[28],E[9],n[3],th=N3(w),h=1e-5; memset(D,0x5a,sizeof D); memset(R,0x5a,sizeof R); double gR=R[9],gD=D[27]; vl_rodrigues(R,rnd(2)?D:0,w); double T[9]; memcpy(T,R,72); vl_rodrigues(R,D,w); CHECK(!memcmp(T,R,72),"result differs with the derivative requested"); CHECK(!memcmp(&gR,R+9,8)&&!memcmp(&gD,D+27,8),"wrote past the output");
  for(int i=0;i<3;++i) n[i]=th>0?w[i]/th:0; ref(E,n,th); CHECK(diff(R,E,9)<2e-6*(th<1e-6?1:1e-6)+1e-14*(1+th),"matrix differs from the Rodrigues formula by %.3g",diff(R,E,9));
  for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double d=0; for(int k=0;k<3;++k) d+=R[k+3*i]*R[k+3*j]; CHECK(fabs(d-(i==j))<1e-13*(1+th),"columns %d and %d have product %.17g",i,j,d); }
  for(int k=0;k<3;++k){ double P[9],M[9],u[3],v[3],a[3],b[3]; for(int i=0;i<3;++i) u[i]=v[i]=w[i]; u[k]+=h; v[k]-=h; double tu=N3(u),tv=N3(v); for(int i=0;i<3;++i){ a[i]=tu>0?u[i]/tu:0; b[i]=tv>0?v[i]/tv:0; } ref(P,a,tu); ref(M,b,tv); for(int i=0;i<9;++i){ double g=(P[i]-M[i])/(2*h); CHECK(fabs(D[i+9*k]-g)<1e-5,"derivative of entry %d along %d is %.9g, should be %.9g",i,k,D[i+9*k],g); } } }
static void inverse(double const*R,double th,char const*what){ double w[4]={0,0,0,7},w2[3],D[28],n[3],Q[9]; D[27]=5; vl_irodrigues(w,0,R); vl_irodrigues(w2,D,R); CHECK(!memcmp(w,w2,24)||(w[0]!=w[0]),"result differs with the derivative requested"); CHECK(w[3]==7&&D[27]==5,"wrote past the output"); double t=N3(w); CHECK(t==t&&t<1e300,"%s: the vector is (%g %g %g)",what,w[0],w[1],w[2]); CHECK(t<=VL_PI+5e-3,"%s: angle %.9g beyond pi",what,t); for(int i=0;i<3;++i) n[i]=t>0?w[i]/t:0; ref(Q,n,t); double s=fmax(fabs(sin(th)),1e-6); CHECK(diff(Q,R,9)<1e-14/s/s+3e-6*(fabs(sin(th))<2e-6)+1e-12,"%s: vector (%.12g %.12g %.12g) is another rotation, matrices differ by %.3g (angle %.12g)",what,w[0],w[1],w[2],diff(Q,R,9),th); 
  double c=cos(th); if(fabs(sin(th))>1e-2||(fabs(sin(th))<1e-7&&c>0)) { /* directional derivative along the group: R(t) = R exp(t K_k) */ for(int k=0;k<3;++k){ double g[3]={0},dR[9],e[3]={0},a[3],b[3],h=1e-5,A[9],B[9],S[9],dw; e[k]=1; ref(S,e,VL_PI/2); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double q=0; for(int l=0;l<3;++l) q+=R[i+3*l]*((l==0&&j==1)?(k==2?-1:0):(l==1&&j==0)?(k==2?1:0):(l==0&&j==2)?(k==1?1:0):(l==2&&j==0)?(k==1?-1:0):(l==1&&j==2)?(k==0?-1:0):(l==2&&j==1)?(k==0?1:0):0); dR[i+3*j]=q; }
      for(int s2=0;s2<2;++s2){ double F[9]; ref(S,e,s2?-h:h); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double q=0; for(int l=0;l<3;++l) q+=R[i+3*l]*S[l+3*j]; F[i+3*j]=q; } memcpy(s2?B:A,F,72); } vl_irodrigues(a,0,A); vl_irodrigues(b,0,B); if(fabs(sin(th))<1e-3) continue; for(int i=0;i<3;++i){ for(int l=0;l<9;++l) g[i]+=D[i+3*l]*dR[l]; dw=(a[i]-b[i])/(2*h); CHECK(fabs(g[i]-dw)<1e-4/fabs(sin(th)),"%s: derivative of component %d along generator %d is %.9g, should be %.9g",what,i,k,g[i],dw); } } } }
static void one(void){ double w[3],n[3],R[9],th; vec(w); th=N3(w); if(th==0){ CTX("vector 0"); forward(w); vl_rodrigues(R,0,w); inverse(R,0,"zero"); CASE(); return; } for(int i=0;i<3;++i) n[i]=w[i]/th;
  switch(rnd(7)){ case 0: th=VL_PI; break; case 1: th=VL_PI-ldexp(rndu(),-rndi(2,50)); break; case 2: th=ldexp(rndu(),-rndi(2,40)); break; case 3: th=VL_PI/2*rnd(3); break; case 4: th=rndu()*12; break; default: th=rndu()*VL_PI; } for(int i=0;i<3;++i) w[i]=n[i]*th; CTX("vector %.17g %.17g %.17g",w[0],w[1],w[2]); if(th>2e-5||th<5e-7) if(th>1e-3||th<1e-9) forward(w);
  double t=th; while(t>VL_PI) t=fabs(t-2*VL_PI); vl_rodrigues(R,0,w); inverse(R,t,"matrix of the vector"); if(rnd(2)){ double S[9],Q[9],v[3]; vec(v); if(rnd(2)) for(int i=0;i<3;++i) v[i]=-w[i]+(rnd(2)?1e-9*v[i]:0); ctx_add(" times %.17g %.17g %.17g",v[0],v[1],v[2]); vl_rodrigues(S,0,v); double tr=0; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double q=0; for(int l=0;l<3;++l) q+=R[i+3*l]*S[l+3*j]; Q[i+3*j]=q; if(i==j) tr+=q; } double a=Q[5]-Q[7],b=Q[6]-Q[2],d=Q[1]-Q[3]; inverse(Q,atan2(sqrt(a*a+b*b+d*d),tr-1),"product of rotations"); } CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t) one(); return orc_end(); }
