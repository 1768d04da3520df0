#include "orc.h"
#include <vl/mathop.h>
#include <vl/mathop_sse2.h>
#include <vl/mathop_avx.h>
#define D2(n) float _vl_##n##_f(vl_size,float const*,float const*); double _vl_##n##_d(vl_size,double const*,double const*);
D2(distance_l2) D2(distance_l1) D2(distance_chi2) D2(distance_hellinger) D2(distance_js) D2(kernel_l2) D2(kernel_l1) D2(kernel_chi2) D2(kernel_hellinger) D2(kernel_js)
float _vl_distance_mahalanobis_sq_f(vl_size,float const*,float const*,float const*); double _vl_distance_mahalanobis_sq_d(vl_size,double const*,double const*,double const*);
static double term(int t,double x,double y){ switch(t){
 case VlDistanceL1: return fabs(x-y); case VlDistanceL2: return (x-y)*(x-y); case VlDistanceChi2: return x+y==0?0:(x-y)*(x-y)/(x+y);
 case VlDistanceHellinger: return x+y-2*sqrt(x*y); case VlDistanceJS: return (x?x-x*log2(1+y/x):0)+(y?y-y*log2(1+x/y):0);
 case VlKernelL1: return (fabs(x)+fabs(y)-fabs(x-y))/2; case VlKernelL2: return x*y; case VlKernelChi2: return x+y==0?0:2*x*y/(x+y);
 case VlKernelHellinger: return sqrt(x*y); case VlKernelJS: return .5*((x?x*log2(1+y/x):0)+(y?y*log2(1+x/y):0)); } return 0; }
#define GUARD 8
#define BODY(T,S,EPS) \
typedef T (*fn2_##S)(vl_size,T const*,T const*); typedef T (*fn3_##S)(vl_size,T const*,T const*,T const*); \
static struct {const char*n;int t;fn2_##S f;int avx;} tab_##S[]={ \
 {"_vl_distance_l2_" #S,VlDistanceL2,_vl_distance_l2_##S},{"_vl_distance_l1_" #S,VlDistanceL1,_vl_distance_l1_##S},{"_vl_distance_chi2_" #S,VlDistanceChi2,_vl_distance_chi2_##S},{"_vl_distance_hellinger_" #S,VlDistanceHellinger,_vl_distance_hellinger_##S},{"_vl_distance_js_" #S,VlDistanceJS,_vl_distance_js_##S}, \
 {"_vl_kernel_l2_" #S,VlKernelL2,_vl_kernel_l2_##S},{"_vl_kernel_l1_" #S,VlKernelL1,_vl_kernel_l1_##S},{"_vl_kernel_chi2_" #S,VlKernelChi2,_vl_kernel_chi2_##S},{"_vl_kernel_hellinger_" #S,VlKernelHellinger,_vl_kernel_hellinger_##S},{"_vl_kernel_js_" #S,VlKernelJS,_vl_kernel_js_##S}, \
 {"_vl_distance_l2_sse2_" #S,VlDistanceL2,_vl_distance_l2_sse2_##S},{"_vl_distance_l1_sse2_" #S,VlDistanceL1,_vl_distance_l1_sse2_##S},{"_vl_distance_chi2_sse2_" #S,VlDistanceChi2,_vl_distance_chi2_sse2_##S},{"_vl_kernel_l2_sse2_" #S,VlKernelL2,_vl_kernel_l2_sse2_##S},{"_vl_kernel_l1_sse2_" #S,VlKernelL1,_vl_kernel_l1_sse2_##S},{"_vl_kernel_chi2_sse2_" #S,VlKernelChi2,_vl_kernel_chi2_sse2_##S},{"_vl_distance_l2_avx_" #S,VlDistanceL2,_vl_distance_l2_avx_##S,1}}; \
static T ref_scalar_##S(int t,int n,T*x,T*y,double*mag){ double s=0,m=0; for(int i=0;i<n;++i){ double q=term(t,x[i],y[i]); s+=q; m+=fabs(q)+fabs(x[i])+fabs(y[i]); } *mag=m; return s; } \
static int EXTRA_##S; \
static void fill_##S(T*p,int n,int sg){ for(int i=0;i<n;++i) p[i]= rnd(5)==0?0: sg? (T)(rndi(-12,12)/4.0):(T)(rndi(0,16)/4.0); } \
static T cmpf_##S(vl_size d,T const*x,T const*y){ T s=0; for(vl_size i=0;i<d;++i) s+=(i+1)*x[i]*y[i]; s*=2; return s; } \
static void run_##S(void){ \
  int n= rnd(3)?rnd(20):rnd(70); int ox=rnd(5),oy=rnd(5),os=rnd(5); char*bx=xmalloc((n+12)*sizeof(T)+64),*by=xmalloc((n+12)*sizeof(T)+64),*bs=xmalloc((n+12)*sizeof(T)+64); \
  T*X=(T*)(((uintptr_t)bx+31)&~31ull)+ox,*Y=(T*)(((uintptr_t)by+31)&~31ull)+oy,*Q=(T*)(((uintptr_t)bs+31)&~31ull)+os; \
  int k=rnd(17); int t=tab_##S[k].t; int sg=!(t==VlDistanceHellinger||t==VlDistanceJS||t==VlKernelHellinger||t==VlKernelJS)&&rnd(2); fill_##S(X-ox,n+ox,sg); fill_##S(Y-oy,n+oy,sg); fill_##S(Q-os,n+os,0); X[n]=1e6;Y[n]=-1e6; \
  if(tab_##S[k].avx&&!vl_cpu_has_avx()) k=0,t=tab_##S[0].t; double m; \
  CTX("%s dimension %d offsets %d %d:",tab_##S[k].n,n,ox,oy); for(int i=0;i<n&&i<24;++i) ctx_add(" (%g,%g)",(double)X[i],(double)Y[i]); \
  double want=ref_scalar_##S(t,n,X,Y,&m), got=tab_##S[k].f(n,X,Y); CHECK(fabs(got-want)<=EPS*(1+m),"result %.9g, expected %.9g",got,want); \
  struct{const char*n;fn3_##S f;int avx;} t3[]={{"_vl_distance_mahalanobis_sq_" #S,_vl_distance_mahalanobis_sq_##S,0},{"_vl_distance_mahalanobis_sq_sse2_" #S,_vl_distance_mahalanobis_sq_sse2_##S,0},{"_vl_distance_mahalanobis_sq_avx_" #S,_vl_distance_mahalanobis_sq_avx_##S,1}}; \
  for(int q=0;q<3;++q){ if(t3[q].avx&&!vl_cpu_has_avx()) continue; double w=0,mm=0; for(int i=0;i<n;++i){ double d=(double)X[i]-Y[i]; w+=d*d*Q[i]; mm+=fabs(d*d*Q[i]); } CTX("%s dimension %d offsets %d %d %d",t3[q].n,n,ox,oy,os); double g=t3[q].f(n,X,Y,Q); CHECK(fabs(g-w)<=EPS*(1+mm),"result %.9g, expected %.9g",g,w); } \
  /* weighted sums */ \
  for(int q=0;q<4;++q){ void(*f)(vl_size,T*,T const*,T const)= q==0?_vl_weighted_mean_sse2_##S:q==2?_vl_weighted_mean_avx_##S:0; void(*h)(vl_size,T*,T const*,T const*,T const)= q==1?_vl_weighted_sigma_sse2_##S:q==3?_vl_weighted_sigma_avx_##S:0; if(q>=2&&!vl_cpu_has_avx()) continue; \
    char*bd=xmalloc((n+12)*sizeof(T)+64); T*D=(T*)(((uintptr_t)bd+31)&~31ull)+rnd(5); T d0[100]; fill_##S(D,n,1); D[n]=77; memcpy(d0,D,n*sizeof(T)); T W=(T)(rndi(-8,8)/4.0); CTX("weighted %s %s dimension %d W %g",q&1?"sigma":"mean",q>=2?"avx " #S:"sse2 " #S,n,(double)W); if(f) f(n,D,X,W); else h(n,D,X,Y,W); \
    for(int i=0;i<n;++i){ double w=d0[i]+(f? (double)W*X[i] : (double)W*((double)X[i]-Y[i])*((double)X[i]-Y[i])); CHECK(fabs(D[i]-w)<=EPS*(1+fabs(w)+fabs(d0[i])),"entry %d is %g, expected %g",i,(double)D[i],w);} CHECK(D[n]==77,"wrote past the end"); free(bd);} \
  /* dispatch */ \
  vl_set_simd_enabled(rnd(2)); { int tt=tab_##S[rnd(10)].t; double mm; double w=ref_scalar_##S(tt,n,X,Y,&mm); int ok=1; if(tt==VlDistanceHellinger||tt==VlDistanceJS||tt==VlKernelHellinger||tt==VlKernelJS) for(int i=0;i<n;++i) if(X[i]<0||Y[i]<0) ok=0; \
    if(ok){ CTX("vl_get_vector_comparison_function_" #S "(%d) simd %d dimension %d",tt,(int)vl_get_simd_enabled(),n); double g=vl_get_vector_comparison_function_##S(tt)(n,X,Y); CHECK(fabs(g-w)<=EPS*(1+mm),"result %.9g, expected %.9g",g,w);} \
    double w3=0,m3=0; for(int i=0;i<n;++i){ double d=(double)X[i]-Y[i]; w3+=d*d*Q[i]; m3+=fabs(d*d*Q[i]); } CTX("vl_get_vector_3_comparison_function_" #S " simd %d",(int)vl_get_simd_enabled()); double g=vl_get_vector_3_comparison_function_##S(VlDistanceMahalanobis)(n,X,Y,Q); CHECK(fabs(g-w3)<=EPS*(1+m3),"result %g, expected %g",g,w3); } vl_set_simd_enabled(1); \
  /* all pairs */ \
  { int d=rnd(4),a=rnd(6),b=rnd(6),nul=rnd(2); T*P=xmalloc((d*a+1)*sizeof(T)),*R=xmalloc((d*b+1)*sizeof(T)),*O=xmalloc((a*(nul?a:b)+1)*sizeof(T)); fill_##S(P,d*a,1); fill_##S(R,d*b,1); int no=a*(nul?a:b); for(int i=0;i<=no;++i) O[i]=-555; \
    CTX("all pairs " #S " dimension %d numX %d numY %d%s",d,a,b,nul?" (no Y)":""); vl_eval_vector_comparison_on_all_pairs_##S(O,d,P,a,nul?NULL:R,b,cmpf_##S); CHECK(O[no]==-555,"wrote past the end"); \
    if(d) for(int i=0;i<a;++i) for(int j=0;j<(nul?a:b);++j){ T w=cmpf_##S(d,P+i*d,(nul?P:R)+j*d); CHECK(O[i+j*a]==w,"entry (%d,%d) is %g, expected %g",i,j,(double)O[i+j*a],(double)w);} free(P);free(R);free(O);} \
  free(bx);free(by);free(bs); CASE(); }
BODY(float,f,2e-5)
BODY(double,d,1e-12)
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ run_f(); run_d(); } return orc_end(); }
