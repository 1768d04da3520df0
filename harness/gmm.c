#include "orc.h"
#include <vl/gmm.h>
static int D,K,N,isf; static double X[2000],mu[200],cv[200],w[20]; static float Xf[2000];
static double get(void const*p,int i){ return isf?((float const*)p)[i]:((double const*)p)[i]; }
/* reference: responsibilities and log-likelihood with the given parameters */
static long double estep(double const*mu,double const*cv,double const*w,long double*P){ long double LL=0; for(int i=0;i<N;++i){ long double m=-1e4900L,s=0; for(int k=0;k<K;++k){ long double p=w[k]<1e-6?-INFINITY:logl(w[k]); for(int d=0;d<D;++d){ long double z=X[i*D+d]-(long double)mu[k*D+d]; p-=.5L*(logl(2*M_PIl)+logl(cv[k*D+d])+z*z/cv[k*D+d]); } P[i*K+k]=p; if(p>m) m=p; } for(int k=0;k<K;++k) s+=expl(P[i*K+k]-m); for(int k=0;k<K;++k) P[i*K+k]=expl(P[i*K+k]-m)/s; LL+=m+logl(s); } return LL; }
static void check_post(char const*who,VlGMM*g,double LL){ double m2[200],c2[200],w2[20]; for(int i=0;i<K*D;++i){ m2[i]=get(vl_gmm_get_means(g),i); c2[i]=get(vl_gmm_get_covariances(g),i); } for(int k=0;k<K;++k) w2[k]=get(vl_gmm_get_priors(g),k);
  int ok=0; for(int k=0;k<K;++k) ok|=w2[k]>1e-5; if(!ok) return; for(int i=0;i<K*D;++i) if(!(c2[i]>1e-30)||!(fabs(m2[i])<1e15)) return;
  long double*P=xmalloc(sizeof*P*N*K); long double L=estep(m2,c2,w2,P); double big=0; for(int i=0;i<N;++i) for(int k=0;k<K;++k){ long double e=0; for(int d=0;d<D;++d){ long double z=X[i*D+d]-(long double)m2[k*D+d]; e+=z*z/c2[k*D+d]+fabs(m2[k*D+d]*z/c2[k*D+d]); } if(e>big) big=e; }
  double rel=isf?4e-6:1e-13; double tol=isf?2e-5+rel*big:1e-9+rel*big; if(tol<.05){ for(int i=0;i<N;++i){ double s=0; for(int k=0;k<K;++k){ double p=get(vl_gmm_get_posteriors(g),i*K+k); CHECK(p>=0&&fabs(p-P[i*K+k])<=tol,"%s: posterior of component %d for point %d is %g, should be %g",who,k,i,p,(double)P[i*K+k]); s+=p; } CHECK(fabs(s-1)<1e-4,"%s: posteriors of point %d sum to %g",who,i,s); }
   double at=(isf?1e-4:1e-10)*(N*(2.+D)+fabs((double)L))+N*tol; CHECK(fabs(LL-(double)L)<=at,"%s: log-likelihood %.9g, should be %.9g",who,LL,(double)L); } free(P); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ D=1+rnd(rnd(4)?4:18); K=1+rnd(rnd(3)?4:9); N=1+rnd(rnd(3)?12:60); isf=rnd(2); int simd=rnd(2); vl_set_simd_enabled(simd); double sc=rnd(3)?1:ldexp(1,rndi(-4,4));
  for(int i=0;i<N*D;++i){ double v=sc*(rnd(4)?3*rndu()-1:rndi(-3,3)); Xf[i]=v; X[i]=isf?Xf[i]:v; } double sw=0; for(int k=0;k<K;++k){ w[k]=rnd(12)?.05+rndu():(rnd(2)&&k?0:1e-3); sw+=w[k]; } for(int k=0;k<K;++k) w[k]/=sw; for(int i=0;i<K*D;++i){ mu[i]=sc*(rnd(2)?3*rndu()-1:X[rnd(N*D)]); cv[i]=sc*sc*(.05+2*rndu()); }
  float muf[200],cvf[200],wf[20]; for(int i=0;i<K*D;++i){ muf[i]=mu[i]; cvf[i]=cv[i]; } for(int k=0;k<K;++k) wf[k]=w[k];
  CTX("%s simd %d dim %d components %d points %d:",isf?"float":"double",simd,D,K,N); for(int i=0;i<N*D&&i<50;++i) ctx_add(" %.9g",X[i]); ctx_add(" means"); for(int i=0;i<K*D&&i<40;++i) ctx_add(" %.9g",mu[i]); ctx_add(" covariances"); for(int i=0;i<K*D&&i<40;++i) ctx_add(" %.9g",cv[i]); ctx_add(" priors"); for(int k=0;k<K;++k) ctx_add(" %.9g",w[k]);
  VlGMM*g=vl_gmm_new(isf?VL_TYPE_FLOAT:VL_TYPE_DOUBLE,D,K); vl_gmm_set_means(g,isf?(void*)muf:mu); vl_gmm_set_covariances(g,isf?(void*)cvf:cv); vl_gmm_set_priors(g,isf?(void*)wf:w); vl_gmm_set_initialization(g,VlGMMCustom); vl_gmm_set_covariance_lower_bound(g,1e-12); void*data=isf?(void*)Xf:X;
  vl_gmm_set_max_num_iterations(g,0); double LL=vl_gmm_em(g,data,N); check_post("given parameters",g,LL);
  if(rnd(2)){ double LL2=vl_gmm_cluster(g,data,N); check_post("cluster, no iterations",g,LL2); CHECK(LL2==vl_gmm_get_loglikelihood(g),"stored log-likelihood"); }
  /* one EM update */
  long double*P=xmalloc(sizeof*P*N*K); int skip=0; for(int i=0;i<N*K;++i){ double p=get(vl_gmm_get_posteriors(g),i); P[i]=p; if(p<.0101/K&&p>0) skip=1; }
  vl_gmm_set_max_num_iterations(g,1); LL=vl_gmm_em(g,data,N); check_post("after one update",g,LL);
  { long double mass[20],tot=0; for(int k=0;k<K;++k){ mass[k]=0; for(int i=0;i<N;++i) if(P[i*K+k]>=.01L/K) mass[k]+=P[i*K+k]; tot+=mass[k]; } for(int i=0;i<N*K;++i) if(fabsl(P[i]-.01L/K)<1e-4L/K) goto done; double tol=isf?1e-4:1e-9; for(int k=0;k<K;++k){ double p=get(vl_gmm_get_priors(g),k); CHECK(fabs(p-mass[k]/tot)<=tol,"updated weight %d is %g, should be %g",k,p,(double)(mass[k]/tot)); if(mass[k]>.02) for(int d=0;d<D;++d){ long double m=0,v=0; for(int i=0;i<N;++i) if(P[i*K+k]>=.01L/K) m+=P[i*K+k]*X[i*D+d]; m/=mass[k]; for(int i=0;i<N;++i) if(P[i*K+k]>=.01L/K) v+=P[i*K+k]*(X[i*D+d]-m)*(X[i*D+d]-m); v/=mass[k]; double a=get(vl_gmm_get_means(g),k*D+d),b=get(vl_gmm_get_covariances(g),k*D+d); CHECK(fabs(a-m)<=tol*3*sc,"updated mean %d,%d is %g, should be %g",k,d,a,(double)m); if(v<1e-12) v=1e-12; CHECK(fabs(b-v)<=tol*60*sc*sc,"updated covariance %d,%d is %g, should be %g",k,d,b,(double)v); } } done:; } free(P);
  /* fits from scratch */
  if(N>=K&&rnd(2)){ vl_rand_seed(vl_get_rand(),rnd(1000)); vl_gmm_set_covariance_lower_bound(g,1e-3*sc*sc); vl_gmm_set_initialization(g,rnd(2)?VlGMMRand:VlGMMKMeans); vl_gmm_set_max_num_iterations(g,rnd(6)); vl_gmm_set_num_repetitions(g,1+rnd(2)); LL=vl_gmm_cluster(g,data,N); ctx_add(" fitted from scratch"); check_post("fitted model",g,LL); CHECK(LL==vl_gmm_get_loglikelihood(g)||isnan(LL),"stored log-likelihood"); VlGMM*h=vl_gmm_new_copy(g); for(int i=0;i<K*D;++i) CHECK(get(vl_gmm_get_means(h),i)==get(vl_gmm_get_means(g),i)&&get(vl_gmm_get_covariances(h),i)==get(vl_gmm_get_covariances(g),i),"copy"); vl_gmm_delete(h); }
  vl_gmm_delete(g); CASE(); } return orc_end(); }
