#include "orc.h"
#include <vl/fisher.h>
#include <vl/gmm.h>
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ int D=1+rnd(rnd(4)?4:12),K=1+rnd(rnd(4)?4:8),N=rnd(rnd(3)?8:40),isf=rnd(2),fl=rnd(8),big=D*K; vl_set_simd_enabled(rnd(2));
  float*xf=xmalloc(4*N*D),*mf=xmalloc(4*big),*cf=xmalloc(4*big),*wf=xmalloc(4*K),*ef=xmalloc(8*big); double*x=xmalloc(8*N*D),*m=xmalloc(8*big),*cv=xmalloc(8*big),*w=xmalloc(8*K),*e=xmalloc(16*big);
  for(int i=0;i<N*D;++i){ double v=rnd(4)?4*rndu()-2:rndi(-2,2); xf[i]=v; x[i]=isf?xf[i]:v; } for(int i=0;i<big;++i){ double v=rnd(4)?4*rndu()-2:rndi(-2,2); mf[i]=v; m[i]=isf?mf[i]:v; v=.05+3*rndu(); cf[i]=v; cv[i]=isf?cf[i]:v; }
  double sw=0; for(int k=0;k<K;++k){ w[k]=rnd(6)?.05+rndu():(k?(rnd(2)?0:(rnd(2)?5e-5:rnd(2)?2e-6:3e-7)):1); sw+=w[k]; } for(int k=0;k<K;++k){ wf[k]=w[k]/=sw; if(isf) w[k]=wf[k]; }
  for(int i=0;i<2*big;++i){ ef[i]=NAN; e[i]=NAN; }
  CTX("%s dim %d components %d points %d flags %d points:",isf?"float":"double",D,K,N,fl); for(int i=0;i<N*D&&i<40;++i) ctx_add(" %.9g",x[i]); ctx_add(" means"); for(int i=0;i<big&&i<40;++i) ctx_add(" %.9g",m[i]); ctx_add(" covariances"); for(int i=0;i<big&&i<40;++i) ctx_add(" %.9g",cv[i]); ctx_add(" priors"); for(int k=0;k<K;++k) ctx_add(" %.9g",w[k]);
  vl_size nt=vl_fisher_encode(isf?(void*)ef:e,isf?VL_TYPE_FLOAT:VL_TYPE_DOUBLE,isf?(void*)mf:m,D,K,isf?(void*)cf:cv,isf?(void*)wf:w,isf?(void*)xf:x,N,fl);
  int risky=0; double rel=isf?4e-6:1e-13; long double*p=xmalloc(sizeof*p*N*K),*r=xmalloc(sizeof*r*2*big); double*er=xmalloc(16*big),*pe=xmalloc(8*N*K); for(int k=0;k<K;++k) if(fabs(w[k]-1e-6)<1e-9) risky=1;
  for(int i=0;i<N;++i){ long double mx=-INFINITY,s=0; double be=0; for(int k=0;k<K;++k){ long double q=w[k]<1e-6?-INFINITY:logl(w[k]); double ab=0; for(int d=0;d<D;++d){ long double z=x[i*D+d]-(long double)m[k*D+d]; q-=.5L*(logl(2*M_PIl)+logl(cv[k*D+d])+z*z/cv[k*D+d]); ab+=2+fabsl(logl(cv[k*D+d]))+z*z/cv[k*D+d]*2; } p[i*K+k]=q; if(q>mx) mx=q; if(ab>be&&w[k]>=1e-6) be=ab; } for(int k=0;k<K;++k) s+=expl(p[i*K+k]-mx); int b=0; for(int k=0;k<K;++k){ p[i*K+k]=expl(p[i*K+k]-mx)/s; pe[i*K+k]=p[i*K+k]*rel*(be+10); if(p[i*K+k]>p[i*K+b]) b=k; } if(be*rel>.01) risky=1;
   if(fl&4) for(int k=0;k<K;++k){ if(k!=b&&p[i*K+k]>p[i*K+b]*(1-1e-3)) risky=1; } if(fl&4){ for(int k=0;k<K;++k){ p[i*K+k]=k==b; pe[i*K+k]=0; } } else for(int k=0;k<K;++k) if(fabsl(p[i*K+k]-1e-6L)<1e-8L) risky=1; }
  vl_size want=0; double eg=0; long double gn=0; for(int i=0;i<2*big;++i){ r[i]=0; er[i]=0; }
  for(int k=0;k<K;++k) if(w[k]>=1e-6){ for(int i=0;i<N;++i) if(p[i*K+k]>=1e-6L){ want++; for(int d=0;d<D;++d){ long double z=(x[i*D+d]-(long double)m[k*D+d])/sqrtl(cv[k*D+d]); r[k*D+d]+=p[i*K+k]*z; r[big+k*D+d]+=p[i*K+k]*(z*z-1); double ez=rel*(fabsl(z)+fabs(m[k*D+d])/sqrt(cv[k*D+d])+fabs(x[i*D+d])/sqrt(cv[k*D+d])); er[k*D+d]+=pe[i*K+k]*fabsl(z)+p[i*K+k]*ez; er[big+k*D+d]+=pe[i*K+k]*(z*z+1)+p[i*K+k]*(2*fabsl(z)*ez+rel); } } if(N) for(int d=0;d<D;++d){ double u=1/(N*sqrt(w[k])),v=u/sqrt(2); r[k*D+d]*=u; er[k*D+d]*=u; r[big+k*D+d]*=v; er[big+k*D+d]*=v; } }
  if(!risky){ CHECK(nt==want,"returns %lu, should be %lu",(long)nt,(long)want);
   for(int i=0;i<2*big;++i){ double a=fabsl(r[i]); er[i]=3*er[i]*(1+.1*N)+rel*a; if(fl&1){ er[i]=a>er[i]*4?er[i]/sqrt(a):3*sqrt(er[i]); r[i]=r[i]>=0?sqrtl(r[i]):-sqrtl(-r[i]); er[i]+=rel*fabsl(r[i]); } gn+=r[i]*r[i]; eg+=er[i]; } gn=sqrtl(gn);
   if((fl&2)&&eg>1e-2*gn&&gn+eg>1e-13) risky=1; if(gn<1e-12L) gn=1e-12L; if(!risky) for(int i=0;i<2*big;++i){ if(fl&2){ r[i]/=gn; er[i]=(er[i]+eg)/gn*1.1+rel*big; } double g=isf?ef[i]:e[i]; CHECK(fabsl(g-r[i])<=er[i]+1e-30,"encoding[%s order, component %d, dim %d] is %.9g, should be %.9g",i<big?"first":"second",i%big/D,i%D,g,(double)r[i]); } }
  free(xf);free(mf);free(cf);free(wf);free(ef);free(x);free(m);free(cv);free(w);free(e);free(p);free(r);free(er);free(pe); CASE(); } return orc_end(); }
