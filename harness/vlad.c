#include "orc.h"
#include <vl/vlad.h>
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ int D=1+rnd(rnd(4)?4:20),K=1+rnd(rnd(4)?4:9),N=rnd(rnd(3)?8:50),isf=rnd(2),fl=rnd(16); int big=D*K;
  float*xf=xmalloc(4*N*D),*af=xmalloc(4*N*K),*mf=xmalloc(4*big),*ef=xmalloc(4*big); double*x=xmalloc(8*N*D),*a=xmalloc(8*N*K),*m=xmalloc(8*big),*e=xmalloc(8*big);
  for(int i=0;i<N*D;++i){ double v=rnd(4)?4*rndu()-2:rndi(-2,2); xf[i]=v; x[i]=isf?xf[i]:v; } for(int i=0;i<big;++i){ double v=rnd(4)?4*rndu()-2:rndi(-2,2); mf[i]=v; m[i]=isf?mf[i]:v; }
  int hard=rnd(2); for(int i=0;i<N;++i){ int q=rnd(K); for(int k=0;k<K;++k){ double v=hard?k==q:(rnd(3)?rndu()*(rnd(8)?1:1e-3):0); af[i*K+k]=v; a[i*K+k]=isf?af[i*K+k]:v; } }
  for(int i=0;i<big;++i){ ef[i]=NAN; e[i]=NAN; }
  CTX("%s dim %d centers %d points %d flags %d %s assignments:",isf?"float":"double",D,K,N,fl,hard?"hard":"soft"); for(int i=0;i<N*D&&i<40;++i) ctx_add(" %.9g",x[i]); ctx_add(" centers"); for(int i=0;i<big&&i<40;++i) ctx_add(" %.9g",m[i]); ctx_add(" assignments"); for(int i=0;i<N*K&&i<40;++i) ctx_add(" %.9g",a[i]);
  vl_vlad_encode(isf?(void*)ef:e,isf?VL_TYPE_FLOAT:VL_TYPE_DOUBLE,isf?(void*)mf:m,D,K,isf?(void*)xf:x,N,isf?(void*)af:a,fl);
  long double*r=xmalloc(sizeof*r*big); double*er=xmalloc(8*big); double rel=isf?2e-6:1e-14,eg=0; long double gn=0; int risky=0;
  for(int k=0;k<K;++k){ long double ms=0; for(int i=0;i<N;++i) ms+=a[i*K+k]; long double cn=0; double ce=0; for(int d=0;d<D;++d){ long double s=0,ab=0; for(int i=0;i<N;++i){ s+=(long double)a[i*K+k]*x[i*D+d]; ab+=fabsl((long double)a[i*K+k]*x[i*D+d]); } ab+=ms*fabs(m[k*D+d]); s-=ms*m[k*D+d]; if((fl&8)&&ms>0){ s/=ms; ab/=ms; } double er0=rel*(N+2)*ab; if(fl&2){ if(fabsl(s)>0||er0>0) er0=sqrtl(fabsl(s)+er0)-sqrtl(fabsl(s))<er0/sqrtl(fabsl(s)+1e-300L)?sqrtl(fabsl(s)+er0)-sqrtl(fabsl(s))+sqrt(er0)*(fabsl(s)<4*er0):er0/sqrtl(fabsl(s)); s=s>=0?sqrtl(s):-sqrtl(-s); er0+=rel*fabsl(s); } r[k*D+d]=s; er[k*D+d]=er0; cn+=s*s; ce+=er0; }
   if(fl&1){ cn=sqrtl(cn); if(ce>1e-3*cn&&cn+ce>1e-13) risky=1; if(cn<1e-12L) cn=1e-12L; for(int d=0;d<D;++d){ r[k*D+d]/=cn; er[k*D+d]=(er[k*D+d]+ce)/cn+rel*2; } } for(int d=0;d<D;++d){ gn+=r[k*D+d]*r[k*D+d]; eg+=er[k*D+d]; } }
  if(!(fl&4)){ gn=sqrtl(gn); if(eg>1e-3*gn&&gn+eg>1e-13) risky=1; if(gn<1e-12L) gn=1e-12L; for(int i=0;i<big;++i){ r[i]/=gn; er[i]=(er[i]+eg)/gn+rel*4*big; } }
  if(!risky) for(int i=0;i<big;++i){ double g=isf?ef[i]:e[i]; CHECK(fabsl(g-r[i])<=4*er[i]+rel*fabsl(r[i])+1e-30,"encoding[center %d, dim %d] is %.9g, should be %.9g",i/D,i%D,g,(double)r[i]); }
  free(xf);free(af);free(mf);free(ef);free(x);free(a);free(m);free(e);free(r);free(er); CASE(); } return orc_end(); }
