#include "orc.h"
#include <vl/imopv.h>
#define RUN(S,T,EPS) static void run_##S(void){ int w=rnd(8)?1+rnd(9):0,h=rnd(4),cs=1+rnd(3),rs=(w?cs*(w-1):0)+1+rnd(3); if(rnd(4)==0){ rs=1+rnd(2); cs=(h?rs*(h-1):0)+1+rnd(3);} \
  size_t n=0; for(int y=0;y<h;++y) for(int x=0;x<w;++x) if((size_t)(x*cs+y*rs+1)>n) n=x*cs+y*rs+1; \
  T*I=xmalloc(n*sizeof(T)),*D=xmalloc(n*sizeof(T)); vl_uindex*X=rnd(3)?xmalloc(n*sizeof*X):0,*X0=xmalloc(n*sizeof*X0); int k=rnd(3); for(size_t i=0;i<n;++i){ I[i]=k==0?rndi(-4,4):k==1?10*(2*rndu()-1):(rnd(5)?1e3:rndi(0,3)); D[i]=777; X0[i]=1000+i*3; if(X) X[i]=X0[i]; } \
  T c= rnd(5)==0?0: rnd(2)?rndi(1,4)/4.0: 0.01+3*rndu(), o= rnd(2)?0: rndi(-8,8)/4.0; \
  CTX("vl_image_distance_transform_" #S " %dx%d strides %d %d coeff %.9g offset %.9g indexes %d image",w,h,cs,rs,(double)c,(double)o,!!X); for(size_t i=0;i<n&&i<40;++i) ctx_add(" %.9g",(double)I[i]); \
  vl_image_distance_transform_##S(I,w,h,cs,rs,D,X,c,o); \
  for(int y=0;y<h;++y) for(int x=0;x<w;++x){ double m=1e300; for(int s=0;s<w;++s){ double d=x-s-(double)o,v=I[s*cs+y*rs]+c*d*d; if(v<m) m=v; } double g=D[x*cs+y*rs]; CHECK(fabs(g-m)<=EPS*(1+fabs(m)),"pixel (%d,%d) is %.9g, the minimum is %.9g",x,y,g,m); \
    if(X){ long q=(long)X[x*cs+y*rs]; int ok=0; for(int s=0;s<w;++s) if((long)X0[s*cs+y*rs]==q){ double d=x-s-(double)o,v=I[s*cs+y*rs]+c*d*d; ok=1; CHECK(fabs(v-m)<=EPS*(1+fabs(m)),"pixel (%d,%d): reported site %d has %.9g, the minimum is %.9g",x,y,s,v,m); } CHECK(ok,"pixel (%d,%d): index %ld is not of this row",x,y,q); } } \
  for(size_t i=0;i<n;++i){ int in=0; for(int y=0;y<h&&!in;++y) for(int x=0;x<w;++x) if((size_t)(x*cs+y*rs)==i){in=1;break;} if(!in){ CHECK(D[i]==777,"wrote a value between pixels"); if(X) CHECK(X[i]==X0[i],"wrote an index between pixels"); } } \
  free(I);free(D);free(X);free(X0); CASE(); }
RUN(f,float,2e-5) RUN(d,double,1e-10)
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ run_f(); run_d(); } return orc_end(); }
