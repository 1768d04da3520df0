#include "orc.h"
#include <vl/imopv.h>
#include <vl/mathop.h>
#define RUN(S,T,EPS) static void run_##S(void){ int w=rnd(4)?rnd(12):0,h=1+rnd(8),si=w+rnd(4),fb=rnd(3)?-rnd(6):rndi(-9,9),fe=fb+rnd(rnd(2)?4:14),step=1+rnd(3),fl=(rnd(2)?VL_PAD_BY_CONTINUITY:VL_PAD_BY_ZERO)|(rnd(2)?VL_TRANSPOSE:0),dh=(h-1)/step+1,tr=!!(fl&VL_TRANSPOSE),al=rnd(3); if(al) si=(si+15)/16*16; int so=(tr?dh:w)+rnd(3),n=so*(tr?w:dh),nf=fe-fb+1; \
  char*bi=xmalloc((si*h+1)*sizeof(T)+32); T*I=al==1?(T*)(((uintptr_t)bi+15)&~15ull):(T*)bi, *O=xmalloc((n+1)*sizeof(T)),*F=xmalloc(nf*sizeof(T)); for(int i=0;i<si*h;++i) I[i]=rndi(-20,20); for(int i=0;i<=n;++i) O[i]=777; for(int i=0;i<nf;++i) F[i]=rndi(-9,9); int simd=rnd(3)>0; vl_set_simd_enabled(simd); \
  CTX("vl_imconvcol_v" #S " %dx%d strides %d %d filter [%d,%d] step %d flags %d simd %d%s",w,h,si,so,fb,fe,step,fl,simd,al==1?" aligned":""); vl_imconvcol_v##S(O,so,I,w,h,si,F,fb,fe,step,fl); \
  for(int x=0;x<w;++x) for(int m=0;m<dh;++m){ double s=0; for(int j=fb;j<=fe;++j){ int k=m*step-j; double v= k<0||k>=h? ((fl&3)==VL_PAD_BY_ZERO?0:I[(k<0?0:h-1)*si+x]):I[k*si+x]; s+=v*F[j-fb]; } T g=tr?O[x*so+m]:O[m*so+x]; CHECK(fabs(g-s)<=EPS*(1+fabs(s)),"column %d sample %d is %.9g, expected %.9g",x,m,(double)g,s);} \
  for(int r=0;r<(tr?w:dh);++r) for(int q=tr?dh:w;q<so;++q) CHECK(O[r*so+q]==777,"wrote between rows"); CHECK(O[n]==777,"wrote past the end"); free(bi);free(O);free(F); CASE(); }
RUN(f,float,1e-5) RUN(d,double,1e-12)
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ run_f(); run_d(); } return orc_end(); }
