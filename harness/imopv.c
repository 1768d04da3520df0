#include "orc.h"
#include <vl/imopv.h>
#include <vl/mathop.h>
#define PADV(T,im,h,s,x,k,zp) ((k)<0||(k)>=(h)? ((zp)?0:(im)[((k)<0?0:(h)-1)*(s)+(x)]) : (im)[(k)*(s)+(x)])
#define FILLV ((int)rnd(41)-20)
#define INTEGRAL(S,T,A) static void integral_##S(void){ int w=rnd(7),h=rnd(6),si=w+rnd(3),so=w+rnd(3); T*I=xmalloc((si*h+1)*sizeof(T)),*O=xmalloc((so*h+1)*sizeof(T)); for(int i=0;i<si*h;++i) I[i]=(T)FILLV; for(int i=0;i<so*h+1;++i) O[i]=(T)777; \
  CTX("vl_imintegral_" #S " %dx%d strides %d %d",w,h,si,so); vl_imintegral_##S(O,so,I,w,h,si); for(int y=0;y<h;++y) for(int x=0;x<so;++x){ A s=0; if(x>=w) {CHECK(O[y*so+x]==(T)777,"wrote between rows"); continue;} for(int b=0;b<=y;++b) for(int a=0;a<=x;++a) s+=I[b*si+a]; CHECK(O[y*so+x]==(T)s,"entry (%d,%d) is %g, expected %g",x,y,(double)O[y*so+x],(double)(T)s);} free(I);free(O); CASE(); }
INTEGRAL(f,float,float) INTEGRAL(d,double,double) INTEGRAL(ui32,vl_uint32,vl_uint32) INTEGRAL(i32,vl_int32,vl_int32)
#define REALS(S,T,EPS) \
static void coltri_##S(void){ int w=rnd(5),h=1+rnd(9),si=w+rnd(3),F=1+rnd(6),step=1+rnd(3),fl=(rnd(2)?VL_PAD_BY_CONTINUITY:VL_PAD_BY_ZERO)|(rnd(2)?VL_TRANSPOSE:0),dh=(h-1)/step+1,tr=!!(fl&VL_TRANSPOSE),so=(tr?dh:w)+rnd(3),n=so*(tr?w:dh); \
  T*I=xmalloc((si*h+1)*sizeof(T)),*O=xmalloc((n+1)*sizeof(T)); for(int i=0;i<si*h;++i) I[i]=(T)FILLV; for(int i=0;i<=n;++i) O[i]=777; CTX("vl_imconvcoltri_" #S " %dx%d strides %d %d filter %d step %d flags %d",w,h,si,so,F,step,fl); vl_imconvcoltri_##S(O,so,I,w,h,si,F,step,fl); \
  for(int x=0;x<w;++x) for(int m=0;m<dh;++m){ double s=0; for(int u=-F+1;u<F;++u){ int k=m*step+u; s+=(F-abs(u))*(double)PADV(T,I,h,si,x,k,(fl&3)==VL_PAD_BY_ZERO);} s/=F*F; T g=tr?O[x*so+m]:O[m*so+x]; CHECK(fabs(g-s)<=EPS*(1+fabs(s)),"column %d sample %d is %.9g, expected %.9g",x,m,(double)g,s);} \
  for(int r=0;r<(tr?w:dh);++r) for(int q=tr?dh:w;q<so;++q) CHECK(O[r*so+q]==777,"wrote between rows"); CHECK(O[n]==777,"wrote past the end"); free(I);free(O); CASE(); } \
static void grad_##S(void){ int w=2+rnd(5),h=2+rnd(5),si=w+rnd(3),ws=1+rnd(3),hs=ws*(w-1)+1+rnd(3),n=hs*(h-1)+ws*(w-1)+1,pol=rnd(2); T*I=xmalloc(si*h*sizeof(T)),*A=xmalloc((n+1)*sizeof(T)),*B=xmalloc((n+1)*sizeof(T)); for(int i=0;i<si*h;++i) I[i]=(T)FILLV; for(int i=0;i<=n;++i) A[i]=B[i]=777; \
  CTX("vl_imgradient%s_" #S " %dx%d stride %d gradient strides %d %d",pol?"_polar":"",w,h,si,ws,hs); if(pol) vl_imgradient_polar_##S(A,B,ws,hs,I,w,h,si); else vl_imgradient_##S(A,B,ws,hs,I,w,h,si); \
  int used=0; for(int y=0;y<h;++y) for(int x=0;x<w;++x){ double gx= x==0? I[y*si+1]-(double)I[y*si]: x==w-1? I[y*si+x]-(double)I[y*si+x-1]: .5*(I[y*si+x+1]-(double)I[y*si+x-1]), gy= y==0? I[si+x]-(double)I[x]: y==h-1? I[y*si+x]-(double)I[(y-1)*si+x]: .5*(I[(y+1)*si+x]-(double)I[(y-1)*si+x]); double a=A[y*hs+x*ws],b=B[y*hs+x*ws]; used++; \
   if(!pol) CHECK(a==(T)gx&&b==(T)gy,"gradient (%d,%d) is (%g,%g), expected (%g,%g)",x,y,a,b,gx,gy); else { double m=sqrt(gx*gx+gy*gy),t=atan2(gy,gx); if(t<0)t+=2*VL_PI; double d=fabs(b-t); if(d>VL_PI) d=2*VL_PI-d; CHECK(fabs(a-m)<=1e-4*(1+m)&&(m==0||d<=.007)&&b>=0&&b<=6.2832,"gradient (%d,%d) is modulus %g angle %g, expected %g %g",x,y,a,b,m,t);} } \
  for(int i=0;i<=n;++i) if(A[i]!=777) used--; CHECK(used==0||pol,"wrote elsewhere"); CHECK(A[n]==777&&B[n]==777,"wrote past the end"); free(I);free(A);free(B); CASE(); } \
static void smooth_##S(void){ int w=1+rnd(7),h=1+rnd(7),si=w+rnd(3),so=w+rnd(3); double sx=.3+rndu()*1.5,sy=rnd(2)?sx:.3+rndu()*1.5; T*I=xmalloc(si*h*sizeof(T)),*O=xmalloc((so*h+1)*sizeof(T)); for(int i=0;i<si*h;++i) I[i]=(T)FILLV; for(int i=0;i<=so*h;++i) O[i]=777; CTX("vl_imsmooth_" #S " %dx%d strides %d %d sigma %g %g",w,h,si,so,sx,sy); vl_imsmooth_##S(O,so,I,w,h,si,sx,sy); int kx=ceil(3*sx),ky=ceil(3*sy); \
  for(int y=0;y<h;++y) for(int x=0;x<w;++x){ double s=0,m=0; for(int v=-ky;v<=ky;++v) for(int u=-kx;u<=kx;++u){ int yy=y+v<0?0:y+v>=h?h-1:y+v,xx=x+u<0?0:x+u>=w?w-1:x+u; double g=exp(-.5*(u*u/(sx*sx)+v*v/(sy*sy))); s+=g*I[yy*si+xx]; m+=g; } s/=m; CHECK(fabs(O[y*so+x]-s)<=2e-5*(1+fabs(s)),"pixel (%d,%d) is %.9g, expected %.9g",x,y,(double)O[y*so+x],s);} CHECK(O[so*h]==777,"wrote past the end"); free(I);free(O); CASE(); }
REALS(f,float,2e-5) REALS(d,double,1e-11)
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ integral_f();integral_d();integral_ui32();integral_i32();coltri_f();coltri_d();grad_f();grad_d(); vl_set_simd_enabled(rnd(2)); smooth_f();smooth_d(); } return orc_end(); }
