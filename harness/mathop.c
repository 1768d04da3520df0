#include "orc.h"
#include <vl/mathop.h>
#define MODE_SQ(T,S,x) do{ T x_=(x); unsigned __int128 r=vl_fast_sqrt_##S(x_); CTX("vl_fast_sqrt_" #S "(%llu)",(unsigned long long)x_); CHECK(r*r<=x_&&(r+1)*(r+1)>(unsigned __int128)x_,"returned %llu",(unsigned long long)r); }while(0)
static float asf(uint32_t u){ float f; memcpy(&f,&u,4); return f; }
static double asd(uint64_t u){ double f; memcpy(&f,&u,8); return f; }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it);
  for(unsigned i=0;i<256;++i) MODE_SQ(vl_uint8,ui8,i); for(unsigned i=0;i<65536;++i) MODE_SQ(vl_uint16,ui16,i);
  /* all mantissas for two neighbouring exponents: the function scales exactly with powers of four */
  for(int e=0;e<2;++e) for(uint32_t m=0;m<(1u<<23);m+= it>1000?1:7){ uint32_t u=((127+e)<<23)|m; float x=asf(u),y=vl_fast_resqrt_f(x); double r=y*sqrt((double)x)-1; if(!(fabs(r)<=1e-5)){ CTX("vl_fast_resqrt_f(%.9g)",x); FAILX("returned %.9g, relative error %g",y,r);} }
  for(long t=0;t<it;++t){
    vl_uint32 r=rnd(65536); MODE_SQ(vl_uint32,ui32,r*r); MODE_SQ(vl_uint32,ui32,r*r-1); MODE_SQ(vl_uint32,ui32,r*r+2*r); MODE_SQ(vl_uint32,ui32,(vl_uint32)rnd64()); MODE_SQ(vl_uint32,ui32,0xffffffffu-rnd(70000));
    vl_uint64 q=rnd64()>>32; if(rnd(3)==0) q>>=rnd(32); MODE_SQ(vl_uint64,ui64,q*q); MODE_SQ(vl_uint64,ui64,q*q-1); MODE_SQ(vl_uint64,ui64,q*q+2*q); MODE_SQ(vl_uint64,ui64,rnd64()>>rnd(64)); MODE_SQ(vl_uint64,ui64,~(vl_uint64)rnd(1000));
    { uint32_t u=((1+rnd(253))<<23)|(rnd64()&0x7fffff); float x=asf(u),y=vl_fast_resqrt_f(x); double e=y*sqrt((double)x)-1; CTX("vl_fast_resqrt_f(%.9g)",x); CHECK(fabs(e)<=1e-5,"returned %.9g",y);
      float z=vl_fast_sqrt_f(x); CTX("vl_fast_sqrt_f(%.9g)",x); CHECK(x<1e-8? z==0 : fabs(z/sqrt((double)x)-1)<=2e-5,"returned %.9g",z); double zd=vl_fast_sqrt_d(x); CTX("vl_fast_sqrt_d(%.9g)",x); CHECK(x<1e-8? zd==0 : fabs(zd/sqrt((double)x)-1)<=1e-5,"returned %.9g",zd); }
    { uint64_t u=((uint64_t)(1+rnd(2045))<<52)|(rnd64()&0xfffffffffffffull); double x=asd(u),y=vl_fast_resqrt_d(x); double e=y*sqrt(x)-1; CTX("vl_fast_resqrt_d(%.17g)",x); CHECK(fabs(e)<=1e-5,"returned %.17g",y); }
    for(int k=0;k<2;++k){ double x=rndd(),y=rndd(); if(rnd(6)==0) x=0; if(rnd(6)==0) y=0; if(fabs(x)<1e-3&&x!=0) x=1; if(fabs(y)<1e-3&&y!=0) y=1; if(k==0){x=(float)x;y=(float)y;} if(x==0&&y==0) continue; double a=k?vl_fast_atan2_d(y,x):vl_fast_atan2_f(y,x), w=atan2(y,x); CTX("vl_fast_atan2_%s(%.17g,%.17g)",k?"d":"f",y,x); CHECK(fabs(a-w)<=0.00615,"returned %.17g, atan2 is %.17g",a,w); }
    { double x=40*(2*rndu()-1); if(rnd(9)==0) x=rndi(-6,6)*2*VL_PI; double m=vl_mod_2pi_d(x); double k=(x-m)/(2*VL_PI); CTX("vl_mod_2pi_d(%.17g)",x); CHECK(m>=0&&m<=2*VL_PI&&fabs(k-floor(k+.5))<1e-9,"returned %.17g",m);
      float xf=x; float mf=vl_mod_2pi_f(xf); double kf=(xf-(double)mf)/(2*VL_PI); CTX("vl_mod_2pi_f(%.9g)",xf); CHECK(mf>=0&&mf<=(float)(2*VL_PI)&&fabs(kf-floor(kf+.5))<1e-5,"returned %.9g",mf); }
    { double x=rnd(3)?rndd()*8:rndi(-40,40)*.5; if(rnd(5)==0) x=nextafter(rndi(-5,5)*.5,rnd(2)?1e9:-1e9); float f=x; CTX("floor/ceil/round of %.17g",x);
      CHECK(vl_floor_d(x)==(long)floor(x),"vl_floor_d %ld",vl_floor_d(x)); CHECK(vl_ceil_d(x)==(long)ceil(x),"vl_ceil_d %ld",vl_ceil_d(x)); CHECK(vl_round_d(x)==(long)round(x),"vl_round_d %ld",vl_round_d(x));
      CHECK(vl_floor_f(f)==(long)floorf(f),"vl_floor_f %ld",vl_floor_f(f)); CHECK(vl_ceil_f(f)==(long)ceilf(f),"vl_ceil_f %ld",vl_ceil_f(f)); CHECK(vl_round_f(f)==(long)roundf(f),"vl_round_f %ld",vl_round_f(f));
      CHECK(vl_abs_d(x)==fabs(x)&&vl_abs_f(f)==fabsf(f),"abs"); double p=fabs(x)+.25; CHECK(fabs(vl_log2_d(p)-log2(p))<1e-12&&fabs(vl_log2_f(p)-log2(p))<1e-5&&fabs(vl_sqrt_d(p)-sqrt(p))<1e-12&&fabs(vl_sqrt_f(p)-sqrt(p))<1e-5*p,"log2/sqrt"); }
    { unsigned char a[8],b[8]; for(int i=0;i<8;++i) a[i]=rnd64(),b[i]=0x5a; int n=2<<rnd(3); n==8?vl_swap_host_big_endianness_8(b,a):n==4?vl_swap_host_big_endianness_4(b,a):vl_swap_host_big_endianness_2(b,a); CTX("swap of %d bytes",n); for(int i=0;i<8;++i) CHECK(b[i]==(i<n?a[n-1-i]:0x5a),"byte %d is %d",i,b[i]); }
    CASE(); }
  return orc_end(); }
