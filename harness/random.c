#include "orc.h"
#include <vl/random.h>
#include <vl/kmeans.c>
#undef VL_SHUFFLE_type
#undef VL_SHUFFLE_prefix
#define VL_SHUFFLE_prefix vs
#define VL_SHUFFLE_type double
#include <vl/shuffle-def.h>
/* MT19937 written from the published description */
static uint32_t x[624]; static int xi;
static void rseed(uint32_t s){ x[0]=s; for(int i=1;i<624;++i) x[i]=1812433253u*(x[i-1]^(x[i-1]>>30))+(uint32_t)i; xi=624; }
static void rarr(const uint32_t*k,size_t n){ rseed(19650218u); size_t i=1,j=0,t=n>624?n:624; for(;t;--t){ x[i]=(x[i]^((x[i-1]^(x[i-1]>>30))*1664525u))+k[j]+(uint32_t)j; if(++i==624){x[0]=x[623];i=1;} if(++j==n) j=0; }
  for(t=623;t;--t){ x[i]=(x[i]^((x[i-1]^(x[i-1]>>30))*1566083941u))-(uint32_t)i; if(++i==624){x[0]=x[623];i=1;} } x[0]=0x80000000u; }
static uint32_t rnext(void){ if(xi==624){ for(int i=0;i<624;++i){ uint32_t y=(x[i]&0x80000000u)|(x[(i+1)%624]&0x7fffffffu); x[i]=x[(i+397)%624]^(y>>1)^((y&1)?0x9908b0dfu:0); } xi=0; }
  uint32_t y=x[xi++]; y^=y>>11; y^=(y<<7)&0x9d2c5680u; y^=(y<<15)&0xefc60000u; return y^(y>>18); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); VlRand r;
 for(long t=0;t<it/4+10;++t){ int how=rnd(3);
  if(how==0||t==0){ uint32_t s= t<3?(uint32_t)t:(uint32_t)rnd64(); CTX("seed %u",s); vl_rand_init(&r); vl_rand_seed(&r,s); rseed(s);}
  else if(how==1){ CTX("never seeded"); vl_rand_init(&r); rseed(5489u);}
  else { int n=1+(rnd(6)?rnd(10):rnd(1500)); uint32_t*k=xmalloc(4*n); for(int i=0;i<n;++i) k[i]=rnd(3)?(uint32_t)rnd64():rnd(3); CTX("seed by array of %d, first %u",n,k[0]); vl_rand_init(&r); vl_rand_seed_by_array(&r,k,n); rarr(k,n); free(k);}
  int m=rnd(3)?rnd(40):rnd(2000);
  for(int i=0;i<m;++i){ switch(rnd(8)){
    case 0: case 1: {uint32_t e=rnext(),g=vl_rand_uint32(&r); CHECK(e==g,"draw %d is %u, MT19937 gives %u",i,g,e);} break;
    case 2: {uint64_t a=rnext(),b=rnext(),g=vl_rand_uint64(&r); CHECK(g==((a<<32)|b),"64 bit draw %d",i);} break;
    case 3: {double a=rnext(),g=vl_rand_real1(&r); CHECK(g==a*(1.0/4294967295.0)&&g>=0&&g<=1,"real1 %.17g",g);} break;
    case 4: {double a=rnext(),g=vl_rand_real2(&r); CHECK(g==a/4294967296.0,"real2 %.17g",g); a=rnext(); g=vl_rand_real3(&r); CHECK(g==(a+.5)/4294967296.0,"real3 %.17g",g);} break;
    case 5: {uint32_t a=rnext()>>5,b=rnext()>>6; double g=vl_rand_res53(&r); CHECK(g==(a*67108864.0+b)/9007199254740992.0,"res53 %.17g",g);} break;
    case 6: {vl_uindex L=1+(rnd(2)?rnd(20):rnd(3)?(vl_uindex)(rnd64()>>rnd(64)):0xffffffffull+rnd(3)); if(L==0) L=1; vl_uindex g=vl_rand_uindex(&r,L); CHECK(g<L,"index %llu not below %llu",(unsigned long long)g,(unsigned long long)L); if(L<=0xffffffffull) rnext(); else {rnext();rnext();}} break;
    default: {uint32_t a=rnext(); CHECK(vl_rand_int31(&r)==(int32_t)(a>>1),"int31"); uint64_t c=rnext(),d=rnext(); CHECK(vl_rand_int63(&r)==(int64_t)(((c<<32)|d)>>1),"int63");} } }
  int n=rnd(30); vl_index*p=xmalloc(sizeof*p*(n+1)); char*s=xmalloc(n+1); memset(s,0,n+1); for(int i=0;i<n;++i)p[i]=i; p[n]=-7; vl_rand_permute_indexes(&r,p,n); for(int i=0;i<n;++i){ CHECK(p[i]>=0&&p[i]<n&&!s[p[i]],"not a permutation of %d at %d",n,i); s[p[i]]=1;} CHECK(p[n]==-7,"wrote beyond the array");
  double*a=xmalloc(8*(n+1)); memset(s,0,n+1); for(int i=0;i<n;++i)a[i]=i; a[n]=-7; vs_shuffle(a,n,&r); for(int i=0;i<n;++i){ int q=(int)a[i]; CHECK(q>=0&&q<n&&!s[q],"shuffle of %d lost an element at %d",n,i); s[q]=1;} CHECK(a[n]==-7,"shuffle wrote beyond");
  vl_uindex*b=xmalloc(8*(n+1)); memset(s,0,n+1); for(int i=0;i<n;++i)b[i]=i; _vl_kmeans_shuffle(b,n,&r); for(int i=0;i<n;++i){ CHECK(b[i]<(vl_uindex)n&&!s[b[i]],"k-means shuffle lost an element"); s[b[i]]=1;}
  free(p);free(s);free(a);free(b); CASE(); } return orc_end(); }
