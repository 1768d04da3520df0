/* derived draws for every value of the 32-bit draws */
#include <vl/random.h>
vl_uint32 nondet_u32(void);
static vl_uint32 d[2]; static int n;
vl_uint32 vl_rand_uint32(VlRand*s){ __CPROVER_assert(n<2,"at most two draws"); return d[n++]; }
int main(){ VlRand r; d[0]=nondet_u32(); d[1]=nondet_u32(); double x; n=0;
#if WHICH==1
 x=vl_rand_real1(&r); __CPROVER_assert(x>=0.0 && x<=1.0,"real1 in [0,1]"); __CPROVER_assert(n==1 && x==d[0]*(1.0/4294967295.0),"real1 is the draw over 2^32-1");
#elif WHICH==2
 x=vl_rand_real2(&r); __CPROVER_assert(x>=0.0 && x<1.0,"real2 in [0,1)"); __CPROVER_assert(n==1 && x*4294967296.0==(double)d[0],"real2 is the draw over 2^32");
#elif WHICH==3
 x=vl_rand_real3(&r); __CPROVER_assert(x>0.0 && x<1.0,"real3 in (0,1)"); __CPROVER_assert(n==1 && x*4294967296.0==(double)d[0]+0.5,"real3 is the draw plus a half over 2^32");
#elif WHICH==4
 x=vl_rand_res53(&r); __CPROVER_assert(x>=0.0 && x<1.0,"res53 in [0,1)"); __CPROVER_assert(n==2 && x*9007199254740992.0==(double)(((vl_uint64)(d[0]>>5)<<26)+(d[1]>>6)),"res53 joins 27 and 26 bits");
#elif WHICH==5
 vl_uint64 u=vl_rand_uint64(&r); __CPROVER_assert(n==2 && (vl_uint32)(u>>32)==d[0] && (vl_uint32)u==d[1],"uint64 joins two draws");
#elif WHICH==6
 vl_int64 u=vl_rand_int63(&r); __CPROVER_assert(n==2 && u>=0 && u==(vl_int64)((((vl_uint64)d[0]<<32)|d[1])>>1),"int63 drops the last bit");
#elif WHICH==7
 vl_int32 u=vl_rand_int31(&r); __CPROVER_assert(n==1 && u>=0 && (vl_uint32)u==(d[0]>>1),"int31 drops the last bit");
#endif
 return 0; }
