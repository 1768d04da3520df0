/* one draw from an arbitrary state: published recurrence, tempering, frame */
#include <vl/random.h>
#define UP 0x80000000u
#define LO 0x7fffffffu
vl_uint32 nondet_u32(void);
static vl_uint32 twist(vl_uint32 a, vl_uint32 b){ vl_uint32 y=(a&UP)|(b&LO); return (y>>1)^((y&1u)?0x9908b0dfu:0u); }
static vl_uint32 temper(vl_uint32 y){ y^=y>>11; y^=(y<<7)&0x9d2c5680u; y^=(y<<15)&0xefc60000u; y^=y>>18; return y; }
VlRand r, o;
#ifdef DRAW
int main(){ vl_uint32 pos=nondet_u32(), i=nondet_u32(); __CPROVER_assume(pos<624); __CPROVER_havoc_object(&r); r.mti=pos; o=r;
  vl_uint32 y=vl_rand_uint32(&r);
  __CPROVER_assert(y==temper(o.mt[pos]),"tempered word at the position"); __CPROVER_assert(r.mti==pos+1,"position advances by one");
  __CPROVER_assume(i<624); __CPROVER_assert(r.mt[i]==o.mt[i],"state words unchanged"); return 0; }
#else
int main(){ int k0;
#ifdef UNSEEDED
  r.mti=625; o.mt[0]=5489u; for(k0=1;k0<624;++k0) o.mt[k0]=1812433253u*(o.mt[k0-1]^(o.mt[k0-1]>>30))+k0;
#else
  __CPROVER_havoc_object(&r); r.mti=624; o=r;
#endif
  vl_uint32 y=vl_rand_uint32(&r); int k;
  for(k=0;k<227;++k) __CPROVER_assert(r.mt[k]==(o.mt[k+397]^twist(o.mt[k],o.mt[k+1])),"recurrence, first part");
  for(k=227;k<623;++k) __CPROVER_assert(r.mt[k]==(r.mt[k-227]^twist(o.mt[k],o.mt[k+1])),"recurrence, second part");
  __CPROVER_assert(r.mt[623]==(r.mt[396]^twist(o.mt[623],r.mt[0])),"recurrence, last word");
  __CPROVER_assert(y==temper(r.mt[0]),"tempered first word"); __CPROVER_assert(r.mti==1,"position restarts"); return 0; }
#endif
