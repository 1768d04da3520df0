/* common part of the replay harnesses: executable contracts checked on the real code */
#ifndef ORC_H
#define ORC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <stdint.h>
static uint64_t orc_s = 88172645463325252ull;
static long orc_cases = 0, orc_samples = 0;
static char orc_ctx[8192];
static uint64_t rnd64(void){ orc_s ^= orc_s << 13; orc_s ^= orc_s >> 7; orc_s ^= orc_s << 17; return orc_s * 0x2545F4914F6CDD1Dull; }
static unsigned rnd(unsigned n){ return n ? (unsigned)((rnd64() >> 33) % n) : 0; }
static int rndi(int lo,int hi){ return lo + (int)rnd((unsigned)(hi-lo+1)); }
static double rndu(void){ return (double)(rnd64()>>11) / 9007199254740992.0; }
static double rndd(void){ /* mixture of small integers, uniforms, and wide values */
  switch(rnd(6)){ case 0: return (double)rndi(-3,3); case 1: return rndu(); case 2: return 2*rndu()-1;
    case 3: return ldexp(2*rndu()-1, rndi(-20,20)); case 4: return (double)rndi(-100,100)/4; default: return 10*(2*rndu()-1);} }
static void orc_init(int argc,char**argv,long*iters){ uint64_t seed = argc>1? strtoull(argv[1],0,10):1; *iters = argc>2? atol(argv[2]):1000; orc_s ^= seed*0x9E3779B97F4A7C15ull; orc_s |= 1; for(int i=0;i<8;++i) rnd64(); setvbuf(stdout,0,_IOLBF,1<<12); }
#define CTX(...) snprintf(orc_ctx,sizeof orc_ctx,__VA_ARGS__)
static void ctx_add(const char*f,...){ size_t n=strlen(orc_ctx); va_list a; va_start(a,f); if(n<sizeof orc_ctx-1) vsnprintf(orc_ctx+n,sizeof orc_ctx-n,f,a); va_end(a);}
#define FAILX(...) do{ printf("FAIL %s:%d: ",__FILE__,__LINE__); printf(__VA_ARGS__); printf("\n  input: %s\n",orc_ctx); fflush(stdout); exit(1);}while(0)
#define CHECK(c,...) do{ if(!(c)) FAILX(__VA_ARGS__); }while(0)
#define CASE() do{ orc_cases++; if(orc_samples<3 && (rnd(50)==0||orc_cases==1)){ orc_samples++; printf("SAMPLE %.300s\n",orc_ctx);} }while(0)
#define RUNNING(x) do{ printf("RUNNING %s\n",x); fflush(stdout);}while(0)
static int orc_end(void){ printf("CASES %ld\n",orc_cases); return 0; }
static void* xmalloc(size_t n){ void*p=malloc(n?n:1); if(!p) exit(3); return p; }
#endif
