/* the uniform pattern quantisation, for all 256 patterns and both orientations (every loop unwound completely) */
#include <vl/lbp.c>
unsigned nondet_uint(void);
#define A(c,m) __CPROVER_assert(c,m)
void vl_set_last_error_stub(void){}
int main(){ static VlLbp a,b; a.transposed=0; b.transposed=1; _vl_lbp_init_uniform(&a); _vl_lbp_init_uniform(&b);
 unsigned s=nondet_uint()&255, t=nondet_uint()&255; A(a.dimension==58&&b.dimension==58,"58 bins");
 int n=0; for(int k=0;k<8;++k) n+=((s>>k)&1)!=((s>>((k+1)&7))&1);
 int m=0; for(int k=0;k<8;++k) m+=((t>>k)&1)!=((t>>((k+1)&7))&1);
 A(n!=0||a.mapping[s]==56,"constant patterns"); A(n<=2||a.mapping[s]==57,"non-uniform patterns share one bin");
 if(n==2){ unsigned j=0,i=0; for(int k=0;k<8;++k){ j+=(s>>k)&1; if(((s>>k)&1)&&!((s>>((k+7)&7))&1)) i=k; } A(a.mapping[s]==i*7+j-1,"bin of a uniform pattern"); }
 A(!(n==2&&m==2&&s!=t)||a.mapping[s]!=a.mapping[t],"uniform patterns have distinct bins"); A(!(n==2&&m!=2)||a.mapping[s]!=a.mapping[t],"uniform patterns do not share bins");
 unsigned r=0; for(int k=0;k<8;++k) if((s>>k)&1) r|=1u<<((2-k+8)&7);
 A(b.mapping[s]==a.mapping[r],"transposed patterns"); return 0; }
