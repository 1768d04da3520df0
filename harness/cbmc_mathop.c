/* bit-exact helpers of vl/mathop.h and vl/host.h for every argument */
#include <vl/mathop.h>
float nondet_float(void); double nondet_double(void); unsigned nondet_uint(void); unsigned char nondet_uchar(void); long nondet_long(void);
#define A(c,m) __CPROVER_assert(c,m)
static int isnanf_(float x){ return x!=x; } static int isnand_(double x){ return x!=x; }
int main(){
#if WHICH==1
 float x=nondet_float(); __CPROVER_assume(x>=-9223372036854775808.0f && x<9223372036854775808.0f);
 long f=vl_floor_f(x); if(x>-16777216.0f&&x<16777216.0f) A((double)f<=(double)x&&(double)x<(double)f+1.0,"floor"); else A((float)f==x,"floor of a large number");
#elif WHICH==2
 double x=nondet_double(); __CPROVER_assume(x>=-9223372036854775808.0 && x<9223372036854775808.0);
 long f=vl_floor_d(x); if(x>-9007199254740992.0&&x<9007199254740992.0) { A((double)f<=x,"floor is not above"); A((double)(f+1)>x,"floor is the largest"); } else A((double)f==x,"floor of a large number");
#elif WHICH==3
 float x=nondet_float(); A(vl_is_nan_f(x)==0?!isnanf_(x):isnanf_(x),"nan"); if(!isnanf_(x)) { A(vl_abs_f(x)==(x<0?-x:x),"abs"); A((vl_is_inf_f(x)!=0)==(x>FLT_MAX||x<-FLT_MAX),"inf"); } else A(vl_is_inf_f(x)==0,"nan is not infinite");
#elif WHICH==4
 double x=nondet_double(); A(vl_is_nan_d(x)==0?!isnand_(x):isnand_(x),"nan"); if(!isnand_(x)) { A(vl_abs_d(x)==(x<0?-x:x),"abs"); A((vl_is_inf_d(x)!=0)==(x>DBL_MAX||x<-DBL_MAX),"inf"); } else A(vl_is_inf_d(x)==0,"nan is not infinite");
#elif WHICH==5
 unsigned char a[8],b[8]; int i; for(i=0;i<8;++i) {a[i]=nondet_uchar(); b[i]=nondet_uchar();} unsigned char o[8]; for(i=0;i<8;++i) o[i]=b[i]; unsigned k=nondet_uint()%3; int n=k==0?8:k==1?4:2;
 if(n==8) vl_swap_host_big_endianness_8(b,a); else if(n==4) vl_swap_host_big_endianness_4(b,a); else vl_swap_host_big_endianness_2(b,a);
 for(i=0;i<8;++i) A(b[i]==(i<n?a[n-1-i]:o[i]),"bytes reversed, nothing else written");
#elif WHICH==6
 long x=nondet_long(), y=nondet_long(); A(VL_MIN(x,y)<=x&&VL_MIN(x,y)<=y&&(VL_MIN(x,y)==x||VL_MIN(x,y)==y),"min"); A(VL_MAX(x,y)>=x&&VL_MAX(x,y)>=y&&(VL_MAX(x,y)==x||VL_MAX(x,y)==y),"max");
 unsigned u=nondet_uint(); int n=(int)(nondet_uint()%31)-15; A(VL_SHIFT_LEFT(u,n)==(n>=0?u<<n:u>>-n),"shift");
 A(isnanf_(VL_NAN_F)&&isnand_(VL_NAN_D)&&VL_INFINITY_F>FLT_MAX&&VL_INFINITY_D>DBL_MAX,"constants");
#endif
 return 0; }
