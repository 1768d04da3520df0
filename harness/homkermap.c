#include "orc.h"
#include <vl/homkermap.h>
#include <vl/mathop.h>
/* reference: spectrum of the kernel, smoothed by the window, sampled at the period */
static double spec(int kt,double w){ double s=2/(exp(VL_PI*w)+exp(-VL_PI*w)); switch(kt){ case VlHomogeneousKernelIntersection: return 2/VL_PI/(1+4*w*w); case VlHomogeneousKernelChi2: return s; default: return 2/log(4.)*s/(1+4*w*w);} }
static double smooth(int kt,int win,double per,double w){ if(win==VlHomogeneousKernelMapWindowUniform) return spec(kt,w); double rg=2/(per*1e-2),dw=2*rg/(2*1024.+1),s=0; for(double p=-rg;p<=rg;p+=dw){ double z=per/2*p,sc=z==0?1:sin(z)/z; s+=sc*per/(2*VL_PI)*spec(kt,p+w);} s*=dw; return s>0?s:0; }
static double defper(int kt,int win,int n){ double p=0; if(win==VlHomogeneousKernelMapWindowUniform) switch(kt){ case VlHomogeneousKernelChi2: p=5.86*sqrt(n)+3.65; break; case VlHomogeneousKernelJS: p=6.64*sqrt(n)+7.24; break; default: p=2.38*log(n+.8)+5.6; } else switch(kt){ case VlHomogeneousKernelChi2: p=8.8*sqrt(n+4.44)-12.6; break; case VlHomogeneousKernelJS: p=9.63*sqrt(n+1.)-2.93; break; default: p=2*log(n+.99)+3.52; } return p>1?p:1; }
static int n,kt; static double L,gam,*kap; static int*frq;
static void exact(double x,double*o){ double s=L*pow(x,gam),l=L*log(x); o[0]=sqrt(s*kap[0]); for(int j=1;j<=n;++j){ double a=sqrt(2*s*kap[j]); o[2*j-1]=a*cos(frq[j]*l); o[2*j]=a*sin(frq[j]*l);} }
static void ref(double x,double*o,int*fuzzy){ int D=2*n+1; for(int j=0;j<D;++j) o[j]=0; *fuzzy=0; int e; double m=frexp(fabs(x),&e); --e; if(x==0||e<=-20||e>=8) return; int S=8+8*n; double u=(2*m-1)*S; int r=floor(u); if(r>S-1) r=S-1; double f=u-r; double a[64],b[64]; exact(ldexp(1+r/(double)S,e),a); exact(ldexp(1+(r+1)/(double)S,e),b); if(r==S-1) exact(ldexp(1.,e+1),b); for(int j=0;j<D;++j) o[j]=(x<0?-1:1)*(a[j]+f*(b[j]-a[j])); }
static void one(void){ n=rnd(6); kt=rnd(3)==0?VlHomogeneousKernelIntersection:rnd(2)?VlHomogeneousKernelChi2:VlHomogeneousKernelJS; int win=rnd(3)?VlHomogeneousKernelMapWindowUniform:VlHomogeneousKernelMapWindowRectangular; gam=rnd(2)?1:rnd(2)?.5:.25+2*rndu(); double per=rnd(2)?-1:1+20*rndu(); int D=2*n+1;
  CTX("kernel %d, gamma %.17g, order %d, period %.17g, window %d:",kt,gam,n,per,win);
  VlHomogeneousKernelMap*h=vl_homogeneouskernelmap_new(kt,gam,n,per,win); CHECK((int)vl_homogeneouskernelmap_get_order(h)==n&&(int)vl_homogeneouskernelmap_get_dimension(h)==D&&(int)vl_homogeneouskernelmap_get_kernel_type(h)==kt&&(int)vl_homogeneouskernelmap_get_window_type(h)==win,"parameters");
  if(per<0) per=defper(kt,win,n); L=2*VL_PI/per; kap=xmalloc(8*(n+2)); frq=xmalloc(4*(n+2)); int i=0,j=0; while(i<=n){ frq[i]=j; kap[i]=smooth(kt,win,per,j*L); ++j; if(kap[i]>0||j>=3*i) ++i; }
  for(int t=0;t<40;++t){ double x=rnd(4)==0?rndd():rnd(3)==0?ldexp(1+(double)rnd(8+8*n)/(8+8*n),rndi(-21,9)):rnd(6)==0?ldexp(rnd(2)?1:1-1e-16,rndi(-22,10)):ldexp(rndu(),rndi(-21,10)); if(rnd(4)==0) x=-x; if(rnd(30)==0) x=0;
    double want[64],scale=0; int fz; ref(x,want,&fz); for(int j=0;j<D;++j) scale+=fabs(want[j]); int st=1+rnd(3),flt=rnd(2); double od[256]; float of[256]; for(int k=0;k<256;++k){ od[k]=7; of[k]=7; } if(flt) vl_homogeneouskernelmap_evaluate_f(h,of,st,x); else vl_homogeneouskernelmap_evaluate_d(h,od,st,x);
    double ax=fabs(x); int e; frexp(ax,&e); --e; int in=x!=0&&e>-20&&e<8;
    for(int k=0;k<256;++k){ double g=flt?of[k]:od[k]; int c=k%st?-1:k/st; if(c<0||c>=D) CHECK(g==7,"entry %d outside the feature was written (%g)",k,g); else CHECK(fabs(g-want[c])<=(flt?1e-5:1e-9)*(scale)+(in?0:0),"feature %d of %.17g is %.12g, should be %.12g (stride %d, %s)",c,x,g,want[c],st,flt?"float":"double"); }
    if(in&&!fz){ double ex[64]; exact(ax,ex); double nn=0,mm=0; for(int j=0;j<D;++j){ nn+=ex[j]*ex[j]; mm+=want[j]*want[j]; } (void)nn;(void)mm; }
  }
  free(kap); free(frq); vl_homogeneouskernelmap_delete(h); CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t) one(); return orc_end(); }
