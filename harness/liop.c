#include "orc.h"
#include <vl/liop.h>
static float const*cmpv; static int cmpf(void const*a,void const*b){ float x=cmpv[*(int const*)a],y=cmpv[*(int const*)b]; return (x>y)-(x<y); }
static double px(float const*I,int L,long x,long y){ return x>=0&&y>=0&&x<L&&y<L?I[x+y*L]:0; }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ int L=3+rnd(rnd(3)?6:13),n=1+rnd(rnd(5)?4:6),nb=1+rnd(6),c=(L-1)/2,mode=rnd(4); float r=1+rndu()*(c-1); if(rnd(2)) r=1+rnd(c); float*I=xmalloc(4*L*L); for(int i=0;i<L*L;++i) I[i]=mode==0?rndi(0,3):mode==1?i*.01f*(1+rndu()*.1):rndu()*(mode==2?1:255); float th=rnd(2)?-(float)(rndu()*.2):rndu()*(mode==3?60:.3);
  CTX("side %d neighbours %d bins %d radius %.9g threshold %.9g patch:",L,n,nb,r,th); for(int i=0;i<L*L&&i<80;++i) ctx_add(" %.9g",I[i]);
  VlLiopDesc*d=vl_liopdesc_new(n,nb,r,L); int fact=1; for(int i=2;i<=n;++i) fact*=i; CHECK((int)vl_liopdesc_get_dimension(d)==fact*nb,"dimension %d",(int)vl_liopdesc_get_dimension(d)); CHECK((int)vl_liopdesc_get_num_neighbours(d)==n&&(int)vl_liopdesc_get_num_spatial_bins(d)==nb&&(float)vl_liopdesc_get_neighbourhood_radius(d)==r,"getters"); CHECK(vl_liopdesc_get_intensity_threshold(d)==(float)(-5./255),"default threshold"); vl_liopdesc_set_intensity_threshold(d,th); CHECK(vl_liopdesc_get_intensity_threshold(d)==th,"threshold");
  float*f=xmalloc(4*fact*nb),*g=xmalloc(4*fact*nb); for(int i=0;i<fact*nb;++i) f[i]=g[i]=NAN; vl_liopdesc_process(d,f,I); vl_liopdesc_process(d,g,I); CHECK(!memcmp(f,g,4*fact*nb),"processing twice differs");
  double nn=0; for(int i=0;i<fact*nb;++i){ CHECK(f[i]>=0,"entry %d is %g",i,f[i]); nn+=(double)f[i]*f[i]; } CHECK(nn<1e-20||fabs(nn-1)<1e-4,"squared norm %g",nn);
  /* reference */
  double tt=c-(double)r+.6; long t2=(long)(tt*tt); int*pix=xmalloc(L*L*4),*ord=xmalloc(L*L*4),N=0; float*v=xmalloc(L*L*4); for(int y=0;y<L;++y) for(int x=0;x<L;++x) if((x||y)&&(x-c)*(x-c)+(y-c)*(y-c)<=t2){ pix[N]=x+y*L; v[N]=I[pix[N]]; ord[N]=N; N++; }
  cmpv=v; qsort(ord,N,4,cmpf); int risky=0; int area=N/nb; if(area==0) risky=1; for(int i=0;i+1<N;++i) if(v[ord[i]]==v[ord[i+1]]&&(area==0||i/area!=(i+1)/area)&&i/(area?area:1)<nb-1) risky=1;
  float T=th<0?-th*(v[ord[N-1]]-v[ord[0]]):th; double*h=xmalloc(8*fact*nb); for(int i=0;i<fact*nb;++i) h[i]=0;
  for(int i=0;i<N&&!risky;++i){ int bin=i/area<nb-1?i/area:nb-1,x=pix[ord[i]]%L,y=pix[ord[i]]/L; double a0=atan2(y-c,x-c); float w[8]; for(int k=0;k<n;++k){ double X=x-c+r*cos(a0+2*M_PI/n*k)+c,Y=y-c+r*sin(a0+2*M_PI/n*k)+c; long ix=floor(X),iy=floor(Y); double wx=X-ix,wy=Y-iy; 
     double A=ix>=0&&iy>=0?px(I,L,ix,iy):0,B=ix<L-1&&iy>=0?px(I,L,ix+1,iy):0,C=ix>=0&&iy<L-1?px(I,L,ix,iy+1):0,D=ix<L-1&&iy<L-1?px(I,L,ix+1,iy+1):0; w[k]=(1-wy)*(A+(B-A)*wx)+wy*(C+(D-C)*wx); if(fabs(X-rint(X))<1e-6&&0) risky=1; }
    int p[8],wt=0,idx=0; for(int k=0;k<n;++k) p[k]=k; for(int k=0;k<n;++k) for(int q=k+1;q<n;++q){ double df=fabs(w[k]-w[q]); wt+=df>T; if(fabs(df-T)<1e-5*(1+fabs(T)+fabs(w[k]))) risky=1; if(df<1e-5*(1+fabs(w[k]))&&w[k]!=w[q]) risky=1; if(w[k]==w[q]) risky=1; } cmpv=w; qsort(p,n,4,cmpf); cmpv=v;
    for(int k=0;k<n;++k){ int less=0; for(int q=k+1;q<n;++q) less+=p[q]<p[k]; idx=idx*(n-k)+less; } h[bin*fact+idx]+=wt; }
  if(!risky){ double m=0; for(int i=0;i<fact*nb;++i) m+=h[i]*h[i]; m=sqrt(m); for(int i=0;i<fact*nb;++i){ double z=m>0?h[i]/m:0; CHECK(fabs(f[i]-z)<1e-5,"entry %d (bin %d, permutation %d) is %g, should be %g",i,i/fact,i%fact,f[i],z); } }
  vl_liopdesc_delete(d); free(I);free(f);free(g);free(pix);free(ord);free(v);free(h); CASE(); } return orc_end(); }
