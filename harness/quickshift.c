#include "orc.h"
#include <vl/quickshift.c>
static int N1,N2,K; static double*im;
static double D(int a,int b,int c,int d){ double s=(a-c)*(a-c)+(b-d)*(b-d); for(int k=0;k<K;++k){ double e=im[a+N1*b+N1*N2*k]-im[c+N1*d+N1*N2*k]; s+=e*e; } return s; }
static void check(VlQS*q,double sg,double tau,int medoid){ double*E=vl_quickshift_get_density(q),*ds=vl_quickshift_get_dists(q); int*pa=vl_quickshift_get_parents(q); int R=ceil(3*sg),T=ceil(tau);
  for(int b=0;b<N2;++b) for(int a=0;a<N1;++a){ double e=0; for(int d=0;d<N2;++d) for(int c=0;c<N1;++c) if(abs(a-c)<=R&&abs(b-d)<=R) e+=exp(-D(a,b,c,d)/(2*sg*sg)); int i=a+N1*b; CHECK(fabs(E[i]-e)<=1e-9*e,"density at (%d,%d) is %.17g, should be %.17g",a,b,E[i],e); }
  for(int b=0;b<N2;++b) for(int a=0;a<N1;++a){ int i=a+N1*b; CHECK(pa[i]>=0&&pa[i]<N1*N2,"parent of (%d,%d) is %d",a,b,pa[i]); int pc=pa[i]%N1,pd=pa[i]/N1;
    if(!medoid){ double best=INFINITY; for(int d=0;d<N2;++d) for(int c=0;c<N1;++c) if(abs(a-c)<=T&&abs(b-d)<=T&&E[c+N1*d]>E[i]){ double x=D(a,b,c,d); if(x<=tau*tau&&x<best) best=x; } 
      if(best==INFINITY) CHECK(pa[i]==i&&ds[i]==INFINITY,"(%d,%d) has no neighbour of higher density but parent %d at distance %g",a,b,pa[i],ds[i]); else { CHECK(pa[i]!=i&&E[pa[i]]>E[i]&&abs(a-pc)<=T&&abs(b-pd)<=T,"parent %d of (%d,%d) is not a neighbour of higher density",pa[i],a,b); CHECK(fabs(D(a,b,pc,pd)-best)<=1e-9*(1+best)&&fabs(ds[i]*ds[i]-best)<=1e-9*(1+best),"parent %d of (%d,%d) is at distance %.12g, recorded %.12g, the nearest is at %.12g",pa[i],a,b,sqrt(D(a,b,pc,pd)),ds[i],sqrt(best)); } }
    else { double best=0,got=-INFINITY; double w=0; for(int d=0;d<N2;++d) for(int c=0;c<N1;++c) if(abs(a-c)<=R&&abs(b-d)<=R){ double s=0,z=0; for(int l=0;l<N2;++l) for(int m=0;m<N1;++m) if(abs(a-m)<=R&&abs(b-l)<=R){ double f=exp(-D(a,b,m,l)/(2*sg*sg)),n=m*m+l*l; for(int k=0;k<K;++k){ double v=im[m+N1*l+N1*N2*k]; n+=v*v; } s-=f*D(c,d,m,l); z+=f*n; } if(s+z>best) best=s+z; if(c==pc&&d==pd) got=s+z; w=z; } CHECK(abs(a-pc)<=R&&abs(b-pd)<=R,"medoid of (%d,%d) outside the window",a,b); CHECK(fabs(got-best)<=1e-7*(1+w)||(pa[i]==i&&best<1e-7*(1+w)),"medoid of (%d,%d) scores %.12g, the best is %.12g",a,b,got,best); CHECK(fabs(ds[i]-best)<1e-7*(1+w),"score %.12g",ds[i]); } } }
static void one(void){ N1=1+rnd(9); N2=1+rnd(9); K=rnd(4); im=xmalloc(8*N1*N2*K); int lev=rnd(3); for(int i=0;i<N1*N2*K;++i) im[i]=lev==0?rndi(-2,2):lev==1?4*rndu():rndd(); double sg=rnd(3)?.3+2*rndu():.5*(1+rnd(6)),tau=rnd(3)?rndu()*8:rnd(6); int med=rnd(3)==0; CTX("%dx%d, %d channels, kernel %.17g, distance %.17g, medoid %d:",N1,N2,K,sg,tau,med); for(int i=0;i<N1*N2*K&&i<300;++i) ctx_add(" %.9g",im[i]);
  VlQS*q=vl_quickshift_new(im,N1,N2,K); if(rnd(6)==0){ sg=vl_quickshift_get_kernel_size(q); tau=vl_quickshift_get_max_dist(q); CHECK(sg>=2&&tau>=0,"defaults"); } vl_quickshift_set_kernel_size(q,sg); vl_quickshift_set_max_dist(q,tau); vl_quickshift_set_medoid(q,med); CHECK(vl_quickshift_get_kernel_size(q)==sg&&vl_quickshift_get_max_dist(q)==tau&&vl_quickshift_get_medoid(q)==med,"parameters"); vl_quickshift_process(q); check(q,sg,tau,med); if(rnd(4)==0){ ctx_add(" processed again"); tau=rnd(6); vl_quickshift_set_max_dist(q,tau); vl_quickshift_process(q); check(q,sg,tau,med); } vl_quickshift_delete(q); free(im); CASE(); }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t) one(); return orc_end(); }
