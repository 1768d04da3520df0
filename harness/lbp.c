#include "orc.h"
#include <vl/lbp.h>
static int bin_of(int s){ int n=0,j=0,i=0; for(int k=0;k<8;++k){ n+=((s>>k)&1)!=((s>>((k+1)&7))&1); j+=(s>>k)&1; if(((s>>k)&1)&&!((s>>((k+7)&7))&1)) i=k; } return n==0?56:n==2?i*7+j-1:57; }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ int W=rnd(rnd(4)?9:25),H=rnd(rnd(4)?9:25),cs=1+rnd(rnd(3)?4:12),levels=1+rnd(rnd(2)?3:9); float*I=xmalloc(4*W*H),*J=xmalloc(4*W*H); double flip=rnd(3)?1:-1; for(int i=0;i<W*H;++i) I[i]=flip*rnd(levels)+(rnd(6)?0:rndu()*1e-3); for(int y=0;y<H;++y) for(int x=0;x<W;++x) J[x*H+y]=I[y*W+x];
  CTX("image %dx%d cell size %d:",W,H,cs); for(int i=0;i<W*H&&i<90;++i) ctx_add(" %.9g",I[i]);
  VlLbp*a=vl_lbp_new(VlLbpUniform,0),*b=vl_lbp_new(VlLbpUniform,1); CHECK(vl_lbp_get_dimension(a)==58,"dimension %d",(int)vl_lbp_get_dimension(a)); for(int s=0;s<256;++s) CHECK(a->mapping[s]==bin_of(s),"pattern %d goes to bin %d, should be %d",s,a->mapping[s],bin_of(s));
  int cw=W/cs,ch=H/cs,n=cw*ch*58; float*f=xmalloc(4*n),*g=xmalloc(4*n); for(int i=0;i<n;++i) f[i]=g[i]=NAN; double*v=xmalloc(8*n); for(int i=0;i<n;++i) v[i]=0; vl_lbp_process(a,f,I,W,H,cs); vl_lbp_process(b,g,J,H,W,cs);
  static const int dx[8]={1,1,0,-1,-1,-1,0,1},dy[8]={0,1,1,1,0,-1,-1,-1}; int near=0;
  for(int y=1;y<H-1;++y) for(int x=1;x<W-1;++x){ int s=0; for(int k=0;k<8;++k) if(I[(y+dy[k])*W+x+dx[k]]>I[y*W+x]) s|=1<<k; int q=bin_of(s); double wy=(y+.5)/cs-.5,wx=(x+.5)/cs-.5; int cy=(int)floor(wy),cx=(int)floor(wx); for(int p=0;p<2;++p) for(int o=0;o<2;++o){ int yy=cy+p,xx=cx+o; if(yy>=0&&yy<ch&&xx>=0&&xx<cw) v[q*cw*ch+yy*cw+xx]+=(p?wy-cy:1-(wy-cy))*(o?wx-cx:1-(wx-cx)); } }
  for(int c=0;c<cw*ch;++c){ double m=0; for(int q=0;q<58;++q) m+=v[q*cw*ch+c]; m=sqrt(m)+1e-10; int tx=c%cw,ty=c/cw; for(int q=0;q<58;++q){ double z=v[q*cw*ch+c]/m/m,h=f[q*cw*ch+c],h2=g[q*cw*ch+tx*ch+ty]; CHECK(h>=0&&fabs(h*h-z)<=3e-5,"cell %d,%d bin %d is %g, should be %g",tx,ty,q,h,sqrt(z)); CHECK(h2>=0&&fabs(h2*h2-z)<=3e-5,"transposed: cell %d,%d bin %d is %g, should be %g",tx,ty,q,h2,sqrt(z)); } }
  vl_lbp_delete(a); vl_lbp_delete(b); free(I);free(J);free(f);free(g);free(v); CASE(); } return orc_end(); }
