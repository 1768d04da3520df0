#include "orc.h"
#include <vl/hog.h>
static double min2(double x){ return x<.2?x:.2; }
/* features from raw cell histograms */
static void extract(double const*h,int w,int ht,int n,int var,int tr,double*f){ int A=w*ht; double*e=xmalloc(8*A); for(int q=0;q<A;++q){ e[q]=0; for(int k=0;k<n;++k){ double s=h[k*A+q]+h[(k+n)*A+q]; e[q]+=s*s; } }
  for(int y=0;y<ht;++y) for(int x=0;x<w;++x){ double F[4],T[4]={0,0,0,0}; for(int b=0;b<4;++b){ int dx=(b&1),dy=b>>1; if(tr){ int z=dx; dx=dy; dy=z; } double s=0; for(int p=dy-1;p<=dy;++p) for(int q=dx-1;q<=dx;++q){ int yy=y+p,xx=x+q; yy=yy<0?0:yy>=ht?ht-1:yy; xx=xx<0?0:xx>=w?w-1:xx; s+=e[yy*w+xx]; } F[b]=1/sqrt(s+1e-4); }
   for(int k=0;k<n;++k){ double a=h[k*A+y*w+x],c=h[(k+n)*A+y*w+x],sa=0,sb=0,sc=0; for(int b=0;b<4;++b){ double hc=min2(F[b]*(a+c)); sa+=min2(F[b]*a); sb+=min2(F[b]*c); sc+=hc; T[b]+=hc; if(var==VlHogVariantDalalTriggs) f[(b*n+k)*A+y*w+x]=hc; } if(var==VlHogVariantUoctti){ f[k*A+y*w+x]=.5*sa; f[(k+n)*A+y*w+x]=.5*sb; f[(k+2*n)*A+y*w+x]=.5*sc; } }
   if(var==VlHogVariantUoctti) for(int b=0;b<4;++b) f[(3*n+b)*A+y*w+x]=T[b]/sqrt(18.); } free(e); }
static void vote(double*h,int w,int ht,int cs,int x,int y,int o,double v){ double hx=(x+.5)/cs-.5,hy=(y+.5)/cs-.5; int bx=floor(hx),by=floor(hy); for(int p=0;p<2;++p) for(int q=0;q<2;++q){ int yy=by+p,xx=bx+q; if(yy>=0&&yy<ht&&xx>=0&&xx<w) h[o*w*ht+yy*w+xx]+=v*(p?hy-by:1-hy+by)*(q?hx-bx:1-hx+bx); } }
static int cmp(char const*what,float const*f,double const*r,int n,int A,double tol){ for(int i=0;i<n*A;++i) CHECK(fabs(f[i]-r[i])<=tol,"%s: dimension %d, cell %d is %g, should be %g",what,i/A,i%A,f[i],r[i]); return 1; }
int main(int argc,char**argv){ long it; orc_init(argc,argv,&it); for(long t=0;t<it;++t){ int W=4+rnd(12),H=4+rnd(12),C=1+rnd(3),cs=2+rnd(5),n=1+rnd(rnd(2)?4:10),var=rnd(2)?VlHogVariantUoctti:VlHogVariantDalalTriggs,tr=rnd(2),bil=rnd(2); if(rnd(2)){ W=cs*((W+cs-1)/cs); H=cs*((H+cs-1)/cs); if(W<4) W*=2; if(H<4) H*=2; } while((W+cs/2)/cs==0||(H+cs/2)/cs==0) cs--; 
  float*I=xmalloc(4*W*H*C); double sc=rnd(2)?1:255; for(int i=0;i<W*H*C;++i) I[i]=rnd(20)?rndu()*sc:0; CTX("%s image %dx%dx%d cells %d orientations %d transposed %d bilinear %d:",var==VlHogVariantUoctti?"uoctti":"dalal-triggs",W,H,C,cs,n,tr,bil); for(int i=0;i<W*H*C&&i<70;++i) ctx_add(" %.9g",I[i]);
  VlHog*g=vl_hog_new(var,n,tr); vl_hog_set_use_bilinear_orientation_assignments(g,bil); int D=vl_hog_get_dimension(g); CHECK(D==(var==VlHogVariantUoctti?3*n+4:4*n),"dimension %d",D); vl_index const*perm=vl_hog_get_permutation(g);
  for(int rep=0;rep<2;++rep) if(rep==0||rnd(4)==0){ vl_hog_put_image(g,I,W,H,C,cs); int w=(W+cs/2)/cs,h=(H+cs/2)/cs,A=w*h; CHECK((int)vl_hog_get_width(g)==w&&(int)vl_hog_get_height(g)==h,"size %d x %d",(int)vl_hog_get_width(g),(int)vl_hog_get_height(g)); double*r=xmalloc(8*A*2*n),*f=xmalloc(8*A*D); float*F=xmalloc(4*A*D),*F2=xmalloc(4*A*D); memset(r,0,8*A*2*n); int risky=0; double tol=0;
   for(int y=1;y<H-1;++y) for(int x=1;x<W-1;++x){ double gx=0,gy=0,m=0; for(int c=0;c<C;++c){ float const*p=I+c*W*H+y*W+x; double a=p[1]-p[-1],b=p[W]-p[-W]; if(a*a+b*b>m){ if(a*a+b*b<m*(1+1e-5)) risky=1; m=a*a+b*b; gx=a; gy=b; } } double s0=-1,s1=-1; int b0=-1,b1=-1; for(int k=0;k<n;++k){ double an=k*M_PI/n,s=tr?gx*sin(an)+gy*cos(an):gx*cos(an)+gy*sin(an); int b=k; if(s<0){ s=-s; b+=n; } if(fabs(s)<1e-5*sqrt(m)&&n>1) s=0; if(s>s0){ s1=s0; b1=b0; s0=s; b0=b; } else if(s>s1){ s1=s; b1=b; } }
     m=sqrt(m); if(m>0){ for(int k=0;k<n;++k){ double an=k*M_PI/n,s=fabs(tr?gx*sin(an)+gy*cos(an):gx*cos(an)+gy*sin(an)); int b=0; { double raw=tr?gx*sin(an)+gy*cos(an):gx*cos(an)+gy*sin(an); b=k+(raw<0?n:0); } if(b!=b0&&fabs(s-s0)<2e-5*m) risky=1; if(b!=b1&&b!=b0&&bil&&fabs(s-s1)<2e-5*m) risky=1; if(s<2e-5*m&&(n==1||(bil&&(b==b1||b==b0)))) risky=1; } 
      if(bil){ double an=acos(fmin(1,s0/m))/(M_PI/n); vote(r,w,h,cs,x,y,b0,m*(1-an)); if(b1>=0) vote(r,w,h,cs,x,y,b1,m*an); tol+=m*1e-3*n; } else { vote(r,w,h,cs,x,y,b0,m); tol+=m*1e-5; } } }
   if(!risky) cmp("histogram",g->hog,r,2*n,A,tol+1e-9);
   for(int i=0;i<2*n*A;++i) r[i]=g->hog[i]; extract(r,w,h,n,var,tr,f); vl_hog_extract(g,F); cmp("features",F,f,D,A,3e-5); vl_hog_extract(g,F2); cmp("features extracted again",F2,f,D,A,3e-5);
   /* flipping */
   if(!tr&&W%cs==0&&!risky){ float*J=xmalloc(4*W*H*C); for(int c=0;c<C;++c) for(int y=0;y<H;++y) for(int x=0;x<W;++x) J[c*W*H+y*W+x]=I[c*W*H+y*W+W-1-x]; VlHog*g2=vl_hog_new(var,n,0); vl_hog_set_use_bilinear_orientation_assignments(g2,bil); vl_hog_put_image(g2,J,W,H,C,cs); vl_hog_extract(g2,F2); int flat=0; for(int i=0;i<W*H*C&&!flat;++i) ; for(int d=0;d<D;++d){ CHECK(perm[d]>=0&&perm[d]<D,"permutation entry %d is %d",d,(int)perm[d]); for(int y=0;y<h;++y) for(int x=0;x<w;++x) CHECK(fabs(F2[d*A+y*w+x]-F[perm[d]*A+y*w+w-1-x])<(bil?2e-2:1e-4)||n==1,"flipped image: dimension %d cell %d,%d is %g, the permutation gives %g",d,x,y,F2[d*A+y*w+x],F[perm[d]*A+y*w+w-1-x]); } vl_hog_delete(g2); free(J); }
   free(r);free(f);free(F);free(F2); if(rep==0&&rnd(2)){ /* other image size, to reallocate the buffers */ int W2=4+rnd(8),H2=W2; if(rnd(2)){ W2=H; H2=W; } float*Z=xmalloc(4*W2*H2); memset(Z,0,4*W2*H2); if((W2+cs/2)/cs&&(H2+cs/2)/cs){ vl_hog_put_image(g,Z,W2,H2,1,cs); CHECK((int)vl_hog_get_width(g)==(W2+cs/2)/cs&&(int)vl_hog_get_height(g)==(H2+cs/2)/cs,"after an image of %d x %d: %d x %d cells",W2,H2,(int)vl_hog_get_width(g),(int)vl_hog_get_height(g)); } free(Z); } }
  { int w=(W+cs/2)/cs,h=(H+cs/2)/cs,A=w*h,dir=rnd(2),risky=0; float*M=xmalloc(4*W*H),*an=xmalloc(4*W*H); double*r=xmalloc(8*A*2*n); memset(r,0,8*A*2*n); double tot=0; for(int i=0;i<W*H;++i){ M[i]=rnd(6)?rndu():0; an[i]=rnd(8)?(rndu()*4-2)*M_PI:rndi(-4,4)*M_PI/n+1e-3; } ctx_add(" polar field, directed %d",dir);
   for(int y=0;y<H;++y) for(int x=0;x<W;++x){ float m=M[y*W+x]; double ho=(double)an[y*W+x]/(M_PI/n); int b=floor(ho),P=n*(dir?2:1); double f=ho-b; if(m<=0) continue; tot+=m; if(f<1e-4||f>1-1e-4||fabs(f-.5)<1e-4) risky=1; if(bil){ vote(r,w,h,cs,x,y,((b%P)+P)%P,m*(1-f)); vote(r,w,h,cs,x,y,(((b+1)%P)+P)%P,m*f); } else { if(f>=.5) b++; vote(r,w,h,cs,x,y,((b%P)+P)%P,m); } }
   vl_hog_put_polar_field(g,M,an,dir,W,H,cs); if(!risky||bil) cmp("polar histogram",g->hog,r,2*n,A,1e-4*(1+tot)); free(M);free(an);free(r); }
  vl_hog_delete(g); free(I); CASE(); } return orc_end(); }
